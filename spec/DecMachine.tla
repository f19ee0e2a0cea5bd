----------------------------- MODULE DecMachine -----------------------------
(* The decoder fed line by line with each of the given documents.           *)
EXTENDS Gen
VARIABLES theDoc, pos, dec
vars == <<theDoc, pos, dec>>
Lines == theDoc.lines
View == <<theDoc.no, pos>>
\* docs: sequence of [note, lines]
Start(docs) == Numbered(Part(docs), LAMBDA x : theDoc = x) /\ pos = 0 /\ dec = DecInit
Next == pos < Len(Lines) /\ pos' = pos + 1 /\ dec' = Feed(dec, <<Lines[pos + 1]>>) /\ UNCHANGED theDoc

TypeOK == /\ dec.st \in {"start", "run", "done", "err"}
          /\ (dec.st = "run" <=> dec.fs # <<>> /\ dec.st # "err")  \/ dec.st = "err"
          /\ dec.st = "done" => dec.fs = <<>> /\ dec.cal.c = "VCALENDAR" /\ Complete(dec.cal)
\* Open components: each where it is allowed, and everything inside a skipped one is skipped.
Nested == dec.st = "run" =>
            /\ dec.fs[1].c.c = "VCALENDAR"
            /\ \A j \in 2..Len(dec.fs) : dec.fs[j].k = "comp" => dec.fs[j].c.c \in ToSet(CompDef[dec.fs[j - 1].c.c].subs)
            /\ \A j \in 2..Len(dec.fs) : dec.fs[j - 1].k = "skip" => dec.fs[j].k = "skip"
\* Nothing after a failure or after the end of the calendar matters.
Sticky == [][dec.st \in {"err", "done"} => dec' = dec]_vars
\* A decoded calendar is one the encoder accepts, and it survives the trip.
Stable == (pos = Len(Lines) /\ dec.st = "done" /\ ~dec.open /\ ~MentionsZero(dec.cal)) =>
             ValidComp(dec.cal) /\ DecodeLines(EncodeLines(dec.cal)) = [st |-> "ok", cal |-> Canon(dec.cal)]

Emit == pos = Len(Lines) =>
          LET o == Outcome(dec)
          IN EmitCase([k |-> "d", note |-> theDoc.note, lines |-> Lines, st |-> o.st, cal |-> o.cal])
=============================================================================
