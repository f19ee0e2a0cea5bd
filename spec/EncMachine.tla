----------------------------- MODULE EncMachine -----------------------------
(* The encoder on each of the given calendars, followed by the decoder on   *)
(* the lines it wrote.                                                      *)
EXTENDS Gen
VARIABLES src, phase, written, pos, dec
vars == <<src, phase, written, pos, dec>>
Cal == src.cal
View == <<src.no, phase, pos>>
\* cals: sequence of [note, cal]
Start(cals) == Numbered(Part(cals), LAMBDA x : src = x) /\ phase = "check" /\ written = <<>> /\ pos = 0 /\ dec = DecInit
\* The same with n calendars made when they are needed.
StartWith(n, base, cal(_)) == (\E z \in 1..n : Mine(z) /\ src = [no |-> base + z] @@ cal(z)) /\ phase = "check" /\ written = <<>> /\ pos = 0 /\ dec = DecInit
Check == /\ phase = "check"
         /\ IF ValidComp(Cal) THEN phase' = "read" /\ written' = EncodeLines(Cal) ELSE phase' = "reject" /\ written' = <<>>
         /\ UNCHANGED <<src, pos, dec>>
Read == /\ phase = "read"
        /\ IF pos < Len(written) THEN pos' = pos + 1 /\ dec' = Feed(dec, <<written[pos + 1]>>) /\ phase' = phase
           ELSE phase' = "end" /\ UNCHANGED <<pos, dec>>
        /\ UNCHANGED <<src, written>>
Next == Check \/ Read

\* Nothing is written for an invalid calendar.
NothingWritten == phase = "reject" => written = <<>>
\* A line is never rejected, and the calendar is closed by the last line only.
Reads == phase = "read" => dec.st # "err" /\ (dec.st = "done" => pos = Len(written))
RoundTrip == phase = "end" => Outcome(dec) = [st |-> "ok", cal |-> Canon(Cal)]
Folds == (phase = "read" /\ pos = 0) =>
            \A j \in 1..Len(written) : LET p == FoldLine(written[j])
                                  IN GoodLines(p) /\ SplitLines(Unfold(Wire(p))) = <<written[j]>>

Emit == /\ phase = "end" => EmitCase([k |-> "e", note |-> src.note, cal |-> Cal, st |-> "ok",
                                   canon |-> Canon(Cal), wire |-> Physical(written)])
        /\ phase = "reject" => EmitCase([k |-> "e", note |-> src.note, cal |-> Cal, st |-> "no"])
=============================================================================
