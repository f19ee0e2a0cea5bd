------------------------------ MODULE MCJudge -------------------------------
(* Judges behaviour recorded from the package.  Every entry is stepped      *)
(* through: the decoder line by line, the writer call by call.  Exactly one *)
(* verdict is printed for each entry.                                       *)
(*   m: in, st, cal       a stream, and what Decode returned for it         *)
(*   w: cal, wire         a calendar, and what Encode wrote for it          *)
(*   f: full, calls, fail, ret   the calls of the writer, and what Encode   *)
(*      returned; the last call is the one that failed, if one did          *)
EXTENDS Writing, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES no, entry, pos, steps, dec, verdict
View == <<no, pos, verdict>>
Init == LET T == Trace
        IN /\ no \in 1..Len(T)
           /\ entry = T[no]
           /\ pos = 0
           /\ steps = IF T[no].k = "f" THEN T[no].calls ELSE SplitLines(Unfold(IF T[no].k = "m" THEN T[no].in ELSE T[no].wire))
           /\ dec = IF T[no].k = "f" THEN WriterInit ELSE DecInit
           /\ verdict = ""
Same(a, b) == a.c = b.c /\ Canon(a) = Canon(b)
\* How many lines there are of each name.
Names(lines) == LET ns == [j \in 1..Len(lines) |-> Upper(Lex(lines[j]).n)]
                IN [x \in ToSet(ns) |-> Cardinality({j \in 1..Len(ns) : ns[j] = x})]
DecVerdict == LET o == Outcome(dec)
              IN IF o.st = "any" \/ (o.st = "no" /\ entry.st # "no" /\ HalfBroken(steps)) THEN "ok"
                 ELSE IF o.st = "no" THEN (IF entry.st = "no" THEN "ok" ELSE "Decode accepted a document that has to be rejected")
                 ELSE IF entry.st = "no" THEN "Decode rejected a document that has to be accepted"
                 ELSE IF Same(o.cal, entry.cal) THEN "ok" ELSE "Decode returned another calendar"
WireVerdict == LET o == Outcome(dec)
               IN IF ~WellFormedOutput(entry.wire) THEN "the output is not a sequence of well-formed lines"
                  ELSE IF o.st # "ok" THEN "the output is not a valid calendar"
                  ELSE IF ~Same(o.cal, entry.cal) THEN "the output means another calendar"
                  ELSE IF Names(steps) # Names(EncodeLines(entry.cal)) THEN "the output has other content lines than the calendar"
                  ELSE "ok"
WriterVerdict == IF dec.st = "astray" THEN "what was delivered is not a prefix of the output"
                 ELSE IF entry.fail = "late" THEN "the writer was called again after it failed"
                 ELSE IF entry.fail = "no" /\ ~MayReturn(entry.full, dec) THEN "Encode returned before everything was delivered"
                 ELSE IF entry.ret # Returns(entry.full, dec).ret THEN "Encode did not return what it has to"
                 ELSE "ok"
StepF == LET last == pos + 1 = Len(steps)
         IN dec' = IF ~Delivers(entry.full, dec, steps[pos + 1]) THEN [dec EXCEPT !.st = "astray"]
                 ELSE IF last /\ entry.fail = "yes" THEN WriteFails(dec, Len(steps[pos + 1])) ELSE WriteOk(dec, Len(steps[pos + 1]))
Next == \/ /\ pos < Len(steps) /\ dec.st # "astray"
           /\ pos' = pos + 1
           /\ IF entry.k = "f" THEN StepF ELSE dec' = Feed(dec, <<steps[pos + 1]>>)
           /\ UNCHANGED <<no, entry, steps, verdict>>
        \/ /\ (pos = Len(steps) \/ dec.st = "astray") /\ verdict = ""
           /\ verdict' = (CASE entry.k = "m" -> DecVerdict [] entry.k = "w" -> WireVerdict [] entry.k = "f" -> WriterVerdict)
           /\ UNCHANGED <<no, entry, pos, steps, dec>>
Emit == verdict # "" => PrintT("@" \o ToJson([i |-> entry.i, k |-> entry.k, verdict |-> verdict, entry |-> IF verdict = "ok" THEN "" ELSE ToString(entry)]))
=============================================================================
