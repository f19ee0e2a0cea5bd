------------------------------ MODULE MCRange -------------------------------
(* Documents with every value of a small range.                             *)
EXTENDS DecMachine, Ranges
\* The documents are long, so they are read in one step.
InitDate == Start(DateRange)
InitAmount == Start(AmountRange)
InitRecur == Start(RecurRange1 \o PairRules)
InitScalar == Start(ScalarRange)
Whole == pos = 0 /\ pos' = Len(Lines) /\ dec' = Feed(dec, Lines) /\ UNCHANGED theDoc
=============================================================================
