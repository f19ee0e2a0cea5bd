----------------------------- MODULE MCRelateE ------------------------------
(* The same calendars, encoded.                                             *)
EXTENDS EncMachine, Relations
Read1 == Map(LAMBDA d : [note |-> d.note, o |-> DecodeLines(d.lines)], Part(RelatedDocs))
TheCals == Map(LAMBDA r : C(r.note, r.o.cal), SelectSeq(Read1, LAMBDA r : r.o.st = "ok"))
Init == Numbered(TheCals, LAMBDA x : src = x) /\ phase = "check" /\ written = <<>> /\ pos = 0 /\ dec = DecInit
\* What can be read can be written.
Writable == phase # "reject"
=============================================================================
