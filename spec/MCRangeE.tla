----------------------------- MODULE MCRangeE -------------------------------
(* The same calendars, encoded.                                             *)
EXTENDS EncMachine, Ranges
Read1(docs) == SelectSeq(Map(LAMBDA d : [note |-> d.note, o |-> DecodeLines(d.lines)], Part(docs)), LAMBDA r : r.o.st = "ok")
Opening2(docs, cals) == Numbered(Map(LAMBDA r : C(r.note, r.o.cal), Read1(docs)) \o Part(cals), LAMBDA x : src = x) /\ phase = "check" /\ written = <<>> /\ pos = 0 /\ dec = DecInit
\* Dates at every time of the day.
DayTimes == Map(LAMBDA z : C("dates in " \o z, SiteCal("VEVENT", Entry("VEVENT", "EXDATE"), Map(LAMBDA t : Inst("DATE", <<"20240615", t, z>>, Empty), Clock \o <<"235959", "235900", "235930", "000001", "000059", "115959">>))),
                <<"UTC", "LOCAL", "Asia/Tokyo", "America/New_York", "FIXED+0530", "FIXED-0800">>)
InitDate == Opening2(DateRange, DayTimes)
Opening(docs) == Opening2(docs, <<>>)
InitAmount == Opening(AmountRange)
InitRecur == Opening(RecurRange1)
InitScalar == Opening(ScalarRange)
\* What can be read can be written.
Writable == phase # "reject"
ReadAll == phase = "read" /\ pos = 0 /\ pos' = Len(written) /\ dec' = Feed(dec, written) /\ phase' = "end" /\ UNCHANGED <<src, written>>
Whole == Check \/ ReadAll
=============================================================================
