------------------------------- MODULE MCGrow -------------------------------
(* Values with an inner grammar, built up piece by piece: durations, UTC    *)
(* offsets, dates and times, recurrence rules, numbers.                     *)
EXTENDS Grow
DurTokens == <<"-", "+", "P", "T", "W", "D", "H", "M", "S", "0", "12">>
OffTokens == <<"+", "-", "00", "01", "59", "60", "99", "0", "a">>
Years == <<"0000", "0001", "1900", "2000", "2023", "2024", "9999", "202">>
Months == <<"00", "01", "02", "04", "06", "09", "11", "12", "13", "1">>
Days == <<"00", "01", "28", "29", "30", "31", "32", "1">>
Hours == <<"00", "12", "23", "24", "1">>
Sixty == <<"00", "30", "59", "60", "5">>
Parts1 == <<"FREQ=SECONDLY", "FREQ=YEARLY", "COUNT=2", "WKST=MO", "BYDAY=1MO,-2FR", "freq=DAILY", "UNTIL=20241231">>
Parts == <<";FREQ=MONTHLY", ";COUNT=2", ";COUNT=0", ";UNTIL=20241231", ";UNTIL=20241231T000000Z", ";INTERVAL=3", ";BYSECOND=0,60", ";BYMINUTE=59", ";BYHOUR=23,0", ";BYDAY=MO", ";BYDAY=-1SU,53SA", ";BYMONTHDAY=-31", ";BYYEARDAY=366",
           ";BYWEEKNO=-53,1", ";BYMONTH=12", ";BYSETPOS=-366", ";WKST=TU", ";X=1", ";", ";BYHOUR=24", ";BYMONTH=0">>
InFreeBusy(pre, toks, post) == [before |-> CalHead \o <<"BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20240101T000000Z">>, pre |-> pre, tok |-> toks, max |-> Len(toks), post |-> post, after |-> <<"END:VFREEBUSY">> \o CalTail]
InZone(pre, tok, max) == [before |-> TzHead \o <<"BEGIN:DAYLIGHT", "DTSTART:20240101T000000", "TZOFFSETFROM:+0200">>, pre |-> pre, tok |-> <<tok>>, max |-> max, post |-> "", after |-> <<"END:DAYLIGHT">> \o TzTail]
Families ==
    ( "duration" :> InEvent("DURATION:", DurTokens, IfThorough(9, 7), "")
   @@ "period" :> InFreeBusy("FREEBUSY:20240229T235959Z/", <<<<"", "+", "-", "P", "20240301T", "20240229T", "20240230T">>, <<"", "P", "00", "23", "1">>, <<"", "1D", "2W", "T", "59">>, <<"T", "1H", "59", "58", "">>, <<"1M", "Z", "", "30S">>>>, "")
   @@ "offset" :> InZone("TZOFFSETTO:", OffTokens, IfThorough(5, 4))
   @@ "date" :> Staged("DTSTART;VALUE=DATE:", <<Years, Months, Days>>, "")
   @@ "day" :> Staged("DTSTART:", <<Years, Months, Days, <<"T000000", "T000000Z", "T", "">>>>, "")
   @@ "zoned" :> Staged("DTSTART;TZID=America/Argentina/Buenos_Aires:", <<SubSeq(Years, 4, 6), Months, Days>>, "T123456")
   @@ "time" :> Staged("DTSTART:20240615T", <<Hours, Sixty, Sixty, <<"", "Z", "z", "+01", " ">>>>, "")
   @@ "recur" :> InEvent("RRULE:", <<>>, 0, "")
   @@ "integer" :> InEvent("PRIORITY:", <<"-", "+", "0", "1", "21474836", "47", "48", " ", "a">>, IfThorough(5, 4), "")
   @@ "geo" :> InEvent("GEO:", <<"-", "+", ".", ";", "0", "12", "a", "5;6", " ">>, IfThorough(5, 4), "")
   @@ "base64" :> InEvent("ATTACH;VALUE=BINARY;ENCODING=BASE64:", <<"QUJD", "Q", "QQ", "=", "A", "+/", "-", "\t">>, IfThorough(6, 4), "") )
Fams == [Families EXCEPT !["recur"].tok = <<Parts1, Parts>>, !["recur"].max = IfThorough(4, 3)]
\* A duration that has gone wrong stays wrong.
Hopeless(f, x) == CASE f = "duration" -> FoldS(DurStep, DurInit, x).ph = "bad"
                    [] f = "offset" -> Len(x) > 7
                    [] OTHER -> FALSE
Go(f, x) == ~Hopeless(f, x)
Before == GrowBefore(Fams)
Only(fs) == GrowInit(Fams) /\ family \in fs
InitDur == Only({"duration", "period", "offset"})
InitDate == Only({"date", "day", "time", "zoned"})
InitRecur == Only({"recur"})
InitScalar == Only({"integer", "geo", "base64"})
Next == GrowNext(Fams, Go)
Emit == GrowEmit(Fams, Before)
Hopes == (family = "duration" /\ Hopeless(family, grown)) => ParseDuration(grown).st = "no"
\* What was read is written in a form that means the same.
Rewrites == /\ family = "duration" => LET r == ParseDuration(grown) IN r.st = "ok" => ParseDuration(FormatDuration(r.v)) = r
            /\ family = "offset" => LET r == ParseOffset(grown) IN r.st = "ok" => ParseOffset(FormatOffset(r.v)) = r
            /\ family = "recur" => LET r == ParseRecur(<<>>, grown) IN r.st = "ok" => ParseRecur(<<>>, FormatRecur(r.v)) = r
=============================================================================
