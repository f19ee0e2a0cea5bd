------------------------------- MODULE Ranges -------------------------------
(* Every value of a small range, many of them in one document: the days of  *)
(* a year, the hours, minutes and seconds, amounts of every unit, offsets,  *)
(* numbers, octets, the numbers of every part of a rule.                    *)
EXTENDS Gen
Event(ls) == Doc("VEVENT", RequiredLines("VEVENT", {}) \o ls)
Upto(a, b) == [z \in 1..(b - a + 1) |-> a + z - 1]
P2(n) == Pad(n, 2)
Pairs2(n) == Map(P2, Upto(0, n))

\* Dates and times.
SomeYears == <<1, 4, 99, 100, 400, 1000, 1582, 1600, 1752, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2100, 2106, 4000, 9996, 9999>>
Years == IF Thorough THEN SomeYears ELSE [z \in 1..4 |-> Nth(SomeYears, 7 * z + Seed)] \o <<2024, 1 + (Mix(Seed, 77) % 9998)>>
DaysOf(y) == SelectSeq(Concat(Map(LAMBDA m : Map(LAMBDA d : Pad(y, 4) \o P2(m) \o P2(d), Upto(1, DaysIn(y, m))), Upto(1, 12))), LAMBDA d : d # "00010101")
YearDocs == Concat(Map(LAMBDA y : <<D("the days of the year " \o ToString(y), Event(Map(LAMBDA d : "EXDATE;VALUE=DATE:" \o d, DaysOf(y)))),
                                   D("the days of the year " \o ToString(y) \o ", with times", Event(Map(LAMBDA d : "RDATE:" \o d \o "T" \o SubSeq(d, 5, 8) \o SubSeq(d, 7, 8) \o "Z", DaysOf(y))))>>, Years))
Clock == Map(LAMBDA h : h \o "0000", Pairs2(23)) \o Map(LAMBDA m : "12" \o m \o "00", Pairs2(59)) \o Map(LAMBDA s : "1234" \o s, Pairs2(59))
ClockDocs == <<D("the clock, floating", Event(Map(LAMBDA t : "EXDATE:20240615T" \o t, Clock))), D("the clock, UTC", Event(Map(LAMBDA t : "EXDATE:20240615T" \o t \o "Z", Clock))),
               D("the clock, zone", Event(Map(LAMBDA t : "RDATE;TZID=Asia/Tokyo:20240615T" \o t, Clock))), D("the clock, periods", Event(Map(LAMBDA t : "RDATE;VALUE=PERIOD:20240615T" \o t \o "Z/20240616T" \o t \o "Z", Clock)))>>
\* The days around the ends of the months, one to a document, so that wrong ones are seen.
EdgeYear == Nth(<<2023, 2024, 2100, 2000, 1900>>, Seed)
Edges == Concat(Map(LAMBDA m : Map(LAMBDA d : Pad(EdgeYear, 4) \o P2(m) \o P2(d), <<0, 28, 29, 30, 31, 32, 40>>), Upto(0, 13)))
EdgeDocs == Map(LAMBDA d : D("the date " \o d, Event(<<"DTSTART;VALUE=DATE:" \o d>>)), Edges) \o Map(LAMBDA d : D("the time " \o d, Event(<<"DTSTART:" \o d \o "T100000Z">>)), Edges)
            \o Map(LAMBDA t : D("the time " \o t, Event(<<"DTSTART:20240615T" \o t>>)), Map(LAMBDA n : P2(n) \o "0000", Upto(22, 62)) \o Map(LAMBDA n : "00" \o P2(n) \o "00", Upto(58, 99)) \o Map(LAMBDA n : "2359" \o P2(n), Upto(58, 99)))
DateRange == YearDocs \o ClockDocs \o EdgeDocs

\* Amounts.
Busy(ps) == Doc("VFREEBUSY", RequiredLines("VFREEBUSY", {}) \o Map(LAMBDA p : "FREEBUSY:20240101T000000Z/" \o p, ps))
Ring(k, n) == Block(k, RequiredLines(k, {"TRIGGER"}) \o <<"TRIGGER:" \o n>>)
Zone(os) == Doc("VTIMEZONE", <<"TZID:z">> \o Concat(Map(LAMBDA o : <<"BEGIN:STANDARD", "DTSTART:20240101T000000", "TZOFFSETTO:" \o o, "TZOFFSETFROM:" \o Nth(os, Len(o) + 3), "END:STANDARD">>, os)))
Mixed(r) == "P" \o ToString(Mix(Seed, r) % 400) \o "DT" \o ToString(Mix(Seed + 1, r) % 100) \o "H" \o ToString(Mix(Seed + 2, r) % 100) \o "M" \o ToString(Mix(Seed + 3, r) % 100) \o "S"
AmountRange ==
    Map(LAMBDA u : D("amounts " \o u[1], Busy(Map(LAMBDA n : u[1] \o ToString(n) \o u[2], Upto(1, IfThorough(400, 130))))), <<<<"PT", "S">>, <<"PT", "M">>, <<"PT", "H">>, <<"P", "D">>, <<"P", "W">>>>)
    \o <<D("mixed amounts", Busy(Map(Mixed, Upto(1, 100)))), D("mixed amounts", Event(Concat(Map(LAMBDA r : Ring(Nth(AlarmKinds, r), Nth(<<"-", "", "+">>, r) \o Mixed(r + 200)), Upto(1, 40))))),
         D("triggers", Event(Concat(Map(LAMBDA n : Ring("VALARMAUDIO", Nth(<<"-", "">>, n) \o "PT" \o ToString(n) \o Nth(<<"M", "H", "S">>, n)), Upto(0, 70)))))>>
    \o Map(LAMBDA n : D("a length", Event(<<"DURATION:" \o Mixed(n)>>)), Upto(301, 330))
    \o <<D("offsets, hours", Zone(Map(LAMBDA h : "+" \o h \o "00", Pairs2(23)) \o Map(LAMBDA h : "-" \o h \o "30", Pairs2(23)))), D("offsets, minutes", Zone(Map(LAMBDA m : "+01" \o m, Pairs2(59)))),
         D("offsets, minutes before", Zone(Map(LAMBDA m : "-01" \o m, Pairs2(59)))), D("offsets, minutes only", Zone(Map(LAMBDA m : "-00" \o m, Tail(Pairs2(59))))), D("offsets, seconds", Zone(Map(LAMBDA s : "+0102" \o s, Pairs2(59)))),
         D("offsets, seconds before", Zone(Map(LAMBDA s : "-0102" \o s, Pairs2(59)))), D("offsets, seconds only", Zone(Map(LAMBDA s : "-0000" \o s, Tail(Pairs2(59)))))>>

\* Rules.
Rule(r) == Event(<<"RRULE:" \o r>>)
Days7 == <<"SU", "MO", "TU", "WE", "TH", "FR", "SA">>
FreqNames == <<"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY">>
Numbers(k) == LET r == RecurRange[k] IN Map(ToString, Upto(r[1], r[2])) \o (IF r[3] THEN Map(LAMBDA n : "-" \o ToString(n), Upto(r[1], r[2])) ELSE <<>>)
Keys == SelectSeq(RecurKeys, LAMBDA k : k \in DOMAIN RecurRange)
Rules1(k, l) == <<D("all of " \o k, Rule("FREQ=YEARLY;" \o k \o "=" \o Join(l, ","))), D("all of " \o k \o " backwards", Rule(k \o "=" \o Join(Reverse(l), ",") \o ";FREQ=" \o Nth(FreqNames, Seed)))>>
                \o [z \in 1..IfThorough(200, 25) |-> LET n == Pick(l, Mix(Seed, z)) IN D(k \o "=" \o n, Rule("FREQ=" \o Nth(FreqNames, z + Seed) \o ";" \o k \o "=" \o n \o (IF z % 3 = 0 THEN ";BYDAY=MO" ELSE "")))]
RecurRange1 == Concat(Map(LAMBDA k : Rules1(k, Numbers(k)), Keys))
    \o Concat(Map(LAMBDA f : Map(LAMBDA w : D("rule " \o f \o " " \o w, Rule("FREQ=" \o f \o ";WKST=" \o w \o ";BYDAY=" \o w)), Days7), FreqNames))
    \o Map(LAMBDA w : D("days " \o w, Rule("FREQ=MONTHLY;BYDAY=" \o Join(Concat(Map(LAMBDA n : <<ToString(n) \o w, "-" \o ToString(n) \o w>>, Upto(1, 53))), ",") \o "," \o w)), Days7)
    \o Map(LAMBDA n : D("count " \o ToString(n), Rule("FREQ=DAILY;COUNT=" \o ToString(n) \o ";INTERVAL=" \o ToString(131 - n))), Upto(1, 130))
    \o Map(LAMBDA y : D("until " \o ToString(y), Rule("FREQ=DAILY;UNTIL=" \o Pick(DaysOf(y), Mix(Seed, y)) \o Nth(<<"", "T235959Z", "T123000">>, y))), Map(LAMBDA z : 1 + ((z * 111 + Seed) % 9998), Upto(1, 90)))
\* Two parts together, one of them given again or wrong.
Part2 == ( "COUNT" :> <<"7", "8", "-1">> @@ "UNTIL" :> <<"20241231", "20250101T000000Z", "20241331">> @@ "INTERVAL" :> <<"2", "3", "x">> @@ "BYSECOND" :> <<"1,60", "2", "61">> @@ "BYMINUTE" :> <<"59", "0", "60">>
        @@ "BYHOUR" :> <<"23,1", "2", "24">> @@ "BYDAY" :> <<"MO,-1FR", "TU", "0MO">> @@ "BYMONTHDAY" :> <<"31,-31", "1", "0">> @@ "BYYEARDAY" :> <<"366,-1", "2", "367">> @@ "BYWEEKNO" :> <<"-53,1", "5", "54">>
        @@ "BYMONTH" :> <<"12,1", "6", "13">> @@ "BYSETPOS" :> <<"-366,2", "1", "0">> @@ "WKST" :> <<"SU", "MO", "XX">> )
Given(k, z) == k \o "=" \o Part2[k][z]
PairsOf(k, m) == LET f == "FREQ=" \o Nth(FreqNames, Len(k) + Len(m) + Seed)
                     a == Given(k, 1)
                     b == Given(m, 1)
                 IN <<f \o ";" \o a \o ";" \o b, a \o ";" \o b \o ";" \o f, f \o ";" \o a \o ";" \o b \o ";" \o Given(k, 2), a \o ";" \o f \o ";" \o a \o ";" \o b, b \o ";" \o f \o ";" \o Given(k, 2) \o ";" \o a,
                      f \o ";" \o Given(k, 3) \o ";" \o b, b \o ";" \o Given(k, 3) \o ";" \o f, b \o ";" \o a>>
\* One part twice, with every pair of some values.
Part4 == ( "INTERVAL" :> <<"1", "2", "10", "18446744073709551615">> @@ "BYSECOND" :> <<"0", "1", "60", "0,1">> @@ "BYMINUTE" :> <<"0", "1", "59", "0,1">> @@ "BYHOUR" :> <<"0", "1", "23", "0,1">> @@ "BYDAY" :> <<"SU", "MO", "-1SA", "1SU,SA">>
        @@ "BYMONTHDAY" :> <<"1", "-1", "31", "1,2">> @@ "BYYEARDAY" :> <<"1", "-1", "366", "1,2">> @@ "BYWEEKNO" :> <<"1", "-1", "53", "1,2">> @@ "BYMONTH" :> <<"1", "2", "12", "1,2">> @@ "BYSETPOS" :> <<"1", "-1", "366", "1,2">>
        @@ "WKST" :> <<"SU", "MO", "TU", "SA">> )
TwiceRules == Concat(Map(LAMBDA k : [z \in 1..16 |-> LET a == k \o "=" \o Part4[k][1 + ((z - 1) \div 4)] b == k \o "=" \o Part4[k][1 + (z % 4)]
                                                    IN D("part twice", Rule(Nth(<<"FREQ=DAILY;" \o a \o ";" \o b, a \o ";FREQ=YEARLY;" \o b, a \o ";" \o b \o ";FREQ=WEEKLY">>, z + Seed)))], SelectSeq(RecurKeys, LAMBDA k : k \in DOMAIN Part4)))
PairRules == TwiceRules \o Concat(Map(LAMBDA k : Concat(Map(LAMBDA m : Map(LAMBDA r : D("parts " \o r, Rule(r)), PairsOf(k, m)), SelectSeq(Tail(RecurKeys), LAMBDA m : m # k))), Tail(RecurKeys)))

\* Numbers, places, octets.
Todo1(n) == Block("VTODO", RequiredLines("VTODO", {}) \o <<"PRIORITY:" \o ToString(n % 10), "PERCENT-COMPLETE:" \o ToString(n % 101), "SEQUENCE:" \o ToString(n)>>)
Cals(ls) == CalHead \o ls \o CalTail
Frac(n) == ToString(n % 90) \o "." \o ToString((n * 37) % 1000)
Digit64 == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
Octet64(n) == Digit64[1 + (n \div 4)] \o Digit64[1 + 16 * (n % 4)] \o "=="
Octets64(n) == Digit64[1 + (n % 64)] \o Digit64[1 + ((n * 7) % 64)] \o Digit64[1 + ((n * 29) % 64)] \o Digit64[1 + ((63 * n + 5) % 64)]
ScalarRange ==
    <<D("numbers", Cals(Concat(Map(Todo1, Upto(0, 55))))), D("numbers", Cals(Concat(Map(Todo1, Upto(56, 110))))), D("numbers", Cals(Concat(Map(Todo1, Upto(240, 270)))))>>
    \o Map(LAMBDA n : D("number " \o ToString(n), Doc("VTODO", RequiredLines("VTODO", {}) \o <<"PRIORITY:" \o ToString(n)>>)), Upto(-2, 12)) \o Map(LAMBDA n : D("number " \o ToString(n), Doc("VTODO", RequiredLines("VTODO", {}) \o <<"PERCENT-COMPLETE:" \o ToString(n)>>)), Upto(-2, 2) \o Upto(97, 103))
    \o Map(LAMBDA n : D("number " \o n, Event(<<"SEQUENCE:" \o n>>)), Map(ToString, Upto(-3, 20)) \o <<"32767", "32768", "65535", "65536", "16777217", "2147483646">>)
    \o Map(LAMBDA s : D("places", Cals(Concat(Map(LAMBDA n : Block("VEVENT", RequiredLines("VEVENT", {}) \o <<"GEO:" \o Nth(<<"", "-">>, n) \o Frac(n + s) \o ";" \o Nth(<<"", "", "-">>, n) \o ToString(n + s) \o ".25">>), Upto(1, 60))))), <<0, 60, 120>>)
    \o <<D("octets", Event(Map(LAMBDA n : "ATTACH;ENCODING=BASE64;VALUE=BINARY:" \o Octet64(n), Upto(0, 255)))), D("triples of octets", Event(Map(LAMBDA n : "ATTACH;ENCODING=BASE64;VALUE=BINARY:" \o Octets64(n), Upto(0, 127)))),
         D("repetitions", Event(Concat(Map(LAMBDA n : Block("VALARMDISPLAY", RequiredLines("VALARMDISPLAY", {"REPEAT", "DURATION"}) \o <<"REPEAT:" \o ToString(n), "DURATION:PT" \o ToString(n) \o "M">>), Upto(1, 50)))))>>
=============================================================================
