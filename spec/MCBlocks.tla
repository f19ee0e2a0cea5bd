------------------------------ MODULE MCBlocks ------------------------------
(* Sequences of whole components: each keeps its own properties and         *)
(* children, whatever comes before and after it.                            *)
EXTENDS DecMachine
U(n) == "UID:u" \o n
Stamp == "DTSTAMP:20240101T000000Z"
Zone(c, n, more) == <<"BEGIN:" \o c, "DTSTART:20240101T000000", "TZOFFSETTO:+0100", "TZOFFSETFROM:+0200">> \o more \o <<"END:" \o c>>
Show(n, more) == <<"BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:d" \o n, "TRIGGER:-PT5M">> \o more \o <<"END:VALARM">>
Audio(n) == <<"BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER:PT" \o n \o "M", "ATTACH:http://example.com/" \o n, "END:VALARM">>
Within(c, ls) == <<"BEGIN:" \o c>> \o ls \o <<"END:" \o c>>
\* The block of each sort; n tells the places apart.
Blocks(n) ==
    << Within("VEVENT", <<U(n), Stamp>>),
       Within("VEVENT", <<U(n), Stamp, "SUMMARY:s" \o n, "COMMENT:c" \o n, "COMMENT:d" \o n, "SEQUENCE:" \o n, "DTSTART:2024010" \o n \o "T000000Z", "RRULE:FREQ=DAILY;COUNT=" \o n>>),
       Within("VEVENT", <<U(n)>> \o Show(n, <<>>) \o <<"CATEGORIES:a" \o n \o ",b">> \o Audio(n) \o <<Stamp>>),
       Within("VEVENT", <<Stamp>> \o Show(n, <<"UID:alarm" \o n>>) \o Show(n \o "x", <<>>) \o <<U(n)>>),
       Within("VTODO", <<U(n), Stamp, "PERCENT-COMPLETE:" \o n, "DTSTART:2024010" \o n \o "T000000Z", "DURATION:PT" \o n \o "H">>),
       Within("VTODO", Audio(n) \o <<U(n), "COMMENT:todo" \o n, Stamp>>),
       Within("VJOURNAL", <<U(n), Stamp, "DESCRIPTION:j" \o n, "DESCRIPTION:k" \o n>>),
       Within("VJOURNAL", <<Stamp, U(n)>>),
       Within("VFREEBUSY", <<U(n), Stamp, "FREEBUSY:20240101T000000Z/PT" \o n \o "H", "COMMENT:f" \o n>>),
       Within("VTIMEZONE", <<"TZID:z" \o n>> \o Zone("STANDARD", n, <<"TZNAME:s" \o n>>)),
       Within("VTIMEZONE", Zone("DAYLIGHT", n, <<"COMMENT:d" \o n, "TZNAME:x", "TZNAME:y" \o n>>) \o <<"LAST-MODIFIED:20240101T000000Z", "TZID:z" \o n>>),
       Within("VTIMEZONE", Zone("STANDARD", n, <<"RRULE:FREQ=YEARLY;COUNT=" \o n>>) \o Zone("DAYLIGHT", n, <<>>) \o <<"TZURL:http://example.com/" \o n, "TZID:z" \o n>>
                           \o Zone("STANDARD", n, <<>>)),
       Within("X-COMP", <<U(n), "BEGIN:VEVENT", "END:VEVENT">>) >>
Sorts == Len(Blocks("1"))
Longest == 3
Numerals == <<"1", "2", "3", "4">>
\* Calendar properties may stand anywhere between the components.
Whole(s) == LET b == [x \in 1..Len(s) |-> Blocks(Numerals[x])[s[x]]]
                f == FoldLeft(LAMBDA a, y : a + y, 0, s) % 3
            IN <<"BEGIN:VCALENDAR">> \o (IF f = 0 THEN <<"VERSION:2.0", "PRODID:p">> ELSE IF f = 1 THEN <<"PRODID:p">> ELSE <<>>)
               \o FoldLeft(LAMBDA a, x : a \o x \o (IF f = 1 /\ a = <<>> THEN <<"VERSION:2.0">> ELSE <<>>), <<>>, b)
               \o (IF f = 2 THEN <<"VERSION:2.0", "PRODID:p">> ELSE <<>>) \o <<"END:VCALENDAR">>
Short == SetToSeq(UNION {[1..n -> 1..Sorts] : n \in 1..2})
Longer == SetToSeq([1..3 -> 1..Sorts])
\* Of the longer ones every one, or one in four.
Chosen == Short \o (IF Thorough THEN Longer \o SetToSeq({s \in [1..4 -> 1..Sorts] : (s[1] + 3 * s[2] + 5 * s[3] + 7 * s[4] + Seed) % 6 = 0})
                    ELSE SelectSeq(Longer, LAMBDA s : (s[1] + 2 * s[2] + 3 * s[3] + Seed) % 4 = 0))
\* Sequences of parts of one time zone and of alarms of one component, other lines between them.
Parts(n) == <<Zone("STANDARD", n, <<"TZNAME:s" \o n>>), Zone("DAYLIGHT", n, <<"COMMENT:d" \o n>>), Within("X-PART", <<"TZID:x", "BEGIN:STANDARD", "END:STANDARD">>), <<"X-LINE:" \o n>>>>
Alarms(n) == <<Show(n, <<>>), Audio(n), Within("VALARM", <<"TRIGGER:PT" \o n \o "M", "ACTION:EMAIL", "DESCRIPTION:m" \o n, "SUMMARY:s", "ATTENDEE:mailto:" \o n \o "@example.com">>),
               Within("VALARM", <<"ACTION:URI", "URI:http://example.com/" \o n, "TRIGGER:PT" \o n \o "M">>), Within("VALARM", <<"ACTION:NONE", "TRIGGER:PT" \o n \o "M">>),
               Within("X-COMP", <<"BEGIN:VALARM", "END:VALARM">>)>>
Row(s, B(_)) == Concat([x \in 1..Len(s) |-> B(Numerals[x])[s[x]]])
SomeZone(s) == (1 \in ToSet(s)) \/ (2 \in ToSet(s))
PartRows == SetToSeq({s \in UNION {[1..n -> 1..4] : n \in 1..4} : SomeZone(s)})
AlarmRows == SetToSeq(UNION {[1..n -> 1..6] : n \in 1..3} \cup {s \in [1..4 -> 1..5] : (s[1] + s[2] + 2 * s[3] + s[4] + Seed) % IfThorough(1, 5) = 0})
PartDocs == [x \in 1..Len(PartRows) |-> [note |-> "zone parts in sequence", lines |-> CalHead \o Within("VTIMEZONE", IF x % 2 = 0 THEN <<"TZID:z">> \o Row(PartRows[x], Parts) ELSE Row(PartRows[x], Parts) \o <<"TZID:z">>)
    \o (IF x % 3 = 0 THEN Within("VTIMEZONE", <<"TZID:y">> \o Standard) ELSE <<>>) \o CalTail]]
AlarmDocs == [x \in 1..Len(AlarmRows) |-> [note |-> "alarms in sequence", lines |-> CalHead \o Within(IF x % 2 = 0 THEN "VEVENT" ELSE "VTODO", <<U("1")>> \o Row(AlarmRows[x], Alarms) \o <<Stamp>>)
    \o (IF x % 3 = 0 THEN Within("VEVENT", <<U("2"), Stamp>> \o Audio("9")) ELSE <<>>) \o CalTail]]
\* A component of each kind that ends with another name, or with one that is nearly the same.
Kinds == <<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARMDISPLAY", "VALARMAUDIO", "VALARMEMAIL", "X-COMP", "VCALENDAR">>
Like(n) == <<n \o "X", "X" \o n, Cut(n, Len(n) - 1), From(n, 2), "", n \o " ", " " \o n, n \o "-", "X-" \o n, n \o "," \o n, "\"" \o n \o "\"", n \o ";" \o n>>
Ending(k) == <<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "X-COMP", "X-OTHER", "VCALENDAR">> \o Like(WireName(k))
Opened(k, n) == <<"BEGIN:" \o n>> \o (IF k = "X-COMP" THEN <<"UID:x">> ELSE Tail(Begin(k)) \o RequiredLines(k, {}) \o NeededKids(k))
Nest(k, ls) == IF k = "X-COMP" THEN EventHead \o ls \o EventTail ELSE Around(k, ls)
EndDocs == Concat(Map(LAMBDA k : Map(LAMBDA n : [note |-> "end of " \o k \o " with " \o n, lines |-> Nest(k, Opened(k, IF k = "X-COMP" THEN k ELSE WireName(k)) \o <<"END:" \o n>>)], Ending(k)), Kinds))
\* A component with a name that is nearly one of those known is not known, whatever is in it.
NearDocs == Concat(Map(LAMBDA k : Map(LAMBDA n : [note |-> "name nearly " \o k, lines |-> Nest(k, Opened(k, n) \o <<"END:" \o n>> \o (IF k \in {"STANDARD", "DAYLIGHT"} THEN Standard ELSE <<>>))], Like(WireName(k))),
             SelectSeq(Kinds, LAMBDA k : k \notin {"X-COMP", "VCALENDAR"})))
\* Wrong and right ends inside a component that is not known, at several depths.
Deep(l) == CalHead \o <<"BEGIN:X-A">> \o l \o <<"END:X-A">> \o CalTail
Tags == <<"BEGIN:X-B", "END:X-B", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:X-A", "END:X-A", "END:VCALENDAR", "SUMMARY:s">>
DeepRows == SetToSeq(UNION {[1..n -> 1..Len(Tags)] : n \in 0..IfThorough(5, 4)})
DeepDocs == [x \in 1..Len(DeepRows) |-> [note |-> "inside an unknown component", lines |-> Deep([y \in 1..Len(DeepRows[x]) |-> Tags[DeepRows[x][y]]])]]
\* What may stand before the calendar: nothing at all.
Full == <<"VERSION:2.0", "PRODID:p">> \o Within("VEVENT", <<U("1"), Stamp>>) \o <<"END:VCALENDAR">>
Ahead == << <<"">>, <<"", "">>, <<" ">>, <<"X-A:b">>, <<"VERSION:2.0">>, <<"PRODID:p">>, <<"END:VCALENDAR">>, <<"END:X-A">>, <<"BEGIN:X-A">>, <<"BEGIN:X-A", "END:X-A">>, <<"BEGIN:VCARD", "VERSION:4.0", "END:VCARD">>,
            <<"BEGIN:VCALENDAR">>, <<"BEGIN:VCALENDAR", "END:VCALENDAR">>, Within("VEVENT", <<U("0"), Stamp>>), Within("VTIMEZONE", <<"TZID:z">> \o Standard), <<"--mime">>, <<"Content-Type: text/calendar">>,
            <<"Content-Type: text/calendar", "">>, <<"⑴">>, <<"#">>, <<"\t">>, <<"XX">>, <<"{">> >>
Openings == <<"BEGIN:VCALENDAR", "begin:vcalendar", "BEGIN;X=y:VCALENDAR", "BEGIN;X=\"y\",z:VCALENDAR", "BEGIN:VCALENDAR ", "BEGIN: VCALENDAR", " BEGIN:VCALENDAR", "BEGIN :VCALENDAR", "BEGIN:\"VCALENDAR\"", "\tBEGIN:VCALENDAR",
              "BEGIN:", "BEGIN", "VCALENDAR", "END:VCALENDAR", "BEGIN=VCALENDAR", "BEGIN;VCALENDAR", "BEGIN;X:VCALENDAR", "X-BEGIN:VCALENDAR", "BEGINS:VCALENDAR", "⑴BEGIN:VCALENDAR", "⑸BEGIN:VCALENDAR", "⑹BEGIN:VCALENDAR",
              "⑼BEGIN:VCALENDAR", "⑵BEGIN:VCALENDAR", "␀BEGIN:VCALENDAR", "\nBEGIN:VCALENDAR", "\rBEGIN:VCALENDAR", "\n\nBEGIN:VCALENDAR", "␦BEGIN:VCALENDAR", "BEGIN:VCALENDAR⑴", "BEGIN:⑴VCALENDAR", "BEGIN:VCALENDAR\t", ":VCALENDAR">>
            \o Map(LAMBDA n : "BEGIN:" \o n, Like("VCALENDAR") \o <<"VEVENT", "VTODO", "VTIMEZONE", "VALARM", "STANDARD", "X-COMP", "ICALENDAR">>)
StartDocs == Map(LAMBDA a : [note |-> "before the calendar", lines |-> a \o <<"BEGIN:VCALENDAR">> \o Full], Ahead) \o Map(LAMBDA o : [note |-> "opening", lines |-> <<o>> \o Full], Openings)
             \o Map(LAMBDA o : [note |-> "opening and its end", lines |-> <<o>> \o Front(Full) \o <<"END:" \o From(o, 7)>>], Openings)
\* Towers of components inside each component, wrong at one level.
Floors == <<<<"VEVENT", <<U("1"), Stamp>>>>, <<"VTODO", <<U("1"), Stamp>>>>, <<"VJOURNAL", <<U("1"), Stamp>>>>, <<"VFREEBUSY", <<U("1"), Stamp>>>>, <<"VTIMEZONE", <<"TZID:z">> \o Standard>>>>
OnFloor(f, t) == IF f = 6 THEN CalHead \o t \o Within("VEVENT", <<U("1"), Stamp>>) \o CalTail
                 ELSE IF f = 7 THEN CalHead \o Within("VTIMEZONE", <<"TZID:z">> \o Front(Standard) \o t \o <<Last(Standard)>>) \o CalTail
                 ELSE CalHead \o Within(Floors[f][1], Floors[f][2] \o t) \o CalTail
Heights == <<2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33>> \o IF Thorough THEN <<40, 64, 65, 100>> ELSE <<>>
TowerDocs == Concat(Map(LAMBDA d : Concat([z \in 1..(d + 1) |-> Map(LAMBDA t : D("tower", OnFloor(1 + ((z + t + d + Seed) % 7), Tower(d, z + d, z - 1, t))),
                                                                  IF z = 1 THEN <<1, 2>> ELSE IF d < 12 THEN <<1, 2, 3, 4, 5>> ELSE IF z \in {2, 3, d, d + 1} \/ (z + Seed) % 5 = 0 THEN <<1, 4>> ELSE <<>>)]), Heights))
\* Components of one kind that differ in one property, which some of them lack; each stays where it is.
Tells == {"UID", "TZID", "TRIGGER", "TZNAME"}
Must(k, ns, j) == LET es == SelectSeq(RequiredSeq(k), LAMBDA e : e.n \notin ns) IN [y \in 1..Len(es) |-> Line(es[y], IF es[y].n \in Tells THEN j ELSE 1)]
Having(k, e, j) == Block(k, Must(k, {e.n}, j) \o WithLines(k, e.n, {}) \o <<Line(e, j)>>)
Lacking(k, j) == Block(k, Must(k, {}, j))
UnevenDocs == Concat(Map(LAMBDA s : LET k == s[1] e == s[2] h(j) == Having(k, e, j) l(j) == Lacking(k, j) d(x) == D("one kind, " \o k \o "." \o e.n, Around(k, x))
                 IN <<d(h(1) \o l(2) \o h(2) \o l(1) \o h(1)), d(l(2) \o h(2) \o h(1) \o l(1)), d(h(3) \o h(2) \o h(1) \o l(3)), d(l(1) \o h(1) \o h(2) \o h(3)), d(h(2) \o h(2) \o h(1) \o h(1) \o h(2))>>,
               SelectSeq(SiteSeq, LAMBDA s : s[1] # "VCALENDAR")))
\* Components of one kind with much in each.
MuchDocs == Concat(Map(LAMBDA k : [r \in 1..IfThorough(40, 8) |-> D("one kind, much in each: " \o k, Around(k, Concat([y \in 1..(2 + (r % 4)) |->
                 LET z == Mix(Seed + r, y) IN IF k \in {"VEVENT", "VTODO"} /\ z % 4 = 0 THEN SlimBlock(k, 1, z % 9) ELSE Block(k, Fix(k, RandomBody(k, z)))])))], SelectSeq(CompSeq, LAMBDA k : k # "VCALENDAR")))
\* Parameters of the lines that begin and end a component.
TagParams == <<";X=y", ";X=\"y\",z", ";VALUE=TEXT", ";X=y;Z=w", ";X=VEVENT", ";VALARM=VALARM", ";X=,", ";X=y;X=y;X=y;X=y;X=y">>
Tagged(l, a, b) == [y \in 1..Len(l) |-> IF StartsWith(l[y], "BEGIN:") /\ a # "" THEN "BEGIN" \o a \o From(l[y], 6) ELSE IF StartsWith(l[y], "END:") /\ b # "" THEN "END" \o b \o From(l[y], 4) ELSE l[y]]
TagDocs == Concat(Map(LAMBDA k : Concat(Map(LAMBDA t : LET l == Block(k, RequiredLines(k, {})) IN
              <<D("parameters of begin " \o k, Around(k, Tagged(l, t, ""))), D("parameters of end " \o k, Around(k, Tagged(l, "", t))), D("parameters of both " \o k, Around(k, Tagged(l, t, t))),
                D("parameters of all " \o k, Tagged(Around(k, l), t, t)), D("parameters of ends " \o k, Tagged(Around(k, l \o (IF k = "VCALENDAR" THEN <<>> ELSE l)), "", t))>>, TagParams)), CompSeq))
           \o Concat(Map(LAMBDA t : Map(LAMBDA e : D("parameters inside an unknown component", Deep(Tagged(<<"BEGIN:X-B", "BEGIN:VEVENT", "END:" \o e, "END:X-B">>, t, t))), <<"VEVENT", "X-B", "X", "Y", "VALARM", "">>), TagParams))
TheDocs == TagDocs \o UnevenDocs \o MuchDocs \o TowerDocs \o StartDocs \o EndDocs \o NearDocs \o DeepDocs \o PartDocs \o AlarmDocs \o Map(LAMBDA s : [note |-> "sequence of components", lines |-> Whole(s)], Chosen)
Init == Start(TheDocs)
AllGood == pos = Len(Lines) /\ theDoc.note \in {"sequence of components", "zone parts in sequence", "alarms in sequence"} => Outcome(dec).st = "ok"
=============================================================================
