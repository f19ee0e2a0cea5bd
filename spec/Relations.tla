------------------------------ MODULE Relations -----------------------------
(* Documents in which properties stand side by side that one might think    *)
(* are related, but that no rule connects: earlier and later dates, other   *)
(* types, contradicting states, equal identifiers.                          *)
EXTENDS Gen
DateProps == {"DTSTAMP", "DTSTART", "DTEND", "DUE", "RECURRENCE-ID", "EXDATE", "RDATE", "COMPLETED", "CREATED", "LAST-MODIFIED"}
DatePropsOf(k) == SelectSeq(CompDef[k].ps, LAMBDA e : e.n \in DateProps)
Moments == <<"20240131T235959Z", "19991231T000000Z", "20240615T120000", "20240131", "19991231", "20240131T235959">>
\* Property e at moment m, or nothing if it has no such form.
DateLine(e, m) == IF Len(m) = 8 THEN (IF "DATE" \in ToSet(PropDef[e.d].t) THEN <<e.n \o ";VALUE=DATE:" \o m>> ELSE <<>>) ELSE <<e.n \o ":" \o m>>
Orders2 == <<<<1, 2>>, <<2, 1>>, <<1, 1>>, <<4, 5>>, <<5, 4>>, <<4, 4>>, <<1, 4>>, <<4, 1>>, <<1, 3>>, <<3, 1>>, <<6, 3>>, <<4, 6>>, <<5, 1>>, <<2, 4>>>>
DateComps == <<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "STANDARD", "DAYLIGHT">>
DatePairs == Concat(Map(LAMBDA k : LET ps == DatePropsOf(k) IN Concat([a \in 1..Len(ps) |-> Concat([b \in 1..Len(ps) |-> IF b <= a THEN <<>> ELSE Concat([o \in 1..Len(Orders2) |->
    LET x == DateLine(ps[a], Moments[Orders2[o][1]])
        y == DateLine(ps[b], Moments[Orders2[o][2]])
    IN IF x = <<>> \/ y = <<>> \/ (~Thorough /\ ps[a].n # "DTSTART" /\ (a + b + o + Seed) % 4 # 0) THEN <<>>
       ELSE <<D(k \o " " \o x[1] \o " " \o y[1], Doc(k, RequiredLines(k, {ps[a].n, ps[b].n}) \o (IF o % 2 = 0 THEN x \o y ELSE y \o x)))>>])])]), DateComps))

Event(ls) == CalHead \o <<"BEGIN:VEVENT", "UID:u", "DTSTAMP:20240101T000000Z">> \o ls \o <<"END:VEVENT">> \o CalTail
Todo(ls) == CalHead \o <<"BEGIN:VTODO", "UID:u", "DTSTAMP:20240101T000000Z">> \o ls \o <<"END:VTODO">> \o CalTail
Journal(ls) == CalHead \o <<"BEGIN:VJOURNAL", "UID:u", "DTSTAMP:20240101T000000Z">> \o ls \o <<"END:VJOURNAL">> \o CalTail
Cross(as, bs) == Concat(Map(LAMBDA a : Map(LAMBDA b : a \o b, bs), as))
\* Starts, rules, lengths and triggers.
Starts == <<<<>>, <<"DTSTART:20240131T235959Z">>, <<"DTSTART:20240131T235959">>, <<"DTSTART;VALUE=DATE:20240131">>, <<"DTSTART;TZID=Asia/Tokyo:20240131T235959">>>>
Rules == <<<<"RRULE:FREQ=DAILY;UNTIL=20230101">>, <<"RRULE:FREQ=DAILY;UNTIL=20230101T000000Z">>, <<"RRULE:FREQ=DAILY;UNTIL=20250101T000000">>, <<"RRULE:FREQ=SECONDLY;INTERVAL=2">>, <<"RRULE:FREQ=YEARLY;BYMONTH=2;BYMONTHDAY=30">>,
           <<"RRULE:FREQ=WEEKLY;BYDAY=1MO">>, <<"RRULE:FREQ=DAILY;BYWEEKNO=1">>, <<"RRULE:FREQ=MONTHLY;BYYEARDAY=1">>, <<"RRULE:FREQ=YEARLY;BYSETPOS=1">>, <<"RRULE:FREQ=WEEKLY;BYMONTHDAY=1">>, <<"RRULE:FREQ=DAILY;BYHOUR=1">>,
           <<"RRULE:FREQ=DAILY;COUNT=1", "EXDATE:20240131T235959Z">>, <<"RRULE:FREQ=DAILY", "EXDATE;VALUE=DATE:20240131", "RDATE;VALUE=PERIOD:20240131T235959Z/PT1H">>, <<"EXDATE:20240131T235959Z">>, <<"RDATE:20240131T235959Z", "RDATE:20240131T235959Z">>>>
Lengths == <<<<>>, <<"DURATION:PT1H">>, <<"DURATION:-PT1H">>, <<"DURATION:PT0S">>, <<"DURATION:P1D">>, <<"DURATION:P1W">>>>
RuleDocs == Map(LAMBDA b : D("start and rule", Event(b)), Cross(Starts, Rules)) \o Map(LAMBDA b : D("start and rule", Journal(b)), Cross(Starts, Rules)) \o Map(LAMBDA b : D("start and rule", Event(b)), Cross(Rules, Tail(Lengths)))
            \o Map(LAMBDA b : D("start and length", Event(b)), Cross(Starts, Lengths)) \o Map(LAMBDA b : D("start and length", Todo(b)), Cross(Tail(Starts), Lengths))
            \o Map(LAMBDA b : D("rule of a zone part", Doc("STANDARD", RequiredLines("STANDARD", {}) \o b)), SubSeq(Rules, 1, 11))
Triggers == <<"TRIGGER:-PT5M", "TRIGGER:PT5M", "TRIGGER:PT0S", "TRIGGER;VALUE=DATE-TIME:19991231T000000Z", "TRIGGER;VALUE=DATE-TIME:20240131T235959", "TRIGGER;RELATED=END:PT5M", "TRIGGER;RELATED=START:-PT5M">>
Repeats == <<<<>>, <<"DURATION:PT5M", "REPEAT:3">>, <<"DURATION:-PT5M", "REPEAT:0">>, <<"REPEAT:-1", "DURATION:PT0S">>, <<"DURATION:P1W", "REPEAT:2147483647">>>>
Wholes == <<<<>>, <<"DTSTART:20240131T235959Z">>, <<"DTSTART;VALUE=DATE:20240131", "DTEND;VALUE=DATE:19991231">>, <<"DTEND:20240131T235959Z">>, <<"DURATION:PT1H">>>>
Ring(k, ls) == Begin(k) \o RequiredLines(k, {"TRIGGER"}) \o ls \o End(k)
TriggerDocs == Concat([t \in 1..Len(Triggers) |-> Concat([r \in 1..Len(Repeats) |-> LET k == Nth(AlarmKinds, t + r + Seed)
                   IN IF k = "VALARMNONE" THEN <<D("trigger", Event(Nth(Wholes, t + r) \o Ring(k, <<Triggers[t]>>)))>>
                      ELSE <<D("trigger and repeat", Event(Nth(Wholes, t + r) \o Ring(k, <<Triggers[t]>> \o Repeats[r]))), D("trigger and repeat", Todo((IF (t + r) % 2 = 0 THEN <<>> ELSE <<"DUE:19991231T000000Z">>) \o Ring(k, Repeats[r] \o <<Triggers[t]>>)))>>])])
\* States.
States == Map(LAMBDA w : <<"STATUS:" \o w>>, PropDef["STATUS"].e)
Doings == <<<<>>, <<"PERCENT-COMPLETE:0">>, <<"PERCENT-COMPLETE:100">>, <<"PERCENT-COMPLETE:101">>, <<"PERCENT-COMPLETE:-1">>, <<"COMPLETED:20240131T235959Z">>, <<"COMPLETED:20240131T235959Z", "PERCENT-COMPLETE:50">>>>
Classes == Cross(<<<<>>, <<"CLASS:PUBLIC">>, <<"CLASS:CONFIDENTIAL">>>>, <<<<>>, <<"TRANSP:OPAQUE">>, <<"TRANSP:TRANSPARENT">>, <<"PRIORITY:0">>, <<"PRIORITY:10">>, <<"PRIORITY:-1">>, <<"SEQUENCE:-1">>, <<"SEQUENCE:2147483647">>>>)
StateDocs == Map(LAMBDA b : D("state of a to-do", Todo(b)), Cross(States, Doings)) \o Concat([x \in 1..Len(States) |-> [y \in 1..Len(Classes) |-> D("state of an event", Event(States[x] \o Classes[y]))]])
             \o Map(LAMBDA b : D("state of a journal", Journal(b)), States)
\* People and identifiers.
People == <<"mailto:a@example.com", "mailto:A@example.com", "mailto:b@example.com", "http://example.com/a">>
PeopleDocs == Concat([a \in 1..4 |-> Concat([b \in 1..4 |-> <<
    D("people", Event(<<"ORGANIZER:" \o People[a], "ATTENDEE:" \o People[b], "ATTENDEE:" \o People[a]>>)),
    D("people", Event(<<"ORGANIZER;SENT-BY=\"" \o People[b] \o "\":" \o People[a]>>)),
    D("people", Todo(<<"ATTENDEE;DELEGATED-TO=\"" \o People[a] \o "\";DELEGATED-FROM=\"" \o People[b] \o "\":" \o People[a]>>)),
    D("people", Event(<<"ATTENDEE;RSVP=TRUE;PARTSTAT=" \o Nth(ParamDef["PARTSTAT"].e, a + 4 * b) \o ";ROLE=" \o Nth(ParamDef["ROLE"].e, b) \o ";CUTYPE=" \o Nth(ParamDef["CUTYPE"].e, a) \o ":" \o People[b]>>)),
    D("people", Doc("VFREEBUSY", <<"UID:u", "DTSTAMP:20240101T000000Z", "ORGANIZER:" \o People[a], "ATTENDEE:" \o People[b], "FREEBUSY;FBTYPE=" \o Nth(ParamDef["FBTYPE"].e, a) \o ":20240101T000000Z/PT1H",
                                   "FREEBUSY;FBTYPE=" \o Nth(ParamDef["FBTYPE"].e, b) \o ":20240101T000000Z/PT2H", "FREEBUSY:19991231T000000Z/PT1H", "DTSTART:20240115T000000Z", "DTEND:20240116T000000Z">>))>>])])
Comp1(k, ls) == <<"BEGIN:" \o k>> \o ls \o <<"END:" \o k>>
Ids == <<"UID:u", "UID:U", "UID:u ", "UID:">>
Stamps == <<"DTSTAMP:20240101T000000Z", "DTSTAMP:19991231T000000Z">>
Marks == <<<<>>, <<"RECURRENCE-ID:20240131T235959Z">>, <<"RECURRENCE-ID;RANGE=THISANDFUTURE:20240131T235959Z">>, <<"SEQUENCE:1">>, <<"SEQUENCE:0", "RELATED-TO:u">>, <<"STATUS:CANCELLED">>>>
IdDocs == Concat([k \in 1..4 |-> Concat([i \in 1..4 |-> Concat([m \in 1..Len(Marks) |->
    LET one(kk, id, st, mk) == Comp1(kk, <<id, st>> \o (IF kk = "VFREEBUSY" THEN <<>> ELSE SelectSeq(mk, LAMBDA l : l # "STATUS:CANCELLED" \/ kk # "VFREEBUSY")))
    IN <<D("equal identifiers", CalHead \o one(TopKinds[k], Ids[1], Stamps[1], Nth(Marks, m + i)) \o one(TopKinds[k], Ids[i], Nth(Stamps, i + m), Marks[m]) \o CalTail),
         D("equal identifiers", CalHead \o one(TopKinds[k], Ids[1], Stamps[1], Marks[m]) \o one(Nth(TopKinds, (k % 4) + 1), Ids[i], Stamps[1], Marks[m]) \o one(TopKinds[k], Ids[1], Stamps[1], Marks[m]) \o CalTail)>>])])])
\* Zones: the same name again, names that are used or not, equal and contradicting offsets and starts.
Part1(c, start, to, from) == Comp1(c, <<"DTSTART:" \o start, "TZOFFSETTO:" \o to, "TZOFFSETFROM:" \o from>>)
Zone1(id, parts) == Comp1("VTIMEZONE", <<"TZID:" \o id>> \o parts)
Offsets == <<"+0100", "-0500", "+0000", "+1400", "-1300", "+9959">>
ZoneDocs1 == Concat([a \in 1..Len(Offsets) |-> Concat([b \in 1..Len(Offsets) |-> LET p == Part1("STANDARD", "20240131T000000", Offsets[a], Offsets[b]) q == Part1("DAYLIGHT", "19991231T000000", Offsets[b], Offsets[a])
    IN <<D("zone offsets", CalHead \o Zone1("Z", p \o q) \o CalTail), D("zones of one name", CalHead \o Zone1("Z", p) \o Zone1(Nth(<<"Z", "z", "Z ", "">>, a + b), q \o p \o p) \o CalTail)>>])])
             \o Concat(Map(LAMBDA z : Map(LAMBDA u : D("zone used", CalHead \o Zone1(z, Standard) \o Comp1("VEVENT", <<"UID:u", "DTSTAMP:20240101T000000Z", "DTSTART;TZID=" \o u \o ":20240131T120000">>) \o CalTail),
                           <<"Asia/Tokyo", "America/New_York", "UTC", "Nowhere/Nope">>), <<"Asia/Tokyo", "Nowhere/Nope", "UTC">>))
             \o Concat(Map(LAMBDA s : Map(LAMBDA r : D("start of a part", TzHead \o Comp1("STANDARD", <<s, "TZOFFSETTO:+0100", "TZOFFSETFROM:+0200">> \o r) \o TzTail), <<<<>>, <<"RRULE:FREQ=YEARLY;UNTIL=19700101T000000Z">>, <<"RDATE:19700101T000000">>, <<"RDATE:20240131T000000Z", "TZNAME:a", "TZNAME:a">>>>),
                           <<"DTSTART:20240131T000000Z", "DTSTART;TZID=Asia/Tokyo:20240131T000000", "DTSTART;VALUE=DATE:20240131", "DTSTART:16010101T000000">>))
Names == <<"VERSION:1.0", "VERSION:2.0", "VERSION:3.0", "VERSION:2.0\\;2.0", "VERSION:">>
HeadDocs == Concat(Map(LAMBDA v : Map(LAMBDA p : D("version and product", <<"BEGIN:VCALENDAR", v, p, "END:VCALENDAR">>), <<"PRODID:p", "PRODID:", "PRODID:-//a//b//EN">>), Names))
RelatedDocs == DatePairs \o RuleDocs \o TriggerDocs \o StateDocs \o PeopleDocs \o IdDocs \o ZoneDocs1 \o HeadDocs
=============================================================================
