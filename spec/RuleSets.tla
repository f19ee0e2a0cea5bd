------------------------------ MODULE RuleSets ------------------------------
EXTENDS Gen
RuleComps == SelectSeq(CompSeq, LAMBDA k : Len(CompDef[k].rules) > 0 /\ k # "VTIMEZONE")
MentionedBy(k) == UNION {{CompDef[k].rules[i][2], CompDef[k].rules[i][3]} : i \in 1..Len(CompDef[k].rules)}
\* Also where the package has no rule but RFC 5545 does, and components without any.
RuleNames(k) ==
    LET es == SelectSeq(CompDef[k].ps, LAMBDA e : e.n \in MentionedBy(k) \cup {"DURATION", "REPEAT", "DTSTART"})
    IN [i \in 1..Len(es) |-> es[i].n]
\* Each combination gives a count (0, 1 or, for repeatable ones, 2) per name.
RECURSIVE Counts(_, _)
Counts(k, ns) == IF ns = <<>> THEN {<<>>}
                 ELSE {<<x>> \o r : x \in (IF PropsOf[k][Head(ns)].c = "*" THEN 0..2 ELSE 0..1), r \in Counts(k, Tail(ns))}
AllCombos == [k \in ToSet(RuleComps) |-> SetToSeq(Counts(k, RuleNames(k)))]
Combos(k) == AllCombos[k]
\* Two variants of each value, so that every alternative type takes part in a rule.
RuleLinesV(k, c, v) == Concat([i \in 1..Len(c) |-> [x \in 1..c[i] |-> Line(Entry(k, RuleNames(k)[i]), x + v)]])
RuleLines(k, c) == RuleLinesV(k, c, Seed % 3)
\* The properties that no rule mentions.
Free(k) == SelectSeq(CompDef[k].ps, LAMBDA e : e.n \notin ToSet(RuleNames(k)) /\ e.c # "1")
ZoneParts == <<<<>>, Standard, <<"BEGIN:DAYLIGHT">> \o SubSeq(Standard, 2, 4) \o <<"END:DAYLIGHT">>, <<"BEGIN:X-PART", "END:X-PART">>>>
ZoneDocs == Concat([a \in 1..4 |-> Concat([b \in 1..4 |->
    <<D("zone parts", TzHead \o ZoneParts[a] \o ZoneParts[b] \o TzTail),
      D("zone parts", CalHead \o <<"BEGIN:VTIMEZONE">> \o ZoneParts[a] \o <<"TZID:Z">> \o ZoneParts[b] \o TzTail)>>])])
\* A zone with other properties and unknown components, and beside other zones.
ZoneMore == <<<<"TZURL:http://example.com/z">>, <<"LAST-MODIFIED:20240101T000000Z">>, <<"TZURL:http://example.com/z", "LAST-MODIFIED:20240101T000000Z">>, <<"X-PROP:x">>, <<"DTSTART:20240101T000000", "TZOFFSETTO:+0100", "TZOFFSETFROM:+0200">>,
              <<"BEGIN:X-PART">> \o Standard \o <<"END:X-PART">>, <<"BEGIN:VEVENT", "UID:x", "DTSTAMP:20240101T000000Z", "END:VEVENT">>, <<"TZNAME:x">>, <<"BEGIN:STANDARDS", "END:STANDARDS">>>>
ZoneOf(n, ls) == <<"BEGIN:VTIMEZONE", "TZID:" \o n>> \o ls \o <<"END:VTIMEZONE">>
ZoneMoreDocs == Concat([m \in 1..Len(ZoneMore) |-> Concat([p \in 1..4 |->
    <<D("zone and more", CalHead \o ZoneOf("Z", ZoneMore[m] \o ZoneParts[p]) \o CalTail), D("zone and more", CalHead \o ZoneOf("Z", ZoneParts[p] \o ZoneMore[m]) \o CalTail),
      D("zone before a zone", CalHead \o ZoneOf("Z", ZoneMore[m] \o ZoneParts[p]) \o ZoneOf("Y", Standard) \o CalTail),
      D("zone after a zone", CalHead \o ZoneOf("Y", Standard) \o ZoneOf("Z", ZoneParts[p] \o ZoneMore[m]) \o CalTail),
      D("zone and an event", EventHead \o <<"END:VEVENT">> \o ZoneOf("Z", ZoneParts[p] \o ZoneMore[m]) \o CalTail)>>])])
=============================================================================
