------------------------------- MODULE MCRules ------------------------------
(* The rules between properties, when decoding: every combination of the    *)
(* properties that rules mention, in two orders.                            *)
EXTENDS DecMachine, RuleSets
\* A block of lines with one combination; the other properties of the component may be there as well.
Plain(k, ls) == Begin(k) \o RequiredLines(k, {}) \o ls \o End(k)
First(k, ls) == Begin(k) \o Reverse(ls) \o RequiredLines(k, {}) \o End(k)
Others(k) == LET es == SelectSeq(CompDef[k].ps, LAMBDA e : e.n \notin ToSet(RuleNames(k)))
             IN [x \in 1..Len(es) |-> LineP(es[x], x + Seed)]
Spread(k, ls) == Begin(k) \o ls \o Others(k) \o End(k)
Harmless(k) == Begin(k) \o RequiredLines(k, {}) \o End(k)
InTodo(l) == CalHead \o <<"BEGIN:VTODO", "UID:t", "DTSTAMP:20240101T000000Z">> \o l \o <<"END:VTODO">> \o CalTail
Placed(k, b) == <<Around(k, Harmless(k) \o b), Around(k, b \o Harmless(k)), Around(k, Harmless(k) \o b \o Harmless(k))>>
                \o (IF k \in AlarmKindSet THEN <<InTodo(b), InTodo(Harmless("VALARMDISPLAY") \o b)>> ELSE <<>>)
RuleDocs == Concat(Map(LAMBDA k : Concat([x \in 1..Len(Combos(k)) |-> Concat([v \in 1..4 |->
    LET ls == RuleLinesV(k, Combos(k)[x], v)
        ps == Placed(k, Plain(k, ls))
    IN <<D(k \o " rules", Around(k, Plain(k, ls))), D(k \o " rules first", Around(k, First(k, ls))), D(k \o " rules and more", Around(k, Spread(k, ls))),
         D(k \o " rules placed", Nth(ps, v + x)), D(k \o " rules placed", Nth(ps, v + x + 2))>>])]), RuleComps))
\* Beside each single other property, and (for events and to-dos) with alarms that have some of the same properties.
BesideDocs == Concat(Map(LAMBDA k : Concat([x \in 1..Len(Combos(k)) |-> Concat([y \in 1..Len(Free(k)) |->
    LET ls == RuleLinesV(k, Combos(k)[x], x + y)
        l == <<Line(Free(k)[y], x + y + Seed)>>
        r == RequiredLines(k, {})
    IN IF Free(k)[y].c = "*" /\ k \in {"VEVENT", "VTODO"} /\ (x + y + Seed) % IfThorough(1, 3) # 0 THEN <<>>
       ELSE <<D(k \o " rules beside " \o Free(k)[y].n, Around(k, Begin(k) \o Nth(<<r \o ls \o l, l \o r \o ls, ls \o l \o r, r \o l \o ls>>, x + y) \o End(k)))>>])]), RuleComps))
Ringing == <<Block("VALARMAUDIO", <<"TRIGGER:PT1M", "DURATION:PT1M", "REPEAT:1">>), Block("VALARMDISPLAY", <<"DURATION:PT1M", "TRIGGER:PT1M", "DESCRIPTION:d">>), Block("VALARMNONE", <<"TRIGGER:PT1M">>),
             Block("VALARMEMAIL", <<"TRIGGER;VALUE=DATE-TIME:20240101T000000Z", "DURATION:PT1M", "REPEAT:1", "DESCRIPTION:d", "SUMMARY:s", "ATTENDEE:mailto:x@example.com", "PROXIMITY:p", "GEO-LOCATION:geo:1">>)>>
AlarmedDocs == Concat(Map(LAMBDA k : Concat([x \in 1..Len(Combos(k)) |-> Concat([a \in 1..Len(Ringing) |->
    LET ls == RuleLinesV(k, Combos(k)[x], x + a)
        r == RequiredLines(k, {})
    IN Map(LAMBDA b : D(k \o " rules and an alarm", Around(k, Begin(k) \o b \o End(k))), <<r \o ls \o Ringing[a], Ringing[a] \o ls \o r, r \o Ringing[a] \o Reverse(ls)>>)])]), <<"VEVENT", "VTODO">>))
TheDocs == RuleDocs \o BesideDocs \o AlarmedDocs \o ZoneDocs \o ZoneMoreDocs
Init == Start(TheDocs)
=============================================================================
