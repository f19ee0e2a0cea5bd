------------------------------ MODULE MCRulesE ------------------------------
(* The same combinations as calendars to encode.                            *)
EXTENDS EncMachine, RuleSets
\* Combination c as a component; a list property may also be there but empty.
Made(k, c, v, empty) ==
    LET x == CompFrom(k, RequiredLines(k, {}) \o RuleLinesV(k, c, v))
    IN FoldLeft(LAMBDA a, n : IF PropsOf[k][n].c = "*" /\ n \notin DOMAIN a.p THEN SetProp(a, n, <<>>) ELSE a, x, IF empty THEN RuleNames(k) ELSE <<>>)
\* The component before, after and between harmless ones; alarms in a VTODO too.
TodoBase == CompFrom("VTODO", <<"UID:t1", "DTSTAMP:20240101T000000Z">>)
Row(k, x, z) == LET h == Minimal(k) IN Nth(<<<<h, x>>, <<x, h>>, <<h, x, h>>>>, z)
Placed(k, x, z) ==
    IF k \in AlarmKindSet THEN AddKids(CalBase, IF z % 2 = 0 THEN "VEVENT" ELSE "VTODO", <<AddKids(IF z % 2 = 0 THEN EventBase ELSE TodoBase, "VALARM", Row(k, x, z \div 2))>>)
    ELSE AddKids(CalBase, k, Row(k, x, z))
Ringing == <<CompFrom("VALARMAUDIO", <<"TRIGGER:PT1M", "DURATION:PT1M", "REPEAT:1">>), CompFrom("VALARMDISPLAY", <<"DURATION:PT1M", "TRIGGER:PT1M", "DESCRIPTION:d">>), CompFrom("VALARMNONE", <<"TRIGGER:PT1M">>),
             CompFrom("VALARMEMAIL", <<"TRIGGER;VALUE=DATE-TIME:20240101T000000Z", "DURATION:PT1M", "REPEAT:1", "DESCRIPTION:d", "SUMMARY:s", "ATTENDEE:mailto:x@example.com", "PROXIMITY:p", "GEO-LOCATION:geo:1">>)>>
TheCals ==
    Concat(Map(LAMBDA k : Concat([x \in 1..Len(Combos(k)) |-> Concat([v \in 1..4 |->
        <<C(k \o " rules", Wrap(k, Made(k, Combos(k)[x], v, FALSE))), C(k \o " rules", Wrap(k, Made(k, Combos(k)[x], v, TRUE))),
          C(k \o " rules placed", Placed(k, Made(k, Combos(k)[x], v, FALSE), x + v))>>])]), RuleComps))
    \o Concat(Map(LAMBDA k : Concat([x \in 1..Len(Combos(k)) |-> Concat([y \in 1..Len(Free(k)) |->
         IF Free(k)[y].c = "*" /\ k \in {"VEVENT", "VTODO"} /\ (x + y + Seed) % IfThorough(1, 3) # 0 THEN <<>>
         ELSE <<C(k \o " rules beside " \o Free(k)[y].n, Wrap(k, CompFrom(k, RequiredLines(k, {}) \o RuleLinesV(k, Combos(k)[x], x + y) \o <<Line(Free(k)[y], x + y + Seed)>>)))>>])]), RuleComps))
    \o Concat(Map(LAMBDA k : Concat([x \in 1..Len(Combos(k)) |-> Map(LAMBDA a : C(k \o " rules and an alarm", AddKids(CalBase, k, <<AddKids(Made(k, Combos(k)[x], x, FALSE), "VALARM", <<a>>)>>)), Ringing)]), <<"VEVENT", "VTODO">>))
    \o Concat(Map(LAMBDA m : LET z == CompFrom("VTIMEZONE", <<"TZID:Z">> \o m)
                                 y == AddKids(TzBase, "STANDARD", <<StandardBase>>)
                             IN <<C("zone and more", AddKids(CalBase, "VTIMEZONE", <<z>>)), C("zone and more", AddKids(CalBase, "VTIMEZONE", <<z, y>>)), C("zone and more", AddKids(CalBase, "VTIMEZONE", <<y, z>>)),
                                  C("zone and more", AddKids(CalBase, "VTIMEZONE", <<AddKids(z, "DAYLIGHT", <<[StandardBase EXCEPT !.c = "DAYLIGHT"]>>), y>>))>>,
               SubSeq(ZoneMore, 1, 3)))
    \o Concat([a \in 1..3 |-> [b \in 1..3 |->
         C("zone parts", AddKids(CalBase, "VTIMEZONE",
            <<AddKids(AddKids(TzBase, "STANDARD", [x \in 1..(a - 1) |-> StandardBase]), "DAYLIGHT", [x \in 1..(b - 1) |-> [StandardBase EXCEPT !.c = "DAYLIGHT"]])>>))]])
Init == Start(TheCals)
=============================================================================
