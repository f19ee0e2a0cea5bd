------------------------------ MODULE MCAlarm -------------------------------
(* Alarms: the ACTION line at every position, missing, doubled, unknown;    *)
(* properties of each kind under each action.                               *)
EXTENDS DecMachine
In(host, l) == IF host = "VEVENT" THEN EventHead \o l \o EventTail
               ELSE CalHead \o <<"BEGIN:VTODO", "UID:t", "DTSTAMP:20240101T000000Z">> \o l \o <<"END:VTODO">> \o CalTail
Alarm(body) == <<"BEGIN:VALARM">> \o body \o <<"END:VALARM">>
Insert(l, x, p) == SubSeq(l, 1, p) \o x \o SubSeq(l, p + 1, Len(l))
Action(k) == "ACTION:" \o ActionOf(k)
Hosts == <<"VEVENT", "VTODO">>
Bodies(k) == <<RequiredLines(k, {}), FullBody(k, 2, Seed), Reverse(FullBody(k, 1, Seed + 1))>>
Positions == Concat(Map(LAMBDA k : Concat([b \in 1..3 |-> Concat([p \in 1..(Len(Bodies(k)[b]) + 1) |->
    Map(LAMBDA h : D(k \o " ACTION at " \o ToString(p), In(h, Alarm(Insert(Bodies(k)[b], <<Action(k)>>, p - 1)))), IF b = 2 THEN <<"VEVENT">> ELSE Hosts)])]), AlarmKinds))
\* No action, and two (the same or another) at all positions of a small alarm.
NoAction == Concat(Map(LAMBDA k : [b \in 1..3 |-> D("no ACTION", In("VEVENT", Alarm(Bodies(k)[b])))], AlarmKinds))
Twice == Concat(Map(LAMBDA k : Concat(Map(LAMBDA m : LET b == RequiredLines(k, {}) IN
    Concat([p \in 1..(Len(b) + 1) |-> [q \in 1..(Len(b) + 2 - p) |->
        D("two ACTIONs", In("VEVENT", Alarm(Insert(Insert(b, <<Action(m)>>, p + q - 2), <<Action(k)>>, p - 1))))]]), AlarmKinds)), AlarmKinds))
\* Actions nobody knows, alone and with a known one before or after.
Strange == <<"ACTION:PROCEDURE", "ACTION:", "ACTION:X-NEW", "ACTION: AUDIO", "ACTION:AUDIO ", "ACTION:AUDIO,DISPLAY", "ACTION:AUDI", "ACTION:VALARM">>
Unknown == Concat(Map(LAMBDA k : Concat([x \in 1..Len(Strange) |-> LET b == RequiredLines(k, {}) IN
    <<D("unknown ACTION", In("VEVENT", Alarm(<<Strange[x]>> \o b))), D("unknown ACTION", In("VEVENT", Alarm(<<Strange[x], Action(k)>> \o b))),
      D("unknown ACTION", In("VEVENT", Alarm(<<Action(k)>> \o b \o <<Strange[x]>>)))>>]), AlarmKinds))
\* Parameters on the ACTION line do not matter.
Params == Map(LAMBDA k : D("ACTION with parameters", In("VTODO", Alarm(RequiredLines(k, {}) \o <<"ACTION;X=DISPLAY;Y=\"a,b\":" \o ActionOf(k)>>))), AlarmKinds)
ActParams == <<";X=DISPLAY", ";VALUE=TEXT", ";VALUE=AUDIO", ";X=AUDIO,EMAIL", ";X=\"DISPLAY\"", ";ACTION=NONE", ";LANGUAGE=en", ";X=", ";X=a;X=b", ";RELATED=END", ";X=a,b,c,d,e">> \o [n \in 1..12 |-> Rep(";X=URI", n)] \o [n \in 1..12 |-> ";X=y" \o Rep(",NONE", n)]
MoreParams == Concat(Map(LAMBDA k : [x \in 1..Len(ActParams) |-> LET b == Bodies(k)[1 + (x % 3)] IN
                 D("ACTION with parameters", In(Nth(Hosts, x), Alarm(Insert(b, <<"ACTION" \o ActParams[x] \o ":" \o ActionOf(k)>>, (x + Seed) % (Len(b) + 1)))))], AlarmKinds))
\* Nor do those on the lines around it; lines with nearly that name are others.
Outer == Concat(Map(LAMBDA k : [x \in 1..Len(ActParams) |-> LET b == Insert(RequiredLines(k, {}), <<Action(k)>>, x % (1 + Len(RequiredLines(k, {})))) IN
                 D("parameters of the alarm", In(Nth(Hosts, x + 1), <<"BEGIN" \o (IF x % 3 = 0 THEN "" ELSE ActParams[x]) \o ":VALARM">> \o b \o <<"END" \o (IF x % 3 = 1 THEN "" ELSE ActParams[x]) \o ":VALARM">>))], AlarmKinds))
NearActions == Concat(Map(LAMBDA k : Concat(Map(LAMBDA m : LET b == RequiredLines(k, {}) IN
                 Concat(Map(LAMBDA w : <<D("nearly ACTION", In("VEVENT", Alarm(<<w \o ":" \o ActionOf(m), Action(k)>> \o b))), D("nearly ACTION", In("VTODO", Alarm(b \o <<Action(k), w \o ":" \o ActionOf(m)>>))),
                                         D("nearly ACTION only", In("VEVENT", Alarm(b \o <<w \o ":" \o ActionOf(k)>>)))>>, <<"X-ACTION", "ACTIONS", "ACTIO", "CTION", "ACTION-X", "ACTION1", "-ACTION">>)), AlarmKinds)), AlarmKinds))
\* The lines of one kind under the action of another.
Crossed == Concat(Map(LAMBDA k : Concat(Map(LAMBDA m : Concat([b \in 1..3 |->
    <<D(k \o " lines as " \o m, In("VEVENT", Alarm(<<Action(m)>> \o Bodies(k)[b]))), D(k \o " lines as " \o m, In("VEVENT", Alarm(Bodies(k)[b] \o <<Action(m)>>)))>>]), AlarmKinds)), AlarmKinds))
\* Components inside, and wrong ends.
Nests == <<<<"BEGIN:X", "END:X">>, <<"BEGIN:VALARM", "END:VALARM">>, <<"BEGIN:VEVENT", "END:VEVENT">>, <<"END:VEVENT">>, <<"END:">>, <<"END:VALARMS">>, <<"BEGIN:">>>>
Nested2 == Concat(Map(LAMBDA k : Concat([x \in 1..Len(Nests) |-> LET b == <<Action(k)>> \o RequiredLines(k, {}) IN
    [p \in 1..(Len(b) + 1) |-> D("inside an alarm", In("VEVENT", Alarm(Insert(b, Nests[x], p - 1))))]]), AlarmKinds))
\* Several alarms, each with its own kind.
Several == [r \in 1..IfThorough(150, 40) |->
    LET ks == [x \in 1..(2 + (Mix(Seed, r) % 3)) |-> Pick(AlarmKinds, Mix(Seed + r, x))]
    IN D("several alarms", In(Pick(Hosts, Mix(r, 3)), Concat([x \in 1..Len(ks) |-> Alarm(Shuffle(<<Action(ks[x])>> \o Bodies(ks[x])[1 + (Mix(r, x) % 3)], Mix(r, x + 9)))])))]
TheDocs == MoreParams \o Outer \o NearActions \o Positions \o NoAction \o Twice \o Unknown \o Params \o Crossed \o Nested2 \o Several
Init == Start(TheDocs)
\* An accepted alarm is of the kind its ACTION line names.
KindOf == (pos = Len(Lines) /\ dec.st = "done" /\ ~dec.open) =>
    LET acts == SelectSeq(Lines, LAMBDA l : Lex(l).ok /\ Lex(l).n = "ACTION")
        host == IF "VEVENT" \in DOMAIN dec.cal.s THEN dec.cal.s["VEVENT"][1] ELSE dec.cal.s["VTODO"][1]
    IN [x \in 1..Len(acts) |-> "VALARM" \o Lex(acts[x]).v] = [x \in 1..Len(host.s["VALARM"]) |-> host.s["VALARM"][x].c]
=============================================================================
