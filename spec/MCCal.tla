-------------------------------- MODULE MCCal -------------------------------
(* Whole calendars: every kind of component with many values at once.       *)
EXTENDS EncMachine, RandCal
\* Two full ones, the decoded random documents, calendars of random values (dense and sparse), one component of each kind alone.
Decoded(ls1) == DecodeLines(ls1).cal
Full(z) == C("everything", Decoded(FullDoc(Seed + 3 * z)))
FromDocs(z) == C("decoded", Decoded(RandomDoc(Mix(Seed, z))))
Dense(z) == C("dense", RandCal(Mix(Seed, 1000 + z), 2))
Sparse(z) == C("sparse", RandCal(Mix(Seed, 3000 + z), 7))
Single(z) == LET k == Nth(CompSeq, z) IN C("one " \o k, Wrap(k, RandKid(k, Mix(Seed, 5000 + z), 3)))
Several(z) == C("several", FoldLeft(LAMBDA c, x : AddKids(c, TopKinds[x], [y \in 1..(z + 1) |-> RandKid(TopKinds[x], Mix(Seed, 7000 + 10 * x + 100 * z + y), 20)]), CalBase, Range1(Len(TopKinds))))
\* One repeatable property with very many values.
Repeatables == Concat(Map(LAMBDA k : LET es == SelectSeq(CompDef[k].ps, LAMBDA e : e.c = "*") IN Map(LAMBDA e : <<k, e.n>>, es), CompSeq))
Crowd(z) == LET k == Nth(Repeatables, z)[1]
                n == Nth(Repeatables, z)[2]
                few == CompFrom(k, [x \in 1..7 |-> LineP(Entry(k, n), x + Seed)]).p[n]
                base == IF n = "GEO-LOCATION" THEN SetProp(Minimal(k), "PROXIMITY", <<Inst("TEXT", <<"ARRIVE">>, Empty)>>) ELSE Minimal(k)
            IN C("many " \o n, Wrap(k, SetProp(base, n, [x \in 1..IfThorough(1100, 130) |-> Nth(few, x)])))
\* The same child, and the same property, more than once, next to itself and not.
Kid(z) == LET k == Nth(<<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT">> \o AlarmKinds, z) IN <<k, IF z % 2 = 0 THEN Minimal(k) ELSE RandKid(k, Mix(Seed, 8000 + z), 3)>>
Zoned(c) == IF c.c = "VTIMEZONE" /\ c.s = Empty THEN AddKids(c, "STANDARD", <<StandardBase>>) ELSE c
Twins(z) == LET k == Kid(z)[1] c == Zoned(Kid(z)[2]) m == Zoned(Minimal(k))
                l == Nth(<<<<c, c>>, <<c, c, m>>, <<m, c, c>>, <<c, m, c>>, <<c, c, c, c>>>>, z + Seed)
                other == IF k \in AlarmKindSet THEN <<Minimal("VALARMAUDIO"), Minimal("VALARMAUDIO")>> ELSE <<>>
            IN C("twins " \o k, IF k \in AlarmKindSet THEN LET e == AddKids(EventBase, "VALARM", l) IN AddKids(AddKids(CalBase, "VEVENT", <<e, e>>), "VTODO", <<AddKids(Minimal("VTODO"), "VALARM", other \o l)>>)
                                 ELSE IF k \in {"STANDARD", "DAYLIGHT"} THEN AddKids(CalBase, "VTIMEZONE", <<AddKids(TzBase, k, l), AddKids(AddKids(TzBase, "STANDARD", <<StandardBase, StandardBase>>), "DAYLIGHT", <<Minimal("DAYLIGHT")>>)>>)
                                 ELSE AddKids(CalBase, k, l))
Init == /\ \/ StartWith(1, 0, LAMBDA z : C("empty", CalBase))
           \/ StartWith(IfThorough(8, 2), 1000, Full)
           \/ StartWith(IfThorough(200, 16), 2000, FromDocs)
           \/ StartWith(IfThorough(60, 6), 3000, Dense)
           \/ StartWith(IfThorough(600, 60), 4000, Sparse)
           \/ StartWith(Len(CompSeq) * IfThorough(60, 8), 5000, Single)
           \/ StartWith(4, 6000, Several)
           \/ StartWith(60, 8000, Twins)
           \/ StartWith(Len(Repeatables), 7000, Crowd)
        \* The zero instant may stand in a document but not in a calendar.
        /\ ~MentionsZero(Cal)
Whole == phase = "check" /\ phase' = "end" /\ written' = EncodeLines(Cal) /\ UNCHANGED <<src, pos, dec>>
Back == phase = "end" => ValidComp(Cal) /\ DecodeLines(written) = [st |-> "ok", cal |-> Canon(Cal)]
FoldedBack == phase = "end" => LET w == Wire(Physical(written)) IN WellFormedOutput(w) /\ SplitLines(Unfold(w)) = written
=============================================================================
