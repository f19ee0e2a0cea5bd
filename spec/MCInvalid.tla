----------------------------- MODULE MCInvalid ------------------------------
(* Large calendars with one thing wrong at every place in turn: a value, a  *)
(* parameter, a choice, an alarm without a kind, a rule; and the same       *)
(* places with something valid.                                             *)
EXTENDS EncMachine, Samples

\* Paths to components: a sequence of <<child name, index>>.
Kids(c) == LET ns == CompDef[c.c].subs
           IN Concat([z \in 1..Len(ns) |-> IF ns[z] \in DOMAIN c.s THEN [x \in 1..Len(c.s[ns[z]]) |-> <<ns[z], x>>] ELSE <<>>])
RECURSIVE At(_, _)
At(c, p) == IF p = <<>> THEN c ELSE At(c.s[p[1][1]][p[1][2]], Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(c, p, new) == IF p = <<>> THEN new
                    ELSE [c EXCEPT !.s[p[1][1]] = [@ EXCEPT ![p[1][2]] = PutAt(@, Tail(p), new)]]
PathText(p) == FoldLeft(LAMBDA a, st : a \o "/" \o st[1] \o ToString(st[2]), "", p)

\* Bases: everything at once (its first component of each kind is followed by a smaller one), and a random one.
Base1 == DecodeLines(FullDoc(Seed)).cal
Base2 == DecodeLines(RandomDoc(Mix(Seed, 3))).cal
Base3 == AddKids(AddKids(AddKids(CalBase, "VTODO", [x \in 1..3 |-> AddKids(Minimal("VTODO"), "VALARM", [y \in 1..2 |-> Minimal(Nth(AlarmKinds, 2 * x + y))])]), "VEVENT", [x \in 1..4 |-> AddKids(EventBase, "VALARM", [y \in 1..3 |-> Minimal(Nth(AlarmKinds, x + y))])]),
                 "VTIMEZONE", [x \in 1..3 |-> AddKids(AddKids(TzBase, "STANDARD", [y \in 1..2 |-> StandardBase]), "DAYLIGHT", [y \in 1..2 |-> Minimal("DAYLIGHT")])])
BadOf == [m \in DOMAIN PropDef |-> [t \in ToSet(PropDef[m].t) |-> SelectSeq(ValsOf(m, t), LAMBDA v : ~ValidValue(t, PropDef[m].e, v))]]
GoodOf == [m \in DOMAIN PropDef |-> [t \in ToSet(PropDef[m].t) |-> SelectSeq(ValsOf(m, t), LAMBDA v : ValidValue(t, PropDef[m].e, v))]]
BadParam(prm, j) == LET k == ParamDef[prm].k
                    IN CASE k \in {"STR", "QSTR"} -> <<Nth(<<"a␀", "\r", "x␡y", "␛">>, j)>>
                         [] k = "QSTRS" -> Nth(<<<<"a", "b␇">>, <<"\r\n">>, <<"␟", "a", "b">>>>, j)
                         [] k = "FMT" -> <<Nth(<<"plain", "a/", "/b", "a/b;c", "a b/c", "é/x">>, j)>>
                         [] OTHER -> <<>>
\* All instances of properties of the component c.
Spots(c) == LET ns == SelectSeq(CompDef[c.c].ps, LAMBDA e : e.n \in DOMAIN c.p)
            IN Concat([z \in 1..Len(ns) |-> [x \in 1..Len(c.p[ns[z].n]) |-> <<ns[z], x>>]])
\* What to put in one spot: some wrong values of each alternative, a wrong parameter, a right value.
Edits(def, bad, good, old, j) ==
    LET ts == SelectSeq(def.t, LAMBDA t : bad[t] # <<>>)
        prms == SelectSeq(def.a, LAMBDA m : BadParam(m, j) # <<>>)
        n == IfThorough(6, 1)
    IN Concat(Map(LAMBDA t : [y \in 1..n |-> Inst(t, Nth(bad[t], Mix(Seed, j + 13 * y)), IF y = 1 THEN old.a ELSE Empty)], ts))
       \o Map(LAMBDA m : [old EXCEPT !.a = Put(@, m, BadParam(m, j))], IF Thorough \/ Len(prms) < 3 THEN prms ELSE <<Nth(prms, j), Nth(prms, j + 2)>>)
       \o (IF Len(def.t) > 1 THEN <<Inst("NONE", <<>>, Empty), Inst("BOTH", Nth(good[def.t[1]], 1), Empty)>> ELSE <<>>)
       \o [y \in 1..n |-> LET t == Nth(def.t, j + y) IN Inst(t, Nth(good[t], Mix(Seed, j + 5 * y)), old.a)]
\* Descriptions of calendars: [p, n, x, new]: path, property, instance, its replacement; or x = 0 and new is the whole component.
SpotEdits(c, p) ==
    LET l == Spots(c)
    IN Concat([z \in 1..Len(l) |-> LET e == l[z][1]
                                       es == Edits(PropDef[e.d], BadOf[e.d], GoodOf[e.d], c.p[e.n][l[z][2]], z + 31 * Len(p))
                                   IN [y \in 1..Len(es) |-> [p |-> p, n |-> e.n, x |-> l[z][2], new |-> es[y]]]])
\* An alarm of no kind in place of, before and after every alarm.
NoKind == Comp("VALARMNIL")
NilEdits(c, p) == IF c.c \in AlarmKindSet THEN <<[p |-> p, n |-> "without a kind", x |-> 0, new |-> NoKind]>> ELSE <<>>
\* Rules broken in a component that was fine.
Break(c) == CASE c.c = "VEVENT" -> <<SetProp(SetProp(c, "DTEND", <<Inst("DATE", <<"20240101">>, Empty)>>), "DURATION", <<Inst("DURATION", <<"+", "0", "1", "0", "0", "0">>, Empty)>>)>>
              [] c.c = "VTODO" -> <<SetProp([c EXCEPT !.p = Drop(@, {"DTSTART", "DUE"})], "DURATION", <<Inst("DURATION", <<"+", "0", "1", "0", "0", "0">>, Empty)>>),
                                    SetProp(SetProp(c, "DURATION", <<Inst("DURATION", <<"+", "0", "1", "0", "0", "0">>, Empty)>>), "DUE", <<Inst("DATE", <<"20240101">>, Empty)>>)>>
              [] c.c = "VTIMEZONE" -> <<[c EXCEPT !.s = Empty]>>
              [] c.c \in {"VALARMEMAIL", "VALARMURI"} -> <<SetProp([c EXCEPT !.p = Drop(@, {"DURATION"})], "REPEAT", <<Inst("INTEGER", <<"2">>, Empty)>>),
                                                           SetProp([c EXCEPT !.p = Drop(@, {"PROXIMITY"})], "GEO-LOCATION", <<Inst("URI", <<"geo:1.5">>, Empty)>>)>>
              [] c.c \in {"VALARMAUDIO", "VALARMDISPLAY"} -> <<SetProp([c EXCEPT !.p = Drop(@, {"PROXIMITY"})], "GEO-LOCATION", <<Inst("URI", <<"geo:1.5">>, Empty)>>)>>
              [] OTHER -> <<>>
RuleEdits(c, p) == LET l == Break(c) IN [z \in 1..Len(l) |-> [p |-> p, n |-> "breaks a rule", x |-> 0, new |-> l[z]]]
RECURSIVE AllSpots(_, _), AllParts(_, _)
AllSpots(c, p) == SpotEdits(c, p) \o (LET ks == Kids(c) IN Concat([z \in 1..Len(ks) |-> AllSpots(c.s[ks[z][1]][ks[z][2]], Append(p, ks[z]))]))
AllParts(c, p) == NilEdits(c, p) \o RuleEdits(c, p) \o (LET ks == Kids(c) IN Concat([z \in 1..Len(ks) |-> AllParts(c.s[ks[z][1]][ks[z][2]], Append(p, ks[z]))]))
Made(cal, e) == C(PathText(e.p) \o " " \o e.n,
                  LET c == At(cal, e.p) IN PutAt(cal, e.p, IF e.x = 0 THEN e.new ELSE [c EXCEPT !.p[e.n] = [@ EXCEPT ![e.x] = e.new]]))
\* The calendars themselves, and with nothing or nearly nothing in them.
Sample(l, n) == IF Thorough \/ Len(l) <= n THEN l ELSE LET o == Mix(Seed, 5) IN [z \in 1..n |-> l[1 + (((z - 1) * (Len(l) \div n) + ((o + z) % (Len(l) \div n))) % Len(l))]]
From1(cal, edits, no) == StartWith(1, no, LAMBDA z : C("unchanged", cal)) \/ StartWith(Len(edits), no + 1, LAMBDA z : Made(cal, edits[z]))
From2(cal, m, no) == From1(cal, AllParts(cal, <<>>) \o Sample(AllSpots(cal, <<>>), m), no)
\* Many components of each kind in a row.
Row(k, n) == [x \in 1..n |-> Minimal(k)]
ZoneRow == <<AddKids(AddKids(TzBase, "STANDARD", Row("STANDARD", 5)), "DAYLIGHT", Row("DAYLIGHT", 5))>> \o [x \in 1..5 |-> AddKids(TzBase, Nth(<<"STANDARD", "DAYLIGHT">>, x), Row(Nth(<<"STANDARD", "DAYLIGHT">>, x), 1))]
Alarmed(k) == AddKids(Minimal(k), "VALARM", [y \in 1..7 |-> Minimal(Nth(AlarmKinds, y + Seed))])
Base4 == FoldLeft(LAMBDA a, k : AddKids(a, k, IF k = "VTIMEZONE" THEN ZoneRow ELSE IF k \in {"VEVENT", "VTODO"} THEN Row(k, 5) \o <<Alarmed(k)>> ELSE Row(k, 6)), CalBase, <<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE">>)
\* Many values of each repeatable property, one of them wrong.
RowSites == SelectSeq(SiteSeq, LAMBDA y : y[2].c = "*")
RowOf(y, n, at, r) == LET def == PropDef[y[2].d]
                          ts == SelectSeq(def.t, LAMBDA t : BadOf[y[2].d][t] # <<>>)
                          g(z) == LET t == Nth(def.t, z + r) IN Inst(t, Nth(GoodOf[y[2].d][t], z), Empty)
                          prms == SelectSeq(def.a, LAMBDA m : BadParam(m, r) # <<>>)
                          b == IF prms # <<>> /\ (r % 2 = 0 \/ ts = <<>>) THEN [g(at) EXCEPT !.a = Put(@, Nth(prms, r), BadParam(Nth(prms, r), r))]
                               ELSE IF ts = <<>> THEN g(at) ELSE LET t == Nth(ts, r) IN Inst(t, Nth(BadOf[y[2].d][t], Mix(Seed, r)), Empty)
                      IN C(y[1] \o "." \o y[2].n \o " in a row", SiteCal(y[1], y[2], [z \in 1..n |-> IF z = at THEN b ELSE g(z)]))
RowPlaces == <<<<3, 2>>, <<3, 3>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<9, 9>>, <<17, 17>>>>
RowCals == Concat(Map(LAMBDA y : [z \in 1..Len(RowPlaces) |-> RowOf(y, RowPlaces[z][1], RowPlaces[z][2], z + Seed)], RowSites))
Rows(no) == StartWith(Len(RowCals), no, LAMBDA z : RowCals[z])
Init == Rows(500000) \/ From2(Base4, 400, 400000) \/ From2(CalBase, 10, 0) \/ From2(Base1, 700, 100000) \/ From2(Base2, 100, 200000) \/ From2(Base3, 300, 300000)
\* Only the decision: what is written is read back in other models.
Decide == phase = "check" /\ UNCHANGED <<src, pos, dec>>
          /\ IF ValidComp(Cal) THEN phase' = "end" /\ written' = EncodeLines(Cal) ELSE phase' = "reject" /\ written' = <<>>
=============================================================================
