------------------------------- MODULE RandCal ------------------------------
(* Pseudo-random valid calendars as values.                                 *)
EXTENDS Samples
\* For each property and type, the sample values that may be encoded.
GoodOf == [m \in DOMAIN PropDef |-> [t \in ToSet(PropDef[m].t) |-> SelectSeq(ValsOf(m, t), LAMBDA v : ValidValue(t, PropDef[m].e, v))]]
LOCAL GoodStr == <<"a", "two words", "a,b", "x;y:z", "say \"q\"", "l1\nl2", "^n^", "é€⑷", "", "\t", "^'", "\\n", " ", "=", "⑴a⑵⑶b", "⑸⑹c⑺", "⑻x⑼">>
GoodParamBy ==
    ( "STR" :> Map(LAMBDA x : <<x>>, GoodStr) @@ "QSTR" :> Map(LAMBDA x : <<x>>, GoodStr)
   @@ "QSTRS" :> <<<<"m">>, <<"m", "n">>, <<"a,b", "\"", "^">>, <<"", "x">>, <<>>, <<"é", "\n", "c">>>>
   @@ "QURI" :> <<<<"http://example.com/a">>, <<"mailto:x@example.com">>, <<"cid:1">>>>
   @@ "QURIS" :> <<<<"mailto:a@example.com">>, <<"mailto:a@example.com", "urn:uuid:2">>, <<>>, <<"cid:a", "cid:b", "cid:a">>>>
   @@ "BOOL" :> <<<<"TRUE">>, <<"FALSE">>>> @@ "FMT" :> <<<<"text/plain">>, <<"a/b!#$&.+^_-">>, <<"image/svg+xml">>>> )
GoodParam == [p \in DOMAIN ParamDef |-> CASE ParamDef[p].k = "OPEN" -> Map(LAMBDA x : <<x>>, ParamDef[p].e \o <<"UNKNOWN">>)
                                          [] ParamDef[p].k = "ENUM" -> Map(LAMBDA x : <<x>>, ParamDef[p].e)
                                          [] OTHER -> GoodParamBy[ParamDef[p].k]]
RandInst(m, r) ==
    LET t == Pick(PropDef[m].t, Mix(r, 1))
        some == {p \in ToSet(PropDef[m].a) : (Mix(r, Len(p) * 5 + Len(ParamDef[p].g)) % 3) = 0}
    IN Inst(t, Pick(GoodOf[m][t], Mix(r, 2)), IF some = {} THEN Empty ELSE [p \in some |-> Pick(GoodParam[p], Mix(r, Len(p) * 7 + Len(ParamDef[p].g)))])
\* One in `rare' of the optional properties.
RandProps(k, r, rare) ==
    LET es == CompDef[k].ps
        n(z) == LET e == es[z] x == Mix(r, z + 11)
                IN IF e.c = "1" THEN 1 ELSE IF e.n \in Clash(k) \/ (x % rare) # 0 THEN 0 ELSE IF e.c = "*" THEN 1 + ((x \div 7) % 3) ELSE 1
        base == FoldLeft(LAMBDA c, z : IF n(z) = 0 THEN c ELSE SetProp(c, es[z].n, [y \in 1..n(z) |-> RandInst(es[z].d, Mix(r, 100 * z + y))]), Comp(k), Range1(Len(es)))
        lack == {m \in DOMAIN PropsOf[k] : m \notin DOMAIN base.p /\ \E x \in DOMAIN base.p : m \in ToSet(With(k, x))}
    IN FoldLeft(LAMBDA c, m : SetProp(c, m, <<RandInst(PropsOf[k][m].d, Mix(r, 77))>>), base, SetToSeq(lack))
RandKid(k, r, rare) ==
    LET c == RandProps(k, r, rare)
    IN CASE k \in {"VEVENT", "VTODO"} -> AddKids(c, "VALARM", [y \in 1..(Mix(r, 61) % 4) |-> RandProps(Pick(AlarmKinds, Mix(r, 62 + y)), Mix(r, 66 + y), rare)])
         [] k = "VTIMEZONE" -> LET a == Mix(r, 63) % 3
                                   b == (Mix(r, 64) % 2) + (IF a = 0 THEN 1 ELSE 0)
                               IN AddKids(AddKids(c, "STANDARD", [y \in 1..a |-> RandProps("STANDARD", Mix(r, 70 + y), rare)]),
                                          "DAYLIGHT", [y \in 1..b |-> RandProps("DAYLIGHT", Mix(r, 80 + y), rare)])
         [] OTHER -> c
RandCal(r, rare) ==
    FoldLeft(LAMBDA c, z : AddKids(c, TopKinds[z], [y \in 1..(Mix(r, 50 + z) % 3) |-> RandKid(TopKinds[z], Mix(r, 10 * z + y), rare)]),
             RandProps("VCALENDAR", r, rare), Range1(Len(TopKinds)))
=============================================================================
