------------------------------- MODULE MCCard -------------------------------
(* Cardinality and order of properties, for every component and property.   *)
EXTENDS DecMachine

Times(k, e, m) ==
    D(k \o "." \o e.n \o " x" \o ToString(m),
      Doc(k, RequiredLines(k, {e.n}) \o (IF m > 0 THEN WithLines(k, e.n, {}) ELSE <<>>) \o [j \in 1..m |-> Line(e, j)]))
Counts == Concat(Map(LAMBDA s : [m \in 1..4 |-> Times(s[1], s[2], m - 1)], SiteSeq))
\* The same property twice, not next to each other and with the same value.
Apart == Map(LAMBDA s : D(s[1] \o "." \o s[2].n \o " apart",
               Doc(s[1], <<Line(s[2], 1)>> \o RequiredLines(s[1], {s[2].n}) \o WithLines(s[1], s[2].n, {}) \o <<Line(s[2], 1)>>)), SiteSeq)
\* Two properties of a component, in both orders, around the required ones.
Pair(k, e, f, j) ==
    D(k \o "." \o e.n \o "+" \o f.n,
      Doc(k, <<Line(e, j)>> \o RequiredLines(k, {e.n, f.n}) \o WithLines(k, e.n, {f.n}) \o
             SelectSeq(WithLines(k, f.n, {e.n}), LAMBDA x : \A y \in 1..Len(WithLines(k, e.n, {f.n})) : WithLines(k, e.n, {f.n})[y] # x)
             \o <<Line(f, j + 1)>>
             \o (IF e.c = "*" THEN <<Line(e, j + 2)>> ELSE <<>>)))
PairsOf(k) ==
    LET ps == CompDef[k].ps
    IN Concat([a \in 1..Len(ps) |-> Concat([b \in 1..Len(ps) |->
          IF a = b THEN <<>> ELSE <<Pair(k, ps[a], ps[b], 1 + (Mix(Seed, a + b) % 5))>>])])
Pairs == Concat(Map(PairsOf, CompSeq))
\* All properties, in declaration order, reversed and shuffled.
Orders(k) ==
    LET b == FullBody(k, 2, Seed)
    IN <<D(k \o " full", Doc(k, b)), D(k \o " reversed", Doc(k, Reverse(b)))>>
       \o [r \in 1..IfThorough(60, 12) |-> D(k \o " shuffled", Doc(k, Shuffle(b, Mix(Seed, r))))]
       \o [x \in 1..Len(b) |-> D(k \o " without one line", Doc(k, SubSeq(b, 1, x - 1) \o SubSeq(b, x + 1, Len(b))))]
       \o [x \in 1..Len(b) |-> D(k \o " one line again", Doc(k, b \o <<b[x]>>))]
\* Very many of one property.
Crowds == Concat(Map(LAMBDA s : IF s[2].c # "*" THEN <<>> ELSE <<Times(s[1], s[2], IfThorough(1100, 130))>>, SiteSeq))
\* What may be given once, given twice: each value (empty and zero ones too) before itself and before another.
MaxLen(d) == FoldLeft(LAMBDA a, t : a + Len(WrittenFor(d, t)), 0, PropDef[d].t)
Twice == Concat(Map(LAMBDA s : IF s[2].c = "*" THEN <<>> ELSE Concat([j \in 1..MaxLen(s[2].d) |-> Map(LAMBDA i : D(s[1] \o "." \o s[2].n \o " twice",
            Doc(s[1], RequiredLines(s[1], {s[2].n}) \o WithLines(s[1], s[2].n, {}) \o <<Line(s[2], j), Line(s[2], i)>>)), <<j, j + 1, j + Len(PropDef[s[2].d].t)>>)]), SiteSeq))
\* Twice where it is: both before the required lines, one before, one before the last of them.
Early == Concat(Map(LAMBDA s : IF s[2].c = "*" THEN <<>> ELSE
            LET req == RequiredLines(s[1], {s[2].n}) \o WithLines(s[1], s[2].n, {})
                two == <<Line(s[2], 1), Line(s[2], 2)>>
            IN Concat([p \in 1..(Len(req) + 1) |-> Concat([q \in 1..(Len(req) + 1) |-> IF q < p THEN <<>> ELSE
                  <<D(s[1] \o "." \o s[2].n \o " twice early",
                      Doc(s[1], SubSeq(req, 1, p - 1) \o <<two[1]>> \o SubSeq(req, p, q - 1) \o <<two[2]>> \o SubSeq(req, q, Len(req))))>>])]), SiteSeq))
\* Whatever else is there: each required property missing, and each once-only property twice, beside each other property, and beside children.
Companions(k, a, b) == LET l == SelectSeq(With(k, a) \o With(k, b), LAMBDA m : m \notin {a, b}) IN IF l = <<>> THEN <<>> ELSE <<Line(Entry(k, l[1]), 1)>> \o (IF Len(l) > 1 /\ l[2] # l[1] THEN <<Line(Entry(k, l[2]), 1)>> ELSE <<>>)
Beside(Make(_, _, _)) == Concat(Map(LAMBDA k : LET ps == CompDef[k].ps IN Concat([a \in 1..Len(ps) |-> Concat([b \in 1..Len(ps) |-> IF a = b THEN <<>> ELSE Make(k, ps[a], ps[b])])]), CompSeq))
Lacking == Beside(LAMBDA k, r, e : IF r.c # "1" THEN <<>> ELSE
             <<D(k \o " lacks " \o r.n \o " but has " \o e.n, Doc(k, RequiredLines(k, {r.n, e.n}) \o Companions(k, r.n, e.n) \o <<Line(e, 2)>>)),
               D(k \o " lacks " \o r.n \o " but has " \o e.n, Doc(k, <<LineP(e, 3)>> \o (IF e.c = "*" THEN <<LineP(e, 4)>> ELSE <<>>) \o RequiredLines(k, {r.n, e.n}) \o Companions(k, r.n, e.n)))>>)
Doubled == Beside(LAMBDA k, o, e : IF o.c = "*" THEN <<>> ELSE
             LET more == RequiredLines(k, {o.n, e.n}) \o Companions(k, o.n, e.n)
             IN <<D(k \o " has " \o o.n \o " twice and " \o e.n, Doc(k, Nth(<<<<Line(e, 2), Line(o, 1), Line(o, 2)>> \o more, more \o <<Line(o, 3), LineP(e, 1), Line(o, 1)>>, <<Line(o, 2)>> \o more \o <<Line(o, 2), Line(e, 3)>>>>, Len(o.n) + Len(e.n) + Seed)))>>)
KidsOf(k) == CASE k \in {"VEVENT", "VTODO"} -> Map(LAMBDA a : Block(a, RequiredLines(a, {})), AlarmKinds) \o <<Block("VALARMAUDIO", FullBody("VALARMAUDIO", 1, Seed)), Block("VALARMEMAIL", FullBody("VALARMEMAIL", 2, Seed))>>
               [] k = "VTIMEZONE" -> <<Standard, <<"BEGIN:DAYLIGHT">> \o SubSeq(Standard, 2, 4) \o <<"END:DAYLIGHT">>, Block("STANDARD", FullBody("STANDARD", 2, Seed)), Block("DAYLIGHT", FullBody("DAYLIGHT", 2, Seed))>>
               [] k = "VCALENDAR" -> Map(LAMBDA c : Block(c, RequiredLines(c, {})), CompDef[k].subs) \o Map(LAMBDA c : FullBlock(c, 1, Seed), CompDef[k].subs)
               [] OTHER -> <<>>
\* The children before, after and between the lines.
WithKid(k, ls, kid) == Map(LAMBDA b : Around(k, Begin(k) \o b \o End(k)), <<ls \o kid, kid \o ls, SubSeq(ls, 1, Len(ls) \div 2) \o kid \o SubSeq(ls, Len(ls) \div 2 + 1, Len(ls)), kid \o ls \o kid>>)
Families == Concat(Map(LAMBDA k : Concat(Map(LAMBDA kid : Concat(Map(LAMBDA e :
               LET most == RequiredLines(k, {e.n}) \o WithLines(k, e.n, {})
                   says(x, ls) == Map(LAMBDA d : D(k \o " with children, " \o e.n \o x, d), WithKid(k, ls, kid))
               IN (IF e.c = "1" THEN says(" missing", most) ELSE <<>>) \o (IF e.c # "*" THEN says(" twice", <<Line(e, 1)>> \o most \o <<Line(e, 2)>>) ELSE <<>>)
                  \o <<Nth(says("", <<Line(e, 1)>> \o most), Len(e.n) + Seed)>>, CompDef[k].ps)), KidsOf(k))), CompSeq))
TheDocs == Lacking \o Doubled \o Families \o Early \o Twice \o Crowds \o Counts \o Apart \o Pairs \o Concat(Map(Orders, CompSeq))
Init == Start(TheDocs)
=============================================================================
