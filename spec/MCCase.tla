------------------------------- MODULE MCCase -------------------------------
(* Letter case of names and of values drawn from fixed lists.               *)
EXTENDS DecMachine
WithBase(note, base, lines) == [note |-> note, lines |-> lines, base |-> base]
IsListed(n) == n \in {"BEGIN", "END", "ACTION"} \/ (n \in DOMAIN PropDef /\ PropDef[n].t[1] = "ENUM")
IsListedParam(p) == p \in {"VALUE", "ENCODING"} \/ (p \in DOMAIN ParamDef /\ ParamDef[p].k \in {"OPEN", "ENUM"})
Recase(line, f(_)) ==
    LET l == Lex(line)
        val(p, v) == LET x == IF IsListedParam(Upper(p.n)) THEN f(v.d) ELSE v.d IN IF v.q THEN "\"" \o x \o "\"" ELSE x
    IN f(l.n) \o FoldLeft(LAMBDA a, p : a \o ";" \o f(p.n) \o "=" \o Join([j \in 1..Len(p.vs) |-> val(p, p.vs[j])], ","), "", l.a)
       \o ":" \o (IF IsListed(Upper(l.n)) THEN f(l.v) ELSE l.v)
Capital(s) == IF s = "" THEN s ELSE Upper(Cut(s, 1)) \o Lower(From(s, 2))
Ways == 1..5
Recased(w, line) == CASE w = 1 -> Recase(line, Lower) [] w = 2 -> Recase(line, Alternate) [] w = 3 -> Recase(line, Capital)
                      [] w = 4 -> Recase(line, Upper) [] w = 5 -> line
RecasedDoc(w, l) == [x \in 1..Len(l) |-> Recased(w, l[x])]
Variants(e) == LET n == Len(PropDef[e.d].t) * (IF PropDef[e.d].t[1] = "ENUM" THEN Len(PropDef[e.d].e) ELSE 1)
               IN IF PropDef[e.d].a # <<>> THEN n + 6 ELSE n
SiteDocs == Concat(Map(LAMBDA s : Concat([j \in 1..Variants(s[2]) |->
    LET b == SiteDoc(s[1], s[2], j)
    IN [w \in 1..IfThorough(3, 2) |-> WithBase(s[1] \o "." \o s[2].n, b, RecasedDoc(((w + j + Seed) % 3) + 1, b))]]), SiteSeq))
\* Each line of a document in its own way.
Mixed == [r \in 1..IfThorough(100, 20) |-> LET b == RandomDoc(Mix(Seed, r))
             IN WithBase("random", b, [x \in 1..Len(b) |-> Recased(1 + (Mix(r, x) % 5), b[x])])]
SkipDocs == [w \in 1..3 |-> LET b == EventHead \o <<"BEGIN:X-Comp", "UID:x", "BEGIN:X-Inner", "END:X-Inner", "END:X-Comp", "SUMMARY:Y">> \o EventTail
             IN WithBase("skipped component", b, RecasedDoc(w, b))]
Crossed == [w \in 1..3 |-> LET b == EventHead \o <<"BEGIN:X-COMP", "END:X-COMP", "BEGIN:X-Inner", "END:X-Inner">> \o EventTail
             IN WithBase("skipped component", b, [x \in 1..Len(b) |-> IF (x % 2) = 0 THEN Recased(w, b[x]) ELSE b[x]])]
TheDocs == SiteDocs \o Mixed \o SkipDocs \o Crossed
Init == Start(TheDocs)
NoEffect == pos = Len(Lines) => Outcome(dec) = DecodeLines(theDoc.base) /\ Outcome(dec).st = "ok"
=============================================================================
