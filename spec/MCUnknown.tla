----------------------------- MODULE MCUnknown ------------------------------
(* Content nobody defined: inserted at every position of small documents,   *)
(* it changes nothing.  Each document carries the lines without it.         *)
EXTENDS DecMachine

With2(note, base, lines) == [note |-> note, lines |-> lines, base |-> base]
Insert(l, x, p) == SubSeq(l, 1, p) \o x \o SubSeq(l, p + 1, Len(l))

\* A small document for each kind of component: the positions inside it are from .. to.
Small(k) == Doc(k, RequiredLines(k, {}) \o (IF Len(CompDef[k].ps) > 3 THEN <<Line(CompDef[k].ps[Len(CompDef[k].ps)], 1)>> ELSE <<>>))
Smalls == [k \in ToSet(CompSeq) |-> IF k = "VALARMURI" THEN Doc(k, RequiredLines(k, {})) ELSE Small(k)]

PropSnips == <<"X-A:b", "X;Y=z:", "XX-SUMMARY:x", "SUMMARY1:;,\\", "DTSTAR:notadate", "X-P;A=\"q:;,\",r;B=:v\tw", "0:0", "-:-", "X-COUNT;COUNT=3:x",
               "NAME:Calendar", "BEGINS:VEVENT", "X-END:VEVENT", "ENDS:VCALENDAR", "CALSCALE:GREGORIAN", "IMAGE;VALUE=BINARY:@@", "X-ACTION:AUDIO">>
CompSnips == <<<<"BEGIN:X-C", "END:X-C">>,
               <<"BEGIN:VAVAILABILITY", "UID:;;bad", "UID:2", "DTSTAMP:never", "END:VAVAILABILITY">>,
               <<"BEGIN:X-C", "BEGIN:X-C", "X:y", "END:X-C", "BEGIN:VEVENT", "DTSTART:x", "END:VEVENT", "END:X-C">>,
               <<"BEGIN:VCALENDAR", "VERSION:1", "VERSION:2", "BEGIN:VALARM", "END:VALARM", "END:VCALENDAR">>,
               <<"BEGIN:x c", "END:X C">>,
               <<"BEGIN:", "END:">>,
               <<"BEGIN;A=b:VALARMS", "ACTION:NOPE", "ACTION:AUDIO", "END;C=\"d\":VALARMS">> >>
InAlarm(k) == k \in AlarmKindSet
\* Everywhere between the first and the last line of the document.
PropInserts == Concat(Map(LAMBDA k : Concat([p \in 1..(Len(Smalls[k]) - 1) |->
    LET n == IfThorough(Len(PropSnips), 3)
    IN [x \in 1..n |-> With2(k \o " + property", Smalls[k], Insert(Smalls[k], <<Nth(PropSnips, x + p + Seed)>>, p))]]), CompSeq))
Depth(l, p) == FoldLeft(LAMBDA a, y : IF l[y] = "BEGIN:VALARM" THEN TRUE ELSE IF l[y] = "END:VALARM" THEN FALSE ELSE a, FALSE, Range1(p))
CompInserts == Concat(Map(LAMBDA k : Concat([p \in 1..(Len(Smalls[k]) - 1) |->
    IF Depth(Smalls[k], p) THEN <<>>
    ELSE [x \in 1..Len(CompSnips) |-> With2(k \o " + component", Smalls[k], Insert(Smalls[k], CompSnips[x], p))]]), CompSeq))
\* The position just inside component k of its small document.
Inside(k) == CHOOSE p \in 1..Len(Smalls[k]) : Smalls[k][p] = Begin(k)[1] /\ \A q \in (p + 1)..Len(Smalls[k]) : Smalls[k][q] # Begin(k)[1]
\* Every property that exists elsewhere but not in this component, with a value it could not have.
Foreign(k) == SelectSeq(SetToSeq(DOMAIN PropDef \cup {"ACTION", "METHOD"}), LAMBDA n : n \notin DOMAIN PropsOf[k] /\ ~(InAlarm(k) /\ n = "ACTION"))
ForeignInserts == Concat(Map(LAMBDA k : LET f == Foreign(k) IN [x \in 1..Len(f) |->
    With2(k \o " + " \o f[x], Smalls[k], Insert(Smalls[k], <<f[x] \o ";VALUE=X;TZID=No/where:;,\\,not valid", f[x] \o ":2">>, Inside(k)))], CompSeq))
\* Every component that exists elsewhere.
AlienComps(k) == SelectSeq(<<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "VCALENDAR">>,
                           LAMBDA n : n \notin ToSet(CompDef[k].subs))
CompForeign == Concat(Map(LAMBDA k : IF InAlarm(k) THEN <<>> ELSE LET f == AlienComps(k) IN [x \in 1..Len(f) |->
    With2(k \o " + " \o f[x], Smalls[k], Insert(Smalls[k], <<"BEGIN:" \o f[x], "UID:1", "UID:2", "X:y", "END:" \o f[x]>>, Inside(k)))], CompSeq))
\* Deep ones, and many in a row.
TowerInserts == Concat(Map(LAMBDA k : IF InAlarm(k) THEN <<>> ELSE
    Map(LAMBDA d : With2(k \o " + tower", Smalls[k], Insert(Smalls[k], Tower(d, d + Seed, 0, 1), Inside(k))), <<2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129>>)
    \o Map(LAMBDA d : With2(k \o " + row", Smalls[k], Insert(Smalls[k], Concat([z \in 1..d |-> Tower(1 + ((z + d) % 3), z, 0, 1)]), Inside(k))), <<2, 3, 4, 8, 9, 16, 17, 33, 65, 100>>), CompSeq))
    \o Concat(Map(LAMBDA k : Map(LAMBDA d : With2(k \o " + lines", Smalls[k], Insert(Smalls[k], [z \in 1..d |-> Nth(PropSnips, z + d + Seed)], Inside(k))), <<2, 3, 4, 8, 9, 16, 17, 33, 65, 100, 129>>), CompSeq))
\* Parameters.
ParamSnips == <<";X-FOO=bar", ";X-FOO=\"a:b;c,d\",e", ";X-FOO=;X-FOO=2", ";Y=^n^^", ";FOO=VALUE", ";X-A=TZID,VALUE,ENCODING", ";X-B=1,\"2\",,3;X-C=,">>
AddParam(line, prm, front) ==
    LET l == Lex(line)
        head == Cut(line, Len(line) - Len(l.v) - 1)
    IN IF front THEN l.n \o prm \o From(line, Len(l.n) + 1) ELSE head \o prm \o ":" \o l.v
\* The parameters of a line, one by one, and the line with another text in front of the p-th.
ParamParts(e, j) ==
    LET ty == TypeOf(e.d, j)
        w == Nth(WrittenFor(e.d, ty), ((j - 1) \div Len(PropDef[e.d].t)) + 1)
        own == [x \in 1..Len(PropDef[e.d].a) |-> ParamText(PropDef[e.d].a[x], j)]
    IN [ps |-> own \o (IF ty # PropDef[e.d].t[1] THEN <<";VALUE=" \o ty>> ELSE <<>>) \o (IF w.x # "" THEN <<w.x>> ELSE <<>>), v |-> w.s]
WithParam(e, parts, prm, p) == e.n \o FoldLeft(LAMBDA a, x : a \o x, "", Insert(parts.ps, <<prm>>, p)) \o ":" \o parts.v
\* Every type and way of writing, with something in front of, between and behind the parameters.
ParamDocs == Concat(Map(LAMBDA s :
    LET k == s[1] e == s[2]
        base == RequiredLines(k, {e.n}) \o WithLines(k, e.n, {})
    IN Concat([j \in 1..(Len(PropDef[e.d].t) * IfThorough(4, 3)) |->
         LET parts == ParamParts(e, j)
             n == Len(parts.ps)
             at == IF Thorough \/ n < 3 THEN [x \in 1..(n + 1) |-> x - 1] ELSE <<0, 1 + (Mix(Seed, j) % (n - 1)), n>>
             base0 == Doc(k, Append(base, LineP(e, j)))
         IN [x \in 1..Len(at) |-> With2(k \o "." \o e.n \o " + parameter", base0,
                                        Doc(k, Append(base, WithParam(e, parts, Nth(ParamSnips, x + j + Seed), at[x]))))]]), SiteSeq))
\* Parameters whose names are like those that matter, with values that would matter.
LikeNames(n) == <<"X-" \o n, n \o "X", "X" \o n, n \o "-X", Cut(n, Len(n) - 1), From(n, 2), n \o n, "-" \o n>>
LikeValue(n) == CASE n = "TZID" -> "Europe/Paris" [] n = "VALUE" -> "DATE" [] n = "ENCODING" -> "BASE64" [] OTHER -> From(ParamText(n, 2), Len(n) + 3)
Known == <<"TZID", "VALUE", "ENCODING">> \o SetToSeq(DOMAIN ParamDef)
Likes(n) == SelectSeq(LikeNames(n), LAMBDA m : m # "" /\ m \notin ToSet(Known))
LikeParams == Concat(Map(LAMBDA s :
    LET k == s[1] e == s[2]
        ns == <<"TZID", "VALUE", "ENCODING">> \o PropDef[e.d].a
        base == RequiredLines(k, {e.n}) \o WithLines(k, e.n, {})
        forms == IfThorough(8, 2)
    IN Concat(Map(LAMBDA n : Concat([j \in 1..forms |-> LET m == Likes(n) IN
         Concat([x \in 1..IfThorough(Len(m), 4) |->
            <<With2(k \o "." \o e.n \o " + " \o Nth(m, x + IfThorough(0, IF x = 1 THEN 0 ELSE Seed)), Doc(k, Append(base, Line(e, j))),
                    Doc(k, Append(base, AddParam(Line(e, j), ";" \o Nth(m, x + IfThorough(0, IF x = 1 THEN 0 ELSE Seed)) \o "=" \o LikeValue(n), (x + j) % 2 = 0))))>>])]), ns)), SiteSeq))
\* Parameters defined for other properties only.
AlienParams == Concat(Map(LAMBDA s :
    LET k == s[1] e == s[2]
        ns == SelectSeq(SetToSeq(DOMAIN ParamDef), LAMBDA n : n \notin ToSet(PropDef[e.d].a))
        extra == FoldLeft(LAMBDA a, n : a \o ";" \o n \o "=?", "", ns) \o (IF Len(PropDef[e.d].t) = 1 THEN ";VALUE=NOTHING" ELSE "")
    IN <<With2(k \o "." \o e.n \o " + foreign parameters", SiteDoc(k, e, 1),
               Doc(k, RequiredLines(k, {e.n}) \o WithLines(k, e.n, {}) \o <<AddParam(LineP(e, 1), extra, FALSE)>>))>>, SiteSeq))
\* Random combinations in larger documents.
Salt(l, r) == FoldLeft(LAMBDA a, n :
    LET p == 1 + (Mix(r, n) % (Len(a) - 1))
    IN IF ~Depth(a, p) /\ (Mix(r, n + 50) % 2) = 0 THEN Insert(a, Pick(CompSnips, Mix(r, n + 60)), p) ELSE Insert(a, <<Pick(PropSnips, Mix(r, n + 70))>>, p), l, Range1(6))
RandomSalt == [r \in 1..IfThorough(200, 40) |-> LET b == RandomDoc(Mix(Seed, r)) IN With2("random + unknown", b, Salt(b, Mix(Seed + 1, r)))]
\* Long names, many parameters and values.
Sizes == <<1, 2, 3, 5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257>>
LongSnips == Concat(Map(LAMBDA n : <<"X" \o Rep("A", n) \o ":b", "X-A;X" \o Rep("B", n) \o "=c:d", "X-A" \o Rep(";B=c", n) \o ":d", "X-A;B=c" \o Rep(",d", n) \o ":e", "X-A;B=\"" \o Rep("c;", n) \o "\":d", "X-A:" \o Rep("b ", n)>>, Sizes))
LongInserts == Concat([z \in 1..Len(LongSnips) |-> LET k == Nth(CompSeq, z + (z \div 6) + Seed) IN <<With2(k \o " + long", Smalls[k], Insert(Smalls[k], <<LongSnips[z]>>, Inside(k)))>>])
              \o Concat([z \in 1..Len(Sizes) |-> LET n == Sizes[z] s == Nth(SiteSeq, z * 7 + Seed) k == s[1] e == s[2] base == RequiredLines(k, {e.n}) \o WithLines(k, e.n, {})
                                               b == Doc(k, Append(base, Line(e, 1)))
                     IN Map(LAMBDA p : With2(k \o "." \o e.n \o " + long parameter", b, Doc(k, Append(base, AddParam(Line(e, 1), p, z % 2 = 0)))), <<Rep(";X-B=c", n), ";X-B=c" \o Rep(",d", n), ";X" \o Rep("B", n) \o "=c", ";X-B=" \o Rep("c ", n)>>)])
\* Whatever is inside a component that is not known, in a known one inside that or not, says nothing.
Words9 == SetToSeq(DOMAIN PropDef \cup {"ACTION", "METHOD", "VERSION", "PRODID"})
WithinSnips(n) == <<n \o ":", n \o ":;,\\", n \o ";VALUE=X:?", n \o ":VALARM">>
Inner == <<"X-D", "VALARM", "VEVENT", "VTODO", "VTIMEZONE", "STANDARD", "VCALENDAR", "VFREEBUSY", "VJOURNAL", "DAYLIGHT">>
WithinInserts == Concat([z \in 1..Len(Words9) |-> Concat([y \in 1..Len(Inner) |-> LET k == Nth(SelectSeq(CompSeq, LAMBDA q : ~InAlarm(q)), z + y + Seed) t(x) == Nth(WithinSnips(Words9[z]), x + y + z)
                     IN <<With2(k \o " + " \o Words9[z] \o " within " \o Inner[y], Smalls[k], Insert(Smalls[k], <<"BEGIN:X-C", "BEGIN:" \o Inner[y], t(1), t(2), t(3), t(0), "END:" \o Inner[y], t(1), "END:X-C">>, Inside(k)))>>])])
TheDocs == LongInserts \o WithinInserts \o TowerInserts \o PropInserts \o CompInserts \o ForeignInserts \o CompForeign \o ParamDocs \o LikeParams \o AlienParams \o RandomSalt
Init == Start(TheDocs)
NoEffect == pos = Len(Lines) => Outcome(dec) = DecodeLines(theDoc.base) /\ Outcome(dec).st = "ok"
=============================================================================
