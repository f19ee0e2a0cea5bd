-------------------------------- MODULE Gen ---------------------------------
(* Building blocks for the documents and calendars that the models explore. *)
EXTENDS Calendar, IOUtils

LOCAL ToInt(s) == Num(From(s, IF Len(s) > 6 THEN Len(s) - 5 ELSE 1))
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv /\ IsDigits(IOEnv.VERIF_SEED) THEN ToInt(IOEnv.VERIF_SEED) ELSE 1
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
\* The work is split between several runs of TLC: each takes every NParts-th element.
LOCAL NParts == IF "VERIF_PARTS" \in DOMAIN IOEnv THEN Num(IOEnv.VERIF_PARTS) ELSE 1
LOCAL ThisPart == IF "VERIF_PART" \in DOMAIN IOEnv THEN Num(IOEnv.VERIF_PART) ELSE 0
Mine(i) == (i % NParts) = ThisPart
Part(s) == [i \in 1..((Len(s) + NParts - 1 - ThisPart) \div NParts) |-> s[(i - 1) * NParts + ThisPart + 1]]
\* One of the records, with its number, so that a state can be told by the number.
Numbered(l, Is(_)) == \E z \in 1..Len(l) : Is([no |-> z] @@ l[z])
IfThorough(a, b) == IF Thorough THEN a ELSE b

------------------------------------------------------------------------------
(* Written values: [x: text of parameters that belong to the value, s].     *)
LOCAL T(s) == [x |-> "", s |-> s]
LOCAL X(x, s) == [x |-> x, s |-> s]
Written ==
    ( "TEXT" :> <<T("one"), T("two\\, 2\\; more"), T("three\\nlines \\\\ \"q\":x"), T("")>>
   @@ "MTEXT" :> <<T("a"), T("b,c"), T("d\\,e,,f\\;g"), T("")>>
   @@ "INTEGER" :> <<T("1"), T("-2147483648"), T("2147483647"), T("0")>>
   @@ "GEO" :> <<T("1.5;-2.25"), T("0;0"), T("-90;180.000001"), T("37.386013;-122.082932")>>
   @@ "BOOLEAN" :> <<T("TRUE"), T("FALSE"), T("true"), T("false")>>
   @@ "URI" :> <<T("http://example.com/a"), T("mailto:x@example.com"), T("urn:uuid:1-2"), T("https://example.com/b/c=d&e"), T("ftp://u:p@example.com/x")>>
   @@ "CAL-ADDRESS" :> <<T("mailto:a@example.com"), T("mailto:b@example.com"), T("http://example.com/p"), T("urn:uuid:9")>>
   @@ "BINARY" :> <<X(";ENCODING=BASE64", "QUJD"), X(";ENCODING=BASE64", "QQ=="), X(";ENCODING=BASE64", "AAECAwQF/+8="), X(";ENCODING=BASE64", "")>>
   @@ "DATE" :> <<T("20240131"), T("19991231"), T("20240229"), T("20000101")>>
   @@ "DATE-TIME" :> <<T("20240131T235959Z"), T("20240615T120000"), X(";TZID=America/New_York", "20240616T133000"),
                       X(";TZID=Asia/Kolkata", "19700101T000000")>>
   @@ "DURATION" :> <<T("PT5M"), T("-P2W"), T("P1DT2H3M4S"), T("PT1H0M30S"), T("PT0S")>>
   @@ "PERIOD" :> <<T("20240101T000000Z/20240102T000000Z"), X(";TZID=Europe/London", "20240615T120000/PT1H"),
                    T("20240615T120000/20240615T130000"), T("20240101T000000Z/P1W")>>
   @@ "UTC-OFFSET" :> <<T("+0100"), T("-0530"), T("+013045"), T("0000")>>
   @@ "RECUR" :> <<T("FREQ=DAILY;COUNT=3"), T("FREQ=WEEKLY;BYDAY=MO,-1SU;WKST=SU"),
                   T("FREQ=YEARLY;UNTIL=20241224;BYMONTH=1,2;INTERVAL=2"), T("FREQ=MONTHLY;UNTIL=20241224T000000Z;BYMONTHDAY=-1"), T("FREQ=SECONDLY"), T("FREQ=YEARLY;BYMONTH=12,3,1;BYDAY=SU,2MO,-1FR,1TU;BYSETPOS=5,-1,2")>> )
WrittenFor(d, t) == IF t = "ENUM" THEN [i \in 1..Len(PropDef[d].e) |-> T(PropDef[d].e[i])] ELSE Written[t]

ParamWritten ==
    ( "STR" :> <<"plain", "\"a;b:c,d\"", "x^ny^^z^'">> @@ "QSTR" :> <<"\"q\"", "\"a;b:c,d\"", "\"x^ny^'\"">>
   @@ "QSTRS" :> <<"\"m\"", "\"m\",\"n,o\"", "\"p\",\"q\",\"r^'\"">>
   @@ "QURI" :> <<"\"http://example.com/r\"", "\"cid:part3\"", "\"ftp://u:p@example.com/r\"">>
   @@ "QURIS" :> <<"\"mailto:d@example.com\"", "\"mailto:e@example.com\",\"mailto:f@example.com\"", "\"urn:uuid:2\"">>
   @@ "BOOL" :> <<"TRUE", "true", "TRUE">> @@ "FMT" :> <<"text/plain", "application/x-a+b", "image/png">> )
ParamWrittenFor(p) == IF ParamDef[p].k \in {"OPEN", "ENUM"} THEN ParamDef[p].e ELSE ParamWritten[ParamDef[p].k]
Nth(s, j) == s[((j - 1) % Len(s)) + 1]
ParamText(p, j) == ";" \o p \o "=" \o Nth(ParamWrittenFor(p), j)

TypeOf(d, j) == Nth(PropDef[d].t, j)
\* The part of a line after the name: variant j, with the given parameters.
Rest(d, j, params) ==
    LET t == TypeOf(d, j)
        w == Nth(WrittenFor(d, t), ((j - 1) \div Len(PropDef[d].t)) + 1)
    IN FoldLeft(LAMBDA a, p : a \o ParamText(p, j), "", params)
       \o (IF t # PropDef[d].t[1] THEN ";VALUE=" \o t ELSE "") \o w.x \o ":" \o w.s
Line(e, j) == e.n \o Rest(e.d, j, <<>>)
LineP(e, j) == e.n \o Rest(e.d, j, PropDef[e.d].a)

------------------------------------------------------------------------------
(* Documents.                                                               *)
CalHead == <<"BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y">>
CalTail == <<"END:VCALENDAR">>
EventHead == CalHead \o <<"BEGIN:VEVENT", "UID:e1", "DTSTAMP:20240101T000000Z">>
EventTail == <<"END:VEVENT">> \o CalTail
Entry(k, n) == PropsOf[k][n]

Standard == <<"BEGIN:STANDARD", "DTSTART:20240101T000000", "TZOFFSETTO:+0100", "TZOFFSETFROM:+0200", "END:STANDARD">>
\* Children a component cannot do without.
NeededKids(k) == IF k = "VTIMEZONE" THEN Standard ELSE <<>>
RequiredSeq(k) == SelectSeq(CompDef[k].ps, LAMBDA e : e.c = "1")
\* Properties that have to come along with property n.
With(k, n) ==
    CASE k = "VTODO" /\ n = "DURATION" -> <<"DTSTART">>
      [] k \in {"VALARMEMAIL", "VALARMURI"} /\ n = "DURATION" -> <<"REPEAT">>
      [] k \in {"VALARMEMAIL", "VALARMURI"} /\ n = "REPEAT" -> <<"DURATION">>
      [] n = "GEO-LOCATION" -> <<"PROXIMITY">>
      [] OTHER -> <<>>
\* Lines for required properties other than those in the set ns.
RequiredLines(k, ns) ==
    LET es == SelectSeq(RequiredSeq(k), LAMBDA e : e.n \notin ns) IN [i \in 1..Len(es) |-> Line(es[i], 1)]
WithLines(k, n, ns) ==
    LET l == SelectSeq(With(k, n), LAMBDA m : m \notin ns) IN [i \in 1..Len(l) |-> Line(Entry(k, l[i]), 1)]

Begin(k) == IF k \in AlarmKindSet THEN <<"BEGIN:VALARM", "ACTION:" \o ActionOf(k)>> ELSE <<"BEGIN:" \o k>>
End(k) == <<"END:" \o WireName(k)>>
\* A component as a block of lines, and a document that contains it (or is it).
Block(k, body) == Begin(k) \o body \o NeededKids(k) \o End(k)
TzHead == CalHead \o <<"BEGIN:VTIMEZONE", "TZID:Z">>
TzTail == <<"END:VTIMEZONE">> \o CalTail
Around(k, block) ==
    CASE k = "VCALENDAR" -> block
      [] k \in AlarmKindSet -> EventHead \o block \o EventTail
      [] k \in {"STANDARD", "DAYLIGHT"} -> TzHead \o block \o TzTail
      [] OTHER -> CalHead \o block \o CalTail
Doc(k, body) == Around(k, Block(k, body))

CompSeq == <<"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT">> \o AlarmKinds
SiteSeq == Concat([i \in 1..Len(CompSeq) |-> [j \in 1..Len(CompDef[CompSeq[i]].ps) |-> <<CompSeq[i], CompDef[CompSeq[i]].ps[j]>>]])
\* A document with one property site in variant j.
SiteDoc(k, e, j) == Doc(k, RequiredLines(k, {e.n}) \o WithLines(k, e.n, {}) \o <<LineP(e, j)>>)

\* Everything at once: all properties in declaration order, repeatable ones m times.
Clash(k) == CASE k = "VEVENT" -> {"DURATION"} [] k = "VTODO" -> {"DUE"} [] OTHER -> {}
FullBody(k, m, j) ==
    Concat([i \in 1..Len(CompDef[k].ps) |->
        LET e == CompDef[k].ps[i]
        IN IF e.n \in Clash(k) THEN <<>>
           ELSE IF e.c = "*" THEN [x \in 1..m |-> LineP(e, j + x + i)] ELSE <<LineP(e, j + i)>>])
FullAlarms(j) == Concat([i \in 1..Len(AlarmKinds) |-> Block(AlarmKinds[i], FullBody(AlarmKinds[i], 2, j + i))])
FullBlock(k, m, j) ==
    Begin(k) \o FullBody(k, m, j)
    \o (IF k \in {"VEVENT", "VTODO"} THEN FullAlarms(j)
        ELSE IF k = "VTIMEZONE" THEN Block("STANDARD", FullBody("STANDARD", 2, j)) \o Block("DAYLIGHT", FullBody("DAYLIGHT", 2, j + 1))
                                     \o Block("STANDARD", FullBody("STANDARD", 1, j + 2))
        ELSE <<>>) \o End(k)
\* With two of the alarms only.
SlimBlock(k, m, j) == Begin(k) \o FullBody(k, m, j) \o Block(Nth(AlarmKinds, j), FullBody(Nth(AlarmKinds, j), 1, j)) \o Block("VALARMEMAIL", FullBody("VALARMEMAIL", 2, j)) \o End(k)
FullDoc(j) == CalHead \o FullBlock("VEVENT", 2, j) \o FullBlock("VTODO", 3, j + 1) \o FullBlock("VJOURNAL", 2, j + 2)
              \o FullBlock("VFREEBUSY", 2, j + 3) \o FullBlock("VTIMEZONE", 1, j + 4) \o FullBlock("VEVENT", 1, j + 5) \o CalTail

(* Pseudo-random documents.                                                 *)
RandomBody(k, r) ==
    Concat([i \in 1..Len(CompDef[k].ps) |->
        LET e == CompDef[k].ps[i]
            x == Mix(r, i)
            m == IF e.c = "1" THEN 1 ELSE IF (x % 3) # 0 \/ e.n \in Clash(k) THEN 0 ELSE IF e.c = "*" THEN 1 + ((x \div 5) % 3) ELSE 1
        IN [y \in 1..m |-> IF (Mix(x, y) % 2) = 0 THEN Line(e, Mix(x, y + 7) % 50) ELSE LineP(e, Mix(x, y + 9) % 50)]])
\* Companions last, so that a rule is never broken.
RECURSIVE Fix(_, _)
Fix(k, body) ==
    LET names == {Upper(Lex(body[i]).n) : i \in 1..Len(body)}
        lack == {m \in DOMAIN PropsOf[k] : m \notin names /\ \E n \in names : m \in ToSet(With(k, n))}
    IN IF lack = {} THEN body ELSE LET m == CHOOSE m \in lack : TRUE IN Fix(k, Append(body, Line(Entry(k, m), 2)))
Shuffle(l, r) ==
    FoldLeft(LAMBDA a, i : LET p == Mix(r, i) % (Len(a) + 1) IN SubSeq(a, 1, p) \o <<l[i]>> \o SubSeq(a, p + 1, Len(a)),
             <<>>, [i \in 1..Len(l) |-> i])
RandomComp(k, r) ==
    Begin(k) \o (IF Len(CompDef[k].ps) = 0 THEN <<>> ELSE Shuffle(Fix(k, RandomBody(k, r)), r))
    \o (IF k \in {"VEVENT", "VTODO"} THEN
            Concat([i \in 1..(Mix(r, 91) % 3) |->
                LET a == Pick(AlarmKinds, Mix(r, 92 + i)) IN Begin(a) \o Shuffle(Fix(a, RandomBody(a, Mix(r, 95 + i))), r + i) \o End(a)])
        ELSE IF k = "VTIMEZONE" THEN
            Concat([i \in 1..(1 + (Mix(r, 91) % 3)) |->
                LET s == IF (Mix(r, 92 + i) % 2) = 0 THEN "STANDARD" ELSE "DAYLIGHT"
                IN Block(s, Shuffle(RandomBody(s, Mix(r, 95 + i)), r + i))])
        ELSE <<>>) \o End(k)
TopKinds == <<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE">>
RandomDoc(r) == CalHead \o Concat([i \in 1..(1 + (Mix(r, 90) % 3)) |-> RandomComp(Pick(TopKinds, Mix(r, 80 + i)), Mix(r, 70 + i))]) \o CalTail

------------------------------------------------------------------------------
(* Calendars as values.                                                     *)
\* Component k with the properties of the lines (whatever the rules say).
CompFrom(k, lines) == FoldLeft(LAMBDA r, l : AddProp(r, Lex(l)), [st |-> "ok", c |-> Comp(k)], lines).c
AddKids(c, n, kids) == IF kids = <<>> THEN c ELSE [c EXCEPT !.s = Put(@, n, kids)]
SetProp(c, n, insts) == [c EXCEPT !.p = Put(@, n, insts)]
Inst(t, v, a) == [t |-> t, v |-> v, a |-> a]
CalBase == CompFrom("VCALENDAR", <<"VERSION:2.0", "PRODID:-//x//y">>)
EventBase == CompFrom("VEVENT", <<"UID:e1", "DTSTAMP:20240101T000000Z">>)
StandardBase == CompFrom("STANDARD", SubSeq(Standard, 2, 4))
TzBase == CompFrom("VTIMEZONE", <<"TZID:Z">>)
\* The calendar around one component of kind k.
Wrap(k, c) ==
    CASE k = "VCALENDAR" -> c
      [] k \in AlarmKindSet \/ k = "VALARMNIL" -> AddKids(CalBase, "VEVENT", <<AddKids(EventBase, "VALARM", <<c>>)>>)
      [] k \in {"STANDARD", "DAYLIGHT"} -> AddKids(CalBase, "VTIMEZONE", <<AddKids(TzBase, k, <<c>>)>>)
      [] k = "VTIMEZONE" -> AddKids(CalBase, k, <<IF c.s = Empty THEN AddKids(c, "STANDARD", <<StandardBase>>) ELSE c>>)
      [] OTHER -> AddKids(CalBase, k, <<c>>)
\* The smallest valid component of kind k.
Minimal(k) == CompFrom(k, RequiredLines(k, {}))
\* A calendar in which property e of component k has the given instances (and its companions are there).
SiteCal(k, e, insts) == Wrap(k, SetProp(CompFrom(k, RequiredLines(k, {e.n}) \o WithLines(k, e.n, {})), e.n, insts))

D(note, lines) == [note |-> note, lines |-> lines]
C(note, cal) == [note |-> note, cal |-> cal]
Range1(n) == [i \in 1..n |-> i]
Map(op(_), s) == [i \in 1..Len(s) |-> op(s[i])]
\* All sequences over a set of length at most n, as a set.
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Str(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
\* Words that are nearly the given one.
Swap(w, a, b) == FoldLeft(LAMBDA r, n : r \o (IF SubSeq(w, n, n) = a THEN b ELSE SubSeq(w, n, n)), "", Range1(Len(w)))
NearWords(w) == <<w \o "X", "X" \o w, "X-" \o w, w \o "-X", Cut(w, Len(w) - 1), From(w, 2), w \o w, w \o "S", w \o "⑹", "⑴" \o w, Cut(w, 1), Cut(w, 3), w \o " ", " " \o w, w \o "\t", "\t" \o w, "'" \o w \o "'", w \o ".", w \o "=">>
                \o (IF Index(w, "-") = 0 THEN <<>> ELSE <<Swap(w, "-", "_"), Swap(w, "-", " "), Swap(w, "-", ""), Swap(w, "-", "--"), Cut(w, Index(w, "-") - 1), From(w, Index(w, "-") + 1)>>)
Printable == Chars(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~")
\* Texts that mean something elsewhere; here they mean themselves.
Peculiar == <<"<a>", "<a@b>", "</b>", "&amp;", "&#10;", "%20", "%0A", "%%", "a+b", "\\u00e9", "\\x41", "\\t", "\\r\\n", "$HOME", "${x}", "`x`", "{{.}}", "%s",
              "%d%n", "%!s(MISSING)", "NULL", "nil", "null", "NaN", "0", "00", "-1", "1.0", "true", "TRUE", "//", "/*a*/", "--", "#a", "~", "..", "../..",
              "http://a/b?c=d&e#f", "=?utf-8?q?=41?=", "=41=", "a  b", "  a  ", "\t", "a\tb", "''", "'a'", "it's", "Smith, John; Jr.", "O'Brien", "(a)", "[a]",
              "{a}", "a|b", "a=b", "a=b;c=d", "X-A=b", "BEGIN:VEVENT", "END:VALARM", "20240101T000000Z", "P1D", "mailto:a@example.com", "MAILTO:a@example.com",
              "QUJD", "QQ==", "VALUE=DATE", ";", ":", ",", ",,", ";;", "::", "a:", "a;", "a,", ":a", ";a", ",a", "\\\\", "\\\\n", "^^n", "^^", "^", "^a", "a^",
              "-", "_", "?", "!", "*", "@", "é", "€€", "⑷a", "a⑴", "⑻">>
\* Every printable character alone, twice, first, last and in the middle, five texts at a time; then the peculiar ones, five at a time.
Fives == Map(LAMBDA c : <<c, c \o c, "a" \o c, c \o "a", "a" \o c \o "a">>, Printable)
         \o [z \in 1..((Len(Peculiar) + 4) \div 5) |-> [y \in 1..5 |-> Nth(Peculiar, 5 * (z - 1) + y)]]

\* A tower of nested unknown components, with known ones among them; the end at one level may be wrong.
TowerNames == <<"X-A", "VEVENT", "X-B", "X-A", "VALARM", "X-C", "VTIMEZONE", "X-A", "STANDARD", "X-D", "VTODO">>
TowerName(z, r) == IF z = 1 \/ r % 4 = 0 THEN "X-A" ELSE Nth(TowerNames, z + r)
TowerEnd(d, r, at, sort) == Concat([y \in 1..d |-> LET z == d + 1 - y
                                                      n == TowerName(z, r)
                                                  IN IF z # at THEN <<"END:" \o n>>
                                                     ELSE CASE sort = 1 -> <<"END:X-OTHER">> [] sort = 2 -> <<>> [] sort = 3 -> <<"END:" \o n, "END:" \o n>>
                                                            [] sort = 4 -> <<"END:" \o (IF z > 1 THEN TowerName(z - 1, r) ELSE "VCALENDAR")>> [] OTHER -> <<"END:" \o Cut(n, Len(n) - 1)>>])
Tower(d, r, at, sort) == [z \in 1..d |-> "BEGIN:" \o TowerName(z, r)] \o <<"SUMMARY:deep", "UID:deep">> \o TowerEnd(d, r, at, sort)
=============================================================================
