------------------------------- MODULE MCParam ------------------------------
(* Parameters of every property that has them: written forms, quoting,      *)
(* several values, repetition, combinations.                                *)
EXTENDS DecMachine
RawBy == ( "STR" :> <<"", "a", "\"\"", "\"a\"", "a,b", "\"a\",\"b\"", "\"a,b\"", "^n^'^^", "\"^n^'^^^x\"", "a^", "a b", " a", "\"a:b\"", "\\n", "\"é€⑷\"", "a=b", ",", "a,">>
        @@ "QSTR" :> <<"", "a", "\"\"", "\"a\"", "a,b", "\"a\",\"b\"", "\"a\",b", "\"a,b\"", "^n", "\"^n^'^^^x\"", "\"mailto:x@example.com\"", "mailto", "\"^\"", "\"a;b:c\"", "\" a \"">>
        @@ "QSTRS" :> <<"", "a", "\"\"", "\"a\"", "a,b", "\"a\",\"b\"", "\"a\",b", "a,\"b\"", "\"a,b\"", "\"\",\"\"", "\"a\",\"\",\"b\"", "\"^'\",\"^n^^\"", "\"a\",\"a\"", "\"1\",\"2\",\"3\",\"4\"", ",", "\"a\",">>
        @@ "QURI" :> <<"", "mailto:a", "http", "\"\"", "\"http://example.com/a\"", "\"http://example.com/%zz\"", "\":\"", "\"cid:a\",\"cid:b\"", "\"cid:a\",cid", "\"mailto:a@example.com\"", "\"urn:uuid:1-2\"", "\"%zz\"">> \o Map(LAMBDA u : "\"" \o u \o "\"", GoodUris)
        @@ "QURIS" :> <<"", "x", "\"\"", "\"mailto:a@example.com\"", "\"mailto:a@example.com\",\"mailto:b@example.com\"", "\"mailto:a@example.com\",x", "x,\"mailto:a@example.com\"", "\"%zz\"", "\"mailto:a@example.com\",\"%zz\"",
                        "\"urn:uuid:1\",\"cid:b\",\"http://example.com/c\"", "\"mailto:a@example.com\",\"mailto:a@example.com\"", ",">> \o [u \in 1..Len(GoodUris) |-> "\"" \o GoodUris[u] \o "\",\"" \o Nth(GoodUris, u + 1 + Seed) \o "\""]
        @@ "BOOL" :> <<"TRUE", "FALSE", "true", "false", "\"TRUE\"", "TRUE,FALSE", "TRUE,TRUE", "", "yes", "no", "TRU", "TRUEE", "\"FALSE\"", " TRUE">>
        @@ "FMT" :> <<"text/plain", "application/vnd.oasis.opendocument.text", "image/svg+xml", "a/b", "text", "text/", "/plain", "", "/", "a/b/c", "a b/c", "a/b c", "text/plain,text/html", "a/(b)", "\"text/plain\"", "a/b!#$&.+^_-">> )
EnumRaw(p) == ParamDef[p].e \o Map(Lower, ParamDef[p].e) \o Map(LAMBDA x : x \o "X", ParamDef[p].e) \o Map(LAMBDA x : Cut(x, Len(x) - 1), ParamDef[p].e) \o Map(LAMBDA x : "\"" \o x \o "\"", ParamDef[p].e)
              \o <<"", "X-NEW", "UNKNOWN", "unknown", ParamDef[p].e[1] \o "," \o ParamDef[p].e[1], " " \o ParamDef[p].e[1], ParamDef[p].e[1] \o " ", "0", "1", "\"a;b\"">> \o Concat(Map(NearWords, ParamDef[p].e))
RawParam(p) == IF ParamDef[p].k \in {"OPEN", "ENUM"} THEN EnumRaw(p) ELSE RawBy[ParamDef[p].k]
\* One site for every property definition (the first), a share of the others.
FirstOf == LET ds == SetToSeq({x[2].d : x \in ToSet(SelectSeq(SiteSeq, LAMBDA y : PropDef[y[2].d].a # <<>>))})
           IN Map(LAMBDA def : LET l == SelectSeq(SiteSeq, LAMBDA y : y[2].d = def) IN IF Thorough THEN l ELSE <<Pick(l, Mix(Seed, Len(def)))>>, ds)
ParamSites == Concat(FirstOf)
One(x, prms) == Doc(x[1], RequiredLines(x[1], {x[2].n}) \o WithLines(x[1], x[2].n, {}) \o <<x[2].n \o prms \o Rest(x[2].d, 1, <<>>)>>)
Note(x, t) == x[1] \o "." \o x[2].n \o t
Forms == Concat(Map(LAMBDA x : Concat(Map(LAMBDA p : Map(LAMBDA r : D(Note(x, ";" \o p \o "=" \o r), One(x, ";" \o p \o "=" \o r)), RawParam(p)), PropDef[x[2].d].a)), ParamSites))
\* Every parameter twice (in both spellings), at every site.
Twice == Concat(Map(LAMBDA x : Concat(Map(LAMBDA p :
           <<D(Note(x, " " \o p \o " twice"), One(x, ParamText(p, 1) \o ParamText(p, 1))),
             D(Note(x, " " \o p \o " twice with others between"), One(x, ParamText(p, 1) \o ";X-A=b" \o FoldLeft(LAMBDA a, q : IF q = p THEN a ELSE a \o ParamText(q, 1), "", PropDef[x[2].d].a) \o ";" \o Lower(p) \o From(ParamText(p, 2), Len(p) + 2)))>>, PropDef[x[2].d].a)),
           SelectSeq(SiteSeq, LAMBDA y : PropDef[y[2].d].a # <<>>)))
\* Twice, beside each other parameter, and with nothing or another value in one of the two.
TwiceWith == Concat(Map(LAMBDA x : Concat(Map(LAMBDA p : LET ws == ParamWrittenFor(p)
             IN Concat(Map(LAMBDA y : <<D(Note(x, " " \o p \o " nothing first"), One(x, ";" \o p \o "=" \o y \o ParamText(p, 1))), D(Note(x, " " \o p \o " nothing last"), One(x, ParamText(p, 2) \o ";" \o p \o "=" \o y)),
                                        D(Note(x, " " \o p \o " nothing twice"), One(x, ";" \o p \o "=" \o y \o ";" \o p \o "=" \o y))>>, <<"", "\"\"">> \o ws))
                \o Concat(Map(LAMBDA q : IF q = p THEN <<>> ELSE
                     <<D(Note(x, " " \o p \o " twice before " \o q), One(x, ParamText(p, 1) \o ParamText(p, 2) \o ParamText(q, 1))), D(Note(x, " " \o p \o " twice around " \o q), One(x, ParamText(p, 1) \o ParamText(q, 1) \o ParamText(p, 1))),
                       D(Note(x, " " \o p \o " twice after " \o q), One(x, ParamText(q, 2) \o ParamText(p, 1) \o ParamText(p, 2)))>>, PropDef[x[2].d].a))
                \o Map(LAMBDA q : D(Note(x, " " \o p \o " twice with" \o q), One(x, ParamText(p, 1) \o q \o ParamText(p, 1))), <<";TZID=Asia/Tokyo", ";VALUE=TEXT", ";ENCODING=8BIT", ";LANGUAGE=en">>),
             PropDef[x[2].d].a)), ParamSites))
\* VALUE twice, alone and around each other parameter.
ValueTwice == Concat(Map(LAMBDA x : LET def == PropDef[x[2].d] IN IF Len(def.t) < 2 THEN <<>>
              ELSE Concat([z \in 1..Len(def.t) |-> LET w == Nth(WrittenFor(x[2].d, def.t[z]), 1) v == ";VALUE=" \o def.t[z]
                   IN Map(LAMBDA q : D(Note(x, " VALUE twice around " \o q), Doc(x[1], RequiredLines(x[1], {x[2].n}) \o WithLines(x[1], x[2].n, {}) \o <<x[2].n \o v \o q \o v \o w.x \o ":" \o w.s>>)),
                          <<"", ";TZID=Europe/Paris", ";X-A=b">> \o Map(LAMBDA p : ParamText(p, 1), def.a))]), SiteSeq))
\* Two of the parameters together, in both orders, and all but one.
Pairs == Concat(Map(LAMBDA x : Concat(Map(LAMBDA p : Concat(Map(LAMBDA q : IF p = q THEN <<D(Note(x, " all but " \o p), One(x, FoldLeft(LAMBDA a, z : IF z = p THEN a ELSE a \o ParamText(z, 2), "", PropDef[x[2].d].a)))>>
            ELSE <<D(Note(x, " " \o p \o " " \o q), One(x, ParamText(p, Len(q)) \o ParamText(q, Len(p))))>>, PropDef[x[2].d].a)), PropDef[x[2].d].a)), ParamSites))
\* Random selections in random order.
Deal(x, r) == LET ps == SelectSeq(PropDef[x[2].d].a, LAMBDA p : (Mix(r, Len(p) * 3 + Len(ParamDef[p].k)) % 3) > 0)
                  ts == [z \in 1..Len(ps) |-> ParamText(ps[z], Mix(r, z) % 7)]
              IN Str(Shuffle(ts, r))
Deals == Concat([r \in 1..IfThorough(40, 6) |-> Map(LAMBDA x : D(Note(x, " deal"), One(x, Deal(x, Mix(Seed, r)))), SelectSeq(SiteSeq, LAMBDA y : Len(PropDef[y[2].d].a) > 1))])
\* Every character, and peculiar texts, in every parameter that holds text; a character that needs no quotes also without them.
Q(x) == "\"" \o x \o "\""
AllOf(x, m) == ";CN=" \o x \o ";SENT-BY=" \o Q(m[1]) \o ";LANGUAGE=" \o x \o ";DIR=" \o Q(m[1]) \o ";MEMBER=" \o Join(Map(Q, m), ",")
Bare(x) == ~Has(x, {"\"", ";", ":", ","})
Texts1(l) == LET e == Map(CaretEncode, l) r == Map(LAMBDA x : IF Has(x, {"\""}) THEN CaretEncode(x) ELSE x, l)
                 turn(y, m) == [z \in 1..Len(m) |-> Nth(m, y + z - 1)]
             IN [y \in 1..Len(l) |-> "ATTENDEE" \o AllOf(Q(e[y]), turn(y, e)) \o ":mailto:a@example.com"]
                \o [y \in 1..Len(l) |-> "ATTENDEE" \o AllOf(IF Bare(r[y]) THEN r[y] ELSE Q(r[y]), turn(y, r)) \o ":mailto:a@example.com"]
CharDocs == Map(LAMBDA l : D("in parameters: " \o l[1], Doc("VEVENT", RequiredLines("VEVENT", {}) \o Texts1(l))), Fives)
            \o Map(LAMBDA l : D("in the parameters of an alarm: " \o l[1], LET e == Map(CaretEncode, l)
                     IN Doc("VALARMAUDIO", RequiredLines("VALARMAUDIO", {}) \o [y \in 1..5 |-> "ALARM-AGENT;ID=" \o Q(e[y]) \o ";AGENT-ID=" \o Q(Nth(e, y + 1)) \o ":x"])), Fives)
TheDocs == CharDocs \o Forms \o Twice \o TwiceWith \o ValueTwice \o Pairs \o Deals
Init == Start(TheDocs)
=============================================================================
