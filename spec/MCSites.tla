------------------------------ MODULE MCSites -------------------------------
(* Every place where a value of a type may stand, with many written forms.  *)
EXTENDS DecMachine, Samples
RawLine(e, t, r) == e.n \o (IF t # PropDef[e.d].t[1] THEN ";VALUE=" \o t ELSE "") \o r.x \o ":" \o r.s
SitesWith(ts) == SelectSeq(SiteSeq, LAMBDA s : ToSet(PropDef[s[2].d].t) \cap ts # {})
RawDoc(s, t, r) == D(s[1] \o "." \o s[2].n \o " " \o t \o ": " \o r.s,
                     Doc(s[1], RequiredLines(s[1], {s[2].n}) \o WithLines(s[1], s[2].n, {}) \o <<RawLine(s[2], t, r)>>))
\* All forms at the first site of each property definition; elsewhere a share of them.
FirstSite(s) == \A z \in 1..Len(SiteSeq) : SiteSeq[z] = s \/ SiteSeq[z][2].d # s[2].d \/ \E y \in 1..(z - 1) : SiteSeq[y] = s
Some(l, s, n) == IF Thorough \/ Len(l) <= n THEN l ELSE LET o == Mix(Seed, Len(s[1]) * 64 + Len(s[2].n)) IN [z \in 1..n |-> l[1 + ((o + z * 7 + (z \div Len(l))) % Len(l))]]
DocsFor(ts, n) == Concat(Map(LAMBDA s : Concat(Map(LAMBDA t : IF t \notin ts THEN <<>>
                        ELSE LET l == Some(RawOf(s[2].d, t), s, n) IN [z \in 1..Len(l) |-> RawDoc(s, t, l[z])], PropDef[s[2].d].t)), SitesWith(ts)))
\* All forms of a type in one place.
AllAt(k, n, t, l) == [z \in 1..Len(l) |-> RawDoc(<<k, Entry(k, n)>>, t, l[z])]
\* VALUE that does not fit, is given twice, or names the default.
ValueDocs(ts) == Concat(Map(LAMBDA s : LET k == s[1] e == s[2] def == PropDef[s[2].d]
    IN IF Len(def.t) < 2 THEN <<>>
       ELSE Concat([z \in 1..Len(def.t) |->
              LET t == def.t[z]
                  w(j) == Nth(WrittenFor(e.d, def.t[j]), 1)
                  doc1(note, line) == D(k \o "." \o e.n \o " VALUE " \o note, Doc(k, RequiredLines(k, {e.n}) \o WithLines(k, e.n, {}) \o <<line>>))
              IN <<doc1("given", e.n \o ";VALUE=" \o t \o w(z).x \o ":" \o w(z).s), doc1("last", e.n \o w(z).x \o ";VALUE=" \o t \o ":" \o w(z).s),
                   doc1("quoted", e.n \o ";VALUE=\"" \o t \o "\"" \o w(z).x \o ":" \o w(z).s),
                   doc1("twice", e.n \o ";VALUE=" \o t \o ";VALUE=" \o t \o w(z).x \o ":" \o w(z).s),
                   doc1("two", e.n \o ";VALUE=" \o t \o "," \o t \o w(z).x \o ":" \o w(z).s),
                   doc1("missing", e.n \o w(z).x \o ":" \o w(z).s),
                   doc1("cut", e.n \o ";VALUE=" \o Cut(t, 3) \o w(z).x \o ":" \o w(z).s)>>
                 \o [y \in 1..Len(def.t) |-> doc1("of another", e.n \o ";VALUE=" \o def.t[y] \o w(z).x \o ":" \o w(z).s)]
                 \o Map(LAMBDA u : doc1(u, e.n \o ";VALUE=" \o u \o w(z).x \o ":" \o w(z).s), <<"", "TEXT", "DATE-TIME", "DATE", "PERIOD", "URI", "BINARY", "DURATION", "X-NEW">>)
                 \o Map(LAMBDA u : doc1(u, e.n \o ";VALUE=" \o u \o w(z).x \o ":" \o w(z).s), NearWords(t) \o Map(LAMBDA u : "\"" \o u \o "\"", NearWords(t)))
                 \o Concat(Map(LAMBDA q : Concat([y \in 1..Len(def.t) |->
                      <<doc1("twice before " \o q, e.n \o ";VALUE=" \o def.t[y] \o ";VALUE=" \o t \o q \o w(z).x \o ":" \o w(z).s),
                        doc1("twice around " \o q, e.n \o ";VALUE=" \o t \o q \o ";value=" \o def.t[y] \o w(z).x \o ":" \o w(z).s),
                        doc1("twice after " \o q, e.n \o w(z).x \o q \o ";VALUE=" \o def.t[y] \o ";VALUE=" \o t \o ":" \o w(z).s)>>]),
                      <<";TZID=Asia/Tokyo", ";X-A=b", ";LANGUAGE=en", ";ENCODING=BASE64">> \o Map(LAMBDA q : ParamText(q, 1), def.a)))]), SitesWith(ts)))
\* Many forms once more, with each parameter the property may have, with all of them, and with unknown ones.
ParamSets(d) == Map(LAMBDA p : <<p>>, PropDef[d].a) \o (IF Len(PropDef[d].a) > 1 THEN <<PropDef[d].a>> ELSE <<>>)
PText(ps, j) == FoldLeft(LAMBDA a, p : a \o ParamText(p, j), "", ps)
LineWith(e, t, r, ps, j) == e.n \o (IF j % 2 = 0 THEN PText(ps, j) ELSE "") \o (IF t # PropDef[e.d].t[1] THEN ";VALUE=" \o t ELSE "") \o r.x \o (IF j % 2 = 0 THEN "" ELSE PText(ps, j)) \o ":" \o r.s
WithParams(ts, n) == Concat(Map(LAMBDA s : LET e == s[2] sets == ParamSets(s[2].d) \o <<<<>>>>
    IN IF PropDef[e.d].a = <<>> \/ ~FirstSite(s) THEN <<>>
       ELSE Concat(Map(LAMBDA t : IF t \notin ts THEN <<>> ELSE LET l == Some(RawOf(e.d, t), s, n)
              IN Concat([z \in 1..Len(l) |-> LET ps == Nth(sets, z + Seed)
                                                lines == IF ps = <<>> THEN <<e.n \o (IF t # PropDef[e.d].t[1] THEN ";VALUE=" \o t ELSE "") \o l[z].x \o ";X-A=b,\"c\";Y=\"\":" \o l[z].s>> ELSE <<LineWith(e, t, l[z], ps, z), LineWith(e, t, l[z], PropDef[e.d].a, z + 1)>>
                                            IN Map(LAMBDA ln : D(s[1] \o "." \o e.n \o " with parameters " \o t \o ": " \o l[z].s, Doc(s[1], RequiredLines(s[1], {e.n}) \o WithLines(s[1], e.n, {}) \o <<ln>>)), lines)]), PropDef[e.d].t)), SitesWith(ts)))
DateTypes == {"DATE", "DATE-TIME"}
\* Every zone, in every kind of value with times; the hours are far from those of any change of offset.
ZoneDoc(z) == LET tz == ";TZID=" \o ZoneNames[z] w == Nth(<<"18500615T120000", "20500715T123456", "99980101T130000">>, z + Seed)
              IN D("zone " \o ZoneNames[z], Doc("VEVENT", RequiredLines("VEVENT", {}) \o <<"DTSTART" \o tz \o ":20240115T123456", "DTEND" \o tz \o ":20240715T143001", "EXDATE" \o tz \o ":" \o w, "EXDATE" \o tz \o ":20240116T110000",
                    "RDATE" \o tz \o ":20241231T150000", "RDATE;VALUE=PERIOD" \o tz \o ":20240801T100000/20240801T160000", "RDATE" \o tz \o ";VALUE=PERIOD:20240801T100000/PT1H", "RECURRENCE-ID" \o tz \o ":20240117T123456">>))
ZoneDocs == [z \in 1..Len(ZoneNames) |-> ZoneDoc(z)]
ScalarTypes == {"INTEGER", "GEO", "BOOLEAN", "URI", "CAL-ADDRESS", "BINARY", "ENUM"}
\* Every character, and peculiar texts, as texts and in lists.
CharDocs == Concat(Map(LAMBDA l : [y \in 1..5 |-> LET e == Map(EscapeText, l) t(n) == Nth(e, y + n)
              IN D("texts " \o l[1], Doc("VEVENT", <<"DTSTAMP:20240101T000000Z", "UID:" \o t(1), "SUMMARY:" \o t(0), "DESCRIPTION:" \o t(2), "LOCATION:" \o t(3), "CONTACT:" \o t(4), "CONTACT:" \o t(0), "RELATED-TO:" \o t(3),
                                  "COMMENT:" \o Nth(l, y), "CATEGORIES:" \o Join([z \in 1..5 |-> t(z)], ","), "RESOURCES:" \o t(0)>>))], Fives))
            \o Concat(Map(LAMBDA s : IF PropDef[s[2].d].t[1] \notin {"TEXT", "MTEXT"} THEN <<>>
                      ELSE [y \in 1..IfThorough(40, 4) |-> LET l == Pick(Fives, Mix(Seed + y, Len(s[2].n) * 5 + Len(s[1]))) IN RawDoc(s, PropDef[s[2].d].t[1], [x |-> "", s |-> EscapeText(Nth(l, y))])], SitesWith({"TEXT", "MTEXT"})))
TextDocs == CharDocs \o WithParams({"TEXT", "MTEXT"}, 60) \o DocsFor({"TEXT", "MTEXT"}, 10) \o AllAt("VEVENT", "SUMMARY", "TEXT", Raw["TEXT"]) \o AllAt("VTODO", "CATEGORIES", "MTEXT", Raw["MTEXT"]) \o AllAt("VEVENT", "RESOURCES", "MTEXT", Raw["MTEXT"]) \o AllAt("VJOURNAL", "COMMENT", "TEXT", Raw["TEXT"])
DateDocs == ZoneDocs \o WithParams(DateTypes, 60) \o DocsFor(DateTypes, 12) \o DocsFor({"PERIOD"}, 30) \o ValueDocs(DateTypes) \o AllAt("VEVENT", "DTSTART", "DATE-TIME", Raw["DATE-TIME"]) \o AllAt("VTODO", "COMPLETED", "DATE-TIME", Raw["DATE-TIME"]) \o AllAt("VTODO", "DUE", "DATE", Raw["DATE"]) \o AllAt("VEVENT", "EXDATE", "DATE", Raw["DATE"]) \o AllAt("VJOURNAL", "RDATE", "DATE-TIME", Raw["DATE-TIME"])
AmountDocs == WithParams({"PERIOD"}, 60) \o DocsFor({"DURATION", "PERIOD", "UTC-OFFSET"}, 12) \o AllAt("VEVENT", "DURATION", "DURATION", Raw["DURATION"]) \o AllAt("VFREEBUSY", "FREEBUSY", "PERIOD", Raw["PERIOD"]) \o AllAt("VEVENT", "RDATE", "PERIOD", Raw["PERIOD"])
              \o AllAt("STANDARD", "TZOFFSETTO", "UTC-OFFSET", Raw["UTC-OFFSET"]) \o AllAt("VALARMAUDIO", "TRIGGER", "DURATION", Raw["DURATION"])
RecurDocs == DocsFor({"RECUR"}, 1000) \o AllAt("VEVENT", "RRULE", "RECUR", RecurEdges) \o AllAt("VJOURNAL", "RRULE", "RECUR", RecurDays) \o AllAt("STANDARD", "RRULE", "RECUR", RecurNames)
ScalarDocs == WithParams(ScalarTypes, 40) \o DocsFor(ScalarTypes \ {"ENUM"}, 40) \o DocsFor({"ENUM"}, 500) \o ValueDocs({"BINARY"})
InitText == Start(TextDocs)
InitDate == Start(DateDocs)
InitAmount == Start(AmountDocs)
InitRecur == Start(RecurDocs)
InitScalar == Start(ScalarDocs)
=============================================================================
