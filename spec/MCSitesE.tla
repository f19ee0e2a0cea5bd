------------------------------ MODULE MCSitesE ------------------------------
(* Every place where a value of a type may stand, with many values.         *)
EXTENDS EncMachine, Samples
SitesWith(ts) == SelectSeq(SiteSeq, LAMBDA s : ToSet(PropDef[s[2].d].t) \cap ts # {})
Some(l, s, n) == IF Thorough \/ Len(l) <= n THEN l ELSE LET o == Mix(Seed, Len(s[1]) * 64 + Len(s[2].n)) IN [z \in 1..n |-> l[1 + ((o + z * 7 + (z \div Len(l))) % Len(l))]]
ValCal(s, t, v) == C(s[1] \o "." \o s[2].n \o " " \o t, SiteCal(s[1], s[2], <<Inst(t, v, Empty)>>))
CalsFor(ts, n) == Concat(Map(LAMBDA s : Concat(Map(LAMBDA t : IF t \notin ts THEN <<>>
                        ELSE LET l == Some(ValsOf(s[2].d, t), s, n) IN [z \in 1..Len(l) |-> ValCal(s, t, l[z])], PropDef[s[2].d].t)), SitesWith(ts)))
AllAt(k, n, t) == [z \in 1..Len(Vals[t]) |-> ValCal(<<k, Entry(k, n)>>, t, Vals[t][z])]
\* Several values of a repeatable property at once.
Lists(ts) == Concat(Map(LAMBDA s : IF s[2].c # "*" THEN <<>> ELSE Concat(Map(LAMBDA t : IF t \notin ts THEN <<>> ELSE
                LET l == ValsOf(s[2].d, t)
                IN [z \in 1..3 |-> C(s[1] \o "." \o s[2].n \o " list", SiteCal(s[1], s[2], [y \in 1..3 |-> Inst(t, Nth(l, 3 * z + y), Empty)]))], PropDef[s[2].d].t)), SitesWith(ts)))
\* A choice with none or two of its alternatives.
ChoiceCals(ts) == Concat(Map(LAMBDA s : LET def == PropDef[s[2].d] IN IF Len(def.t) < 2 THEN <<>>
                ELSE <<C(s[1] \o "." \o s[2].n \o " without a value", SiteCal(s[1], s[2], <<Inst("NONE", <<>>, Empty)>>)),
                       C(s[1] \o "." \o s[2].n \o " with two values", SiteCal(s[1], s[2], <<Inst("BOTH", Nth(ValsOf(s[2].d, def.t[1]), 1), Empty)>>))>>, SitesWith(ts)))
\* Many values once more, with some and with all of the parameters that the property may have.
PValue(p, j) == LET k == ParamDef[p].k IN
    CASE k \in {"OPEN", "ENUM"} -> <<Nth(ParamDef[p].e, j)>> [] k \in {"STR", "QSTR"} -> <<Nth(<<"a", "b c", "d;e,f", "^n\"">>, j)>> [] k = "QSTRS" -> Nth(<<<<"m">>, <<"m", "n">>, <<"a,b", "c", "d">>>>, j)
      [] k = "QURI" -> <<Nth(<<"http://example.com/r", "cid:part3">>, j)>> [] k = "QURIS" -> Nth(<<<<"mailto:d@example.com">>, <<"mailto:e@example.com", "mailto:f@example.com">>>>, j)
      [] k = "BOOL" -> <<"TRUE">> [] OTHER -> <<"text/plain">>
PSet(d, z) == LET a == PropDef[d].a IN FoldLeft(LAMBDA m, p : Put(m, p, PValue(p, z)), Empty, IF z % 3 = 0 THEN a ELSE SelectSeq(a, LAMBDA p : (Len(p) + Len(ParamDef[p].g) + z) % 3 = 0) \o <<>>)
FirstSite(s) == \A z \in 1..Len(SiteSeq) : SiteSeq[z] = s \/ SiteSeq[z][2].d # s[2].d \/ \E y \in 1..(z - 1) : SiteSeq[y] = s
WithParams(ts, n) == Concat(Map(LAMBDA s : IF PropDef[s[2].d].a = <<>> \/ ~FirstSite(s) THEN <<>> ELSE Concat(Map(LAMBDA t : IF t \notin ts THEN <<>>
                        ELSE LET l == Some(ValsOf(s[2].d, t), s, n)
                             IN [z \in 1..Len(l) |-> C(s[1] \o "." \o s[2].n \o " with parameters " \o t, SiteCal(s[1], s[2], <<Inst(t, l[z], PSet(s[2].d, z))>>))], PropDef[s[2].d].t)), SitesWith(ts)))
DateTypes == {"DATE", "DATE-TIME"}
\* Every zone; the hours are far from those of any change of offset.
ZoneCals == [y \in 1..Len(ZoneNames) |-> LET z == ZoneNames[y] w == Nth(<<"18500615T120000", "20500715T123456", "99980101T130000">>, y + Seed)
             IN C("zone " \o z, SiteCal("VEVENT", Entry("VEVENT", "RDATE"), <<Inst("DATE-TIME", <<"20240115T123456", z>>, Empty), Inst("DATE-TIME", <<w, z>>, Empty), Inst("DATE-TIME", <<"20240715T143001", z>>, Empty),
                    Inst("PERIOD", <<"20240801T100000", z, "20240801T160000">>, Empty), Inst("PERIOD", <<"20240801T100000", z, "+", "0", "0", "1", "0", "0">>, Empty)>>))]
ScalarTypes == {"INTEGER", "GEO", "BOOLEAN", "URI", "CAL-ADDRESS", "BINARY", "ENUM"}
AllTypes == DOMAIN Vals \cup {"ENUM"}
TextCals == WithParams({"TEXT", "MTEXT"}, 60) \o CalsFor({"TEXT", "MTEXT"}, 8) \o Lists({"TEXT", "MTEXT"}) \o AllAt("VEVENT", "SUMMARY", "TEXT") \o AllAt("VTODO", "CATEGORIES", "MTEXT") \o AllAt("VEVENT", "RESOURCES", "MTEXT") \o AllAt("VALARMEMAIL", "DESCRIPTION", "TEXT")
DateCals == ZoneCals \o WithParams(DateTypes, 80) \o CalsFor(DateTypes, 12) \o CalsFor({"PERIOD"}, 60) \o ChoiceCals(DateTypes) \o Lists(DateTypes) \o AllAt("VEVENT", "DTSTART", "DATE-TIME") \o AllAt("VTODO", "COMPLETED", "DATE-TIME") \o AllAt("VTODO", "DUE", "DATE") \o AllAt("VJOURNAL", "RDATE", "DATE-TIME")
AmountCals == WithParams({"PERIOD"}, 60) \o CalsFor({"DURATION", "PERIOD", "UTC-OFFSET"}, 10) \o Lists({"PERIOD"}) \o AllAt("VEVENT", "DURATION", "DURATION") \o AllAt("VFREEBUSY", "FREEBUSY", "PERIOD") \o AllAt("VEVENT", "RDATE", "PERIOD") \o AllAt("DAYLIGHT", "TZOFFSETFROM", "UTC-OFFSET")
              \o AllAt("VALARMDISPLAY", "TRIGGER", "DURATION")
\* A wrong part beside every other part.
BadPairs == Concat(Map(LAMBDA b : LET ps == SelectSeq(RecurParts, LAMBDA q : PartKey(q) # PartKey(b) /\ ~({PartKey(q), PartKey(b)} = {"COUNT", "UNTIL"}))
                                  IN [z \in 1..Len(ps) |-> IF PartNo(b) < PartNo(ps[z]) THEN <<Freq(z), b, ps[z]>> ELSE <<Freq(z), ps[z], b>>], BadParts))
PairCals == LET l == Some(BadPairs, <<"VEVENT", Entry("VEVENT", "RRULE")>>, 700) IN [z \in 1..Len(l) |-> ValCal(<<"VEVENT", Entry("VEVENT", "RRULE")>>, "RECUR", l[z])]
RecurCals == CalsFor({"RECUR"}, 60) \o AllAt("VEVENT", "RRULE", "RECUR") \o PairCals
ScalarCals == WithParams(ScalarTypes, 40) \o CalsFor(ScalarTypes, 40) \o ChoiceCals({"BINARY"}) \o Lists(ScalarTypes)
\* One invalid value somewhere: a share of everything.
AnyCals == CalsFor(AllTypes, 7) \o ChoiceCals(AllTypes)
InitText == Start(TextCals)
InitDate == Start(DateCals)
InitAmount == Start(AmountCals)
InitRecur == Start(RecurCals)
InitScalar == Start(ScalarCals)
InitAny == Start(AnyCals)
=============================================================================
