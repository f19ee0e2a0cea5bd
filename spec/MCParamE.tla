------------------------------ MODULE MCParamE ------------------------------
(* Parameter values to encode.                                              *)
EXTENDS EncMachine
Toks == <<"^", "n", "'", "\"", "\n", ",", ";", ":", "\t", " ", "a", "é", "\\", "=">>
Words2 == Concat(Map(LAMBDA x : Map(LAMBDA y : x \o y, Toks), Toks))
Odd == Concat(Map(LAMBDA x : <<x, x \o x, "a" \o x, x \o "a", "^" \o x, x \o "^", x \o "\"", "," \o x>>, OddChars))
Words == <<"">> \o Odd \o Toks \o Words2 \o [z \in 1..IfThorough(2000, 150) |-> Pick(Words2, Mix(Seed, z)) \o Pick(Toks, Mix(Seed + 1, z)) \o Pick(Words2, Mix(Seed + 2, z))]
BadWords == LET b == SetToSeq(BadTextSet) IN b \o Map(LAMBDA x : "a" \o x, b) \o Map(LAMBDA x : x \o "^", b)
Few == <<"", "a", "a,b", "^", "\"", "\n", "a;b:c", "^n", "€⑷", " ", "a␀", "\r">>
ValsBy == ( "STR" :> Map(LAMBDA x : <<x>>, Few) @@ "QSTR" :> Map(LAMBDA x : <<x>>, Few)
         @@ "QSTRS" :> <<<<>>, <<"">>, <<"", "">>, <<"a">>, <<"a", "b">>, <<"a,b", "\"">>, <<"^", "\n", "c">>, <<"a", "␀">>, <<"\r", "b">>, <<"1", "2", "3", "4", "5">>, <<"z", "b", "c", "a", "b">>>>
         @@ "QURI" :> Map(LAMBDA x : <<x>>, <<"http://example.com/a", "mailto:x@example.com", "cid:1", "urn:uuid:3">>)
         @@ "QURIS" :> <<<<>>, <<"mailto:a@example.com">>, <<"mailto:a@example.com", "urn:uuid:2">>, <<"cid:a", "cid:a", "ftp://example.com/x">>>>
         @@ "BOOL" :> <<<<"TRUE">>, <<"FALSE">>>>
         @@ "FMT" :> <<<<"text/plain">>, <<"a/b!#$&.+^_-">>, <<"text">>, <<"text/">>, <<"/x">>, <<"a/b/c">>, <<"a/b c">>, <<"a/b\n">>, <<"a/b;c">>, <<"a/b,c/d">>, <<"a/\"b\"">>, <<"a␀/b">>>> )
ValsOfP(p) == CASE ParamDef[p].k = "OPEN" -> Map(LAMBDA x : <<x>>, ParamDef[p].e \o <<"UNKNOWN">>)
                [] ParamDef[p].k = "ENUM" -> Map(LAMBDA x : <<x>>, ParamDef[p].e)
                [] OTHER -> ValsBy[ParamDef[p].k]
WithP(x, a) == C(x[1] \o "." \o x[2].n, SiteCal(x[1], x[2], <<LET ln == Lex(Line(x[2], 1)) IN [ParseInst(x[2].d, ln.a, ln.v).i EXCEPT !.a = a]>>))
PSites == SelectSeq(SiteSeq, LAMBDA y : PropDef[y[2].d].a # <<>>)
ParamSites == Concat(LET ds == SetToSeq({x[2].d : x \in ToSet(PSites)})
                IN Map(LAMBDA def : LET l == SelectSeq(PSites, LAMBDA y : y[2].d = def) IN IF Thorough THEN l ELSE <<Pick(l, Mix(Seed, Len(def)))>>, ds))
Forms == Concat(Map(LAMBDA x : Concat(Map(LAMBDA p : Map(LAMBDA v : WithP(x, p :> v), ValsOfP(p)), PropDef[x[2].d].a)), ParamSites))
Ev(n) == <<"VEVENT", Entry("VEVENT", n)>>
Exhaust == Map(LAMBDA w : WithP(Ev("SUMMARY"), "LANGUAGE" :> <<w>>), Words \o BadWords)
           \o Map(LAMBDA w : WithP(Ev("ORGANIZER"), "DIR" :> <<w>> @@ "CN" :> <<w>>), Words \o BadWords)
           \o Map(LAMBDA w : WithP(Ev("ATTENDEE"), "MEMBER" :> <<w, "x">> @@ "SENT-BY" :> <<w>>), Words)
           \o Map(LAMBDA w : WithP(Ev("ATTENDEE"), "MEMBER" :> <<"x", w>>), BadWords)
\* Each character that cannot be written, in each parameter on its own.
BadAlone == Concat(Map(LAMBDA p : LET x == SelectSeq(PSites, LAMBDA y : p \in ToSet(PropDef[y[2].d].a))[1] many == ParamDef[p].k = "QSTRS"
                                  IN Map(LAMBDA b : WithP(x, p :> (IF many THEN <<"a", b>> ELSE <<b>>)), Map(LAMBDA b : Nth(<<b, "a" \o b, b \o "c", "a" \o b \o "c">>, Seed), SetToSeq(BadTextSet))),
                       SelectSeq(SetToSeq(DOMAIN ParamDef), LAMBDA p : ParamDef[p].k \in {"STR", "QSTR", "QSTRS"})))
\* All parameters at once, all but one, none.
Valid(p, j) == LET l == SelectSeq(ValsOfP(p), LAMBDA v : ValidParam(p, v)) IN Nth(l, j)
Sets == Concat(Map(LAMBDA x : LET ps == PropDef[x[2].d].a
                              IN Concat([j \in 1..3 |-> <<WithP(x, [p \in ToSet(ps) |-> Valid(p, j + 2)])>> \o Map(LAMBDA q : WithP(x, [p \in ToSet(ps) \ {q} |-> Valid(p, j + 1 + Len(p))]), ps)]), PSites))
\* Every character, and peculiar texts, in every parameter that holds text.
CharCals == Map(LAMBDA l : C("in parameters: " \o l[1], SiteCal("VEVENT", Entry("VEVENT", "ATTENDEE"), [y \in 1..5 |-> Inst("CAL-ADDRESS", <<"mailto:a@example.com">>,
                                 "CN" :> <<l[y]>> @@ "SENT-BY" :> <<l[y]>> @@ "LANGUAGE" :> <<l[y]>> @@ "DIR" :> <<l[y]>> @@ "MEMBER" :> [z \in 1..5 |-> Nth(l, y + z - 1)])])), Fives)
            \o Map(LAMBDA l : C("in the parameters of an alarm: " \o l[1], SiteCal("VALARMDISPLAY", Entry("VALARMDISPLAY", "ALARM-AGENT"),
                                 [y \in 1..5 |-> Inst("TEXT", <<"x">>, "ID" :> <<l[y]>> @@ "AGENT-ID" :> <<Nth(l, y + 1)>>)])), Fives)
\* Parameters that equal each other and the value.
SameAs(x, w) == LET ps == PropDef[x[2].d].a t == PropDef[x[2].d].t
                    v(p) == LET k == ParamDef[p].k IN IF k \in {"QSTRS", "QURIS"} THEN <<w, w>> ELSE IF k \in {"STR", "QSTR", "QURI"} THEN <<w>> ELSE Valid(p, 1)
                    texts == SelectSeq(ps, LAMBDA p : ParamDef[p].k \in {"QSTRS", "QURIS", "STR", "QSTR", "QURI"})
                    y == IF t[1] \in {"TEXT", "CAL-ADDRESS", "URI"} THEN <<Inst(t[1], <<w>>, Empty)>> ELSE IF t[1] = "MTEXT" THEN <<Inst(t[1], <<w, w>>, Empty)>> ELSE <<>>
                    put(a) == C(x[1] \o "." \o x[2].n \o " with equal parameters", SiteCal(x[1], x[2], [z \in 1..Len(y) |-> [y[z] EXCEPT !.a = a]]))
                IN IF y = <<>> THEN <<>> ELSE <<put([p \in ToSet(ps) |-> v(p)]), put([p \in ToSet(texts) |-> v(p)])>> \o Map(LAMBDA q : put(q :> v(q)), texts)
                   \o Concat(Map(LAMBDA q : Map(LAMBDA r : put(q :> v(q) @@ r :> v(r)), SelectSeq(texts, LAMBDA r : Len(r) > Len(q) \/ (Len(r) = Len(q) /\ r # q))), texts))
SameCals == Concat(Map(LAMBDA x : SameAs(x, "mailto:a@example.com") \o SameAs(x, Nth(<<"urn:uuid:3", "mailto:A", "http://example.com/a">>, Seed)), ParamSites))
TheCals == SameCals \o BadAlone \o CharCals \o Forms \o Exhaust \o Sets
Init == Start(TheCals)
=============================================================================
