------------------------------ MODULE Calendar ------------------------------
(* Calendars as values, the decoder as a machine that consumes one content  *)
(* line at a time, and the encoder as a function to content lines.          *)
(*                                                                          *)
(* A component is [c, p, s]: its kind, a function from property names to    *)
(* sequences of instances [t, v, a], and a function from child names to     *)
(* sequences of components.  Only names that occur are in the domains.      *)
EXTENDS Stream

Comp(k) == [c |-> k, p |-> Empty, s |-> Empty]

------------------------------------------------------------------------------
(* Parameters of a property.                                                *)
FmtSet == LowerSet \cup UpperSet \cup DigitSet \cup CharSet("!#$&.+^_-")
ValidFmt(s) == LET i == Index(s, "/")
               IN i > 1 /\ i < Len(s) /\ All(Cut(s, i - 1), FmtSet) /\ All(From(s, i + 1), FmtSet)
ParseUris(l) == LET rs == [i \in 1..Len(l) |-> ParseUri(l[i])]
                IN IF \E i \in 1..Len(l) : rs[i].st = "no" THEN No
                   ELSE IF \E i \in 1..Len(l) : rs[i].st = "any" THEN Open
                   ELSE Ok(l)
ParseParam(name, vs) ==
    LET d == ParamDef[name]
        quoted == \A i \in 1..Len(vs) : vs[i].q
        txt == [i \in 1..Len(vs) |-> CaretDecode(vs[i].d)]
        one == Len(vs) = 1
    IN CASE d.k = "STR" -> IF one THEN Ok(txt) ELSE No
         [] d.k = "QSTR" -> IF one /\ quoted THEN Ok(txt) ELSE No
         [] d.k = "QSTRS" -> IF quoted THEN Ok(txt) ELSE No
         [] d.k = "QURI" -> IF one /\ quoted THEN ParseUris(txt) ELSE No
         [] d.k = "QURIS" -> IF quoted THEN ParseUris(txt) ELSE No
         [] d.k = "OPEN" -> IF ~one THEN No
                            ELSE IF Upper(vs[1].d) \in ToSet(d.e) THEN Ok(<<Upper(vs[1].d)>>)
                            ELSE Ok(<<"UNKNOWN">>)
         [] d.k = "ENUM" -> IF one /\ Upper(vs[1].d) \in ToSet(d.e) THEN Ok(<<Upper(vs[1].d)>>) ELSE No
         [] d.k = "BOOL" -> IF one THEN ParseBoolean(vs[1].d) ELSE No
         [] d.k = "FMT" -> IF one /\ ValidFmt(txt[1]) THEN Ok(txt) ELSE No
\* An empty string, an empty list and a false RSVP cannot be told from an absent parameter.
AbsentParam(name, v) == \/ v = <<>>
                        \/ (v = <<"">> /\ ParamDef[name].k \in {"STR", "QSTR", "QURI", "FMT"})
                        \/ (v = <<"FALSE">> /\ ParamDef[name].k = "BOOL")
ValidParam(name, v) ==
    LET k == ParamDef[name].k
    IN CASE k \in {"STR", "QSTR", "QSTRS"} -> \A i \in 1..Len(v) : ValidText(v[i])
         [] k \in {"QURI", "QURIS"} -> \A i \in 1..Len(v) : v[i] \notin BadUris
         [] k = "OPEN" -> v[1] = "UNKNOWN" \/ v[1] \in ToSet(ParamDef[name].e)
         [] k = "ENUM" -> v[1] \in ToSet(ParamDef[name].e)
         [] k = "BOOL" -> TRUE
         [] k = "FMT" -> ValidFmt(v[1])
QuoteSet == CharSet("\";:,")
FormatParam(name, v) ==
    LET k == ParamDef[name].k
        q(x) == "\"" \o CaretEncode(x) \o "\""
    IN ";" \o name \o "=" \o
       (CASE k \in {"QSTR", "QSTRS", "QURI", "QURIS"} -> Join([i \in 1..Len(v) |-> q(v[i])], ",")
          [] k = "STR" -> IF Has(v[1], QuoteSet) THEN q(v[1]) ELSE CaretEncode(v[1])
          [] k = "FMT" -> CaretEncode(v[1])
          [] OTHER -> v[1])

(* One property instance from the parameters and the value of a line.       *)
ParamStep(def, a, prm) ==
    LET n == Upper(prm.n)
        r == ParseParam(n, prm.vs)
    IN IF a.st = "no" THEN a
       ELSE IF n \in ToSet(def.a) THEN
            IF n \in DOMAIN a.a THEN [a EXCEPT !.st = "no"]
            ELSE IF r.st = "no" THEN [a EXCEPT !.st = "no"]
            ELSE [a EXCEPT !.a = Put(@, n, r.v), !.st = IF r.st = "any" THEN "any" ELSE @]
       ELSE IF n = "VALUE" /\ Len(def.t) > 1 THEN
            IF Len(prm.vs) # 1 \/ a.t # "" THEN [a EXCEPT !.st = "no"]
            ELSE IF Upper(prm.vs[1].d) \notin ToSet(def.t) THEN [a EXCEPT !.st = "no"]
            ELSE [a EXCEPT !.t = Upper(prm.vs[1].d)]
       ELSE [a EXCEPT !.st = IF n \in {"TZID", "ENCODING"} /\ n \in DOMAIN a.x THEN "any" ELSE @,
                      !.x = Put(@, n, Join([i \in 1..Len(prm.vs) |-> prm.vs[i].d], ","))]
ParseInst(d, params, text) ==
    LET def == PropDef[d]
        s(a, prm) == ParamStep(def, a, prm)
        ps == IF def.t[1] = "ENUM" THEN <<>> ELSE params
        a == FoldLeft(s, [st |-> "ok", a |-> Empty, t |-> "", x |-> Empty], ps)
        t == IF a.t = "" THEN def.t[1] ELSE a.t
        r == IF a.st = "no" THEN No ELSE ParseValue(t, def.e, a.x, text)
    IN [st |-> IF a.st = "no" \/ r.st = "no" THEN "no" ELSE IF a.st = "any" THEN "any" ELSE r.st,
        i |-> [t |-> t, v |-> r.v, a |-> a.a]]

------------------------------------------------------------------------------
(* Rules between the properties (or children) of one component.             *)
Filled(f, n) == n \in DOMAIN f /\ Len(f[n]) > 0
Set(k, n) == Filled(k.p, n) \/ Filled(k.s, n)
RuleOk(k, r) == CASE r[1] = "XOR" -> ~(Set(k, r[2]) /\ Set(k, r[3]))
                  [] r[1] = "REQ" -> Set(k, r[2]) => Set(k, r[3])
                  [] r[1] = "ALL" -> Set(k, r[2]) <=> Set(k, r[3])
                  [] r[1] = "ANY" -> Set(k, r[2]) \/ Set(k, r[3])
RulesOk(k) == \A i \in 1..Len(CompDef[k.c].rules) : RuleOk(k, CompDef[k.c].rules[i])
Complete(k) == Required(k.c) \subseteq DOMAIN k.p /\ RulesOk(k)

------------------------------------------------------------------------------
(* The decoder.  A frame is an open component: kind "comp", "skip" (being   *)
(* ignored) or "alarm" (lines are kept until END, when the action is known).*)
Frame(k, c) == [k |-> k, c |-> Comp(c), l |-> <<>>, act |-> ""]
DecInit == [st |-> "start", fs |-> <<>>, open |-> FALSE, cal |-> Comp("NONE")]
DecErr(d) == [d EXCEPT !.st = "err"]
Top(d) == d.fs[Len(d.fs)]
PushF(d, f) == [d EXCEPT !.fs = Append(@, f)]
PopF(d) == [d EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)]
SetTop(d, f) == [d EXCEPT !.fs = [@ EXCEPT ![Len(@)] = f]]
\* A finished component goes to its parent.
GiveUp(d, c) == LET e == PopF(d)
                IN IF e.fs = <<>> THEN [e EXCEPT !.st = "done", !.cal = c]
                   ELSE LET f == Top(e) IN SetTop(e, [f EXCEPT !.c.s = Push(@, WireName(c.c), c)])

\* A property line inside component k: [st, c].
AddProp(r, line) ==
    LET n == Upper(line.n)
        k == r.c.c
        i == ParseInst(PropsOf[k][n].d, line.a, line.v)
    IN IF r.st = "no" \/ n \notin DOMAIN PropsOf[k] THEN r
       ELSE IF PropsOf[k][n].c # "*" /\ n \in DOMAIN r.c.p THEN [r EXCEPT !.st = "no"]
       ELSE IF i.st = "no" THEN [r EXCEPT !.st = "no"]
       ELSE [st |-> IF i.st = "any" THEN "any" ELSE r.st, c |-> [r.c EXCEPT !.p = Push(@, n, i.i)]]

DecProp(d, line) ==
    LET r == AddProp([st |-> "ok", c |-> Top(d).c], line)
    IN IF r.st = "no" THEN DecErr(d)
       ELSE [SetTop(d, [Top(d) EXCEPT !.c = r.c]) EXCEPT !.open = @ \/ r.st = "any"]

DecBegin(d, name) ==
    LET f == Top(d)
    IN CASE f.k = "alarm" -> DecErr(d)
         [] f.k = "skip" -> PushF(d, Frame("skip", name))
         [] OTHER -> IF name \notin ToSet(CompDef[f.c.c].subs) THEN PushF(d, Frame("skip", name))
                     ELSE IF name = "VALARM" THEN PushF(d, Frame("alarm", name))
                     ELSE PushF(d, Frame("comp", name))

DecEnd(d, name) ==
    LET f == Top(d)
    IN IF name # f.c.c THEN DecErr(d)
       ELSE CASE f.k = "skip" -> PopF(d)
              [] f.k = "comp" -> IF Complete(f.c) THEN GiveUp(d, f.c) ELSE DecErr(d)
              [] f.k = "alarm" ->
                   IF f.act = "" THEN DecErr(d)
                   ELSE LET r == FoldLeft(AddProp, [st |-> "ok", c |-> Comp(Actions[f.act])], f.l)
                        IN IF r.st = "no" \/ ~Complete(r.c) THEN DecErr(d)
                           ELSE [GiveUp(d, r.c) EXCEPT !.open = @ \/ r.st = "any"]

DecAlarmLine(d, line) ==
    LET f == Top(d)
    IN IF Upper(line.n) # "ACTION" THEN SetTop(d, [f EXCEPT !.l = Append(@, line)])
       ELSE IF f.act # "" \/ Upper(line.v) \notin DOMAIN Actions THEN DecErr(d)
       ELSE SetTop(d, [f EXCEPT !.act = Upper(line.v)])

\* line: result of Lex.
DecStep(d, line) ==
    LET n == Upper(line.n)
    IN CASE d.st \in {"err", "done"} -> d
         [] ~line.ok -> DecErr(d)
         [] d.st = "start" -> IF n = "BEGIN" /\ Upper(line.v) = "VCALENDAR"
                              THEN [PushF(d, Frame("comp", "VCALENDAR")) EXCEPT !.st = "run"]
                              ELSE DecErr(d)
         [] n = "BEGIN" -> DecBegin(d, Upper(line.v))
         [] n = "END" -> DecEnd(d, Upper(line.v))
         [] Top(d).k = "skip" -> d
         [] Top(d).k = "alarm" -> DecAlarmLine(d, line)
         [] OTHER -> DecProp(d, line)

\* Verdict when the stream ends: [st, cal].
Outcome(d) == [st |-> IF d.st # "done" THEN "no" ELSE IF d.open THEN "any" ELSE "ok",
               cal |-> IF d.st = "done" /\ ~d.open THEN d.cal ELSE Comp("NONE")]
\* The decoder after further raw lines.  (Written as a fold so that TLC evaluates each line once.)
Feed(d, ls) == FoldLeft(LAMBDA e, x : DecStep(e, Lex(x)), d, ls)
DecodeLines(ls) == Outcome(Feed(DecInit, ls))
\* Whether the last line is complete is not clear when the stream ends between its CR and LF.
HalfBroken(ls) == /\ ls # <<>> /\ Len(Last(ls)) > 0 /\ From(Last(ls), Len(Last(ls))) = "\r"
                  /\ Feed(DecInit, Append(Front(ls), Cut(Last(ls), Len(Last(ls)) - 1))).st = "done"
                  /\ Feed(DecInit, Front(ls)).st # "done"
DecodeStream(s) == LET ls == SplitLines(Unfold(s))
                   IN IF HalfBroken(ls) THEN [st |-> "any", cal |-> Comp("NONE")] ELSE DecodeLines(ls)

------------------------------------------------------------------------------
(* The encoder.                                                             *)
ValidInst(d, i) == /\ i.t \in ToSet(PropDef[d].t)
                   /\ ValidValue(i.t, PropDef[d].e, i.v)
                   /\ \A n \in DOMAIN i.a : ValidParam(n, i.a[n])
RECURSIVE ValidComp(_)
ValidComp(k) ==
    /\ k.c \in Comps
    /\ Complete(k)
    /\ \A n \in DOMAIN k.p : \A i \in 1..Len(k.p[n]) : ValidInst(PropsOf[k.c][n].d, k.p[n][i])
    /\ \A n \in DOMAIN k.s : \A i \in 1..Len(k.s[n]) : ValidComp(k.s[n][i])

FormatInst(n, d, i) ==
    n \o FoldLeft(LAMBDA a, prm : a \o (IF prm \in DOMAIN i.a /\ ~AbsentParam(prm, i.a[prm])
                                        THEN FormatParam(prm, i.a[prm]) ELSE ""), "", PropDef[d].a)
      \o (IF i.t # PropDef[d].t[1] THEN ";VALUE=" \o i.t ELSE "")
      \o ValueParams(i.t, CanonValue(i.t, i.v)) \o ":" \o FormatValue(i.t, CanonValue(i.t, i.v))
PropLines(k) ==
    Concat([j \in 1..Len(CompDef[k.c].ps) |->
        LET e == CompDef[k.c].ps[j]
        IN IF e.n \in DOMAIN k.p THEN [x \in 1..Len(k.p[e.n]) |-> FormatInst(e.n, e.d, k.p[e.n][x])] ELSE <<>>])
RECURSIVE EncodeLines(_)
EncodeLines(k) ==
    <<"BEGIN:" \o WireName(k.c)>>
    \o (IF k.c \in AlarmKindSet THEN <<"ACTION:" \o ActionOf(k.c)>> ELSE <<>>)
    \o PropLines(k)
    \o Concat([j \in 1..Len(CompDef[k.c].subs) |->
           LET n == CompDef[k.c].subs[j]
           IN IF n \in DOMAIN k.s THEN Concat([x \in 1..Len(k.s[n]) |-> EncodeLines(k.s[n][x])]) ELSE <<>>])
    \o <<"END:" \o WireName(k.c)>>

(* What is left of a calendar after writing it and reading it back.         *)
CanonInst(i) == [i EXCEPT !.a = Drop(@, {n \in DOMAIN @ : AbsentParam(n, @[n])}), !.v = CanonValue(i.t, @)]
RECURSIVE Canon(_)
Canon(k) == [k EXCEPT !.p = [n \in {m \in DOMAIN @ : Filled(@, m)} |-> [x \in 1..Len(@[n]) |-> CanonInst(@[n][x])]],
                      !.s = [n \in {m \in DOMAIN @ : Filled(@, m)} |-> [x \in 1..Len(@[n]) |-> Canon(@[n][x])]]]

\* The zero instant stands for "not set" and cannot be written.
HasZero(i) == CASE i.t = "DATE-TIME" -> ZeroInstant(i.v)
                [] i.t = "DATE" -> i.v = <<"00010101">>
                [] i.t = "PERIOD" -> ZeroInstant(<<i.v[1], i.v[2]>>)
                [] i.t = "RECUR" -> \E j \in 1..Len(i.v) : i.v[j] \in {"UNTIL=00010101", "UNTIL=00010101T000000@UTC"}
                [] OTHER -> FALSE
RECURSIVE MentionsZero(_)
MentionsZero(k) == \/ \E n \in DOMAIN k.p : \E x \in 1..Len(k.p[n]) : HasZero(k.p[n][x])
                   \/ \E n \in DOMAIN k.s : \E x \in 1..Len(k.s[n]) : MentionsZero(k.s[n][x])
=============================================================================
