-------------------------------- MODULE MCLex -------------------------------
(* The content line grammar: every line built from a small alphabet, put    *)
(* into an event.  The line grows token by token.                           *)
EXTENDS Gen
VARIABLES family, grown, size
vars == <<family, grown, size>>

\* After the name of a known property with parameters: params and the value.
ParamTokens == {";LANGUAGE=", ";X=", "\"", ",", ":", ";", "=", "a", "␀", "\t", "é", "^n", " ", "\\", "␡"}
\* From the start of the line.
NameTokens == {"A", "-", "1", "_", " ", ":", ";", "=", "\"", ".", "é", "SUMMARY", "␇", ",", "x", "\t"}
\* Inside quotes.
QuoteTokens == {"\"", ",", ";", ":", "a", "␟", "\t", "€", "="}
\* Inside the value of an unknown property.
ValueTokens == {"\"", ",", ";", ":", "a", "␈", "␌", "\t", "⑷", "=", "\n", "␡"}
Families == [ param |-> [pre |-> "SUMMARY", tok |-> ParamTokens, max |-> IfThorough(4, 3), post |-> ""],
              name |-> [pre |-> "", tok |-> NameTokens, max |-> IfThorough(4, 3), post |-> ":v"],
              quote |-> [pre |-> "SUMMARY;LANGUAGE=\"", tok |-> QuoteTokens, max |-> IfThorough(5, 4), post |-> "\":x"],
              list |-> [pre |-> "ATTENDEE;MEMBER=\"a", tok |-> QuoteTokens, max |-> IfThorough(4, 3), post |-> "\":mailto:x@y"],
              unknown |-> [pre |-> "X-U;", tok |-> ParamTokens, max |-> IfThorough(4, 3), post |-> ":x"],
              value |-> [pre |-> "X-U:", tok |-> ValueTokens, max |-> IfThorough(4, 3), post |-> ""] ]
Init == family \in DOMAIN Families /\ grown = "" /\ size = 0
\* The parts of the work are told apart by the first token.
TokNo == [f \in DOMAIN Families |-> SetToSeq(Families[f].tok)]
Next == /\ size < Families[family].max
        /\ \E i \in 1..Len(TokNo[family]) : (size = 0 => Mine(i)) /\ grown' = grown \o TokNo[family][i]
        /\ size' = size + 1
        /\ UNCHANGED family

TheLine == Families[family].pre \o grown \o Families[family].post
Before == Feed(DecInit, EventHead)
Result == Outcome(Feed(Before, <<TheLine, "LOCATION:l">> \o EventTail))

\* An accepted line is exactly the concatenation of what it was split into.
Glue(l) == l.n \o FoldLeft(LAMBDA a, p : a \o ";" \o p.n \o "=" \o
                 Join([j \in 1..Len(p.vs) |-> IF p.vs[j].q THEN "\"" \o p.vs[j].d \o "\"" ELSE p.vs[j].d], ","), "", l.a)
           \o ":" \o l.v
Faithful == LET l == Lex(TheLine) IN l.ok => /\ Glue(l) = TheLine
                                             /\ l.n # "" /\ All(l.n, NameSet)
                                             /\ \A i \in 1..Len(l.a) : l.a[i].n # "" /\ All(l.a[i].n, NameSet)
Rejects == ~Lex(TheLine).ok => Result.st = "no"
Emit == (size > 0 \/ Mine(1)) => EmitCase([k |-> "d", note |-> family \o ": " \o TheLine, lines |-> EventHead \o <<TheLine, "LOCATION:l">> \o EventTail,
                                 st |-> Result.st, cal |-> Result.cal])
=============================================================================
