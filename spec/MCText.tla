------------------------------- MODULE MCText -------------------------------
(* Text values and lists of text values: every string over the characters   *)
(* that matter.                                                             *)
EXTENDS Grow
TextTokens == <<"\\", ";", ",", "n", "N", "a", "\"", "\t", "€">>
Families == ( "text" :> InEvent("SUMMARY:", TextTokens, IfThorough(5, 4), "")
           @@ "list" :> InTodo("CATEGORIES:", TextTokens, IfThorough(5, 3), "")
           @@ "odd" :> InEvent("SUMMARY:", OddChars \o <<"\\", "a", ",", " ">>, IfThorough(4, 3), "")
           @@ "oddlist" :> InTodo("CATEGORIES:", OddChars \o <<"\\", ",">>, IfThorough(4, 2), "")
           @@ "end" :> InEvent("RESOURCES:x", TextTokens, IfThorough(4, 3), "y")
           @@ "middle" :> InEvent("COMMENT;LANGUAGE=en:\\", TextTokens, IfThorough(4, 3), ",z") )
Before == GrowBefore(Families)
Init == GrowInit(Families)
Next == GrowNext(Families, Always)
Emit == GrowEmit(Families, Before)
\* Reading what was escaped gives the text back, and every text that is read can be escaped again.
Escapes == LET e == EscapeText(grown) m == ParseMText(grown)
           IN /\ ParseText(e) = Ok(<<grown>>)
              /\ m.st = "ok" => ParseMText(Join([x \in 1..Len(m.v) |-> EscapeText(m.v[x])], ",")) = m
=============================================================================
