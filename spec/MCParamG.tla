------------------------------ MODULE MCParamG ------------------------------
(* Parameter strings: every string over the characters that matter, quoted  *)
(* and unquoted, in single and multiple values.                             *)
EXTENDS Grow
InQuotes == <<"^", "n", "'", "N", "a", ",", ";", ":", "\t", "é", "\"">>
Unquoted == <<"^", "n", "'", "a", ",", " ", "=", "\\", "\"">>
Families == ( "quoted" :> InEvent("SUMMARY;LANGUAGE=\"", InQuotes, IfThorough(4, 3), "\":x")
           @@ "odd" :> InEvent("SUMMARY;LANGUAGE=\"", OddChars \o <<"^", "n">>, IfThorough(3, 2), "\":x")
           @@ "oddbare" :> InEvent("ATTENDEE;CN=", OddChars \o <<"^", "a">>, IfThorough(3, 2), ";RSVP=TRUE:mailto:a@example.com")
           @@ "bare" :> InEvent("ATTENDEE;CN=", Unquoted, IfThorough(5, 4), ";RSVP=TRUE:mailto:a@example.com")
           @@ "list" :> InEvent("ATTENDEE;ROLE=CHAIR;MEMBER=\"", <<"^", "n", "'", "\",\"", "a", ",", "\"", ";">>, IfThorough(5, 4), "\":mailto:a@example.com")
           @@ "needs" :> InEvent("ORGANIZER;DIR=", <<"\"", "a", "^", "'", "\",\"", ",">>, IfThorough(5, 4), ":mailto:a@example.com")
           @@ "uris" :> InEvent("ATTENDEE;DELEGATED-TO=", <<"\"", "mailto:a@example.com", ",", "\",\"", "urn:uuid:1", "%zz">>, IfThorough(5, 4), ":mailto:b@example.com") )
Before == GrowBefore(Families)
Init == GrowInit(Families)
Next == GrowNext(Families, Always)
Emit == GrowEmit(Families, Before)
\* The caret encoding is reversible, and never produces a character that ends a quoted string.
Carets == LET e == CaretEncode(grown) x == CaretDecode(grown)
          IN CaretDecode(e) = grown /\ ~Has(e, {"\"", "\n"}) /\ CaretDecode(CaretEncode(x)) = x
=============================================================================
