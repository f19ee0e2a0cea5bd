------------------------------ MODULE MCTextE -------------------------------
(* Texts to encode: every short string over the characters that matter, as  *)
(* a single text and as elements of a list.                                 *)
EXTENDS EncMachine
Toks == <<"\\", ";", ",", "\n", "n", "N", "a", "\"", "\t", "€", ":", " ", "^", "␛", "\r">>
LOCAL Good == SubSeq(Toks, 1, 13)
Words1 == Good
Words2 == Concat(Map(LAMBDA x : Map(LAMBDA y : x \o y, Good), Good))
Words3 == Concat(Map(LAMBDA x : Map(LAMBDA y : x \o y, Good), Words2))
Bad == Concat(Map(LAMBDA x : Map(LAMBDA y : x \o y, Good) \o Map(LAMBDA y : y \o x, Good) \o <<x>>, SubSeq(Toks, 14, 15)))
Some3 == IF Thorough THEN Words3 ELSE [z \in 1..700 |-> Words3[1 + ((Mix(Seed, z) * 46 + z * 3) % Len(Words3))]]
Odd == Concat(Map(LAMBDA x : <<x, x \o x, "a" \o x, x \o "a", "a" \o x \o "b", "\\" \o x, x \o "\\", x \o "\n", "\n" \o x, x \o ",", " " \o x, x \o " ">>, OddChars))
       \o Concat(Map(LAMBDA x : Map(LAMBDA y : x \o y, OddChars), OddChars))
Texts == <<"">> \o Odd \o Words1 \o Words2 \o Some3 \o Bad
Cal1(x) == C("text " \o x, Wrap("VEVENT", SetProp(SetProp(EventBase, "SUMMARY", <<Inst("TEXT", <<x>>, Empty)>>), "COMMENT", <<Inst("TEXT", <<"a">>, Empty), Inst("TEXT", <<x>>, Empty)>>)))
Lists == <<<<>>, <<"">>, <<"", "">>, <<"", "", "">>>> \o Map(LAMBDA x : <<x, "">>, Words1) \o Map(LAMBDA x : <<"", x>>, Words1)
         \o Concat(Map(LAMBDA x : Map(LAMBDA y : <<x, y>>, Words1), Words1)) \o Map(LAMBDA x : <<x, "b", x>>, Words1)
         \o [z \in 1..IfThorough(2000, 200) |-> <<Pick(Words2, Mix(Seed, z)), Pick(Words1, Mix(Seed + 1, z)), Pick(Words2, Mix(Seed + 2, z))>>]
         \o Map(LAMBDA x : <<x, "", x, "a">>, Odd)
         \o Map(LAMBDA x : <<"a", x>>, Bad) \o Map(LAMBDA x : <<x, "">>, Bad)
Cal2(l) == C("list", Wrap("VTODO", SetProp(CompFrom("VTODO", <<"UID:t", "DTSTAMP:20240101T000000Z">>), "CATEGORIES", <<Inst("MTEXT", l, Empty), Inst("MTEXT", <<"x">>, Empty)>>)))
\* Every character, and peculiar texts.
Tx(x) == <<Inst("TEXT", <<x>>, Empty)>>
CharCals == Concat(Map(LAMBDA l : [y \in 1..5 |-> LET t(n) == Nth(l, y + n)
              IN C("texts " \o l[1], Wrap("VEVENT", SetProp(SetProp(SetProp(SetProp(SetProp(SetProp(SetProp(EventBase, "UID", Tx(t(1))), "SUMMARY", Tx(t(0))), "DESCRIPTION", Tx(t(2))), "LOCATION", Tx(t(3))),
                     "CONTACT", Tx(t(4)) \o Tx(t(0))), "RELATED-TO", Tx(t(3)) \o Tx(t(1))), "CATEGORIES", <<Inst("MTEXT", [z \in 1..5 |-> t(z)], Empty), Inst("MTEXT", <<t(0)>>, Empty)>>)))], Fives))
TheCals == CharCals \o Map(Cal1, Texts) \o Map(Cal2, Lists)
Init == Start(TheCals)
=============================================================================
