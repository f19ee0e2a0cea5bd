------------------------------- MODULE MCFold -------------------------------
(* Lines that reach the limit of 75 octets: characters of every width, and  *)
(* escapes, at every column around each fold, in values, in parameters and  *)
(* in lists; and values as long as several lines.                           *)
EXTENDS EncMachine
Times(x, n) == FoldLeft(LAMBDA a, z : a \o x, "", Range1(n))
Wide == <<"a", "é", "€", "⑷">>
More == Map(LAMBDA w : "a" \o w, OddChars) \o Map(LAMBDA w : w \o w, OddChars)
Signs == <<" ", "\t", "\n", ";", ",", "\\", ":", "\"", "^", "é", "⑷", "⑴", "⑵", "⑶", "⑻">>
Words(l, n) == IF n = 1 THEN l ELSE IF n = 2 THEN Concat(Map(LAMBDA x : Map(LAMBDA y : x \o y, l), l))
               ELSE Concat(Map(LAMBDA x : Concat(Map(LAMBDA y : Map(LAMBDA z : x \o y \o z, l), l)), l))
Ev(n, insts) == Wrap("VEVENT", SetProp(EventBase, n, insts))
Text(x) == Inst("TEXT", <<x>>, Empty)
TextA(x, prm, v) == Inst("TEXT", <<x>>, prm :> <<v>>)
Mail(prm, v) == Inst("CAL-ADDRESS", <<"mailto:a@example.com">>, prm :> v)

\* SUMMARY: takes 8 octets, so the first fold of p letters and what follows is near p = 67; the next ones are 74 octets on.
Columns == [z \in 1..IfThorough(20, 9) |-> 58 + z + IfThorough(0, 2)]
W3 == Words(Wide, 3)
InValue == Concat(Map(LAMBDA p : Map(LAMBDA w : C("value " \o ToString(p), Ev("SUMMARY", <<Text(Times("a", p) \o w \o "zz")>>)), W3), Columns))
Second == Concat(Map(LAMBDA p : Map(LAMBDA w : C("second fold " \o ToString(p), Ev("SUMMARY", <<Text(Times("a", p + 74) \o w \o "zz")>>)), Words(Wide, IfThorough(3, 2)) \o More), Columns))
S2 == Words(Signs, 2)
Escaped == Concat(Map(LAMBDA p : Map(LAMBDA w : C("escape " \o ToString(p), Ev("COMMENT", <<Text(Times("a", p) \o w \o "z"), Text(w)>>)), S2), [z \in 1..IfThorough(12, 4) |-> 62 + z + IfThorough(0, Seed % 3)]))
\* COMMENT;LANGUAGE= takes 17 octets.
InParam == Concat(Map(LAMBDA p : Map(LAMBDA w : C("parameter " \o ToString(p), Ev("COMMENT", <<TextA("é", "LANGUAGE", Times("l", p) \o w)>>)), S2 \o Words(Wide, 2) \o More), [z \in 1..IfThorough(12, 3) |-> 52 + z + IfThorough(0, Seed % 3)]))
AfterParam == Concat(Map(LAMBDA p : Map(LAMBDA w : C("after parameter " \o ToString(p), Ev("LOCATION", <<TextA(w, "LANGUAGE", Times("l", p))>>)), Words(Wide, 2) \o More \o Map(LAMBDA x : x \o "a", OddChars) \o Signs), [z \in 1..IfThorough(12, 7) |-> 50 + z]))
\* ATTENDEE;MEMBER= and ATTENDEE;CN=
InList == Concat(Map(LAMBDA p : Map(LAMBDA w : C("list parameter " \o ToString(p), Ev("ATTENDEE", <<Mail("MEMBER", <<Times("m", p), w, w \o w>>), Mail("CN", <<w \o Times("c", p)>>)>>)), Wide \o Signs \o OddChars), [z \in 1..IfThorough(20, 6) |-> 50 + z]))
InElements == Concat(Map(LAMBDA p : Map(LAMBDA w : C("list " \o ToString(p), Ev("CATEGORIES", <<Inst("MTEXT", <<Times("c", p), w, w \o w, "">>, Empty), Inst("MTEXT", <<"", Times("é", p), w>>, Empty)>>)), Wide \o Signs \o OddChars), [z \in 1..IfThorough(20, 5) |-> 58 + z]))
\* Every length over several lines, of each width.
Lengths == Concat(Map(LAMBDA w : [n \in 1..IfThorough(320, 80) |-> LET p == IfThorough(n, 3 * n + (Seed % 3)) IN C("length " \o ToString(p), Ev("DESCRIPTION", <<Text(Times(w, p))>>))], Wide))
Phases == Concat(Map(LAMBDA w : [p \in 1..4 |-> C("phase " \o ToString(p), Ev("SUMMARY", <<Text(Times("a", p) \o Times(w, IfThorough(800, 200)))>>))], Wide \o <<"é€", "a⑷", "é\n", ";", "⑷,">>))
\* Other long values.
Nums == Join([z \in 1..60 |-> ToString(z)], ",")
B64 == <<"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8gISIjJCUmJygpKissLS4v">>
Binary(n) == Times("QUJD", n) \o Nth(<<"", "QQ==", "QUI=">>, n)
Others == [n \in 1..40 |-> C("binary", Ev("ATTACH", <<Inst("BINARY", <<Binary(n + 8)>>, Empty), Inst("BINARY", <<Binary(2 * n)>>, "FMTTYPE" :> <<"text/" \o Times("x", n)>>)>>))]
          \o [n \in 1..30 |-> C("uri", Ev("URL", <<Inst("URI", <<"http://example.com/" \o Times("u", 30 + n)>>, Empty)>>))]
          \o [n \in 1..30 |-> C("uri parameter", Ev("SUMMARY", <<Inst("TEXT", <<"x">>, "ALTREP" :> <<"http://example.com/" \o Times("u", 20 + n)>> @@ "LANGUAGE" :> <<"é">>)>>))]
          \o [n \in 1..12 |-> C("rule", Ev("RRULE", <<Inst("RECUR", <<"FREQ=YEARLY", "COUNT=" \o Times("1", n), "BYYEARDAY=" \o Nums, "BYSETPOS=-1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18">>, Empty)>>))]
          \o [n \in 1..30 |-> C("identifier", Wrap("VEVENT", SetProp(EventBase, "UID", <<Text(Times("i", 55 + n))>>)))]
          \o [n \in 1..30 |-> C("name of a zone", Wrap("VTIMEZONE", SetProp(TzBase, "TZID", <<Text(Times("é", 30 + n))>>)))]
\* Texts that look like lines.
Lines == <<"\nEND:VEVENT\nBEGIN:VEVENT", "a\n b", "\n\t", " ", "\n", "END:VCALENDAR", "\nEND:VCALENDAR\n", "x\n\n", "\n SUMMARY:b", "\\n", "\\\n">>
Looking == Concat(Map(LAMBDA x : [p \in 1..8 |-> C("looks like lines", Ev("COMMENT", <<Text(Times("a", 58 + p) \o x), TextA(x, "LANGUAGE", x), TextA("b", "LANGUAGE", Times("é", 25 + p) \o x)>>))], Lines))
TheCals == InValue \o Second \o Escaped \o InParam \o AfterParam \o InList \o InElements \o Lengths \o Phases \o Others \o Looking
Init == Start(TheCals)
\* Only the folding is of interest; the lines are read back in one step.
Whole == phase = "check" /\ phase' = "end" /\ written' = EncodeLines(Cal) /\ UNCHANGED <<src, pos, dec>>
Back == phase = "end" => /\ ValidComp(Cal)
                      /\ LET w == Wire(Physical(written)) IN WellFormedOutput(w) /\ SplitLines(Unfold(w)) = written
Reread == phase = "end" => DecodeLines(written) = [st |-> "ok", cal |-> Canon(Cal)]
=============================================================================
