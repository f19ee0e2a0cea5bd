------------------------------- MODULE MCHuge -------------------------------
(* Very large documents: a part repeated many times, and sometimes another  *)
(* one repeated as often.  The outcome is computed for a few small numbers; *)
(* where it is the same for these it is taken to be the same for all.       *)
EXTENDS Gen
CONSTANT Topic
VARIABLES kind, times
W(ls) == Wire(ls)
Head1 == W(EventHead)
Tail1 == W(EventTail)
Alarm1 == "BEGIN:VALARM\r\nACTION:DISPLAY\r\nDESCRIPTION:d\r\nTRIGGER:PT5M\r\nEND:VALARM\r\n"
\* ops: a text, then any number of: part, text;  n: how often.
H(note, n, ops) == [note |-> note, n |-> n, ops |-> ops]
Many == IfThorough(300000, 30000)
\* A document with room at one place for what is repeated.
Room(lines) == CHOOSE p \in 1..Len(lines) : lines[p] = "@"
Fill(note, n, lines, part) ==
    H(note, n, <<W(SubSeq(lines, 1, Room(lines) - 1)), W(part), W(SubSeq(lines, Room(lines) + 1, Len(lines)))>>)
\* Every property that may be repeated, and every component in every place it may have.
PropCrowds == Concat(Map(LAMBDA s : IF s[2].c # "*" THEN <<>>
    ELSE <<Fill(s[1] \o "." \o s[2].n, IfThorough(20000, 3000), Doc(s[1], RequiredLines(s[1], {s[2].n}) \o WithLines(s[1], s[2].n, {}) \o <<"@">>), <<LineP(s[2], 1 + (Seed % 3))>>)>>, SiteSeq))
CompCrowds == Concat(Map(LAMBDA k : IF k = "VCALENDAR" THEN <<>>
    ELSE <<Fill(k, IfThorough(10000, 1500), Around(k, <<"@">>), Block(k, RequiredLines(k, {})))>>
         \o (IF k \in AlarmKindSet THEN <<Fill(k \o " in VTODO", IfThorough(10000, 1500), Doc("VTODO", RequiredLines("VTODO", {}) \o <<"@">>), Block(k, RequiredLines(k, {})))>> ELSE <<>>), CompSeq))
FixedKinds ==
    << H("unknown components in each other", Many * 2, <<Head1, "BEGIN:X\r\n", "", "END:X\r\n", Tail1>>),
       H("unknown components in each other, in the calendar", Many, <<W(CalHead), "BEGIN:X\r\n", "", "END:X\r\n", W(CalTail)>>),
       H("unknown components opened only", Many * 2, <<Head1, "BEGIN:X\r\n", Tail1>>),
       H("components opened only", Many, <<W(CalHead), "BEGIN:VEVENT\r\n", Tail1>>),
       H("alarms opened only", Many, <<Head1, "BEGIN:VALARM\r\n", Tail1>>),
       H("unknown components in an alarm", Many, <<Head1 \o "BEGIN:VALARM\r\n", "BEGIN:X\r\n", "", "END:X\r\n", "ACTION:DISPLAY\r\nDESCRIPTION:d\r\nTRIGGER:PT5M\r\nEND:VALARM\r\n" \o Tail1>>),
       H("components ended only", Many, <<Head1, "END:X\r\n", Tail1>>),
       H("unknown components", Many, <<Head1, "BEGIN:X\r\nA:b\r\nEND:X\r\n", Tail1>>),
       H("events", Many \div 10, <<W(CalHead), "BEGIN:VEVENT\r\nUID:e1\r\nDTSTAMP:20240101T000000Z\r\nEND:VEVENT\r\n", W(CalTail)>>),
       H("alarms", Many \div 10, <<Head1, Alarm1, Tail1>>),
       H("properties of an alarm", Many \div 2, <<Head1 \o "BEGIN:VALARM\r\n", "X-A:b\r\n", "ACTION:DISPLAY\r\nDESCRIPTION:d\r\nTRIGGER:PT5M\r\nEND:VALARM\r\n" \o Tail1>>),
       H("zone parts", Many \div 10, <<W(TzHead), W(Standard), W(TzTail)>>),
       H("properties", Many, <<Head1, "COMMENT:c\r\n", Tail1>>),
       H("unknown properties", Many, <<Head1, "X-A;B=c:d\r\n", Tail1>>),
       H("repeated single property", Many, <<Head1, "SUMMARY:c\r\n", Tail1>>),
       H("a long value", Many * 10, <<Head1 \o "SUMMARY:x", "abcdefghij", "\r\n" \o Tail1>>),
       H("a long value of escapes", Many, <<Head1 \o "SUMMARY:x", "\\n\\\\\\,\\;", "\r\n" \o Tail1>>),
       H("a long unknown value", Many * 10, <<Head1 \o "X-U:x", "abcdefghij", "\r\n" \o Tail1>>),
       H("a long name", Many * 10, <<Head1 \o "X", "ABCDEFGHIJ", ":x\r\n" \o Tail1>>),
       H("a long line without end", Many * 10, <<Head1 \o "SUMMARY:x", "abcdefghij", "">>),
       H("many parameters", Many, <<Head1 \o "X-U", ";A=b", ":x\r\n" \o Tail1>>),
       H("many unknown parameters", Many, <<Head1 \o "SUMMARY", ";X-A=b", ":x\r\n" \o Tail1>>),
       H("a repeated parameter", Many, <<Head1 \o "SUMMARY", ";LANGUAGE=b", ":x\r\n" \o Tail1>>),
       H("many parameter values", Many, <<Head1 \o "X-U;A=b", ",c", ":x\r\n" \o Tail1>>),
       H("many quoted parameter values", Many, <<Head1 \o "ATTENDEE;MEMBER=\"b\"", ",\"mailto:x@y\"", ":mailto:x@y\r\n" \o Tail1>>),
       H("a long parameter value", Many * 10, <<Head1 \o "SUMMARY;LANGUAGE=", "abcdefghij", ":x\r\n" \o Tail1>>),
       H("a long quoted parameter value", Many * 10, <<Head1 \o "SUMMARY;LANGUAGE=\"", "ab;:,cd", "\":x\r\n" \o Tail1>>),
       H("carets", Many * 5, <<Head1 \o "SUMMARY;LANGUAGE=\"", "^n^'^^", "\":x\r\n" \o Tail1>>),
       H("quotes", Many, <<Head1 \o "SUMMARY;LANGUAGE=", "\"\"", ":x\r\n" \o Tail1>>),
       H("folds", Many, <<Head1 \o "SUMMARY:x", "\r\n ", "y\r\n" \o Tail1>>),
       H("folds between letters", Many, <<Head1 \o "SUMMARY:x", "\r\n\ty", "\r\n" \o Tail1>>),
       H("folds in a name", Many, <<Head1 \o "SUM", "\r\n ", "MARY:y\r\n" \o Tail1>>),
       H("blank lines", Many, <<Head1, "\r\n", Tail1>>),
       H("spaces", Many, <<Head1, " ", Tail1>>),
       H("line ends", Many, <<Head1 \o "SUMMARY:x", "\r", "\n" \o Tail1>>),
       H("line feeds", Many, <<Head1 \o "SUMMARY:x", "\n", "\r\n" \o Tail1>>),
       H("text list", Many, <<Head1 \o "CATEGORIES:x", ",y", "\r\n" \o Tail1>>),
       H("recurrence numbers", Many, <<Head1 \o "RRULE:FREQ=DAILY;BYMONTH=1", ",2", "\r\n" \o Tail1>>),
       H("recurrence days", Many, <<Head1 \o "RRULE:FREQ=MONTHLY;BYDAY=1MO", ",-1SU", "\r\n" \o Tail1>>),
       H("recurrence parts", Many, <<Head1 \o "RRULE:FREQ=DAILY", ";X", "\r\n" \o Tail1>>),
       H("digits of a number", Many, <<Head1 \o "PRIORITY:2", "00000000001", "\r\n" \o Tail1>>),
       H("digits of a duration", Many, <<Head1 \o "DURATION:PT2", "00000000001", "M\r\n" \o Tail1>>),
       H("digits of a date", Many, <<Head1 \o "DTSTART:20240101T000000", "00000000001", "\r\n" \o Tail1>>),
       H("digits of an offset", Many, <<W(TzHead) \o "BEGIN:STANDARD\r\nTZOFFSETFROM:+0100", "00000000001", "\r\nEND:STANDARD\r\n" \o W(TzTail)>>),
       H("signs", Many, <<Head1 \o "PRIORITY:", "--", "1\r\n" \o Tail1>>),
       H("binary", Many * 10, <<Head1 \o "ATTACH;VALUE=BINARY;ENCODING=BASE64:", "QUJD", "\r\n" \o Tail1>>),
       H("a long address", Many * 10, <<Head1 \o "URL:http://example.com/", "aaaa", "\r\n" \o Tail1>>),
       H("unknown lines of 20 MB", IfThorough(40000, 20000), <<Head1, "X-L;A=b:" \o Rep("abcdefghij", 100) \o "\r\n", Tail1>>),
       H("events of 20 MB", IfThorough(4000, 2000), <<W(CalHead), "BEGIN:VEVENT\r\nUID:e1\r\nDTSTAMP:20240101T000000Z\r\nDESCRIPTION:" \o Rep("abcdefghij", 1000) \o "\r\nEND:VEVENT\r\n", W(CalTail)>>),
       H("after the end", Many * 10, <<Head1 \o Tail1, "BEGIN:VCALENDAR\r\n", "">>),
       H("calendars in the calendar", Many, <<"", W(CalHead), "", "END:VCALENDAR\r\n", "">>),
       H("nothing but letters", Many * 10, <<"", "A", "">>),
       H("nothing but line ends", Many * 10, <<"", "\r\n", "">>),
       H("nothing but zero octets", Many * 10, <<"", "␀", "">>) >>
\* Long values of characters of several octets, beginning at every place of a line.
Wide == <<"€", "⑷", "€é", "é">>
WideKinds == Concat([p \in 1..75 |-> [c \in 1..4 |-> H("wide characters", IfThorough(10000, 5000), <<Head1 \o "SUMMARY:" \o Rep("x", p - 1), Wide[c], "\r\n" \o Tail1>>)]
                                     \o <<H("wide characters", IfThorough(10000, 5000), <<Head1 \o "SUMMARY;LANGUAGE=\"" \o Rep("x", p - 1), Nth(Wide, p + Seed), "\":s\r\n" \o Tail1>>)>>])
Kinds == FixedKinds \o PropCrowds \o CompCrowds \o WideKinds
Instance(o, n) == FoldLeft(LAMBDA a, x : a \o (IF (x % 2) = 1 THEN o[x] ELSE Rep(o[x], n)), "", [x \in 1..Len(o) |-> x])
\* Some of them belong to one topic.
Topics == ( "Fold" :> {"folds", "folds between letters", "folds in a name"}
         @@ "Line" :> {"a long value", "a long unknown value", "a long name", "many parameters", "many parameter values", "a long quoted parameter value", "line ends", "line feeds", "blank lines", "quotes", "spaces"}
         @@ "Struct" :> {"unknown components in each other", "unknown components in each other, in the calendar", "components opened only", "components ended only", "events", "events of 20 MB", "alarms", "zone parts"}
         @@ "Card" :> {"properties", "repeated single property"}
         @@ "Unknown" :> {"unknown components in each other", "unknown components in each other, in the calendar", "unknown components", "unknown properties", "a long unknown value", "many unknown parameters", "unknown lines of 20 MB", "a long name", "many parameters", "many parameter values"}
         @@ "Text" :> {"wide characters", "a long value", "a long value of escapes", "text list"}
         @@ "Param" :> {"many quoted parameter values", "a long parameter value", "a long quoted parameter value", "carets", "a repeated parameter"}
         @@ "Recur" :> {"recurrence numbers", "recurrence days", "recurrence parts"}
         @@ "Date" :> {"digits of a date"}
         @@ "Amount" :> {"digits of a duration", "digits of an offset"}
         @@ "Scalar" :> {"digits of a number", "signs", "binary", "a long address"}
         @@ "Alarm" :> {"alarms", "properties of an alarm", "unknown components in an alarm"} )
OfTopic(x) == \/ Kinds[x].note \in Topics[Topic]
              \/ Topic = "Card" /\ x > Len(FixedKinds) /\ x <= Len(FixedKinds) + Len(PropCrowds)
              \/ Topic = "Struct" /\ x > Len(FixedKinds) + Len(PropCrowds) /\ x <= Len(FixedKinds) + Len(PropCrowds) + Len(CompCrowds)
Init == kind \in {x \in 1..Len(Kinds) : Topic = "" \/ OfTopic(x)} /\ Mine(kind) /\ times = 2
Next == times < 5 /\ times' = times + 1 /\ UNCHANGED kind
Result(n) == DecodeStream(Instance(Kinds[kind].ops, n))
St(n) == Result(n).st
\* How much a calendar holds: components, occurrences, parameters and the letters of their values.
SumOver(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
ValueWeight(v) == SumOver(v, LAMBDA x : 1 + Len(x))
InstWeight(i) == 1 + ValueWeight(i.v) + SumOver(SetToSeq(DOMAIN i.a), LAMBDA n : 1 + ValueWeight(i.a[n]))
RECURSIVE Weight(_)
Weight(c) == 1 + SumOver(SetToSeq(DOMAIN c.p), LAMBDA n : SumOver(c.p[n], InstWeight)) + SumOver(SetToSeq(DOMAIN c.s), LAMBDA n : SumOver(c.s[n], Weight))
Held(n) == IF St(n) = "ok" THEN Weight(Result(n).cal) ELSE 0
Slope == Held(3) - Held(2)
\* The number makes no difference to the outcome, and what the calendar holds grows evenly with it.
Uniform == St(times) = St(2) /\ Held(times) = Held(2) + (times - 2) * Slope
Full == FoldLeft(LAMBDA a, x : IF (x % 2) = 1 THEN Append(a, Kinds[kind].ops[x]) ELSE a \o <<Kinds[kind].ops[x], ToString(Kinds[kind].n)>>, <<>>, [x \in 1..Len(Kinds[kind].ops) |-> x])
Emit == times = 5 => EmitCase([k |-> "g", note |-> Kinds[kind].note, st |-> St(2), ops |-> Full, size |-> <<Held(2) - 2 * Slope, Slope>>])
=============================================================================
