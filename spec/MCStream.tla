------------------------------ MODULE MCStream ------------------------------
(* The reader hands over the octets in pieces, the unfolder takes them one  *)
(* by one.  Every stretch of octets that matter for lines, in every place   *)
(* of a document.                                                           *)
EXTENDS Gen
VARIABLES rawText, handed, taken, unf, ended
Octet == <<"a", "\r", "\n", " ", "\t">>
Raws(b) == UNION {{Str([x \in 1..n |-> Octet[f[x]]]) : f \in [1..n -> 1..Len(Octet)]} : n \in 0..b}
InitWith(raws) ==
        /\ \E z \in 1..Len(raws) : Mine(z) /\ rawText = raws[z]
        /\ handed = 0 /\ taken = 0 /\ unf = UnfoldStart /\ ended = FALSE
Init == InitWith(SetToSeq(Raws(IfThorough(6, 4))))
InitShort == InitWith(SetToSeq(Raws(IfThorough(4, 3))))
\* A read of n octets, perhaps together with the news that these were the last.
Reads == /\ ~ended /\ \E n \in 0..3 : \E e \in BOOLEAN :
                /\ handed + n <= Len(rawText) /\ (e => handed + n = Len(rawText))
                /\ handed' = handed + n /\ ended' = e
         /\ UNCHANGED <<rawText, taken, unf>>
Takes == /\ taken < handed /\ taken' = taken + 1 /\ unf' = UnfoldStep(unf, SubSeq(rawText, taken + 1, taken + 1))
         /\ UNCHANGED <<rawText, handed, ended>>
Next == Reads \/ Takes

Want == Unfold(rawText)
HoldsBack == unf.h \in {"", "\r", "\r\n"}
\* What came out is never taken back, whatever was handed over so far,
Prefix == Cut(Want, Len(unf.o)) = unf.o
\* and is all there is if the stream ended here.
SameAsWhole == UnfoldEnd(unf) = Unfold(Cut(rawText, taken))
Complete1 == (ended /\ taken = Len(rawText)) => UnfoldEnd(unf) = Want

W(ls) == Wire(ls)
Places ==
    << [note |-> "in a value", pre |-> W(EventHead) \o "SUMMARY:x", post |-> "y\r\n" \o W(EventTail)],
       [note |-> "at the start of a value", pre |-> W(EventHead) \o "SUMMARY:", post |-> "y\r\n" \o W(EventTail)],
       [note |-> "at the end of a value", pre |-> W(EventHead) \o "SUMMARY:x", post |-> "\r\nLOCATION:l\r\n" \o W(EventTail)],
       [note |-> "in a name", pre |-> W(EventHead) \o "SUM", post |-> "MARY:y\r\n" \o W(EventTail)],
       [note |-> "in quotes", pre |-> W(EventHead) \o "SUMMARY;LANGUAGE=\"x", post |-> "y\":z\r\n" \o W(EventTail)],
       [note |-> "in a parameter", pre |-> W(EventHead) \o "SUMMARY;LANGUAGE=x", post |-> "y:z\r\n" \o W(EventTail)],
       [note |-> "in an escape", pre |-> W(EventHead) \o "SUMMARY:x\\", post |-> "ny\r\n" \o W(EventTail)],
       [note |-> "between lines", pre |-> W(EventHead) , post |-> "LOCATION:l\r\n" \o W(EventTail)],
       [note |-> "after a line", pre |-> W(EventHead) \o "SUMMARY:x\r\n" , post |-> "\r\n" \o W(EventTail)],
       [note |-> "in an unknown component", pre |-> W(EventHead) \o "BEGIN:X-C\r\nX-Y:", post |-> "z\r\nEND:X-C\r\n" \o W(EventTail)],
       [note |-> "in an alarm", pre |-> W(EventHead) \o "BEGIN:VALARM\r\nTRIGGER:PT5M\r\nDESCRIPTION:x", post |-> "y\r\nACTION:DISPLAY\r\nEND:VALARM\r\n" \o W(EventTail)],
       [note |-> "in the end of a component", pre |-> W(EventHead) \o "END:VEV", post |-> "ENT\r\n" \o W(CalTail)],
       [note |-> "in the last line", pre |-> W(EventHead) \o "END:VEVENT\r\nEND:VCAL", post |-> "ENDAR\r\n"],
       [note |-> "after the last line's text", pre |-> W(EventHead) \o "END:VEVENT\r\nEND:VCALENDAR", post |-> ""],
       [note |-> "after the last line", pre |-> W(EventHead) \o "END:VEVENT\r\nEND:VCALENDAR\r\n", post |-> ""],
       [note |-> "before the first line", pre |-> "", post |-> W(EventHead) \o "SUMMARY:x\r\n" \o W(EventTail)],
       [note |-> "in the first line", pre |-> "BEGIN:VCAL", post |-> "ENDAR\r\nVERSION:2.0\r\nPRODID:-//x//y\r\nBEGIN:VEVENT\r\nUID:e1\r\nDTSTAMP:20240101T000000Z\r\n" \o W(EventTail)] >>
Emit == (handed = 0 /\ taken = 0 /\ ~ended) =>
            \A x \in 1..Len(Places) :
                LET s == Places[x].pre \o rawText \o Places[x].post
                    o == DecodeStream(s)
                    \* where the text of the last line is complete
                    ref == IF Places[x].note = "in the last line" THEN Len(Places[x].pre \o rawText \o "ENDAR") ELSE 0
                IN EmitCase([k |-> "d", note |-> "octets " \o Places[x].note, in |-> s, st |-> o.st, cal |-> o.cal, ref |-> ref])
=============================================================================
