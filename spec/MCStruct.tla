------------------------------ MODULE MCStruct ------------------------------
(* Nesting: every sequence of BEGIN and END tokens up to a bound, each      *)
(* BEGIN followed by what its component requires.                           *)
EXTENDS Gen
VARIABLES sofar, dec, size, ends \* ends: how a document with an error may go on
vars == <<sofar, dec, size, ends>>

Names == <<"VEVENT", "VALARM", "VTIMEZONE", "STANDARD", "VTODO", "X-COMP", "VCALENDAR", "VJOURNAL", "VFREEBUSY", "DAYLIGHT">>
Req(c, n) == \* required lines, told apart by the position n
    CASE c \in {"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY"} -> <<"UID:u" \o ToString(n), "DTSTAMP:20240101T000000Z">>
      [] c = "VALARM" -> <<"ACTION:DISPLAY", "DESCRIPTION:d" \o ToString(n), "TRIGGER:PT5M">>
      [] c = "VTIMEZONE" -> <<"TZID:z" \o ToString(n)>>
      [] c \in {"STANDARD", "DAYLIGHT"} -> <<"DTSTART:20240101T000000", "TZOFFSETTO:+0100", "TZOFFSETFROM:+0200", "COMMENT:c" \o ToString(n)>>
      [] c = "VCALENDAR" -> <<"VERSION:v" \o ToString(n), "PRODID:p">>
      [] OTHER -> <<"UID:x" \o ToString(n)>>
Tokens == [i \in 1..Len(Names) |-> <<"BEGIN", Names[i]>>] \o [i \in 1..Len(Names) |-> <<"END", Names[i]>>]
TokenLines(t, n) == IF t[1] = "BEGIN" THEN <<"BEGIN:" \o t[2]>> \o Req(t[2], n) ELSE <<"END:" \o t[2]>>
Bound == IfThorough(6, 5)

\* What closes everything that is open, so that each prefix becomes a whole document.
Closing(d) == [j \in 1..Len(d.fs) |-> "END:" \o d.fs[Len(d.fs) + 1 - j].c.c]
Patch(d) == \* children that are still needed
    IF d.st = "run" /\ d.fs # <<>> /\ Top(d).k = "comp" /\ Top(d).c.c = "VTIMEZONE" /\ ~Set(Top(d).c, "STANDARD") /\ ~Set(Top(d).c, "DAYLIGHT") THEN Standard ELSE <<>>
Rest1(d) == Patch(d) \o Closing(d)
\* After an error: the end of the document; what would make it whole had the token closed
\* the component that is open, had it been passed over, had its component been skipped.
Popped(d) == [d EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)]
Ends(d, t) == {<<"END:VCALENDAR">>} \cup (IF d.st # "run" THEN {} ELSE
    {Rest1(d)} \cup (IF t[1] = "END" THEN {Rest1(Popped(d))} ELSE {<<"END:" \o t[2]>> \o Rest1(d)}))

Init == sofar = <<>> /\ dec = DecInit /\ size = 0 /\ ends = {}
\* The document starts with the calendar (or with anything else, which ends it).
Next == /\ size < Bound /\ dec.st \in {"start", "run"}
        /\ \E i \in 1..Len(Tokens) :
              /\ (size = 1 => Mine(i)) /\ (size > 0 \/ i = 7 \/ Mine(0))
              /\ LET ls == TokenLines(Tokens[i], size + 1)
                 IN sofar' = sofar \o ls /\ dec' = Feed(dec, ls) /\ ends' = IF dec'.st = "err" THEN Ends(dec, Tokens[i]) ELSE {}
        /\ size' = size + 1

Wholes == IF dec.st = "err" THEN ends ELSE {Rest1(dec)}
Result == Outcome(Feed(dec, IF dec.st = "err" THEN <<>> ELSE Rest1(dec)))

Depth == dec.st = "run" => Len(dec.fs) >= 1 /\ dec.fs[1].c.c = "VCALENDAR"
Emit == (size > 1 \/ Mine(0)) => \A e \in Wholes : EmitCase([k |-> "d", note |-> "nesting", lines |-> sofar \o e, st |-> Result.st, cal |-> Result.cal])
=============================================================================
