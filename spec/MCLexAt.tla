------------------------------ MODULE MCLexAt -------------------------------
(* The content line grammar once more: every character at every kind of     *)
(* place of a line, and telling lines at every place of a document.         *)
EXTENDS DecMachine
AllChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[\\]^_`abcxyz{|}~\té€⑴⑵⑶⑷⑸⑹⑺⑻⑼␀␁␂␃␄␅␆␇␈\n␋␌\r␎␏␐␑␒␓␔␕␖␗␘␙␚␛␜␝␞␟␡"
\* A line with the character c at each kind of place.
Around1(c) ==
    <<"X" \o c \o "U:v", c \o "XU:v", "XU" \o c \o ":v", "X-U;P" \o c \o "Q=w:v", "X-U;" \o c \o "P=w:v", "X-U;P" \o c \o "=w:v", "X-U;P=" \o c \o ":v",
      "X-U;P=w" \o c \o "w:v", "X-U;P=" \o c \o "w:v", "X-U;P=w" \o c \o ":v", "X-U;P=w," \o c \o ",x:v", "X-U;P=\"w" \o c \o "w\":v", "X-U;P=\"" \o c \o "\":v",
      "X-U;P=\"w\"" \o c \o ":v", "X-U;P=\"w\",\"" \o c \o "x\",y:v", "X-U:" \o c, "X-U:v" \o c \o "v", "X-U:v" \o c, "SUMMARY;LANGUAGE=" \o c \o ":v",
      "SUMMARY;LANGUAGE=\"" \o c \o "\":v", "ATTENDEE;MEMBER=\"a" \o c \o "\":mailto:x", "X-U" \o c, c>>
\* A line that begins with white space would continue the one before it.
CharLines == SelectSeq(Concat(Map(Around1, Chars(AllChars))), LAMBDA l : Cut(l, 1) \notin {" ", "\t"})
CharDocs == Map(LAMBDA l : [note |-> "character: " \o l, lines |-> EventHead \o <<l, "LOCATION:l">> \o EventTail], CharLines)
\* Lines that tell a careful reader from a careless one.
Telling == <<"X-U", "X-U;", "X-U;P", "X-U;P=", "X-U;P=w", "X-U;P:v", "X-U;P=\"w:v", "X-U;P=w\":v", "X-U;P=\"w\"x:v", "X-U;P=w;:v", "X-U;=w:v", "X-U;P=w=w:v", ":v", "", ";P=w:v",
             "X U:v", "X-U :v", "X-U:v␀", "X-U;P=␁:v", "X-U;P=\"␟\":v", "X-U:\tv", "X-U:v;w:x,\"", "X-U;P=\"a:b;c,d\",e,\"\":v:w", "X-U;P=:v", "X-U;P=,,:", "X_U:v", "é:v",
             "X-U:␡", "BEGIN", "END", "BEGIN;P:X", "END;P=\":X", "\"X\":v", "X-U;P=w,:v", "X-U;P=\"\"\"\":v", "1:2", "-:", "SUMMARY", "UID;:x", "SUMMARY␀:v">>
InZone(l) == TzHead \o <<"BEGIN:STANDARD">> \o SubSeq(Standard, 2, 4) \o l \o <<"END:STANDARD">> \o TzTail
InAlarm(before, l, after) == EventHead \o <<"BEGIN:VALARM">> \o before \o l \o after \o <<"END:VALARM">> \o EventTail
Show == <<"ACTION:DISPLAY", "DESCRIPTION:d", "TRIGGER:PT5M">>
Skipping(l) == <<"BEGIN:X-COMP", "A:b">> \o l \o <<"END:X-COMP">>
Places(l) ==
    << <<"in the calendar", CalHead \o <<l>> \o SubSeq(EventHead, 4, Len(EventHead)) \o EventTail>>,
       <<"first in the calendar", <<CalHead[1], l>> \o Tail(CalHead) \o CalTail>>,
       <<"last in the calendar", CalHead \o <<l>> \o CalTail>>,
       <<"before the calendar", <<l>> \o CalHead \o CalTail>>,
       <<"after the calendar", CalHead \o CalTail \o <<l>> >>,
       <<"in an event", EventHead \o <<l>> \o EventTail>>,
       <<"in a to-do", Doc("VTODO", RequiredLines("VTODO", {}) \o <<l>>)>>,
       <<"in a journal", Doc("VJOURNAL", RequiredLines("VJOURNAL", {}) \o <<l>>)>>,
       <<"in free/busy time", Doc("VFREEBUSY", <<l>> \o RequiredLines("VFREEBUSY", {}))>>,
       <<"in a time zone", TzHead \o <<l>> \o Standard \o TzTail>>,
       <<"in a part of a zone", InZone(<<l>>)>>,
       <<"in an alarm", InAlarm(Show, <<l>>, <<>>)>>,
       <<"before the action", InAlarm(<<>>, <<l>>, Show)>>,
       <<"in an alarm of a to-do", Doc("VTODO", RequiredLines("VTODO", {}) \o <<"BEGIN:VALARM", "ACTION:AUDIO", l, "TRIGGER:PT5M", "END:VALARM">>)>>,
       <<"in an unknown component", CalHead \o Skipping(<<l>>) \o CalTail>>,
       <<"deep in unknown components", EventHead \o Skipping(Skipping(<<l>>)) \o EventTail>>,
       <<"after an unknown component", EventHead \o Skipping(<<>>) \o <<l>> \o EventTail>>,
       <<"in a known component that is skipped", EventHead \o <<"BEGIN:VTODO", l, "END:VTODO">> \o EventTail>> >>
PlaceDocs == Concat(Map(LAMBDA l : LET ps == Places(l) IN [x \in 1..Len(ps) |-> [note |-> ps[x][1] \o ": " \o l, lines |-> ps[x][2]]], Telling))
\* ... and every character at the very start of the document, and around its first line.
FirstDocs == Concat(Map(LAMBDA c : Map(LAMBDA l : [note |-> "first line: " \o l, lines |-> <<l>> \o Tail(CalHead) \o CalTail],
                 <<c \o "BEGIN:VCALENDAR", c \o c \o "BEGIN:VCALENDAR", "BEGIN" \o c \o ":VCALENDAR", "BEGIN:" \o c \o "VCALENDAR", "BEGIN:VCALENDAR" \o c>>), Chars(AllChars)))
TheDocs == CharDocs \o PlaceDocs \o FirstDocs
Init == Start(TheDocs)
\* A line that is not one spoils the document, wherever it stands before the end.
NoneSlips == (pos = Len(Lines) /\ (\E x \in 1..Len(Lines) : ~Lex(Lines[x]).ok /\ \A y \in 1..x : Lines[y] # "END:VCALENDAR")) => dec.st = "err"
=============================================================================
