------------------------------- MODULE MCCold -------------------------------
(* The first calls in a process: Decode and Encode keep nothing between     *)
(* calls, so the calls of a set return the same in whatever order they      *)
(* finish, and whether or not anything was decoded before.                  *)
EXTENDS Gen
VARIABLES theSet, finished
Judge(l) == LET o == DecodeLines(l) IN [lines |-> l, st |-> o.st, cal |-> o.cal]
Asked(l) == SelectSeq(l, LAMBDA o : o.st = "ok")
ToWrite(l) == Map(LAMBDA o : [cal |-> o.cal, st |-> IF ValidComp(o.cal) THEN "ok" ELSE "no"], Asked(l))
Session(note, docs) == LET js == Map(Judge, docs) IN [note |-> note, docs |-> js, cals |-> ToWrite(js)]
\* One set for each property of each component: two variants of it and one that breaks off.
ForSite(s) == LET l == SiteDoc(s[1], s[2], 1 + (Seed % 5)) m == SiteDoc(s[1], s[2], 2 + (Seed % 5))
             IN Session("first calls: " \o s[1] \o "." \o s[2].n, <<l, m, SubSeq(l, 1, Len(l) - 1)>>)
\* One for each kind of component, and some with everything.
ForKind(k) == Session("first calls: " \o k, <<Doc(k, FullBody(k, 2, Seed)), Doc(k, FullBody(k, 1, Seed + 1)), Doc(k, <<>>)>>)
Random(z) == Session("first calls: any", <<RandomDoc(Mix(Seed, z)), RandomDoc(Mix(Seed, z + 50)), FullDoc(Mix(Seed, z) % 50)>>)
ZoneSeq == <<"Europe/Paris", "Europe/Berlin", "Asia/Tokyo", "Asia/Kolkata", "America/New_York", "America/Chicago", "Australia/Sydney", "Africa/Cairo", "Pacific/Auckland", "America/Sao_Paulo", "Europe/London", "Asia/Shanghai", "UTC", "Etc/GMT+5">>
Times(z) == Session("first calls: zones", [n \in 1..6 |-> EventHead \o <<"DTSTART;TZID=" \o Nth(ZoneSeq, Seed + z * 6 + n) \o ":20240615T120000">> \o EventTail])
Sessions == Map(ForSite, SiteSeq) \o Map(ForKind, CompSeq) \o [z \in 1..IfThorough(20, 4) |-> Random(z)] \o [z \in 1..IfThorough(20, 4) |-> Times(z)]
Mines == Part(Sessions)

Init == (\E z \in 1..Len(Mines) : theSet = [no |-> z] @@ Mines[z]) /\ finished = {}
Calls1 == (1..Len(theSet.docs)) \cup {-n : n \in 1..Len(theSet.cals)}
Next == \E x \in Calls1 \ finished : finished' = finished \cup {x} /\ UNCHANGED theSet
\* Every document that may be written reads as the calendar it was written from.
Sound == finished = {} => \A n \in 1..Len(theSet.cals) : theSet.cals[n].st = "ok" => DecodeLines(EncodeLines(theSet.cals[n].cal)).st = "ok"
Emit == finished = {} => EmitCase([k |-> "c", note |-> theSet.note, st |-> "ok", docs |-> theSet.docs, cals |-> theSet.cals])
View == <<theSet.no, finished>>
=============================================================================
