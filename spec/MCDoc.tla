-------------------------------- MODULE MCDoc -------------------------------
(* Whole documents, read line by line.                                      *)
EXTENDS DecMachine
\* n documents made when they are needed
Made(n, base, doc(_)) == (\E z \in 1..n : Mine(z) /\ theDoc = [no |-> base + z] @@ doc(z)) /\ pos = 0 /\ dec = DecInit
Site(z) == LET e == SiteSeq[((z - 1) % Len(SiteSeq)) + 1] IN D("one " \o e[2].n, SiteDoc(e[1], e[2], Seed + (z - 1) \div Len(SiteSeq)))
Long == "SUMMARY;LANGUAGE=\"é€⑷\";ALTREP=\"cid:x\":é€⑷ß中—abc\\n\\,\\;\\\\ñЖ, and so on \"quoted\": 0123456789 0123456789 0123456789"
Texts == <<Long, "DESCRIPTION:⑷⑷⑷", "LOCATION:", "X-Y;A=b,\"c;:,\";D=:é", "CATEGORIES:a,b\\,c,é,€", "ATTENDEE;MEMBER=\"mailto:a@x\",\"mailto:b@x\";CN=\"^n^^^'\":mailto:c@x",
           "DTSTART;TZID=America/New_York:20240610T023000", "RRULE:FREQ=MONTHLY;BYDAY=1MO,-1SU;BYMONTH=1,2,3", "GEO:1.5;-2.25", "DURATION:P1DT2H3M4S",
           "ATTACH;ENCODING=BASE64;VALUE=BINARY:QUJD", "UID:again", "SUMMARY:x\\", "SUMMARY;A:", "END:VTODO", "BEGIN:VALARM", "PRIORITY:x", "" >>
Text(z) == D("a line", EventHead \o <<Texts[z]>> \o EventTail)
Rand(z) == D("random", RandomDoc(Mix(Seed, z)))
FullD(z) == D("everything", FullDoc(Seed + z))
\* A random document with one or two lines changed.
Replacements == <<"END:VEVENT", "END:VALARM", "END:VCALENDAR", "BEGIN:VEVENT", "BEGIN:VALARM", "BEGIN:X-C", "END:X-C", "ACTION:AUDIO", "ACTION:DISPLAY",
                  "UID:u", "DTSTAMP:20240101T000000Z", "SUMMARY:s", "DTSTART:20240101T000000Z", "DURATION:PT1H", "REPEAT:2", "X-Y:z", "TRIGGER:PT5M",
                  "", "SUMMARY", "SUMMARY;X=\"", "PRIORITY:a", "TZID:Q">>
Damage(ls, r) ==
    LET p == 1 + (Mix(r, 1) % Len(ls))
        q == 1 + (Mix(r, 2) % Len(ls))
        t == Pick(Replacements, Mix(r, 3))
    IN CASE (r % 5) = 0 -> SubSeq(ls, 1, p - 1) \o SubSeq(ls, p + 1, Len(ls))
         [] (r % 5) = 1 -> SubSeq(ls, 1, p) \o SubSeq(ls, p, Len(ls))
         [] (r % 5) = 2 -> SubSeq(ls, 1, p - 1) \o <<t>> \o SubSeq(ls, p, Len(ls))
         [] (r % 5) = 3 -> [ls EXCEPT ![p] = t]
         [] OTHER -> [ls EXCEPT ![p] = ls[q], ![q] = ls[p]]
Damaged(z) == D("damaged", Damage(RandomDoc(Mix(Seed, 500 + (z % 20))), Mix(Seed, z)))

Sites1 == Made(Len(SiteSeq) * IfThorough(4, 1), 0, Site)
SitesAll == Made(Len(SiteSeq) * 12, 0, Site)
Lines1 == Made(Len(Texts), 10000, Text)
Rands == Made(IfThorough(200, 24), 11000, Rand)
ManyRands == Made(IfThorough(2000, 250), 11000, Rand)
Fulls == Made(IfThorough(4, 1), 20000, FullD)
ManyFulls == Made(IfThorough(12, 3), 20000, FullD)
Broken == Made(IfThorough(1500, 100), 30000, Damaged)
All1 == Sites1 \/ Lines1 \/ Rands \/ Fulls \/ Broken
Good1 == Sites1 \/ Rands \/ Fulls
Many1 == SitesAll \/ Lines1 \/ ManyRands \/ ManyFulls \/ Broken
=============================================================================
