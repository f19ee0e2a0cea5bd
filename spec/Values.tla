------------------------------- MODULE Values -------------------------------
(* Value types: what each written form means (Parse), which values can be   *)
(* written at all (Valid) and one way to write them (Format).               *)
(*                                                                          *)
(* A value is a sequence of strings in a canonical form:                    *)
(*   TEXT <<text>>            MTEXT <<text, ...>>      INTEGER <<"-12">>    *)
(*   GEO <<"1.5", "-2">>      BOOLEAN <<"TRUE">>       ENUM <<"PUBLIC">>    *)
(*   URI, CAL-ADDRESS <<uri>> BINARY <<base64>>        DATE <<"20240131">>  *)
(*   DATE-TIME <<"20240131T235959", zone>>, zone = UTC, LOCAL (floating) or *)
(*     an IANA name           DURATION <<sign, weeks, days, h, m, s>>       *)
(*   PERIOD <<start, zone, end>> or <<start, zone, sign, w, d, h, m, s>>    *)
(*   UTC-OFFSET <<sign, hours, minutes, seconds>>                           *)
(*   RECUR <<"FREQ=DAILY", "COUNT=3", "BYDAY=1MO,-1SU", ...>> in the order  *)
(*     of RecurKeys                                                         *)
(* Parse yields [st, v]: st is "ok", "no" (must be rejected) or "any" (this *)
(* specification leaves the outcome open).                                  *)
EXTENDS Schema, Zones

Ok(v) == [st |-> "ok", v |-> v]
No == [st |-> "no", v |-> <<>>]
Open == [st |-> "any", v |-> <<>>]

------------------------------------------------------------------------------
(* Text: escapes, and the comma-separated list.                             *)
TextStep(a, c) ==
    IF a.esc THEN
        [a EXCEPT !.esc = FALSE,
                  !.cur = @ \o (IF c \in {"\\", ";", ","} THEN c
                                ELSE IF c \in {"n", "N"} THEN "\n" ELSE "\\" \o c)]
    ELSE IF c = "\\" THEN [a EXCEPT !.esc = TRUE]
    ELSE IF c = "," THEN [a EXCEPT !.items = Append(@, a.cur), !.cur = ""]
    ELSE IF c = ";" THEN [a EXCEPT !.bad = TRUE]
    ELSE [a EXCEPT !.cur = @ \o c]
ParseMText(s) ==
    LET r == FoldS(TextStep, [esc |-> FALSE, cur |-> "", items |-> <<>>, bad |-> FALSE], s)
    IN IF ~Has(s, {"\\", ";", ","}) THEN Ok(<<s>>)
       ELSE IF r.bad THEN No ELSE Ok(Append(r.items, IF r.esc THEN r.cur \o "\\" ELSE r.cur))
ParseText(s) == LET r == ParseMText(s) IN IF r.st = "ok" /\ Len(r.v) = 1 THEN r ELSE No

EscapeText(s) ==
    IF ~Has(s, {"\\", ";", ",", "\n"}) THEN s ELSE
    FoldS(LAMBDA a, c : a \o (IF c \in {"\\", ";", ","} THEN "\\" \o c
                              ELSE IF c = "\n" THEN "\\n" ELSE c), "", s)
ValidText(s) == ~Has(s, BadTextSet)

------------------------------------------------------------------------------
(* Parameter strings (RFC 6868 caret encoding).                             *)
CaretStep(a, c) ==
    IF a.esc THEN
        [esc |-> FALSE, out |-> a.out \o (IF c = "n" THEN "\n" ELSE IF c = "'" THEN "\""
                                          ELSE IF c = "^" THEN "^" ELSE "^" \o c)]
    ELSE IF c = "^" THEN [a EXCEPT !.esc = TRUE]
    ELSE [a EXCEPT !.out = @ \o c]
CaretDecode(s) == LET r == FoldS(CaretStep, [esc |-> FALSE, out |-> ""], s)
                  IN IF ~Has(s, {"^"}) THEN s ELSE IF r.esc THEN r.out \o "^" ELSE r.out
CaretEncode(s) == IF ~Has(s, {"^", "\n", "\""}) THEN s ELSE FoldS(LAMBDA a, c : a \o (IF c = "^" THEN "^^" ELSE IF c = "\n" THEN "^n"
                                            ELSE IF c = "\"" THEN "^'" ELSE c), "", s)

------------------------------------------------------------------------------
(* Numbers.                                                                 *)
ParseInteger(s) ==
    LET neg == StartsWith(s, "-")
        body == IF neg \/ StartsWith(s, "+") THEN From(s, 2) ELSE s
    IN IF ~IsDigits(body) THEN No
       ELSE LET n == Strip0(body)
            IN IF ~LeqDigits(n, IF neg THEN "2147483648" ELSE "2147483647") THEN No
               ELSE Ok(<<IF neg /\ n # "0" THEN "-" \o n ELSE n>>)

\* Decimal fraction; exponents and other spellings of floats are left open.
FloatChars == DigitSet \cup {".", "+", "-"}
ParseFloat(s) ==
    LET neg == StartsWith(s, "-")
        body == IF neg \/ StartsWith(s, "+") THEN From(s, 2) ELSE s
        dot == Index(body, ".")
        int == IF dot = 0 THEN body ELSE Cut(body, dot - 1)
        frac == IF dot = 0 THEN "" ELSE From(body, dot + 1)
        k == FoldLeft(LAMBDA n, i : IF SubSeq(frac, i, i) # "0" THEN i ELSE n, 0, [i \in 1..Len(frac) |-> i])
        f == Cut(frac, k)
    IN IF s \in {"Inf", "+Inf", "-Inf", "Infinity", "inf", "NaN", "nan"} THEN No
       ELSE IF Len(s) > 0 /\ ~All(s, FloatChars) /\ All(s, FloatChars \cup CharSet("eExXpP_abcdefABCDEF")) THEN Open
       ELSE IF (int \o frac) = "" \/ ~All(int \o frac, DigitSet) THEN No
       ELSE IF Len(Strip0(int \o frac)) > 15 THEN Open
       ELSE Ok(<<(IF neg THEN "-" ELSE "") \o (IF int = "" THEN "0" ELSE Strip0(int))
                 \o (IF f = "" THEN "" ELSE "." \o f)>>)
ParseGeo(s) ==
    LET i == Index(s, ";")
    IN IF i = 0 THEN No
       ELSE LET a == ParseFloat(Cut(s, i - 1)) b == ParseFloat(From(s, i + 1))
            IN IF a.st = "no" \/ b.st = "no" THEN No
               ELSE IF a.st = "any" \/ b.st = "any" THEN Open ELSE Ok(a.v \o b.v)

ParseBoolean(s) ==
    IF s \in {"TRUE", "true", "True"} THEN Ok(<<"TRUE">>)
    ELSE IF s \in {"FALSE", "false", "False"} THEN Ok(<<"FALSE">>)
    ELSE IF Upper(s) \in {"TRUE", "FALSE", "T", "F", "1", "0"} THEN Open ELSE No

------------------------------------------------------------------------------
(* Base64.                                                                  *)
B64Chars == UpperChars \o LowerChars \o "0123456789+/"
B64Set == CharSet(B64Chars)
B64Val == [c \in B64Set |-> (CHOOSE i \in 1..64 : SubSeq(B64Chars, i, i) = c) - 1]
B64Char(n) == SubSeq(B64Chars, n + 1, n + 1)
ParseBinary(s) ==
    IF s = "" THEN Ok(<<"">>)
    ELSE IF Len(s) % 4 # 0 THEN No
    ELSE LET pad == IF Last1(s) # "=" THEN 0 ELSE IF SubSeq(s, Len(s) - 1, Len(s) - 1) # "=" THEN 1 ELSE 2
             body == Cut(s, Len(s) - pad)
             low == IF pad = 1 THEN 4 ELSE IF pad = 2 THEN 16 ELSE 1
             v == B64Val[Last1(body)]
         IN IF ~All(body, B64Set) THEN No
            ELSE Ok(<<Cut(body, Len(body) - 1) \o B64Char(v - (v % low)) \o Rep("=", pad)>>)

------------------------------------------------------------------------------
(* URIs.  Only a conservative form is given a meaning; a few are required   *)
(* to be rejected; everything else is open.                                 *)
UriSafe == LowerSet \cup UpperSet \cup DigitSet \cup CharSet("-._~/&=@+")
UriPrefixes == <<"http://example.com/", "https://example.com/", "mailto:", "urn:uuid:", "ftp://example.com/", "ftp://u:p@example.com/",
                 "geo:", "ldap://example.com/", "cid:">>
BadUris == {":", ":x", "%zz", "http://example.com/%zz", "http://example.com/%", "http://[::1",
            "1http://example.com/"}
GoodUris == <<"http://example.com/", "http://example.com", "http://example.com:8080/a", "http://user@example.com/", "http://example.com/a?b=c", "http://example.com/?", "http://example.com?q", "http://example.com/a#f",
              "http://example.com/a?b=c&d=e#f", "http://example.com/a%20b", "http://example.com/a%2Fb", "http://[::1]/a", "http://[::1]:80/", "mailto:a@example.com?subject=x", "//example.com/a", "/a/b", "a/b", "a", "?q", "#f",
              "file:///a/b", "data:text/plain", "http://example.com/a/", "http://example.com/a/../b", "http://example.com/./a", "http://example.com//a", "http://example.com/%C3%A9", "tel:+1-2", "urn:isbn:1", "http://example.com/a;b", "http://example.com/a,b",
              "http://example.com/a=b?c=%26", "news:a.b", "x-new:y", "http://Example.COM/A", "http://u:p@example.com:80/", "http://example.com/a?b?c", "http://example.com/a:b", "http://example.com:80", "http://example.com/index.html">>
UriRest(s) == LET i == CHOOSE i \in 1..Len(UriPrefixes) : StartsWith(s, UriPrefixes[i])
              IN From(s, Len(UriPrefixes[i]) + 1)
SafeUri(s) == \/ s = ""
              \/ \E i \in 1..Len(GoodUris) : GoodUris[i] = s
              \/ /\ \E i \in 1..Len(UriPrefixes) : StartsWith(s, UriPrefixes[i])
                 /\ All(UriRest(s), UriSafe)
                 /\ Len(UriRest(s)) > 0
                 /\ SubSeq(UriRest(s), 1, 1) # "/"
ParseUri(s) == IF SafeUri(s) THEN Ok(<<s>>) ELSE IF s \in BadUris THEN No ELSE Open

------------------------------------------------------------------------------
(* Dates and times.                                                         *)
KnownZones == ToSet(ZoneNames)
UnknownZones == {"Nowhere/Nope", "America/New York", "X", "/", "../etc", "Mars/Olympus_Mons", "Z", "z", "GMT+1", "UTC+1", "UTC+0100", "/Europe/London", "Europe/Londo", "Europe/Londonx", "London", "+0100", "-0500", "0",
                  "PST", "BST", "Eastern Standard Time", "W. Europe Standard Time", "Europe/Atlantis", "Europe", "America", "Etc/GMT+99", "Etc/GMT-15", " UTC", "UTC ", "Europe/London ", "Europe/Lon don", "UTC0", "Asia/Tokyo/x", "X-UTC", "UTCX"}
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
IsDate(s) == /\ Len(s) = 8 /\ IsDigits(s)
             /\ LET y == Num(Cut(s, 4)) m == Num(SubSeq(s, 5, 6)) d == Num(SubSeq(s, 7, 8))
                IN m \in 1..12 /\ d \in 1..DaysIn(y, m)
IsTime(s) == /\ Len(s) = 6 /\ IsDigits(s)
             /\ Num(Cut(s, 2)) < 24 /\ Num(SubSeq(s, 3, 4)) < 60 /\ Num(SubSeq(s, 5, 6)) < 60
IsDateTime(s) == /\ Len(s) = 15 /\ SubSeq(s, 9, 9) = "T"
                 /\ IsDate(Cut(s, 8)) /\ IsTime(From(s, 10))
ParseDate(s) == IF IsDate(s) THEN Ok(<<s>>) ELSE No
\* Fractions of a second are not part of the format, but left open.
LooksFractional(s) == Len(s) > 16 /\ SubSeq(s, 16, 16) \in {".", ","} /\ IsDateTime(Cut(s, 15))
\* tz: sequence of the TZID values given (empty when there is none).
ParseDateTime(tz, s) ==
    IF LooksFractional(s) THEN Open
    ELSE IF tz = <<>> THEN
        IF Len(s) > 0 /\ Last1(s) = "Z"
        THEN IF IsDateTime(Cut(s, Len(s) - 1)) THEN Ok(<<Cut(s, 15), "UTC">>) ELSE No
        ELSE IF IsDateTime(s) THEN Ok(<<s, "LOCAL">>) ELSE No
    ELSE IF ~IsDateTime(s) THEN No
    ELSE IF tz[1] = "UTC" THEN Ok(<<s, "UTC">>)
    ELSE IF tz[1] \in KnownZones THEN Ok(<<s, tz[1]>>)
    ELSE IF tz[1] \in UnknownZones THEN No ELSE Open
\* Zones without a name, "FIXED+0530": their times are written in UTC.
Pad(n, w) == LET s == ToString(n) IN (IF Len(s) >= w THEN "" ELSE Rep("0", w - Len(s))) \o s
Unnamed(z) == StartsWith(z, "FIXED")
ShiftDay(s, by) ==
    LET l == Len(s) y == Num(Cut(s, l - 4)) m == Num(SubSeq(s, l - 3, l - 2)) d == Num(SubSeq(s, l - 1, l)) + by
    IN CASE d = 0 -> IF m = 1 THEN Pad(y - 1, 4) \o "1231" ELSE Pad(y, 4) \o Pad(m - 1, 2) \o Pad(DaysIn(y, m - 1), 2)
         [] d > DaysIn(y, m) -> IF m = 12 THEN Pad(y + 1, 4) \o "0101" ELSE Pad(y, 4) \o Pad(m + 1, 2) \o "01"
         [] OTHER -> Pad(y, 4) \o Pad(m, 2) \o Pad(d, 2)
InUTC(s, z) == \* z: a zone without a name
    LET off == (Num(SubSeq(z, 7, 8)) * 60 + Num(SubSeq(z, 9, 10))) * (IF SubSeq(z, 6, 6) = "-" THEN 1 ELSE -1)
        t == Index(s, "T")
        min == Num(SubSeq(s, t + 1, t + 2)) * 60 + Num(SubSeq(s, t + 3, t + 4)) + off
        by == IF min < 0 THEN -1 ELSE IF min >= 1440 THEN 1 ELSE 0
        m == min - 1440 * by
    IN ShiftDay(Cut(s, t - 1), by) \o "T" \o Pad(m \div 60, 2) \o Pad(m % 60, 2) \o From(s, t + 5)
ZeroInstant(v) == v = <<"00010101T000000", "UTC">>

------------------------------------------------------------------------------
(* Durations: sign, P, then weeks, or days and/or T with at least one of    *)
(* hours, minutes, seconds in this order.                                   *)
MaxUint == "18446744073709551615"
DurInit == [ph |-> "sign", sg |-> "+", lvl |-> 0, n |-> "", t |-> FALSE,
            w |-> "0", d |-> "0", h |-> "0", m |-> "0", s |-> "0", open |-> FALSE]
DurUnit(a, u) ==
    LET num == Strip0(a.n)
        time == u \in {"h", "m", "s"}
        rank == CASE u = "w" -> 9 [] u = "d" -> 1 [] u = "h" -> 3 [] u = "m" -> 4 [] u = "s" -> 5
    IN IF a.n = "" \/ a.lvl >= rank \/ ~LeqDigits(num, MaxUint) \/ (u = "w" /\ a.lvl > 0) \/ (u = "d" /\ a.t)
       THEN [a EXCEPT !.ph = "bad"]
       ELSE [a EXCEPT !.lvl = rank, !.n = "", ![u] = num, !.open = @ \/ (time /\ ~a.t)]
DurStep(a, c) ==
    CASE a.ph = "bad" -> a
      [] a.ph = "sign" -> IF c \in {"+", "-"} THEN [a EXCEPT !.sg = c, !.ph = "P"]
                          ELSE IF c = "P" THEN [a EXCEPT !.ph = "body"] ELSE [a EXCEPT !.ph = "bad"]
      [] a.ph = "P" -> IF c = "P" THEN [a EXCEPT !.ph = "body"] ELSE [a EXCEPT !.ph = "bad"]
      [] a.ph = "body" ->
           IF c \in DigitSet THEN [a EXCEPT !.n = @ \o c]
           ELSE IF c = "T" THEN
                IF a.n # "" \/ a.t \/ a.lvl > 2 THEN [a EXCEPT !.ph = "bad"]
                ELSE [a EXCEPT !.t = TRUE, !.lvl = 2]
           ELSE IF c = "W" THEN DurUnit(a, "w")
           ELSE IF c = "D" THEN DurUnit(a, "d")
           ELSE IF c = "H" THEN DurUnit(a, "h")
           ELSE IF c = "M" THEN DurUnit(a, "m")
           ELSE IF c = "S" THEN DurUnit(a, "s")
           ELSE [a EXCEPT !.ph = "bad"]
ParseDuration(s) ==
    LET a == FoldS(DurStep, DurInit, s)
    IN IF a.ph # "body" \/ a.n # "" \/ a.lvl = 0 \/ a.lvl = 2 THEN No
       ELSE IF a.open THEN Open         \* a time unit without the T designator
       ELSE Ok(<<a.sg, a.w, a.d, a.h, a.m, a.s>>)
ValidDuration(v) == v[2] = "0" \/ (v[3] = "0" /\ v[4] = "0" /\ v[5] = "0" /\ v[6] = "0")
FormatDuration(v) ==
    (IF v[1] = "-" THEN "-P" ELSE "P") \o
    (IF v[2] # "0" THEN v[2] \o "W"
     ELSE (IF v[3] # "0" THEN v[3] \o "D" ELSE "") \o
          (IF v[4] = "0" /\ v[5] = "0" /\ v[6] = "0" THEN (IF v[3] # "0" THEN "" ELSE "T0S")
           ELSE "T" \o (IF v[4] # "0" THEN v[4] \o "H" ELSE "")
                    \o (IF v[5] # "0" \/ (v[4] # "0" /\ v[6] # "0") THEN v[5] \o "M" ELSE "")
                    \o (IF v[6] # "0" THEN v[6] \o "S" ELSE "")))
ZeroDuration(v) == \A i \in 2..6 : v[i] = "0"

------------------------------------------------------------------------------
(* Periods: start and end in the same zone, the end later; or start and a   *)
(* duration that is not negative.                                           *)
LessDateTime(a, b) == LET x == Cut(a, 8) \o From(a, 10) y == Cut(b, 8) \o From(b, 10)
                      IN x # y /\ LeqDigits(x, y)
ParsePeriod(tz, s) ==
    LET i == Index(s, "/")
        a == ParseDateTime(tz, Cut(s, i - 1))
        rest == From(s, i + 1)
        dur == ParseDuration(rest)
        b == ParseDateTime(tz, rest)
    IN IF i = 0 THEN No
       ELSE IF a.st = "no" THEN No
       ELSE IF StartsWith(rest, "P") \/ StartsWith(rest, "+") THEN
            (IF dur.st = "no" THEN No ELSE IF dur.st = "any" \/ a.st = "any" THEN Open
             ELSE IF ZeroDuration(dur.v) THEN Open
             ELSE Ok(a.v \o dur.v))
       ELSE IF StartsWith(rest, "-") THEN No
       ELSE IF b.st = "no" THEN No
       ELSE IF a.st = "any" \/ b.st = "any" THEN Open
       ELSE IF a.v[2] # b.v[2] THEN Open
       ELSE IF LessDateTime(a.v[1], b.v[1]) THEN Ok(a.v \o <<b.v[1]>>) ELSE No
PeriodDuration(v) == <<v[3], v[4], v[5], v[6], v[7], v[8]>>

------------------------------------------------------------------------------
(* UTC offsets.                                                             *)
ParseOffset(s) ==
    LET sg == IF StartsWith(s, "-") THEN "-" ELSE "+"
        b == IF StartsWith(s, "-") \/ StartsWith(s, "+") THEN From(s, 2) ELSE s
        hh == Cut(b, 2) mm == SubSeq(b, 3, 4) ss == IF Len(b) = 6 THEN SubSeq(b, 5, 6) ELSE "00"
    IN IF Len(b) \notin {4, 6} \/ ~IsDigits(b) THEN No
       ELSE IF Num(mm) >= 60 \/ Num(ss) >= 60 THEN No
       ELSE IF sg = "-" /\ Num(hh) = 0 /\ Num(mm) = 0 /\ Num(ss) = 0 THEN No
       ELSE Ok(<<sg, hh, mm, ss>>)
ValidOffset(v) == Len(v[2]) = 2
FormatOffset(v) == (IF v[1] = "-" THEN "-" ELSE "") \o v[2] \o v[3] \o (IF v[4] = "00" THEN "" ELSE v[4])

------------------------------------------------------------------------------
(* Recurrence rules.                                                        *)
Freqs == {"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}
WeekDays == {"SU", "MO", "TU", "WE", "TH", "FR", "SA"}
RecurKeys == <<"FREQ", "COUNT", "UNTIL", "INTERVAL", "BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY",
               "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS", "WKST">>
RecurKeySet == ToSet(RecurKeys)
\* List element ranges: lowest, highest, whether negative ones count too (then 0 is not allowed).
RecurRange ==
    ( "BYSECOND" :> <<0, 60, FALSE>> @@ "BYMINUTE" :> <<0, 59, FALSE>> @@ "BYHOUR" :> <<0, 23, FALSE>>
   @@ "BYMONTHDAY" :> <<1, 31, TRUE>> @@ "BYYEARDAY" :> <<1, 366, TRUE>> @@ "BYWEEKNO" :> <<1, 53, TRUE>>
   @@ "BYMONTH" :> <<1, 12, FALSE>> @@ "BYSETPOS" :> <<1, 366, TRUE>> )

\* A list element: [st, v] with v canonical.
RecurNumber(k, s) ==
    LET r == RecurRange[k]
        sign == StartsWith(s, "-") \/ StartsWith(s, "+")
        b == IF sign THEN From(s, 2) ELSE s
    IN IF ~IsDigits(b) \/ (sign /\ ~r[3]) THEN No
       ELSE LET n == Strip0(b)
            IN IF Len(n) > 4 THEN No
               ELSE IF Num(n) < r[1] \/ Num(n) > r[2] THEN No
               ELSE Ok(<<(IF StartsWith(s, "-") /\ n # "0" THEN "-" ELSE "") \o n>>)
RecurDay(s) ==
    LET sign == StartsWith(s, "-") \/ StartsWith(s, "+")
        b == IF sign THEN From(s, 2) ELSE s
        num == Cut(b, Len(b) - 2)
        day == From(b, Len(b) - 1)
    IN IF Len(b) < 2 THEN No
       ELSE IF Upper(day) \notin WeekDays THEN No
       ELSE IF num = "" THEN (IF StartsWith(s, "-") THEN No ELSE IF day \notin WeekDays \/ sign THEN Open ELSE Ok(<<day>>))
       ELSE IF ~IsDigits(num) THEN No
       ELSE IF Len(num) > 2 \/ Num(num) = 0 \/ Num(num) > 53 THEN No
       ELSE IF day \notin WeekDays THEN Open
       ELSE Ok(<<(IF StartsWith(s, "-") THEN "-" ELSE "") \o Strip0(num) \o day>>)

\* One part: [st, k, v] with v the canonical text after '='.
RecurPart(tz, p) ==
    LET i == Index(p, "=")
        k == Cut(p, i - 1)
        x == From(p, i + 1)
        items == Split(x, ",")
        elem == [j \in 1..Len(items) |-> IF k = "BYDAY" THEN RecurDay(items[j]) ELSE RecurNumber(k, items[j])]
        lst == IF \E j \in 1..Len(items) : elem[j].st = "no" THEN No
               ELSE IF \E j \in 1..Len(items) : elem[j].st = "any" THEN Open
               ELSE Ok(<<Join([j \in 1..Len(items) |-> elem[j].v[1]], ",")>>)
        big == IF ~IsDigits(x) THEN No
               ELSE IF LeqDigits(Strip0(x), MaxUint) THEN Ok(<<Strip0(x)>>) ELSE No
        until == IF Len(x) > 10
                 THEN LET d == ParseDateTime(tz, x)
                      IN IF d.st = "ok" THEN Ok(<<d.v[1] \o "@" \o d.v[2]>>) ELSE d
                 ELSE ParseDate(x)
        r == IF i = 0 THEN No
             ELSE IF k \notin RecurKeySet THEN (IF Upper(k) \in RecurKeySet THEN Open ELSE No)
             ELSE CASE k = "FREQ" -> IF x \in Freqs THEN Ok(<<x>>) ELSE IF Upper(x) \in Freqs THEN Open ELSE No
                    [] k = "WKST" -> IF x \in WeekDays THEN Ok(<<x>>) ELSE IF Upper(x) \in WeekDays THEN Open ELSE No
                    [] k = "COUNT" \/ k = "INTERVAL" -> big
                    [] k = "UNTIL" -> until
                    [] OTHER -> lst
    IN [st |-> r.st, k |-> k, v |-> IF r.st = "ok" THEN r.v[1] ELSE ""]

RecurFrom(parts) == \* parts: sequence of parsed parts
    LET ks == {parts[i].k : i \in 1..Len(parts)}
        n(k) == Cardinality({i \in 1..Len(parts) : parts[i].k = k})
        val(k) == parts[CHOOSE i \in 1..Len(parts) : parts[i].k = k].v
        keep(k) == k \in ks /\ ~(k \in {"COUNT", "INTERVAL"} /\ val(k) = "0")
    IN IF \E i \in 1..Len(parts) : parts[i].st = "no" THEN No
       ELSE IF "FREQ" \notin ks /\ \A i \in 1..Len(parts) : parts[i].st = "ok" THEN No
       ELSE IF \E k \in DOMAIN RecurRange \cup {"BYDAY", "WKST"} : n(k) > 1 THEN No
       ELSE IF \E i \in 1..Len(parts) : parts[i].st = "any" THEN Open
       ELSE IF \E k \in RecurKeySet : n(k) > 1 THEN
            (IF n("INTERVAL") > 1 /\ \A i \in 1..Len(parts) : parts[i].k = "INTERVAL" => parts[i].v # "0"
             THEN No ELSE Open)
       ELSE IF "COUNT" \in ks /\ "UNTIL" \in ks THEN (IF val("COUNT") = "0" THEN Open ELSE No)
       ELSE Ok(LET sel == SelectSeq(RecurKeys, keep) IN [i \in 1..Len(sel) |-> sel[i] \o "=" \o val(sel[i])])
ParseRecur(tz, s) == LET ps == Split(s, ";") IN RecurFrom([i \in 1..Len(ps) |-> RecurPart(tz, ps[i])])

\* A canonical part back to its written form, given the zone of the rule.
RecurText(p) ==
    LET i == Index(p, "@")
    IN IF i = 0 THEN p ELSE Cut(p, i - 1) \o (IF From(p, i + 1) = "UTC" THEN "Z" ELSE "")
RecurZone(v) ==
    LET us == {i \in 1..Len(v) : Index(v[i], "@") > 0}
    IN IF us = {} THEN "UTC" ELSE LET p == v[CHOOSE i \in us : TRUE] IN From(p, Index(p, "@") + 1)
FormatRecur(v) == Join([i \in 1..Len(v) |-> RecurText(v[i])], ";")
ZoneParam(z) == IF z \in {"UTC", "LOCAL"} THEN <<>> ELSE <<z>>
ValidRecur(v) == LET r == ParseRecur(ZoneParam(RecurZone(v)), FormatRecur(v)) IN r.st = "ok"

------------------------------------------------------------------------------
(* All types together.                                                      *)
\* x: function from the names of the remaining parameters to their text.
ParseValue(t, enum, x, s) ==
    LET tz == IF "TZID" \in DOMAIN x THEN <<x["TZID"]>> ELSE <<>>
    IN CASE t = "TEXT" -> ParseText(s)
         [] t = "MTEXT" -> ParseMText(s)
         [] t = "INTEGER" -> ParseInteger(s)
         [] t = "GEO" -> ParseGeo(s)
         [] t = "BOOLEAN" -> ParseBoolean(s)
         [] t = "URI" \/ t = "CAL-ADDRESS" -> ParseUri(s)
         [] t = "BINARY" -> IF Upper(Get(x, "ENCODING", "")) = "BASE64" THEN ParseBinary(s) ELSE No
         [] t = "DATE" -> ParseDate(s)
         [] t = "DATE-TIME" -> ParseDateTime(tz, s)
         [] t = "DURATION" -> ParseDuration(s)
         [] t = "PERIOD" -> ParsePeriod(tz, s)
         [] t = "UTC-OFFSET" -> ParseOffset(s)
         [] t = "RECUR" -> ParseRecur(tz, s)
         [] t = "ENUM" -> IF Upper(s) \in ToSet(enum) THEN Ok(<<Upper(s)>>) ELSE No

\* A date-time with its zone; one without a name becomes UTC.
\* A part of a second is lost.
WholeSecond(s) == IF Has(s, {"."}) THEN Cut(s, Index(s, ".") - 1) ELSE s
LOCAL InNamed(v) == IF Unnamed(v[2]) /\ Has(v[1], {"T"}) /\ ~Has(v[1], {"-"}) THEN <<InUTC(v[1], v[2]), "UTC">> ELSE v
CanonTime(v) == InNamed(<<WholeSecond(v[1]), v[2]>>)
ValidDateTime(v) == IsDateTime(CanonTime(v)[1]) /\ ~ZeroInstant(CanonTime(v))
\* A date may be held as any time of that day, in any zone: UNTIL=date/time/zone.
CanonUntil(p) ==
    LET i == Index(p, "@") v == CanonTime(<<SubSeq(p, 7, i - 1), From(p, i + 1)>>)
    IN IF Cut(p, 6) # "UNTIL=" THEN p ELSE IF i = 0 THEN (IF Has(p, {"/"}) THEN Cut(p, Index(p, "/") - 1) ELSE p) ELSE "UNTIL=" \o v[1] \o "@" \o v[2]
CanonValue(t, v) ==
    CASE t = "MTEXT" -> IF v = <<>> THEN <<"">> ELSE v
      [] t = "DATE-TIME" -> CanonTime(v)
      [] t = "PERIOD" -> CanonTime(<<v[1], v[2]>>) \o (IF Len(v) = 3 THEN <<CanonTime(<<v[3], v[2]>>)[1]>> ELSE SubSeq(v, 3, Len(v)))
      [] t = "DATE" -> <<v[1]>>   \* held as any time of that day, in any zone: date, time, zone
      [] t = "RECUR" -> IF \E i \in 1..Len(v) : Has(v[i], {"@", "/"}) THEN [i \in 1..Len(v) |-> CanonUntil(v[i])] ELSE v
      [] OTHER -> v
ValidValue(t, enum, v) ==
    CASE t = "TEXT" -> ValidText(v[1])
      [] t = "MTEXT" -> \A i \in 1..Len(v) : ValidText(v[i])
      [] t = "INTEGER" -> TRUE
      [] t = "GEO" -> ParseFloat(v[1]).st # "no" /\ ParseFloat(v[2]).st # "no"
      [] t = "BOOLEAN" -> TRUE
      [] t = "URI" \/ t = "CAL-ADDRESS" -> v[1] \notin BadUris
      [] t = "BINARY" -> TRUE
      [] t = "DATE" -> IsDate(v[1]) /\ v[1] # "00010101"
      [] t = "DATE-TIME" -> ValidDateTime(v)
      [] t = "DURATION" -> ValidDuration(v)
      [] t = "PERIOD" -> /\ ValidDateTime(<<v[1], v[2]>>)
                         /\ Len(v) # 4                       \* an end in another zone
                         /\ IF Len(v) = 3
                            THEN IsDateTime(WholeSecond(v[3])) /\ LessDateTime(WholeSecond(v[1]), WholeSecond(v[3]))
                            ELSE v[3] = "+" /\ ValidDuration(PeriodDuration(v))
      [] t = "UTC-OFFSET" -> ValidOffset(v)
      [] t = "RECUR" -> ValidRecur(CanonValue(t, v))
      [] t = "ENUM" -> v[1] \in ToSet(enum)

FormatDateTime(s, z) == IF z = "UTC" THEN s \o "Z" ELSE s
FormatValue(t, v) ==
    CASE t = "TEXT" -> EscapeText(v[1])
      [] t = "MTEXT" -> Join([i \in 1..Len(v) |-> EscapeText(v[i])], ",")
      [] t = "GEO" -> v[1] \o ";" \o v[2]
      [] t = "DATE-TIME" -> FormatDateTime(v[1], v[2])
      [] t = "DURATION" -> FormatDuration(v)
      [] t = "PERIOD" -> FormatDateTime(v[1], v[2]) \o "/"
                         \o (IF Len(v) = 3 THEN FormatDateTime(v[3], v[2]) ELSE FormatDuration(PeriodDuration(v)))
      [] t = "UTC-OFFSET" -> FormatOffset(v)
      [] t = "RECUR" -> FormatRecur(v)
      [] OTHER -> v[1]
\* Parameters that belong to the value itself.
ValueParams(t, v) ==
    CASE t = "BINARY" -> ";ENCODING=BASE64"
      [] t = "DATE-TIME" -> IF v[2] \in {"UTC", "LOCAL"} THEN "" ELSE ";TZID=" \o v[2]
      [] t = "PERIOD" -> IF v[2] \in {"UTC", "LOCAL"} THEN "" ELSE ";TZID=" \o v[2]
      [] t = "RECUR" -> IF RecurZone(v) \in {"UTC", "LOCAL"} THEN "" ELSE ";TZID=" \o RecurZone(v)
      [] OTHER -> ""
=============================================================================
