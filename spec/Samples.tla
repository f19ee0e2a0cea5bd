------------------------------ MODULE Samples -------------------------------
(* For every value type: written forms worth trying (right, wrong and odd), *)
(* and values worth encoding.  What becomes of them is not said here: the   *)
(* rest of the specification decides.                                       *)
EXTENDS Gen

LOCAL N(l) == [z \in 1..Len(l) |-> [x |-> "", s |-> l[z]]]
LOCAL W(x, l) == [z \in 1..Len(l) |-> [x |-> x, s |-> l[z]]]

RawText == <<"", "a", "\\n", "\\N", "\\\\", "\\;", "\\,", "\\", "a\\", "\\x", "\\\"", ";", ",", "a,b", "a;b", "\\\\n", "\\\\\\n", "\\\\,", "\\\\;",
             "\"", "\"a,b\"", ":", " lead", "trail ", "\t", "é€⑷", "⑴⑵⑶", "a⑸b⑹c", "⑺⑻⑼", "\\⑴", "^n^^^'", "\\:", "a\\,b,c", "a,", ",a", ",,", "a\\;b,\\n", "BEGIN:VEVENT", "=", "a=b;c=d">>
RawInteger == <<"0", "-0", "+0", "1", "-1", "+5", "007", "-0012", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "9999999999",
                "99999999999999999999", "", "-", "+", "1.0", "1.", "1e3", " 1", "1 ", "0x1", "1_0", "a", "--1", "+-1", "1;2", "1,2", "1\t", "é", "1a">>
RawGeo == <<"1;2", "1.5;-2.25", "0;0", "0.000001;1", "1", "1;", ";1", "1;2;3", "a;b", "NaN;1", "1;Inf", "-Inf;1", "1;+Inf", "1;nan", "1,2", "1 ;2", "+1;+2",
            "1e2;1", "91;181", "-90;-180", "90.0;180.00", "0.1;0.2", "1234567.123456;1", "00;00", "01;-02.50", "-;1", ".;1", "", ";", "1.2.3;4", "1;+-4", "1; 2",
            "37.386013;-122.082932", "0.12345678901234;-179.999999999999", "-0.00000000000001;0.1000000000001", "123456789012345;1", "000000000000000000001;2.50000000000000000000", "-0.5;-0.25", "1;2,3", "1;2\t">>
RawBoolean == <<"TRUE", "true", "FALSE", "false", "True", "False", "tRUE", "1", "0", "t", "", "yes", "no", "TRUE ", " TRUE", "TRUEX", "TRU", "2", "-1", "TRUE,FALSE">>
RawUri == <<"http://example.com/a", "mailto:a@example.com", "urn:uuid:1-2-3", "ftp://example.com/x.y~z", "geo:1.5", "cid:part3", "https://example.com/a/b&c=d+e", "",
            "ldap://example.com/x_y", "mailto:Big.Case@Example.com", ":", ":x", "%zz", "http://example.com/%zz", "http://example.com/%", "http://[::1", "mailto:%zz", "1http://example.com/">> \o GoodUris
RawBinary == <<"QUJD", "QQ==", "QUI=", "", "Q", "QQ", "QQ=", "Q===", "====", "QQ==QQ==", "QUJD=", "QUI=QUI=", "QU D", "*UJD", "-_-_", "/+/+", "QUJDREVGR0g=", "AAAA", "////",
               "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8gISIjJCUmJygpKissLS4vMDEyMzQ1Njc4OTo7PD0+P0BBQkM=", "QUJ", "QUJDR", "é===", Rep("QUJD", 90) \o "QQ==", Rep("QUJD", 90) \o "QQ=", Rep("QUJD", 400), Rep("QUJD", 400) \o "*">>
RawDate == <<"20240131", "00010102", "19700101", "20240229", "20230229", "21000229", "20000229", "19000229", "20240431", "20240430", "20240630", "20240631", "20241301", "20240001", "20240100", "20241232",
             "2024010", "202401011", "2024-01-01", "", "2024010a", "99991231", "20240131T000000", " 20240101", "20240101 ", "20240101Z", "00000229", "20240101,20240102", "+2024010", "20240931">>
RawTimes == <<"20240131T235959", "20240131T000000", "20240131T240000", "20240131T236000", "20240131T235960", "20240131", "20240131T23595", "20240131T2359590", "20240131t235959",
              "20240131 235959", "", "T", "20240230T000000", "20240131T235959+0100", "99991231T235959", "00000101T000000", "20240229T120000", "20230229T120000", "20241301T120000",
              "2024013T1235959", "20240131T-10000", "20240131T235959,20240201T000000", "20240131T1", "20240431T080910", "19000101T010203", "20240131T 10000">>
\* Each time with different zone indications.
\* Whether these are zones is left open; what is made of them has to be the same every time.
OpenZones == <<"", "\"\"", "Local", "LOCAL", "utc", "Z", "EUROPE/LONDON", "asia/tokyo", "Europe", "Europe/", "+01:00", "GMT+1", "posix/Asia/Tokyo", "\" Asia/Tokyo\"">>
SomeZones == <<"America/New_York", "Europe/London", "Asia/Tokyo", "Asia/Kolkata", "Australia/Sydney", "America/Argentina/Buenos_Aires", "Etc/GMT+5", "Pacific/Kiritimati">>
RawDateTime == N(RawTimes) \o N([z \in 1..Len(RawTimes) |-> RawTimes[z] \o "Z"])
               \o N(<<"Z", "20240131T235959z", "20240131T235959ZZ", "20240131T235959Y", "20240131Z", "20240131T235959 Z">>)
               \o Concat([z \in 1..Len(SomeZones) |-> W(";TZID=" \o SomeZones[z], <<"20240115T123456", "20240715T233001", "19991231T235959", "20240115T123456Z", "20240131">>)])
               \o W(";TZID=UTC", <<"20240115T123456", "20240115T123456Z", "20240230T000000">>)
               \o W(";TZID=\"Europe/London\"", <<"20240715T120000">>)
               \o W(";tzid=Asia/Tokyo", <<"20240715T120000">>)
               \o Concat([z \in 1..Len(SetToSeq(UnknownZones)) |-> W(";TZID=" \o SetToSeq(UnknownZones)[z], <<"20240115T123456">>)])
               \o Concat(Map(LAMBDA z : W(";TZID=" \o z, <<"20240115T123456", "20240715T120000">>), OpenZones))
               \o W(";X-TZID=Asia/Tokyo", <<"20240715T120000", "20240715T120000Z">>)
               \o W(";TZID=America/New_York", SelectSeq(RawTimes, LAMBDA t : Len(t) = 15 /\ t \notin {"99991231T235959", "00000101T000000", "19000101T010203"}))
RawDuration == <<"PT0S", "P0D", "P0W", "PT1H", "PT1M", "PT1S", "P1D", "P1W", "-PT15M", "+PT15M", "-P1W", "P1DT1H", "P1DT1M", "P1DT1S", "PT1H1M", "PT1H1S", "PT1M1S", "PT1H1M1S",
                 "P1DT2H3M4S", "-P1DT2H3M4S", "P10W", "P007D", "PT0100S", "PT18446744073709551615S", "PT18446744073709551616S", "P18446744073709551615W", "P99999999999999999999D",
                 "", "P", "-", "+", "-P", "PT", "P1", "PT1", "1D", "T1H", "P1DT", "P1WT1H", "P1W1D", "P1D1W", "P1D1D", "PT1H1H", "PT1M1H", "PT1S1M", "PT1S1H", "P1DT1D", "PT1D", "PT1W",
                 "p1d", "P1d", "pt1h", "P-1D", "PT-1H", "P1.5D", "PT1.5S", " P1D", "P1D ", "P 1D", "--P1D", "+-P1D", "PP1D", "PTT1H", "P1DTT1H", "P1DT1HT1M", "P1Y", "P1M1D", "PD", "PTH",
                 "PT1H,PT2H", "P1D/P2D", "PT60M", "PT3600S", "PT24H", "P365D", "PT1HM", "PT1H1", "P1W1", "PT1S1">>
RawPeriod == N(<<"20240101T000000Z/20240102T000000Z", "20240101T000000Z/20240101T000001Z", "20240101T000000Z/20240101T000000Z", "20240102T000000Z/20240101T000000Z", "20240101T000000/20240102T000000",
               "20240101T000000Z/20240102T000000", "20240101T000000/20240102T000000Z", "20240101T000000Z/PT1H", "20240101T000000Z/P1D", "20240101T000000Z/P2W", "20240101T000000Z/+PT1H",
               "20240101T000000Z/-PT1H", "20240101T000000Z/P1DT2H3M4S", "20240101T000000/PT5M", "20240101T000000Z/", "/20240101T000000Z", "/", "", "20240101T000000Z", "PT1H/20240101T000000Z", "PT1H/PT1H",
               "20240101/20240102", "20240101T000000Z/20240102", "20240230T000000Z/20240301T000000Z", "20240101T000000Z/20240230T000000Z", "20240101T000000Z/PT", "20240101T000000Z/P1W1D",
               "20240101T000000Z/PT1H/PT1H", "20240101T000000Z-20240102T000000Z", "20240101T000000Z/20240102T000000Z,20240103T000000Z/20240104T000000Z", "19991231T235959Z/20000101T000000Z",
               "20240101T000000Z/X", "20240101T000000Z/ PT1H", "20240101T000000Z//PT1H", "20240101T000000Z/PT18446744073709551615S">>)
             \o W(";TZID=America/New_York", <<"20240101T000000/20240102T000000", "20240101T000000/PT1H", "20240101T000000/20240101T000000", "20240102T000000/20240101T000000", "20240101T000000/20240102T000000Z",
                                               "20240101T000000Z/PT1H">>)
             \o W(";TZID=UTC", <<"20240101T000000/20240102T000000", "20240101T000000/PT1H">>) \o W(";TZID=X", <<"20240101T000000/PT1H">>)
RawOffset == <<"+0100", "-0100", "0100", "+0000", "0000", "-0000", "-000000", "+000000", "+0059", "+0060", "-0060", "+9959", "-9959", "+013045", "-013045", "+013060", "-000001", "+000001", "-0001", "013045",
               "+235959", "", "+", "-", "+1", "+01", "+010", "+01000", "+0100000", "+ 100", "+01:00", "+1:00", "++0100", "--0100", "+-100", "0100Z", "Z", "a100", "+010a", "+0130a5", " +0100", "+0100 ", "é", "-123456", "+1200", "-0330", "1e10">>
RawRecur == N(<<"FREQ=DAILY", "FREQ=SECONDLY;COUNT=1", "FREQ=MINUTELY;INTERVAL=90", "FREQ=HOURLY;UNTIL=20241231", "FREQ=WEEKLY;UNTIL=20241231T235959Z", "FREQ=MONTHLY;UNTIL=20241231T235959",
              "FREQ=YEARLY;BYMONTH=1,12;BYDAY=1MO,-1SU,TU", "COUNT=3;FREQ=DAILY", "WKST=SA;BYSETPOS=-1,1;FREQ=DAILY", "", "FREQ", "FREQ=", "FREQ=NEVER", "COUNT=1", "INTERVAL=2;COUNT=3", "FREQ=DAILY;", ";FREQ=DAILY",
              "FREQ=DAILY;;COUNT=1", "FREQ=DAILY;=", "FREQ=DAILY;=1", "=1;FREQ=DAILY", "=DAILY", "FREQ=DAILY; COUNT=1", "FREQ=DAILY;COUNT =1", "FREQ=DAILY;-COUNT=1", "XFREQ=DAILY", "FREQ=DAILY;COUNTS=1", "FREQ=DAILY;BYDAYS=MO", "FREQ=DAILY;BY=1", "FREQ=DAILY;X-Y=1", "FREQ=DAILY;BYEASTER=1", "FREQ=DAILY;COUNT=1;UNTIL=20241231", "FREQ=DAILY;UNTIL=20241231;COUNT=1", "FREQ=DAILY;COUNT=", "FREQ=DAILY;COUNT=a",
              "FREQ=DAILY;COUNT=-1", "FREQ=DAILY;COUNT=1.5", "FREQ=DAILY;COUNT=18446744073709551615", "FREQ=DAILY;COUNT=18446744073709551616", "FREQ=DAILY;INTERVAL=18446744073709551615", "FREQ=DAILY;INTERVAL=", "FREQ=DAILY;INTERVAL=-1",
              "FREQ=DAILY;UNTIL=", "FREQ=DAILY;UNTIL=20240230", "FREQ=DAILY;UNTIL=20240230T000000Z", "FREQ=DAILY;UNTIL=never", "FREQ=DAILY;BYDAY=", "FREQ=DAILY;BYMONTH=", "FREQ=DAILY;BYDAY=MO,", "FREQ=DAILY;BYMONTH=1,,2",
              "FREQ=DAILY COUNT=1", "FREQ=DAILY,COUNT=1", "FREQ==DAILY", "FREQ=DAILY;COUNT==1", " FREQ=DAILY", "FREQ=DAILY;WKST=XX", "FREQ=DAILY;WKST=", "FREQ=DAILY;WKST=MO,TU", "FREQ=DAILY;WKST=1MO", "FREQ=DAILY;INTERVAL=2;INTERVAL=3",
              "FREQ=DAILY;BYHOUR=1;BYHOUR=2", "FREQ=DAILY;BYDAY=MO;BYDAY=TU", "FREQ=DAILY;WKST=MO;WKST=MO", "FREQ=DAILY;BYSETPOS=1;BYSETPOS=1",
              "FREQ=YEARLY;COUNT=10;INTERVAL=2;BYSECOND=0,59,60;BYMINUTE=0,59;BYHOUR=0,23;BYDAY=53SU,-53SA,+2WE,FR;BYMONTHDAY=1,31,-1,-31;BYYEARDAY=1,366,-366;BYWEEKNO=53,-53;BYMONTH=12,1;BYSETPOS=366,-366;WKST=MO">>)
            \o W(";TZID=Asia/Tokyo", <<"FREQ=DAILY;UNTIL=20241231T235959", "FREQ=DAILY;UNTIL=20241231", "FREQ=DAILY;UNTIL=20241231T235959Z">>)
\* Every recurrence list: elements in, at and out of their ranges.
RecurEdges ==
    LET ns == <<"-367", "-366", "-365", "-54", "-53", "-52", "-32", "-31", "-30", "-2", "-1", "-0", "0", "+0", "1", "+1", "01", "2", "11", "12", "13", "22", "23", "24", "25", "30", "31", "32", "52", "53", "54", "58", "59", "60", "61",
                "99", "127", "128", "129", "255", "256", "257", "365", "366", "367", "32768", "65537", "4294967297", "a", "", "1a", " 1", "1 ", "1.0", "--1">>
        keys == SelectSeq(RecurKeys, LAMBDA k : k \in DOMAIN RecurRange)
    IN N(Concat([z \in 1..Len(keys) |-> [n \in 1..Len(ns) |-> "FREQ=YEARLY;" \o keys[z] \o "=" \o ns[n]]])
         \o Concat([z \in 1..Len(keys) |-> [n \in 1..Len(ns) |-> "FREQ=YEARLY;" \o keys[z] \o "=1," \o ns[n] \o ",2"]]))
RecurDays ==
    LET ds == <<"SU", "MO", "TU", "WE", "TH", "FR", "SA">>
        ps == <<"", "1", "5", "9", "10", "53", "54", "0", "00", "-", "+", "-1", "+1", "-53", "-54", "+53", "100", "-100", "01", "-01", "a", " ", "1 ", "--1", "5-", "-0", "+0", "99", "-128", "256">>
    IN N([z \in 1..7 |-> "FREQ=WEEKLY;BYDAY=" \o ds[z] \o ";WKST=" \o ds[z]]
         \o Concat([p \in 1..Len(ps) |-> Map(LAMBDA day : "FREQ=MONTHLY;BYDAY=" \o ps[p] \o day, <<ds[1 + ((p + Seed) % 7)], ds[1 + ((p + Seed + 3) % 7)]>>)])
         \o <<"FREQ=WEEKLY;BYDAY=M", "FREQ=WEEKLY;BYDAY=1", "FREQ=WEEKLY;BYDAY=11", "FREQ=WEEKLY;BYDAY=-1", "FREQ=WEEKLY;BYDAY=MON", "FREQ=WEEKLY;BYDAY=XX", "FREQ=WEEKLY;BYDAY=1XX", "FREQ=WEEKLY;BYDAY=MOTU", "FREQ=WEEKLY;BYDAY=MO TU",
              "FREQ=WEEKLY;BYDAY=SU,MO,TU,WE,TH,FR,SA", "FREQ=WEEKLY;BYDAY=SA,FR,TH,WE,TU,MO,SU", "FREQ=WEEKLY;BYDAY=MO,MO", "FREQ=WEEKLY;BYDAY=1MO,MO,-1MO", "FREQ=WEEKLY;BYDAY=12", "FREQ=WEEKLY;BYDAY=+", "FREQ=WEEKLY;BYDAY=-M",
              "FREQ=WEEKLY;BYDAY=12M", "FREQ=WEEKLY;BYDAY=-12", "FREQ=WEEKLY;BYDAY=1M", "FREQ=WEEKLY;BYDAY=é">>)

Raw == ( "TEXT" :> N(RawText) @@ "MTEXT" :> N(RawText) @@ "INTEGER" :> N(RawInteger) @@ "GEO" :> N(RawGeo) @@ "BOOLEAN" :> N(RawBoolean)
      @@ "URI" :> N(RawUri) @@ "CAL-ADDRESS" :> N(RawUri)
      @@ "BINARY" :> W(";ENCODING=BASE64", RawBinary) \o W(";ENCODING=base64", <<"QUJD">>) \o W(";encoding=Base64", <<"QUJD">>) \o W("", <<"QUJD", "">>) \o W(";ENCODING=8BIT", <<"QUJD">>)
                     \o W(";ENCODING=BASE6", <<"QUJD">>) \o W(";ENCODING=\"BASE64\"", <<"QUJD">>) \o W(";X-ENCODING=BASE64", <<"QUJD">>) \o Concat(Map(LAMBDA w : W(";ENCODING=" \o w, <<"QUJD">>), NearWords("BASE64") \o <<"B", "base-64", "BASE32", "BASE64URL", "BASE65", "BASE64,BASE64", "BASE64;ENCODING=8BIT">>))
      @@ "DATE" :> N(RawDate) \o W(";TZID=Asia/Tokyo", <<"20240131", "20240132">>)
      @@ "DATE-TIME" :> RawDateTime @@ "DURATION" :> N(RawDuration) @@ "PERIOD" :> RawPeriod @@ "UTC-OFFSET" :> N(RawOffset)
      @@ "RECUR" :> RawRecur )
\* Part names that are nearly those known, or belong to other specifications.
RecurNames == N(Concat(Map(LAMBDA k : Map(LAMBDA w : "FREQ=DAILY;" \o w \o "=1", NearWords(k)), RecurKeys)) \o Concat(Map(LAMBDA k : Map(LAMBDA w : w \o "=MO;FREQ=DAILY", SubSeq(NearWords(k), 1, 5)), <<"BYDAY", "WKST">>))
                \o Map(LAMBDA w : "FREQ=DAILY;" \o w, <<"BYWEEKDAY=MO", "BYWEEKDAY=1", "RSCALE=GREGORIAN", "SKIP=OMIT", "BYEASTER=1", "WKSTART=MO", "START=20240101", "DTSTART=20240101", "EXDATE=20240101", "BY-DAY=MO", "BY_DAY=MO", "BYDAY:MO", "X-A=b", "TZID=UTC", "END=20240101", "LIMIT=3", "COUNTER=3", "EVERY=2", "FREQ2=DAILY">>)
                \o Concat(Map(LAMBDA w : Map(LAMBDA n : "FREQ=" \o n, NearWords(w)), <<"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY">>))
                \o Map(LAMBDA n : "FREQ=" \o n, <<"DAY", "WEEK", "MONTH", "YEAR", "ANNUALLY", "BIWEEKLY", "FORTNIGHTLY", "QUARTERLY", "0", "1", "YEARLY,DAILY">>))
EnumRaw(d) == LET e == PropDef[d].e
              IN N(e \o Map(Lower, e) \o Map(Alternate, e) \o <<"", "X", e[1] \o "X", e[1] \o " ", " " \o e[1], Cut(e[1], Len(e[1]) - 1), e[Len(e)] \o "," \o e[1], "X-NEW", "0", "OPAQUE ", "PUBLICS", "CANCELED", "ACTIVES", "DONE">> \o Concat(Map(NearWords, e)))
RawOf(d, t) == IF t = "ENUM" THEN EnumRaw(d) ELSE Raw[t]

------------------------------------------------------------------------------
(* Values to encode.                                                        *)
LOCAL V(l) == [z \in 1..Len(l) |-> <<l[z]>>]
BadChars == SetToSeq(BadTextSet)
GoodTexts == <<"", "a", "\n", "\\", ";", ",", "\\n", "\\N", "\\\\", "\\;", "\"", "\t", ":", "a,b;c", "\n\n", "\\\n", "n\\", "é", "€", "⑴", "⑵", "⑶", "⑷", "⑸", "⑹", "⑺", "⑻", "⑼", "x⑴y", "a\nb\\c;d,e\"f", " ", " x ", "^n", "^", "END:VCALENDAR", "\nEND:VEVENT\n",
               "BEGIN:VEVENT\nUID:x", "=", "a=b", "\\,", ",,", ";;">>
ValText == V(GoodTexts) \o [z \in 1..Len(BadChars) |-> <<BadChars[z]>>] \o V(<<"a␀", "␟b", "a␇b", "x\ry", "\r\n", "é␡€", "\n␛">>)
ValMText == <<<<>>, <<"">>, <<"", "">>, <<"a">>, <<"a", "b">>, <<"a,b", "c">>, <<"a", "", "b">>, <<"\\", "\\">>, <<"\\,", ";">>, <<"\n", "n">>, <<",", ",">>, <<"a\\", "b">>, <<"é", "€", "⑷">>, <<"\"", "\"">>, <<"a", "b", "c", "d", "e">>, <<"d", "b", "c", "a", "b">>, <<"z", "", "a">>,
              <<"a␀">>, <<"a", "b␡">>, <<"\r", "a">>, <<"a", "\r\n", "b">>, <<"", "␇">>>>
ValInteger == V(<<"0", "1", "-1", "10", "2147483647", "-2147483648", "123456789">>)
ValGeo == <<<<"0", "0">>, <<"1.5", "-2.25">>, <<"0.1", "0.2">>, <<"-90", "180">>, <<"123.456789", "-0.000001">>, <<"100000", "0.5">>, <<"0.12345678901234", "-179.999999999999">>, <<"-0.00000000000001", "0.1000000000001">>, <<"123456789012345", "-99999999999999">>, <<"Inf", "0">>, <<"0", "Inf">>, <<"-Inf", "1">>, <<"1", "-Inf">>, <<"NaN", "1">>, <<"1", "NaN">>>>
ValBoolean == V(<<"TRUE", "FALSE">>)
ValUri == V(SelectSeq(RawUri, SafeUri))
ValBinary == V(<<"", "QQ==", "QUI=", "QUJD", "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8gISIjJCUmJygpKissLS4vMDEyMzQ1Njc4OTo7PD0+P0BBQkM=", "/+8=", "AA==", "DQo=", "IiI7Og==">>)
             \o V([z \in 1..6 |-> Rep("QUJD", <<19, 85, 86, 341, 342, 1400>>[z]) \o Nth(<<"QQ==", "/+8=", "">>, z + Seed)])
ValDate == V(<<"20240131", "00010102", "19700101", "20240229", "99991231", "20001231", "00000101", "ZERO", "100000101", "-00010101", "20240101", "123456789">>)
           \o <<<<"20240131", "003000", "FIXED+1300">>, <<"20240131", "233000", "FIXED-1100">>, <<"20240229", "003000", "Asia/Kolkata">>, <<"20241231", "233000", "America/New_York">>,
                <<"20240630", "233000", "LOCAL">>, <<"20240701", "003000", "LOCAL">>, <<"20240101", "120000.5", "UTC">>, <<"99991231", "233000", "FIXED-1100">>, <<"20240229", "235959", "UTC">>, <<"20231231", "235930", "LOCAL">>, <<"20240105", "000001", "Asia/Tokyo">>, <<"20240831", "235959.9", "FIXED+0530">>, <<"20240106", "120000", "UTC">>, <<"00010102", "003000", "FIXED+1300">>>>
ValTimes == <<"20240131T235959", "20240715T000000", "19700101T000000", "99991230T120000", "00010103T000000", "00000105T000000", "20240229T010203", "ZERO", "100000101T000000", "-00010101T000000">>
ValZones == <<"UTC", "LOCAL", "America/New_York", "Asia/Kolkata", "Etc/GMT+5", "FIXED+0530", "FIXED-0800", "FIXED+0000", "FIXED+1400">>
ModernTime(t) == t \notin {"00010103T000000", "00000105T000000"}
ValDateTime == Concat(Map(LAMBDA z : Concat(Map(LAMBDA t : IF ModernTime(t) \/ z \in {"UTC", "FIXED+0530", "Etc/GMT+5"} THEN <<<<t, z>>>> ELSE <<>>, ValTimes)), ValZones))
               \o <<<<"20240101T000000", "FIXED+0100">>, <<"20240101T050000", "FIXED+0530">>, <<"20231231T233000", "FIXED-0030">>, <<"20240229T233000", "FIXED-0100">>, <<"20240301T003000", "FIXED+0100">>, <<"20230301T003000", "FIXED+0100">>,
                  <<"20240131T235959.9", "UTC">>, <<"20240131T235959.999999999", "LOCAL">>, <<"20240131T235959.5", "Asia/Kolkata">>, <<"20240131T235959.000000001", "FIXED+0530">>>>
BigU == "18446744073709551615"
ValDuration == <<<<"+", "0", "0", "0", "0", "0">>, <<"-", "0", "0", "0", "0", "0">>, <<"+", "1", "0", "0", "0", "0">>, <<"-", "2", "0", "0", "0", "0">>, <<"+", "0", BigU, BigU, BigU, BigU>>, <<"+", BigU, "0", "0", "0", "0">>,
                 <<"+", "1", "1", "0", "0", "0">>, <<"+", "1", "0", "1", "0", "0">>, <<"+", "1", "0", "0", "1", "0">>, <<"+", "1", "0", "0", "0", "1">>, <<"-", "1", "1", "1", "1", "1">>>>
               \o Concat([w \in 1..16 |-> LET bit(p) == IF ((w - 1) \div p) % 2 = 1 THEN ToString(10 * p + p) ELSE "0"
                                          IN <<<<"+", "0", bit(1), bit(2), bit(4), bit(8)>>, <<"-", "0", bit(1), bit(2), bit(4), bit(8)>>>>])
ValPeriod == <<<<"20240101T000000", "UTC", "20240102T000000">>, <<"20240101T000000", "UTC", "20240101T000001">>, <<"20240101T000000", "UTC", "20240101T000000">>, <<"20240102T000000", "UTC", "20240101T000000">>,
               <<"20240101T000000", "LOCAL", "20240102T000000">>, <<"20240101T000000", "Asia/Tokyo", "20240102T000000">>, <<"20240101T000000", "UTC", "20240102T000000", "Asia/Tokyo">>,
               <<"20240101T000000", "Asia/Tokyo", "20240102T000000", "UTC">>, <<"20240101T000000", "Asia/Tokyo", "20240102T000000", "America/New_York">>, <<"20240101T010000", "FIXED+0530", "20240101T060000">>,
               <<"ZERO", "UTC", "20240102T000000">>, <<"ZERO", "UTC", "+", "0", "0", "1", "0", "0">>, <<"100000101T000000", "UTC", "100000102T000000">>, <<"99991231T000000", "UTC", "100000102T000000">>,
               <<"20240101T000000.7", "UTC", "20240101T000001.2">>, <<"20240101T000000.5", "Asia/Tokyo", "+", "0", "0", "1", "0", "0">>, <<"20240101T000000.2", "UTC", "20240101T000000.7">>,
               <<"20240101T000000.2", "FIXED+0530", "20240101T000000.7">>>>
             \o Concat([z \in 1..6 |-> LET zone == <<"UTC", "LOCAL", "America/New_York", "FIXED-0330", "Asia/Kolkata", "UTC">>[z]
                                       IN <<<<"20240101T000000", zone, "+", "0", "0", "1", "0", "0">>, <<"20240101T000000", zone, "+", "2", "0", "0", "0", "0">>, <<"20240101T000000", zone, "+", "0", "1", "2", "3", "4">>,
                                            <<"20240101T000000", zone, "-", "0", "0", "1", "0", "0">>, <<"20240101T000000", zone, "+", "1", "1", "0", "0", "0">>>>])
ValOffset == <<<<"+", "00", "00", "00">>, <<"+", "01", "00", "00">>, <<"-", "01", "00", "00">>, <<"-", "00", "00", "01">>, <<"+", "00", "00", "01">>, <<"-", "00", "30", "00">>, <<"+", "13", "45", "30">>, <<"-", "99", "59", "59">>,
               <<"+", "99", "59", "59">>, <<"+", "100", "00", "00">>, <<"-", "100", "00", "00">>, <<"+", "09", "05", "07">>, <<"-", "12", "00", "01">>, <<"+", "1000", "00", "00">>, <<"+", "10", "00", "00">>>>
\* Recurrence rules: every part alone, all together, and each list at and beyond its edges.
RecurParts == <<"COUNT=1", "COUNT=18446744073709551615", "UNTIL=20241231", "UNTIL=20241231T235959@UTC", "UNTIL=20241231T235959@LOCAL", "UNTIL=20241231T235959@Asia/Tokyo", "UNTIL=20241231T235959@FIXED+0530", "INTERVAL=1",
                "INTERVAL=18446744073709551615", "BYSECOND=0", "BYSECOND=0,59,60", "BYMINUTE=0,59", "BYHOUR=0,23", "BYDAY=SU", "BYDAY=1MO,-1TU,53WE,-53TH,FR,SA", "BYMONTHDAY=1,31,-1,-31", "BYYEARDAY=1,366,-1,-366", "BYWEEKNO=1,53,-1,-53",
                "BYMONTH=1,2,3,4,5,6,7,8,9,10,11,12", "BYSETPOS=1,366,-1,-366",
                "BYSECOND=60,30,0,30", "BYMINUTE=59,1,30", "BYHOUR=23,0,12,0", "BYDAY=SA,-1MO,FR,2MO,SU", "BYMONTHDAY=31,-31,15,1", "BYYEARDAY=366,-366,100,1", "BYWEEKNO=53,-53,20,1", "BYMONTH=12,3,1,3", "BYSETPOS=366,-366,2,1", "WKST=SU", "WKST=SA">>
BadParts == <<"BYSECOND=61", "BYSECOND=255", "BYSECOND=1,61", "BYMINUTE=60", "BYMINUTE=255", "BYMINUTE=0,60", "BYHOUR=24", "BYHOUR=255", "BYHOUR=24,1", "BYDAY=54MO", "BYDAY=-54MO", "BYDAY=127MO", "BYDAY=-128MO", "BYDAY=#0", "BYDAY=#8", "BYDAY=#255",
              "BYDAY=MO,#9", "BYMONTHDAY=0", "BYMONTHDAY=32", "BYMONTHDAY=-32", "BYMONTHDAY=127", "BYMONTHDAY=-128", "BYMONTHDAY=1,0", "BYYEARDAY=0", "BYYEARDAY=367", "BYYEARDAY=-367", "BYYEARDAY=32767", "BYYEARDAY=-32768", "BYYEARDAY=1,0",
              "BYWEEKNO=0", "BYWEEKNO=54", "BYWEEKNO=-54", "BYWEEKNO=127", "BYWEEKNO=1,0", "BYMONTH=0", "BYMONTH=13", "BYMONTH=255", "BYMONTH=12,13", "BYSETPOS=0", "BYSETPOS=367", "BYSETPOS=-367", "BYSETPOS=1,0", "WKST=#8", "WKST=#255",
              "UNTIL=100000101", "UNTIL=-00010101T000000@UTC">>
Freq(n) == "FREQ=" \o Nth(<<"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY">>, n)
PartKey(p) == Cut(p, Index(p, "=") - 1)
PartNo(p) == CHOOSE n \in 1..Len(RecurKeys) : RecurKeys[n] = PartKey(p)
ValRecur == [z \in 1..7 |-> <<Freq(z)>>] \o <<<<"FREQ=#7">>, <<"FREQ=#255">>>>
            \o [z \in 1..Len(RecurParts) |-> <<Freq(z), RecurParts[z]>>]
            \o [z \in 1..Len(BadParts) |-> <<Freq(z), BadParts[z]>>]
            \o <<<<"FREQ=DAILY", "UNTIL=20241231/003000/FIXED+1300">>, <<"FREQ=DAILY", "UNTIL=20241231/233000/America/New_York">>, <<"FREQ=WEEKLY", "UNTIL=20241231/233000/LOCAL", "WKST=MO">>,
                 <<"FREQ=DAILY", "UNTIL=20241231T120000.5@UTC">>, <<"FREQ=DAILY", "UNTIL=20241231T120000.5@FIXED+0530">>>>
            \o <<<<"FREQ=DAILY", "COUNT=1", "UNTIL=20241231">>, <<"FREQ=DAILY", "COUNT=1", "UNTIL=20241231T000000@UTC">>>>
            \o Concat([a \in 1..Len(RecurParts) |-> LET bs == SelectSeq([b \in 1..Len(RecurParts) |-> RecurParts[b]], LAMBDA q : PartNo(q) > PartNo(RecurParts[a]))
                                                    IN [b \in 1..Len(bs) |-> <<Freq(a + b), RecurParts[a], bs[b]>>]])
            \o [z \in 1..Len(RecurParts) |-> LET all == SelectSeq(RecurKeys, LAMBDA k : k \notin {"FREQ", "COUNT", "UNTIL"} \cup {PartKey(RecurParts[z])})
                                                 pick(k) == SelectSeq(RecurParts, LAMBDA q : PartKey(q) = k)
                                                 ps == <<Freq(z)>> \o [n \in 1..Len(all) |-> Nth(pick(all[n]), z)] \o <<RecurParts[z]>>
                                             IN SortSeq(ps, LAMBDA p, q : PartNo(p) < PartNo(q))]
Vals == ( "TEXT" :> ValText @@ "MTEXT" :> ValMText @@ "INTEGER" :> ValInteger @@ "GEO" :> ValGeo @@ "BOOLEAN" :> ValBoolean @@ "URI" :> ValUri @@ "CAL-ADDRESS" :> ValUri
       @@ "BINARY" :> ValBinary @@ "DATE" :> ValDate @@ "DATE-TIME" :> ValDateTime @@ "DURATION" :> ValDuration @@ "PERIOD" :> ValPeriod @@ "UTC-OFFSET" :> ValOffset
       @@ "RECUR" :> ValRecur )
EnumVals(d) == V(PropDef[d].e \o <<"#200", "#255", "#" \o ToString(Len(PropDef[d].e) + 1)>>)
ValsOf(d, t) == IF t = "ENUM" THEN EnumVals(d) ELSE Vals[t]
=============================================================================
