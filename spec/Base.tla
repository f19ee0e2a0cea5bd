-------------------------------- MODULE Base --------------------------------
(* Characters, strings and small helpers shared by every module.            *)
(*                                                                          *)
(* Operators on strings work with positions where they can: TLC keeps every *)
(* string it ever builds.                                                   *)
(*                                                                          *)
(* TLA+ strings hold one character per UTF-16 unit, so characters that TLC  *)
(* cannot hold or print well are written as stand-ins which the harness     *)
(* translates both ways: U+2400+n is the control character n, U+2421 is     *)
(* DEL, U+2426 is an octet that is not UTF-8, U+2477 is a 4-octet character *)
(* (U+1F600).  Tab, CR and LF are themselves.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
FoldS(op(_, _), init, s) == FoldLeft(op, init, Chars(s))
Last1(s) == SubSeq(s, Len(s), Len(s))
Cut(s, n) == SubSeq(s, 1, n)             \* first n characters
From(s, n) == SubSeq(s, n, Len(s))       \* from character n on
StartsWith(s, p) == Len(s) >= Len(p) /\ Cut(s, Len(p)) = p

CharSet(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

LowerChars == "abcdefghijklmnopqrstuvwxyz"
UpperChars == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerSet == CharSet(LowerChars)
UpperSet == CharSet(UpperChars)
DigitSet == CharSet("0123456789")
NameSet == LowerSet \cup UpperSet \cup DigitSet \cup {"-"}

UpperMap == [c \in LowerSet |->
    LET i == CHOOSE i \in 1..26 : SubSeq(LowerChars, i, i) = c IN SubSeq(UpperChars, i, i)]
LowerMap == [c \in UpperSet |->
    LET i == CHOOSE i \in 1..26 : SubSeq(UpperChars, i, i) = c IN SubSeq(LowerChars, i, i)]

Has(s, set) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in set
All(s, set) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in set

Upper(s) == IF ~Has(s, LowerSet) THEN s
            ELSE FoldS(LAMBDA a, c : a \o (IF c \in LowerSet THEN UpperMap[c] ELSE c), "", s)
Lower(s) == IF ~Has(s, UpperSet) THEN s
            ELSE FoldS(LAMBDA a, c : a \o (IF c \in UpperSet THEN LowerMap[c] ELSE c), "", s)
Alternate(s) == \* aLtErNaTiNg case
    FoldLeft(LAMBDA a, i : a \o (IF i % 2 = 0 THEN Upper(SubSeq(s, i, i)) ELSE Lower(SubSeq(s, i, i))),
             "", [i \in 1..Len(s) |-> i])

\* Control characters that may not occur in a value (tab is allowed).
ControlSet == CharSet("␀␁␂␃␄␅␆␇␈␋␌␎␏␐␑␒␓␔␕␖␗␘␙␚␛␜␝␞␟␡") \cup {"\r", "\n"}
\* ... of those, the ones that may not occur in a text either (LF is escaped).
BadTextSet == ControlSet \ {"\n"}

\* Number of octets of a character in UTF-8.
\* Stand-ins: U+FEFF, U+2028, U+0085, U+1F600, U+FFFD, U+00A0, U+10FFFF, U+0301, U+200B.
OddChars == <<"⑴", "⑵", "⑶", "⑷", "⑸", "⑹", "⑺", "⑻", "⑼">>
TwoOctets == CharSet("éßñüøЖ§⑶⑹⑻")
ThreeOctets == CharSet("€中—⑴⑵⑸⑼")
Octets(c) == IF c \in TwoOctets THEN 2 ELSE IF c \in ThreeOctets THEN 3
             ELSE IF c \in {"⑷", "⑺"} THEN 4 ELSE 1
OctetLen(s) == FoldS(LAMBDA n, c : n + Octets(c), 0, s)

IsDigits(s) == Len(s) > 0 /\ All(s, DigitSet)

DigitVal == [c \in DigitSet |-> (CHOOSE i \in 1..10 : SubSeq("0123456789", i, i) = c) - 1]
\* Value of a digit string of at most 9 digits.
Num(s) == FoldS(LAMBDA n, c : 10 * n + DigitVal[c], 0, s)

\* Decimal numbers of any size are kept as digit strings without leading zeros.
Strip0(s) == LET k == FoldLeft(LAMBDA n, i : IF n = i - 1 /\ SubSeq(s, i, i) = "0" THEN i ELSE n,
                               0, [i \in 1..Len(s) |-> i])
             IN IF k = Len(s) THEN "0" ELSE From(s, k + 1)
LeqDigits(a, b) == \* both without leading zeros
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E i \in 1..Len(a) : /\ Cut(a, i - 1) = Cut(b, i - 1)
                                  /\ DigitVal[SubSeq(a, i, i)] < DigitVal[SubSeq(b, i, i)]

\* Split at every occurrence of a separator character.
Split(s, sep) ==
    LET r == FoldLeft(LAMBDA a, i : IF SubSeq(s, i, i) = sep THEN <<Append(a[1], SubSeq(s, a[2], i - 1)), i + 1>> ELSE a,
                      <<<<>>, 1>>, [i \in 1..Len(s) |-> i])
    IN Append(r[1], From(s, r[2]))
\* Position of the first separator, or 0.
Index(s, sep) == FoldLeft(LAMBDA n, i : IF n = 0 /\ SubSeq(s, i, i) = sep THEN i ELSE n, 0,
                          [i \in 1..Len(s) |-> i])
Join(l, sep) == FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN sep ELSE "") \o l[i], "",
                         [i \in 1..Len(l) |-> i])
Rep(s, n) == FoldLeft(LAMBDA a, i : a \o s, "", [i \in 1..n |-> i])
Concat(l) == FoldLeft(LAMBDA a, x : a \o x, <<>>, l)

\* Functions with string keys.
Empty == <<>>
Put(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Push(f, k, x) == Put(f, k, IF k \in DOMAIN f THEN Append(f[k], x) ELSE <<x>>)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Drop(f, ks) == [j \in DOMAIN f \ ks |-> f[j]]

(* Reproducible pseudo-random choices in 0..46336, derived from a seed.      *)
Mix(x, k) == LET y == ((x % 46337) * 31 + (k % 46337) * 7919 + 1) % 46337
                 z == (y * y + 12345 + (k % 997)) % 46337
                 u == (z * 20687 + 17) % 46337
             IN (u * u + 7 * y) % 46337
Pick(seq, x) == seq[((x \div 3) % Len(seq)) + 1]

EmitCase(x) == PrintT("@" \o ToJson(x))
=============================================================================
