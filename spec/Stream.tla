------------------------------- MODULE Stream -------------------------------
(* From octets to content lines: unfolding, line splitting, the content     *)
(* line grammar; and back: folding.                                         *)
EXTENDS Values

(* A fold is CR LF followed by one space or tab; it vanishes.  What is left *)
(* is not looked at again.                                                  *)
IsFold(s, i) == /\ SubSeq(s, i, i) = "\r" /\ i + 2 <= Len(s)
                /\ SubSeq(s, i + 1, i + 1) = "\n" /\ SubSeq(s, i + 2, i + 2) \in {" ", "\t"}
Unfold(s) ==
    LET a == FoldLeft(LAMBDA b, i : IF IsFold(s, i) THEN <<b[1] \o SubSeq(s, b[2], i - 1), i + 3>> ELSE b, <<"", 1>>, [i \in 1..Len(s) |-> i])
    IN IF a[2] = 1 THEN s ELSE a[1] \o From(s, a[2])

(* The same one character at a time: o is what came out, h what is held     *)
(* back because it may turn out to be the beginning of a fold.              *)
UnfoldStep(a, c) ==
    CASE a.h = "" -> IF c = "\r" THEN [a EXCEPT !.h = "\r"] ELSE [a EXCEPT !.o = @ \o c]
      [] a.h = "\r" -> IF c = "\n" THEN [a EXCEPT !.h = "\r\n"]
                       ELSE IF c = "\r" THEN [a EXCEPT !.o = @ \o "\r"]
                       ELSE [o |-> a.o \o "\r" \o c, h |-> ""]
      [] a.h = "\r\n" -> IF c \in {" ", "\t"} THEN [a EXCEPT !.h = ""]
                         ELSE IF c = "\r" THEN [o |-> a.o \o "\r\n", h |-> "\r"]
                         ELSE [o |-> a.o \o "\r\n" \o c, h |-> ""]
UnfoldStart == [o |-> "", h |-> ""]
UnfoldEnd(a) == a.o \o a.h

(* Split at CR LF.  A last line without CR LF counts unless it is empty.    *)
SplitLines(s) ==
    LET a == FoldLeft(LAMBDA b, i : IF SubSeq(s, i, i) = "\n" /\ i > b[2] /\ SubSeq(s, i - 1, i - 1) = "\r"
                                    THEN <<Append(b[1], SubSeq(s, b[2], i - 2)), i + 1>> ELSE b,
                      <<<<>>, 1>>, [i \in 1..Len(s) |-> i])
    IN IF a[2] > Len(s) THEN a[1] ELSE Append(a[1], From(s, a[2]))

(* The content line grammar as an automaton.  `at' is where the current     *)
(* piece began.  Result: [ok, n, a, v] with a the sequence of parameters    *)
(* [n, vs], vs the sequence of [q, d].                                      *)
LexInit == [st |-> "name", n |-> "", a |-> <<>>, pn |-> "", vs |-> <<>>, at |-> 1]
LexBad(a) == [a EXCEPT !.st = "bad"]
\* A parameter value is complete before position i; what may follow is `next'.
LexEndValue(s, a, i, next) ==
    LET v == IF a.st = "closed" THEN [q |-> TRUE, d |-> SubSeq(s, a.at + 1, i - 2)] ELSE [q |-> FALSE, d |-> SubSeq(s, a.at, i - 1)]
        vs == Append(a.vs, v)
    IN IF next = "pval0" THEN [a EXCEPT !.st = next, !.vs = vs, !.at = i + 1]
       ELSE [a EXCEPT !.st = next, !.a = Append(@, [n |-> a.pn, vs |-> vs]), !.vs = <<>>, !.at = i + 1]
LexStep(s, a, i) ==
    LET c == SubSeq(s, i, i)
    IN CASE a.st = "bad" -> a
         [] a.st = "value" -> IF c \in ControlSet THEN LexBad(a) ELSE a
         [] a.st = "name" -> IF c \in NameSet THEN a
                             ELSE IF i = 1 THEN LexBad(a)
                             ELSE IF c = ";" THEN [a EXCEPT !.st = "pname", !.n = Cut(s, i - 1), !.at = i + 1]
                             ELSE IF c = ":" THEN [a EXCEPT !.st = "value", !.n = Cut(s, i - 1), !.at = i + 1]
                             ELSE LexBad(a)
         [] a.st = "pname" -> IF c \in NameSet THEN a
                              ELSE IF c = "=" /\ i > a.at THEN [a EXCEPT !.st = "pval0", !.pn = SubSeq(s, a.at, i - 1), !.at = i + 1]
                              ELSE LexBad(a)
         [] a.st = "quoted" -> IF c = "\"" THEN [a EXCEPT !.st = "closed"]
                               ELSE IF c \in ControlSet THEN LexBad(a) ELSE a
         [] OTHER -> \* pval0 (at the start of a value), pval, closed (after the closing quote)
              IF c = "," THEN LexEndValue(s, a, i, "pval0")
              ELSE IF c = ";" THEN LexEndValue(s, a, i, "pname")
              ELSE IF c = ":" THEN LexEndValue(s, a, i, "value")
              ELSE IF a.st = "closed" THEN LexBad(a)
              ELSE IF c = "\"" THEN (IF a.st = "pval0" THEN [a EXCEPT !.st = "quoted"] ELSE LexBad(a))
              ELSE IF c \in ControlSet THEN LexBad(a)
              ELSE IF a.st = "pval" THEN a ELSE [a EXCEPT !.st = "pval"]
LexResult(s, a) == [ok |-> a.st = "value", n |-> a.n, a |-> a.a, v |-> IF a.st = "value" THEN From(s, a.at) ELSE ""]
Lex(s) == LexResult(s, FoldLeft(LAMBDA a, i : LexStep(s, a, i), LexInit, [i \in 1..Len(s) |-> i]))

(* Folding: a line is broken before a character that would make it longer   *)
(* than 75 octets; continuation lines start with one space.                 *)
MaxLine == 75
\* Physical lines of a content line.
FoldLine(s) ==
    LET step(a, i) == LET o == Octets(SubSeq(s, i, i))
                      IN IF a.w + o > MaxLine
                         THEN [l |-> Append(a.l, a.x \o SubSeq(s, a.at, i - 1)), at |-> i, w |-> 1 + o, x |-> " "]
                         ELSE [a EXCEPT !.w = @ + o]
        a == FoldLeft(step, [l |-> <<>>, at |-> 1, w |-> 0, x |-> ""], [i \in 1..Len(s) |-> i])
    IN Append(a.l, a.x \o From(s, a.at))
Physical(lines) == Concat([i \in 1..Len(lines) |-> FoldLine(lines[i])])
Wire(lines) == FoldLeft(LAMBDA a, x : a \o x \o "\r\n", "", lines)
WireFolded(lines) == Wire(Physical(lines))

\* What must hold of written output.
GoodLines(phys) == \A i \in 1..Len(phys) : OctetLen(phys[i]) <= MaxLine /\ ~Has(phys[i], ControlSet)
WellFormedOutput(s) ==
    LET phys == SplitLines(s)
    IN /\ Len(s) >= 2 /\ From(s, Len(s) - 1) = "\r\n"
       /\ GoodLines(phys)
=============================================================================
