-------------------------------- MODULE MCConc ------------------------------
(* Calls that run at the same time.  A Decode advances when its reader      *)
(* hands over a piece, an Encode when its writer takes one; the steps of    *)
(* different calls come in any order.                                       *)
EXTENDS Gen
VARIABLES running, order
\* The documents; the last one is broken.
DocLines == << CalHead \o SlimBlock("VEVENT", 2, Seed) \o FullBlock("VTIMEZONE", 1, Seed) \o CalTail,
               CalHead \o SlimBlock("VTODO", 1, Seed + 1) \o FullBlock("VFREEBUSY", 1, Seed + 2) \o CalTail,
               LET l == RandomDoc(Mix(Seed, 53)) IN SubSeq(l, 1, IF Len(l) < 11 THEN Len(l) - 2 ELSE 9) \o <<"UID:u", "UID:u", "END:VEVENT", "END:VCALENDAR">> >>
Outcomes == [y \in 1..Len(DocLines) |-> DecodeLines(DocLines[y])]
Encoded == [y \in 1..2 |-> EncodeLines(Outcomes[y].cal)]
Calls == <<"dec 1", "dec 2", "dec 3", "enc 1", "enc 2">>
DocOf(c) == Num(From(c, 5))
IsDec(c) == Cut(c, 3) = "dec"
\* In how many pieces, by the number of calls that run together.
Pieces(n) == IF n = 2 THEN IfThorough(5, 4) ELSE IfThorough(3, 2)
Piece(ls, p, n) == SubSeq(ls, ((p - 1) * Len(ls)) \div n + 1, (p * Len(ls)) \div n)
Choices1 == {s \in UNION {[1..n -> 1..Len(Calls)] : n \in 2..3} : \A x \in 1..(Len(s) - 1) : s[x] <= s[x + 1]}
\* All pairs; of the triples every third unless there is time.
ChoiceSeq == LET l == SetToSeq(Choices1) IN SelectSeq(l, LAMBDA s : Thorough \/ Len(s) = 2 \/ ((s[1] + 2 * s[2] + 4 * s[3] + Seed) % 3) = 0)
Idle(c) == [call |-> c, at |-> 0, dec |-> DecInit, out |-> <<>>]
Init == /\ \E z \in 1..Len(ChoiceSeq) : Mine(z) /\ running = [x \in DOMAIN ChoiceSeq[z] |-> Idle(Calls[ChoiceSeq[z][x]])]
        /\ order = <<>>
Advance(r, n) ==
    IF IsDec(r.call) THEN [r EXCEPT !.at = @ + 1, !.dec = Feed(@, Piece(DocLines[DocOf(r.call)], r.at + 1, n))]
    ELSE [r EXCEPT !.at = @ + 1, !.out = @ \o Piece(Encoded[DocOf(r.call)], r.at + 1, n)]
Next == \E x \in DOMAIN running :
          LET n == Pieces(Len(running))
          IN /\ running[x].at < n /\ running' = [running EXCEPT ![x] = Advance(@, n)] /\ order' = Append(order, ToString(x))
\* Each call has seen what it would have seen alone.
Alone == \A x \in DOMAIN running :
           LET r == running[x]
               n == Pieces(Len(running))
           IN IF IsDec(r.call) THEN r.at = n => Outcome(r.dec) = Outcomes[DocOf(r.call)]
              ELSE r.out = SubSeq(Encoded[DocOf(r.call)], 1, Len(r.out)) /\ (r.at = n => r.out = Encoded[DocOf(r.call)])
Done == \A x \in DOMAIN running : running[x].at = Pieces(Len(running))
Emit == Done => EmitCase([k |-> "s", note |-> "calls", st |-> "ok", ref |-> Pieces(Len(running)),
                             ops |-> [x \in DOMAIN running |-> running[x].call] \o <<"|">> \o order])
\* The documents themselves.
ASSUME \A y \in 1..Len(DocLines) : EmitCase([k |-> "d", note |-> "doc", ref |-> y, lines |-> DocLines[y], st |-> Outcomes[y].st, cal |-> Outcomes[y].cal])
ASSUME Outcomes[1].st = "ok" /\ Outcomes[2].st = "ok" /\ Outcomes[3].st = "no"
View == <<[x \in DOMAIN running |-> <<running[x].call, running[x].at>>], order>>
=============================================================================
