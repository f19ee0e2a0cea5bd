-------------------------------- MODULE MCHist ------------------------------
(* Histories of calls.  A slot holds a calendar that was decoded; what a    *)
(* call returns depends on its argument only, and no call changes a slot it *)
(* was not told to change.                                                  *)
EXTENDS Gen
VARIABLES past, held
Slots == 1..2
Docs == 1..3
\* Different documents with values of every kind.  The last one is broken.
DocLines == << CalHead \o SlimBlock("VEVENT", 2, Seed) \o FullBlock("VTIMEZONE", 1, Seed) \o CalTail,
               CalHead \o SlimBlock("VTODO", 2, Seed + 1) \o FullBlock("VFREEBUSY", 1, Seed + 2) \o CalTail, RandomDoc(Mix(Seed, 42)),
               SubSeq(FullDoc(Seed + 1), 1, 40) \o <<"UID:again">> >>
Wild == 99
Init == past = <<>> /\ held = [x \in Slots |-> 0]
Bound == IfThorough(6, 4)
\* The calls, with the slot and the document.
Decode(x, y) == held' = [held EXCEPT ![x] = y] /\ past' = Append(past, "dec " \o ToString(x) \o " " \o ToString(y))
\* A call that fails changes nothing
DecodeBroken == UNCHANGED held /\ past' = Append(past, "bad")
Encode(x) == held[x] \in Docs /\ UNCHANGED held /\ past' = Append(past, "enc " \o ToString(x))
EncodeFails(x) == held[x] \in Docs /\ UNCHANGED held /\ past' = Append(past, "fail " \o ToString(x))
\* The owner writes to everything the calendar in a slot refers to.
Scribble(x) == held[x] \in Docs /\ held' = [held EXCEPT ![x] = Wild] /\ past' = Append(past, "scribble " \o ToString(x))
\* The same document in both slots, of a slot decoded from what was written
Again(x, y) == x # y /\ held[x] \in Docs /\ held' = [held EXCEPT ![y] = held[x]] /\ past' = Append(past, "again " \o ToString(x) \o " " \o ToString(y))
Step == \/ \E x \in Slots, y \in Docs : Decode(x, y)
        \/ DecodeBroken
        \/ \E x \in Slots : Encode(x) \/ EncodeFails(x) \/ Scribble(x)
        \/ \E x, y \in Slots : Again(x, y)
\* The first call decodes the first or second document; the parts are told apart by the second.
Next == /\ Len(past) < Bound
        /\ Step
        /\ (past = <<>> => held'[1] \in {1, 2})
        /\ (Len(past) = 1 => Mine(Len(Last(past')) + held'[1] + held'[2] + 2 * held[1]))
\* Only the calls that say so change a slot.
Isolated == [][\A x \in Slots : held'[x] # held[x] => Last(past') \in {"dec " \o ToString(x) \o " " \o ToString(y) : y \in Docs}
                   \cup {"scribble " \o ToString(x)} \cup {"again " \o ToString(y) \o " " \o ToString(x) : y \in Slots}]_<<past, held>>
Outcomes == [y \in 1..Len(DocLines) |-> DecodeLines(DocLines[y])]
ASSUME \A y \in Docs : Outcomes[y].st = "ok" /\ Outcomes[4].st = "no"
\* The documents themselves.
ASSUME \A y \in 1..Len(DocLines) : EmitCase([k |-> "d", note |-> "doc", ref |-> y, lines |-> DocLines[y], st |-> Outcomes[y].st, cal |-> Outcomes[y].cal])
Emit == Len(past) = Bound => EmitCase([k |-> "h", note |-> "history", st |-> "ok", ops |-> past])
=============================================================================
