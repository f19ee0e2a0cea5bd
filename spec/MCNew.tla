-------------------------------- MODULE MCNew -------------------------------
(* The constructors for optional values.  Each call makes a new cell that   *)
(* holds its argument; assigning to a cell changes no other one.            *)
EXTENDS Gen
VARIABLES maker, cells, log, shots, wide
Makers == <<"CommonName", "DirectoryEntry", "FormatType", "Language", "Member", "RSVP", "SentBy", "TimezoneID", "ID", "AgentID",
            "PercentComplete", "Priority", "Repeat", "Sequence",
            "CalendarUserType", "Encoding", "FreeBusyType", "ParticipationStatus", "Related", "RelationshipType", "ParticipationRole", "Value",
            "Action", "CalendarScale", "Class", "Status", "TimeTransparency", "AlarmStatus">>
\* Few values in long histories, many in short ones.
Few == 0..2
Many == 0..11
Bound == IfThorough(5, 4)
Short == 2
Init == wide \in BOOLEAN /\ maker \in ToSet(Part(Makers)) /\ cells = <<>> /\ log = <<>> /\ shots = <<>>
Shot(cs) == Join([x \in 1..Len(cs) |-> ToString(cs[x])], " ")
Make(v) == cells' = Append(cells, v) /\ log' = Append(log, "new " \o ToString(v))
Assign(x, v) == cells' = [cells EXCEPT ![x] = v] /\ log' = Append(log, "set " \o ToString(x) \o " " \o ToString(v))
Vals == IF wide THEN Many ELSE Few
Longest == IF wide THEN Short ELSE Bound
Next == /\ Len(log) < Longest
        /\ \E v \in Vals : Make(v) \/ \E x \in DOMAIN cells : Assign(x, v)
        /\ shots' = Append(shots, Shot(cells'))
        /\ UNCHANGED <<maker, wide>>
\* Only the cell that was assigned to changes, and new ones are added at the end.
Separate == [][LET l == Last(log')
               IN \A x \in DOMAIN cells : cells'[x] # cells[x] => \E v \in Many : l = "set " \o ToString(x) \o " " \o ToString(v)]_<<maker, cells, log, shots, wide>>
Emit == Len(log) = Longest => EmitCase([k |-> "n", note |-> maker, st |-> "ok", ops |-> log, same |-> shots])
=============================================================================
