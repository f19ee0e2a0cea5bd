------------------------------ MODULE MCSchema ------------------------------
(* Exports the tables of the specification for the harness, and checks that *)
(* they are consistent.                                                     *)
EXTENDS Gen
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME \A k \in Comps : \A i \in 1..Len(CompDef[k].ps) : CompDef[k].ps[i].d \in DOMAIN PropDef
ASSUME \A k \in Comps : \A i, j \in 1..Len(CompDef[k].ps) : CompDef[k].ps[i].n = CompDef[k].ps[j].n => i = j
ASSUME \A p \in DOMAIN PropDef : \A i \in 1..Len(PropDef[p].a) : PropDef[p].a[i] \in DOMAIN ParamDef
ASSUME \A k \in Comps : \A i \in 1..Len(CompDef[k].rules) : \A j \in {2, 3} :
          CompDef[k].rules[i][j] \in DOMAIN PropsOf[k] \cup ToSet(CompDef[k].subs)
\* Every written sample has a meaning, and so has every document made of them.
ASSUME \A d \in DOMAIN PropDef : \A j \in 1..12 :
          LET l == Lex("X" \o Rest(d, j, PropDef[d].a)) IN l.ok /\ ParseInst(d, l.a, l.v).st = "ok"
ASSUME \A i \in 1..Len(SiteSeq) : \A j \in 1..3 : DecodeLines(SiteDoc(SiteSeq[i][1], SiteSeq[i][2], j)).st = "ok"
ASSUME \A j \in 1..3 : DecodeLines(FullDoc(Seed + j)).st = "ok"
ASSUME EmitCase(SchemaJson)
=============================================================================
