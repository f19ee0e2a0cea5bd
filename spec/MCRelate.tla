------------------------------ MODULE MCRelate ------------------------------
(* Properties that no rule connects make no difference to each other.       *)
EXTENDS DecMachine, Relations
Init == Start(RelatedDocs)
=============================================================================
