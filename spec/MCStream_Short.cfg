INIT InitShort
NEXT Next
INVARIANTS HoldsBack Prefix SameAsWhole Complete1 Emit
