INIT Init
NEXT Next
INVARIANTS IsPrefix1 Honest CanEnd
PROPERTY Final
