INIT Init
NEXT Next
INVARIANTS Carets Emit
