INIT Init
NEXT Next
INVARIANTS Escapes Emit
