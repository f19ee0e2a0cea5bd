INIT Init
NEXT Next
INVARIANTS Depth Emit
