INIT Init
NEXT Next
INVARIANTS Emit
PROPERTY Separate
