INIT Init
NEXT Next
VIEW View
INVARIANTS Alone Emit
