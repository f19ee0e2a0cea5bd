INIT Init
NEXT Next
VIEW View
INVARIANTS Emit
