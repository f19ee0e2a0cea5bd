INIT Init
NEXT Next
VIEW View
INVARIANTS Sound Emit
