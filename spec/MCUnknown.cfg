INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Nested NoEffect Emit
PROPERTY Sticky
