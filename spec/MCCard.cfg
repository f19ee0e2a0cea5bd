INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Nested Emit
PROPERTY Sticky
