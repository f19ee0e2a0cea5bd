INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Nested Stable Emit
PROPERTY Sticky
