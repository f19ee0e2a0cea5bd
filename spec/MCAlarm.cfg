INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Nested KindOf Emit
PROPERTY Sticky
