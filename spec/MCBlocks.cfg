INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Nested AllGood Stable Emit
PROPERTY Sticky
