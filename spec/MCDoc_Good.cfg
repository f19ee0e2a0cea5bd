INIT Good1
NEXT Next
VIEW View
INVARIANTS TypeOK Nested Stable Emit
PROPERTY Sticky
