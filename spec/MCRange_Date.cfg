INIT InitDate
NEXT Whole
VIEW View
INVARIANTS TypeOK Nested Stable Emit
PROPERTY Sticky
