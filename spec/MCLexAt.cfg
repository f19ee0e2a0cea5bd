INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK Nested NoneSlips Emit
PROPERTY Sticky
