INIT Init
NEXT Next
INVARIANTS Uniform Emit
CONSTANT Topic = "Line"
