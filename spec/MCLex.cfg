INIT Init
NEXT Next
INVARIANTS Faithful Rejects Emit
