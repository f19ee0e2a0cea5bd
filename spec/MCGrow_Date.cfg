INIT InitDate
NEXT Next
INVARIANTS Hopes Rewrites Emit
