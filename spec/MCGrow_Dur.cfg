INIT InitDur
NEXT Next
INVARIANTS Hopes Rewrites Emit
