INIT InitRecur
NEXT Next
INVARIANTS Hopes Rewrites Emit
