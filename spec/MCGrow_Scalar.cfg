INIT InitScalar
NEXT Next
INVARIANTS Hopes Rewrites Emit
