INIT InitAmount
NEXT Next
VIEW View
INVARIANTS NothingWritten Reads RoundTrip Folds Emit
