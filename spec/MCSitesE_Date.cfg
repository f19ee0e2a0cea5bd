INIT InitDate
NEXT Next
VIEW View
INVARIANTS NothingWritten Reads RoundTrip Folds Emit
