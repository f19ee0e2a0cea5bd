INIT InitText
NEXT Next
VIEW View
INVARIANTS NothingWritten Reads RoundTrip Folds Emit
