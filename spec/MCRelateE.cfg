INIT Init
NEXT Next
VIEW View
INVARIANTS Writable NothingWritten Reads RoundTrip Folds Emit
