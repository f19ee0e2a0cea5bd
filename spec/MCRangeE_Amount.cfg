INIT InitAmount
NEXT Whole
VIEW View
INVARIANTS NothingWritten Writable RoundTrip Emit
