INIT InitScalar
NEXT Whole
VIEW View
INVARIANTS NothingWritten Writable RoundTrip Emit
