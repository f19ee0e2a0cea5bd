INIT Init
NEXT Decide
VIEW View
INVARIANTS NothingWritten Emit
