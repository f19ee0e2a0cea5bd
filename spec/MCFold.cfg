INIT Init
NEXT Whole
VIEW View
INVARIANTS Back Reread Emit
