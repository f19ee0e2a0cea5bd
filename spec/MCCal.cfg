INIT Init
NEXT Whole
VIEW View
INVARIANTS Back FoldedBack Emit
