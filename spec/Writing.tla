------------------------------ MODULE Writing -------------------------------
(* Encode and the writer it writes to.  The writer may fail in any call,    *)
(* having taken some of the data.  w: [done: number of characters delivered, *)
(* st: "open", "failed", ret: what Encode returned ("" while it runs)].     *)
EXTENDS Calendar
WriterInit == [done |-> 0, st |-> "open", ret |-> ""]
\* A call that delivers `chunk' of the output `full'.
Delivers(full, w, chunk) == SubSeq(full, w.done + 1, w.done + Len(chunk)) = chunk
WriteOk(w, n) == [w EXCEPT !.done = @ + n]
WriteFails(w, n) == [w EXCEPT !.done = @ + n, !.st = "failed"]
Returns(full, w) == [w EXCEPT !.ret = IF w.st = "failed" THEN "own" ELSE "nil"]
\* Encode may return nil only with everything delivered; it may return an error only when the writer failed.
MayReturn(full, w) == w.st = "failed" \/ w.done = Len(full)
=============================================================================
