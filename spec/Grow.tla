------------------------------- MODULE Grow ---------------------------------
(* Strings that grow token by token inside a fixed document.  A family is a *)
(* record [before, pre, tok, max, post, after]: the lines before the line,  *)
(* its fixed beginning, the tokens (for the first, second, ... position; the *)
(* last list serves for the rest), how many of them, its fixed end, and the *)
(* lines after it.                                                          *)
EXTENDS Gen
VARIABLES family, grown, size
vars == <<family, grown, size>>

InEvent(pre, tok, max, post) == [before |-> EventHead, pre |-> pre, tok |-> <<tok>>, max |-> max, post |-> post, after |-> EventTail]
InTodo(pre, tok, max, post) == [before |-> CalHead \o <<"BEGIN:VTODO", "UID:t", "DTSTAMP:20240101T000000Z", "DTSTART:20240101T000000Z">>,
                                pre |-> pre, tok |-> <<tok>>, max |-> max, post |-> post, after |-> <<"END:VTODO">> \o CalTail]
Staged(pre, toks, post) == [before |-> EventHead, pre |-> pre, tok |-> toks, max |-> Len(toks), post |-> post, after |-> EventTail]
GrowInit(F) == family \in DOMAIN F /\ grown = "" /\ size = 0
\* The parts of the work are told apart by the first token.  Go(f, s): whether to continue from s.
GrowNext(F, Go(_, _)) ==
    /\ size < F[family].max
    /\ Go(family, grown)
    /\ LET toks == F[family].tok[IF size < Len(F[family].tok) THEN size + 1 ELSE Len(F[family].tok)]
       IN \E j \in 1..Len(toks) : (size = 0 => Mine(j)) /\ grown' = grown \o toks[j]
    /\ size' = size + 1
    /\ UNCHANGED family
GrowLine(F) == F[family].pre \o grown \o F[family].post
\* B: for each family the decoder after the lines before.
GrowBefore(F) == [f \in DOMAIN F |-> Feed(DecInit, F[f].before)]
GrowResult(F, B) == Outcome(Feed(B[family], <<GrowLine(F)>> \o F[family].after))
GrowEmit(F, B) == (size > 0 \/ Mine(1)) =>
    LET r == GrowResult(F, B)
    IN EmitCase([k |-> "d", note |-> family \o ": " \o GrowLine(F), lines |-> F[family].before \o <<GrowLine(F)>> \o F[family].after, st |-> r.st, cal |-> r.cal])
Always(f, x) == TRUE
=============================================================================
