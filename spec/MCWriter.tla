------------------------------ MODULE MCWriter ------------------------------
(* Encode as a sequence of calls of a writer: every way to cut the output   *)
(* into calls, and a failure in every call after any part of its data.      *)
EXTENDS Writing
VARIABLES output, delivered, wr
Texts == {"", "a", "ab", "abc", "abcd", "abcde", "aabab"}
Init == output \in Texts /\ delivered = "" /\ wr = WriterInit
Call == /\ wr.st = "open" /\ wr.ret = ""
        /\ \E n \in 1..(Len(output) - wr.done) :
              LET piece == SubSeq(output, wr.done + 1, wr.done + n)
              IN /\ Delivers(output, wr, piece)
                 /\ \/ wr' = WriteOk(wr, n) /\ delivered' = delivered \o piece
                    \/ \E m \in 0..n : wr' = WriteFails(wr, m) /\ delivered' = delivered \o SubSeq(piece, 1, m)
        /\ UNCHANGED output
Return == /\ wr.ret = "" /\ MayReturn(output, wr) /\ wr' = Returns(output, wr) /\ UNCHANGED <<output, delivered>>
Next == Call \/ Return
\* Whatever happens, what was delivered is a prefix of the output.
IsPrefix1 == SubSeq(output, 1, Len(delivered)) = delivered /\ Len(delivered) = wr.done
\* nil means that everything was delivered and no call failed, anything else is the writer's own error.
Honest == /\ wr.ret = "nil" => delivered = output /\ wr.st = "open"
          /\ wr.st = "failed" => wr.ret # "nil"
\* After a failure nothing more is delivered.
Final == [][wr.st = "failed" => delivered' = delivered]_<<output, delivered, wr>>
\* It can always return.
CanEnd == wr.ret # "" \/ ENABLED Next
=============================================================================
