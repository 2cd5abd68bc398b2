------------------------------ MODULE Padding ------------------------------
(***************************************************************************)
(* util padding, over an explicit memory model: a caller's slice is a      *)
(* window of length n at the start of a backing array; the bytes behind    *)
(* the window (spare capacity) belong to the caller too.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

PadLen(n, bs) == bs - (n % bs)
PKCS5Pad(m, bs) == LET p == PadLen(Len(m), bs) IN m \o [i \in 1..p |-> p]
ZeroPad(m, bs) == m \o [i \in 1..PadLen(Len(m), bs) |-> 0]
\* inverse on padded values
IsPKCS5(m, bs) == /\ m # <<>> /\ Len(m) % bs = 0
                  /\ m[Len(m)] \in 1..bs /\ m[Len(m)] <= Len(m)
                  /\ \A i \in (Len(m) - m[Len(m)] + 1)..Len(m) : m[i] = m[Len(m)]
PKCS5Unpad(m) == SubSeq(m, 1, Len(m) - m[Len(m)])
ZeroUnpad(m, n) == SubSeq(m, 1, Len(m) - n)
===========================================================================
