----------------------------- MODULE MC_Padding -----------------------------
(* All messages over {0, 1, 2, 3} up to length 5, all block sizes 1..4 and  *)
(* large block sizes for the inverse laws.                                  *)
EXTENDS Padding, TLC
VARIABLES m, bs
Init == m = <<>> /\ bs \in {1, 2, 3, 4, 8, 255}
Next == Len(m) < 5 /\ (\E b \in {0, 1, 2, 3, 255} : m' = Append(m, b)) /\ UNCHANGED bs
Spec == Init /\ [][Next]_<<m, bs>>
P == PKCS5Pad(m, bs)
Laws == /\ Len(P) % bs = 0 /\ Len(P) > Len(m) /\ Len(P) - Len(m) <= bs
        /\ IsPKCS5(P, bs) /\ PKCS5Unpad(P) = m
        /\ Len(ZeroPad(m, bs)) % bs = 0
        /\ ZeroUnpad(ZeroPad(m, bs), PadLen(Len(m), bs)) = m
===========================================================================
