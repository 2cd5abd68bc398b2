------------------------------- MODULE MC_EC -------------------------------
(* Group laws on small curves, exhaustively; the accelerators against the   *)
(* definitions, also on the SM2 curve; the published parameters.            *)
EXTENDS SM2Curves, TLC, FiniteSets

N(n) == BNFromNat(n)
Points(c) == { <<N(i), N(j)>> : i, j \in 0..(BNToNat(c.p) - 1) }
Curves == {1, 2, 3, 4}
PtsOf == [k \in Curves |-> {Q \in Points(Curve(k)) : OnCurve(Curve(k), Q)} \cup {Infinity}]

\* the whole group has prime order n and is generated by G
ASSUME Orders == \A k \in Curves :
    LET c == Curve(k) IN
    /\ Cardinality(PtsOf[k]) = BNToNat(c.n)
    /\ PtsOf[k] = { ECMulDef(c, N(i), G(c)) : i \in 0..(BNToNat(c.n) - 1) }
    /\ ECMulDef(c, c.n, G(c)) = Infinity
ASSUME Recommended ==
    LET c == SM2Curve IN
    /\ OnCurve(c, G(c)) /\ ECMul(c, c.n, G(c)) = Infinity
    /\ BNAdd(c.a, <<3>>) = c.p
    /\ BNBitLen(c.p) = 256 /\ BNBitLen(c.n) = 256
    /\ ECMul(c, <<77, 2, 255>>, G(c)) = ECMulDef(c, <<77, 2, 255>>, G(c))
ASSUME Toys == \A k \in 1..Len(ToyCurves) :
    LET c == Curve(k) IN OnCurve(c, G(c)) /\ ECMul(c, c.n, G(c)) = Infinity

VARIABLES k, P, Q
Init == k \in Curves /\ P \in PtsOf[k] /\ Q = <<0>>
Next == Q = <<0>> /\ Q' \in PtsOf[k] /\ UNCHANGED <<k, P>>
Spec == Init /\ [][Next]_<<k, P, Q>>
C == Curve(k)
Group == Q # <<0>> =>
         /\ ECAdd(C, P, Q) \in PtsOf[k]
         /\ ECAdd(C, P, Q) = ECAdd(C, Q, P)
         /\ ECAdd(C, P, ECNeg(C, P)) = Infinity
         /\ \A R \in {G(C), ECAdd(C, G(C), G(C)), Q} :
               ECAdd(C, ECAdd(C, P, Q), R) = ECAdd(C, P, ECAdd(C, Q, R))
         /\ ECMul(C, <<5>>, ECAdd(C, P, Q)) = ECAdd(C, ECMul(C, <<5>>, P), ECMul(C, <<5>>, Q))
Agree == Q # <<0>> =>
         /\ ECAdd(C, P, Q) = ECAddDef(C, P, Q)
         /\ \A i \in {0, 1, 2, 3, 7, 16} : ECMul(C, N(i), P) = ECMulDef(C, N(i), P)
===========================================================================
