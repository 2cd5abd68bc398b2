-------------------------------- MODULE EC --------------------------------
(***************************************************************************)
(* Points of a short Weierstrass curve y^2 = x^3 + ax + b over GF(p) in    *)
(* affine coordinates; the point at infinity is <<>>.  A curve is a record *)
(* [p, a, b, n, gx, gy] of big naturals, so that the same specification    *)
(* runs on the SM2 recommended curve and on toy curves.                    *)
(***************************************************************************)
EXTENDS BigNat

Infinity == <<>>
OnCurve(c, P) ==
    /\ Len(P) = 2
    /\ BNLt(P[1], c.p) /\ BNLt(P[2], c.p)
    /\ BNModMul(P[2], P[2], c.p) =
          BNModAdd(BNModAdd(BNModMul(BNModMul(P[1], P[1], c.p), P[1], c.p),
                            BNModMul(c.a, P[1], c.p), c.p), c.b, c.p)

G(c) == <<c.gx, c.gy>>

LOCAL FromSlope(c, lam, P, Q) ==
    LET x3 == BNModSub(BNModSub(BNModMul(lam, lam, c.p), P[1], c.p), Q[1], c.p)
    IN  << x3, BNModSub(BNModMul(lam, BNModSub(P[1], x3, c.p), c.p), P[2], c.p) >>

ECDoubleDef(c, P) ==
    IF P = <<>> \/ P[2] = <<>> THEN <<>>
    ELSE LET num == BNModAdd(BNModMul(<<3>>, BNModMul(P[1], P[1], c.p), c.p), c.a, c.p)
             lam == BNModMul(num, BNModInv(BNModAdd(P[2], P[2], c.p), c.p), c.p)
         IN  FromSlope(c, lam, P, P)

ECAddDef(c, P, Q) ==
    IF P = <<>> THEN Q
    ELSE IF Q = <<>> THEN P
    ELSE IF P[1] = Q[1]
         THEN IF P[2] = Q[2] THEN ECDoubleDef(c, P) ELSE <<>>
    ELSE LET lam == BNModMul(BNModSub(Q[2], P[2], c.p),
                             BNModInv(BNModSub(Q[1], P[1], c.p), c.p), c.p)
         IN  FromSlope(c, lam, P, Q)
ECAdd(c, P, Q) == ECAddDef(c, P, Q)

\* [k]P by double-and-add
ECMulDef(c, k, P) ==
    FoldLeft(LAMBDA acc, bit : LET d == ECDoubleDef(c, acc)
                               IN IF bit = 1 THEN ECAddDef(c, d, P) ELSE d,
             <<>>, BNBits(k))
ECMul(c, k, P) == ECMulDef(c, k, P)
ECNeg(c, P) == IF P = <<>> THEN <<>> ELSE <<P[1], BNModSub(<<>>, P[2], c.p)>>
===========================================================================
