------------------------------ MODULE TraceEC ------------------------------
(***************************************************************************)
(* The curve object of package sm2 as a group, and the integer and point   *)
(* helpers of package util.  The caller holds a pool of points and a pool  *)
(* of integers; every result joins its pool and may be an operand later.   *)
(* Each event reports all members of both pools as they are after the      *)
(* call: an operation changes none of them.                                *)
(***************************************************************************)
EXTENDS TraceBase, SM2Curves, SignedInt
VARIABLES cv, pts, ints
vars == <<tid, l, cv, pts, ints>>
Init == TraceInit /\ cv = 0 /\ pts = <<>> /\ ints = <<>>
C == Curve(cv)
Ok == Ev.out = "ok"

\* a pair of integers as a point; (0, 0) is the point at infinity
SIof(i) == SI(i.neg, i.mag)
IsNat(i) == ~i.neg
PointOf(q) == IF q.x.mag = <<>> /\ q.y.mag = <<>> THEN Infinity ELSE <<q.x.mag, q.y.mag>>
Is(q, P) == IsNat(q.x) /\ IsNat(q.y) /\ PointOf(q) = P
Kept == /\ Len(Ev.pts) = Len(pts') /\ \A i \in 1..Len(pts') : Is(Ev.pts[i], pts'[i])
        /\ Len(Ev.ints) = Len(ints') /\ \A i \in 1..Len(ints') : SIof(Ev.ints[i]) = ints'[i] /\ Ev.ints[i].neg = ints'[i].neg
        /\ Ev.same      \* scalars and the parameters of the curve
NewPoint(P) == Ok /\ Is(Ev.r, P) /\ pts' = Append(pts, P) /\ UNCHANGED <<cv, ints>> /\ Kept
NewInt(z) == Ok /\ SIof(Ev.r) = z /\ Ev.r.neg = z.neg /\ ints' = Append(ints, z) /\ UNCHANGED <<cv, pts>> /\ Kept
Still == UNCHANGED <<cv, pts, ints>> /\ Kept

\* ---- the curve
TCurveIs == IsEvent("CurveIs") /\ Ok /\ cv' = Ev.cv /\ pts = <<>> /\ UNCHANGED <<pts, ints>>
            /\ [p |-> Ev.p, a |-> Ev.a, b |-> Ev.b, n |-> Ev.n, gx |-> Ev.gx, gy |-> Ev.gy] = Curve(Ev.cv)
            /\ (Ev.cv = 0 => Ev.bits = 256)
\* a point of the caller
TPoint == IsEvent("Point") /\ (PointOf(Ev.r) = Infinity \/ OnCurve(C, PointOf(Ev.r))) /\ NewPoint(PointOf(Ev.r))
TBaseMult == IsEvent("ScalarBaseMult") /\ NewPoint(ECMul(C, BNNorm(Ev.k), G(C)))
TMult == IsEvent("ScalarMult") /\ NewPoint(ECMul(C, BNNorm(Ev.k), pts[Ev.i]))
TAdd == IsEvent("AddPoints") /\ NewPoint(ECAdd(C, pts[Ev.i], pts[Ev.j]))
TDouble == IsEvent("DoublePoint") /\ NewPoint(ECAdd(C, pts[Ev.i], pts[Ev.i]))
TOnCurve == IsEvent("IsOnCurve") /\ Ok /\ Still
            /\ Ev.res = (IsNat(Ev.x) /\ IsNat(Ev.y) /\ OnCurve(C, <<Ev.x.mag, Ev.y.mag>>))
TInfinity == IsEvent("PointInfinity") /\ Ok /\ Still /\ Ev.res = (pts[Ev.i] = Infinity)

\* ---- the integers
TInt == IsEvent("Integer") /\ NewInt(SIof(Ev.r))
X == ints[Ev.i]
Y == ints[Ev.j]
TIntAdd == IsEvent("IntAdd") /\ NewInt(SAdd(X, Y))
TIntSub == IsEvent("IntSub") /\ NewInt(SSub(X, Y))
TIntMul == IsEvent("IntMul") /\ NewInt(SMul(X, Y))
TIntAnd == IsEvent("IntAnd") /\ NewInt(SAnd(X, Y))
TIntMod == IsEvent("IntMod") /\ Y.v # <<>> /\ NewInt(SMod(X, Y))
TIntLsh == IsEvent("IntLsh") /\ NewInt(SLsh(X, Ev.n))
TIntSetBit == IsEvent("IntSetBit") /\ NewInt(SSetBit(X, Ev.n, Ev.b))
\* any multiplicative inverse modulo Y is one in [0, Y); nothing is said of numbers without
TIntInv == IsEvent("IntModInverse") /\ Ok /\ UNCHANGED <<cv, pts>>
           /\ LET r == SIof(Ev.r)
              IN  /\ ~r.neg /\ BNLt(r.v, Y.v)
                  /\ BNMod(BNMul(r.v, SMod(X, Y).v), Y.v) = BNMod(<<1>>, Y.v)
                  /\ ints' = Append(ints, r)
           /\ Kept
TIntInfinity == IsEvent("IntInfinity") /\ Ok /\ Still /\ Ev.res = (X.v = <<>> /\ Y.v = <<>>)
TIntZ == IsEvent("IntZ") /\ NewInt(SI(FALSE, IF X.v = <<>> /\ Y.v = <<>> THEN <<>> ELSE <<1>>))

Next == \/ TCurveIs \/ TPoint \/ TBaseMult \/ TMult \/ TAdd \/ TDouble \/ TOnCurve \/ TInfinity
        \/ TInt \/ TIntAdd \/ TIntSub \/ TIntMul \/ TIntAnd \/ TIntMod \/ TIntLsh \/ TIntSetBit \/ TIntInv \/ TIntInfinity \/ TIntZ
        \/ (Finished /\ UNCHANGED <<cv, pts, ints>>)
Spec == Init /\ [][Next]_vars
===========================================================================
