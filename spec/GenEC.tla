------------------------------- MODULE GenEC -------------------------------
(* Histories of a pool of curve points: every result joins the pool and may *)
(* be an operand later.  On a toy curve each member is the multiple of G    *)
(* that the history says, in whatever way it was computed.  Each history is *)
(* printed, to be replayed on the SM2 curve and on toy curves.              *)
EXTENDS SM2Curves, TLC, Json, IOUtils
VARIABLES pts, logs, hist
CV == 3
C == Curve(CV)
N == BNToNat(C.n)
D == IF "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough" THEN 3 ELSE 2
\* scalars by name
K == [zero |-> 0, one |-> 1, two |-> 2, nm1 |-> N - 1, n |-> N, np1 |-> N + 1, some |-> 7]
Scalar(k) == BNFromNat(K[k])
Init == pts = <<Infinity, G(C)>> /\ logs = <<0, 1>> /\ hist = <<>>
Grow(h, P, m) == pts' = Append(pts, P) /\ logs' = Append(logs, m % N) /\ hist' = Append(hist, h)
Next == /\ Len(hist) < D
        /\ \/ \E i, j \in 1..Len(pts) : Grow([f |-> "Add", i |-> i, j |-> j, k |-> ""], ECAdd(C, pts[i], pts[j]), logs[i] + logs[j])
           \/ \E i \in 1..Len(pts) : Grow([f |-> "Double", i |-> i, j |-> 0, k |-> ""], ECDoubleDef(C, pts[i]), 2 * logs[i])
           \/ \E i \in 1..Len(pts), k \in DOMAIN K : Grow([f |-> "Mult", i |-> i, j |-> 0, k |-> k], ECMul(C, Scalar(k), pts[i]), K[k] * logs[i])
           \/ \E k \in DOMAIN K : Grow([f |-> "Base", i |-> 0, j |-> 0, k |-> k], ECMul(C, Scalar(k), G(C)), K[k])
Spec == Init /\ [][Next]_<<pts, logs, hist>>
Homomorphic == \A i \in 1..Len(pts) :
                  /\ pts[i] = ECMul(C, BNFromNat(logs[i]), G(C))
                  /\ pts[i] = Infinity \/ OnCurve(C, pts[i])
Emit == Len(hist) = D => PrintT(ToJson(hist))
=============================================================================
