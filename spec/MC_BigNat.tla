----------------------------- MODULE MC_BigNat -----------------------------
(* The definitions of BigNat against TLC's own integers, the laws of        *)
(* arithmetic on large numbers, and the Java accelerators against the       *)
(* definitions (run both with and without them).                            *)
EXTENDS BigNat, TLC

Small == {0, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 4095, 65535, 65536, 65537, 1000003}
N(i) == BNFromNat(i)
\* numbers of many bytes
Big == { BNNorm([i \in 1..n |-> (i * 53 + n * 29 + j * j) % 256]) : n \in {1, 3, 8, 17, 33}, j \in 1..2 }
       \cup { [i \in 1..n |-> 255] : n \in {1, 4, 16} } \cup { <<1>> \o Zeros(n) : n \in {1, 8, 16} }

ASSUME FromTo == \A i \in Small : BNToNat(N(i)) = i /\ BNNorm(<<0, 0>> \o N(i)) = N(i)
ASSUME SmallOps == \A i, j \in Small :
    /\ BNCmp(N(i), N(j)) = IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0
    /\ BNAdd(N(i), N(j)) = N(i + j)
    /\ i >= j => BNSub(N(i), N(j)) = N(i - j)
    /\ (i < 40000 /\ j < 40000) => BNMul(N(i), N(j)) = N(i * j)
    /\ j > 0 => BNMod(N(i), N(j)) = N(i % j) /\ BNDiv(N(i), N(j)) = N(i \div j)
ASSUME BitsOK == \A i \in Small : BNBitLen(N(i)) = Len(BNBits(N(i)))
                                /\ FoldLeft(LAMBDA a, b : 2 * a + b, 0, BNBits(N(i))) = i

VARIABLES x, y
Init == x \in Big /\ y = <<>>
Next == y = <<>> /\ y' \in Big /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>

Laws == /\ BNAdd(x, y) = BNAdd(y, x)
        /\ BNSub(BNAdd(x, y), y) = x
        /\ BNMul(x, y) = BNMul(y, x)
        /\ BNMul(BNAdd(x, <<1>>), y) = BNAdd(BNMul(x, y), y)
        /\ y # <<>> => BNAdd(BNMul(BNDiv(x, y), y), BNMod(x, y)) = x /\ BNLt(BNMod(x, y), y)
        /\ BNLt(x, y) <=> (x # y /\ ~BNLt(y, x))
        /\ BNNorm(BNPad(x, 70)) = x /\ Len(BNPad(x, 70)) = 70
        /\ BNBitLen(x) = Len(BNBits(x))
\* modulo the prime 2^61 - 1
P61 == <<31, 255, 255, 255, 255, 255, 255, 255>>
Inverses == LET a == BNMod(x, P61)
            IN (a # <<>> /\ y = <<>>) => BNModMul(BNModInv(a, P61), a, P61) = <<1>>
Agree == /\ BNAdd(x, y) = AddDef(x, y)
         /\ BNMul(x, y) = MulDef(x, y)
         /\ BNCmp(x, y) = CmpDef(x, y)
         /\ CmpDef(x, y) >= 0 => BNSub(x, y) = SubDef(x, y)
         /\ y # <<>> => BNMod(x, y) = ModDef(x, y) /\ BNDiv(x, y) = DivDef(x, y)
         /\ LET a == BNMod(x, P61) IN (a # <<>> /\ y = <<>>) => BNModInv(a, P61) = ModInvDef(a, P61)
===========================================================================
