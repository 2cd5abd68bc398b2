----------------------------- MODULE SignedInt -----------------------------
(***************************************************************************)
(* Integers of any size as records [neg, v]: a sign and a BigNat; zero is  *)
(* not negative.  Bitwise operations see negative numbers in two's         *)
(* complement with infinitely many sign bits, as math/big does.            *)
(***************************************************************************)
EXTENDS BigNat, Bitwise

SI(neg, v) == [neg |-> neg /\ v # <<>>, v |-> v]
SNeg(x) == SI(~x.neg, x.v)
SAdd(x, y) == IF x.neg = y.neg THEN SI(x.neg, BNAdd(x.v, y.v))
              ELSE IF BNLe(y.v, x.v) THEN SI(x.neg, BNSub(x.v, y.v))
              ELSE SI(y.neg, BNSub(y.v, x.v))
SSub(x, y) == SAdd(x, SNeg(y))
SMul(x, y) == SI(x.neg # y.neg, BNMul(x.v, y.v))
\* the remainder in [0, m) for m > 0
SMod(x, m) == LET r == BNMod(x.v, m.v)
              IN  SI(FALSE, IF x.neg /\ r # <<>> THEN BNSub(m.v, r) ELSE r)
\* 2^n
BNPow2(n) == <<2 ^ (n % 8)>> \o Zeros(n \div 8)
SLsh(x, n) == SI(x.neg, BNMul(x.v, BNPow2(n)))
\* the inverse of x modulo m, if there is one
IsInverse(r, x, m) == ~r.neg /\ BNLt(r.v, m.v) /\ BNMod(BNMul(r.v, SMod(x, m).v), m.v) = <<1>>

NatBit(v, i) == LET k == Len(v) - (i \div 8) IN IF k < 1 THEN 0 ELSE (v[k] \div (2 ^ (i % 8))) % 2
\* bit i of x; of -n it is the complement of bit i of n - 1
SBit(x, i) == IF x.neg THEN 1 - NatBit(BNSub(x.v, <<1>>), i) ELSE NatBit(x.v, i)
SSetBit(x, i, b) == IF SBit(x, i) = b THEN x
                    ELSE IF b = 1 THEN SAdd(x, SI(FALSE, BNPow2(i)))
                    ELSE SSub(x, SI(FALSE, BNPow2(i)))

\* two's complement in w bytes, and back
ToTwos(x, w) == IF x.neg THEN BNPad(BNSub(BNPow2(8 * w), x.v), w) ELSE BNPad(x.v, w)
FromTwos(s) == IF s[1] >= 128 THEN SI(TRUE, BNSub(BNPow2(8 * Len(s)), BNNorm(s))) ELSE SI(FALSE, BNNorm(s))
SAnd(x, y) == LET w == MaxOf(Len(x.v), Len(y.v)) + 1
                  a == ToTwos(x, w)  b == ToTwos(y, w)
              IN  FromTwos([i \in 1..w |-> a[i] & b[i]])
===========================================================================
