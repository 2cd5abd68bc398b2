------------------------------ MODULE BigNat ------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC integers are 32-bit, so a number is   *)
(* its minimal big-endian byte sequence (zero is <<>>), which is also what *)
(* the implementation's big.Int.Bytes() shows.                             *)
(*                                                                         *)
(* Every operator X has a pure TLA+ definition XDef; X itself is replaced  *)
(* by java/gmo/BigNatOverrides for speed.  MC_BigNat checks that both      *)
(* agree, and that the definitions satisfy the laws of arithmetic.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

BN == Seq(0..255)
BN0 == <<>>
BN1 == <<1>>

\* strip leading zero bytes
RECURSIVE NormDef(_)
NormDef(s) == IF s # <<>> /\ Head(s) = 0 THEN NormDef(TLCEval(Tail(s))) ELSE s
BNNorm(s) == NormDef(s)

RECURSIVE FromNatDef(_)
FromNatDef(n) == IF n = 0 THEN <<>> ELSE Append(FromNatDef(TLCEval(n \div 256)), n % 256)
BNFromNat(n) == FromNatDef(n)

\* only for numbers below 2^31
BNToNat(s) == FoldLeft(LAMBDA acc, b : acc * 256 + b, 0, s)

Zeros(n) == [i \in 1..n |-> 0]
\* fixed width of n bytes; the number must fit
BNPad(s, n) == Zeros(n - Len(s)) \o s

\* -1, 0, 1
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i > Len(a) THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i + 1)
CmpDef(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, 1)
BNCmp(a, b) == CmpDef(a, b)

BNLt(a, b) == BNCmp(a, b) < 0
BNLe(a, b) == BNCmp(a, b) <= 0

MaxOf(x, y) == IF x > y THEN x ELSE y

AddDef(a, b) ==
    LET n == MaxOf(Len(a), Len(b))
        x == BNPad(a, n)  y == BNPad(b, n)
        r == FoldRight(LAMBDA i, acc :      \* acc = <<carry, digits>>
                 LET t == x[i] + y[i] + acc[1]
                 IN  <<t \div 256, <<t % 256>> \o acc[2]>>,
             [i \in 1..n |-> i], <<0, <<>> >>)
    IN  NormDef(<<r[1]>> \o r[2])
BNAdd(a, b) == AddDef(a, b)

\* a - b for a >= b
SubDef(a, b) ==
    LET n == Len(a)
        y == BNPad(b, n)
        r == FoldRight(LAMBDA i, acc :
                 LET t == a[i] - y[i] - acc[1] + 256
                 IN  <<IF t >= 256 THEN 0 ELSE 1, <<t % 256>> \o acc[2]>>,
             [i \in 1..n |-> i], <<0, <<>> >>)
    IN  NormDef(r[2])
BNSub(a, b) == SubDef(a, b)

\* a * d for one digit d
MulDigit(a, d) ==
    LET r == FoldRight(LAMBDA x, acc :
                 LET t == x * d + acc[1]
                 IN  <<t \div 256, <<t % 256>> \o acc[2]>>,
             a, <<0, <<>> >>)
    IN  NormDef(<<r[1]>> \o r[2])
MulDef(a, b) ==
    FoldLeft(LAMBDA acc, d : AddDef(IF acc = <<>> THEN <<>> ELSE acc \o <<0>>, MulDigit(a, d)),
             <<>>, b)
BNMul(a, b) == MulDef(a, b)

\* one long-division digit: the largest q with q*m <= r, by binary search
RECURSIVE QDigit(_, _, _, _)
QDigit(r, m, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF CmpDef(MulDigit(m, mid), r) <= 0 THEN QDigit(r, m, mid, hi)
             ELSE QDigit(r, m, lo, mid - 1)
\* <<quotient, remainder>>, m > 0
DivModDef(a, m) ==
    LET r == FoldLeft(LAMBDA acc, d :
                 LET cur == NormDef(acc[2] \o <<d>>)
                     q   == QDigit(cur, m, 0, 255)
                 IN  <<acc[1] \o <<q>>, SubDef(cur, MulDigit(m, q))>>,
             << <<>>, <<>> >>, a)
    IN  << NormDef(r[1]), r[2] >>
ModDef(a, m) == DivModDef(a, m)[2]
BNMod(a, m) == ModDef(a, m)
DivDef(a, m) == DivModDef(a, m)[1]
BNDiv(a, m) == DivDef(a, m)

\* modular arithmetic on reduced operands
BNModAdd(a, b, m) == LET s == BNAdd(a, b) IN IF BNLt(s, m) THEN s ELSE BNSub(s, m)
BNModSub(a, b, m) == IF BNLe(b, a) THEN BNSub(a, b) ELSE BNSub(BNAdd(a, m), b)
BNModMul(a, b, m) == BNMod(BNMul(a, b), m)

\* inverse of a modulo m (gcd 1), by the extended Euclidean algorithm:
\* the pairs <<r, t>> maintain  r = t * a (mod m)
RECURSIVE EuclidDef(_, _, _, _, _)
EuclidDef(r0, t0, r1, t1, m) ==
    IF r1 = <<>> THEN t0
    ELSE LET qr == DivModDef(r0, r1)
             qt == ModDef(MulDef(qr[1], t1), m)
             t2 == IF CmpDef(qt, t0) <= 0 THEN SubDef(t0, qt)
                   ELSE SubDef(AddDef(t0, m), qt)
         IN  EuclidDef(r1, t1, TLCEval(qr[2]), TLCEval(t2), m)
ModInvDef(a, m) == EuclidDef(m, <<>>, ModDef(a, m), <<1>>, m)
BNModInv(a, m) == ModInvDef(a, m)

\* bits, most significant first, without leading zero bits
ByteBits(b) == << b \div 128, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
                  (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2 >>
RECURSIVE StripBits(_)
StripBits(s) == IF s # <<>> /\ Head(s) = 0 THEN StripBits(TLCEval(Tail(s))) ELSE s
BNBits(a) == StripBits(FoldLeft(LAMBDA acc, b : acc \o ByteBits(b), <<>>, a))
RECURSIVE TopBits(_)
TopBits(b) == IF b = 0 THEN 0 ELSE 1 + TopBits(b \div 2)
BNBitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + TopBits(a[1])
===========================================================================
