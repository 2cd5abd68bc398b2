-------------------------------- MODULE SM3 --------------------------------
(***************************************************************************)
(* The SM3 hash function of GB/T 32905-2016, as an executable definition.  *)
(* Written from the standard, not from the implementation.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Word32

SM3IV == << <<29568, 5743>>, <<18708, 45753>>, <<5924, 17111>>, <<55946, 1536>>,
            <<43375, 12476>>, <<5681, 14506>>, <<58253, 61005>>, <<45307, 3662>> >>

SM3T == [j \in 0..63 |-> IF j < 16 THEN WRotl(<<31180, 17689>>, j)     \* 79CC4519
                                    ELSE WRotl(<<31367, 40330>>, j % 32)] \* 7A879D8A

P0(x) == WXor3(x, WRotl(x, 9), WRotl(x, 17))
P1(x) == WXor3(x, WRotl(x, 15), WRotl(x, 23))
FF(j, x, y, z) == IF j < 16 THEN WXor3(x, y, z)
                  ELSE WOr(WOr(WAnd(x, y), WAnd(x, z)), WAnd(y, z))
GG(j, x, y, z) == IF j < 16 THEN WXor3(x, y, z)
                  ELSE WOr(WAnd(x, y), WAnd(WNot(x), z))

\* message expansion: W_0..W_67 as W[1..68]
ExpandStep(W, j) ==
    Append(W, WXor3(P1(WXor3(W[j-15], W[j-8], WRotl(W[j-2], 15))),
                    WRotl(W[j-12], 7), W[j-5]))
Expand(B) == FoldLeft(ExpandStep, B, [k \in 1..52 |-> k + 15])  \* j = 16..67

Round(W, V, j) ==
    LET A == V[1]  B == V[2]  C == V[3]  D == V[4]
        E == V[5]  F == V[6]  G == V[7]  H == V[8]
        a12 == WRotl(A, 12)
        SS1 == WRotl(WAdd(WAdd(a12, E), SM3T[j]), 7)
        SS2 == WXor(SS1, a12)
        TT1 == WAdd(WAdd(WAdd(FF(j, A, B, C), D), SS2), WXor(W[j+1], W[j+5]))
        TT2 == WAdd(WAdd(WAdd(GG(j, E, F, G), H), SS1), W[j+1])
    IN  << TT1, A, WRotl(B, 9), C, P0(TT2), E, WRotl(F, 19), G >>

\* CF(V, B): V is 8 words, B is 16 words
CF(V, B) ==
    LET W == Expand(B)
        R == FoldLeft(LAMBDA acc, j : Round(W, acc, j), V, [k \in 1..64 |-> k - 1])
    IN  [i \in 1..8 |-> WXor(V[i], R[i])]

BlockWords(bs, off) == [i \in 1..16 |-> WFromBytes(bs, off + 4 * (i - 1) + 1)]

\* the 64-bit big-endian bit length 512 n + 8 r of a message of n whole blocks
\* (n < 2^31) and r < 64 further bytes, in 16-bit pieces
LenField(n, r) ==
    LET lo  == (n % 128) * 512 + 8 * r     \* bits 0..15 (no carry)
        mid == (n \div 128) % 65536        \* bits 16..31
        hi  == n \div 8388608              \* bits 32..39
    IN  << 0, 0, 0, hi, mid \div 256, mid % 256, lo \div 256, lo % 256 >>

\* what follows the whole blocks: the last r bytes, 1, zeros, the length
Tail64(n, rest) ==
    LET r == Len(rest)
    IN  rest \o <<128>> \o [i \in 1..((119 - r) % 64) |-> 0] \o LenField(n, r)

Absorb(V, bs) ==       \* bs a whole number of 64-byte blocks
    FoldLeft(LAMBDA acc, k : CF(acc, BlockWords(bs, 64 * (k - 1))), V,
             [k \in 1..(Len(bs) \div 64) |-> k])

\* n repetitions of one block
RECURSIVE AbsorbRepDef(_, _, _)
AbsorbRepDef(V, block, n) ==
    IF n = 0 THEN V ELSE AbsorbRepDef(CF(V, BlockWords(block, 0)), block, n - 1)
AbsorbRep(V, block, n) == AbsorbRepDef(V, block, n)

WordsToBytes(V) == FoldLeft(LAMBDA acc, w : acc \o WToBytes(w), <<>>, V)

SM3HashDef(m) ==
    LET n == Len(m) \div 64
        full == SubSeq(m, 1, 64 * n)
        rest == SubSeq(m, 64 * n + 1, Len(m))
    IN  WordsToBytes(Absorb(Absorb(SM3IV, full), Tail64(n, rest)))
SM3Hash(m) == SM3HashDef(m)

\* the digest of block repeated n times followed by rest
SM3HashRep(block, n, rest) ==
    WordsToBytes(Absorb(AbsorbRep(SM3IV, block, n), Tail64(n, rest)))
===========================================================================
