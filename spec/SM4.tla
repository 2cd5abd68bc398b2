-------------------------------- MODULE SM4 --------------------------------
(***************************************************************************)
(* The SM4 block cipher of GB/T 32907-2016 and the ECB and CBC modes, as   *)
(* executable definitions.  The S-box is not a table: it is computed from  *)
(* its algebraic structure (inversion in GF(2^8) between two affine maps), *)
(* so it shares nothing with the implementation's table.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Word32
LOCAL INSTANCE Bitwise

LOCAL XTime(a) == IF a >= 128 THEN (a * 2) ^^ 501 ELSE a * 2     \* poly 0x1F5
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0
                    ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
LOCAL GSq(a) == GMul(a, a)
\* a^254 = the inverse (0 for 0)
LOCAL GInv(a) ==
    LET a2 == GSq(a)  a4 == GSq(a2)  a8 == GSq(a4)  a16 == GSq(a8)
        a32 == GSq(a16)  a64 == GSq(a32)  a128 == GSq(a64)
    IN  GMul(a2, GMul(a4, GMul(a8, GMul(a16, GMul(a32, GMul(a64, a128))))))
LOCAL Parity(x) == (x + (x \div 2) + (x \div 4) + (x \div 8) + (x \div 16)
                    + (x \div 32) + (x \div 64) + (x \div 128)) % 2
LOCAL RotR8(x, i) == (x \div 2^i) + ((x * 2^(8 - i)) % 256)
LOCAL Affine(x) ==      \* circulant matrix with first row 0xD3, constant 0xD3
    (128 * Parity(x & RotR8(211, 0)) + 64 * Parity(x & RotR8(211, 1))
     + 32 * Parity(x & RotR8(211, 2)) + 16 * Parity(x & RotR8(211, 3))
     + 8 * Parity(x & RotR8(211, 4)) + 4 * Parity(x & RotR8(211, 5))
     + 2 * Parity(x & RotR8(211, 6)) + Parity(x & RotR8(211, 7))) ^^ 211
SBox == [x \in 0..255 |-> Affine(GInv(Affine(x)))]

FK == << <<41905, 47814>>, <<22186, 13136>>, <<26493, 37271>>, <<45680, 8924>> >>
CKb(i, j) == ((4 * i + j) * 7) % 256
CK == [i \in 0..31 |-> << CKb(i, 0) * 256 + CKb(i, 1), CKb(i, 2) * 256 + CKb(i, 3) >>]

Tau(w) == << SBox[w[1] \div 256] * 256 + SBox[w[1] % 256],
             SBox[w[2] \div 256] * 256 + SBox[w[2] % 256] >>
L(b)  == WXor(WXor4(b, WRotl(b, 2), WRotl(b, 10), WRotl(b, 18)), WRotl(b, 24))
LPrime(b) == WXor3(b, WRotl(b, 13), WRotl(b, 23))

Words(bs) == [i \in 1..4 |-> WFromBytes(bs, 4 * (i - 1) + 1)]
Unwords(X) == WToBytes(X[1]) \o WToBytes(X[2]) \o WToBytes(X[3]) \o WToBytes(X[4])

\* round keys rk_0..rk_31 as rk[1..32]
KeyStep(acc, i) ==      \* acc = <<K_i, K_i+1, K_i+2, K_i+3, keys so far>>
    LET k == WXor(acc[1], LPrime(Tau(WXor4(acc[2], acc[3], acc[4], CK[i]))))
    IN  << acc[2], acc[3], acc[4], k, Append(acc[5], k) >>
RoundKeys(key) ==
    LET MK == Words(key)
    IN  FoldLeft(KeyStep, << WXor(MK[1], FK[1]), WXor(MK[2], FK[2]), WXor(MK[3], FK[3]),
                             WXor(MK[4], FK[4]), <<>> >>, [i \in 1..32 |-> i - 1])[5]

RoundStep(X, rk) == << X[2], X[3], X[4], WXor(X[1], L(Tau(WXor4(X[2], X[3], X[4], rk)))) >>
Crypt(rks, block) ==
    LET X == FoldLeft(RoundStep, Words(block), rks)
    IN  Unwords(<< X[4], X[3], X[2], X[1] >>)

EncKeys(key) == RoundKeys(key)
DecKeys(key) == Reverse(RoundKeys(key))
SM4Enc(key, block) == Crypt(EncKeys(key), block)
SM4Dec(key, block) == Crypt(DecKeys(key), block)

NBlocks(m) == Len(m) \div 16
Block(m, i) == SubSeq(m, 16 * (i - 1) + 1, 16 * i)
XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Idx(m) == [i \in 1..NBlocks(m) |-> i]

ECBEncDef(key, m) ==
    LET ks == EncKeys(key)
    IN  FoldLeft(LAMBDA acc, i : acc \o Crypt(ks, Block(m, i)), <<>>, Idx(m))
ECBDecDef(key, m) ==
    LET ks == DecKeys(key)
    IN  FoldLeft(LAMBDA acc, i : acc \o Crypt(ks, Block(m, i)), <<>>, Idx(m))
CBCEncDef(key, iv, m) ==
    LET ks == EncKeys(key)
        step(acc, i) == LET c == Crypt(ks, XorBytes(Block(m, i), acc[1]))
                        IN  <<c, acc[2] \o c>>
    IN  FoldLeft(step, <<iv, <<>> >>, Idx(m))[2]
CBCDecDef(key, iv, m) ==
    LET ks == DecKeys(key)
        step(acc, i) == LET b == Block(m, i)
                        IN  <<b, acc[2] \o XorBytes(Crypt(ks, b), acc[1])>>
    IN  FoldLeft(step, <<iv, <<>> >>, Idx(m))[2]

\* the modes as used; long inputs are evaluated by an accelerator, which
\* MC_SM4 compares with the definitions above
ECBEnc(key, m) == ECBEncDef(key, m)
ECBDec(key, m) == ECBDecDef(key, m)
CBCEnc(key, iv, m) == CBCEncDef(key, iv, m)
CBCDec(key, iv, m) == CBCDecDef(key, iv, m)
===========================================================================
