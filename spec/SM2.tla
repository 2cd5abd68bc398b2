-------------------------------- MODULE SM2 --------------------------------
(***************************************************************************)
(* GB/T 32918: keys, signatures (part 2), key exchange (part 3) and        *)
(* public key encryption (part 4), over any curve record c of SM2Curves,   *)
(* plus the DER forms of GM/T 0009.  Written from the standards.           *)
(*                                                                         *)
(* Randomised operations are specified by relations: what an observer can  *)
(* demand of the output without knowing the secret scalar in advance.      *)
(***************************************************************************)
EXTENDS SM3, SM2Curves, DER, Bitwise, TLC

W32(x) == BNPad(x, 32)        \* a field element as 32 octets

\* ---- keys
BNPred(n) == BNSub(n, <<1>>)
InZn(c, x) == x # <<>> /\ BNLt(x, c.n)                        \* [1, n-1]
ValidD(c, d) == d # <<>> /\ BNLt(d, BNPred(c.n))              \* [1, n-2]
PubOf(c, d) == ECMul(c, d, G(c))
RawPub(P) == W32(P[1]) \o W32(P[2])

\* ---- digests
DefaultId == <<49, 50, 51, 52, 53, 54, 55, 56, 49, 50, 51, 52, 53, 54, 55, 56>>
IdOK(id) == Len(id) < 8192         \* its bit length is hashed in 16 bits
ENTL(id) == LET b == 8 * Len(id) IN <<b \div 256, b % 256>>
ZA(c, id, P) == SM3Hash(ENTL(id) \o id \o W32(c.a) \o W32(c.b) \o W32(c.gx) \o W32(c.gy)
                        \o W32(P[1]) \o W32(P[2]))
\* e, as a number
MsgE(c, id, P, m) == BNNorm(SM3Hash(ZA(c, id, P) \o m))

\* ---- signatures
\* the scalar a signature (r, s) was made with: k = s + (r + s) d
SigT(c, r, s) == BNModAdd(r, s, c.n)
SigK(c, d, r, s) == BNModAdd(s, BNModMul(SigT(c, r, s), BNMod(d, c.n), c.n), c.n)
\* r = e + x1 mod n
SigR(c, e, X) == BNMod(BNAdd(e, X[1]), c.n)

\* a pair that GB/T 32918.2 allows as the signature of digest e under d
SignatureOf(c, d, e, r, s) ==
    /\ InZn(c, r) /\ InZn(c, s)
    /\ LET k == SigK(c, d, r, s)
       IN  /\ k # <<>>
           /\ BNModAdd(r, k, c.n) # <<>>
           /\ r = SigR(c, e, ECMul(c, k, G(c)))

\* verification
VerifiesE(c, P, e, r, s) ==
    /\ InZn(c, r) /\ InZn(c, s)
    /\ LET t == SigT(c, r, s)
       IN  /\ t # <<>>
           /\ LET X == ECAdd(c, ECMul(c, s, G(c)), ECMul(c, t, P))
              IN  X # Infinity /\ r = SigR(c, e, X)
Verifies(c, P, id, m, r, s) ==
    /\ OnCurve(c, P) /\ IdOK(id)
    /\ VerifiesE(c, P, MsgE(c, id, P, m), r, s)

DerSig(r, s) == TLV(TagSeq, DerInt(r) \o DerInt(s))
ParseSig(b) ==
    LET q == DerSeq(b, <<TagInt, TagInt>>)
        good == q.ok /\ IntOctetsOK(q.es[1].content) /\ IntOctetsOK(q.es[2].content)
    IN  [ok |-> good,
         r |-> IF good THEN IntValue(q.es[1].content) ELSE Nat2Int(<<>>),
         s |-> IF good THEN IntValue(q.es[2].content) ELSE Nat2Int(<<>>)]
NonNeg(i) == ~IntNeg(i)
VerifiesDer(c, P, id, m, b) ==
    LET p == ParseSig(b)
    IN  p.ok /\ NonNeg(p.r) /\ NonNeg(p.s) /\ Verifies(c, P, id, m, p.r.mag, p.s.mag)

\* ---- encryption
Ctr(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
KdfBlock(Z, i) == SM3Hash(Z \o Ctr(i))
KDF(Z, n) ==
    LET blocks == TLCEval([i \in 1..((n + 31) \div 32) |-> KdfBlock(Z, i)])
    IN  [i \in 1..n |-> blocks[((i - 1) \div 32) + 1][((i - 1) % 32) + 1]]
XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

C1C2C3 == 1
C1C3C2 == 2
KnownType(t) == t \in {C1C2C3, C1C3C2}
CtSplit(ct, t) ==
    LET n == Len(ct) - 97
    IN  [c1 |-> <<BNNorm(SubSeq(ct, 2, 33)), BNNorm(SubSeq(ct, 34, 65))>>,
         c2 |-> IF t = C1C2C3 THEN SubSeq(ct, 66, 65 + n) ELSE SubSeq(ct, 98, 97 + n),
         c3 |-> IF t = C1C2C3 THEN SubSeq(ct, 66 + n, 97 + n) ELSE SubSeq(ct, 66, 97)]
CtJoin(C1, c2, c3, t) == <<4>> \o RawPub(C1) \o IF t = C1C2C3 THEN c2 \o c3 ELSE c3 \o c2

\* the cipher text of m under ephemeral k
EncryptWith(c, P, k, m, t) ==
    LET S == ECMul(c, k, P)
        Z == RawPub(S)
    IN  CtJoin(ECMul(c, k, G(c)), XorBytes(m, KDF(Z, Len(m))), SM3Hash(W32(S[1]) \o m \o W32(S[2])), t)

NoPlain == [ok |-> FALSE, m |-> <<>>]
\* decryption; usable as the definition of "authentic"
DecryptWith(c, d, ct, t) ==
    IF ~KnownType(t) \/ Len(ct) < 97 THEN NoPlain
    ELSE IF ct[1] # 4 THEN NoPlain
    ELSE LET p == CtSplit(ct, t)
         IN  IF ~OnCurve(c, p.c1) THEN NoPlain
             ELSE LET S == ECMul(c, d, p.c1)
                  IN IF S = Infinity THEN NoPlain
                     ELSE LET m == XorBytes(p.c2, KDF(RawPub(S), Len(p.c2)))
                          IN IF p.c3 = SM3Hash(W32(S[1]) \o m \o W32(S[2]))
                             THEN [ok |-> TRUE, m |-> m] ELSE NoPlain
\* the key stream a cipher text was made with
StreamOf(c, d, ct, t) == LET p == CtSplit(ct, t) IN KDF(RawPub(ECMul(c, d, p.c1)), Len(p.c2))

\* ct is a cipher text GB/T 32918.4 allows for m: decryptable, and the key
\* stream that was actually used is not all zeros
CipherTextOf(c, d, ct, m, t) ==
    /\ Len(ct) = 97 + Len(m)
    /\ DecryptWith(c, d, ct, t) = [ok |-> TRUE, m |-> m]
    /\ m # <<>> => ~AllZero(StreamOf(c, d, ct, t))

\* DER forms
DerCipher(ct, t) ==
    LET p == CtSplit(ct, t)
        o2 == TLV(TagOctets, p.c2)
        o3 == TLV(TagOctets, p.c3)
    IN  TLV(TagSeq, DerUInt(p.c1[1]) \o DerUInt(p.c1[2]) \o IF t = C1C2C3 THEN o2 \o o3 ELSE o3 \o o2)
NoCt == [ok |-> FALSE, ct |-> <<>>]
UnderCipher(b, t) ==
    IF ~KnownType(t) THEN NoCt
    ELSE LET q == DerSeq(b, <<TagInt, TagInt, TagOctets, TagOctets>>)
         IN IF ~q.ok THEN NoCt
            ELSE IF ~IntOctetsOK(q.es[1].content) \/ ~IntOctetsOK(q.es[2].content) THEN NoCt
            ELSE LET x == IntValue(q.es[1].content)
                     y == IntValue(q.es[2].content)
                     u == q.es[3].content
                     v == q.es[4].content
                     c3 == IF t = C1C2C3 THEN v ELSE u
                 IN IF IntNeg(x) \/ IntNeg(y) \/ Len(x.mag) > 32 \/ Len(y.mag) > 32 \/ Len(c3) # 32
                    THEN NoCt
                    ELSE [ok |-> TRUE, ct |-> <<4>> \o W32(x.mag) \o W32(y.mag) \o u \o v]

\* ---- key exchange
\* 2^127 + (x mod 2^127): w = 127 for the SM2 curve
XBar(x) == LET t == SubSeq(W32(x), 17, 32)
           IN  [t EXCEPT ![1] = IF @ >= 128 THEN @ ELSE @ + 128]
\* U = [h tA](PB + [x2bar] RB), h = 1
KxPoint(c, dA, rA, RA, PB, RB) ==
    LET tA == BNModAdd(BNMod(dA, c.n), BNModMul(BNMod(XBar(RA[1]), c.n), BNMod(rA, c.n), c.n), c.n)
    IN  ECMul(c, tA, ECAdd(c, PB, ECMul(c, XBar(RB[1]), RB)))
\* digests and keys are over initiator first, responder second
KxInner(U, zi, zr, RI, RR) == SM3Hash(W32(U[1]) \o zi \o zr \o RawPub(RI) \o RawPub(RR))
KxTag(b, U, inner) == SM3Hash(<<b>> \o W32(U[2]) \o inner)
KxKey(U, zi, zr, bits) == KDF(RawPub(U) \o zi \o zr, (bits + 7) \div 8)
===========================================================================
