------------------------------- MODULE MC_SM2 -------------------------------
(***************************************************************************)
(* The SM2 definitions on small curves, exhaustively: the signing relation *)
(* and verification agree for every key, digest and pair (r, s) and every  *)
(* nonce gives a signature unless an exceptional case forbids it;          *)
(* decryption inverts encryption and nothing else is authentic; both sides *)
(* of the key exchange compute the same point; DER forms are canonical.    *)
(***************************************************************************)
EXTENDS SM2, FiniteSets

N(i) == BNFromNat(i)
Num(b) == BNToNat(b)
Cs == {1, 2}
Ord(c) == Num(Curve(c).n)

VARIABLES kind, cv, a, b, x, y
vars == <<kind, cv, a, b, x, y>>
Init == /\ kind \in {"sig", "nonce", "enc", "kx", "der", "kat"}
        /\ cv \in Cs /\ a = 0 /\ b = 0 /\ x = 0 /\ y = 0
\* first the key, then everything else
Next == /\ kind # "kat"
        /\ a = 0 /\ a' \in 1..(Ord(cv) - 2) /\ UNCHANGED <<kind, cv>>
        /\ b' \in 1..(Ord(cv) - 1)
        /\ IF kind \in {"sig", "nonce", "kx"} \/ (kind = "enc" /\ a' < 4)
           THEN x' \in 0..(Ord(cv) - 1) ELSE x' = b'
        /\ IF kind = "sig" \/ (kind = "kx" /\ cv = 1) THEN y' \in 0..(Ord(cv) - 1) ELSE y' = a'
Spec == Init /\ [][Next]_vars

C == Curve(cv)
P == PubOf(C, N(a))

\* sig: d = a, r = b, s = x, e = y
SigLaw == (kind = "sig" /\ a > 0) =>
    (VerifiesE(C, P, N(y), N(b), N(x)) <=> SignatureOf(C, N(a), N(y), N(b), N(x)))
\* nonce: d = a, k = b, e = x; the signature made with k
NonceLaw == (kind = "nonce" /\ a > 0) =>
    LET r == SigR(C, N(x), ECMul(C, N(b), G(C)))
        inv == BNModInv(BNAdd(N(a), <<1>>), C.n)
        s == BNModMul(inv, BNModSub(N(b), BNModMul(r, N(a), C.n), C.n), C.n)
    IN  IF r = <<>> \/ BNModAdd(r, N(b), C.n) = <<>> \/ s = <<>>
        THEN ~SignatureOf(C, N(a), N(x), r, s)
        ELSE SignatureOf(C, N(a), N(x), r, s) /\ SigK(C, N(a), r, s) = N(b)
             /\ VerifiesE(C, P, N(x), r, s)
\* every digest leaves some usable nonce, so signing terminates (not so for n = 7)
SomeNonce == (kind = "nonce" /\ cv # 1 /\ a > 0 /\ b = 1) =>
    \E k \in 1..(Ord(cv) - 1) :
        LET r == SigR(C, N(x), ECMul(C, N(k), G(C)))
        IN r # <<>> /\ BNModAdd(r, N(k), C.n) # <<>> /\ N(k) # BNModMul(r, N(a), C.n)

Msgs == << <<>>, <<0>>, <<255>>, [i \in 1..33 |-> i], [i \in 1..65 |-> 7] >>
\* enc: d = a, k = b
EncLaw == (kind = "enc" /\ a > 0) =>
    \A j \in 1..Len(Msgs), t \in {C1C2C3, C1C3C2} :
        LET m == Msgs[j]
            ct == EncryptWith(C, P, N(b), m, t)
        IN  /\ DecryptWith(C, N(a), ct, t) = [ok |-> TRUE, m |-> m]
            /\ CipherTextOf(C, N(a), ct, m, t) <=> (m = <<>> \/ ~AllZero(StreamOf(C, N(a), ct, t)))
            /\ ~DecryptWith(C, N(a), Append(ct, 0), t).ok
            /\ ~DecryptWith(C, N(a), SubSeq(ct, 1, Len(ct) - 1), t).ok
            /\ ~DecryptWith(C, N(a), [ct EXCEPT ![98 - 32] = (@ + 1) % 256], t).ok
            /\ m # <<>> => ~DecryptWith(C, N(a), ct, 3 - t).ok
            /\ UnderCipher(DerCipher(ct, t), t) = [ok |-> TRUE, ct |-> ct]
            /\ ~UnderCipher(Append(DerCipher(ct, t), 0), t).ok
            \* another key decrypts it only if it shares the point up to sign of nothing
            /\ \A d2 \in 1..(Ord(cv) - 2) : d2 # a => ~DecryptWith(C, N(d2), ct, t).ok
\* kx: dA = a, rA = b, dB = x, rB = y
KxLaw == (kind = "kx" /\ a > 0 /\ x > 0 /\ y > 0) =>
    LET RA == PubOf(C, N(b))  RB == PubOf(C, N(y))  PB == PubOf(C, N(x))
        UA == KxPoint(C, N(a), N(b), RA, PB, RB)
        UB == KxPoint(C, N(x), N(y), RB, P, RA)
    IN  UA = UB
\* der: integers near byte boundaries
Ints == LET f(i) == [neg |-> FALSE, mag |-> N(i)]  g(i) == [neg |-> TRUE, mag |-> N(i)]
            v == {1, 2, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536}
        IN  {f(0)} \cup {f(i) : i \in v} \cup {g(i) : i \in v}
DerLaw == (kind = "der" /\ a = 1 /\ b = 1) =>
    /\ \A i, j \in Ints :
        LET w == DerSig(i, j) IN
        /\ ParseSig(w) = [ok |-> TRUE, r |-> i, s |-> j]
        /\ ~ParseSig(Append(w, 0)).ok
        /\ ~ParseSig(SubSeq(w, 1, Len(w) - 1)).ok
    /\ Cardinality({IntBytes(i) : i \in Ints}) = Cardinality(Ints)
    /\ IntBytes([neg |-> TRUE, mag |-> N(128)]) = <<128>>
    /\ IntBytes([neg |-> TRUE, mag |-> N(129)]) = <<255, 127>>

(* Known answers of GB/T 32918.5 (signature with the default id over the    *)
(* message "message digest"; encryption of "encryption standard").          *)
KAd == <<57, 69, 32, 143, 123, 33, 68, 177, 63, 54, 227, 138, 198, 211, 159, 149,
         136, 147, 147, 105, 40, 96, 181, 26, 66, 251, 129, 239, 77, 247, 197, 184>>
KAm == <<109, 101, 115, 115, 97, 103, 101, 32, 100, 105, 103, 101, 115, 116>>
KAr == <<245, 160, 59, 6, 72, 210, 196, 99, 14, 234, 197, 19, 225, 187, 129, 161,
         89, 68, 218, 56, 39, 213, 183, 65, 67, 172, 126, 172, 238, 231, 32, 179>>
KAs == <<177, 182, 170, 41, 223, 33, 47, 216, 118, 49, 130, 188, 13, 66, 28, 161,
         187, 144, 56, 253, 31, 127, 66, 212, 132, 11, 105, 196, 133, 187, 193, 170>>
Kat == kind = "kat" =>
    LET Q == PubOf(SM2Curve, KAd)
    IN  /\ Verifies(SM2Curve, Q, DefaultId, KAm, KAr, KAs)
        /\ SignatureOf(SM2Curve, KAd, MsgE(SM2Curve, DefaultId, Q, KAm), KAr, KAs)
=============================================================================
