----------------------------- MODULE TraceSM2 -----------------------------
(***************************************************************************)
(* Traces of package sm2.  Every public call is an action whose guard is   *)
(* the result the standards allow; the state remembers the scalars that    *)
(* were drawn (as points [k]G) and from which random stream.               *)
(***************************************************************************)
EXTENDS TraceBase, SM2

VARIABLES drawn,   \* set of [sid, pt]: stream and point of every scalar so far
          ks       \* recovered scalars, in order, for the statistics
vars == <<tid, l, drawn, ks>>
Init == TraceInit /\ drawn = {} /\ ks = <<>>
Ok == Ev.out = "ok"
Err == Ev.out = "err"
Keep == UNCHANGED <<drawn, ks>>
Cv == Curve(Ev.cv)
Id == IF Ev.nilid THEN DefaultId ELSE Ev.id

\* ---- randomness
\* A call that succeeds saw no failure of its source; on the real curve it took
\* at least 32 bytes (a 256-bit scalar cannot be drawn from less), and its scalar
\* differs from every scalar drawn from another stream.
DrewFresh(pt) ==
    /\ ~Ev.failed
    /\ Ev.cv = 0 => Ev.used >= 32 \/ "genuine" \in DOMAIN Ev   \* the system's source is not watched
    /\ Ev.cv = 0 => \A q \in drawn : q.sid # Ev.sid => q.pt # pt
    /\ drawn' = IF Ev.cv = 0 THEN drawn \cup {[sid |-> Ev.sid, pt |-> pt]} ELSE drawn
\* a source that fails makes the call fail, with no output
SourceFailed == Ev.failed /\ Err /\ Ev.nilr /\ Keep

\* ---- keys
TCurve == IsEvent("Curve") /\ Keep
          /\ [p |-> Ev.p, a |-> Ev.a, b |-> Ev.b, n |-> Ev.n, gx |-> Ev.gx, gy |-> Ev.gy] = SM2Curve
          /\ Ev.bits = 256
TGenerateKey == IsEvent("GenerateKey") /\
    \/ SourceFailed
    \/ Ok /\ ValidD(SM2Curve, Ev.d)
       /\ <<Ev.x, Ev.y>> = PubOf(SM2Curve, Ev.d)
       /\ DrewFresh(<<Ev.x, Ev.y>>)
       /\ ks' = Append(ks, Ev.d)
TCalcPub == IsEvent("CalcPub") /\ Keep /\ Ok /\ Ev.same
            /\ <<Ev.x, Ev.y>> = PubOf(Cv, Ev.d)
TPubBytes == IsEvent("PubBytes") /\ Keep /\ Ok /\ Ev.same
             /\ Ev.raw = RawPub(<<Ev.x, Ev.y>>) /\ Ev.unc = <<4>> \o Ev.raw
TPrivBytes == IsEvent("PrivBytes") /\ Keep /\ Ok /\ Ev.same /\ Ev.raw = W32(Ev.d)
\* what is not a valid key may be refused or taken as it is
TRawToPub == IsEvent("RawToPub") /\ Keep /\ Ev.same /\
    LET good == Len(Ev.in) = 64
        P == IF good THEN <<BNNorm(SubSeq(Ev.in, 1, 32)), BNNorm(SubSeq(Ev.in, 33, 64))>> ELSE <<>>
    IN  \/ good /\ Ok /\ <<Ev.x, Ev.y>> = P
        \/ Err /\ Ev.nilr /\ ~(good /\ OnCurve(SM2Curve, P))
TRawToPriv == IsEvent("RawToPriv") /\ Keep /\ Ev.same /\
    LET good == Len(Ev.in) = 32
        d == IF good THEN BNNorm(Ev.in) ELSE <<>>
    IN  \/ good /\ Ok /\ Ev.d = d
        \/ Err /\ Ev.nilr /\ ~(good /\ ValidD(SM2Curve, d))

\* ---- signatures
Signed(r, s) ==
    LET P == PubOf(Cv, Ev.d)
    IN  /\ SignatureOf(Cv, Ev.d, MsgE(Cv, Id, P, Ev.m), r, s)
        /\ LET k == SigK(Cv, Ev.d, r, s)
           IN DrewFresh(ECMul(Cv, k, G(Cv))) /\ ks' = Append(ks, k)
TSign == IsEvent("Sign") /\ Ev.same /\
    \/ SourceFailed
    \/ Err /\ Ev.nilr /\ ~IdOK(Id) /\ Keep
    \/ Ok /\ IdOK(Id)
       /\ LET p == ParseSig(Ev.sig)
          IN p.ok /\ NonNeg(p.r) /\ NonNeg(p.s) /\ Signed(p.r.mag, p.s.mag)
TSignRS == IsEvent("SignRS") /\ Ev.same /\
    \/ SourceFailed
    \/ Err /\ Ev.nilr /\ ~IdOK(Id) /\ Keep
    \/ Ok /\ IdOK(Id) /\ NonNeg(Ev.r) /\ NonNeg(Ev.s) /\ Signed(Ev.r.mag, Ev.s.mag)

KeyPoint == IF NonNeg(Ev.x) /\ NonNeg(Ev.y) THEN <<Ev.x.mag, Ev.y.mag>> ELSE <<>>
TVerifyRS == IsEvent("VerifyRS") /\ Keep /\ Ok /\ Ev.same
             /\ Ev.res = (/\ NonNeg(Ev.r) /\ NonNeg(Ev.s)
                          /\ Verifies(Cv, KeyPoint, Id, Ev.m, Ev.r.mag, Ev.s.mag))
TVerify == IsEvent("Verify") /\ Keep /\ Ok /\ Ev.same
           /\ Ev.res = VerifiesDer(Cv, KeyPoint, Id, Ev.m, Ev.sig)

\* ---- encryption
TEncrypt == IsEvent("Encrypt") /\ Ev.same /\
    LET P == KeyPoint
        valid == OnCurve(Cv, P) /\ KnownType(Ev.type)
    IN  \/ SourceFailed
        \/ Err /\ Ev.nilr /\ ~valid /\ Keep
        \/ Ok /\ valid /\ CipherTextOf(Cv, Ev.d, Ev.ct, Ev.m, Ev.type)
           /\ DrewFresh(CtSplit(Ev.ct, Ev.type).c1) /\ ks' = ks
\* long messages: m is n zero bytes and only windows of C2, i.e. of the key stream, are recorded
TEncryptBig == IsEvent("EncryptBig") /\ Ev.same /\ Ok /\
    LET C1 == <<BNNorm(SubSeq(Ev.c1, 2, 33)), BNNorm(SubSeq(Ev.c1, 34, 65))>>
        S == ECMul(Cv, Ev.d, C1)
        Blk(i) == KdfBlock(RawPub(S), i)
    IN  /\ Len(Ev.c1) = 65 /\ Ev.c1[1] = 4 /\ OnCurve(Cv, C1)
        /\ Ev.len = 97 + Ev.n
        /\ \A i \in 1..Len(Ev.blocks) : Ev.win[i] = Blk(Ev.blocks[i])
        /\ Ev.c3 = SM3Hash(W32(S[1]) \o Zeros(Ev.n) \o W32(S[2]))
        /\ Ev.back
        /\ DrewFresh(C1) /\ ks' = ks
TDecrypt == IsEvent("Decrypt") /\ Keep /\ Ev.same /\
    LET w == DecryptWith(Cv, Ev.d, Ev.ct, Ev.type)
    IN  \/ w.ok /\ Ok /\ Ev.r = w.m
        \/ Err /\ Ev.nilr /\ ~w.ok
        \* GB/T 32918.4 has Decrypt refuse an all-zero key stream for a non-empty message
        \/ Err /\ Ev.nilr /\ w.ok /\ w.m # <<>> /\ AllZero(StreamOf(Cv, Ev.d, Ev.ct, Ev.type))

\* ---- encodings
TMarshalCipher == IsEvent("MarshalCipher") /\ Keep /\ Ev.same /\
    IF KnownType(Ev.type) /\ Len(Ev.in) >= 97
    THEN \/ Ok /\ Ev.r = DerCipher(Ev.in, Ev.type)
         \/ Err /\ Ev.nilr /\ Ev.in[1] # 4      \* not the uncompressed form
    ELSE Err /\ Ev.nilr
TUnmarshalCipher == IsEvent("UnmarshalCipher") /\ Keep /\ Ev.same /\
    LET w == UnderCipher(Ev.in, Ev.type)
    IN  \/ w.ok /\ Ok /\ Ev.r = w.ct
        \/ ~w.ok /\ Err /\ Ev.nilr
TMarshalSign == IsEvent("MarshalSign") /\ Keep /\ Ev.same /\ Ok /\ Ev.der = DerSig(Ev.r, Ev.s)
TUnmarshalSign == IsEvent("UnmarshalSign") /\ Keep /\ Ev.same /\
    LET w == ParseSig(Ev.in)
    IN  \/ w.ok /\ Ok /\ Ev.r = w.r /\ Ev.s = w.s
        \/ ~w.ok /\ Err /\ Ev.nilr

\* ---- statistics over the scalars of this trace
\* every bit of the N scalars is set about N/2 times: within 6.5 standard deviations
BitAt(k, i) == LET w == BNPad(k, 32)                     \* i in 0..255 from the top
               IN (w[(i \div 8) + 1] \div (2 ^ (7 - (i % 8)))) % 2
TBitStats == IsEvent("BitStats") /\ Keep /\
    LET n == Len(ks)
    IN  /\ n >= 200
        /\ \A i \in 0..255 :
              LET ones == FoldLeft(LAMBDA acc, k : acc + BitAt(k, i), 0, ks)
              IN  4 * (2 * ones - n) * (2 * ones - n) <= 169 * n   \* |2 ones - n| <= 6.5 sqrt n
\* on a small curve every scalar 1..n-1 occurs about equally often
DLogs(cv, ord) == TLCEval([k \in 1..(ord - 1) |-> ECMul(Curve(cv), BNFromNat(k), G(Curve(cv)))])
Uniform(counts, total, cells) ==     \* all within 6 standard deviations of total/cells
    LET mu == total \div cells
    IN  mu >= 100 /\ \A i \in 1..cells : (counts[i] - mu) * (counts[i] - mu) <= 36 * (mu + 1)
TToyStats == IsEvent("ToyStats") /\ Keep /\
    LET ord == BNToNat(Cv.n)
        counts == TLCEval([i \in 1..(ord - 1) |->
                     FoldLeft(LAMBDA acc, k : acc + (IF k = BNFromNat(i) THEN 1 ELSE 0), 0, ks)])
    IN  Uniform(counts, Len(ks), ord - 1)
\* the same for encryption: c1s are the points C1 of many cipher texts
TToyPoints == IsEvent("ToyPoints") /\ Keep /\
    LET ord == BNToNat(Cv.n)
        tab == DLogs(Ev.cv, ord)
        counts == TLCEval([i \in 1..(ord - 1) |->
                     FoldLeft(LAMBDA acc, q : acc + (IF q = tab[i] THEN 1 ELSE 0), 0, Ev.c1s)])
    IN  /\ Uniform(counts, Len(Ev.c1s), ord - 1)
        /\ FoldLeft(LAMBDA acc, i : acc + i, 0, counts) = Len(Ev.c1s)

Next == TCurve \/ TGenerateKey \/ TCalcPub \/ TPubBytes \/ TPrivBytes \/ TRawToPub \/ TRawToPriv
        \/ TSign \/ TSignRS \/ TVerifyRS \/ TVerify \/ TEncrypt \/ TEncryptBig \/ TDecrypt
        \/ TMarshalCipher \/ TUnmarshalCipher \/ TMarshalSign \/ TUnmarshalSign
        \/ TBitStats \/ TToyStats \/ TToyPoints
        \/ (Finished /\ Keep)
Spec == Init /\ [][Next]_vars
===========================================================================
