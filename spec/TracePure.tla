----------------------------- MODULE TracePure -----------------------------
(***************************************************************************)
(* The interface as functions of values.  The caller's memory is a         *)
(* sequence of cells: byte arrays, integers, and larger objects (templates *)
(* and the like, seen through a digest of all their fields).  Arguments    *)
(* are cells, windows of byte cells (which may overlap), scalars, or nil.  *)
(*                                                                         *)
(* A call changes no cell, whatever its arguments have in common; it       *)
(* returns what the specifications of the other modules say; and a         *)
(* function that uses no randomness returns the same for equal argument    *)
(* values whatever happened before, also after the caller overwrote        *)
(* earlier results (Scribble), which in turn changes no cell.              *)
(***************************************************************************)
EXTENDS TraceBase, X509Parse, Padding, SignedInt
VARIABLE ciphers    \* of no importance here: only the helpers of this module are called
M == INSTANCE SM4Object

VARIABLES cells, memo
vars == <<tid, l, cells, memo, ciphers>>
Init == TraceInit /\ cells = <<>> /\ memo = <<>> /\ M!CInit

C == SM2Curve
CurveCells == <<C.p, C.a, C.b, C.n, C.gx, C.gy>>

\* the first six cells are the integers of the shared curve object
Put == /\ IsEvent("Put") /\ UNCHANGED memo
       /\ Len(cells) < 6 => Ev.v = [k |-> "i", neg |-> FALSE, v |-> CurveCells[Len(cells) + 1]]
       /\ cells' = Append(cells, Ev.v)

Val(a) == IF a.c < 0 THEN [k |-> "nil", neg |-> FALSE, v |-> <<>>]
          ELSE IF a.c = 0 THEN [k |-> "s", neg |-> FALSE, v |-> <<a.o>>]
          ELSE IF cells[a.c].k = "b" THEN [k |-> "b", neg |-> FALSE, v |-> SubSeq(cells[a.c].v, a.o + 1, a.o + a.n)]
          ELSE cells[a.c]

Random == {"Sign", "SignToRS", "Encrypt", "CreateCSR", "Issue"}

\* what is known about the value of fn at the arguments A; r are the values returned
Ints == {"Add", "Sub", "Mul", "Mod", "ModInverse", "Lsh", "SetBit", "And", "IsEcPointInfinity", "ZForAffine"}
IntOf(x) == [k |-> "i", neg |-> x.neg, v |-> x.v]
NatOf(v) == [k |-> "i", neg |-> FALSE, v |-> v]
BytesOf(v) == [k |-> "b", neg |-> FALSE, v |-> v]
BoolOf(b) == [k |-> "s", neg |-> FALSE, v |-> <<IF b THEN 1 ELSE 0>>]
IsZero(x) == x.v = <<>>
IntResult(fn, A) ==
    LET x == [neg |-> A[1].neg, v |-> A[1].v]
        y == [neg |-> A[2].neg, v |-> A[2].v]
    IN  CASE fn = "Add" -> IntOf(SAdd(x, y))
          [] fn = "Sub" -> IntOf(SSub(x, y))
          [] fn = "Mul" -> IntOf(SMul(x, y))
          [] fn = "Mod" -> IntOf(SMod(x, y))
          [] fn = "ModInverse" -> NatOf(BNModInv(SMod(x, y).v, y.v))
          [] fn = "Lsh" -> IntOf(SLsh(x, A[2].v[1]))
          [] fn = "SetBit" -> IntOf(SSetBit(x, A[2].v[1], A[3].v[1]))
          [] fn = "And" -> IntOf(SAnd(x, y))
          [] fn = "IsEcPointInfinity" -> BoolOf(IsZero(x) /\ IsZero(y))
          [] fn = "ZForAffine" -> NatOf(IF IsZero(x) /\ IsZero(y) THEN <<>> ELSE <<1>>)

\* a call that fails returns nothing
Fails == Ev.out = "err" /\ \A i \in 1..Len(Ev.ret) : (Ev.ret[i].v = <<>> \/ Ev.ret[i] = BoolOf(FALSE))
Gives(valid, want) == IF valid THEN Ev.out = "ok" /\ Ev.ret = want ELSE Fails
Ret(n) == Ev.out = "ok" /\ Len(Ev.ret) = n
IdOf(a) == IF a.k = "nil" THEN DefaultId ELSE a.v
IntRec(i) == [neg |-> i.neg, v |-> i.mag]
AsInt(x) == [neg |-> x.neg, mag |-> x.v]
KeyAt(x, y) == IF x.neg \/ y.neg THEN <<>> ELSE <<x.v, y.v>>
\* results of a call that draws random numbers
Drawn(valid, good) == IF Ev.failed THEN Fails ELSE IF valid THEN good ELSE Fails
SignedBy(d, id, tbs, r) ==
    LET s == SignedOf(r)
    IN  /\ s.st = "ok"
        /\ r = SignedDer(tbs, s.sig)
        /\ VerifiesDer(C, PubOf(C, d), id, tbs, s.sig)
\* A: initiator?, bits, tag, own d and r, own id, their static and ephemeral keys, their id
FirstBits(a, b, n) ==
    /\ SubSeq(a, 1, n \div 8) = SubSeq(b, 1, n \div 8)
    /\ n % 8 # 0 => a[n \div 8 + 1] \div (2 ^ (8 - (n % 8))) = b[n \div 8 + 1] \div (2 ^ (8 - (n % 8)))
KxValue(A) ==
    LET init == A[1].v[1] = 1
        bits == A[2].v[1]
        d == A[4].v
        r == A[5].v
        PO == KeyAt(A[7], A[8])
        RO == KeyAt(A[9], A[10])
        known == OnCurve(C, PO) /\ OnCurve(C, RO) /\ ValidD(C, d) /\ ValidD(C, r)
        RS == PubOf(C, r)
        U == IF known THEN KxPoint(C, d, r, RS, PO, RO) ELSE Infinity
        zs == ZA(C, A[6].v, PubOf(C, d))
        zo == ZA(C, A[11].v, PO)
        zi == IF init THEN zs ELSE zo
        zr == IF init THEN zo ELSE zs
        inner == IF init THEN KxInner(U, zi, zr, RS, RO) ELSE KxInner(U, zi, zr, RO, RS)
    IN  IF known /\ U # Infinity /\ (init => A[3].v = KxTag(2, U, inner))
        THEN /\ Ret(3)
             /\ Len(Ev.ret[1].v) = (bits + 7) \div 8
             /\ FirstBits(Ev.ret[1].v, KxKey(U, zi, zr, bits), bits)
             /\ ~init => Ev.ret[2].v = KxTag(2, U, inner)
             /\ Ev.ret[3].v = KxTag(3, U, inner)
        ELSE Fails
RandomValue(fn, A) ==
    CASE fn \in {"Sign", "SignToRS"} ->
            LET e == MsgE(C, IdOf(A[2]), PubOf(C, A[1].v), A[3].v)
            IN  Drawn(ValidD(C, A[1].v) /\ IdOK(IdOf(A[2])),
                    IF fn = "Sign"
                    THEN Ret(1) /\ LET p == ParseSig(Ev.ret[1].v)
                                   IN  p.ok /\ NonNeg(p.r) /\ NonNeg(p.s) /\ SignatureOf(C, A[1].v, e, p.r.mag, p.s.mag)
                    ELSE Ret(2) /\ ~Ev.ret[1].neg /\ ~Ev.ret[2].neg /\ SignatureOf(C, A[1].v, e, Ev.ret[1].v, Ev.ret[2].v))
      [] fn = "Encrypt" ->
            Drawn(OnCurve(C, KeyAt(A[1], A[2])), Ret(1) /\ CipherTextOf(C, A[5].v, Ev.ret[1].v, A[3].v, A[4].v[1]))
      [] fn = "Issue" -> Drawn(IdOK(IdOf(A[3])), Ret(1) /\ SignedBy(A[2].v, IdOf(A[3]), A[4].v, Ev.ret[1].v))
      [] fn = "CreateCSR" -> IF Ev.failed THEN Fails ELSE Ev.out = "ok" \/ Fails
Value(fn, A) ==
    CASE fn \in Ints -> Ev.out = "ok" /\ Ev.ret = <<IntResult(fn, A)>>
      [] fn = "Sum" -> Gives(TRUE, <<BytesOf(SM3Hash(A[1].v))>>)
      [] fn = "PKCS5Padding" -> Gives(TRUE, <<BytesOf(PKCS5Pad(A[1].v, A[2].v[1]))>>)
      [] fn = "ZeroPadding" -> Gives(TRUE, <<BytesOf(ZeroPad(A[1].v, A[2].v[1]))>>)
      [] fn = "ECBEncrypt" -> LET v == M!ECBValid(A[1].v, A[2].v)
                              IN  Gives(v, IF v THEN <<BytesOf(M!ECBEnc(A[1].v, A[2].v))>> ELSE <<>>)
      [] fn = "ECBDecrypt" -> LET v == M!ECBValid(A[1].v, A[2].v)
                              IN  Gives(v, IF v THEN <<BytesOf(M!ECBDec(A[1].v, A[2].v))>> ELSE <<>>)
      [] fn = "CBCEncrypt" -> LET v == M!CBCValid(A[1].v, A[2].v, A[3].v)
                              IN  Gives(v, IF v THEN <<BytesOf(M!CBCEnc(A[1].v, A[2].v, A[3].v))>> ELSE <<>>)
      [] fn = "CBCDecrypt" -> LET v == M!CBCValid(A[1].v, A[2].v, A[3].v)
                              IN  Gives(v, IF v THEN <<BytesOf(M!CBCDec(A[1].v, A[2].v, A[3].v))>> ELSE <<>>)
      [] fn = "CalculatePubKey" -> LET P == PubOf(C, A[1].v) IN Gives(TRUE, <<NatOf(P[1]), NatOf(P[2])>>)
      [] fn = "PubBytes" -> LET w == W32(A[1].v) \o W32(A[2].v) IN Gives(TRUE, <<BytesOf(<<4>> \o w), BytesOf(w)>>)
      [] fn = "PrivBytes" -> Gives(TRUE, <<BytesOf(W32(A[1].v))>>)
      [] fn = "RawBytesToPublicKey" -> Ev.out = "err" \/ Gives(TRUE, <<NatOf(BNNorm(SubSeq(A[1].v, 1, 32))), NatOf(BNNorm(SubSeq(A[1].v, 33, 64)))>>)
      [] fn = "RawBytesToPrivateKey" -> Ev.out = "err" \/ Gives(TRUE, <<NatOf(BNNorm(A[1].v))>>)
      [] fn = "VerifyByRS" -> Gives(TRUE, <<BoolOf(~A[5].neg /\ ~A[6].neg /\ Verifies(C, KeyAt(A[1], A[2]), IdOf(A[3]), A[4].v, A[5].v, A[6].v))>>)
      [] fn = "MarshalSign" -> Gives(TRUE, <<BytesOf(DerSig(AsInt(A[1]), AsInt(A[2])))>>)
      [] fn = "Verify" -> Gives(TRUE, <<BoolOf(VerifiesDer(C, KeyAt(A[1], A[2]), IdOf(A[3]), A[4].v, A[5].v))>>)
      [] fn = "Decrypt" -> LET w == DecryptWith(C, A[1].v, A[2].v, A[3].v[1])
                           IN  \/ Gives(w.ok, <<BytesOf(w.m)>>)
                               \/ Fails /\ w.ok /\ w.m # <<>> /\ AllZero(StreamOf(C, A[1].v, A[2].v, A[3].v[1]))
      [] fn = "MarshalCipher" -> LET valid == Len(A[1].v) >= 97
                                 IN  \/ Gives(valid, IF valid THEN <<BytesOf(DerCipher(A[1].v, A[2].v[1]))>> ELSE <<>>)
                                     \/ Fails /\ valid /\ A[1].v[1] # 4
      [] fn = "UnmarshalCipher" -> LET w == UnderCipher(A[1].v, A[2].v[1]) IN Gives(w.ok, <<BytesOf(w.ct)>>)
      [] fn = "UnmarshalSign" -> LET w == ParseSig(A[1].v) IN Gives(w.ok, <<IntOf(IntRec(w.r)), IntOf(IntRec(w.s))>>)
      [] fn = "CreateCert" -> Gives(TRUE, <<BytesOf(SignedDer(A[3].v, A[2].v))>>)
      [] fn \in Random -> RandomValue(fn, A)
      [] fn = "ResponderConfirm" -> Gives(TRUE, <<BoolOf(A[1].v = A[2].v)>>)
      [] fn = "KX" -> KxValue(A)
      [] fn \in {"CreateInfo", "ParseCert", "ParseCSR", "VerifyCSR"} -> Ev.out = "ok" \/ Fails

Call == /\ IsEvent("Call") /\ UNCHANGED cells
        /\ Ev.after = cells
        /\ LET A == TLCEval([i \in 1..Len(Ev.args) |-> Val(Ev.args[i])])
               key == <<Ev.fn, A>>
               res == <<Ev.out, Ev.ret>>
           IN  /\ Value(Ev.fn, A)
               /\ IF Ev.fn \in Random THEN UNCHANGED memo
                  ELSE LET old == {i \in 1..Len(memo) : memo[i][1] = key}
                       IN  /\ \A i \in old : memo[i][2] = res
                           /\ memo' = IF old = {} THEN Append(memo, <<key, res>>) ELSE memo
Scribble == IsEvent("Scribble") /\ UNCHANGED <<cells, memo>> /\ Ev.after = cells

\* the caller overwrites a cell of its own
Set == IsEvent("Set") /\ Ev.c > 6 /\ UNCHANGED memo /\ cells' = [cells EXCEPT ![Ev.c] = Ev.v] /\ Ev.after = cells'

Next == (Put \/ Set \/ Call \/ Scribble \/ (Finished /\ UNCHANGED <<cells, memo>>)) /\ UNCHANGED ciphers
Spec == Init /\ [][Next]_vars
===========================================================================
