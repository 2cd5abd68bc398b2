------------------------------ MODULE TraceKX ------------------------------
(* Traces of the key exchange.                                              *)
EXTENDS TraceBase, SM2
K == INSTANCE KxProtocol

VARIABLE last     \* results of the two most recent calls: B's, then A's
vars == <<tid, l, last>>
Init == TraceInit /\ last = <<>>
Ok == Ev.out = "ok"
Err == Ev.out = "err"
C == SM2Curve
NonNegPoint(x, y) == IF NonNeg(x) /\ NonNeg(y) THEN <<x.mag, y.mag>> ELSE <<>>

\* the first n bits agree
FirstBits(a, b, n) ==
    /\ SubSeq(a, 1, n \div 8) = SubSeq(b, 1, n \div 8)
    /\ n % 8 # 0 => a[n \div 8 + 1] \div (2 ^ (8 - (n % 8))) = b[n \div 8 + 1] \div (2 ^ (8 - (n % 8)))

PO == NonNegPoint(Ev.ox, Ev.oy)      \* the other party's static and ephemeral public keys
RO == NonNegPoint(Ev.rx, Ev.ry)
TKX == IsEvent("KX") /\ Ev.same /\
    LET known == OnCurve(C, PO) /\ OnCurve(C, RO) /\ IdOK(Ev.id) /\ IdOK(Ev.oid)
        PS == PubOf(C, Ev.d)
        RS == PubOf(C, Ev.r)
        U == IF known THEN KxPoint(C, Ev.d, Ev.r, RS, PO, RO) ELSE Infinity
        zs == ZA(C, Ev.id, PS)
        zo == ZA(C, Ev.oid, PO)
        zi == IF Ev.init THEN zs ELSE zo
        zr == IF Ev.init THEN zo ELSE zs
        inner == IF Ev.init THEN KxInner(U, zi, zr, RS, RO) ELSE KxInner(U, zi, zr, RO, RS)
        accept == /\ known /\ U # Infinity
                  /\ Ev.init => ~Ev.niltag /\ Ev.tag = KxTag(2, U, inner)
    IN  /\ IF accept
           THEN /\ Ok
                /\ Len(Ev.key) = (Ev.bits + 7) \div 8
                /\ FirstBits(Ev.key, KxKey(U, zi, zr, Ev.bits), Ev.bits)
                /\ Ev.s2 = KxTag(3, U, inner)
                /\ ~Ev.init => Ev.s1 = KxTag(2, U, inner)
           ELSE Err /\ Ev.nilr
        /\ last' = Append(last, [ok |-> Ok, key |-> Ev.key, bits |-> Ev.bits])

TConfirm == IsEvent("ResponderConfirm") /\ UNCHANGED last /\ Ok /\ Ev.same
            /\ Ev.res = (Ev.a = Ev.b)

\* the concrete outcome of a scenario is what the protocol model says
TSession == IsEvent("Session") /\ last' = <<>> /\ Len(last) >= 2 /\
    LET b == last[Len(last) - 1]
        a == last[Len(last)]
    IN  /\ Ok
        /\ a.ok = K!AAccepts(Ev.s)
        /\ Ev.bacc = K!BAccepts(Ev.s)
        /\ (a.ok /\ b.ok) => ((a.key = b.key) <=> K!KeysEqual(Ev.s))

Next == TKX \/ TConfirm \/ TSession \/ (Finished /\ UNCHANGED last)
Spec == Init /\ [][Next]_vars
===========================================================================
