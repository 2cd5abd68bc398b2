----------------------------- MODULE TraceSM4 -----------------------------
EXTENDS TraceBase, SM4Object
vars == <<tid, l, ciphers>>
Init == TraceInit /\ CInit
Ok == Ev.out = "ok"
Same == UNCHANGED ciphers

TNew == IsEvent("NewCipher") /\
        IF Len(Ev.key) = 16
        THEN Ok /\ Ev.same /\ Ev.bs = 16 /\ NewCipher(Ev.key)
        ELSE Ev.out = "err" /\ Ev.same /\ Ev.nilout /\ Same

\* dst had some content before; only its first 16 bytes change
Put(dst, block) == [i \in 1..Len(dst) |-> IF i <= 16 THEN block[i] ELSE dst[i]]
TEnc == IsEvent("BlockEncrypt") /\ Ok /\ Ev.same /\ Same
        /\ Ev.dst2 = Put(Ev.dst, Crypt(ciphers[Ev.o].e, SubSeq(Ev.src, 1, 16)))
TDec == IsEvent("BlockDecrypt") /\ Ok /\ Ev.same /\ Same
        /\ Ev.dst2 = Put(Ev.dst, Crypt(ciphers[Ev.o].d, SubSeq(Ev.src, 1, 16)))

Result(valid, want) == /\ Ev.same /\ Ev.fresh
                       /\ IF valid THEN Ok /\ Ev.r = want
                                   ELSE Ev.out = "err" /\ Ev.nilout
TECBEnc == IsEvent("ECBEncrypt") /\ Same
           /\ LET v == ECBValid(Ev.key, Ev.m) IN Result(v, IF v THEN ECBEnc(Ev.key, Ev.m) ELSE <<>>)
TECBDec == IsEvent("ECBDecrypt") /\ Same
           /\ LET v == ECBValid(Ev.key, Ev.m) IN Result(v, IF v THEN ECBDec(Ev.key, Ev.m) ELSE <<>>)
TCBCEnc == IsEvent("CBCEncrypt") /\ Same
           /\ LET v == CBCValid(Ev.key, Ev.iv, Ev.m)
              IN Result(v, IF v THEN CBCEnc(Ev.key, Ev.iv, Ev.m) ELSE <<>>)
TCBCDec == IsEvent("CBCDecrypt") /\ Same
           /\ LET v == CBCValid(Ev.key, Ev.iv, Ev.m)
              IN Result(v, IF v THEN CBCDec(Ev.key, Ev.iv, Ev.m) ELSE <<>>)

Next == TNew \/ TEnc \/ TDec \/ TECBEnc \/ TECBDec \/ TCBCEnc \/ TCBCDec
        \/ (Finished /\ Same)
Spec == Init /\ [][Next]_vars
===========================================================================
