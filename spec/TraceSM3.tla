----------------------------- MODULE TraceSM3 -----------------------------
(* Validates recorded histories of the sm3 package against SM3Object.      *)
EXTENDS TraceBase, SM3Object

vars == <<tid, l, hashes, macs>>

Init == TraceInit /\ OInit

Ok == Ev.out = "ok"

TNew    == IsEvent("New") /\ Ok /\ New
TWrite  == IsEvent("Write") /\ Ok /\ Ev.n = Len(Ev.p) /\ Ev.err = "" /\ Ev.same
           /\ Write(Ev.o, Ev.p)
TSum    == IsEvent("Sum") /\ Ok /\ Ev.same /\ Ev.r = SumOf(Ev.o, Ev.b) /\ UNCHANGED ovars
TReset  == IsEvent("Reset") /\ Ok /\ Reset(Ev.o)
TSizes  == IsEvent("Sizes") /\ Ok /\ Ev.size = Size /\ Ev.block = BlockSize /\ UNCHANGED ovars
TDigest == IsEvent("Digest") /\ Ok /\ Ev.same /\ Ev.r = SM3Hash(Ev.m) /\ UNCHANGED ovars
TDigestRep == IsEvent("DigestRep") /\ Ok /\ Ev.r = SM3HashRep(Ev.block, Ev.n, Ev.rest)
              /\ UNCHANGED ovars
TNewMac   == IsEvent("NewMac") /\ Ok /\ Ev.size = Size /\ Ev.block = BlockSize /\ NewMac(Ev.key)
TMacWrite == IsEvent("MacWrite") /\ Ok /\ Ev.n = Len(Ev.p) /\ Ev.err = "" /\ Ev.same
             /\ MacWrite(Ev.o, Ev.p)
TMacSum   == IsEvent("MacSum") /\ Ok /\ Ev.same /\ Ev.r = MacOf(Ev.o, Ev.b) /\ UNCHANGED ovars
TMacReset == IsEvent("MacReset") /\ Ok /\ MacReset(Ev.o)

Next == \/ TNew \/ TWrite \/ TSum \/ TReset \/ TSizes \/ TDigest \/ TDigestRep
        \/ TNewMac \/ TMacWrite \/ TMacSum \/ TMacReset
        \/ Finished /\ UNCHANGED ovars

Spec == Init /\ [][Next]_vars

\* the accelerated hash is the specified one (evaluated on every run)
SelfCheck == \A m \in {<<>>, <<97, 98, 99>>, [i \in 1..64 |-> i], [i \in 1..119 |-> 255 - i]} :
                 SM3Hash(m) = SM3HashDef(m)
ASSUME SelfCheck
===========================================================================
