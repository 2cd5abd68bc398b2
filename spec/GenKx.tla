------------------------------- MODULE GenKx -------------------------------
(* Every scenario of the attacker; each one is printed for replay against   *)
(* the implementation.                                                      *)
EXTENDS KxProtocol, Json
VARIABLES s, ph
Init == s = [aPeer |-> "?"] /\ ph = 0
Next == ph = 0 /\ s' \in Scenarios /\ ph' = 1
Spec == Init /\ [][Next]_<<s, ph>>
Go == ph = 1
\* A's view mirrored
Mirror(v) == View(~v.init, v.ost, v.oeph, v.oid, v.st, v.eph, v.id)
\* an initiator that accepts B has a responder B with exactly the mirrored view
InitiatorAgreement == (Go /\ AAccepts(s) /\ s.aPeer = "B") =>
    BView(s) = Mirror(AView(s)) /\ KeysEqual(s)
ResponderAgreement == (Go /\ BAccepts(s)) =>
    BView(s) = Mirror(AView(s)) /\ KeysEqual(s) /\ AAccepts(s)
\* the attacker does not share the key of an accepting initiator that talks to B
Secrecy == (Go /\ AAccepts(s) /\ s.aPeer = "B") => ~\E p \in Shared(AView(s)) : p[1] = "E"
\* an undisturbed run succeeds
Completes == (Go /\ s.aPeer = "B" /\ s.aEph = "b1" /\ s.aId = "idB" /\ s.bPeer = "A" /\ s.bEph = "a1"
              /\ s.bId = "idA" /\ s.tag = "S1" /\ s.fin = "S2") => AAccepts(s) /\ BAccepts(s) /\ KeysEqual(s)
Emit == Go => PrintT(ToJson(s))
=============================================================================
