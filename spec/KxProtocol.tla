----------------------------- MODULE KxProtocol -----------------------------
(***************************************************************************)
(* The key exchange with confirmation of GB/T 32918.3 under an active      *)
(* attacker, symbolically.                                                 *)
(*                                                                         *)
(* Principals A (initiator), B (responder) and the attacker E own static   *)
(* keys; a1, b1 are the ephemeral keys of the present session, a0, b0 those *)
(* of an earlier session between A and B, e1 belongs to E.  E controls the *)
(* network and what each side is told: it may substitute, replay, reflect  *)
(* or withhold every message, and claim identities.  The shared point is a *)
(* term that both owners of a side can compute.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

\* what one side knows: its role and its view of both parties
View(init, st, eph, id, ost, oeph, oid) ==
    [init |-> init, st |-> st, eph |-> eph, id |-> id, ost |-> ost, oeph |-> oeph, oid |-> oid]

Shared(v) == {<<v.st, v.eph>>, <<v.ost, v.oeph>>}
ZOf(st, id) == <<"Z", st, id>>
ZI(v) == IF v.init THEN ZOf(v.st, v.id) ELSE ZOf(v.ost, v.oid)
ZR(v) == IF v.init THEN ZOf(v.ost, v.oid) ELSE ZOf(v.st, v.id)
RI(v) == IF v.init THEN v.eph ELSE v.oeph
RR(v) == IF v.init THEN v.oeph ELSE v.eph
Key(v) == <<"K", Shared(v), ZI(v), ZR(v)>>
Tag(b, v) == <<b, Shared(v), ZI(v), ZR(v), RI(v), RR(v)>>
NoTag == <<0>>
Junk == <<1>>        \* a tag with some bit changed: equal to no tag

(* A scenario: what A and B are given.                                     *)
(*  aPeer, bPeer: the peer's static key;  aEph, bEph: the ephemeral        *)
(*  received;  aId, bId: the identity the peer claims;  tag: what arrives  *)
(*  at A as confirmation;  fin: what arrives at B at the end.              *)
Scenarios == [ aPeer : {"B", "E"}, aEph : {"b1", "b0", "e1", "a1"}, aId : {"idB", "idE", "nil"},
               bPeer : {"A", "E"}, bEph : {"a1", "a0", "e1", "b1"}, bId : {"idA", "idE", "nil"},
               tag : {"S1", "S2", "old", "forged", "flip", "none"}, fin : {"S2", "S1", "flip", "old"} ]

AView(s) == View(TRUE, "A", "a1", "idA", s.aPeer, s.aEph, s.aId)
BView(s) == View(FALSE, "B", "b1", "idB", s.bPeer, s.bEph, s.bId)
OldB == View(FALSE, "B", "b0", "idB", "A", "a0", "idA")
OldA == View(TRUE, "A", "a0", "idA", "B", "b0", "idB")
\* E as the responder to A with its own keys, and as the initiator to B
EToA == View(FALSE, "E", "e1", "idE", "A", "a1", "idA")

TagToA(s) == CASE s.tag = "S1" -> Tag(2, BView(s))
               [] s.tag = "S2" -> Tag(3, BView(s))
               [] s.tag = "old" -> Tag(2, OldB)
               [] s.tag = "forged" -> Tag(2, EToA)
               [] s.tag = "flip" -> Junk
               [] s.tag = "none" -> NoTag
AAccepts(s) == TagToA(s) = Tag(2, AView(s))
\* what B compares with its own S2
TagToB(s) == CASE s.fin = "S2" -> IF AAccepts(s) THEN Tag(3, AView(s)) ELSE NoTag
               [] s.fin = "S1" -> Tag(2, BView(s))
               [] s.fin = "flip" -> Junk
               [] s.fin = "old" -> Tag(3, OldA)
BAccepts(s) == TagToB(s) = Tag(3, BView(s))
KeysEqual(s) == Key(AView(s)) = Key(BView(s))
=============================================================================
