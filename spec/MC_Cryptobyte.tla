--------------------------- MODULE MC_Cryptobyte ---------------------------
(* Laws of the encodings over every short string: whatever is accepted is   *)
(* the encoding of the value read (so each value has one encoding), and     *)
(* every value's encoding is accepted and gives it back.                    *)
EXTENDS Cryptobyte

Alpha == {0, 1, 2, 5, 39, 40, 79, 80, 127, 128, 129, 130, 136, 255}
Nums == {<<>>, <<1>>, <<39>>, <<40>>, <<127>>, <<128>>, <<255>>, <<1, 0>>, <<63, 255>>, <<64, 0>>,
         <<127, 255, 255, 255>>, <<1, 0, 0, 0>>}
N(x) == [neg |-> FALSE, mag |-> x]

VARIABLES s, n
Init == s = <<>> /\ n = 0
Next == /\ n < 4 /\ n' = n + 1
        /\ \E x \in Alpha : s' = Append(s, x)
Spec == Init /\ [][Next]_<<s, n>>

ElementUnique == LET t == ParseTLV(s) IN t.ok => t.elem = TLV(t.tag, t.content) /\ s = t.elem \o t.rest
HeadAgrees == LET t == ParseTLV(s)
                  h == ParseHead(SubSeq(s, 1, IF Len(s) > 6 THEN 6 ELSE Len(s)), Len(s))
              IN  /\ t.ok = h.ok
                  /\ t.ok => t.tag = h.tag /\ t.content = SubSeq(s, h.hl + 1, h.hl + h.n)
IntUnique == s # <<>> => /\ IntOctetsOK(s) => IntBytes(IntValue(s)) = s
                         /\ IntOctetsOK(IntBytes(IntValue(s)))
                         /\ IntValue(IntBytes(IntValue(s))) = IntValue(s)
                         /\ IntOctetsOK(s) <=> IntBytes(IntValue(s)) = s
OIDUnique == LET o == OIDOf(s) IN o.ok => /\ OIDValid([i \in 1..Len(o.oid) |-> N(o.oid[i])])
                                          /\ OIDBytes([i \in 1..Len(o.oid) |-> N(o.oid[i])]) = s
OIDBack == s = <<>> => \A a \in {<<>>, <<1>>, <<2>>}, b \in Nums, c \in Nums :
              LET o == <<N(a), N(b), N(c)>>
              IN  (OIDValid(o) /\ BNLt(BNAdd(BNMul(a, <<40>>), b), <<128, 0, 0, 0>>)) => OIDOf(OIDBytes(o)) = [ok |-> TRUE, oid |-> <<a, b, c>>]
TimeBack == s = <<>> => \A y \in {0, 4, 1900, 2000, 2023, 9999}, mo \in 1..12, d \in 1..31 :
              LET t == [y |-> y, mo |-> mo, d |-> d, h |-> 23, mi |-> 0, s |-> 59]
              IN  TimeOK(t) => GenTimeOK(GenTimeBytes(t)) /\ TimeFields(GenTimeBytes(t)) = t
KindsOrdered == s # <<>> /\ IntOctetsOK(s) =>
    LET v == IntValue(s) IN
    /\ FitsKind(v, "int8") => FitsKind(v, "int16")
    /\ FitsKind(v, "int8") <=> Len(s) = 1
    /\ FitsKind(v, "uint8") <=> (~v.neg /\ Len(v.mag) <= 1)
    /\ FitsKind(v, "int16") <=> Len(s) <= 2
    /\ FitsKind(v, "int32") <=> Len(s) <= 4
=============================================================================
