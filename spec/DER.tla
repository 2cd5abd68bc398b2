-------------------------------- MODULE DER --------------------------------
(***************************************************************************)
(* The distinguished encoding rules of X.690 as far as this library needs  *)
(* them: building and strictly parsing tag-length-value elements and       *)
(* INTEGERs.  Integers are records [neg, mag] of sign and magnitude.       *)
(***************************************************************************)
EXTENDS BigNat

TagBool == 1      TagInt == 2      TagBits == 3     TagOctets == 4
TagNull == 5      TagOID == 6      TagEnum == 10    TagUTF8 == 12
TagPrintable == 19 TagIA5 == 22    TagUTCTime == 23 TagGenTime == 24
TagSeq == 48      TagSet == 49

\* ---- encoding
DerLen(n) == IF n < 128 THEN <<n>>
             ELSE LET b == BNFromNat(n) IN <<128 + Len(b)>> \o b
TLV(tag, content) == <<tag>> \o DerLen(Len(content)) \o content

\* concatenation of a sequence of byte strings
Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

IntNeg(i) == i.neg /\ i.mag # <<>>
Nat2Int(n) == [neg |-> FALSE, mag |-> n]
\* content octets of a non-negative integer
UIntBytes(mag) == IF mag = <<>> THEN <<0>>
                  ELSE IF mag[1] >= 128 THEN <<0>> \o mag ELSE mag
\* two's complement: -v = NOT (v - 1)
IntBytes(i) == IF IntNeg(i)
               THEN LET u == UIntBytes(BNSub(i.mag, <<1>>)) IN [k \in 1..Len(u) |-> 255 - u[k]]
               ELSE UIntBytes(i.mag)
DerInt(i) == TLV(TagInt, IntBytes(i))
DerUInt(mag) == TLV(TagInt, UIntBytes(mag))
DerNat(n) == DerUInt(BNFromNat(n))

\* ---- decoding
Bad == [ok |-> FALSE, tag |-> 0, content |-> <<>>, elem |-> <<>>, rest |-> <<>>]

\* the first element of s, its length definite and minimal
ParseTLV(s) ==
    IF Len(s) < 2 \/ (s[1] % 32) = 31 THEN Bad      \* high tag numbers are not used
    ELSE IF s[2] < 128
    THEN IF Len(s) < 2 + s[2] THEN Bad
         ELSE [ok |-> TRUE, tag |-> s[1], content |-> SubSeq(s, 3, 2 + s[2]),
               elem |-> SubSeq(s, 1, 2 + s[2]), rest |-> SubSeq(s, 3 + s[2], Len(s))]
    ELSE LET k == s[2] - 128        \* number of length octets
         IN  IF k = 0 \/ k > 4 \/ Len(s) < 2 + k THEN Bad
             ELSE LET lb == SubSeq(s, 3, 2 + k)
                  IN IF lb[1] = 0 \/ BNCmp(BNNorm(lb), <<128>>) < 0 THEN Bad
                     ELSE IF BNCmp(BNNorm(lb), BNFromNat(Len(s) - 2 - k)) > 0 THEN Bad
                     ELSE LET n == BNToNat(lb)
                          IN [ok |-> TRUE, tag |-> s[1], content |-> SubSeq(s, 3 + k, 2 + k + n),
                              elem |-> SubSeq(s, 1, 2 + k + n),
                              rest |-> SubSeq(s, 3 + k + n, Len(s))]

\* the same for a string too long to be at hand: its first octets and its length
NoHead == [ok |-> FALSE, tag |-> 0, hl |-> 0, n |-> 0]
ParseHead(h, total) ==
    IF Len(h) < 2 \/ (h[1] % 32) = 31 THEN NoHead
    ELSE LET k == IF h[2] < 128 THEN 0 ELSE h[2] - 128
             lb == IF h[2] < 128 THEN <<h[2]>> ELSE SubSeq(h, 3, 2 + k)
         IN  IF h[2] = 128 \/ k > 4 \/ Len(h) < 2 + k THEN NoHead
             ELSE IF (k > 0 /\ (lb[1] = 0 \/ BNCmp(BNNorm(lb), <<128>>) < 0)) \/ BNCmp(BNNorm(lb), BNFromNat(total - 2 - k)) > 0 THEN NoHead
             ELSE [ok |-> TRUE, tag |-> h[1], hl |-> 2 + k, n |-> BNToNat(BNNorm(lb))]

\* minimal two's complement
IntOctetsOK(c) == /\ Len(c) >= 1
                  /\ Len(c) >= 2 => /\ ~(c[1] = 0 /\ c[2] < 128)
                                    /\ ~(c[1] = 255 /\ c[2] >= 128)
IntValue(c) == IF c[1] >= 128
               THEN [neg |-> TRUE,
                     mag |-> BNAdd(BNNorm([k \in 1..Len(c) |-> 255 - c[k]]), <<1>>)]
               ELSE [neg |-> FALSE, mag |-> BNNorm(c)]

\* all elements of a constructed content: [ok, es]
RECURSIVE Elements(_)
Elements(s) ==
    IF s = <<>> THEN [ok |-> TRUE, es |-> <<>>]
    ELSE LET t == ParseTLV(s)
         IN  IF ~t.ok THEN [ok |-> FALSE, es |-> <<>>]
             ELSE LET r == Elements(TLCEval(t.rest))
                  IN [ok |-> r.ok, es |-> <<t>> \o r.es]

\* s is exactly one SEQUENCE whose elements have the given tags
DerSeq(s, tags) ==
    LET t == ParseTLV(s)
        e == IF t.ok THEN Elements(t.content) ELSE [ok |-> FALSE, es |-> <<>>]
        good == /\ t.ok /\ t.tag = TagSeq /\ t.rest = <<>>
                /\ e.ok /\ Len(e.es) = Len(tags)
                /\ \A k \in 1..Len(tags) : e.es[k].tag = tags[k]
    IN  [ok |-> good, es |-> IF good THEN e.es ELSE <<>>]
===========================================================================
