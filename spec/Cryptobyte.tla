----------------------------- MODULE Cryptobyte -----------------------------
(***************************************************************************)
(* Package cryptobyte: the nested-content machine of Builder and the       *)
(* reading operators of String.                                            *)
(*                                                                         *)
(* A builder is a stack of open frames; frame 1 is the root.  Adding       *)
(* appends to the top frame, closing a frame appends its header and body   *)
(* to the one below.                                                       *)
(***************************************************************************)
EXTENDS DER, FiniteSets

\* ---- base 128, most significant group first; numbers are BigNat
RECURSIVE Groups7(_)
Groups7(v) == IF v = <<>> THEN <<>>
              ELSE LET q == <<BNDiv(v, <<128>>), BNMod(v, <<128>>)>>
                   IN Append(Groups7(TLCEval(q[1])), BNToNat(q[2]))
Base128(v) == LET g == IF v = <<>> THEN <<0>> ELSE Groups7(v)
              IN  [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]

\* ---- object identifiers: sequences of [neg, mag]
OIDValid(o) == /\ Len(o) >= 2
               /\ \A i \in 1..Len(o) : ~IntNeg(o[i])
               /\ BNLe(o[1].mag, <<2>>)
               /\ BNLe(o[1].mag, <<1>>) => BNLt(o[2].mag, <<40>>)
OIDBytes(o) ==
    Base128(BNAdd(BNMul(o[1].mag, <<40>>), o[2].mag))
    \o Cat([i \in 1..(Len(o) - 2) |-> Base128(o[i + 2].mag)])
DerOID(o) == TLV(TagOID, OIDBytes(o))
\* the sub-identifiers of c: [ok, subs]; each is minimal and below 2^31
RECURSIVE SubIds(_)
SubIds(c) ==
    IF c = <<>> THEN [ok |-> TRUE, subs |-> <<>>]
    ELSE LET ends == {i \in 1..Len(c) : c[i] < 128}
         IN  IF ends = {} \/ c[1] = 128 THEN [ok |-> FALSE, subs |-> <<>>]
             ELSE LET e == CHOOSE i \in ends : \A j \in ends : i <= j
                      v == FoldLeft(LAMBDA acc, b : BNAdd(BNMul(acc, <<128>>), BNFromNat(b % 128)), <<>>, SubSeq(c, 1, e))
                      r == SubIds(TLCEval(SubSeq(c, e + 1, Len(c))))
                  IN  [ok |-> BNLt(v, <<128, 0, 0, 0>>) /\ r.ok, subs |-> <<v>> \o r.subs]
NoOID == [ok |-> FALSE, oid |-> <<>>]
OIDOf(c) ==
    LET s == SubIds(c)
    IN  IF c = <<>> \/ ~s.ok THEN NoOID
        ELSE LET v == s.subs[1]
                 a == IF BNLt(v, <<40>>) THEN <<>> ELSE IF BNLt(v, <<80>>) THEN <<1>> ELSE <<2>>
             IN  [ok |-> TRUE,
                  oid |-> <<a, BNSub(v, BNMul(a, <<40>>))>> \o Tail(s.subs)]

\* ---- times: [y, mo, d, h, mi, s], UTC
Dec(n, w) == [i \in 1..w |-> 48 + ((n \div (10 ^ (w - i))) % 10)]
GenTimeBytes(t) == Dec(t.y, 4) \o Dec(t.mo, 2) \o Dec(t.d, 2) \o Dec(t.h, 2) \o Dec(t.mi, 2) \o Dec(t.s, 2) \o <<90>>
OffsetBytes(t, off) == Dec(t.y, 4) \o Dec(t.mo, 2) \o Dec(t.d, 2) \o Dec(t.h, 2) \o Dec(t.mi, 2) \o Dec(t.s, 2)
                       \o <<IF off < 0 THEN 45 ELSE 43>>
                       \o LET a == IF off < 0 THEN 0 - off ELSE off IN Dec(a \div 60, 2) \o Dec(a % 60, 2)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] OTHER -> 31
Digits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
Num(s) == FoldLeft(LAMBDA acc, b : acc * 10 + (b - 48), 0, s)
TimeFields(c) == [y |-> Num(SubSeq(c, 1, 4)), mo |-> Num(SubSeq(c, 5, 6)), d |-> Num(SubSeq(c, 7, 8)),
                  h |-> Num(SubSeq(c, 9, 10)), mi |-> Num(SubSeq(c, 11, 12)), s |-> Num(SubSeq(c, 13, 14))]
TimeOK(t) == /\ t.mo \in 1..12 /\ t.d \in 1..DaysIn(t.y, t.mo)
             /\ t.h < 24 /\ t.mi < 60 /\ t.s < 60
GenTimeOK(c) == Len(c) = 15 /\ Digits(SubSeq(c, 1, 14)) /\ c[15] = 90 /\ TimeOK(TimeFields(c))
\* a time with an explicit zone: BER only, may be taken or refused
ZonedTime(c) == Len(c) = 19 /\ Digits(SubSeq(c, 1, 14)) /\ c[15] \in {43, 45} /\ Digits(SubSeq(c, 16, 19))

\* ---- bit strings
BitsOK(c) == /\ Len(c) >= 1 /\ c[1] <= 7
             /\ Len(c) = 1 => c[1] = 0
             /\ Len(c) > 1 => c[Len(c)] % (2 ^ c[1]) = 0

\* ---- Go integer types: kind -> range
IntKinds == {"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "big"}
KindBits(k) == CASE k \in {"int8", "uint8"} -> 8 [] k \in {"int16", "uint16"} -> 16
                 [] k \in {"int32", "uint32"} -> 32 [] OTHER -> 64
Signed(k) == k \in {"int8", "int16", "int32", "int64", "int"}
TwoTo(b) == <<2 ^ (b % 8)>> \o Zeros(b \div 8)     \* 2^b
FitsKind(v, k) ==
    \/ k = "big"
    \/ /\ Signed(k)
       /\ IF IntNeg(v) THEN BNLe(v.mag, TwoTo(KindBits(k) - 1)) ELSE BNLt(v.mag, TwoTo(KindBits(k) - 1))
    \/ /\ k \in IntKinds \ {"big"} /\ ~Signed(k)
       /\ ~IntNeg(v) /\ BNLt(v.mag, TwoTo(KindBits(k)))

\* ================================================================ Builder
\* frame: [kind |-> "root" | "lp" | "asn1", n |-> prefix width or tag, body]
Root(init) == [kind |-> "root", n |-> 0, body |-> init]
BEmpty(init, cap) == [frames |-> <<Root(init)>>, err |-> FALSE, bad |-> FALSE, cap |-> cap]   \* cap = -1: grows
HighTag(tag) == tag % 32 = 31
HeaderLen(f) == IF f.kind = "root" THEN 0 ELSE IF f.kind = "lp" THEN f.n ELSE 2
RECURSIVE SumHeld(_)
SumHeld(fs) == IF fs = <<>> THEN 0 ELSE HeaderLen(Head(fs)) + Len(Head(fs).body) + SumHeld(TLCEval(Tail(fs)))
\* a fixed builder fails as soon as what it holds exceeds the buffer
Over(b) == b.cap >= 0 /\ SumHeld(b.frames) > b.cap
Checked(b) == IF Over(b) THEN [b EXCEPT !.err = TRUE] ELSE b
Fail(b) == [b EXCEPT !.err = TRUE]
Top(b) == b.frames[Len(b.frames)]
PutBody(b, k, bytes) == [b EXCEPT !.frames[k].body = @ \o bytes]
BAdd(b, bytes) == IF b.err THEN b ELSE Checked(PutBody(b, Len(b.frames), bytes))
BOpen(b, kind, n) ==
    LET c == [b EXCEPT !.frames = Append(@, [kind |-> kind, n |-> n, body |-> <<>>])]
    IN  IF b.err THEN c ELSE IF kind = "asn1" /\ HighTag(n) THEN Fail(c) ELSE Checked(c)
FitsPrefix(f) == f.kind = "lp" => (f.n >= 4 \/ Len(f.body) < 256 ^ f.n)
Closed(f) == IF f.kind = "lp" THEN BNPad(BNFromNat(Len(f.body)), f.n) \o f.body
             ELSE TLV(f.n, f.body)
BClose(b) ==
    LET f == Top(b)
        c == [b EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
    IN  IF b.err THEN c
        ELSE IF ~FitsPrefix(f) THEN Fail(c)
        ELSE Checked(PutBody(c, Len(c.frames), Closed(f)))
BResult(b) == b.frames[1].body
===========================================================================
