------------------------------ MODULE TraceCB ------------------------------
(* Traces of cryptobyte: programs of Builder calls with the final result,  *)
(* and sequences of String reads with the string that remains after each.  *)
EXTENDS TraceBase, Cryptobyte

VARIABLES b, str
vars == <<tid, l, b, str>>
Init == TraceInit /\ b = BEmpty(<<>>, -1) /\ str = <<>>

\* ================================================================ Builder
Do(e) == b' = e /\ UNCHANGED str
TNewBuilder == IsEvent("NewBuilder") /\ Do(BEmpty(Ev.init, IF Ev.fixed THEN Ev.cap ELSE -1))
TAddUint == IsEvent("AddUint") /\ Do(BAdd(b, SubSeq(Ev.v, 5 - Ev.n, 4)))
TAddBytes == IsEvent("AddBytes") /\ Do(BAdd(b, Ev.b))
TAddInt == IsEvent("AddInt") /\ Do(BAdd(b, TLV(Ev.tag, IntBytes(Ev.v))))
TAddOctets == IsEvent("AddOctets") /\ Do(BAdd(b, TLV(TagOctets, Ev.b)))
TAddBits == IsEvent("AddBits") /\ Do(BAdd(b, TLV(TagBits, <<0>> \o Ev.b)))
TAddBool == IsEvent("AddBool") /\ Do(BAdd(b, <<TagBool, 1, IF Ev.v THEN 255 ELSE 0>>))
TAddNull == IsEvent("AddNull") /\ Do(BAdd(b, <<TagNull, 0>>))
TAddOID == IsEvent("AddOID") /\ Do(IF OIDValid(Ev.oid) THEN BAdd(b, DerOID(Ev.oid)) ELSE Fail(b))
TAddTime == IsEvent("AddTime") /\
    Do(IF Ev.t.y \in 0..9999 THEN BAdd(b, TLV(TagGenTime, GenTimeBytes(Ev.t))) ELSE Fail(b))
\* one time that is `off` minutes ahead of UTC (lt: as a local clock shows it); DER wants it in UTC,
\* the package documents neither form
TZonedPart == IsEvent("ZonedPart") /\ Do(b) /\
    \/ Ev.out = "ok" /\ Ev.t.y \in 0..9999 /\ Ev.r = TLV(TagGenTime, GenTimeBytes(Ev.t))
    \/ Ev.out = "ok" /\ Ev.lt.y \in 0..9999 /\ Ev.r = TLV(TagGenTime, OffsetBytes(Ev.lt, Ev.off))
    \/ Ev.out = "err" /\ {Ev.t.y, Ev.lt.y} \ (0..9999) # {}
\* a value that reports an error, in any of the ways the package offers
TAddErr == IsEvent("AddErr") /\ Do(Fail(b))
\* writing to a builder while a child of it is open is not allowed
TParentWrite == IsEvent("ParentWrite") /\ Do([b EXCEPT !.bad = TRUE])
TOpen == IsEvent("Open") /\ Do(BOpen(b, Ev.kind, Ev.n))
TClose == IsEvent("Close") /\ Len(b.frames) > 1 /\ Do(BClose(b))
TResult == IsEvent("Result") /\ Do(b) /\ Ev.same /\ (Ev.out # "panic" => Ev.bop = (IF Ev.out = "ok" THEN "ok" ELSE "panic") /\ Ev.r2 = Ev.r) /\
    IF b.bad THEN Ev.out \in {"panic", "err"}
    ELSE IF b.err THEN Ev.out = "err" /\ Ev.r = <<>>
    ELSE /\ Ev.out = "ok" /\ Len(b.frames) = 1
         /\ Ev.r = BResult(b)
         /\ b.cap >= 0 => Ev.inplace
\* one length-prefixed part of n zero bytes, too long to record
TBigPart == IsEvent("BigPart") /\ Do(b) /\ Ev.same /\
    LET lb == BNFromNat(Ev.n)
        hdr == IF Ev.kind = "lp" THEN BNPad(lb, Ev.w) ELSE <<Ev.w>> \o DerLen(Ev.n)
        total == Len(hdr) + Ev.n
    IN  IF (Ev.kind = "lp" /\ Len(lb) > Ev.w) \/ (Ev.cap >= 0 /\ total > Ev.cap)
        THEN Ev.out = "err" /\ Ev.total = 0
        ELSE Ev.out = "ok" /\ Ev.total = total /\ Ev.hdr = hdr /\ Ev.zeros

\* ================================================================ String
From(i) == SubSeq(str, i, Len(str))
IsRest(r) == Len(r) <= Len(str) /\ r = From(Len(str) - Len(r) + 1)
Read(rest) == str' = rest /\ UNCHANGED b
Fixed(op) == IsEvent(op) /\ Ev.same /\ Ev.out = "ok" /\ IsRest(Ev.rest) /\ Read(Ev.rest)
\* an operation that reads exactly n bytes or nothing
Exact(n) == /\ Ev.res = (n >= 0 /\ n <= Len(str))
            /\ Ev.rest = IF Ev.res THEN From(n + 1) ELSE str
TNewString == IsEvent("NewString") /\ Read(Ev.b)
TEmpty == Fixed("Empty") /\ Ev.rest = str /\ Ev.res = (str = <<>>)
TSkip == Fixed("Skip") /\ Exact(Ev.n)
TReadUint == Fixed("ReadUint") /\ Exact(Ev.n)
             /\ (Ev.res => Ev.val = BNPad(SubSeq(str, 1, Ev.n), 4))
TReadBytes == Fixed("ReadBytes") /\ Exact(Ev.n) /\ (Ev.res => Ev.val = SubSeq(str, 1, Ev.n))
TCopyBytes == Fixed("CopyBytes") /\ Exact(Ev.n) /\ (Ev.res => Ev.val = SubSeq(str, 1, Ev.n))
TReadLP == Fixed("ReadLP") /\
    LET n == IF Len(str) >= Ev.n THEN BNToNat(SubSeq(str, 1, Ev.n)) ELSE 0
        good == Len(str) >= Ev.n /\ n <= Len(str) - Ev.n
    IN  /\ Ev.res = good
        /\ good => Ev.val = SubSeq(str, Ev.n + 1, Ev.n + n) /\ Ev.rest = From(Ev.n + n + 1)

\* one read of a string of total octets, too long to record: head is how it begins; what was read is described by its length,
\* by where it lies (at), and by whether its octets are those of the string there
TBigRead == IsEvent("BigRead") /\ Do(b) /\ Ev.same /\ Ev.out = "ok" /\ Ev.restok /\
    LET t == ParseHead(Ev.head, Ev.total)
        lb == BNNorm(SubSeq(Ev.head, 1, Ev.n))
        lpok == Ev.total >= Ev.n /\ BNCmp(lb, BNFromNat(Ev.total - Ev.n)) <= 0
        tagok == t.ok /\ t.tag = Ev.tag
        Got(from, n) == Ev.len = n /\ (n > 0 => Ev.at = from) /\ Ev.rest = Ev.total - from - n
    IN  CASE Ev.how = "lp" -> Ev.res = lpok /\ (lpok => Got(Ev.n, BNToNat(lb)))
          [] Ev.how = "bytes" -> Ev.res = (Ev.n <= Ev.total) /\ (IF Ev.res THEN Got(0, Ev.n) ELSE Ev.rest = Ev.total)
          [] Ev.how = "skip" -> Ev.res = (Ev.n <= Ev.total) /\ Ev.rest = Ev.total - (IF Ev.res THEN Ev.n ELSE 0)
          [] Ev.how = "any" -> Ev.res = t.ok /\ (t.ok => Ev.gottag = t.tag /\ Got(t.hl, t.n))
          [] Ev.how = "anyelement" -> Ev.res = t.ok /\ (t.ok => Ev.gottag = t.tag /\ Got(0, t.hl + t.n))
          [] Ev.how = "asn1" -> Ev.res = tagok /\ (tagok => Got(t.hl, t.n))
          [] Ev.how = "element" -> Ev.res = tagok /\ (tagok => Got(0, t.hl + t.n))
          [] Ev.how = "skipasn1" -> Ev.res = tagok /\ (tagok => Ev.rest = Ev.total - t.hl - t.n)
          [] Ev.how = "optional" -> Ev.res = tagok /\ (tagok => Ev.present /\ Got(t.hl, t.n))   \* the tag is there
          [] OTHER -> FALSE

T1 == ParseTLV(str)
HasTag(tag) == str # <<>> /\ str[1] = tag
TPeek == Fixed("Peek") /\ Ev.rest = str /\ Ev.res = HasTag(Ev.tag)
\* reads one element (any == any tag)
TReadTLV == Fixed("ReadTLV") /\
    LET t == T1
        good == t.ok /\ (Ev.any \/ t.tag = Ev.tag)
    IN  /\ Ev.res = good
        /\ good => /\ Ev.rest = t.rest
                   /\ Ev.val = (IF Ev.element THEN t.elem ELSE t.content)
                   /\ Ev.any => Ev.gottag = t.tag
TSkipTLV == Fixed("SkipTLV") /\
    IF Ev.optional /\ ~HasTag(Ev.tag) THEN Ev.res /\ Ev.rest = str
    ELSE LET t == T1 IN
         /\ Ev.res = (t.ok /\ t.tag = Ev.tag)
         /\ (Ev.res => Ev.rest = t.rest)
TReadOptional == Fixed("ReadOptional") /\
    IF ~HasTag(Ev.tag) THEN Ev.res /\ Ev.rest = str /\ ~Ev.present
    ELSE LET t == T1 IN
         /\ Ev.res = t.ok
         /\ t.ok => Ev.present /\ Ev.val = t.content /\ Ev.rest = t.rest

\* a typed read: good(content) and value(content) decide
Typed(tag, good(_), right(_)) ==
    LET t == T1
        g == t.ok /\ t.tag = tag /\ good(t.content)
    IN  /\ Ev.res = g
        /\ g => Ev.rest = t.rest /\ right(t.content)
IntGood(c) == IntOctetsOK(c) /\ FitsKind(IntValue(c), Ev.kind)
IntRight(c) == Ev.val = IntValue(c)
BoolGood(c) == c \in {<<0>>, <<255>>}
BoolRight(c) == Ev.val = (c = <<255>>)
TReadInt == Fixed("ReadInt") /\ Typed(TagInt, IntGood, IntRight)
TReadEnum == Fixed("ReadEnum") /\ Typed(TagEnum, IntGood, IntRight)
TReadBool == Fixed("ReadBool") /\ Typed(TagBool, BoolGood, BoolRight)
TReadOptBool == Fixed("ReadOptBool") /\
    IF ~HasTag(TagBool) THEN Ev.res /\ Ev.rest = str /\ Ev.val = Ev.def
    ELSE Typed(TagBool, BoolGood, BoolRight)
TReadOID == Fixed("ReadOID") /\ Typed(TagOID, LAMBDA c : OIDOf(c).ok, LAMBDA c : Ev.val = OIDOf(c).oid)
TReadBits == Fixed("ReadBits") /\
    Typed(TagBits, BitsOK, LAMBDA c : Ev.val = Tail(c) /\ Ev.bits = 8 * (Len(c) - 1) - c[1])
TReadBitsAsBytes == Fixed("ReadBitsAsBytes") /\
    Typed(TagBits, LAMBDA c : c # <<>> /\ c[1] = 0, LAMBDA c : Ev.val = Tail(c))
TReadTime == Fixed("ReadTime") /\
    LET t == T1
        g == t.ok /\ t.tag = TagGenTime
    IN  IF g /\ ZonedTime(t.content) THEN TRUE
        ELSE Typed(TagGenTime, GenTimeOK, LAMBDA c : Ev.val = TimeFields(c) /\ Ev.off = 0)
TReadOptInt == Fixed("ReadOptInt") /\
    IF ~HasTag(Ev.tag) THEN Ev.res /\ Ev.rest = str /\ Ev.val = Ev.def
    ELSE LET t == T1
             i == IF t.ok THEN ParseTLV(t.content) ELSE Bad
             g == i.ok /\ i.tag = TagInt /\ i.rest = <<>> /\ IntGood(i.content)
         IN  Ev.res = g /\ (g => Ev.rest = t.rest /\ IntRight(i.content))
TReadOptOctets == Fixed("ReadOptOctets") /\
    IF ~HasTag(Ev.tag) THEN Ev.res /\ Ev.rest = str /\ ~Ev.present /\ Ev.val = <<>>
    ELSE LET t == T1
             i == IF t.ok THEN ParseTLV(t.content) ELSE Bad
             g == i.ok /\ i.tag = TagOctets /\ i.rest = <<>>
         IN  Ev.res = g /\ (g => Ev.rest = t.rest /\ Ev.present /\ Ev.val = i.content)

Next == TNewBuilder \/ TAddUint \/ TAddBytes \/ TAddInt \/ TAddOctets \/ TAddBits \/ TAddBool \/ TAddNull
        \/ TAddOID \/ TAddTime \/ TZonedPart \/ TAddErr \/ TParentWrite \/ TOpen \/ TClose \/ TResult \/ TBigPart \/ TBigRead
        \/ TNewString \/ TEmpty \/ TSkip \/ TReadUint \/ TReadBytes \/ TCopyBytes \/ TReadLP
        \/ TPeek \/ TReadTLV \/ TSkipTLV \/ TReadOptional \/ TReadInt \/ TReadEnum \/ TReadBool \/ TReadOptBool
        \/ TReadOID \/ TReadBits \/ TReadBitsAsBytes \/ TReadTime \/ TReadOptInt \/ TReadOptOctets
        \/ (Finished /\ UNCHANGED <<b, str>>)
Spec == Init /\ [][Next]_vars
===========================================================================
