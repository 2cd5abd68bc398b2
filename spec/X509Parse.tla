----------------------------- MODULE X509Parse -----------------------------
(***************************************************************************)
(* Package sm2/cert, the reading side.  A parse gives a status             *)
(*   "ok"    well-formed DER within the profile: has to be accepted, with  *)
(*           exactly the value given here                                  *)
(*   "bad"   has to be refused                                             *)
(*   "grey"  irregular in a way a reader may tolerate or refuse (elements  *)
(*           after the known ones in a SEQUENCE, BER time forms, defaults  *)
(*           written out, duplicate extensions it knows, foreign strings,  *)
(*           an EXPLICIT wrapper that does not hold exactly its value ...)  *)
(*   "either" may be refused (an unknown extension that is there twice);   *)
(*           if it is accepted, then with exactly the value given here     *)
(* A structure is as bad as its worst part.                                *)
(***************************************************************************)
EXTENDS X509

St(b) == IF b THEN "ok" ELSE "bad"
Unless(b, g) == IF b THEN "ok" ELSE g
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "grey" \in S THEN "grey" ELSE IF "either" \in S THEN "either" ELSE "ok"
WorstOf(s) == Worst({s[i].st : i \in 1..Len(s)})
HighForm(c) == c # <<>> /\ c[1] % 32 = 31

\* the elements of a constructed content
RECURSIVE Elems(_)
Elems(c) ==
    IF c = <<>> THEN [st |-> "ok", es |-> <<>>]
    ELSE LET t == ParseTLV(c)
         IN  IF ~t.ok THEN [st |-> IF HighForm(c) THEN "grey" ELSE "bad", es |-> <<>>]
             ELSE LET r == Elems(TLCEval(t.rest)) IN [st |-> r.st, es |-> <<t>> \o r.es]
\* the leading elements of c with the given tags (0: any); what follows them
RECURSIVE Lead(_, _)
Lead(c, tags) ==
    IF tags = <<>> THEN [st |-> "ok", es |-> <<>>, rest |-> c]
    ELSE LET t == ParseTLV(c)
         IN  IF ~t.ok \/ (Head(tags) # 0 /\ t.tag # Head(tags))
             THEN [st |-> IF Head(tags) = 0 /\ HighForm(c) THEN "grey" ELSE "bad", es |-> <<>>, rest |-> <<>>]
             ELSE LET r == Lead(t.rest, Tail(tags)) IN [st |-> r.st, es |-> <<t>> \o r.es, rest |-> r.rest]
\* a whole value: one element with this tag and nothing behind it
One(v, tag) == LET t == ParseTLV(v)
               IN [st |-> St(t.ok /\ t.tag = tag /\ t.rest = <<>>), c |-> t.content]
\* SEQUENCE OF: F(element) gives a record with a field st
ListOf(v, F(_)) ==
    LET o == One(v, TagSeq)
        e == IF o.st = "ok" THEN Elems(o.c) ELSE [st |-> "bad", es |-> <<>>]
        fs == MapSeq(F, e.es)
    IN  [st |-> Worst({o.st, e.st} \cup {WorstOf(fs)}), v |-> fs]

\* ---- object identifiers as content octets
OidSt(c) == St(OIDOf(c).ok)
OidElem(t) == [st |-> IF t.tag # TagOID THEN "bad" ELSE OidSt(t.content), v |-> t.content]

\* ---- names
StringSt(t) ==
    CASE t.tag = TagPrintable -> IF Printable(t.content) THEN "ok"
                                 ELSE IF \A i \in 1..Len(t.content) : PrintableByte(t.content[i]) \/ t.content[i] \in {38, 42}
                                 THEN "grey" ELSE "bad"
      [] t.tag = TagUTF8 -> St(UTF8OK(t.content))
      [] t.tag = TagIA5 -> St(IA5(t.content))
      [] OTHER -> "grey"
AtvOf(t) ==
    LET f == Lead(t.content, <<TagOID, 0>>)
    IN  IF t.tag # TagSeq \/ f.st = "bad" THEN [st |-> "bad", v |-> <<>>]
        ELSE IF f.st = "grey" THEN [st |-> "grey", v |-> <<>>]
        ELSE [st |-> Worst({OidSt(f.es[1].content), StringSt(f.es[2]), Unless(f.rest = <<>>, "grey")}),
              v |-> [oid |-> f.es[1].content, v |-> f.es[2].content]]
Ascending(es) == \A i \in 1..(Len(es) - 1) : ~LexLess(es[i + 1].elem, es[i].elem)
RdnSetOf(t) ==
    LET e == Elems(t.content)
        as == MapSeq(AtvOf, e.es)
    IN  IF t.tag # TagSet THEN [st |-> "bad", v |-> <<>>]
        ELSE [st |-> Worst({e.st, WorstOf(as), Unless(e.es # <<>> /\ Ascending(e.es), "grey")}), v |-> MapSeq(LAMBDA a : a.v, as)]
\* the attributes of a name, in order
NameOf(v) == LET l == ListOf(v, RdnSetOf)
             IN  [st |-> l.st, v |-> IF l.st = "bad" THEN <<>> ELSE Cat(MapSeq(LAMBDA r : r.v, l.v))]
ValuesOf(as, oid) == MapSeq(LAMBDA a : a.v, SelectSeq(as, LAMBDA a : a.oid = oid))
LastOf(s) == IF s = <<>> THEN <<>> ELSE s[Len(s)]
\* v: a name as the library presents it
ShowsName(v, as) ==
    /\ v.c = ValuesOf(as, AtC) /\ v.o = ValuesOf(as, AtO) /\ v.ou = ValuesOf(as, AtOU) /\ v.l = ValuesOf(as, AtL)
    /\ v.st = ValuesOf(as, AtST) /\ v.street = ValuesOf(as, AtStreet) /\ v.pc = ValuesOf(as, AtPC)
    /\ v.cn = LastOf(ValuesOf(as, AtCN)) /\ v.sn = LastOf(ValuesOf(as, AtSN))
    /\ Len(v.names) = Len(as)
    /\ \A i \in 1..Len(as) : OIDBytes(v.names[i].oid) = as[i].oid /\ v.names[i].v = as[i].v

\* ---- algorithms, keys, signatures
SigAlgSt(t) ==      \* outer
    LET f == Lead(t.content, <<TagOID>>)
    IN  IF f.st # "ok" \/ OidSt(f.es[1].content) # "ok" \/ f.es[1].content # OidSM2Sig THEN "bad"
        ELSE Unless(f.rest = <<>>, "grey")
InnerAlgSt(t) ==
    LET f == Lead(t.content, <<TagOID>>)
    IN  IF f.st # "ok" \/ OidSt(f.es[1].content) # "ok" THEN "bad"
        ELSE Unless(f.es[1].content = OidSM2Sig /\ f.rest = <<>>, "grey")
BitsSt(c) == IF ~BitsOK(c) THEN "bad" ELSE Unless(c[1] = 0, "grey")
KeyOf(t) ==
    LET f == Lead(t.content, <<TagSeq, TagBits>>)
        a == IF f.st = "ok" THEN Lead(f.es[1].content, <<TagOID, TagOID>>) ELSE f
        k == IF f.st = "ok" THEN f.es[2].content ELSE <<>>
        pt == IF Len(k) = 66 THEN <<BNNorm(SubSeq(k, 3, 34)), BNNorm(SubSeq(k, 35, 66))>> ELSE <<>>
        algOK == f.st = "ok" /\ a.st = "ok" /\ a.es[1].content = OidEC /\ a.es[2].content = OidSM2Curve
        st == IF ~algOK \/ ~BitsOK(k) THEN "bad"
              ELSE IF k[1] # 0 THEN "grey"
              ELSE Worst({Unless(a.rest = <<>> /\ f.rest = <<>>, "grey"),
                          St(Len(k) = 66 /\ k[2] = 4 /\ OnCurve(SM2Curve, pt))})
    IN  [st |-> st, v |-> pt]

\* ---- times
TimeOf(t) ==
    LET c == t.content
        good2 == Len(c) = 13 /\ Digits(SubSeq(c, 1, 12)) /\ c[13] = 90
        yy == Num(SubSeq(c, 1, 2))
        cc == IF yy >= 50 THEN <<49, 57>> ELSE <<50, 48>>
        f == TimeFields(cc \o c)
    IN  IF t.tag = TagUTCTime
        THEN IF good2 THEN [st |-> St(TimeOK(f)), v |-> f]
             ELSE [st |-> IF Len(c) \in {11, 13, 15, 17} THEN "grey" ELSE "bad", v |-> <<>>]
        ELSE IF t.tag = TagGenTime
        THEN IF Len(c) = 15 /\ Digits(SubSeq(c, 1, 14)) /\ c[15] = 90
             THEN [st |-> St(TimeOK(TimeFields(c))), v |-> TimeFields(c)]
             ELSE [st |-> "grey", v |-> <<>>]
        ELSE [st |-> "bad", v |-> <<>>]

\* ---- extensions
ExtOf(t) ==
    LET f == Lead(t.content, <<TagOID>>)
        b == ParseTLV(f.rest)
        hasB == f.st = "ok" /\ b.ok /\ b.tag = TagBool
        o == IF f.st # "ok" THEN f ELSE Lead(IF hasB THEN b.rest ELSE f.rest, <<TagOctets>>)
    IN  IF t.tag # TagSeq \/ f.st # "ok" \/ o.st # "ok" THEN [st |-> "bad", v |-> <<>>]
        ELSE [st |-> Worst({OidSt(f.es[1].content), Unless(o.rest = <<>>, "grey")}
                           \cup (IF hasB THEN {IF b.content = <<255>> THEN "ok" ELSE IF b.content = <<0>> THEN "grey" ELSE "bad"} ELSE {})),
              v |-> Ext(f.es[1].content, hasB /\ b.content = <<255>>, o.es[1].content)]

\* key usage: the number with bit i for bit i of the string
KUOf(v) ==
    LET o == One(v, TagBits)
        c == o.c
        n == 8 * (Len(c) - 1) - c[1]
        bit(i) == IF i < n /\ (c[2 + (i \div 8)] \div (2 ^ (7 - (i % 8)))) % 2 = 1 THEN 2 ^ i ELSE 0
    IN  IF o.st = "bad" THEN [st |-> "bad", v |-> 0]
        ELSE IF ~BitsOK(c) THEN [st |-> "bad", v |-> 0]
        ELSE [st |-> Unless(n \in 1..9 /\ bit(n - 1) # 0, "grey"),
              v |-> FoldLeft(LAMBDA a, i : a + bit(i), 0, <<0, 1, 2, 3, 4, 5, 6, 7, 8>>)]
EKUOf(v) ==
    LET l == ListOf(v, OidElem)
        os == MapSeq(LAMBDA x : x.v, l.v)
        num(c) == CHOOSE i \in 1..Len(KeyPurposes) : KeyPurposes[i] = c
    IN  IF l.st = "bad" THEN [st |-> "bad", known |-> <<>>, unknown |-> <<>>]
        ELSE [st |-> Worst({l.st, Unless(os # <<>>, "grey")}),
              known |-> MapSeq(LAMBDA c : num(c) - 1, SelectSeq(os, LAMBDA c : InSeq(c, KeyPurposes))),
              unknown |-> SelectSeq(os, LAMBDA c : ~InSeq(c, KeyPurposes))]
BCOf(v) ==
    LET o == One(v, TagSeq)
        b == ParseTLV(o.c)
        hasB == b.ok /\ b.tag = TagBool
        r == IF hasB THEN b.rest ELSE o.c
        i == ParseTLV(r)
        hasI == i.ok /\ i.tag = TagInt
        n == IntValue(i.content)
        small == ~IntNeg(n) /\ BNLt(n.mag, <<128, 0, 0, 0>>)
        stB == IF ~hasB THEN "ok" ELSE IF b.content = <<255>> THEN "ok" ELSE IF b.content = <<0>> THEN "grey" ELSE "bad"
        stI == IF r = <<>> THEN "ok"
               ELSE IF ~i.ok THEN (IF r[1] = TagInt \/ (~hasB /\ r[1] = TagBool) THEN "bad" ELSE "grey")
               ELSE IF ~hasI THEN "grey"
               ELSE IF ~IntOctetsOK(i.content) THEN "bad"
               ELSE Unless(small /\ i.rest = <<>>, "grey")
        st == IF o.st = "bad" THEN "bad" ELSE Worst({stB, stI})
    IN  [st |-> st, ca |-> st = "ok" /\ hasB, mpl |-> IF st = "ok" /\ hasI THEN BNToNat(n.mag) ELSE 0 - 1]
SKIOf(v) == LET o == One(v, TagOctets) IN [st |-> o.st, v |-> o.c]
AKIOf(v) ==
    LET o == One(v, TagSeq)
        t == ParseTLV(o.c)
    IN  IF o.st = "bad" THEN [st |-> "bad", v |-> <<>>]
        ELSE IF o.c = <<>> THEN [st |-> "ok", v |-> <<>>]
        ELSE IF ~t.ok THEN [st |-> IF o.c[1] = Ctx(0) THEN "bad" ELSE "grey", v |-> <<>>]
        ELSE [st |-> Unless(t.tag = Ctx(0) /\ t.rest = <<>>, "grey"), v |-> t.content]
AIAItem(t) ==
    LET f == Lead(t.content, <<TagOID, 0>>)
    IN  IF t.tag # TagSeq \/ f.st = "bad" THEN [st |-> "bad", oid |-> <<>>, uri |-> FALSE, v |-> <<>>]
        ELSE IF f.st = "grey" THEN [st |-> "grey", oid |-> <<>>, uri |-> FALSE, v |-> <<>>]
        ELSE [st |-> Worst({OidSt(f.es[1].content), Unless(f.rest = <<>>, "grey"), Unless(f.es[2].tag = Ctx(6) \/ f.es[2].tag % 32 # 6, "grey")}),
              oid |-> f.es[1].content, uri |-> f.es[2].tag = Ctx(6), v |-> f.es[2].content]
AIAOf(v) ==
    LET l == ListOf(v, AIAItem)
        loc(oid) == MapSeq(LAMBDA x : x.v, SelectSeq(l.v, LAMBDA x : x.uri /\ x.oid = oid))
    IN  IF l.st = "bad" THEN [st |-> "bad", ocsp |-> <<>>, issurl |-> <<>>]
        ELSE [st |-> l.st, ocsp |-> loc(OidOCSP), issurl |-> loc(OidIssuers)]
PolItem(t) ==
    LET f == Lead(t.content, <<TagOID>>)
    IN  IF t.tag # TagSeq \/ f.st = "bad" THEN [st |-> "bad", v |-> <<>>]
        ELSE [st |-> Worst({OidSt(f.es[1].content), Unless(f.rest = <<>>, "grey")}), v |-> f.es[1].content]
PolOf(v) == LET l == ListOf(v, PolItem)
            IN  [st |-> l.st, v |-> MapSeq(LAMBDA x : x.v, l.v)]
\* a distribution point: the URIs of its full name
NoUris(st) == [st |-> st, v |-> <<>>]
DPItem(t) ==
    LET p == ParseTLV(t.content)
        n == ParseTLV(p.content)
        g == Elems(n.content)
        odd == \E i \in 1..Len(g.es) : g.es[i].tag # Ctx(6) /\ g.es[i].tag % 32 = 6
    IN  IF t.tag # TagSeq THEN NoUris("bad")
        ELSE IF t.content = <<>> THEN NoUris("grey")
        ELSE IF ~p.ok THEN NoUris(IF t.content[1] = CtxC(0) THEN "bad" ELSE "grey")
        ELSE IF p.tag # CtxC(0) \/ p.rest # <<>> \/ p.content = <<>> THEN NoUris("grey")
        ELSE IF ~n.ok THEN NoUris(IF p.content[1] = CtxC(0) THEN "bad" ELSE "grey")
        ELSE IF n.tag # CtxC(0) \/ n.rest # <<>> THEN NoUris("grey")
        ELSE [st |-> Worst({g.st, Unless(~odd, "grey")}),
              v |-> MapSeq(LAMBDA x : x.content, SelectSeq(g.es, LAMBDA x : x.tag = Ctx(6)))]
CRLOf(v) == LET l == ListOf(v, DPItem)
            IN  [st |-> l.st, v |-> IF l.st = "bad" THEN <<>> ELSE Cat(MapSeq(LAMBDA x : x.v, l.v))]

\* ---- text: domains, mailboxes, addresses
Dot == 46
Alnum(b) == b \in (48..57) \cup (65..90) \cup (97..122)
\* a domain: non-empty labels of visible ASCII characters separated by dots, or nothing at all
Domain(s) == /\ \A i \in 1..Len(s) : s[i] \in 33..126
             /\ s # <<>> => s[1] # Dot /\ s[Len(s)] # Dot
             /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = Dot /\ s[i + 1] = Dot)
\* a constraint may start with one period
Unperiod(s) == IF s # <<>> /\ s[1] = Dot THEN Tail(s) ELSE s
DomainConstraint(s) == IA5(s) /\ Domain(Unperiod(s))

\* RFC 2821 mailbox
Atext(b) == Alnum(b) \/ b \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
Qtext(b) == b \in {11, 12, 32, 33, 127} \cup (1..8) \cup (14..31) \cup (35..91) \cup (93..126)
QuotedText(b) == b \in {11, 12} \cup (1..9) \cup (14..127)
\* the text after a quoted local part (s begins behind the opening quote): [ok, rest]
RECURSIVE Quoted(_)
Quoted(s) == IF s = <<>> THEN [ok |-> FALSE, rest |-> <<>>]
             ELSE IF s[1] = 34 THEN [ok |-> TRUE, rest |-> Tail(s)]
             ELSE IF s[1] = 92 THEN IF Len(s) >= 2 /\ QuotedText(s[2]) THEN Quoted(SubSeq(s, 3, Len(s))) ELSE [ok |-> FALSE, rest |-> <<>>]
             ELSE IF Qtext(s[1]) THEN Quoted(Tail(s)) ELSE [ok |-> FALSE, rest |-> <<>>]
\* an unquoted local part: characters of atoms and dots, or any character after a backslash
RECURSIVE Plain(_, _)
Plain(s, acc) == IF s # <<>> /\ s[1] = 92
                 THEN IF Len(s) >= 2 THEN Plain(SubSeq(s, 3, Len(s)), Append(acc, s[2])) ELSE [ok |-> FALSE, local |-> <<>>, rest |-> <<>>]
                 ELSE IF s # <<>> /\ (Atext(s[1]) \/ s[1] = Dot) THEN Plain(Tail(s), Append(acc, s[1]))
                 ELSE [ok |-> TRUE, local |-> acc, rest |-> s]
DotAtom(a) == /\ a # <<>> /\ a[1] # Dot /\ a[Len(a)] # Dot
              /\ \A i \in 1..(Len(a) - 1) : ~(a[i] = Dot /\ a[i + 1] = Dot)
Mailbox(s) ==
    LET q == s # <<>> /\ s[1] = 34
        p == IF q THEN Quoted(Tail(s)) ELSE Plain(s, <<>>)
    IN  /\ s # <<>>
        /\ p.ok
        /\ ~q => DotAtom(p.local)
        /\ p.rest # <<>> /\ p.rest[1] = 64
        /\ Domain(Tail(p.rest))
EmailConstraint(s) == IA5(s) /\ IF InSeq(64, s) THEN Mailbox(s) ELSE Domain(Unperiod(s))

\* splitting at a separator
RECURSIVE Split(_, _)
Split(s, sep) ==
    LET at == {i \in 1..Len(s) : s[i] = sep}
    IN  IF at = {} THEN <<s>>
        ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
             IN  <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), sep)
IPv4Text(s) == LET f == Split(s, Dot)
               IN  /\ Len(f) = 4
                   /\ \A i \in 1..4 : /\ Len(f[i]) \in 1..3 /\ Digits(f[i]) /\ Num(f[i]) <= 255
                                      /\ Len(f[i]) > 1 => f[i][1] # 48
Hex(b) == b \in (48..57) \cup (65..70) \cup (97..102)
Hextet(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : Hex(s[i])
\* groups of an IPv6 text between colons; the last may be an IPv4 address and counts twice
Groups(fs, v4) ==
    LET n == Len(fs)
        last4 == v4 /\ n > 0 /\ IPv4Text(fs[n])
    IN  IF \A i \in 1..n : Hextet(fs[i]) \/ (last4 /\ i = n) THEN (IF last4 THEN n + 1 ELSE n) ELSE 99
IPv6Text(s) ==
    LET dbl == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
        side(x, v4) == IF x = <<>> THEN 0 ELSE Groups(Split(x, 58), v4)
        i == CHOOSE i \in dbl : TRUE
    IN  IF dbl = {} THEN side(s, TRUE) = 8
        ELSE /\ Cardinality(dbl) = 1
             /\ side(SubSeq(s, 1, i - 1), FALSE) + side(SubSeq(s, i + 2, Len(s)), TRUE) <= 7
IPText(s) == IPv4Text(s) \/ IPv6Text(s)
URIConstraint(s) == IA5(s) /\ ~IPText(s) /\ Domain(Unperiod(s))
\* ones followed by zeros
MaskOK(m) == \E k \in 0..(8 * Len(m)) :
                m = [i \in 1..Len(m) |-> IF 8 * i <= k THEN 255 ELSE IF 8 * (i - 1) >= k THEN 0 ELSE 256 - 2 ^ (8 * i - k)]
RangeOK(v) == Len(v) \in {8, 32} /\ MaskOK(SubSeq(v, (Len(v) \div 2) + 1, Len(v)))

\* URIs: only the plain cases are decided here; the rest is the business of net/url
PlainPath(b) == Alnum(b) \/ b \in {45, 46, 95, 126, 47}
HostByte(b) == Alnum(b) \/ b \in {45, 46}
URISt(u) ==
    LET at == {i \in 1..(Len(u) - 2) : u[i] = 58 /\ u[i + 1] = 47 /\ u[i + 2] = 47}
        i == CHOOSE i \in at : \A j \in at : i <= j
        scheme == SubSeq(u, 1, i - 1)
        after == SubSeq(u, i + 3, Len(u))
        slash == {j \in 1..Len(after) : after[j] = 47}
        k == IF slash = {} THEN Len(after) + 1 ELSE CHOOSE j \in slash : \A h \in slash : j <= h
        host == SubSeq(after, 1, k - 1)
        path == SubSeq(after, k, Len(after))
        letters == scheme # <<>> /\ \A j \in 1..Len(scheme) : scheme[j] \in 97..122
        hostBytes == host # <<>> /\ \A j \in 1..Len(host) : HostByte(host[j])
        pathBytes == \A j \in 1..Len(path) : PlainPath(path[j])
        badEscape == \E j \in 1..Len(path) : path[j] = 37 /\ ~(j + 2 <= Len(path) /\ Hex(path[j + 1]) /\ Hex(path[j + 2]))
        pathOrEscape == \A j \in 1..Len(path) : PlainPath(path[j]) \/ path[j] = 37
    IN  IF \E j \in 1..Len(u) : u[j] < 32 \/ u[j] = 127 THEN "bad"
        ELSE IF u # <<>> /\ u[1] = 58 THEN "bad"
        ELSE IF at = {} \/ ~letters \/ ~hostBytes THEN "grey"
        ELSE IF ~Domain(host) THEN "bad"
        ELSE IF pathBytes THEN "ok"
        ELSE IF pathOrEscape /\ badEscape THEN "bad"
        ELSE "grey"

\* ---- alternative names
NameTags == {1, 2, 6, 7}
SANItem(t) ==
    LET kind == t.tag % 32
        st == IF kind \notin NameTags THEN "ok"
              ELSE IF t.tag # Ctx(kind) THEN "grey"
              ELSE CASE kind = 7 -> St(Len(t.content) \in {4, 16})
                     [] kind = 6 -> URISt(t.content)
                     [] OTHER -> "ok"
    IN  [st |-> st, kind |-> kind, v |-> t.content]
SANOf(v) ==
    LET l == ListOf(v, SANItem)
        sel(k) == IF l.st = "bad" THEN <<>> ELSE MapSeq(LAMBDA x : x.v, SelectSeq(l.v, LAMBDA x : x.kind = k))
    IN  [st |-> l.st, dns |-> sel(2), email |-> sel(1), ips |-> sel(7), uris |-> sel(6),
         usable |-> l.st # "bad" /\ \E i \in 1..Len(l.v) : l.v[i].kind \in NameTags]

\* ---- name constraints
Subtree(t) ==
    LET f == Lead(t.content, <<0>>)
        n == f.es[1]
        c == n.content
        half == Len(c) \div 2
        good == CASE n.tag = Ctx(2) -> DomainConstraint(c)
                  [] n.tag = Ctx(1) -> EmailConstraint(c)
                  [] n.tag = Ctx(6) -> URIConstraint(c)
                  [] n.tag = Ctx(7) -> RangeOK(c)
                  [] OTHER -> TRUE
    IN  IF t.tag # TagSeq \/ f.st # "ok" THEN [st |-> "bad", tag |-> 0, v |-> <<>>]
        ELSE [st |-> Worst({St(good), Unless(f.rest = <<>>, "grey")}), tag |-> n.tag,
              v |-> IF n.tag = Ctx(7) /\ good THEN [ip |-> SubSeq(c, 1, half), mask |-> SubSeq(c, half + 1, Len(c))] ELSE c]
\* high tag numbers are refused here (package cryptobyte)
Strictly(r) == IF r.st = "grey" THEN "bad" ELSE r.st
Subtrees(c) ==
    LET e == Elems(c)
        fs == MapSeq(Subtree, e.es)
    IN  [st |-> Worst({Strictly(e), WorstOf(fs)}), v |-> fs]
NoSubtrees == [st |-> "ok", v |-> <<>>]
NCOf(v) ==
    LET o == One(v, TagSeq)
        p == ParseTLV(o.c)
        hasP == p.ok /\ p.tag = CtxC(0)
        r == IF hasP THEN p.rest ELSE o.c
        e == ParseTLV(r)
        hasE == e.ok /\ e.tag = CtxC(1)
        whole == o.st = "ok" /\ (IF hasE THEN e.rest ELSE r) = <<>>
        empty == (hasP => p.content = <<>>) /\ (hasE => e.content = <<>>)
        ps == IF hasP THEN Subtrees(p.content) ELSE NoSubtrees
        es == IF hasE THEN Subtrees(e.content) ELSE NoSubtrees
        sel(s, tag) == MapSeq(LAMBDA x : x.v, SelectSeq(s.v, LAMBDA x : x.tag = tag))
        st == IF ~whole \/ empty THEN "bad"
              ELSE Worst({ps.st, es.st, Unless((hasP => p.content # <<>>) /\ (hasE => e.content # <<>>), "grey")})
        all == ps.v \o es.v
    IN  IF st = "bad" THEN [st |-> "bad"]
        ELSE [st |-> st,
              pdns |-> sel(ps, Ctx(2)), pemail |-> sel(ps, Ctx(1)), puri |-> sel(ps, Ctx(6)), pip |-> sel(ps, Ctx(7)),
              edns |-> sel(es, Ctx(2)), eemail |-> sel(es, Ctx(1)), euri |-> sel(es, Ctx(6)), eip |-> sel(es, Ctx(7)),
              foreign |-> \E i \in 1..Len(all) : all[i].tag \notin {Ctx(1), Ctx(2), Ctx(6), Ctx(7)}]

\* ================================================================ certificates
ExtStatus(e) ==
    CASE e.oid = OidKU -> KUOf(e.v).st     [] e.oid = OidEKU -> EKUOf(e.v).st
      [] e.oid = OidBC -> BCOf(e.v).st     [] e.oid = OidSKI -> SKIOf(e.v).st
      [] e.oid = OidAKI -> AKIOf(e.v).st   [] e.oid = OidAIA -> AIAOf(e.v).st
      [] e.oid = OidSAN -> SANOf(e.v).st   [] e.oid = OidPol -> PolOf(e.v).st
      [] e.oid = OidNC -> NCOf(e.v).st     [] e.oid = OidCRL -> CRLOf(e.v).st
      [] OTHER -> "ok"
KnownExts == {OidKU, OidEKU, OidBC, OidSKI, OidAKI, OidAIA, OidSAN, OidPol, OidNC, OidCRL}
\* a critical extension that was not fully processed
Unhandled(e) == e.crit /\ ( \/ e.oid \notin KnownExts
                            \/ e.oid = OidSAN /\ ~SANOf(e.v).usable
                            \/ e.oid = OidNC /\ NCOf(e.v).foreign )
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i].oid # s[j].oid

\* splits a signed structure into its three parts: [st, tbs, alg, sig]
SignedOf(der) ==
    LET o == One(der, TagSeq)
        f == IF o.st = "ok" THEN Lead(o.c, <<TagSeq, TagSeq, TagBits>>) ELSE [st |-> "bad", es |-> <<>>, rest |-> <<>>]
    IN  IF f.st # "ok" THEN [st |-> "bad"]
        ELSE [st |-> Worst({SigAlgSt(f.es[2]), BitsSt(f.es[3].content), Unless(f.rest = <<>>, "grey")}),
              tbs |-> f.es[1], sig |-> IF f.es[3].content = <<>> THEN <<>> ELSE Tail(f.es[3].content)]

\* the certificate in der: [st, ...]; everything but st is there when st is "ok" or "either"
CertOf(der) ==
    LET s == SignedOf(der)
        c == s.tbs.content
        v0 == ParseTLV(c)
        hasV == v0.ok /\ v0.tag = CtxC(0)
        f == Lead(IF hasV THEN v0.rest ELSE c, <<TagInt, TagSeq, 0, TagSeq, 0, TagSeq>>)
        val == Lead(f.es[4].content, <<0, 0>>)
        nb == TimeOf(val.es[1])    na == TimeOf(val.es[2])
        iss == NameOf(f.es[3].elem)
        sub == NameOf(f.es[5].elem)
        key == KeyOf(f.es[6])
        x == ParseTLV(f.rest)
        el == ListOf(x.content, ExtOf)
        exts == IF f.rest = <<>> THEN <<>> ELSE MapSeq(LAMBDA e : e.v, el.v)
        extSt == IF f.rest = <<>> THEN "ok"
                 ELSE IF ~x.ok \/ x.tag # CtxC(3) \/ x.rest # <<>> \/ One(x.content, TagSeq).st = "bad" THEN "grey"
                 ELSE IF el.st = "bad" THEN "bad"
                 ELSE Worst({el.st, Unless(el.v # <<>> /\ Distinct(SelectSeq(exts, LAMBDA e : e.oid \in KnownExts)), "grey"),
                             Unless(Distinct(exts), "either")} \cup {ExtStatus(exts[i]) : i \in 1..Len(exts)})
        st == IF s.st = "bad" THEN "bad"
              ELSE IF c # <<>> /\ c[1] = CtxC(0) /\ ~(hasV /\ v0.content = DerNat(2)) THEN "grey"
              ELSE IF f.st # "ok" THEN f.st
              ELSE IF val.st # "ok" THEN val.st
              ELSE Worst({s.st, St(IntOctetsOK(f.es[1].content)), InnerAlgSt(f.es[2]), iss.st, sub.st, nb.st, na.st,
                          Unless(val.rest = <<>>, "grey"), Unless(hasV, "grey"), key.st, extSt})
    IN  IF st \notin {"ok", "either"} THEN [st |-> st]
        ELSE [st |-> st, tbs |-> s.tbs.elem, sig |-> s.sig, serial |-> IntValue(f.es[1].content),
              rawIssuer |-> f.es[3].elem, rawSubject |-> f.es[5].elem, rawSPKI |-> f.es[6].elem,
              issuer |-> iss.v, subject |-> sub.v, nb |-> nb.v, na |-> na.v, key |-> key.v, exts |-> exts]
\* value of the extension oid, or none
FindExt(exts, oid) == SelectSeq(exts, LAMBDA e : e.oid = oid)

OidList(s) == MapSeq(OIDBytes, s)
ShowsExt(v, e) == OIDBytes(v.oid) = e.oid /\ v.crit = e.crit /\ v.v = e.v
\* v: a certificate as ParseCertificate presents it
ShowsCert(v, der, c) ==
    LET has(oid) == FindExt(c.exts, oid) # <<>>
        val(oid) == FindExt(c.exts, oid)[1].v
        san == IF has(OidSAN) THEN SANOf(val(OidSAN)) ELSE [dns |-> <<>>, email |-> <<>>, ips |-> <<>>, uris |-> <<>>]
        eku == IF has(OidEKU) THEN EKUOf(val(OidEKU)) ELSE [known |-> <<>>, unknown |-> <<>>]
        bc == IF has(OidBC) THEN BCOf(val(OidBC)) ELSE [ca |-> FALSE, mpl |-> 0]
        aia == IF has(OidAIA) THEN AIAOf(val(OidAIA)) ELSE [ocsp |-> <<>>, issurl |-> <<>>]
        nc == IF has(OidNC) THEN NCOf(val(OidNC))
              ELSE [pdns |-> <<>>, edns |-> <<>>, pip |-> <<>>, eip |-> <<>>, pemail |-> <<>>, eemail |-> <<>>, puri |-> <<>>, euri |-> <<>>]
    IN  /\ v.raw = der /\ v.tbs = c.tbs /\ v.sig = c.sig
        /\ v.rawIssuer = c.rawIssuer /\ v.rawSubject = c.rawSubject /\ v.rawSPKI = c.rawSPKI
        /\ v.version = 3 /\ v.serial = c.serial
        /\ ShowsName(v.issuer, c.issuer) /\ ShowsName(v.subject, c.subject)
        /\ v.nb = c.nb /\ v.na = c.na
        /\ <<v.x, v.y>> = c.key
        /\ Len(v.exts) = Len(c.exts) /\ \A i \in 1..Len(c.exts) : ShowsExt(v.exts[i], c.exts[i])
        /\ v.ku = (IF has(OidKU) THEN KUOf(val(OidKU)).v ELSE 0)
        /\ v.eku = eku.known /\ OidList(v.ueku) = eku.unknown
        /\ v.bcv = has(OidBC) /\ v.ca = bc.ca /\ v.mpl = bc.mpl /\ v.mplz = (has(OidBC) /\ bc.mpl = 0)
        /\ v.ski = (IF has(OidSKI) THEN SKIOf(val(OidSKI)).v ELSE <<>>)
        /\ v.aki = (IF has(OidAKI) THEN AKIOf(val(OidAKI)).v ELSE <<>>)
        /\ v.ocsp = aia.ocsp /\ v.issurl = aia.issurl
        /\ v.dns = san.dns /\ v.email = san.email /\ v.ips = san.ips /\ v.uris = san.uris
        /\ OidList(v.pol) = (IF has(OidPol) THEN PolOf(val(OidPol)).v ELSE <<>>)
        /\ v.crl = (IF has(OidCRL) THEN CRLOf(val(OidCRL)).v ELSE <<>>)
        /\ v.nc.pdns = nc.pdns /\ v.nc.edns = nc.edns /\ v.nc.pip = nc.pip /\ v.nc.eip = nc.eip
        /\ v.nc.pemail = nc.pemail /\ v.nc.eemail = nc.eemail /\ v.nc.puri = nc.puri /\ v.nc.euri = nc.euri
        /\ v.nc.crit = (has(OidNC) /\ FindExt(c.exts, OidNC)[1].crit)
        /\ OidList(v.unhandled) = MapSeq(LAMBDA e : e.oid, SelectSeq(c.exts, Unhandled))

\* ================================================================ requests
\* an attribute SEQUENCE { OID, SET OF value }: [st, oid, vals (elements)]
RawAttr(t) ==
    LET f == Lead(t.content, <<TagOID, TagSet>>)
        e == IF f.st = "ok" THEN Elems(f.es[2].content) ELSE [st |-> "bad", es |-> <<>>]
    IN  [st |-> IF t.tag # TagSeq \/ f.st # "ok" \/ e.st # "ok" THEN "grey"      \* may be left out
                ELSE Worst({Unless(f.rest = <<>>, "grey"), Unless(OIDOf(f.es[1].content).ok, "grey"), Unless(e.es # <<>> /\ Ascending(e.es), "grey")}),
         oid |-> IF f.st = "ok" THEN f.es[1].content ELSE <<>>, vals |-> e.es]
\* a value that is a SEQUENCE of SEQUENCE { OID, string or OCTET STRING }
ItemOf(t) ==
    LET f == Lead(t.content, <<TagOID, 0>>)
    IN  IF t.tag # TagSeq \/ f.st # "ok" \/ f.rest # <<>> THEN [st |-> "grey", v |-> <<>>]
        ELSE [st |-> IF OidSt(f.es[1].content) = "ok" /\ (f.es[2].tag = TagOctets \/ StringSt(f.es[2]) = "ok") THEN "ok" ELSE "grey",
              v |-> [oid |-> f.es[1].content, kind |-> IF f.es[2].tag = TagOctets THEN "bytes" ELSE "str", v |-> f.es[2].content]]
AttrVal(t) ==
    LET l == Elems(t.content)
        is == MapSeq(ItemOf, l.es)
    IN  [st |-> IF t.tag = TagSeq /\ l.st = "ok" THEN WorstOf(is) ELSE "grey", v |-> MapSeq(LAMBDA i : i.v, is)]
\* requested extensions of an extension-request attribute: those of its first value
ReqExts(a) == IF a.oid = OidExtReq /\ a.vals # <<>> THEN ListOf(a.vals[1].elem, ExtOf) ELSE [st |-> "ok", v |-> <<>>]

CSROf(der) ==
    LET s == SignedOf(der)
        f == Lead(s.tbs.content, <<TagInt, 0, TagSeq, CtxC(0)>>)
        sub == NameOf(f.es[2].elem)
        key == KeyOf(f.es[3])
        ra == Elems(f.es[4].content)
        as == MapSeq(RawAttr, ra.es)
        vals == MapSeq(LAMBDA a : MapSeq(AttrVal, a.vals), as)
        ls == MapSeq(ReqExts, as)
        exts == Cat(MapSeq(LAMBDA l : MapSeq(LAMBDA e : e.v, l.v), ls))
        sans == SelectSeq(exts, LAMBDA e : e.oid = OidSAN)
        ver == f.es[1].content
        st == IF s.st = "bad" \/ f.st = "bad" THEN "bad"
              ELSE IF f.st = "grey" THEN "grey"
              ELSE IF ra.st # "ok" THEN ra.st
              ELSE Worst({s.st, sub.st, key.st, IF ~IntOctetsOK(ver) THEN "bad" ELSE Unless(ver = <<0>>, "grey"),
                          Unless(f.rest = <<>>, "grey"), WorstOf(as)})
        \* an extension request that is no list of extensions spoils the request, whatever else is odd about it
        st2 == IF s.st = "bad" \/ f.st # "ok" \/ ra.st # "ok" \/ st = "bad" THEN st
               ELSE IF \E i \in 1..Len(as) : as[i].st = "ok" /\ ls[i].st = "bad" THEN "bad"
               ELSE IF st # "ok" THEN st
               ELSE Worst({WorstOf(ls), Unless(Len(sans) <= 1, "grey")} \cup {SANOf(sans[i].v).st : i \in 1..Len(sans)})
        \* only the list of attributes, not the extensions asked for, depends on how values other than SEQUENCE OF { OID, value } are read
        plain == \A i \in 1..Len(vals) : WorstOf(vals[i]) = "ok"
    IN  IF st2 # "ok" THEN [st |-> st2]
        ELSE [st |-> "ok", tbs |-> s.tbs.elem, sig |-> s.sig, rawSubject |-> f.es[2].elem, rawSPKI |-> f.es[3].elem,
              subject |-> sub.v, key |-> key.v, exts |-> exts, plain |-> plain,
              attrs |-> [i \in 1..Len(as) |-> [oid |-> as[i].oid, vals |-> MapSeq(LAMBDA x : x.v, vals[i])]],
              san |-> IF sans = <<>> THEN [dns |-> <<>>, email |-> <<>>, ips |-> <<>>, uris |-> <<>>] ELSE SANOf(sans[1].v)]
ShowsItem(v, a) == OIDBytes(v.oid) = a.oid /\ v.kind = a.kind /\ v.v = a.v
ShowsAttr(v, a) == /\ OIDBytes(v.oid) = a.oid /\ Len(v.vals) = Len(a.vals)
                   /\ \A i \in 1..Len(a.vals) : /\ Len(v.vals[i]) = Len(a.vals[i])
                                                /\ \A j \in 1..Len(a.vals[i]) : ShowsItem(v.vals[i][j], a.vals[i][j])
ShowsCSR(v, der, c) ==
    /\ v.raw = der /\ v.tbs = c.tbs /\ v.sig = c.sig /\ v.rawSubject = c.rawSubject /\ v.rawSPKI = c.rawSPKI
    /\ v.version = 0 /\ ShowsName(v.subject, c.subject) /\ <<v.x, v.y>> = c.key
    /\ Len(v.exts) = Len(c.exts) /\ \A i \in 1..Len(c.exts) : ShowsExt(v.exts[i], c.exts[i])
    /\ (c.plain => Len(v.attrs) = Len(c.attrs) /\ \A i \in 1..Len(c.attrs) : ShowsAttr(v.attrs[i], c.attrs[i]))
    /\ v.dns = c.san.dns /\ v.email = c.san.email /\ v.ips = c.san.ips /\ v.uris = c.san.uris
===========================================================================
