------------------------------- MODULE X509 -------------------------------
(***************************************************************************)
(* Package sm2/cert, the building side: PKCS#10 requests (RFC 2986) and    *)
(* X.509 v3 certificates (RFC 5280) with SM2 keys and signatures, as byte  *)
(* strings in DER.                                                         *)
(*                                                                         *)
(* A distinguished name is a record of the attributes                      *)
(*   [c, o, ou, l, st, street, pc : sequences of strings, cn, sn : string, *)
(*    extra : sequence of [oid, v], raw : bytes or <<>>].                  *)
(* All strings are byte strings.                                           *)
(***************************************************************************)
EXTENDS Cryptobyte, SM2

\* ---- object identifiers (as content octets)
Nats(s) == [i \in 1..Len(s) |-> Nat2Int(BNFromNat(s[i]))]
O(s) == OIDBytes(Nats(s))
OidEC == O(<<1, 2, 840, 10045, 2, 1>>)
OidSM2Curve == O(<<1, 2, 156, 10197, 1, 301>>)
OidSM2Sig == O(<<1, 2, 156, 10197, 1, 501>>)
OidExtReq == O(<<1, 2, 840, 113549, 1, 9, 14>>)
OidSKI == O(<<2, 5, 29, 14>>)
OidKU == O(<<2, 5, 29, 15>>)
OidSAN == O(<<2, 5, 29, 17>>)
OidBC == O(<<2, 5, 29, 19>>)
OidNC == O(<<2, 5, 29, 30>>)
OidCRL == O(<<2, 5, 29, 31>>)
OidPol == O(<<2, 5, 29, 32>>)
OidAKI == O(<<2, 5, 29, 35>>)
OidEKU == O(<<2, 5, 29, 37>>)
OidAIA == O(<<1, 3, 6, 1, 5, 5, 7, 1, 1>>)
OidOCSP == O(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)
OidIssuers == O(<<1, 3, 6, 1, 5, 5, 7, 48, 2>>)
\* extended key usages, indexed by their number + 1
KeyPurposes == <<
    O(<<2, 5, 29, 37, 0>>),
    O(<<1, 3, 6, 1, 5, 5, 7, 3, 1>>), O(<<1, 3, 6, 1, 5, 5, 7, 3, 2>>), O(<<1, 3, 6, 1, 5, 5, 7, 3, 3>>),
    O(<<1, 3, 6, 1, 5, 5, 7, 3, 4>>), O(<<1, 3, 6, 1, 5, 5, 7, 3, 5>>), O(<<1, 3, 6, 1, 5, 5, 7, 3, 6>>),
    O(<<1, 3, 6, 1, 5, 5, 7, 3, 7>>), O(<<1, 3, 6, 1, 5, 5, 7, 3, 8>>), O(<<1, 3, 6, 1, 5, 5, 7, 3, 9>>),
    O(<<1, 3, 6, 1, 4, 1, 311, 10, 3, 3>>), O(<<2, 16, 840, 1, 113730, 4, 1>>),
    O(<<1, 3, 6, 1, 4, 1, 311, 2, 1, 22>>), O(<<1, 3, 6, 1, 4, 1, 311, 61, 1, 1>>)>>

\* ---- small DER helpers
Sq(parts) == TLV(TagSeq, Cat(parts))
OidTLV(c) == TLV(TagOID, c)
BitStr(b) == TLV(TagBits, <<0>> \o b)
Ctx(n) == 128 + n          \* context-specific, primitive
CtxC(n) == 160 + n         \* context-specific, constructed
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

\* lexicographic order of byte strings
LexLess(x, y) ==
    LET a == TLCEval(x)
        b == TLCEval(y)
        differ == {i \in 1..Len(a) : i <= Len(b) /\ a[i] # b[i]}
        first == CHOOSE i \in differ : \A j \in differ : i <= j
    IN  IF differ = {} THEN Len(a) < Len(b) ELSE a[first] < b[first]
\* SET OF: the elements in ascending order of their encodings
RECURSIVE LexInsert(_, _)
LexInsert(e, s) == IF s = <<>> \/ LexLess(e, Head(s)) THEN <<e>> \o s
                   ELSE <<Head(s)>> \o LexInsert(e, TLCEval(Tail(s)))
Sorted(s) == FoldLeft(LAMBDA acc, e : TLCEval(LexInsert(TLCEval(e), TLCEval(acc))), <<>>, s)
SetOf(parts) == TLV(TagSet, Cat(Sorted(parts)))

\* ---- strings
PrintableByte(b) == b \in (97..122) \cup (65..90) \cup (48..57) \cup {32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63}
Printable(s) == \A i \in 1..Len(s) : PrintableByte(s[i])
IA5(s) == \A i \in 1..Len(s) : s[i] < 128
\* well-formed UTF-8 (Unicode table 3-7)
\* a[1]: continuation bytes still expected (-1: malformed); a[2]..a[3]: range of the next one
UTF8Step(a, b) ==
    IF a[1] > 0 THEN IF b \in a[2]..a[3] THEN <<a[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>
    ELSE IF a[1] < 0 THEN a
    ELSE CASE b < 128 -> a
           [] b \in 194..223 -> <<1, 128, 191>>
           [] b \in 224..239 -> <<2, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191>>
           [] b \in 240..244 -> <<3, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191>>
           [] OTHER -> <<-1, 0, 0>>
UTF8OK(s) == FoldLeft(LAMBDA a, b : TLCEval(UTF8Step(a, b)), <<0, 128, 191>>, s)[1] = 0
StrOK(s) == UTF8OK(s)
DerString(s) == TLV(IF Printable(s) THEN TagPrintable ELSE TagUTF8, s)

\* ---- names
Attr(n) == O(<<2, 5, 4, n>>)
AtCN == Attr(3)  AtSN == Attr(5)  AtC == Attr(6)  AtL == Attr(7)  AtST == Attr(8)
AtStreet == Attr(9)  AtO == Attr(10)  AtOU == Attr(11)  AtPC == Attr(17)
Opt(s) == IF s = <<>> THEN <<>> ELSE <<s>>
\* relative distinguished names: sequences of sequences of [oid (content octets), v]
Overridden(name, oid) == \E i \in 1..Len(name.extra) : OIDBytes(name.extra[i].oid) = oid
RdnOf(name, oid, vals) == IF vals = <<>> \/ Overridden(name, oid) THEN <<>>
                          ELSE <<[i \in 1..Len(vals) |-> [oid |-> oid, v |-> vals[i]]]>>
Rdns(name) ==
    RdnOf(name, AtC, name.c) \o RdnOf(name, AtST, name.st) \o RdnOf(name, AtL, name.l)
    \o RdnOf(name, AtStreet, name.street)
    \o RdnOf(name, AtPC, name.pc) \o RdnOf(name, AtO, name.o) \o RdnOf(name, AtOU, name.ou)
    \o RdnOf(name, AtCN, Opt(name.cn)) \o RdnOf(name, AtSN, Opt(name.sn))
    \o [i \in 1..Len(name.extra) |-> <<[oid |-> OIDBytes(name.extra[i].oid), v |-> name.extra[i].v]>>]
AtvDer(a) == Sq(<<OidTLV(a.oid), DerString(a.v)>>)
NameDer(name) == IF name.raw # <<>> THEN name.raw
                 ELSE Sq(MapSeq(LAMBDA rdn : SetOf(MapSeq(AtvDer, rdn)), Rdns(name)))
NameOK(name) == name.raw # <<>> \/
                /\ \A i \in 1..Len(name.extra) : OIDValid(name.extra[i].oid)
                /\ \A i \in 1..Len(Rdns(name)) : \A j \in 1..Len(Rdns(name)[i]) : StrOK(Rdns(name)[i][j].v)

\* ---- keys and algorithms
SigAlg == Sq(<<OidTLV(OidSM2Sig)>>)
SPKIDer(P) == Sq(<<Sq(<<OidTLV(OidEC), OidTLV(OidSM2Curve)>>), BitStr(<<4>> \o RawPub(P))>>)

\* ---- times
UTCTimeBytes(t) == Dec(t.y % 100, 2) \o Dec(t.mo, 2) \o Dec(t.d, 2) \o Dec(t.h, 2) \o Dec(t.mi, 2) \o Dec(t.s, 2) \o <<90>>
YearOK(t) == t.y \in 0..9999
TimeDer(t) == IF t.y \in 1950..2049 THEN TLV(TagUTCTime, UTCTimeBytes(t)) ELSE TLV(TagGenTime, GenTimeBytes(t))

\* ---- extensions: records [oid (content octets), crit, v]
Ext(oid, crit, v) == [oid |-> oid, crit |-> crit, v |-> v]
ExtDer(e) == Sq(<<OidTLV(e.oid)>> \o (IF e.crit THEN << <<TagBool, 1, 255>> >> ELSE <<>>) \o <<TLV(TagOctets, e.v)>>)
\* extensions as they come in a template: [oid, crit, v] with a real OID
GivenExts(s) == MapSeq(LAMBDA e : Ext(OIDBytes(e.oid), e.crit, e.v), s)
HasExt(oid, s) == \E i \in 1..Len(s) : OIDBytes(s[i].oid) = oid
OIDsOK(s) == \A i \in 1..Len(s) : OIDValid(s[i].oid)

\* an IPv4 address in IPv6 form is written in 4 bytes
V4InV6 == Zeros(10) \o <<255, 255>>
ShortIP(ip) == IF Len(ip) = 16 /\ SubSeq(ip, 1, 12) = V4InV6 THEN SubSeq(ip, 13, 16) ELSE ip
SANDer(t) == Sq(MapSeq(LAMBDA s : TLV(Ctx(2), s), t.dns) \o MapSeq(LAMBDA s : TLV(Ctx(1), s), t.email)
                 \o MapSeq(LAMBDA s : TLV(Ctx(7), ShortIP(s)), t.ips) \o MapSeq(LAMBDA s : TLV(Ctx(6), s), t.uris))
HasNames(t) == t.dns # <<>> \/ t.email # <<>> \/ t.ips # <<>> \/ t.uris # <<>>

\* key usage bit i (from 0) is bit i of the BIT STRING, trailing zero bits are dropped
KUBits(ku) == {i \in 0..8 : (ku \div (2 ^ i)) % 2 = 1}
KUDer(ku) ==
    LET top == CHOOSE i \in KUBits(ku) : \A j \in KUBits(ku) : j <= i
        n == (top \div 8) + 1
        byte(k) == FoldLeft(LAMBDA a, i : a + (IF (8 * k + i) \in KUBits(ku) THEN 2 ^ (7 - i) ELSE 0), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
    IN  TLV(TagBits, <<8 * n - 1 - top>> \o [k \in 1..n |-> byte(k - 1)])
BCDer(t) ==
    LET pl == IF t.mpl = 0 /\ ~t.mplz THEN 0 - 1 ELSE t.mpl
    IN  Sq((IF t.ca THEN << <<TagBool, 1, 255>> >> ELSE <<>>) \o (IF pl < 0 THEN <<>> ELSE <<DerNat(pl)>>))
AIADer(t) == Sq(MapSeq(LAMBDA s : Sq(<<OidTLV(OidOCSP), TLV(Ctx(6), s)>>), t.ocsp)
                 \o MapSeq(LAMBDA s : Sq(<<OidTLV(OidIssuers), TLV(Ctx(6), s)>>), t.issurl))
CRLDer(t) == Sq(MapSeq(LAMBDA s : Sq(<<TLV(CtxC(0), TLV(CtxC(0), TLV(Ctx(6), s)))>>), t.crl))

\* name constraints; an IP range is [ip, mask], an IPv4 range in 4 + 4 bytes
Mask(ip, mask) == [i \in 1..Len(mask) |-> ip[i] & mask[i]]
RangeDer(r) == LET ip == IF Len(r.mask) = 4 THEN ShortIP(r.ip) ELSE r.ip
               IN  Mask(ip, r.mask) \o r.mask
SubtreesDer(dns, ips, emails, uris) ==
    Cat(MapSeq(LAMBDA s : Sq(<<TLV(Ctx(2), s)>>), dns) \o MapSeq(LAMBDA s : Sq(<<TLV(Ctx(7), RangeDer(s))>>), ips)
        \o MapSeq(LAMBDA s : Sq(<<TLV(Ctx(1), s)>>), emails) \o MapSeq(LAMBDA s : Sq(<<TLV(Ctx(6), s)>>), uris))
OptTLV(tag, c) == IF c = <<>> THEN <<>> ELSE TLV(tag, c)
NCDer(nc) == TLV(TagSeq, OptTLV(CtxC(0), SubtreesDer(nc.pdns, nc.pip, nc.pemail, nc.puri))
                         \o OptTLV(CtxC(1), SubtreesDer(nc.edns, nc.eip, nc.eemail, nc.euri)))
HasNC(nc) == nc.pdns # <<>> \/ nc.edns # <<>> \/ nc.pip # <<>> \/ nc.eip # <<>>
             \/ nc.pemail # <<>> \/ nc.eemail # <<>> \/ nc.puri # <<>> \/ nc.euri # <<>>
NCNames(nc) == nc.pdns \o nc.edns \o nc.pemail \o nc.eemail \o nc.puri \o nc.euri

\* the extensions of a certificate: those the template's fields ask for, unless given explicitly
When(c, oid, t, e) == IF c /\ ~HasExt(oid, t.extra) THEN <<e>> ELSE <<>>
CertExts(t, aki, emptySubject) ==
    (IF t.ku # 0 /\ ~HasExt(OidKU, t.extra) THEN <<Ext(OidKU, TRUE, KUDer(t.ku))>> ELSE <<>>)
    \o When(t.eku # <<>> \/ t.ueku # <<>>, OidEKU, t,
            Ext(OidEKU, FALSE, Sq(MapSeq(LAMBDA u : OidTLV(KeyPurposes[u + 1]), t.eku)
                                   \o MapSeq(LAMBDA u : OidTLV(OIDBytes(u)), t.ueku))))
    \o When(t.bcv, OidBC, t, Ext(OidBC, TRUE, BCDer(t)))
    \o When(t.ski # <<>>, OidSKI, t, Ext(OidSKI, FALSE, TLV(TagOctets, t.ski)))
    \o When(aki # <<>>, OidAKI, t, Ext(OidAKI, FALSE, Sq(<<TLV(Ctx(0), aki)>>)))
    \o When(t.ocsp # <<>> \/ t.issurl # <<>>, OidAIA, t, Ext(OidAIA, FALSE, AIADer(t)))
    \o When(HasNames(t), OidSAN, t, Ext(OidSAN, emptySubject, SANDer(t)))
    \o When(t.pol # <<>>, OidPol, t, Ext(OidPol, FALSE, Sq(MapSeq(LAMBDA p : Sq(<<OidTLV(OIDBytes(p))>>), t.pol))))
    \o When(HasNC(t.nc), OidNC, t, Ext(OidNC, t.nc.crit, NCDer(t.nc)))
    \o When(t.crl # <<>>, OidCRL, t, Ext(OidCRL, FALSE, CRLDer(t)))
    \o GivenExts(t.extra)

\* what a certificate cannot be built from
KnownPurposes(t) == \A i \in 1..Len(t.eku) : t.eku[i] \in 0..(Len(KeyPurposes) - 1)
EKUUsed(t) == ~HasExt(OidEKU, t.extra)
TemplateOK(t) ==
    /\ t.hasserial
    /\ OIDsOK(t.extra)
    /\ NameOK(t.subject)
    /\ EKUUsed(t) => KnownPurposes(t) /\ \A i \in 1..Len(t.ueku) : OIDValid(t.ueku[i])
    /\ HasExt(OidPol, t.extra) \/ \A i \in 1..Len(t.pol) : OIDValid(t.pol[i])
    /\ HasExt(OidNC, t.extra) \/ \A i \in 1..Len(NCNames(t.nc)) : IA5(NCNames(t.nc)[i])
    /\ YearOK(t.nb) /\ YearOK(t.na)

EmptyName == Sq(<<>>)
TBSDer(t, parent, spki) ==
    LET issuer == NameDer(parent.subject)
        subject == NameDer(t.subject)
        aki == IF issuer # subject /\ parent.ski # <<>> THEN parent.ski ELSE t.aki
        exts == CertExts(t, aki, subject = EmptyName)
    IN  Sq(<<TLV(CtxC(0), DerNat(2)), DerInt(t.serial), SigAlg, issuer,
              Sq(<<TimeDer(t.nb), TimeDer(t.na)>>), subject, spki>>
            \o (IF exts = <<>> THEN <<>> ELSE <<TLV(CtxC(3), Sq(MapSeq(ExtDer, exts)))>>))
SignedDer(tbs, sig) == Sq(<<tbs, SigAlg, BitStr(sig)>>)

\* ---- requests
\* an attribute: [oid, vals]; a value is a sequence of [oid, kind ("str" | "bytes"), v]
ItemDer(a) == Sq(<<OidTLV(OIDBytes(a.oid)), IF a.kind = "bytes" THEN TLV(TagOctets, a.v) ELSE DerString(a.v)>>)
AttrDer(a) == Sq(<<OidTLV(OIDBytes(a.oid)), SetOf(MapSeq(LAMBDA v : Sq(MapSeq(ItemDer, v)), a.vals))>>)
IsExtReq(a) == OIDBytes(a.oid) = OidExtReq
\* extensions already requested by the attributes
Specified(attrs) == {OIDBytes(a.oid) : a \in UNION {UNION {{attrs[i].vals[j][k] : k \in 1..Len(attrs[i].vals[j])}
                                                           : j \in 1..Len(attrs[i].vals)}
                                                    : i \in {i \in 1..Len(attrs) : IsExtReq(attrs[i])}}}
Requested(t) ==
    (IF HasNames(t) /\ ~HasExt(OidSAN, t.extra) THEN <<[oid |-> Nats(<<2, 5, 29, 17>>), v |-> SANDer(t)]>> ELSE <<>>)
    \o MapSeq(LAMBDA e : [oid |-> e.oid, v |-> e.v], t.extra)
AsItem(e) == [oid |-> e.oid, kind |-> "bytes", v |-> e.v]
CSRAttrs(t) ==
    LET req == Requested(t)
        new == MapSeq(AsItem, SelectSeq(req, LAMBDA e : OIDBytes(e.oid) \notin Specified(t.attrs)))
        homes == {i \in 1..Len(t.attrs) : IsExtReq(t.attrs[i]) /\ t.attrs[i].vals # <<>>}
        home == CHOOSE i \in homes : \A j \in homes : i <= j
    IN  IF req = <<>> THEN t.attrs
        ELSE IF homes # {} THEN [t.attrs EXCEPT ![home].vals[1] = @ \o new]
        ELSE Append(t.attrs, [oid |-> Nats(<<1, 2, 840, 113549, 1, 9, 14>>), vals |-> <<new>>])
CSRInfoDer(t, P) == Sq(<<DerNat(0), NameDer(t.subject), SPKIDer(P), TLV(CtxC(0), Cat(MapSeq(AttrDer, CSRAttrs(t))))>>)
CSRTemplateOK(t) ==
    /\ NameOK(t.subject) /\ OIDsOK(t.extra) /\ OIDsOK(t.attrs)
    /\ \A i \in 1..Len(t.attrs) : \A j \in 1..Len(t.attrs[i].vals) :
         LET v == t.attrs[i].vals[j] IN OIDsOK(v) /\ \A k \in 1..Len(v) : v[k].kind = "str" => StrOK(v[k].v)
===========================================================================
