------------------------------ MODULE MC_X509 ------------------------------
(***************************************************************************)
(* The model of package sm2/cert on every combination of GenX509: what is  *)
(* built is read back as it was asked for, every extension is there        *)
(* exactly when it should be and an explicit one replaces the fields, and  *)
(* neither a strict prefix of the bytes nor anything with bytes behind is  *)
(* a certificate.                                                          *)
(***************************************************************************)
EXTENDS X509Parse, GenX509

VARIABLES Der, Cert      \* the certificate as built and as read back
Oids == <<OidKU, OidEKU, OidBC, OidSKI, OidAKI, OidAIA, OidSAN, OidPol, OidNC, OidCRL>>
empty == "empty" \in flags
self == "self" \in flags
pski == "pski" \in flags

a1 == <<97>>  a2 == <<98, 46, 99>>  u1 == <<104, 116, 116, 112, 58, 47, 47, 97, 47>>
Name0 == [c |-> <<>>, o |-> <<>>, ou |-> <<>>, l |-> <<>>, st |-> <<>>, street |-> <<>>, pc |-> <<>>, cn |-> <<>>, sn |-> <<>>,
          extra |-> <<>>, raw |-> <<>>]
NameA == [Name0 EXCEPT !.o = <<a2, a1>>, !.cn = a1]
NameB == [Name0 EXCEPT !.c = <<a1>>, !.cn = a2]
NC0 == [crit |-> FALSE, pdns |-> <<>>, edns |-> <<>>, pip |-> <<>>, eip |-> <<>>, pemail |-> <<>>, eemail |-> <<>>, puri |-> <<>>, euri |-> <<>>]
NC1 == [NC0 EXCEPT !.crit = TRUE, !.pdns = <<a1>>, !.edns = <<a2, <<>> >>, !.pip = <<[ip |-> <<10, 1, 2, 3>>, mask |-> <<255, 0, 0, 0>>]>>,
                   !.pemail = <<a2>>, !.euri = <<a1>>]
\* explicit values, different from those of the fields
Other == <<TLV(TagBits, <<7, 128>>), Sq(<<OidTLV(KeyPurposes[3])>>), Sq(<<>>), TLV(TagOctets, <<9>>), Sq(<<TLV(Ctx(0), <<8>>)>>),
           Sq(<<Sq(<<OidTLV(OidIssuers), TLV(Ctx(6), u1)>>)>>), Sq(<<TLV(Ctx(2), <<120>>)>>), Sq(<<Sq(<<OidTLV(<<42, 9>>)>>)>>),
           Sq(<<TLV(CtxC(1), Sq(<<TLV(Ctx(2), <<120>>)>>))>>), Sq(<<Sq(<<TLV(CtxC(0), TLV(CtxC(0), TLV(Ctx(6), a1)))>>)>>)>>
By(i) == f[i] \in {"field", "both"}
Given(i) == f[i] \in {"extra", "both"}
If(b, s) == IF b THEN s ELSE <<>>
Num4(c) == LET o == OIDOf(c).oid IN MapSeq(Nat2Int, o)
Extra == LET at == SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>, Given)
         IN  MapSeq(LAMBDA i : [oid |-> Num4(Oids[i]), crit |-> FALSE, v |-> Other[i]], at)
T(e) == [serial |-> [neg |-> FALSE, mag |-> <<200>>], hasserial |-> TRUE,
      subject |-> IF e THEN Name0 ELSE NameA,
      nb |-> [y |-> 2049, mo |-> 12, d |-> 31, h |-> 23, mi |-> 59, s |-> 59],
      na |-> [y |-> 2050, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0],
      ku |-> IF By(1) THEN 261 ELSE 0, eku |-> If(By(2), <<1, 0>>), ueku |-> If(By(2), <<Nats(<<1, 2, 3>>)>>),
      bcv |-> By(3), ca |-> By(3), mpl |-> 0, mplz |-> TRUE, ski |-> If(By(4), <<1, 2>>), aki |-> If(By(5), <<3>>),
      ocsp |-> If(By(6), <<u1, a1>>), issurl |-> If(By(6), <<a2>>),
      dns |-> If(By(7), <<a1, a2>>), email |-> If(By(7), <<a1>>), ips |-> If(By(7), <<Zeros(10) \o <<255, 255, 1, 2, 3, 4>>, [k \in 1..16 |-> k]>>),
      uris |-> If(By(7), <<u1>>), pol |-> If(By(8), <<Nats(<<2, 5, 29>>)>>), nc |-> IF By(9) THEN NC1 ELSE NC0,
      crl |-> If(By(10), <<u1, a2>>), extra |-> Extra]
Parent(e, sf, ps) == [subject |-> IF sf THEN T(e).subject ELSE NameB, ski |-> If(ps, <<7, 7>>)]
Key == G(SM2Curve)
Tbs(e, sf, ps) == TBSDer(T(e), Parent(e, sf, ps), SPKIDer(Key))
Sig == <<48, 0>>

DMC == IF Thorough THEN 2 ELSE 1
MCInit == Init /\ Der = <<>> /\ Cert = [st |-> "none"]
MCPick == Pick(DMC) /\ UNCHANGED <<Der, Cert>>
MCClose == /\ Close(DMC + 1)
           /\ LET has(x) == x \in flags'
              IN  Der' = TLCEval(SignedDer(Tbs(has("empty"), has("self"), has("pski")), Sig))
           /\ Cert' = TLCEval(CertOf(Der'))
MCNext == MCPick \/ MCClose
MCSpec == MCInit /\ [][MCNext]_<<gvars, Der, Cert>>

Aki == IF ~self /\ pski THEN <<7, 7>> ELSE T(empty).aki
V(i) == FindExt(Cert.exts, Oids[i])[1]
There(i) == Given(i) \/ (IF i = 5 THEN Aki # <<>> ELSE By(i))
ByField(i) == There(i) /\ ~Given(i)

RoundTrip == done =>
    /\ Cert.st = "ok" /\ Cert.tbs = Tbs(empty, self, pski) /\ Cert.sig = Sig /\ Cert.key = Key
    /\ Cert.serial = T(empty).serial /\ Cert.nb = T(empty).nb /\ Cert.na = T(empty).na
    /\ Cert.rawSubject = NameDer(T(empty).subject) /\ Cert.rawIssuer = NameDer(Parent(empty, self, pski).subject)
Presence == done =>
    /\ Len(Cert.exts) = Cardinality({i \in 1..NExt : There(i)})
    /\ \A i \in 1..NExt : FindExt(Cert.exts, Oids[i]) # <<>> <=> There(i)
    /\ \A i \in 1..NExt : Given(i) => V(i).v = Other[i] /\ ~V(i).crit
Values == done =>
    /\ ByField(1) => KUOf(V(1).v).v = T(empty).ku /\ V(1).crit
    /\ ByField(2) => EKUOf(V(2).v).known = T(empty).eku /\ EKUOf(V(2).v).unknown = OidList(T(empty).ueku)
    /\ ByField(3) => BCOf(V(3).v).ca /\ BCOf(V(3).v).mpl = 0 /\ V(3).crit
    /\ ByField(4) => SKIOf(V(4).v).v = T(empty).ski
    /\ ByField(5) => AKIOf(V(5).v).v = Aki
    /\ ByField(6) => AIAOf(V(6).v).ocsp = T(empty).ocsp /\ AIAOf(V(6).v).issurl = T(empty).issurl
    /\ ByField(7) => LET s == SANOf(V(7).v) IN s.dns = T(empty).dns /\ s.email = T(empty).email /\ s.uris = T(empty).uris /\ V(7).crit = empty
                                                /\ s.ips = <<<<1, 2, 3, 4>>, T(empty).ips[2]>>
    /\ ByField(8) => PolOf(V(8).v).v = OidList(T(empty).pol)
    /\ ByField(9) => LET c == NCOf(V(9).v) IN c.pdns = NC1.pdns /\ c.edns = NC1.edns /\ c.pemail = NC1.pemail /\ c.euri = NC1.euri
                                               /\ c.pip = <<[ip |-> <<10, 0, 0, 0>>, mask |-> <<255, 0, 0, 0>>]>> /\ V(9).crit
    /\ ByField(10) => CRLOf(V(10).v).v = T(empty).crl
    /\ \A i \in 1..NExt : There(i) => ~Unhandled(V(i))
Cuts == IF n = 0 THEN 0..(Len(Der) - 1) ELSE {Len(Der) - 1, Len(Der) - 3, 9, Len(Der) \div 2}
Strict == done => /\ \A k \in Cuts : CertOf(SubSeq(Der, 1, k)).st = "bad"
                  /\ \A b \in {0, 5, 48, 255} : CertOf(Append(Der, b)).st = "bad"
=============================================================================
