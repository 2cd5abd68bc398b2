----------------------------- MODULE TraceX509 -----------------------------
(* Traces of package sm2/cert. *)
EXTENDS TraceBase, X509Parse

VARIABLES made     \* the certificate infos created so far, as bytes
vars == <<tid, l, made>>
Init == TraceInit /\ made = {}
Ok == Ev.out = "ok"
Err == Ev.out = "err"
Keep == UNCHANGED made
Cv == SM2Curve
Id == IF Ev.nilid THEN DefaultId ELSE Ev.id

\* r is tbs, signed by d
SignedBy(d, tbs, r) ==
    LET s == SignedOf(r)
    IN  /\ s.st = "ok"
        /\ r = SignedDer(tbs, s.sig)
        /\ VerifiesDer(Cv, PubOf(Cv, d), Id, tbs, s.sig)
\* the random source failed: an error and nothing else
SourceFailed == Ev.failed /\ Err /\ Ev.r = <<>> /\ Keep

\* ---- building
TCreateCSR == IsEvent("CreateCSR") /\ Ev.same /\
    \/ SourceFailed
    \/ /\ ~Ev.failed
       /\ IF CSRTemplateOK(Ev.t) /\ IdOK(Id)
          THEN Ok /\ SignedBy(Ev.d, CSRInfoDer(Ev.t, <<Ev.x, Ev.y>>), Ev.r)
          ELSE Err /\ Ev.r = <<>>
       /\ Keep

SPKISt(b) ==
    LET o == One(b, TagSeq)
        f == IF o.st = "ok" THEN Lead(o.c, <<TagSeq, TagBits>>) ELSE [st |-> "bad", es |-> <<>>, rest |-> <<>>]
        a == IF f.st = "ok" THEN Lead(f.es[1].content, <<TagOID>>) ELSE f
    IN  IF f.st # "ok" \/ a.st # "ok" THEN "bad"
        ELSE Worst({OidSt(a.es[1].content), St(BitsOK(f.es[2].content)), Unless(f.rest = <<>> /\ Elems(a.rest).st = "ok" /\ Len(Elems(a.rest).es) <= 1, "grey")})
TCreateInfo == IsEvent("CreateInfo") /\ Ev.same /\
    LET good == TemplateOK(Ev.t) /\ NameOK(Ev.parent.subject)
        st == SPKISt(Ev.spki)
    IN  \/ good /\ st # "bad" /\ Ok /\ Ev.raw = TBSDer(Ev.t, Ev.parent, Ev.spki) /\ made' = made \cup {Ev.raw}
        \/ ~(good /\ st = "ok") /\ Err /\ Ev.raw = <<>> /\ Keep
TIssue == IsEvent("Issue") /\ Ev.same /\ Ev.raw \in made /\ Keep /\
    \/ SourceFailed
    \/ /\ ~Ev.failed
       /\ IF IdOK(Id) THEN Ok /\ SignedBy(Ev.d, Ev.raw, Ev.r)
          ELSE Err /\ Ev.r = <<>>
TCreateCert == IsEvent("CreateCert") /\ Ev.same /\ Ev.raw \in made /\ Keep /\ Ok /\ Ev.r = SignedDer(Ev.raw, Ev.sig)
\* a template filled from a request: the named fields are the request's, the others stay
TFill == IsEvent("Fill") /\ Keep /\ Ev.same /\ Ok /\ Ev.rest
         /\ Ev.subject = Ev.csr.subject /\ <<Ev.x, Ev.y>> = <<Ev.csr.x, Ev.csr.y>>
         /\ Ev.exts = Ev.csr.exts /\ Ev.extra = Ev.csr.extra
         /\ Ev.dns = Ev.csr.dns /\ Ev.email = Ev.csr.email /\ Ev.ips = Ev.csr.ips /\ Ev.uris = Ev.csr.uris

\* ---- reading
Gone == {"raw"} \cap DOMAIN Ev = {}
TParseCert == IsEvent("ParseCert") /\ Keep /\ Ev.same /\
    LET c == CertOf(Ev.in)
    IN  CASE c.st = "ok" -> Ok /\ ShowsCert(Ev, Ev.in, c)
          [] c.st = "either" -> (Ok /\ ShowsCert(Ev, Ev.in, c)) \/ (Err /\ Gone)
          [] c.st = "bad" -> Err /\ Gone
          [] OTHER -> (Ok /\ Ev.raw = Ev.in) \/ (Err /\ Gone)
TParseCSR == IsEvent("ParseCSR") /\ Keep /\ Ev.same /\
    LET c == CSROf(Ev.in)
    IN  CASE c.st = "ok" -> Ok /\ ShowsCSR(Ev, Ev.in, c)
          [] c.st = "bad" -> Err /\ Gone
          [] OTHER -> (Ok /\ Ev.raw = Ev.in) \/ (Err /\ Gone)

\* a request whose form is irregular still needs a valid signature of its info bytes by its key
LooselySigned(der) ==
    LET o == One(der, TagSeq)
        f == IF o.st = "ok" THEN Lead(o.c, <<TagSeq, TagSeq, TagBits>>) ELSE [st |-> "bad"]
        g == IF f.st = "ok" THEN Lead(f.es[1].content, <<TagInt, 0, TagSeq>>) ELSE [st |-> "bad"]
        key == KeyOf(g.es[3])
    IN  /\ f.st = "ok" /\ g.st = "ok" /\ key.st # "bad"
        /\ BitsSt(f.es[3].content) = "grey" \/ key.v = <<>>
           \/ VerifiesDer(Cv, key.v, Id, f.es[1].elem, Tail(f.es[3].content))
TVerifyCSR == IsEvent("VerifyCSR") /\ Keep /\ Ev.same /\
    LET c == CSROf(Ev.in)
    IN  CASE c.st = "ok" -> Ok /\ Ev.res = VerifiesDer(Cv, c.key, Id, c.tbs, c.sig)
          [] c.st = "bad" -> Err /\ ~Ev.res
          [] OTHER -> \/ Err /\ ~Ev.res
                      \/ Ok /\ (Ev.res => LooselySigned(Ev.in))

Next == TCreateCSR \/ TCreateInfo \/ TIssue \/ TCreateCert \/ TFill \/ TParseCert \/ TParseCSR \/ TVerifyCSR
        \/ (Finished /\ UNCHANGED made)
Spec == Init /\ [][Next]_vars
===========================================================================
