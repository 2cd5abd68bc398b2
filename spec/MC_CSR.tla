------------------------------- MODULE MC_CSR -------------------------------
(***************************************************************************)
(* The model of certificate requests on every template of GenCSR: whatever *)
(* is asked for is in the request exactly as often as it should be, an     *)
(* extension already named by an extension-request attribute, or an        *)
(* explicit one in place of the alternative names, takes priority, nothing *)
(* of the given attributes is lost or moved, and the request reads back as *)
(* it was built and, a byte shorter or longer, does not.                   *)
(***************************************************************************)
EXTENDS X509Parse, GenCSR

VARIABLES Req      \* the request read back
OidA == Nats(<<1, 2, 3, 4>>)  OidB == Nats(<<1, 2, 3, 5>>)
OidS == Nats(<<2, 5, 29, 17>>)  OidER == Nats(<<1, 2, 840, 113549, 1, 9, 14>>)
a1 == <<97>>  a2 == <<98, 46, 99>>
San(n) == Sq(<<TLV(Ctx(2), <<96 + n>>)>>)
OidFor(x) == CASE x = "A" -> OidA [] x = "B" -> OidB [] OTHER -> OidS
\* values that tell the places apart
Val(x, n) == IF x = "S" THEN San(n) ELSE <<n>>
AttrT(i) == [oid |-> IF attrs[i].er THEN OidER ELSE Nats(<<2, 5, 4, 3>>),
             vals |-> [j \in 1..Len(attrs[i].vals) |->
                        [k \in 1..Len(attrs[i].vals[j]) |->
                          [oid |-> OidFor(attrs[i].vals[j][k]), kind |-> "bytes", v |-> Val(attrs[i].vals[j][k], 4 * i + 2 * j + k - 6)]]]]
Name1 == [c |-> <<>>, o |-> <<a2>>, ou |-> <<>>, l |-> <<>>, st |-> <<>>, street |-> <<>>, pc |-> <<>>, cn |-> a1, sn |-> <<>>,
          extra |-> <<>>, raw |-> <<>>]
T == [subject |-> Name1, attrs |-> [i \in 1..Len(attrs) |-> AttrT(i)],
      extra |-> [i \in 1..Len(extra) |-> [oid |-> OidFor(extra[i]), crit |-> (i = 1), v |-> Val(extra[i], 20 + i)]],
      dns |-> IF names THEN <<a1>> ELSE <<>>, email |-> <<>>, ips |-> IF names THEN <<<<1, 2, 3, 4>>>> ELSE <<>>, uris |-> <<>>]
Key == G(SM2Curve)
Der == SignedDer(CSRInfoDer(T, Key), <<48, 0>>)

DMC == IF Thorough THEN 6 ELSE 5
MCInit == Init /\ Req = [st |-> "none"]
MCAdd == Add(DMC) /\ UNCHANGED Req
MCClose == Close /\ Req' = TLCEval(CSROf(Der))
MCNext == MCAdd \/ MCClose
MCSpec == MCInit /\ [][MCNext]_<<gvars, Req>>

A == CSRAttrs(T)
Ers == {i \in 1..Len(attrs) : attrs[i].er}
Named == UNION {UNION {{attrs[i].vals[j][k] : k \in 1..Len(attrs[i].vals[j])} : j \in 1..Len(attrs[i].vals)} : i \in Ers}
\* what the template asks for beside the attributes: letter and value, in order
Wanted == (IF names /\ \A i \in 1..Len(extra) : extra[i] # "S" THEN <<[x |-> "S", v |-> SANDer(T)]>> ELSE <<>>)
          \o [i \in 1..Len(extra) |-> [x |-> extra[i], v |-> Val(extra[i], 20 + i)]]
Added == [i \in 1..Len(SelectSeq(Wanted, LAMBDA w : w.x \notin Named)) |->
            LET w == SelectSeq(Wanted, LAMBDA y : y.x \notin Named)[i] IN [oid |-> OidFor(w.x), kind |-> "bytes", v |-> w.v]]
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* the given attributes stay; only the first value of the first extension request grows, at its end, by what was added
Placed == done =>
    LET has == {i \in Ers : attrs[i].vals # <<>>}
    IN  IF Wanted = <<>> THEN A = T.attrs
        ELSE IF has = {} THEN A = Append(T.attrs, [oid |-> OidER, vals |-> <<Added>>])
        ELSE /\ Len(A) = Len(attrs)
             /\ \A i \in 1..Len(A) : A[i].oid = T.attrs[i].oid /\ Len(A[i].vals) = Len(T.attrs[i].vals)
             /\ \A i \in 1..Len(A) : \A j \in 1..Len(A[i].vals) :
                   IF j = 1 /\ i \in has /\ \A k \in has : i <= k
                   THEN A[i].vals[j] = T.attrs[i].vals[j] \o Added
                   ELSE A[i].vals[j] = T.attrs[i].vals[j]
\* nothing is both in the attributes and added, and nothing asked for is left out
Asked == done => \A x \in {"A", "B", "S"} :
    LET n == Cardinality({i \in 1..Len(Wanted) : Wanted[i].x = x})
        m == Cardinality({i \in 1..Len(Added) : Added[i].oid = OidFor(x)})
    IN  m = IF x \in Named THEN 0 ELSE n
\* one value per extension request at most and no two SANs: read back in order
Regular == /\ \A i \in 1..Len(attrs) : attrs[i].vals # <<>>
           /\ \A i \in Ers : Len(attrs[i].vals) = 1
Sans == Cardinality({i \in 1..Len(Cat(MapSeq(LAMBDA a : IF a.oid = OidER THEN Cat(a.vals) ELSE <<>>, A))) :
                       Cat(MapSeq(LAMBDA a : IF a.oid = OidER THEN Cat(a.vals) ELSE <<>>, A))[i].oid = OidS})
RoundTrip == (done /\ Regular /\ Sans <= 1) =>
    /\ Req.st = "ok" /\ Req.key = Key /\ Req.rawSubject = NameDer(Name1)
    /\ Req.exts = MapSeq(LAMBDA e : [oid |-> OIDBytes(e.oid), crit |-> FALSE, v |-> e.v],
                         Cat(MapSeq(LAMBDA a : IF a.oid = OidER THEN Cat(a.vals) ELSE <<>>, A)))
    /\ \A i \in 1..Len(A) : Len(Req.attrs[i].vals) = Len(A[i].vals)
Readable == done => Req.st # "bad"
Strict == done => /\ CSROf(SubSeq(Der, 1, Len(Der) - 1)).st = "bad" /\ CSROf(Append(Der, 0)).st = "bad"
=============================================================================
