------------------------------ MODULE GenX509 ------------------------------
(***************************************************************************)
(* Certificates by the combination of their extensions.  Each of the ten   *)
(* extensions is absent, asked for by the template's fields, given as an   *)
(* explicit extension, or both; the subject is empty or not, the issuer is *)
(* the subject or not, the issuer's key has an id or not.  Starting from   *)
(* "none at all", "all by fields" and "all given twice over" up to D of    *)
(* these thirteen are changed.  Every combination is printed for replay    *)
(* against the implementation; MC_X509 checks the model on them.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Thorough == IOEnv.VERIF_TIER = "thorough"
NExt == 10
Ways == {"none", "field", "extra", "both"}

VARIABLES f, n, base, flags, done
gvars == <<f, n, base, flags, done>>
Init == f = <<>> /\ n = 0 /\ base \in {"none", "field", "both"} /\ flags = {} /\ done = FALSE
Pick(D) == /\ Len(f) < NExt /\ ~done
           /\ \E w \in Ways : /\ w # base => n < D
                              /\ f' = Append(f, w) /\ n' = n + (IF w = base THEN 0 ELSE 1)
           /\ UNCHANGED <<base, flags, done>>
Close(D) == /\ Len(f) = NExt /\ ~done /\ done' = TRUE
            /\ \E fl \in SUBSET {"empty", "self", "pski"} : n + Cardinality(fl) <= D /\ flags' = fl
            /\ UNCHANGED <<f, n, base>>
DGen == IF Thorough THEN 3 ELSE 2
Next == Pick(DGen) \/ Close(DGen)
Spec == Init /\ [][Next]_gvars
Emit == done => PrintT(ToJson([f |-> f, empty |-> "empty" \in flags, self |-> "self" \in flags, pski |-> "pski" \in flags]))
=============================================================================
