------------------------------- MODULE GenCSR -------------------------------
(***************************************************************************)
(* Certificate request templates by the structure of what they ask for: up *)
(* to three attributes, extension requests or others, of up to two values  *)
(* of up to two items each, up to three explicit extensions and alternative*)
(* names or none.  "A" and "B" stand for two extensions, "S" for the       *)
(* alternative names given as an extension.  Every template of at most D   *)
(* parts is printed for replay against the implementation; MC_CSR checks   *)
(* the model on them.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Thorough == IOEnv.VERIF_TIER = "thorough"

VARIABLES attrs, extra, names, done, cost
gvars == <<attrs, extra, names, done, cost>>

Init == attrs = <<>> /\ extra = <<>> /\ names = FALSE /\ done = FALSE /\ cost = 0
\* parts are added in one order only: an attribute, its values, their items, the extensions, the names
Early == extra = <<>> /\ ~names /\ ~done
Cur == Len(attrs)
CurVal == Len(attrs[Cur].vals)
AddAttr == /\ Early /\ Cur < 3
           /\ \E er \in BOOLEAN : attrs' = Append(attrs, [er |-> er, vals |-> <<>>])
           /\ UNCHANGED <<extra, names, done>>
AddVal == /\ Early /\ Cur > 0 /\ CurVal < (IF attrs[Cur].er THEN 2 ELSE 1)
          /\ attrs' = [attrs EXCEPT ![Cur].vals = Append(@, <<>>)]
          /\ UNCHANGED <<extra, names, done>>
AddItem == /\ Early /\ Cur > 0 /\ CurVal > 0 /\ Len(attrs[Cur].vals[CurVal]) < 2
           /\ \E x \in (IF attrs[Cur].er THEN {"A", "S"} ELSE {"A"}) :
                  attrs' = [attrs EXCEPT ![Cur].vals[CurVal] = Append(@, x)]
           /\ UNCHANGED <<extra, names, done>>
AddExtra == /\ ~names /\ ~done /\ Len(extra) < 3
            /\ \E x \in {"A", "B", "S"} : extra' = Append(extra, x)
            /\ UNCHANGED <<attrs, names, done>>
AddNames == ~names /\ ~done /\ names' = TRUE /\ UNCHANGED <<attrs, extra, done>>
Add(D) == cost < D /\ cost' = cost + 1 /\ (AddAttr \/ AddVal \/ AddItem \/ AddExtra \/ AddNames)
Close == ~done /\ done' = TRUE /\ UNCHANGED <<attrs, extra, names, cost>>
DGen == IF Thorough THEN 7 ELSE 6
Next == Add(DGen) \/ Close
Spec == Init /\ [][Next]_gvars
Emit == done => PrintT(ToJson([attrs |-> attrs, extra |-> extra, names |-> names]))
=============================================================================
