------------------------------ MODULE GenHash ------------------------------
(***************************************************************************)
(* Generates all histories of D calls on one hash object over the write    *)
(* lengths LENS; each complete history is printed as JSON and replayed on  *)
(* the implementation by the driver.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Seed == atoi(IOEnv.VERIF_SEED)
D == IF IOEnv.VERIF_TIER = "thorough" THEN 5 ELSE 4
Pool == << {0, 1, 60, 64, 67}, {3, 56, 61, 64, 128}, {2, 55, 63, 65, 66}, {0, 4, 57, 119, 124} >>
LENS == Pool[(Seed % 4) + 1]

VARIABLE h
Init == h = << [op |-> "New", o |-> 1, n |-> 0] >>
Step(op, n) == h' = Append(h, [op |-> op, o |-> 1, n |-> n])
Next == /\ Len(h) <= D
        /\ \/ \E n \in LENS : Step("Write", n)
           \/ Step("Sum", Len(h) % 3)
           \/ Step("Reset", 0)
Spec == Init /\ [][Next]_h
Emit == Len(h) = D + 1 => PrintT(ToJson(h))
===========================================================================
