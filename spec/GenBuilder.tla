----------------------------- MODULE GenBuilder -----------------------------
(* All well-nested builder programs of at most L calls, printed as JSON and  *)
(* run on real builders, growing and with every fixed size.                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Seed == atoi(IOEnv.VERIF_SEED)
L == IF IOEnv.VERIF_TIER = "thorough" THEN 7 ELSE 6
LeafPool == << <<"u8", "empty">>, <<"u16", "err">>, <<"int", "empty">>, <<"bytes", "oid">>, <<"u24", "bool">> >>
OpenPool == << <<"lp1", "asn">>, <<"lp2", "asn">>, <<"lp3", "asn">>, <<"lp4", "high">>, <<"lp1", "lp2">> >>
Range(s) == {s[i] : i \in 1..Len(s)}
Leaves == Range(LeafPool[(Seed % 5) + 1])
Opens == Range(OpenPool[((Seed + (Seed \div 5)) % 5) + 1])

VARIABLES p, d
Init == p = <<>> /\ d = 0
Next == \/ \E t \in Leaves : Len(p) + d < L /\ p' = Append(p, t) /\ d' = d
        \/ \E t \in Opens : Len(p) + d + 1 < L /\ p' = Append(p, t) /\ d' = d + 1
        \/ d > 0 /\ p' = Append(p, "close") /\ d' = d - 1
Spec == Init /\ [][Next]_<<p, d>>
Emit == (d = 0 /\ p # <<>>) => PrintT(ToJson(p))
=============================================================================
