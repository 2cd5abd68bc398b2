------------------------------ MODULE MC_SM3 ------------------------------
(* Known answers of GB/T 32905 and padding laws for the SM3 definition, and *)
(* agreement of the accelerated operators with the definitions.             *)
EXTENDS SM3, TLC
VARIABLE n
Abc == <<97, 98, 99>>
AbcD == << 102,199,240,244, 98,238,237,217, 209,242,212,107, 220,16,228,226,
           65,103,196,135, 92,242,247,162, 41,125,160,43, 143,75,168,224 >>
Abcd16 == [i \in 1..64 |-> 97 + ((i - 1) % 4)]
Abcd16D == << 222,190,159,249, 34,117,184,161, 56,96,72,137, 193,142,90,77,
              111,219,112,229, 56,126,87,101, 41,61,203,163, 156,12,87,50 >>
ASSUME SM3HashDef(Abc) = AbcD
ASSUME SM3HashDef(Abcd16) = Abcd16D
ASSUME SM3HashRep(Abcd16, 1, <<>>) = Abcd16D
ASSUME AbsorbRep(SM3IV, Abcd16, 3) = AbsorbRepDef(SM3IV, Abcd16, 3)
Init == n = 0
Next == n < 200 /\ n' = n + 1
Spec == Init /\ [][Next]_n
M == [i \in 1..n |-> (i * 37 + n) % 256]
PadOk == LET q == n \div 64
             t == Tail64(q, SubSeq(M, 64 * q + 1, n))
         IN  /\ Len(t) % 64 = 0 /\ Len(t) <= 128
             /\ t[(n % 64) + 1] = 128
             /\ Len(t) - (n % 64) >= 9
             /\ SubSeq(t, Len(t) - 7, Len(t)) = <<0, 0, 0, 0, 0, 0, (8 * n) \div 256, (8 * n) % 256>>
Agree == n % 7 = 0 => SM3Hash(M) = SM3HashDef(M)
===========================================================================
