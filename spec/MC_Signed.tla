----------------------------- MODULE MC_Signed -----------------------------
(* SignedInt against TLC's own integers, and two's complement against its  *)
(* laws on large numbers.                                                  *)
EXTENDS SignedInt, Sequences
Some == (-17..17) \cup {s * b + d : s \in {-1, 1}, b \in {64, 128, 255, 256, 511, 512, 32768, 65535}, d \in {-1, 0, 1}}
Abs(i) == IF i < 0 THEN -i ELSE i
S(i) == SI(i < 0, BNFromNat(Abs(i)))
\* bit k of i, for k < 20
Bit(i, k) == LET f == IF i >= 0 THEN i \div (2 ^ k) ELSE -((-i + 2 ^ k - 1) \div (2 ^ k))   \* floor
             IN  Abs(f) % 2
RECURSIVE FromBits(_, _, _)
FromBits(i, j, k) == IF k = 0 THEN IF Bit(i, 20) = 1 /\ Bit(j, 20) = 1 THEN -1 ELSE 0
                     ELSE 2 * FromBits(i, j, k - 1) + (Bit(i, 20 - k) * Bit(j, 20 - k))
BitAnd(i, j) == FromBits(i, j, 20)

VARIABLES i, j, started
Init == i = 0 /\ j = 0 /\ started = FALSE
Next == ~started /\ started' = TRUE /\ i' \in Some /\ j' \in Some
Spec == Init /\ [][Next]_<<i, j, started>>

Small ==
    started =>
    /\ SAdd(S(i), S(j)) = S(i + j)
    /\ SSub(S(i), S(j)) = S(i - j)
    /\ ((Abs(i) < 40000 /\ Abs(j) < 30000) => SMul(S(i), S(j)) = S(i * j))
    /\ (j > 0 => SMod(S(i), S(j)) = S(i % j))
    /\ \A k \in {0, 1, 3, 8, 9} : SLsh(S(i), k) = S(i * (2 ^ k))
    /\ \A k \in 0..19 : /\ SBit(S(i), k) = Bit(i, k)
                        /\ SSetBit(S(i), k, 1) = S(i + ((1 - Bit(i, k)) * (2 ^ k)))
                        /\ SSetBit(S(i), k, 0) = S(i - (Bit(i, k) * (2 ^ k)))
    /\ SAnd(S(i), S(j)) = S(BitAnd(i, j))
\* the same for numbers 2^200 times as large (and a little more)
Up(x) == SAdd(SLsh(x, 200), S(5))
Large ==
    started =>
    /\ SSub(SAdd(Up(S(i)), Up(S(j))), Up(S(j))) = Up(S(i))
    /\ SAnd(Up(S(i)), Up(S(j))) = Up(S(BitAnd(i, j)))
    /\ \A k \in {0, 1, 199, 200, 203, 219} :
         LET y == SSetBit(Up(S(i)), k, 1) IN SBit(y, k) = 1 /\ SSetBit(y, k, SBit(Up(S(i)), k)) = Up(S(i))
    /\ SMul(Up(S(i)), S(j)) = SAdd(SLsh(SMul(S(i), S(j)), 200), S(5 * j))
    /\ FromTwos(ToTwos(Up(S(i)), 40)) = Up(S(i))
===========================================================================
