----------------------------- MODULE SM4Object -----------------------------
(***************************************************************************)
(* The sm4 package: cipher objects (only the key matters, whatever was     *)
(* done with the object before) and the ECB/CBC helpers with their         *)
(* parameter checks.                                                       *)
(***************************************************************************)
EXTENDS SM4
VARIABLE ciphers      \* sequence of round-key pairs [e, d], one per cipher object

CInit == ciphers = <<>>
NewCipher(key) == ciphers' = Append(ciphers, [e |-> EncKeys(key), d |-> DecKeys(key)])

\* the helpers succeed exactly on well-sized parameters
ECBValid(key, m) == Len(key) = 16 /\ Len(m) % 16 = 0
CBCValid(key, iv, m) == Len(key) = 16 /\ Len(iv) = 16 /\ Len(m) % 16 = 0
===========================================================================
