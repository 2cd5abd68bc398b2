------------------------------ MODULE MC_SM4 ------------------------------
(* Known answers of GB/T 32907, decryption as the inverse, mode laws.       *)
EXTENDS SM4, TLC
Key == <<1, 35, 69, 103, 137, 171, 205, 239, 254, 220, 186, 152, 118, 84, 50, 16>>
Ct  == <<104, 30, 223, 52, 210, 6, 150, 94, 134, 179, 233, 79, 83, 110, 66, 70>>
ASSUME SM4Enc(Key, Key) = Ct
ASSUME SM4Dec(Key, Ct) = Key
ASSUME {SBox[x] : x \in 0..255} = 0..255 /\ SBox[0] = 214 /\ SBox[255] = 72

VARIABLE t
B(k) == [i \in 1..16 |-> (i * 53 + k * 29 + k * k) % 256]
Init == t = 0
Next == t < 40 /\ t' = t + 1
Spec == Init /\ [][Next]_t
InverseLaw == SM4Dec(B(t), SM4Enc(B(t), B(t + 1))) = B(t + 1)
           /\ SM4Enc(B(t), SM4Dec(B(t), B(t + 1))) = B(t + 1)
M == B(t) \o B(t + 1) \o B(t)
Modes == /\ ECBDec(B(t + 3), ECBEnc(B(t + 3), M)) = M
         /\ CBCDec(B(t + 3), B(t + 5), CBCEnc(B(t + 3), B(t + 5), M)) = M
         /\ SubSeq(ECBEnc(Key, M), 1, 16) = SubSeq(ECBEnc(Key, M), 33, 48)
         /\ SubSeq(CBCEnc(Key, B(t), M), 1, 16) # SubSeq(CBCEnc(Key, B(t), M), 33, 48)
Accelerated ==
    LET K == B(7 * t + 2)  IV == B(t * t + 1)  N == B(t + 11) \o M \o B(3 * t)
    IN  /\ ECBEnc(K, N) = ECBEncDef(K, N) /\ ECBDec(K, N) = ECBDecDef(K, N)
        /\ CBCEnc(K, IV, N) = CBCEncDef(K, IV, N) /\ CBCDec(K, IV, N) = CBCDecDef(K, IV, N)
        /\ ECBEnc(K, <<>>) = <<>> /\ CBCDec(K, IV, <<>>) = <<>>
===========================================================================
