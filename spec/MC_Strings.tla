---------------------------- MODULE MC_Strings ----------------------------
(***************************************************************************)
(* The string rules of X509.tla against definitions by code point.         *)
(* Every string of at most MaxLen of the bytes at which a rule changes,    *)
(* and one more where four bytes may make a character.                     *)
(***************************************************************************)
EXTENDS X509

CONSTANT MaxLen
Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}

VARIABLES s, t
Init == s = <<>> /\ t = <<>>
\* t: another string, one step behind
Next == \/ \E b \in Bytes : Len(s) < MaxLen /\ s' = Append(s, b) /\ t' = s
        \* one more behind a first byte of the four byte forms
        \/ \E b \in {0, 127, 128, 191, 192, 255} : Len(s) = MaxLen /\ s[1] >= 240 /\ s' = Append(s, b) /\ t' = s
Spec == Init /\ [][Next]_<<s, t>>

\* Unicode scalar values and their encodings
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
Enc(c) == CASE c < 128 -> <<c>>
            [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
            [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* the code point n bytes would stand for
Lead0(b, n) == IF n = 1 THEN b ELSE b % (2 ^ (7 - n))
Code(x) == FoldLeft(LAMBDA acc, b : acc * 64 + (b % 64), Lead0(x[1], Len(x)), Tail(x))
RECURSIVE WellFormed(_)
WellFormed(x) ==
    x = <<>> \/ \E n \in 1..4 : /\ n <= Len(x)
                                /\ LET h == SubSeq(x, 1, n) IN Scalar(Code(h)) /\ Enc(Code(h)) = h
                                /\ WellFormed(SubSeq(x, n + 1, Len(x)))
UTF8Agrees == UTF8OK(s) <=> WellFormed(s)
PlainAgrees == (IA5(s) => UTF8OK(s)) /\ (Printable(s) => IA5(s))

\* the order of SET OF: total, strict, prefixes first
OrderAgrees ==
    /\ ~LexLess(s, s)
    /\ s # t => (LexLess(s, t) <=> ~LexLess(t, s))
    /\ s # <<>> => LexLess(t, s)
    /\ \A b \in {0, 128, 255} : s # <<>> /\ b # s[Len(s)] =>
         (LexLess(Append(t, b), s) <=> b < s[Len(s)]) /\ (LexLess(Append(t, b) \o <<7>>, s) <=> b < s[Len(s)])
    /\ Sorted(<<s, t, <<>>, <<200>>>>) = Sorted(<<<<200>>, <<>>, t, s>>)
    /\ LET o == Sorted(<<s, t, <<65, 200>>>>) IN \A i \in 1..2 : ~LexLess(o[i + 1], o[i])
===========================================================================
