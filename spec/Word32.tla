------------------------------ MODULE Word32 ------------------------------
(***************************************************************************)
(* 32-bit words for a model checker whose integers are 32-bit SIGNED: a    *)
(* word is the pair <<hi16, lo16>>.  Pure TLA+; `^^`, `&`, `|` come from   *)
(* the CommunityModules Bitwise module.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE Bitwise

Word == (0..65535) \X (0..65535)

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
          16384, 32768, 65536>>           \* Pow2[n+1] = 2^n

W0 == <<0, 0>>

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WXor3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2]>>
WXor4(a, b, c, d) == <<((a[1] ^^ b[1]) ^^ c[1]) ^^ d[1],
                       ((a[2] ^^ b[2]) ^^ c[2]) ^^ d[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)    == <<65535 - a[1], 65535 - a[2]>>

WAdd(a, b) ==
    LET lo == a[2] + b[2]
    IN  <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>

\* rotate left by n, 0 <= n < 32
WRotl(a, n) ==
    LET m == n % 16
        h == IF n < 16 THEN a[1] ELSE a[2]
        l == IF n < 16 THEN a[2] ELSE a[1]
        up == Pow2[m + 1]
        dn == Pow2[17 - m]
    IN  <<((h * up) % 65536) + (l \div dn), ((l * up) % 65536) + (h \div dn)>>

\* big-endian conversions; s is a byte sequence, i the 1-based first index
WFromBytes(s, i) == <<s[i] * 256 + s[i+1], s[i+2] * 256 + s[i+3]>>
WToBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
===========================================================================
