----------------------------- MODULE SM3Object -----------------------------
(***************************************************************************)
(* The sm3 package as a state machine: hash objects (hash.Hash) and MAC    *)
(* objects built over them.  The abstract state of an object is simply the *)
(* byte string written since creation or the last Reset; a Sum is a        *)
(* function of that state and does not change it.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SM3
LOCAL INSTANCE Bitwise

VARIABLES hashes,   \* sequence of byte strings, one per hash object
          macs      \* sequence of [key, w], one per MAC object

ovars == <<hashes, macs>>

Size == 32
BlockSize == 64

OInit == hashes = <<>> /\ macs = <<>>

New == hashes' = Append(hashes, <<>>) /\ UNCHANGED macs
Write(o, p) == hashes' = [hashes EXCEPT ![o] = @ \o p] /\ UNCHANGED macs
Reset(o) == hashes' = [hashes EXCEPT ![o] = <<>>] /\ UNCHANGED macs
SumOf(o, b) == b \o SM3Hash(hashes[o])

\* HMAC, RFC 2104
XorPad(key, x) == [i \in 1..BlockSize |-> LET k == IF i <= Len(key) THEN key[i] ELSE 0
                                          IN  (k + x) - 2 * (k & x)]
HKey(key) == IF Len(key) > BlockSize THEN SM3Hash(key) ELSE key
HMAC(key, m) == LET k == HKey(key)
                IN  SM3Hash(XorPad(k, 92) \o SM3Hash(XorPad(k, 54) \o m))

NewMac(key) == macs' = Append(macs, [key |-> key, w |-> <<>>]) /\ UNCHANGED hashes
MacWrite(o, p) == macs' = [macs EXCEPT ![o].w = @ \o p] /\ UNCHANGED hashes
MacReset(o) == macs' = [macs EXCEPT ![o].w = <<>>] /\ UNCHANGED hashes
MacOf(o, b) == b \o HMAC(macs[o].key, macs[o].w)
===========================================================================
