----------------------------- MODULE TraceConc -----------------------------
(***************************************************************************)
(* Histories of concurrent calls.  Goroutines invoke operations and get    *)
(* results; the calls may overlap in any way.  A history is a behaviour of *)
(* this specification iff every result is one that the sequential          *)
(* specifications allow, with every goroutine's hash, MAC and cipher       *)
(* objects being its own: the interface is that of atomic calls on values, *)
(* and no call can tell whether others were under way.                     *)
(***************************************************************************)
EXTENDS TraceBase, Padding

VARIABLES pend,                              \* [goroutine -> operation invoked and not yet returned]
          drawn, ks, hashes, macs, ciphers, last, made
seq == <<drawn, ks, hashes, macs, ciphers, last, made>>
vars == <<tid, l, pend, drawn, ks, hashes, macs, ciphers, last, made>>

D == INSTANCE TraceSM2
H == INSTANCE TraceSM3
B == INSTANCE TraceSM4
X == INSTANCE TraceKX
C == INSTANCE TraceX509

Idle == "-"
Goroutines == 1..16
Operations == {"Digest", "New", "Write", "Sum", "Reset", "NewMac", "MacWrite", "MacSum", "NewCipher", "BlockEncrypt", "BlockDecrypt",
    "ECBEncrypt", "ECBDecrypt", "CBCEncrypt", "CBCDecrypt", "PadOnly", "UnPadOnly", "Curve", "GenerateKey", "CalcPub", "PubBytes",
    "PrivBytes", "RawToPub", "RawToPriv", "Sign", "SignRS", "Verify", "VerifyRS", "Encrypt", "Decrypt", "MarshalCipher", "UnmarshalCipher",
    "MarshalSign", "UnmarshalSign", "KX", "ResponderConfirm", "CreateCSR", "ParseCSR", "VerifyCSR", "CreateInfo", "Issue", "CreateCert",
    "ParseCert", "Fill"}
Init == TraceInit /\ pend = [g \in Goroutines |-> Idle]
        /\ drawn = {} /\ ks = <<>> /\ hashes = <<>> /\ macs = <<>> /\ ciphers = <<>> /\ last = <<>> /\ made = {}

Invoke == IsEvent("Invoke") /\ pend[Ev.g] = Idle /\ Ev.call \in Operations /\ pend' = [pend EXCEPT ![Ev.g] = Ev.call] /\ UNCHANGED seq

\* a result of operation `op` may come back: to a goroutine that waits for it, or, before the
\* goroutines started, to the one that prepared what they share
Returns == /\ l <= Len(Trace)
           /\ Ev.op # "Invoke"
           /\ IF "g" \in DOMAIN Ev
              THEN pend[Ev.g] = Ev.op /\ pend' = [pend EXCEPT ![Ev.g] = Idle]
              ELSE UNCHANGED pend

PadOnly == IsEvent("PadOnly") /\ Ev.out = "ok" /\ Ev.r = PKCS5Pad(Ev.m, Ev.bs)
UnPadOnly == IsEvent("UnPadOnly") /\ Ev.out = "ok" /\ Ev.r = PKCS5Unpad(Ev.m)

SM2Call == /\ UNCHANGED <<hashes, macs, ciphers, last, made>>
           /\ \/ D!TCurve \/ D!TGenerateKey \/ D!TCalcPub \/ D!TPubBytes \/ D!TPrivBytes \/ D!TRawToPub \/ D!TRawToPriv
              \/ D!TSign \/ D!TSignRS \/ D!TVerifyRS \/ D!TVerify \/ D!TEncrypt \/ D!TDecrypt
              \/ D!TMarshalCipher \/ D!TUnmarshalCipher \/ D!TMarshalSign \/ D!TUnmarshalSign
HashCall == /\ UNCHANGED <<drawn, ks, ciphers, last, made>>
            /\ \/ H!TNew \/ H!TWrite \/ H!TSum \/ H!TReset \/ H!TDigest
               \/ H!TNewMac \/ H!TMacWrite \/ H!TMacSum
CipherCall == /\ UNCHANGED <<drawn, ks, hashes, macs, last, made>>
              /\ B!TNew \/ B!TEnc \/ B!TDec \/ B!TECBEnc \/ B!TECBDec \/ B!TCBCEnc \/ B!TCBCDec
KxCall == UNCHANGED <<drawn, ks, hashes, macs, ciphers, made>> /\ (X!TKX \/ X!TConfirm)
CertCall == /\ UNCHANGED <<drawn, ks, hashes, macs, ciphers, last>>
            /\ \/ C!TCreateCSR \/ C!TCreateInfo \/ C!TIssue \/ C!TCreateCert \/ C!TFill
               \/ C!TParseCert \/ C!TParseCSR \/ C!TVerifyCSR
PadCall == (PadOnly \/ UnPadOnly) /\ UNCHANGED seq

Return == Returns /\ (SM2Call \/ HashCall \/ CipherCall \/ KxCall \/ CertCall \/ PadCall)

Next == Invoke \/ Return \/ (Finished /\ UNCHANGED <<pend, drawn, ks, hashes, macs, ciphers, last, made>>)
Spec == Init /\ [][Next]_vars
===========================================================================
