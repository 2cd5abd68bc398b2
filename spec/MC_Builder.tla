----------------------------- MODULE MC_Builder -----------------------------
(***************************************************************************)
(* How nested parts can be written into one flat buffer: reserve the       *)
(* prefix, write the content behind it, fill the prefix in on closing, and *)
(* shift the content when an ASN.1 length turns out to need more octets.   *)
(* Checked against the abstract machine, with bytes to base B and a short  *)
(* form below S, for every program of L calls and every buffer size: the   *)
(* flat result is the abstract one, and it fails exactly when the abstract *)
(* one does.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, IOUtils

B == 4
S == 2
L == IF IOEnv.VERIF_TIER = "thorough" THEN 9 ELSE 7
Caps == {100, 0, 1, 2, 3, 4, 5, 6, 7}

\* number n to base B, w digits
Digits(n, w) == [i \in 1..w |-> (n \div (B ^ (w - i))) % B]
Width(n) == IF n < B THEN 1 ELSE IF n < B ^ 2 THEN 2 ELSE 3
LenOf(n) == IF n < S THEN <<n>> ELSE <<S + Width(n) - 1>> \o Digits(n, Width(n))

VARIABLES frames,  \* abstract: stack of [asn, w, body]
          aerr,
          flat,    \* concrete: the buffer
          pend,    \* stack of [asn, w, off]
          cerr, cap, steps
vars == <<frames, aerr, flat, pend, cerr, cap, steps>>

Frame(asn, w) == [asn |-> asn, w |-> w, body |-> <<>>]
Held == LET F[i \in 0..Len(frames)] == IF i = 0 THEN 0 ELSE F[i - 1] + frames[i].w + Len(frames[i].body)
        IN  F[Len(frames)]
Init == /\ frames = <<Frame(FALSE, 0)>> /\ aerr = FALSE
        /\ flat = <<>> /\ pend = <<>> /\ cerr = FALSE
        /\ cap \in Caps /\ steps = 0
Tick == steps < L /\ steps' = steps + 1 /\ cap' = cap

Write(x) ==
    /\ Tick /\ UNCHANGED pend
    /\ frames' = [frames EXCEPT ![Len(frames)].body = Append(@, x)]
    /\ aerr' = (aerr \/ Held + 1 > cap)
    /\ IF cerr \/ Len(flat) + 1 > cap THEN cerr' = TRUE /\ flat' = flat
       ELSE cerr' = FALSE /\ flat' = Append(flat, x)
Open(asn, w) ==
    /\ Tick
    /\ frames' = Append(frames, Frame(asn, w))
    /\ aerr' = (aerr \/ Held + w > cap)
    /\ pend' = Append(pend, [asn |-> asn, w |-> w, off |-> Len(flat)])
    /\ IF cerr \/ Len(flat) + w > cap THEN cerr' = TRUE /\ flat' = flat
       ELSE cerr' = FALSE /\ flat' = flat \o Digits(0, w)
Close ==
    /\ Tick /\ pend # <<>>
    /\ LET f == frames[Len(frames)]
           low == SubSeq(frames, 1, Len(frames) - 1)
           n == Len(f.body)
           hdr == IF f.asn THEN LenOf(n) ELSE Digits(n, f.w)
           bad == ~f.asn /\ n >= B ^ f.w
           new == [low EXCEPT ![Len(low)].body = @ \o hdr \o f.body]
       IN  /\ frames' = new
           /\ aerr' = (aerr \/ bad \/ Held - f.w + Len(hdr) > cap)
    /\ LET p == pend[Len(pend)]
           n == Len(flat) - p.w - p.off
           extra == IF p.asn /\ n >= S THEN Width(n) ELSE 0
           shifted == SubSeq(flat, 1, p.off + 1) \o Digits(0, extra) \o SubSeq(flat, p.off + 2, Len(flat))
           lb == IF p.asn THEN LenOf(n) ELSE Digits(n, p.w)
       IN  /\ pend' = SubSeq(pend, 1, Len(pend) - 1)
           /\ IF cerr THEN cerr' = TRUE /\ flat' = flat
              ELSE IF ~p.asn /\ n >= B ^ p.w THEN cerr' = TRUE /\ flat' = flat
              ELSE IF Len(flat) + extra > cap THEN cerr' = TRUE /\ flat' = flat
              ELSE /\ cerr' = FALSE
                   /\ flat' = [i \in 1..(Len(flat) + extra) |->
                                 IF i > p.off /\ i <= p.off + Len(lb) THEN lb[i - p.off] ELSE shifted[i]]
Next == Write(1) \/ Open(TRUE, 1) \/ Open(FALSE, 1) \/ Open(FALSE, 2) \/ Close
Spec == Init /\ [][Next]_vars

\* the buffer holds every open frame's reserved prefix and body
Flat == LET F[i \in 0..Len(frames)] ==
               IF i = 0 THEN <<>> ELSE F[i - 1] \o Digits(0, frames[i].w) \o frames[i].body
        IN  F[Len(frames)]
Agree == /\ aerr = cerr
         /\ ~aerr => flat = Flat
         /\ ~aerr => Len(flat) <= cap
=============================================================================
