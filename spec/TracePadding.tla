---------------------------- MODULE TracePadding ----------------------------
EXTENDS TraceBase, Padding
\* mem: the caller's backing array as the specification knows it
VARIABLE mem
vars == <<tid, l, mem>>
Init == TraceInit /\ mem = <<>>
Ok == Ev.out = "ok"
\* the caller sets up a backing array
TAlloc == IsEvent("Alloc") /\ mem' = Ev.back
\* a call on the window mem[1..n] returns r and leaves the array as it is
Call(op) == IsEvent(op) /\ Ok /\ Ev.back = mem /\ UNCHANGED mem
Win == SubSeq(mem, 1, Ev.n)
TPKCS5 == Call("PKCS5Padding") /\ Ev.r = PKCS5Pad(Win, Ev.bs)
TUnP   == Call("PKCS5UnPadding") /\ IsPKCS5(Win, Ev.bs) /\ Ev.r = PKCS5Unpad(Win)
TZero  == Call("ZeroPadding") /\ Ev.r = ZeroPad(Win, Ev.bs)
TUnZ   == Call("UnZeroPadding") /\ Ev.r = ZeroUnpad(Win, Ev.k)
\* the caller writes into the result of a padding call; its own array must not change
TScribble == IsEvent("Scribble") /\ Ev.back = mem /\ UNCHANGED mem
Next == TAlloc \/ TPKCS5 \/ TUnP \/ TZero \/ TUnZ \/ TScribble \/ (Finished /\ UNCHANGED mem)
Spec == Init /\ [][Next]_vars
===========================================================================
