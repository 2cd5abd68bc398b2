------------------------------ MODULE MC_Conc ------------------------------
(***************************************************************************)
(* How calls may be carried out so that concurrency cannot be seen.        *)
(* Calls take several steps: they put an intermediate value into scratch   *)
(* memory, compute from it, use a table that the first call fills in, and  *)
(* return.  Scratch memory belongs to the call (Shared = FALSE) or to the  *)
(* package (Shared = TRUE); the table is guarded, as by sync.Once          *)
(* (Guarded = TRUE), or announced before it is filled (Guarded = FALSE).   *)
(*                                                                         *)
(* Linear: each result is the sequential one.  It holds for private        *)
(* scratch memory and a guarded table.  The configurations MC_ConcShared   *)
(* and MC_ConcOnce, where TLC must find a counterexample, show that the    *)
(* histories of TraceConc can tell the difference.                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Procs, Inputs, Shared, Guarded, Calls

VARIABLES pc, in, res, n, scratch, ready, table, rnd, used
vars == <<pc, in, res, n, scratch, ready, table, rnd, used>>

Cell(p) == IF Shared THEN 0 ELSE p
F(x, t) == 10 * x + t        \* what a call computes; the filled table holds 7

Init == /\ pc = [p \in Procs |-> "idle"] /\ in = [p \in Procs |-> 0] /\ res = [p \in Procs |-> 0]
        /\ n = [p \in Procs |-> 0] /\ scratch = [c \in {0} \cup Procs |-> 0]
        /\ ready = FALSE /\ table = 0 /\ rnd = 0 /\ used = {}

Invoke(p) == \E x \in Inputs :
    /\ pc[p] = "idle" /\ n[p] < Calls
    /\ pc' = [pc EXCEPT ![p] = "table"] /\ in' = [in EXCEPT ![p] = x] /\ n' = [n EXCEPT ![p] = @ + 1]
    /\ UNCHANGED <<res, scratch, ready, table, rnd, used>>
\* look whether the table is there
Table(p) ==
    /\ pc[p] = "table"
    /\ IF ready THEN pc' = [pc EXCEPT ![p] = "load"] /\ UNCHANGED <<ready, table>>
       ELSE IF Guarded THEN pc' = [pc EXCEPT ![p] = "load"] /\ ready' = TRUE /\ table' = 7   \* one step: others wait
       ELSE pc' = [pc EXCEPT ![p] = "fill"] /\ ready' = TRUE /\ UNCHANGED table
    /\ UNCHANGED <<in, res, n, scratch, rnd, used>>
Fill(p) == /\ pc[p] = "fill" /\ table' = 7 /\ pc' = [pc EXCEPT ![p] = "load"]
           /\ UNCHANGED <<in, res, n, scratch, ready, rnd, used>>
Load(p) == /\ pc[p] = "load" /\ scratch' = [scratch EXCEPT ![Cell(p)] = in[p]] /\ pc' = [pc EXCEPT ![p] = "work"]
           /\ UNCHANGED <<in, res, n, ready, table, rnd, used>>
\* the random source is shared and safe: every read gets new bytes
Work(p) == /\ pc[p] = "work" /\ res' = [res EXCEPT ![p] = F(scratch[Cell(p)], table)] /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ rnd' = rnd + 1 /\ used' = used \cup {rnd}
           /\ UNCHANGED <<in, n, scratch, ready, table>>
Return(p) == /\ pc[p] = "done" /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ UNCHANGED <<in, res, n, scratch, ready, table, rnd, used>>
Done == (\A p \in Procs : pc[p] = "idle" /\ n[p] = Calls) /\ UNCHANGED vars
Next == (\E p \in Procs : Invoke(p) \/ Table(p) \/ Fill(p) \/ Load(p) \/ Work(p) \/ Return(p)) \/ Done
Spec == Init /\ [][Next]_vars

Linear == \A p \in Procs : pc[p] = "done" => res[p] = F(in[p], 7)
Fresh == Cardinality(used) = rnd
===========================================================================
