----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of every trace specification.                               *)
(*                                                                         *)
(* The file named by the environment variable TRACE_FILE has one recorded  *)
(* trace per line: a JSON array of event records, each with a field `op`.  *)
(* There is one initial state per trace; a behaviour consumes its events   *)
(* one by one, each through an action of the specification.  A trace whose *)
(* next event no action explains has no successor, which TLC reports as a  *)
(* deadlock: the trace is rejected.  Fully consumed traces stutter.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

ReadFile(f) == ndJsonDeserialize(f)      \* gmo.TraceOverride remembers its value
LoadTraces == ReadFile(IOEnv.TRACE_FILE)
CONSTANT Traces     \* LoadTraces, in every configuration

VARIABLES tid,   \* which trace
          l      \* index of the next event to explain

Trace == Traces[tid]
Ev == Trace[l]

TraceInit == tid \in 1..Len(Traces) /\ l = 1

IsEvent(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1 /\ tid' = tid

\* used with deliberately corrupted traces only: none may be accepted
NotAccepted == l <= Len(Trace)

Finished == l > Len(Trace) /\ UNCHANGED <<tid, l>>
===========================================================================
