----------------------------- MODULE MC_Memory -----------------------------
(***************************************************************************)
(* What a library may do with memory that belongs to others.  Memory is a  *)
(* set of addresses.  A call of the function f gets the address of an      *)
(* argument and returns the address of a result whose content is           *)
(* f(argument).  A library                                                 *)
(*   "fresh"    puts the result into newly allocated memory;               *)
(*   "alias"    returns the argument itself where that has the right       *)
(*              content already;                                           *)
(*   "inplace"  computes in the argument's memory and restores it, except  *)
(*              when the call fails half-way;                              *)
(*   "cache"    keeps results and returns the kept ones again;             *)
(*   "pool"     computes the next result in the memory of an earlier one.  *)
(* The caller overwrites results at will, but never its arguments.         *)
(*                                                                         *)
(* Untouched, Repeatable and Held are what TracePure demands of the        *)
(* recorded calls; they hold for "fresh" alone, so each of the other       *)
(* libraries shows up in some history (configurations MC_MemoryAlias, ...) *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Library, MaxCalls
Values == 0..3
F(v) == IF v = 2 THEN 2 ELSE (v + 1) % 4      \* 2 is a fixed point
Fails(v) == v = 3

VARIABLES mem,      \* contents, by address
          args,     \* addresses of the caller's arguments
          orig,     \* what the caller put there
          results,  \* results that the caller holds: address -> what is there as far as the caller knows
          cache,    \* [argument value -> address, or 0]
          hist,     \* pairs <<argument value, result value>> as the caller saw them at return
          n
vars == <<mem, args, orig, results, cache, hist, n>>

Init == /\ orig \in [1..2 -> Values] /\ mem = <<orig[1], orig[2]>> /\ args = {1, 2}
        /\ results = <<>> /\ cache = [v \in Values |-> 0] /\ hist = {} /\ n = 0

Return(a, r) == /\ results' = Append(results, [at |-> r, v |-> mem'[r]]) /\ hist' = hist \cup {<<mem[a], mem'[r]>>} /\ n' = n + 1
Fresh(a) == /\ mem' = Append(mem, F(mem[a])) /\ Return(a, Len(mem) + 1) /\ UNCHANGED <<args, orig, cache>>
Call(a) ==
    /\ n < MaxCalls
    /\ LET v == mem[a]
       IN  IF Fails(v)
           THEN /\ mem' = IF Library = "inplace" THEN [mem EXCEPT ![a] = F(v)] ELSE mem
                /\ hist' = hist \cup {<<v, 9>>} /\ n' = n + 1 /\ UNCHANGED <<args, orig, results, cache>>
           ELSE IF Library = "alias" /\ F(v) = v
           THEN UNCHANGED <<mem, args, orig, cache>> /\ Return(a, a)
           ELSE IF Library = "cache" /\ cache[v] # 0
           THEN UNCHANGED <<mem, args, orig, cache>> /\ Return(a, cache[v])
           ELSE IF Library = "cache"
           THEN /\ mem' = Append(mem, F(v)) /\ cache' = [cache EXCEPT ![v] = Len(mem) + 1]
                /\ Return(a, Len(mem) + 1) /\ UNCHANGED <<args, orig>>
           ELSE IF Library = "pool" /\ cache[0] # 0
           THEN /\ mem' = [mem EXCEPT ![cache[0]] = F(v)] /\ Return(a, cache[0]) /\ UNCHANGED <<args, orig, cache>>
           ELSE IF Library = "pool"
           THEN /\ mem' = Append(mem, F(v)) /\ cache' = [cache EXCEPT ![0] = Len(mem) + 1]
                /\ Return(a, Len(mem) + 1) /\ UNCHANGED <<args, orig>>
           ELSE Fresh(a)
Scribble(i) == LET r == results[i].at
               IN  /\ mem' = [mem EXCEPT ![r] = 0] /\ results' = [results EXCEPT ![i].v = 0]
                   /\ UNCHANGED <<args, orig, cache, hist, n>>
Next == (\E a \in args : Call(a)) \/ (\E i \in 1..Len(results) : Scribble(i))
Spec == Init /\ [][Next]_vars

Untouched == \A a \in args : mem[a] = orig[a]
Repeatable == \A h, k \in hist : h[1] = k[1] => h[2] = k[2]
\* no result changes unless the caller changes it, through that very result
Held == \A i \in 1..Len(results) : mem[results[i].at] = results[i].v
===========================================================================
