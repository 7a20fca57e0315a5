---------------------------------- MODULE Conc ----------------------------------
(* Goroutines at work together. Each runs calls on its own values; a call computes F of     *)
(* its own argument and of shared values nobody writes, in several memory steps: it fills    *)
(* a piece of working memory, reads it back, and returns. Working memory is private to the    *)
(* call, or, in the faulty variants, shared:                                             *)
(*   scratch   one buffer for all calls                                                  *)
(*   cache     a table of earlier results, its entry set in two steps (key, then value)      *)
(*   once      a shared value set up on first use, visible before it is complete            *)
(* Alone: every goroutine gets what it would get if it ran alone. RaceFree: no two              *)
(* goroutines are at accesses to the same cell of which one is a write (all runs start       *)
(* together and never synchronise, so such accesses are not ordered).                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS Procs, Args, Calls
Variant == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "right"
VARIABLES pc,      \* "idle", "fill", "read", "done" of every goroutine
          arg,     \* the argument of its call
          got,     \* results, oldest first: pairs of argument and result
          mem,     \* working memory: a cell per goroutine and the shared cell 0
          seen     \* accesses by goroutine: [p -> set of <<cell, kind>>]
vars == <<pc, arg, got, mem, seen>>
F(a) == a * 7 + 3
Cell(p) == CASE Variant = "right" -> p [] OTHER -> 0
None == [k |-> 0, v |-> 0]
Init == /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> 0] /\ got = [p \in Procs |-> <<>>]
        /\ mem = [c \in {0} \cup Procs |-> None] /\ seen = [p \in Procs |-> {}]
Acc(p, kind) == seen' = [seen EXCEPT ![p] = @ \cup {<<Cell(p), kind>>}]
Call(p) == /\ pc[p] = "idle" /\ Len(got[p]) < Calls
           /\ \E a \in Args :
                /\ arg' = [arg EXCEPT ![p] = a]
                /\ pc' = [pc EXCEPT ![p] = CASE Variant = "cache" /\ mem[0].k = a -> "read"     \* a hit
                                             [] Variant = "once" /\ mem[0].k # 0 -> "read"       \* set up already
                                             [] OTHER -> "fill"]
           /\ (IF Variant \in {"cache", "once"} THEN Acc(p, "r") ELSE UNCHANGED seen)
           /\ UNCHANGED <<got, mem>>
Fill(p) == /\ pc[p] = "fill" /\ Acc(p, "w") /\ UNCHANGED <<arg, got>>
           /\ CASE Variant = "right" \/ Variant = "scratch" -> mem' = [mem EXCEPT ![Cell(p)] = [k |-> arg[p], v |-> F(arg[p])]] /\ pc' = [pc EXCEPT ![p] = "read"]
                [] OTHER -> mem' = [mem EXCEPT ![0].k = IF Variant = "once" THEN 1 ELSE arg[p]] /\ pc' = [pc EXCEPT ![p] = "fill2"]
Fill2(p) == /\ pc[p] = "fill2" /\ Acc(p, "w") /\ UNCHANGED <<arg, got>>
            /\ mem' = [mem EXCEPT ![0].v = IF Variant = "once" THEN 7 ELSE F(arg[p])] /\ pc' = [pc EXCEPT ![p] = "read"]
Result(p) == CASE Variant = "once" -> arg[p] * mem[0].v + 3 [] OTHER -> mem[Cell(p)].v
Read(p) == /\ pc[p] = "read" /\ Acc(p, "r")
           /\ got' = [got EXCEPT ![p] = Append(@, <<arg[p], Result(p)>>)]
           /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<arg, mem>>
Next == \E p \in Procs : Call(p) \/ Fill(p) \/ Fill2(p) \/ Read(p)
Spec == Init /\ [][Next]_vars
Alone == \A p \in Procs : \A k \in 1..Len(got[p]) : got[p][k][2] = F(got[p][k][1])
RaceFree == \A p, q \in Procs : p # q => \A x \in seen[p], y \in seen[q] : x[1] = y[1] => x[2] = "r" /\ y[2] = "r"
=================================================================================
