------------------------------- MODULE BuilderHeap ------------------------------
(* Why builders, transactions and callers do not interfere: Go slices made explicit.  *)
(* A slice is [arr, len]; an array has a capacity and cells; append writes in place    *)
(* when there is room and allocates otherwise. Every handle also has a shadow, the     *)
(* value it must hold (the value semantics of Builder.tla); the invariant says that     *)
(* what a handle's slices show is always its shadow.                                  *)
(*                                                                                 *)
(* CopyKeys and CopyBuild are the copies that make it hold (of the caller's keys, of    *)
(* the body in Build); without either of them it fails (MCHeapNoKeys, MCHeapNoBuild).    *)
(* CopyTemp, of the outputs when the minimum-fee query tries a change output, matters    *)
(* only where arrays are shared already. Histories that fail without the copies are the  *)
(* scenarios GenHeap has the implementation go through.                                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxArr, MaxSl, MaxSteps, Caller, CopyKeys, CopyBuild, CopyTemp
VARIABLES heap,      \* array id -> [cap, cells]
          mine,      \* the caller's own slices: key slice and list of outputs
          objs,      \* handles: [kind, keys, outs] slices
          shadow,    \* handles: [keys, outs] values
          steps
vars == <<heap, mine, objs, shadow, steps>>
Fresh == steps + 3                                        \* cells hold distinct numbers; 0: never written
Nil == [arr |-> 0, len |-> 0]
View(hp, s) == IF s.arr = 0 THEN <<>> ELSE SubSeq(hp[s.arr].cells, 1, s.len)
New(hp, vals, cap) == Append(hp, [cap |-> cap, cells |-> vals \o [i \in 1..(cap - Len(vals)) |-> 0]])
\* append(s, v): the new heap and slice
App(hp, s, v) ==
  IF s.arr # 0 /\ s.len < hp[s.arr].cap
  THEN [h |-> [hp EXCEPT ![s.arr].cells[s.len + 1] = v], s |-> [s EXCEPT !.len = @ + 1]]
  ELSE [h |-> New(hp, Append(View(hp, s), v), IF s.len = 0 THEN 1 ELSE 2 * s.len), s |-> [arr |-> Len(hp) + 1, len |-> s.len + 1]]
\* append([]T(nil), s...)
Copy(hp, s) == IF s.len = 0 THEN [h |-> hp, s |-> Nil] ELSE [h |-> New(hp, View(hp, s), s.len), s |-> [arr |-> Len(hp) + 1, len |-> s.len]]
Pass(hp, s, copy) == IF copy THEN Copy(hp, s) ELSE [h |-> hp, s |-> s]
Tick == steps < MaxSteps /\ Len(heap) <= MaxArr /\ steps' = steps + 1
\* the caller starts with a slice of keys that has room to spare
Init == /\ heap = <<[cap |-> 3, cells |-> <<1, 2, 0>>]>>
        /\ mine = [arr |-> 1, len |-> 2]
        /\ objs = <<>> /\ shadow = <<>> /\ steps = 0
NewBuilder == /\ Tick /\ Len(objs) < 3
              /\ LET p == Pass(heap, mine, CopyKeys) IN
                   /\ heap' = p.h /\ objs' = Append(objs, [kind |-> "b", keys |-> p.s, outs |-> Nil])
                   /\ shadow' = Append(shadow, [keys |-> View(heap, mine), outs |-> <<>>])
              /\ UNCHANGED mine
Sign(i, k) == /\ Tick /\ objs[i].kind = "b" /\ objs[i].keys.len < MaxSl
              /\ LET p == App(heap, objs[i].keys, k) IN heap' = p.h /\ objs' = [objs EXCEPT ![i].keys = p.s]
              /\ shadow' = [shadow EXCEPT ![i].keys = Append(@, k)] /\ UNCHANGED mine
AddOut(i, v) == /\ Tick /\ objs[i].outs.len < MaxSl
                /\ LET p == App(heap, objs[i].outs, v) IN heap' = p.h /\ objs' = [objs EXCEPT ![i].outs = p.s]
                /\ shadow' = [shadow EXCEPT ![i].outs = Append(@, v)] /\ UNCHANGED mine
\* the minimum-fee query: append a change output to the list, measure, forget it
MinFee(i) == /\ Tick /\ objs[i].kind = "b"
             /\ LET c == Pass(heap, objs[i].outs, CopyTemp) IN heap' = App(c.h, c.s, 99).h
             /\ UNCHANGED <<objs, shadow, mine>>
Build(i) == /\ Tick /\ objs[i].kind = "b" /\ Len(objs) < 4
            /\ LET p == Pass(heap, objs[i].outs, CopyBuild) IN
                 heap' = p.h /\ objs' = Append(objs, [kind |-> "t", keys |-> Nil, outs |-> p.s])
            /\ shadow' = Append(shadow, [keys |-> <<>>, outs |-> shadow[i].outs]) /\ UNCHANGED mine
\* the caller goes on using its key slice
Overwrite(j, k) == Tick /\ heap' = [heap EXCEPT ![mine.arr].cells[j] = k] /\ UNCHANGED <<mine, objs, shadow>>
Extend(k) == /\ Tick /\ mine.len < MaxSl /\ LET p == App(heap, mine, k) IN heap' = p.h /\ mine' = p.s
             /\ UNCHANGED <<objs, shadow>>
Next == \/ NewBuilder
        \/ \E i \in DOMAIN objs : Sign(i, Fresh) \/ AddOut(i, Fresh) \/ MinFee(i) \/ Build(i)
        \/ Caller /\ \E j \in 1..mine.len : Overwrite(j, Fresh)
        \/ Caller /\ Extend(Fresh)
Spec == Init /\ [][Next]_vars
Agree == \A i \in DOMAIN objs : View(heap, objs[i].keys) = shadow[i].keys /\ View(heap, objs[i].outs) = shadow[i].outs
=================================================================================
