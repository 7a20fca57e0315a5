--------------------------------- MODULE GenHeap --------------------------------
(* Histories on which an implementation without the copies of BuilderHeap would show    *)
(* another transaction's outputs or keys: random walks through that faulty model, up to  *)
(* the first step where a handle no longer holds what it must.                         *)
EXTENDS BuilderHeap, Rand, Json
VARIABLE hist
hv == <<vars, hist>>
HInit == Init /\ hist = <<>>
Log(op) == hist' = Append(hist, op)
HNext == /\ Agree
         /\ \/ NewBuilder /\ hist' = hist \o <<[op |-> "new", ids |-> <<1, 2>>, per |-> <<44>>, fix |-> <<2, 94, 245>>],
                                              [op |-> "in", h |-> Len(objs) + 1, ids |-> <<1>>]>>
            \/ \E i \in DOMAIN objs :
                 \/ Sign(i, Fresh) /\ Log([op |-> "sign", h |-> i, key |-> Fresh])
                 \/ AddOut(i, Fresh) /\ Log([op |-> "out", h |-> i, ids |-> <<Fresh - 2>>])
                 \/ MinFee(i) /\ Log([op |-> "minfee", h |-> i])
                 \/ Build(i) /\ Log([op |-> "build", h |-> i])
HSpec == HInit /\ [][HNext]_hv
Key(j) == LET x == RBytes(j, Ascii("key"), 64) IN [x EXCEPT ![1] = (@ \div 8) * 8, ![32] = (@ % 32) + 64] \o RBytes(j, Ascii("cc"), 32)
Cred(j) == <<0, RBytes(j, Ascii("cred"), 28)>>
Hex(b) == [i \in 1..64 |-> LET n == IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16 IN IF n < 10 THEN 48 + n ELSE 87 + n]
NH == Len(objs)
BIds == SelectSeq([j \in 1..NH |-> j], LAMBDA j : objs[j].kind = "b")
\* in the end everything is read; builders are built first
Reads == [j \in 1..Len(BIds) |-> [op |-> "build", h |-> BIds[j]]] \o [j \in 1..(NH + Len(BIds)) |-> [op |-> "bytes", h |-> j]]
\* the same history with the roles of inputs and outputs exchanged
Swap(o) == IF o.op = "out" THEN [o EXCEPT !.op = "in"] ELSE IF o.op = "in" THEN [o EXCEPT !.op = "out"] ELSE o
Swapped == [j \in 1..Len(hist) |-> Swap(hist[j])]
Scenario(h) ==
  [area |-> "tx", ops |-> h \o Reads, keys |-> [j \in 1..(MaxSteps + 3) |-> Key(j)],
   ins |-> [j \in 1..(MaxSteps + 3) |-> [h |-> Hex(RBytes(j, Ascii("id"), 32)), ix |-> BN(j), amt |-> <<9, 0, 0, j>>]],
   addrs |-> <<[kind |-> "ent", net |-> 1, pay |-> Cred(1), stake |-> <<>>, ptr |-> <<>>, root |-> <<>>, pl |-> <<>>, mg |-> <<>>]>>,
   outs |-> [j \in 1..(MaxSteps + 3) |-> [a |-> 1, amt |-> BN(1000000 + j)]], metas |-> <<>>]
Emit == Agree \/ (PrintT("SCEN " \o ToJson(Scenario(hist))) /\ PrintT("SCEN " \o ToJson(Scenario(Swapped))))
=================================================================================
