---------------------------------- MODULE Ledger --------------------------------
(* The ledger as far as payments go: the unspent outputs, in the order they came to be, *)
(* which transactions it accepts, and what they do to it.                              *)
(*   a ledger is a sequence of [h, ix, amt, a]: id of the transaction that made it,     *)
(*   its index there, its amount, the bytes of its address                            *)
EXTENDS Tx
NoParts == [ok |-> FALSE, ins |-> <<>>, outs |-> <<>>, fee |-> <<>>, ttl |-> <<>>, wits |-> <<>>, hash |-> <<>>, size |-> 0, auxok |-> FALSE, keys |-> {}]
IsPair(v, t1, t2) == IF v.t # "a" THEN FALSE ELSE IF Len(v.a) # 2 THEN FALSE ELSE v.a[1].t = t1 /\ v.a[2].t = t2
\* the parts of the transaction with bytes d
Parts(d) ==
  LET sp == Split(d)
      b == sp.bodyv
      ins == Entry(b, 0)  outs == Entry(b, 1)  fee == Entry(b, 2)  ttl == Entry(b, 3)  aux == Entry(b, 7)
      shape == IF ~sp.ok THEN FALSE
               ELSE IF ins = <<>> \/ outs = <<>> \/ fee = <<>> THEN FALSE
               ELSE IF ins[1].t # "a" \/ outs[1].t # "a" \/ fee[1].t # "u" THEN FALSE
               ELSE /\ \A j \in 1..Len(ins[1].a) : IsPair(ins[1].a[j], "b", "u")
                    /\ \A j \in 1..Len(outs[1].a) : IsPair(outs[1].a[j], "b", "u")
                    /\ IF ttl = <<>> THEN TRUE ELSE ttl[1].t = "u"
                    /\ PlainWits(sp.witv)
  IN IF ~shape THEN NoParts
     ELSE [ok |-> TRUE, hash |-> Blake2b(32, sp.body), size |-> Len(d), fee |-> fee[1].n, ttl |-> IF ttl = <<>> THEN <<>> ELSE <<ttl[1].n>>,
           ins |-> [j \in 1..Len(ins[1].a) |-> [h |-> ins[1].a[j].a[1].b, ix |-> ins[1].a[j].a[2].n]],
           outs |-> [j \in 1..Len(outs[1].a) |-> [a |-> outs[1].a[j].a[1].b, amt |-> outs[1].a[j].a[2].n]],
           wits |-> WitsOf(sp.witv), keys |-> {b.kv[j].k : j \in 1..Len(b.kv)},
           auxok |-> IF aux = <<>> THEN sp.md = CNull ELSE aux[1].t = "b" /\ aux[1].b = Blake2b(32, sp.md)]
Spends(u, x) == u.h = x.h /\ u.ix = x.ix
At(L, x) == {j \in 1..Len(L) : Spends(L[j], x)}
AmtAt(L, x) == IF At(L, x) = {} THEN <<>> ELSE L[CHOOSE j \in At(L, x) : TRUE].amt
\* the rules
Unspent(L, p) == p.ins # <<>> /\ (\A j \in 1..Len(p.ins) : At(L, p.ins[j]) # {}) /\ (\A j, k \in 1..Len(p.ins) : j # k => p.ins[j] # p.ins[k])
Balanced(L, p) == BSum([j \in 1..Len(p.ins) |-> AmtAt(L, p.ins[j])]) = BAdd(p.fee, BSum([j \in 1..Len(p.outs) |-> p.outs[j].amt]))
FeeEnough(par, p) == BLe(Linear(par, p.size), p.fee)
InTime(slot, p) == p.ttl = <<>> \/ BLe(slot, p.ttl[1])
\* the key hash in an address that a key locks: of base, pointer and enterprise addresses
LockedBy(a) == SubSeq(a, 2, 29)
Witnessed(L, p, Good(_, _, _)) ==
  /\ \A j \in 1..Len(p.wits) : Good(p.wits[j].k, p.hash, p.wits[j].s)
  /\ \A j \in 1..Len(p.ins) : \A k \in At(L, p.ins[j]) : \E w \in 1..Len(p.wits) : Blake2b(28, p.wits[w].k) = LockedBy(L[k].a)
Accepts(L, par, slot, p, Good(_, _, _)) ==
  p.ok /\ p.auxok /\ Unspent(L, p) /\ Balanced(L, p) /\ FeeEnough(par, p) /\ InTime(slot, p) /\ Witnessed(L, p, Good)
\* what an accepted transaction does
Applied(L, p) ==
  SelectSeq(L, LAMBDA u : \A j \in 1..Len(p.ins) : ~Spends(u, p.ins[j]))
  \o [j \in 1..Len(p.outs) |-> [h |-> p.hash, ix |-> BN(j - 1), amt |-> p.outs[j].amt, a |-> p.outs[j].a]]
Worth(L) == BSum([j \in 1..Len(L) |-> L[j].amt])
Held(L, a) == SelectSeq(L, LAMBDA u : u.a = a)
=================================================================================
