----------------------------------- MODULE Tx -----------------------------------
(* Transactions: their bytes, their size once signed, the fee they need, and what   *)
(* adding change has to do.                                                        *)
(*                                                                                *)
(* A transaction is a record  [ins, outs, fee, ttl, wits, md]                       *)
(*   ins   sequence of [h, ix, amt]: 32-byte id, index, amount (BigNats)            *)
(*   outs  sequence of [a, amt]: address bytes, amount                             *)
(*   fee, ttl  BigNats           wits  sequence of [k, s]: public key, signature    *)
(*   md    <<>>, or <<bytes>>: the encoded metadata                                *)
EXTENDS Address
NoTx == [ins |-> <<>>, outs |-> <<>>, fee |-> <<>>, ttl |-> <<>>, wits |-> <<>>, md |-> <<>>]
\* ---- bytes
EncIn(x) == CArr(<<CBytes(x.h), CUint(x.ix)>>)
EncOut(o) == CArr(<<CBytes(o.a), CUint(o.amt)>>)
EncIns(t) == LET e == [i \in 1..Len(t.ins) |-> EncIn(t.ins[i])] IN CArr(e)
EncOuts(t) == LET e == [i \in 1..Len(t.outs) |-> EncOut(t.outs[i])] IN CArr(e)
EncBody(t) ==
  LET n == 3 + (IF t.ttl = <<>> THEN 0 ELSE 1) + (IF t.md = <<>> THEN 0 ELSE 1)
  IN CHeadI(5, n) \o <<0>> \o EncIns(t) \o <<1>> \o EncOuts(t) \o <<2>> \o CUint(t.fee)
     \o (IF t.ttl = <<>> THEN <<>> ELSE <<3>> \o CUint(t.ttl))
     \o (IF t.md = <<>> THEN <<>> ELSE <<7>> \o CBytes(Blake2b(32, t.md[1])))
EncWits(t) ==
  IF t.wits = <<>> THEN <<160>>
  ELSE LET e == [i \in 1..Len(t.wits) |-> CArr(<<CBytes(t.wits[i].k), CBytes(t.wits[i].s)>>)] IN <<161, 0>> \o CArr(e)
EncTx(t) == <<132>> \o EncBody(t) \o EncWits(t) \o CTrue \o (IF t.md = <<>> THEN CNull ELSE t.md[1])
TxHash(t) == Blake2b(32, EncBody(t))
\* ---- taking bytes apart: [ok, body (bytes), bodyv, wits, witsv, valid, md]
Split(d) ==
  LET bad == [ok |-> FALSE, body |-> <<>>, bodyv |-> [t |-> "bad"], witv |-> [t |-> "bad"], md |-> <<>>]
      b == ReadItem(d, 2, 64)
      w == ReadItem(d, b.next, 64)
      m == ReadItem(d, w.next + 1, 64)
  IN IF d = <<>> THEN bad ELSE IF d[1] # 132 \/ ~b.ok THEN bad ELSE IF ~w.ok \/ w.next >= Len(d) THEN bad
     ELSE IF d[w.next] # 245 \/ ~m.ok \/ m.next # Len(d) + 1 THEN bad
     ELSE [ok |-> TRUE, body |-> SubSeq(d, 2, b.next - 1), bodyv |-> b.v, witv |-> w.v, md |-> SubSeq(d, w.next + 1, Len(d))]
\* the entry of a decoded map under integer key k: <<value>> or <<>>
Entry(v, k) == IF v.t # "m" THEN <<>>
               ELSE LET js == {j \in 1..Len(v.kv) : v.kv[j].k.t = "u" /\ v.kv[j].k.n = BN(k)}
                    IN IF js = {} THEN <<>> ELSE <<v.kv[CHOOSE j \in js : TRUE].v>>
\* the witnesses of a decoded witness set, <<>> also when it has another shape
WitsOf(v) ==
  LET e == Entry(v, 0)
  IN IF e = <<>> THEN <<>> ELSE IF e[1].t # "a" THEN <<>>
     ELSE [i \in 1..Len(e[1].a) |->
             LET x == e[1].a[i]
             IN IF x.t # "a" THEN [k |-> <<>>, s |-> <<>>]
                ELSE IF Len(x.a) # 2 THEN [k |-> <<>>, s |-> <<>>]
                ELSE IF x.a[1].t # "b" \/ x.a[2].t # "b" THEN [k |-> <<>>, s |-> <<>>]
                ELSE [k |-> x.a[1].b, s |-> x.a[2].b]]
PlainWits(v) == v.t = "m" /\ (v.kv = <<>> \/ (Len(v.kv) = 1 /\ Entry(v, 0) # <<>>))
\* ---- size and fee
HLen(n) == Len(CHead(0, n))
HLenI(i) == HLen(BN(i))
ISum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
InLen(x) == 35 + HLen(x.ix)
OutLen(o) == 1 + HLenI(Len(o.a)) + Len(o.a) + HLen(o.amt)
\* length of the transaction with w witnesses (whatever it carries now) and mdlen bytes of metadata (0: none)
SizeWith(t, w, mdlen) ==
  LET ins == [i \in 1..Len(t.ins) |-> InLen(t.ins[i])]
      outs == [i \in 1..Len(t.outs) |-> OutLen(t.outs[i])]
  IN 1 + 1 + 1 + HLenI(Len(ins)) + ISum(ins) + 1 + HLenI(Len(outs)) + ISum(outs) + 1 + HLen(t.fee)
     + (IF t.ttl = <<>> THEN 0 ELSE 1 + HLen(t.ttl)) + (IF mdlen = 0 THEN 0 ELSE 35)
     + (IF w = 0 THEN 1 ELSE 2 + HLenI(w) + 101 * w) + 1 + (IF mdlen = 0 THEN 1 ELSE mdlen)
Linear(par, len) == BAdd(par.fix, BMulI(par.per, len))
\* the fee t needs with w witnesses when it carries fee f
Need(t, w, mdlen, par, f) == Linear(par, SizeWith([t EXCEPT !.fee = f], w, mdlen))
\* the least fee that suffices
RECURSIVE FeeFrom(_, _, _, _, _)
FeeFrom(t, w, mdlen, par, f) == LET n == Need(t, w, mdlen, par, f) IN IF BLe(n, f) THEN f ELSE FeeFrom(t, w, mdlen, par, n)
LeastFee(t, w, mdlen, par) == FeeFrom(t, w, mdlen, par, <<>>)
TotalIn(t) == BSum([i \in 1..Len(t.ins) |-> t.ins[i].amt])
TotalOut(t) == BSum([i \in 1..Len(t.outs) |-> t.outs[i].amt])
WithOut(t, a, amt) == [t EXCEPT !.outs = Append(@, [a |-> a, amt |-> amt])]
Big == [i \in 1..8 |-> 255]
\* what a transaction with a change output at a can need at most
ChangeFee(t, a, w, mdlen, par) == Need(WithOut(t, a, Big), w, mdlen, par, Big)
Suffices(t, w, mdlen, par) == BLe(BAdd(TotalOut(t), LeastFee(t, w, mdlen, par)), TotalIn(t))
\* t2 is a permitted result of adding change at address bytes a to t: conservation of value
Conserves(t, t2, a, w, mdlen, par) ==
  LET excess == BSub(TotalIn(t), TotalOut(t))
      last == t2.outs[Len(t2.outs)]
  IN IF Suffices(t, w, mdlen, par)
     THEN IF t2.outs = t.outs
          THEN t2.fee = excess /\ BLe(excess, ChangeFee(t, a, w, mdlen, par))     \* it cannot pay for an output
          ELSE /\ Len(t2.outs) = Len(t.outs) + 1 /\ SubSeq(t2.outs, 1, Len(t.outs)) = t.outs
               /\ last.a = a /\ last.amt # <<>> /\ BAdd(last.amt, t2.fee) = excess
     ELSE t2.outs = t.outs /\ BLe(t2.fee, ChangeFee(t, a, w, mdlen, par))
\* and the fee it sets covers the signed transaction without waste
FewBytes == 16
Covers(t, t2, a, w, mdlen, par) ==
  ~Suffices(t, w, mdlen, par)
  \/ LET need == Need(t2, w, mdlen, par, t2.fee)
     IN /\ BLe(need, t2.fee)
        /\ IF t2.outs = t.outs THEN BLe(t2.fee, ChangeFee(t, a, w, mdlen, par))
           ELSE BLe(t2.fee, BAdd(need, BMulI(par.per, FewBytes)))
\* f is a permitted answer to the minimum-fee query: enough for the transaction as it is, and at most a change output more
ChangeOutBytes == 72                                      \* a base address output with the largest amount, and its place in the list
MinFeeOk(t, w, mdlen, par, f) ==
  LET need == Need(t, w, mdlen, par, f)
  IN BLe(need, f) /\ BLe(f, BAdd(need, BMulI(par.per, ChangeOutBytes + FewBytes)))
=================================================================================
