----------------------------------- MODULE MCTx ---------------------------------
(* Model checking of transaction assembly: every builder within the bounds below,     *)
(* with its inputs exceeding its outputs by every amount around the places where the   *)
(* outcome changes (nothing, the fee, the fee with a change output, and where a        *)
(* number's encoding grows), then change, Build, and modifications after Build.        *)
EXTENDS Builder, TLC, IOUtils
CONSTANTS NKeys, NIns, NOuts, Pars, Deltas, MdLens, Ttls, AddrLens
QPars == {[per |-> <<44>>, fix |-> <<2, 94, 245>>], [per |-> <<>>, fix |-> <<>>], [per |-> <<1>>, fix |-> <<>>]}
QTtls == {<<>>, <<1, 0>>}
VARIABLES h, b, pre, phase
vars == <<h, b, pre, phase>>
Id(j) == Pad(BN(j), 32)
\* an abstract signature: it names key and hash
Wit(key, x) == [k |-> Id(key), s |-> x \o Id(key)]
AddrB(n) == [i \in 1..n |-> 7]
Md(n) == CBytes(Zeros(n - 2))                               \* n bytes standing for metadata, 26 <= n < 258
In(j, amt) == [h |-> Id(100 + j), ix |-> BN(j * 20), amt |-> amt]
\* the builder before its last input is added
Base(keys, nin, nout, par, ttl, mdl, olen) ==
  LET h0 == [Handle("b", [j \in 1..keys |-> j], par) EXCEPT !.t.ttl = ttl, !.t.md = IF mdl = 0 THEN <<>> ELSE <<Md(mdl)>>]
      h1 == AddOuts(h0, [j \in 1..nout |-> [a |-> AddrB(olen), amt |-> BN(1000000 * j)]])
  IN AddIns(h1, [j \in 1..(nin - 1) |-> In(j, <<>>)])
\* amounts of interest for the last input
Targets(x, clen) ==
  LET y == AddIns(x, <<In(0, <<1>>)>>)
      o == TotalOut(x.t)
      f0 == LeastFee(y.t, SignersOf(y), MdLenOf(y.t), y.par)
      fc == ChangeFeeFrom(y.t, AddrB(clen), SignersOf(y), y.par, Big, <<>>)
      fs == ChangeFeeFrom(y.t, AddrB(clen), SignersOf(y), y.par, <<1>>, <<>>)
      at == {o, BAdd(o, f0), BAdd(o, fc), BAdd(o, fs)} \cup {BAdd(BAdd(o, fs), g) : g \in {<<23>>, <<255>>, <<255, 255>>, <<255, 255, 255, 255>>}}
            \cup {BAdd(BAdd(o, fc), g) : g \in {<<23>>, <<255>>, <<255, 255>>, <<255, 255, 255, 255>>}}
  IN {BAdd(v, BN(d)) : v \in at, d \in Deltas} \cup {BSub(v, BN(d)) : v \in {w \in at : BLt(<<16>>, w)}, d \in Deltas} \cup {<<>>}
Init == \E keys \in 0..NKeys, nin \in 1..NIns, nout \in 0..NOuts, par \in Pars, ttl \in Ttls, mdl \in MdLens, olen \in AddrLens, clen \in AddrLens :
          LET x == Base(keys, nin, nout, par, ttl, mdl, olen) IN
          \E amt \in Targets(x, clen) :
            /\ h = AddIns(x, <<In(0, amt)>>) /\ pre = [h |-> h, a |-> AddrB(clen)]
            /\ b = <<>> /\ phase = "assembled"
AddChange == phase = "assembled" /\ h' = Change(h, pre.a) /\ phase' = "changed" /\ UNCHANGED <<b, pre>>
DoBuild == phase \in {"changed", "rebuild"} /\ b' = Append(b, Built(h, Wit)) /\ phase' = (IF phase = "changed" THEN "built" ELSE "end") /\ UNCHANGED <<h, pre>>
Go == phase = "built" /\ phase' = "rebuild" /\ UNCHANGED <<b, pre>>
      /\ h' \in {AddIns(h, <<In(9, <<1>>)>>), SetTtl(h, <<9>>), SetFeeTo(h, <<>>), DelMeta(h), Register(h, NKeys + 1)}
Next == AddChange \/ DoBuild \/ Go
Spec == Init /\ [][Next]_vars
\* ---- invariants
P == pre.h
Mdl == MdLenOf(P.t)
Conserved == phase = "changed" => Conserves(P.t, h.t, pre.a, SignersOf(P), Mdl, P.par)
Covered == phase = "changed" => Covers(P.t, h.t, pre.a, SignersOf(P), Mdl, P.par)
MinFeeRight == phase \in {"assembled", "changed"} => MinFeeOk(h.t, SignersOf(h), Mdl, h.par, MinFee(h))
\* the fee covers the very bytes that are signed and sent
PaysForBytes == phase = "built" /\ Suffices(P.t, SignersOf(P), Mdl, P.par) /\ h.keys # <<>>
                  => BLe(Linear(h.par, Len(EncTx(b[1].t))), b[1].t.fee)
Signed == \A k \in 1..Len(b) : \A j \in 1..Len(b[k].keys) : b[k].t.wits[j] = Wit(b[k].keys[j], TxHash(b[k].t))
SizeRight == /\ SizeWith(h.t, Len(h.t.wits), MdLenOf(h.t)) = Len(EncTx(h.t))
             /\ \A k \in 1..Len(b) : SizeWith(b[k].t, Len(b[k].t.wits), MdLenOf(b[k].t)) = Len(EncTx(b[k].t))
\* bytes determine the transaction
SplitRight == \A k \in 1..Len(b) :
  LET t == b[k].t  sp == Split(EncTx(t))
      seq(e) == IF e = <<>> THEN <<>> ELSE e[1].a
  IN phase \in {"built", "end"} =>
     /\ sp.ok /\ sp.body = EncBody(t) /\ WitsOf(sp.witv) = t.wits /\ PlainWits(sp.witv)
     /\ sp.md = IF t.md = <<>> THEN CNull ELSE t.md[1]
     /\ (/\ [j \in 1..Len(t.ins) |-> [h |-> seq(Entry(sp.bodyv, 0))[j].a[1].b, ix |-> seq(Entry(sp.bodyv, 0))[j].a[2].n, amt |-> t.ins[j].amt]] = t.ins
                        /\ [j \in 1..Len(t.outs) |-> [a |-> seq(Entry(sp.bodyv, 1))[j].a[1].b, amt |-> seq(Entry(sp.bodyv, 1))[j].a[2].n]] = t.outs
                        /\ Entry(sp.bodyv, 2)[1].n = t.fee)
=================================================================================
