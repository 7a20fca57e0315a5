---------------------------------- MODULE GenTx ---------------------------------
(* Scenarios for fees and change: the specification computes, for a pseudo-random     *)
(* builder, the amounts at which the outcome of adding change turns (nothing left,     *)
(* the fee, the fee of a transaction with a change output, the places where the         *)
(* change amount or the fee takes another byte), and the scenario's inputs hit those    *)
(* amounts exactly or miss them by a little.                                         *)
EXTENDS Builder, Keys, Rand, Json
VARIABLES k, done
N == 400 * atoi(IOEnv.SCALE)
R(tag, n) == RInt(k, Ascii(tag), n)
RT(tag, j, n) == RInt(k, Tag(tag, j), n)
Cred(j, t) == <<RT(t, j, 2), RBytes(k, Tag(t \o "c", j), 28)>>
Addr(j) ==
  LET kind == RT("kind", j, 6)  net == RT("net", j, 2)
  IN CASE kind \in {0, 1} -> BaseA(net, Cred(j, "p"), Cred(j, "s"))
       [] kind = 2 -> EntA(net, Cred(j, "p"))
       [] kind = 3 -> RewA(net, Cred(j, "s"))
       [] kind = 4 -> PtrA(net, Cred(j, "p"), <<RBig(k, Tag("p1", j)), RBig(k, Tag("p2", j)), RBig(k, Tag("p3", j))>>)
       [] kind = 5 -> ByronA(RBytes(k, Tag("root", j), 28), IF RT("pl", j, 2) = 0 THEN <<>> ELSE RBytes(k, Tag("plb", j), 30),
                             IF RT("mg", j, 2) = 0 THEN <<>> ELSE <<Norm(RBytes(k, Tag("mgb", j), 4))>>)
Key(j) == Force3rd(RBytes(k, Tag("key", j), 64) \o RBytes(k, Tag("cc", j), 32))
Meta == LET n == R("mdn", 90) IN
        [t |-> "m", g |-> "uint", kv |-> <<[k |-> [t |-> "u", n |-> RBig(k, Ascii("mdk")), g |-> "u64"],
                                           v |-> [t |-> "s", b |-> [i \in 1..n |-> 97 + (i % 26)]]]>>]
Edges == <<<<24>>, <<1, 0>>, <<1, 0, 0>>, <<1, 0, 0, 0, 0>>>>
\* the parameters; every third time the fixed part is such that the fee lands where its encoding grows
Par(t, w, mdl) ==
  LET per == RPick(k, Ascii("per"), <<<<44>>, <<44>>, <<1>>, <<>>, <<2>>, <<43>>, <<4, 0>>>>)
      land == LET f == RPick(k, Ascii("edge"), Edges)
                  aim == BSub(BAdd(f, BN(R("aim", 200))), BN(IF Len(f) = 1 THEN R("aim2", 20) ELSE R("aim2", 200)))
                  base == BMulI(per, SizeWith([t EXCEPT !.fee = aim], w, mdl))
              IN IF BLe(base, aim) THEN BSub(aim, base) ELSE <<>>
  IN [per |-> per, fix |-> IF R("land", 3) = 0 THEN land ELSE RPick(k, Ascii("fix"), <<<<2, 94, 245>>, <<2, 94, 245>>, <<>>, <<1>>, <<1, 0, 0, 0, 0>>>>)]
Delta(v) == LET d == BN(RPick(k, Ascii("d"), <<0, 0, 0, 1, 1, 2, 3, 44, 45, 88, 132, 300>>))
            IN IF R("sg", 2) = 0 THEN BAdd(v, d) ELSE IF BLe(d, v) THEN BSub(v, d) ELSE v
Scenario ==
  LET nk == IF R("many", 12) = 0 THEN 22 + R("nk", 4) ELSE R("nk", 4)
      n0 == R("n0", nk + 1)                               \* keys given at creation
      nout == IF R("manyo", 12) = 0 THEN 22 + R("no", 4) ELSE R("no", 4)
      nin == 1 + R("ni", 3)
      addrs == [j \in 1..(nout + 2) |-> Addr(j)]
      outs == [j \in 1..nout |-> [a |-> j, amt |-> IF R("oz", 4) = 0 THEN RBig(k, Tag("oa", j)) ELSE BN(RT("oa", j, 5000000))]]
      ttl == RPick(k, Ascii("ttl"), <<<<>>, <<1>>, <<24>>, <<1, 0>>, <<1, 0, 0>>, <<255, 255, 255, 255>>>>)
      hasmd == R("md", 3) = 0
      mdl == IF hasmd THEN Len(EncodeVal(Meta)) ELSE 0
      w == IF nk = 0 THEN 1 ELSE nk
      ins0 == [j \in 1..nin |-> [h |-> HexEncode(RBytes(k, Tag("id", j), 32)), ix |-> Norm(RBytes(k, Tag("ix", j), 1 + RT("ixl", j, 2))), amt |-> <<>>]]
      t == [NoTx EXCEPT !.ins = ins0, !.outs = [j \in 1..nout |-> [a |-> Encode(addrs[j]), amt |-> outs[j].amt]], !.ttl = ttl,
                        !.md = IF hasmd THEN <<EncodeVal(Meta)>> ELSE <<>>]
      par == Par(t, w, mdl)
      ca == Encode(addrs[nout + 1])
      o == TotalOut(t)
      f0 == LeastFee(t, w, mdl, par)
      f1 == ChangeFeeFrom(t, ca, w, par, <<1>>, <<>>)
      rest == RPick(k, Ascii("rest"), <<<<>>, <<1>>, <<23>>, <<24>>, <<255>>, <<1, 0>>, <<255, 255>>, <<1, 0, 0>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>>>)
      fr == FeeFrom(WithOut(t, ca, rest), w, mdl, par, <<>>)
      total == CASE R("where", 8) = 0 -> Delta(o)
                 [] R("where", 8) = 1 -> Delta(BAdd(o, f0))
                 [] R("where", 8) = 2 -> Delta(BAdd(o, f1))
                 [] R("where", 8) = 3 -> BAdd(BAdd(o, fr), rest)
                 [] R("where", 8) = 7 -> BAdd(o, RBig(k, Ascii("x")))
                 [] OTHER -> Delta(BAdd(BAdd(o, fr), rest))
      \* the total is split over the inputs
      part == DivI(total, nin)[1]
      amts == [j \in 1..nin |-> IF j < nin THEN part ELSE BSub(total, BMulI(part, nin - 1))]
      ids(n) == [j \in 1..n |-> j]
      opt(c, x) == IF c THEN <<x>> ELSE <<>>
      ops == <<[op |-> "new", ids |-> ids(n0), per |-> par.per, fix |-> par.fix]>>
             \o opt(nout > 0, [op |-> "out", h |-> 1, ids |-> ids(nout)])
             \o opt(ttl # <<>>, [op |-> "ttl", h |-> 1, n |-> ttl])
             \o opt(hasmd, [op |-> "meta", h |-> 1, m |-> 1])
             \o <<[op |-> "in", h |-> 1, ids |-> ids(nin)]>>
             \o [j \in 1..(nk - n0) |-> [op |-> "sign", h |-> 1, key |-> n0 + j]]
             \o opt(R("f", 4) = 0, [op |-> "fee", h |-> 1, n |-> RPick(k, Ascii("fv"), <<f0, f1, <<>>, Big>>)])
             \o <<[op |-> "minfee", h |-> 1], [op |-> "change", h |-> 1, a |-> nout + 1], [op |-> "minfee", h |-> 1]>>
             \o opt(R("again", 4) = 0, [op |-> "change", h |-> 1, a |-> nout + 2])
             \o <<[op |-> "build", h |-> 1], [op |-> "bytes", h |-> 2]>>
  IN [area |-> "tx", ops |-> ops, keys |-> [j \in 1..nk |-> Key(j)], addrs |-> addrs, outs |-> outs,
      ins |-> [j \in 1..nin |-> [ins0[j] EXCEPT !.amt = amts[j]]], metas |-> IF hasmd THEN <<Meta>> ELSE <<>>, ok |-> Len(total) <= 8 /\ Len(o) <= 8]
Init == k \in 1..N /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET sc == Scenario IN IF sc.ok THEN PrintT("SCEN " \o ToJson(sc)) ELSE TRUE
=================================================================================
