--------------------------------- MODULE MCWallet --------------------------------
(* Payments one after the other: a wallet of two addresses pays from what the ledger     *)
(* holds for it, with transactions as Builder.tla assembles them; amounts lie around the  *)
(* places where the outcome changes. Every payment its inputs can pay for has to be        *)
(* accepted, any other refused, and nothing is lost but fees. With EMIT set every          *)
(* history is a scenario.                                                               *)
EXTENDS Builder, Ledger, Rand, Json, FiniteSets
CONSTANTS Skew, NRecv, Late, NPay, NCoins, MaxSel, Kinds, Deltas, PerFix, WithMeta, To, Chg
Emitting == "EMIT" \in DOMAIN IOEnv
VARIABLES L, paid, last, hist, frame, got
vars == <<L, paid, last, hist, frame, got>>
\* abstract keys and signatures: a key is a number, a signature names hash and key
Pk(j) == Pad(BN(j), 32)
Wit(k, x) == [k |-> Pk(k), s |-> x \o Pk(k)]
Good(k, x, s) == s = x \o k
Cred(j) == <<0, Blake2b(28, Pk(j))>>
Own(kinds) == [j \in 1..2 |-> IF kinds[j] = "ent" THEN EntA(0, Cred(j)) ELSE BaseA(0, Cred(j), Cred(9))]
Other == EntA(1, <<1, [k \in 1..28 |-> 5]>>)
Addrs(f) == [j \in 1..3 |-> IF j < 3 THEN Encode(Own(f.kinds)[j]) ELSE Encode(Other)]
Slot == BN(70000)
Ttl == BN(3600)
Meta == [t |-> "m", g |-> "uint", kv |-> <<[k |-> [t |-> "u", n |-> BN(674), g |-> "u64"], v |-> [t |-> "s", b |-> Ascii("for coffee")]]>>]
Md(w) == IF w THEN <<EncodeVal(Meta)>> ELSE <<>>
Coin(j) == [h |-> RBytes(j, Ascii("coin"), 32), ix |-> BN((j - 1) * 23), amt |-> BN(2000000 + j), w |-> 1 + (j % 2)]
Begin(f) == [j \in 1..NCoins |-> [h |-> Coin(j).h, ix |-> Coin(j).ix, amt |-> Coin(j).amt, a |-> Addrs(f)[Coin(j).w]]]
None_ == [enough |-> TRUE, late |-> FALSE, accepted |-> TRUE]
QPerFix == {<<44, 155381>>, <<0, 0>>}
OnePerFix == {<<44, 155381>>}
TPerFix == {<<44, 155381>>, <<0, 0>>, <<1, 0>>, <<1000, 5>>}
TKinds == {<<"ent", "base">>, <<"base", "base">>, <<"ent", "ent">>}
QKinds == {<<"ent", "base">>}
Init == \E k \in Kinds, pf \in PerFix :
          /\ frame = [kinds |-> k, par |-> [per |-> BN(pf[1]), fix |-> BN(pf[2])]]
          /\ L = Begin(frame) /\ paid = <<>> /\ last = None_ /\ hist = <<>> /\ got = 0
All == Held(L, Addrs(frame)[1]) \o Held(L, Addrs(frame)[2])
KeyAt(p) == IF p <= Len(Held(L, Addrs(frame)[1])) THEN 1 ELSE 2
Ascending(S) == SetToSortSeq(S, <)
KeysFor(sel) == LET ks == {KeyAt(p) : p \in sel} IN IF KeyAt(Ascending(sel)[1]) = 1 /\ 2 \in ks THEN <<1, 2>> ELSE <<KeyAt(Ascending(sel)[1])>>
Draft(sel, to, amt, md) ==
  LET h0 == Handle("b", KeysFor(sel), [frame.par EXCEPT !.per = IF BLe(BN(Skew), @) THEN BSub(@, BN(Skew)) ELSE @])  \* Skew: parameters of another time
      ps == Ascending(sel)
      h1 == AddIns(h0, [k \in 1..Len(ps) |-> [h |-> All[ps[k]].h, ix |-> All[ps[k]].ix, amt |-> All[ps[k]].amt]])
      h2 == SetTtl(AddOuts(h1, <<[a |-> Addrs(frame)[to], amt |-> amt]>>), BAdd(Slot, Ttl))
  IN [h2 EXCEPT !.t.md = Md(md)]
\* amounts of interest: a million, and what leaves about nothing, the fee, or the fee with change
Amounts(sel, to, md, chg) ==
  LET total == BSum([k \in 1..Cardinality(sel) |-> All[Ascending(sel)[k]].amt])
      x == Draft(sel, to, BN(1000000), md)
      f0 == LeastFee(x.t, SignersOf(x), MdLenOf(x.t), x.par)
      fc == ChangeFeeFrom(x.t, Addrs(frame)[chg], SignersOf(x), x.par, <<1>>, <<>>)
  IN {BN(1000000)} \cup {BSub(total, BAdd(f, BN(d))) : f \in {g \in {<<>>, f0, fc} : BLt(BAdd(g, BN(10)), total)}, d \in Deltas}
     \cup {BSub(total, BSub(f, BN(1))) : f \in {g \in {f0, fc} : g # <<>> /\ BLt(g, total)}}
Then(sel, late) == IF ~late THEN L ELSE LET x == All[Ascending(sel)[1]] IN SelectSeq(L, LAMBDA u : ~Spends(u, x))
Pay(sel, to, chg, amt, md, late) ==
  LET h == Draft(sel, to, amt, md)
      t == Built(Change(h, Addrs(frame)[chg]), Wit).t
      p == Parts(EncTx(t))
      now == Then(sel, late)
      ok == Accepts(now, frame.par, Slot, p, Good)
  IN /\ last' = [enough |-> Suffices(h.t, SignersOf(h), MdLenOf(h.t), h.par), late |-> late, accepted |-> ok]
     /\ L' = IF ok THEN Applied(now, p) ELSE now
     /\ paid' = BAdd(IF ok THEN BAdd(paid, p.fee) ELSE paid, IF late THEN All[Ascending(sel)[1]].amt ELSE <<>>)
     /\ hist' = Append(hist, [op |-> "pay", from |-> <<1, 2>>, sel |-> Ascending(sel), outs |-> <<[a |-> to, amt |-> amt]>>, chg |-> chg,
                              slot |-> Slot, ttl |-> Ttl, meta |-> IF md THEN 1 ELSE 0, par |-> 1, late |-> IF late THEN 1 ELSE 0])
     /\ UNCHANGED <<frame, got>>
\* somebody pays the wallet
Recv(w) ==
  LET c == [Coin(NCoins + Len(hist) + 1) EXCEPT !.w = w] IN
  /\ got < NRecv /\ got' = got + 1
  /\ L' = Append(L, [h |-> c.h, ix |-> c.ix, amt |-> c.amt, a |-> Addrs(frame)[w]])
  /\ hist' = Append(hist, [op |-> "recv", h |-> c.h, ix |-> c.ix, amt |-> c.amt, w |-> w])
  /\ last' = None_ /\ paid' = paid /\ UNCHANGED frame
Pays == /\ Len(hist) < NPay + got
        /\ \E sel \in {S \in SUBSET (1..Len(All)) : S # {} /\ Cardinality(S) <= MaxSel}, to \in To, chg \in Chg, md \in WithMeta, late \in Late :
             \E amt \in Amounts(sel, to, md, chg) : Pay(sel, to, chg, amt, md, late)
Next == Pays \/ \E w \in 1..2 : Recv(w)
Spec == Init /\ [][Next]_vars
\* ---- invariants
Received == BSum([j \in 1..Len(hist) |-> IF hist[j].op = "recv" THEN hist[j].amt ELSE <<>>])
Conserved == BAdd(Worth(L), paid) = BAdd(Worth(Begin(frame)), Received)
Right == (last.enough /\ ~last.late) = last.accepted
OneEach == \A j, k \in 1..Len(L) : j # k => <<L[j].h, L[j].ix>> # <<L[k].h, L[k].ix>>
\* ---- scenarios
BE4(n) == Pad(BN(n), 4)
Path(a, b) == <<BE4(a), BE4(b)>>
H4(n) == [BE4(n) EXCEPT ![1] = 128]
BE(b) == IF b THEN "bf" ELSE "cli"
Scenario ==
  [id |-> 0, area |-> "wallet", backend |-> BE((Len(L) + Len(hist[Len(hist)].sel)) % 2 = 0), id_ |-> 0, magic |-> BN(1097911063), pid |-> Ascii("testnetX"), path |-> "given",
   pars |-> <<[per |-> frame.par.per, fix |-> frame.par.fix, max |-> BN(16384), maj |-> BN(6), min |-> <<>>, utxo |-> <<>>]>>,
   seed |-> RBytes(1, Ascii("wseed"), 16), acct |-> <<H4(1852), H4(1815), H4(0)>>,
   accts |-> [j \in 1..2 |-> [kind |-> frame.kinds[j], path |-> Path(0, j), stake |-> Path(2, 0)]],
   others |-> <<Other>>, metas |-> <<Meta>>,
   init |-> [j \in 1..NCoins |-> Coin(j)], ops |-> hist]
Emit == (Emitting /\ Len(hist) = NPay + got /\ hist[Len(hist)].op = "pay") => PrintT("SCEN " \o ToJson(Scenario))
=================================================================================
