-------------------------------- MODULE TraceWallet -----------------------------
(* Trace validation of payments, end to end: keys and addresses from a seed, the node's  *)
(* answers, inputs chosen among what it lists, a transaction built, signed and           *)
(* submitted; the stand-in applies what it accepts to its unspent outputs, and so does    *)
(* this specification.                                                                  *)
EXTENDS Ledger, Keys, TLC, Json, IOUtils
PROP == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, b, m  \* b: wallet and ledger before the latest event, m: after it
vars == <<s, i, b, m>>
If(c, name) == IF c THEN {} ELSE {name}
T == Traces[s]
RECURSIVE Path(_, _)
Path(k, p) == IF p = <<>> THEN k ELSE Path(Derive(k, Head(p)), Tail(p))
Hash(k) == KeyHash(PublicKey(KL(k)))
\* of trace t: its keys and the addresses it uses, own ones first
KeysOf(t) == LET root == Icarus(t.seed, <<>>)  acct == Path(root, t.acct) IN [j \in 1..Len(t.accts) |-> Path(acct, t.accts[j].path)]
AddrsOf(t, ks) ==
  LET acct == Path(Icarus(t.seed, <<>>), t.acct)
      own == [j \in 1..Len(t.accts) |->
                LET x == t.accts[j] IN
                Encode(IF x.kind = "ent" THEN EntA(t.id_, <<0, Hash(ks[j])>>)
                       ELSE BaseA(t.id_, <<0, Hash(ks[j])>>, <<0, Hash(Path(acct, x.stake))>>))]
  IN own \o [j \in 1..Len(t.others) |-> Encode(t.others[j])]
Start(t) ==
  LET ks == KeysOf(t)  as == AddrsOf(t, ks)
  IN [keys |-> ks, addrs |-> as, L |-> [j \in 1..Len(t.init) |-> [h |-> t.init[j].h, ix |-> t.init[j].ix, amt |-> t.init[j].amt, a |-> as[t.init[j].w]]]]
\* ---- a payment
Lists(e) == [k \in 1..Len(e.from) |-> LET l == Held(b'.L, b'.addrs[e.from[k]]) IN [j \in 1..Len(l) |-> [h |-> l[j].h, ix |-> l[j].ix, amt |-> l[j].amt]]]
Chosen(e) == LET all == FoldLeft(LAMBDA x, y : x \o y, <<>>, Lists(e)) IN [k \in 1..Len(e.sel) |-> all[e.sel[k]]]
Wanted(e) == [j \in 1..Len(e.outs) |-> [a |-> b'.addrs[e.outs[j].a], amt |-> e.outs[j].amt]]
ParOf(e) == T.pars[e.par]
TtlOf(e) == BAdd(e.slot, e.ttl)
MdLen(e) == IF e.meta = 0 THEN 0 ELSE Len(EncodeVal(T.metas[e.meta]))
\* the ledger the submission meets: somebody else may have spent the first input
Then(e) == IF e.late = 0 THEN b'.L ELSE LET x == Chosen(e)[1] IN SelectSeq(b'.L, LAMBDA u : ~Spends(u, x))
Draft(e) == [NoTx EXCEPT !.ins = Chosen(e), !.outs = Wanted(e), !.ttl = TtlOf(e)]
Enough(e) == Suffices(Draft(e), Len(e.keys), MdLen(e), ParOf(e))
Good(k, hash, sig) == Len(k) = 32 /\ Len(sig) = 64 /\ JdkEdVerify(k, hash, sig)
Took(e) == IF e.got = <<>> THEN NoParts ELSE Parts(e.got[1])
MetaIs(e) == LET sp == Split(e.got[1])  v == DecodeAll(sp.md) IN IF e.meta = 0 THEN sp.md = CNull ELSE v.ok /\ SameVal(v.v, T.metas[e.meta])
Judge(e) ==
  LET p == Took(e)  w == Wanted(e)  n == Len(w) IN
  IF e.stage = "skip" THEN {}
  ELSE If(e.stage \in {"submit", "done"}, "it fails before the submission: " \o e.stage)
   \cup If(e.params = ParOf(e), "the fee parameters or other parameters are not the backend's")
   \cup If(e.tip = e.slot, "the tip is not the backend's")
   \cup If(e.lists = Lists(e), "the unspent outputs are not the ledger's")
   \cup (IF e.stage \notin {"submit", "done"} \/ e.lists # Lists(e) THEN {}
         ELSE If(Len(e.got) = 1, "not one submission")
           \cup (IF Len(e.got) # 1 THEN {} ELSE IF ~p.ok THEN {"what was submitted is not a transaction"}
                 ELSE If(p.ins = [k \in 1..Len(e.sel) |-> [h |-> Chosen(e)[k].h, ix |-> Chosen(e)[k].ix]], "inputs")
                   \cup If(Len(p.outs) \in {n, n + 1}, "number of outputs")
                   \cup If(Len(p.outs) >= n /\ SubSeq(p.outs, 1, n) = w, "outputs")
                   \cup If(Len(p.outs) # n + 1 \/ (p.outs[Len(p.outs)].a = b'.addrs[e.chg] /\ p.outs[Len(p.outs)].amt # <<>>), "change")
                   \cup If(p.ttl = <<TtlOf(e)>>, "TTL")
                   \cup If(p.auxok /\ MetaIs(e), "metadata")
                   \cup If(Len(p.wits) = Len(e.keys) /\ Witnessed(b'.L, p, Good), "witnesses")
                   \cup If(Cardinality(p.keys) = 4 + (IF e.meta = 0 THEN 0 ELSE 1), "other entries in the body")
                   \cup (IF Enough(e) /\ e.late = 0
                         THEN If(Accepts(b'.L, ParOf(e), e.slot, p, Good), "the ledger does not accept it")
                              \cup If(BLe(p.fee, ChangeFee(Draft(e), b'.addrs[e.chg], Len(e.keys), MdLen(e), ParOf(e))), "more fee than a change output would cost")
                              \cup If(e.stage = "done" /\ e.accepted, "an accepted payment is reported as failed")
                              \cup If(e.txid = HexEncode(p.hash), "the id is not that of the transaction")
                         ELSE If(~e.accepted /\ e.stage = "submit" /\ e.r = "err", "a payment the ledger refuses is reported as made"))))
   \cup If(e.left = 0, "a file is left behind")
Step(e) ==
  IF e.op = "recv" THEN [b' EXCEPT !.L = Append(@, [h |-> e.h, ix |-> e.ix, amt |-> e.amt, a |-> b'.addrs[e.w]])]
  ELSE LET p == Took(e) IN
       IF e.stage \notin {"submit", "done"} THEN b'
       ELSE IF Len(e.got) = 1 /\ e.accepted /\ p.ok THEN [b' EXCEPT !.L = Applied(Then(e), p)]
       ELSE [b' EXCEPT !.L = Then(e)]
Init == s \in 1..Len(Traces) /\ i = 0 /\ b = <<>> /\ m = <<>>
Next == /\ i < Len(T.ev)
        /\ b' = IF i = 0 THEN Start(T) ELSE m
        /\ LET e == T.ev[i + 1]
               bad == IF e.op = "dead" THEN {"the process died"} ELSE IF e.op = "recv" THEN {} ELSE Judge(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> T.id, ev |-> i + 1, op |-> e.op, why |-> bad]))
              /\ m' = IF e.op = "dead" THEN b' ELSE Step(e)
        /\ i' = i + 1 /\ s' = s
=================================================================================
