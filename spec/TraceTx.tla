--------------------------------- MODULE TraceTx --------------------------------
(* Trace validation of transaction assembly. Every event records what all live      *)
(* builders and transactions hold afterwards (st); the model keeps what the         *)
(* assembly history demands of them:                                               *)
(*   keys   registered keys, in order (indices into the scenario's pool)            *)
(*   par    fee parameters          bad   places of malformed inputs                 *)
(*   meta   the metadata given (0: none, else index of a cell)                      *)
(*   built  returned by Build and not modified since, stale: its metadata was        *)
(*          changed by the caller since                                            *)
(*   hash, body, len, bytes   what was read since the last modification             *)
(*   paid   its fee was set by adding change and nothing was modified since          *)
EXTENDS Tx, Keys, TLC, Json, IOUtils
PROP == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, m
vars == <<s, i, m>>
If(c, name) == IF c THEN {} ELSE {name}
T == Traces[s]
Queries == {"minfee", "hash", "bytes", "hex", "feeq", "aux", "bodybytes"}
\* replin, replout: the caller puts another input or output in the place of one
Sets == {"in", "out", "replin", "replout", "ttl", "fee", "meta", "delmeta", "sign"}
NewH(keys, par, kind) == [kind |-> kind, keys |-> keys, par |-> par, bad |-> {}, meta |-> 0, built |-> FALSE, stale |-> FALSE,
                          hash |-> <<>>, body |-> <<>>, bytes |-> <<>>, paid |-> FALSE, fees |-> {}]
Forget(h) == [h EXCEPT !.hash = <<>>, !.body = <<>>, !.bytes = <<>>, !.paid = FALSE, !.built = FALSE, !.fees = {}]
InPool(j) == T.ins[j]
InOk(j) == LET h == HexDecode(InPool(j).h) IN h.ok /\ Len(h.b) = 32
InVal(j) == [h |-> HexDecode(InPool(j).h).b, ix |-> InPool(j).ix, amt |-> InPool(j).amt]
OutVal(j) == [a |-> Encode(T.addrs[T.outs[j].a]), amt |-> T.outs[j].amt]
Prev == IF i = 0 THEN <<>> ELSE T.ev[i].st
\* the logged transaction as a record of Tx.tla
AsTx(o, md) == [ins |-> o.ins, outs |-> o.outs, fee |-> o.fee, ttl |-> o.ttl, wits |-> o.wits, md |-> md]
Content(o) == [ins |-> o.ins, outs |-> o.outs, fee |-> o.fee, ttl |-> o.ttl, valid |-> o.valid, r |-> o.r]
Signers(h) == IF h.keys = <<>> THEN 1 ELSE Len(h.keys)
PubOf(j) == PublicKey(KL(T.keys[j]))
MdLen(h) == IF h.meta = 0 THEN 0 ELSE Len(EncodeVal(m.cells[h.meta]))
Data(e) == IF e.op = "hex" THEN HexDecode(e.out).b ELSE e.out
\* the transaction's bytes d, taken apart by position: what has to be there but the metadata, then the metadata
Expected(o, h, d) ==
  IF h.meta = 0 THEN EncTx(AsTx(o, <<>>))
  ELSE LET pre == Len(EncTx(AsTx(o, <<Zeros(1)>>))) - 1
       IN IF Len(d) <= pre THEN <<>> ELSE EncTx(AsTx(o, <<SubSeq(d, pre + 1, Len(d))>>))
\* witnesses of bytes d are valid signatures by the registered keys over its body
Signed(h, d) ==
  LET sp == Split(d)
      ws == WitsOf(sp.witv)
      hash == Blake2b(32, sp.body)
  IN IF ~sp.ok THEN FALSE
     ELSE PlainWits(sp.witv) /\ Len(ws) = Len(h.keys)
          /\ \A j \in 1..Len(ws) : ws[j].k = PubOf(h.keys[j]) /\ Len(ws[j].s) = 64 /\ JdkEdVerify(ws[j].k, hash, ws[j].s)
\* metadata and its hash in bytes d
MetaRight(h, d) ==
  LET sp == Split(d)
      e == Entry(sp.bodyv, 7)
      v == DecodeAll(sp.md)
  IN IF ~sp.ok THEN {"not a transaction"}
     ELSE IF h.meta = 0 THEN If(e = <<>>, "a metadata hash without metadata") \cup If(sp.md = CNull, "metadata although there is none")
     ELSE IF e = <<>> THEN {"no metadata hash"}
     ELSE If(e[1].t = "b" /\ e[1].b = Blake2b(32, sp.md), "the hash is not that of the metadata")
          \cup (IF h.stale THEN {} ELSE If(v.ok /\ SameVal(v.v, m.cells[h.meta]), "other metadata than given"))

H(e) == m.hs[e.h]
Mine(e) == e.st[e.h]
Was(e) == Prev[e.h]
\* the content the modification e has to lead to
Assembled(e) ==
  LET w == Content(Was(e))
  IN CASE e.op = "in" -> [w EXCEPT !.ins = @ \o [j \in 1..Len(e.ids) |-> InVal(e.ids[j])]]
       [] e.op = "out" -> [w EXCEPT !.outs = @ \o [j \in 1..Len(e.ids) |-> OutVal(e.ids[j])]]
       [] e.op = "replin" -> [w EXCEPT !.ins[e.j] = InVal(e.id)]
       [] e.op = "replout" -> [w EXCEPT !.outs[e.j] = OutVal(e.id)]
       [] e.op = "ttl" -> [w EXCEPT !.ttl = e.n]
       [] e.op = "fee" -> [w EXCEPT !.fee = e.n]
       [] OTHER -> w
Bad(e) == H(e).bad # {}
BadIn(e) == \/ e.op = "in" /\ \E j \in 1..Len(e.ids) : ~InOk(e.ids[j])
            \/ e.op = "replin" /\ ~InOk(e.id)
Empty(o) == o.r = "ok" /\ o.ins = <<>> /\ o.outs = <<>> /\ o.fee = <<>> /\ o.ttl = <<>> /\ o.wits = <<>> /\ o.valid /\ ~o.meta
JudgeC08(e) ==
  CASE e.op \in {"new", "newtx"} -> If(e.r = "ok" /\ Empty(e.st[Len(e.st)]), "a new transaction is not empty")
    [] e.op \in Sets ->
         If(e.r = "ok", "fails") \cup (IF Bad(e) \/ BadIn(e) THEN {} ELSE If(Content(Mine(e)) = Assembled(e), "content"))
    [] e.op \in {"bytes", "hex"} ->
         IF Bad(e) THEN If(e.r = "err", "a malformed input is not reported")
         ELSE If(e.r = "ok", "fails") \cup If(Data(e) = Expected(Was(e), H(e), Data(e)), "bytes")
              \cup (IF e.op = "hex" THEN If(Len(e.out) = 2 * Len(Data(e)), "hex") ELSE {})
              \cup (IF H(e).bytes # <<>> /\ H(e).bytes # Data(e) THEN {"other bytes than before"} ELSE {})
    [] e.op = "hash" -> IF Bad(e) THEN If(e.r = "err", "a malformed input is not reported") ELSE {}
    [] e.op = "build" -> IF Bad(e) THEN If(e.r = "err", "a malformed input is not reported")
                         ELSE IF e.r # "ok" THEN {"fails"} ELSE If(Content(e.st[Len(e.st)]) = Content(Was(e)), "content")
    [] e.op = "bodybytes" -> IF Bad(e) THEN If(e.r = "err", "a malformed input is not reported")
                             ELSE IF H(e).body = <<>> THEN {} ELSE If(e.r = "ok" /\ e.out = H(e).body /\ HexDecode(e.hex).b = e.out, "the body's own bytes")
    [] OTHER -> {}
JudgeC09(e) ==
  IF e.op \notin {"hash", "bytes", "hex"} THEN {} ELSE IF Bad(e) THEN {}
  ELSE IF e.r # "ok" THEN {"fails"}
  ELSE CASE e.op = "hash" -> If(H(e).hash = <<>> \/ H(e).hash = e.out, "another hash than before")
                             \cup If(H(e).body = <<>> \/ Blake2b(32, H(e).body) = e.out, "not the hash of the serialized body")
         [] OTHER -> LET sp == Split(Data(e)) IN
                     IF ~sp.ok THEN {"not a transaction"}
                     ELSE If(H(e).hash = <<>> \/ H(e).hash = Blake2b(32, sp.body), "not the hash of the serialized body")
                          \cup If(H(e).body = <<>> \/ H(e).body = sp.body, "another body than before")
JudgeC10(e) ==
  CASE e.op = "build" /\ ~Bad(e) ->
         IF e.r # "ok" THEN {"fails"}
         ELSE LET ws == e.st[Len(e.st)].wits  ks == H(e).keys IN
              If(Len(ws) = Len(ks), "number of witnesses")
              \cup If(Len(ws) # Len(ks) \/ \A j \in 1..Len(ws) : ws[j].k = PubOf(ks[j]), "keys of the witnesses")
    [] e.op \in {"bytes", "hex"} /\ H(e).built /\ ~H(e).stale -> If(e.r = "ok" /\ Signed(H(e), Data(e)), "signatures")
    [] OTHER -> {}
\* inputs that hold more than 64 bits do not exist (and their change would not fit an output); outputs may ask for it
InRange(o) == Len(TotalIn(AsTx(o, <<>>))) <= 8
OutsInRange(o) == Len(TotalOut(AsTx(o, <<>>))) <= 8
JudgeC11(e) ==
  IF e.op # "change" THEN {}
  ELSE IF Bad(e) \/ ~InRange(Was(e)) THEN {}
  ELSE If(e.r = "ok", "fails") \cup If(Mine(e).r = "ok" /\ Mine(e).ins = Was(e).ins /\ Mine(e).ttl = Was(e).ttl, "inputs or TTL changed")
       \cup If(OutsInRange(Was(e)) => OutsInRange(Mine(e)), "an amount wraps around")
       \cup If(Conserves(AsTx(Was(e), <<>>), AsTx(Mine(e), <<>>), Encode(T.addrs[e.a]), Signers(H(e)), MdLen(H(e)), H(e).par), "value")
JudgeC12(e) ==
  CASE e.op = "change" /\ ~Bad(e) ->
         IF ~InRange(Was(e)) THEN {}
         ELSE If(e.r = "ok", "fails")
              \cup If(Covers(AsTx(Was(e), <<>>), AsTx(Mine(e), <<>>), Encode(T.addrs[e.a]), Signers(H(e)), MdLen(H(e)), H(e).par), "fee")
    [] e.op = "minfee" /\ ~Bad(e) ->
         IF ~InRange(Was(e)) THEN {}
         ELSE If(e.r = "ok", "fails") \cup If(MinFeeOk(AsTx(Was(e), <<>>), Signers(H(e)), MdLen(H(e)), H(e).par, e.out), "minimum fee")
    [] e.op \in {"bytes", "hex"} /\ H(e).built /\ H(e).paid /\ ~H(e).stale ->
         If(e.r = "ok" /\ BLe(Linear(H(e).par, Len(Data(e))), Was(e).fee), "the fee does not cover the signed transaction")
    [] OTHER -> {}
FeeOf(q, len) == Linear([per |-> q.per, fix |-> q.fix], len)
JudgeC13(e) ==
  CASE e.op = "feeq" /\ ~Bad(e) ->
         If(e.r = "ok", "fails")
         \cup If(H(e).bytes = <<>> \/ e.out = FeeOf(e, Len(H(e).bytes)), "fee")
    [] e.op \in {"bytes", "hex"} /\ ~Bad(e) ->
         If(\A q \in H(e).fees : q.out = FeeOf(q, Len(Data(e))), "fee")
    [] e.op = "fee" -> If(e.r = "ok" /\ Mine(e).fee = e.n, "fee set")
    [] OTHER -> {}
JudgeC14(e) ==
  CASE e.op \in {"bytes", "hex"} /\ ~Bad(e) ->
         IF e.r # "ok" THEN {"fails"}
         ELSE MetaRight(H(e), Data(e))
              \cup If(H(e).hash = <<>> \/ H(e).hash = Blake2b(32, Split(Data(e)).body), "hash of another metadata")
              \cup If(H(e).bytes = <<>> \/ H(e).bytes = Data(e), "not deterministic")
              \cup (IF H(e).built /\ ~H(e).stale /\ H(e).keys # <<>> THEN If(Signed(H(e), Data(e)), "signatures over another metadata") ELSE {})
    [] e.op = "hash" /\ ~Bad(e) ->
         If(e.r = "ok", "fails") \cup If(H(e).hash = <<>> \/ H(e).hash = e.out, "another hash than before")
         \cup If(H(e).body = <<>> \/ Blake2b(32, H(e).body) = e.out, "hash of another metadata")
    [] e.op = "aux" -> If(e.r = "ok", "fails")
    [] e.op = "build" /\ ~Bad(e) -> If(e.r = "ok", "fails") \cup (IF e.r = "ok" THEN If(e.st[Len(e.st)].meta = (H(e).meta # 0), "metadata lost") ELSE {})
    [] OTHER -> {}
\* C15
Target(e) == IF "h" \in DOMAIN e THEN e.h ELSE 0
JudgeC15(e) ==
  LET others == {k \in 1..Len(Prev) : k # Target(e) /\ e.st[k] # Prev[k]}
  IN If(others = {}, "another transaction changed") \cup If(e.kept, "a key, input or output of the caller changed")
     \cup (IF e.op \in Queries THEN If(e.r \in {"ok", "err"} /\ Mine(e) = Was(e), "a query changes the transaction") ELSE {})
     \cup (CASE e.op = "build" -> If(Content(Mine(e)) = Content(Was(e)), "Build changes the content")
                                  \cup (IF e.r = "ok" THEN If(Content(e.st[Len(e.st)]) = Content(Was(e)), "content of the built transaction") ELSE {})
             [] e.op \in {"bytes", "hex"} /\ H(e).built /\ ~H(e).stale ->
                  If(e.r = "ok" /\ Signed(H(e), Data(e)), "the built transaction's signatures")
                  \cup If(H(e).bytes = <<>> \/ H(e).bytes = Data(e), "the built transaction's bytes")
             [] e.op = "bodybytes" /\ H(e).built /\ ~H(e).stale /\ H(e).body # <<>> -> If(e.r = "ok" /\ e.out = H(e).body, "the built transaction's body")
             [] e.op = "hash" /\ H(e).built /\ ~H(e).stale -> If(e.r = "ok" /\ (H(e).hash = <<>> \/ H(e).hash = e.out), "the built transaction's hash")
             [] e.op \in Sets ->
                  If(e.r = "ok", "fails") \cup (IF Bad(e) \/ BadIn(e) THEN {} ELSE If(Content(Mine(e)) = Assembled(e), "content"))
             [] e.op = "new" -> If(e.r = "ok" /\ Empty(e.st[Len(e.st)]), "a new builder is not empty")
             [] OTHER -> {})
Judge(e) ==
  IF e.r = "skip" THEN {}
  ELSE CASE PROP = "C08" -> JudgeC08(e) [] PROP = "C09" -> JudgeC09(e) [] PROP = "C10" -> JudgeC10(e) [] PROP = "C11" -> JudgeC11(e)
         [] PROP = "C12" -> JudgeC12(e) [] PROP = "C13" -> JudgeC13(e) [] PROP = "C14" -> JudgeC14(e) [] PROP = "C15" -> JudgeC15(e)
SetKey(v, k, x) ==                                        \* v: a map value; entry k set to x
  LET js == {j \in 1..Len(v.kv) : SameVal(v.kv[j].k, k)}
  IN IF js = {} THEN [v EXCEPT !.kv = Append(@, [k |-> k, v |-> x])] ELSE [v EXCEPT !.kv[CHOOSE j \in js : TRUE].v = x]
Upd(e, h) == [m EXCEPT !.hs[e.h] = h]
Step(e) ==
  IF e.r = "skip" THEN (IF e.op = "build" THEN [m EXCEPT !.hs = Append(@, NewH(<<>>, <<>>, "none"))] ELSE m)
  ELSE CASE e.op = "new" -> [m EXCEPT !.hs = Append(@, NewH(e.ids, [per |-> e.per, fix |-> e.fix], "b"))]
    [] e.op = "newtx" -> [m EXCEPT !.hs = Append(@, NewH(<<>>, <<>>, "t"))]
    [] e.op = "sign" -> Upd(e, [Forget(H(e)) EXCEPT !.keys = Append(@, e.key), !.hash = H(e).hash, !.body = H(e).body])
    [] e.op = "in" -> Upd(e, [Forget(H(e)) EXCEPT !.bad = @ \cup {Len(Was(e).ins) + j : j \in {k \in 1..Len(e.ids) : ~InOk(e.ids[k])}}])
    [] e.op = "replin" -> Upd(e, [Forget(H(e)) EXCEPT !.bad = IF InOk(e.id) THEN @ \ {e.j} ELSE @ \cup {e.j}])
    [] e.op \in {"out", "replout", "ttl", "fee"} -> Upd(e, Forget(H(e)))
    [] e.op = "change" -> Upd(e, [Forget(H(e)) EXCEPT !.paid = IF Bad(e) \/ ~InRange(Was(e)) THEN FALSE
                                                                ELSE Suffices(AsTx(Was(e), <<>>), Signers(H(e)), MdLen(H(e)), H(e).par)])
    [] e.op = "meta" -> Upd(e, [Forget(H(e)) EXCEPT !.meta = e.m, !.stale = FALSE])
    [] e.op = "delmeta" -> Upd(e, [Forget(H(e)) EXCEPT !.meta = 0, !.stale = FALSE])
    [] e.op = "metamut" -> [m EXCEPT !.cells[e.m] = SetKey(@, e.k, e.v),
                                     !.hs = [k \in 1..Len(m.hs) |->
                                               IF m.hs[k].meta # e.m THEN m.hs[k]
                                               ELSE [Forget(m.hs[k]) EXCEPT !.stale = m.hs[k].stale \/ m.hs[k].built]]]
    [] e.op = "build" ->
         LET n == IF e.r = "ok" THEN [H(e) EXCEPT !.kind = "t", !.built = TRUE, !.bytes = <<>>, !.fees = {}] ELSE NewH(<<>>, <<>>, "none")
         IN [m EXCEPT !.hs = Append([@ EXCEPT ![e.h].bytes = <<>>, ![e.h].fees = {}], n)]
    [] e.op = "hash" /\ e.r = "ok" -> Upd(e, [H(e) EXCEPT !.hash = IF @ = <<>> THEN e.out ELSE @])
    [] e.op \in {"bytes", "hex"} /\ e.r = "ok" ->
         LET sp == Split(Data(e)) IN Upd(e, [H(e) EXCEPT !.bytes = IF @ = <<>> THEN Data(e) ELSE @,
                                                         !.body = IF @ = <<>> /\ sp.ok THEN sp.body ELSE @])
    [] e.op = "feeq" /\ e.r = "ok" -> Upd(e, [H(e) EXCEPT !.fees = @ \cup {[per |-> e.per, fix |-> e.fix, out |-> e.out]}])
    [] OTHER -> m
Init == s \in 1..Len(Traces) /\ i = 0 /\ m = [hs |-> <<>>, cells |-> Traces[s].metas]
Next == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1]
               bad == IF e.op = "dead" THEN {"the process died"} ELSE Judge(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> T.id, ev |-> i + 1, op |-> e.op, why |-> bad]))
              /\ m' = IF e.op = "dead" THEN m ELSE Step(e)
        /\ i' = i + 1 /\ s' = s
=================================================================================
