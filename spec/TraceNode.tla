-------------------------------- MODULE TraceNode -------------------------------
(* Trace validation of the node backends against Node.tla.                          *)
EXTENDS Node, TLC, Json, IOUtils
PROP == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, m
vars == <<s, i, m>>
If(c, name) == IF c THEN {} ELSE {name}
ParamsOk(e) == /\ e.out.per = e.per /\ e.out.fix = e.fix /\ e.out.max = e.max
               /\ e.out.maj = e.maj /\ e.out.min = e.min /\ e.out.utxo = e.utxo
TipOk(e) == e.out.slot = e.slot /\ e.out.epoch = e.epoch /\ e.out.block = e.block
HashOk(nd, e) == e.txhash = e.txid \/ (nd.backend = "cli" /\ Trimmed(e.txhash) = Trimmed(e.txid))
\* several calls at the same time: the requests are told apart by what they ask for
\* (the stand-in answers a submission with the SHA-256 of what it received)
JudgePar(e) ==
  LET subs == e.subs
      K == 1..Len(subs)
      of(op) == {k \in K : subs[k].op = op}
      nd(k) == m[subs[k].n]
      carries(q, k) == IF nd(k).backend = "bf" THEN q.via = "http" /\ q.method = "POST" /\ q.body = subs[k].sent
                       ELSE q.via = "cli" /\ q.file = "ok" /\ q.cbor = subs[k].sent
      sends(q) == (q.via = "http" /\ q.method = "POST") \/ (q.via = "cli" /\ q.file # "none")
      sending == {j \in 1..Len(e.reqs) : sends(e.reqs[j])}
  IN CASE PROP = "C22" -> If(\A j \in 1..Len(e.reqs) : \E k \in K : RequestOk(nd(k), subs[k], e.reqs[j]), "request")
       [] PROP = "C23" -> If(\A k \in of("utxos") : subs[k].r = "ok" /\ subs[k].list = Listed(subs[k].set), "unspent outputs of concurrent queries")
       [] PROP = "C24" -> If(/\ Cardinality(sending) = Cardinality(of("submit"))
                             /\ \A k \in of("submit") : \E j \in sending : carries(e.reqs[j], k), "what concurrent submissions sent")
                          \cup If(\A k \in of("submit") : subs[k].r = "ok" /\ Trimmed(subs[k].txhash) = HexEncode(SHA256(subs[k].sent)), "outcome of concurrent submissions")
                          \cup If(e.left = 0, "a file is left behind")
       [] OTHER -> {}
Judge(e) ==
  IF e.op = "par" THEN JudgePar(e)
  ELSE IF e.op = "new" THEN If(e.r = "ok", "creating the node fails")
  ELSE IF e.op = "netmut" THEN {}
  ELSE LET nd == m[e.n] IN
  CASE PROP = "C22" ->
         If(\A k \in 1..Len(e.reqs) : RequestOk(nd, e, e.reqs[k]), "request")
         \cup If(nd.path = "missing" \/ e.reqs # <<>>, "no request") \cup If(e.r \in {"ok", "err"}, "does not return normally")
    [] PROP = "C23" -> If(e.kept, "what an earlier query returned has changed") \cup IF e.op # "utxos" THEN {} ELSE If(Ended(nd, e, e.list = Listed(e.set)), "unspent outputs")
    [] PROP = "C24" -> IF e.op # "submit" THEN {}
                       ELSE If(SentOk(nd, e), "what was sent") \cup If(Ended(nd, e, HashOk(nd, e)), "outcome") \cup If(e.left = 0, "a file is left behind")
    [] PROP = "C25" -> CASE e.op = "params" -> If(Ended(nd, e, ParamsOk(e)), "parameters")
                         [] e.op = "tip" -> If(Ended(nd, e, TipOk(e)), "tip")
                         [] OTHER -> {}
Step(e) == IF e.op = "new" THEN (e.n :> [backend |-> e.backend, id |-> e.id, magic |-> e.magic, pid |-> e.pid, path |-> e.path]) @@ m ELSE m
Init == s \in 1..Len(Traces) /\ i = 0 /\ m = <<>>
Next == /\ i < Len(Traces[s].ev)
        /\ LET e == Traces[s].ev[i + 1]
               bad == IF e.op = "dead" THEN {"the process died"} ELSE Judge(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Traces[s].id, ev |-> i + 1, op |-> e.op, why |-> bad]))
              /\ m' = IF e.op = "dead" THEN m ELSE Step(e)
        /\ i' = i + 1 /\ s' = s
=================================================================================
