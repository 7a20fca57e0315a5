---------------------------------- MODULE Node ----------------------------------
(* The node backends: which requests an operation may make, and what it has to       *)
(* return for what the backend holds and how it answers.                             *)
(*                                                                                 *)
(* A node is [backend, id, magic, pid, path]: "bf" (Blockfrost over HTTPS) or "cli",   *)
(* network id (1: mainnet), protocol magic, project id, "missing": no such program.    *)
EXTENDS Address
RECURSIVE DecDigits(_)
DecDigits(n) == IF n = <<>> THEN <<>> ELSE LET q == DivI(n, 10) IN Append(DecDigits(q[1]), 48 + q[2])
Decimal(n) == IF n = <<>> THEN <<48>> ELSE DecDigits(n)
Main(nd) == nd.id = 1
\* ---- Blockfrost
Host(nd) == IF Main(nd) THEN Ascii("cardano-mainnet.blockfrost.io") ELSE Ascii("cardano-testnet.blockfrost.io")
Api == Ascii("/api/v0")
PathOf(e) == Api \o (CASE e.op = "utxos" -> Ascii("/addresses/") \o Text(e.a) \o Ascii("/utxos")
                       [] e.op = "params" -> Ascii("/epochs/latest/parameters")
                       [] e.op = "tip" -> Ascii("/blocks/latest")
                       [] e.op = "submit" -> Ascii("/tx/submit"))
HttpOk(nd, e, q) ==
  /\ q.via = "http" /\ q.scheme = "https" /\ q.host = Host(nd) /\ q.pid = nd.pid /\ q.path = PathOf(e)
  /\ q.method = (IF e.op = "submit" THEN "POST" ELSE "GET")
  /\ e.op = "submit" => q.ctype = Ascii("application/cbor")
\* ---- cardano-cli: command words, then flags in any order
Words(e) == CASE e.op = "utxos" -> <<Ascii("query"), Ascii("utxo")>>
              [] e.op = "params" -> <<Ascii("query"), Ascii("protocol-parameters")>>
              [] e.op = "tip" -> <<Ascii("query"), Ascii("tip")>>
              [] e.op = "submit" -> <<Ascii("transaction"), Ascii("submit")>>
NetFlag(nd) == IF Main(nd) THEN <<Ascii("--mainnet")>> ELSE <<Ascii("--testnet-magic"), Decimal(nd.magic)>>
\* the flag groups of an operation; the name of the transaction file is the caller's choice
CliOk(nd, e, q) ==
  LET rest == SubSeq(q.args, 3, Len(q.args))
      own == CASE e.op = "utxos" -> <<Ascii("--address"), Text(e.a)>>
               [] e.op = "submit" -> <<Ascii("--tx-file")>>
               [] OTHER -> <<>>
      n == Len(NetFlag(nd))
      file(g) == Len(g) = 2 /\ g[1] = Ascii("--tx-file")
      fits(g) == IF e.op = "submit" THEN file(g) ELSE g = own
  IN /\ q.via = "cli" /\ Len(q.args) >= 2 /\ SubSeq(q.args, 1, 2) = Words(e)
     /\ Len(rest) >= n
     /\ \/ SubSeq(rest, 1, n) = NetFlag(nd) /\ fits(SubSeq(rest, n + 1, Len(rest)))
        \/ SubSeq(rest, Len(rest) - n + 1, Len(rest)) = NetFlag(nd) /\ fits(SubSeq(rest, 1, Len(rest) - n))
RequestOk(nd, e, q) == IF nd.backend = "bf" THEN HttpOk(nd, e, q) ELSE CliOk(nd, e, q)
\* ---- how the backend answered in this event: "good", "bad" (no usable answer), or "mixed" (bad first, then good: a retry)
\* a request marked hit was answered badly
Answered(nd, e) ==
  LET hits == {k \in 1..Len(e.reqs) : e.reqs[k].hit}
      \* a bad answer followed by a good one to the same request
      repaired(k) == \E j \in (k + 1)..Len(e.reqs) : ~e.reqs[j].hit /\ e.reqs[j].page = e.reqs[k].page
  IN IF nd.path = "missing" THEN "bad"
     ELSE IF e.mal.field # "none" THEN "bad"
     ELSE IF nd.backend = "cli" THEN (IF e.fault.kind \in {"", "none"} THEN "good" ELSE "bad")
     ELSE IF hits = {} THEN "good" ELSE IF \A k \in hits : repaired(k) THEN "mixed" ELSE "bad"
\* r is the way the operation ended, right: whether it returned the right value
Ended(nd, e, right) ==
  CASE Answered(nd, e) = "good" -> e.r = "ok" /\ right
    [] Answered(nd, e) = "bad" -> e.r = "err"
    [] OTHER -> e.r = "err" \/ (e.r = "ok" /\ right)
Trimmed(b) == LET nl == {i \in 1..Len(b) : b[i] \notin {32, 9, 10, 13}}
              IN IF nl = {} THEN <<>> ELSE SubSeq(b, 1, CHOOSE i \in nl : \A j \in nl : j <= i)
\* the unspent outputs as the query has to return them
Listed(set) == [k \in 1..Len(set) |-> [h |-> set[k].h, ix |-> set[k].ix, amt |-> set[k].amt]]
\* submission: one attempt with exactly the bytes
Submissions(e) == {k \in 1..Len(e.reqs) : e.reqs[k].via = "cli" \/ e.reqs[k].method # "GET"}
SentOk(nd, e) ==
  IF nd.path = "missing" THEN e.reqs = <<>>
  ELSE Len(e.reqs) = 1 /\ LET q == e.reqs[1] IN IF nd.backend = "bf" THEN q.via = "http" /\ q.body = e.sent ELSE q.via = "cli" /\ q.file = "ok" /\ q.cbor = e.sent
=================================================================================
