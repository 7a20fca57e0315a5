------------------------------- MODULE NodeClient -------------------------------
(* How a client of a node backend may go about an operation: page by page, with         *)
(* retries, temporary files and failing answers at every request.                      *)
(*                                                                                 *)
(* The backend holds n unspent outputs and hands them out in pages of PageSize (bf) or   *)
(* in one table (cli). Every request may be answered "good", refused, garbled, cut off   *)
(* or, for the moment, not at all ("busy": only a query may be repeated after that). A   *)
(* submission may also be sent elsewhere ("moved"): wherever that leads, it failed here.  *)
(* VARIANT selects a faulty client; the configurations with one must find a violation.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS PageSize, MaxSet, MaxOps, MaxTries, Backends, Ops
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Variant == Env("VARIANT", "right")
Emitting == Env("EMIT", "") # ""
VARIABLES be,        \* the backend
          cur,       \* the operation under way, or Idle
          done       \* the finished ones
vars == <<be, cur, done>>
Answers == {"good", "refuse", "garble", "cut", "busy", "moved"}
Idle == [op |-> "idle", n |-> 0, page |-> 0, tries |-> 0, got |-> {}, subs |-> 0, tmp |-> 0, asked |-> <<>>, res |-> "none", net |-> 1]
Items(n) == 1..n
PageOf(b, n, p) == IF b = "cli" THEN Items(n) ELSE {k \in Items(n) : (k - 1) \div PageSize = p - 1}
LastPage(b, n, p) == b = "cli" \/ Cardinality(PageOf(b, n, p)) < PageSize
Init == be \in Backends /\ cur = Idle /\ done = <<>>
Begin(o, n) ==
  /\ cur.op = "idle" /\ Len(done) < MaxOps
  /\ o = "utxos" \/ n = 0
  /\ cur' = [Idle EXCEPT !.op = o, !.n = n, !.page = 1, !.tmp = IF o = "submit" /\ be = "cli" THEN 1 ELSE 0]
  /\ UNCHANGED <<be, done>>
Asked(ans) == [cur EXCEPT !.asked = Append(@, [page |-> cur.page, ans |-> ans]), !.subs = IF cur.op = "submit" THEN @ + 1 ELSE @]
End(c, res) == [c EXCEPT !.res = res, !.tmp = IF Variant = "leak" /\ res = "err" THEN @ ELSE 0]
\* one request and its answer
Ask(ans) ==
  /\ cur.op # "idle" /\ cur.res = "none"
  /\ ans = "moved" => be = "bf" /\ cur.op = "submit"
  /\ LET c == Asked(ans)
         g == [c EXCEPT !.got = @ \cup PageOf(be, cur.n, cur.page)]
         repeat == [c EXCEPT !.tries = @ + 1]
     IN CASE ans = "good" /\ cur.op = "utxos" /\ ~LastPage(be, cur.n, cur.page) /\ Variant # "onepage"
               -> cur' = [g EXCEPT !.page = @ + 1, !.tries = 0]
          [] ans = "good" -> cur' = End(IF cur.op = "utxos" THEN g ELSE c, "ok")
          [] ans = "busy" /\ be = "bf" /\ (cur.op # "submit" \/ Variant = "resubmit")
               -> \/ cur' = End(c, "err")
                  \/ cur.tries < MaxTries /\ cur' = repeat
          [] ans = "moved" /\ Variant = "follow" -> cur' = End(c, "ok")
          [] ans = "cut" /\ Variant = "swallow" -> cur' = End(c, "ok")
          [] ans # "good" /\ cur.page > 1 /\ Variant = "partial" -> cur' = End(c, "ok")
          [] OTHER -> cur' = End(c, "err")
  /\ UNCHANGED <<be, done>>
Finish == /\ cur.res # "none"
          /\ done' = Append(done, cur)
          /\ cur' = [Idle EXCEPT !.tmp = cur.tmp]
          /\ UNCHANGED be
Next == \/ \E o \in Ops, n \in 0..MaxSet : Begin(o, n)
        \/ \E a \in Answers : Ask(a)
        \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish) /\ \A a \in Answers : WF_vars(Ask(a))
\* ---- what C22 to C25 ask of every client
Bad(c) == {k \in 1..Len(c.asked) : c.asked[k].ans # "good"}
\* the last answer to the same request was good
Repaired(c, k) == \E j \in (k + 1)..Len(c.asked) : c.asked[j].page = c.asked[k].page /\ c.asked[j].ans = "good"
Right(c) == /\ c.res = "ok" => (c.op = "utxos" => c.got = Items(c.n)) /\ \A k \in Bad(c) : Repaired(c, k)
            /\ c.res = "err" => Bad(c) # {}
            /\ c.got \subseteq Items(c.n)
AllRight == \A k \in 1..Len(done) : Right(done[k])
OneSubmission == cur.subs <= 1 /\ \A k \in 1..Len(done) : done[k].subs <= 1 /\ (done[k].op = "submit" => done[k].subs = 1)
NoFileLeft == cur.op = "idle" => cur.tmp = 0
Ends == cur.op # "idle" ~> cur.op = "idle"
\* ---- the histories, as scenarios for the real clients
Abs(c) == [op |-> c.op, full |-> c.n \div PageSize, rest |-> c.n % PageSize, sched |-> [k \in 1..Len(c.asked) |-> c.asked[k].ans]]
Emit == IF Emitting /\ Len(done) = MaxOps
        THEN PrintT("SCEN " \o ToJson([area |-> "node", backend |-> be, ops |-> [k \in 1..Len(done) |-> Abs(done[k])]]))
        ELSE TRUE
=================================================================================
