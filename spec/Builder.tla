--------------------------------- MODULE Builder --------------------------------
(* The transaction builder as a state machine over values: what each call does to    *)
(* the handle it is made on. The fee and change computations here are one correct     *)
(* algorithm; Tx.tla says what any correct one has to satisfy, and MCTx checks that    *)
(* this one does.                                                                   *)
(*                                                                                 *)
(* A handle is [kind, t, keys, par]: "b" builder, "t" transaction; t a transaction     *)
(* of Tx.tla; keys the registered keys; par the fee parameters [per, fix].             *)
EXTENDS Tx
Handle(kind, keys, par) == [kind |-> kind, t |-> NoTx, keys |-> keys, par |-> par]
AddIns(h, xs) == [h EXCEPT !.t.ins = @ \o xs]
AddOuts(h, os) == [h EXCEPT !.t.outs = @ \o os]
SetTtl(h, n) == [h EXCEPT !.t.ttl = n]
SetFeeTo(h, n) == [h EXCEPT !.t.fee = n]
SetMeta(h, bytes) == [h EXCEPT !.t.md = <<bytes>>]
DelMeta(h) == [h EXCEPT !.t.md = <<>>]
Register(h, key) == [h EXCEPT !.keys = Append(@, key)]
SignersOf(h) == IF h.keys = <<>> THEN 1 ELSE Len(h.keys)
MdLenOf(t) == IF t.md = <<>> THEN 0 ELSE Len(t.md[1])
\* the fee of t with a change output at a that takes what remains: raise it until it suffices
RECURSIVE ChangeFeeFrom(_, _, _, _, _, _)
ChangeFeeFrom(t, a, w, par, excess, f) ==
  LET rest == IF BLt(f, excess) THEN BSub(excess, f) ELSE <<>>
      n == Need(WithOut(t, a, rest), w, MdLenOf(t), par, f)
  IN IF BLe(n, f) THEN f ELSE ChangeFeeFrom(t, a, w, par, excess, n)
Change(h, a) ==
  LET t == h.t  w == SignersOf(h)
      i == TotalIn(t)  o == TotalOut(t)
      more == BLt(o, i)
      excess == BSub(i, o)
      fc == ChangeFeeFrom(t, a, w, h.par, excess, <<>>)
      f0 == LeastFee(t, w, MdLenOf(t), h.par)
  IN IF more /\ BLt(fc, excess) THEN [h EXCEPT !.t = [WithOut(t, a, BSub(excess, fc)) EXCEPT !.fee = fc]]
     ELSE IF more /\ BLt(f0, excess) THEN [h EXCEPT !.t.fee = excess]
     ELSE [h EXCEPT !.t.fee = f0]
BaseLen == 57
MinFee(h) ==
  LET t == h.t
      i == TotalIn(t)  o == TotalOut(t)
  IN IF BLe(i, BAdd(o, t.fee)) THEN LeastFee(t, SignersOf(h), MdLenOf(t), h.par)
     ELSE ChangeFeeFrom(t, Zeros(BaseLen), SignersOf(h), h.par, BSub(i, o), <<>>)
\* Build: Wit(key, hash) is the witness of a key
Built(h, Wit(_, _)) == LET x == TxHash(h.t) IN [h EXCEPT !.kind = "t", !.t.wits = [j \in 1..Len(h.keys) |-> Wit(h.keys[j], x)]]
=================================================================================
