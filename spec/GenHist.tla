---------------------------------- MODULE GenHist -------------------------------
(* Every call history of a given length over an alphabet of calls on a builder and on    *)
(* the transaction built last. The model carries what each handle has to hold (by        *)
(* Builder.tla) and checks that what Build returned stays the transaction it was, signed  *)
(* with every registered key over its own body, until it is itself modified; with EMIT     *)
(* set, each history, followed by reads of everything, is a scenario.                     *)
EXTENDS Builder, Keys, Rand, Json
CONSTANTS Alphabet, Depth, Reads
Emitting == "EMIT" \in DOMAIN IOEnv
VARIABLES hist, hs, cells
vars == <<hist, hs, cells>>
NK == Depth + 2
Key(j) == Force3rd(RBytes(j, Ascii("hkey"), 64) \o RBytes(j, Ascii("hcc"), 32))
Cred(j) == <<j % 2, RBytes(j, Ascii("hcred"), 28)>>
Addrs == <<EntA(1, Cred(0)), BaseA(0, Cred(1), Cred(2)), EntA(0, Cred(3))>>
InP(j) == [h |-> HexEncode(RBytes(j, Ascii("hid"), 32)), ix |-> BN(j), amt |-> BN(3000000 + j)]
OutP(j) == [a |-> 1 + (j % 2), amt |-> BN(1000000 + j)]
U(n) == [t |-> "u", n |-> BN(n), g |-> "u64"]
Str(x) == [t |-> "s", b |-> Ascii(x)]
MapOf(kv) == [t |-> "m", g |-> "uint", kv |-> kv]
Metas == <<MapOf(<<[k |-> U(1), v |-> Str("one")]>>), MapOf(<<[k |-> U(2), v |-> Str("two")], [k |-> U(674), v |-> U(5)]>>)>>
Par == [per |-> <<44>>, fix |-> <<2, 94, 245>>]
InV(j) == [h |-> HexDecode(InP(j).h).b, ix |-> InP(j).ix, amt |-> InP(j).amt]
OutV(j) == [a |-> Encode(Addrs[OutP(j).a]), amt |-> OutP(j).amt]
\* a handle: of Builder.tla, with meta: the cell its metadata comes from, key: what Build returned (or <<>>)
Start == [h |-> AddOuts(AddIns(Handle("b", <<1>>, Par), <<InV(1)>>), <<OutV(1)>>), meta |-> 0, snap |-> <<>>, ni |-> 1, no |-> 1]
Opening == <<[op |-> "new", ids |-> <<1>>, per |-> Par.per, fix |-> Par.fix], [op |-> "in", h |-> 1, ids |-> <<1>>], [op |-> "out", h |-> 1, ids |-> <<1>>]>>
Init == hist = <<>> /\ hs = <<Start>> /\ cells = Metas
Latest == Len(hs)
HasT == hs[Latest].h.kind = "t"
MdOf(x) == IF x.meta = 0 THEN <<>> ELSE <<EncodeVal(cells[x.meta])>>
\* metadata is held by reference: what a handle's transaction is now
Now(x) == [x.h.t EXCEPT !.md = MdOf(x)]
Ref(x) == [x.h EXCEPT !.t = Now(x)]
Put(j, x) == hs' = [hs EXCEPT ![j] = x]
Mod(j, x) == Put(j, [x EXCEPT !.snap = <<>>])            \* modified by its owner: no promise of Build is left
Do(op) == hist' = Append(hist, op)
Same == UNCHANGED <<hs, cells>>
On(j, a) ==                                              \* call a on handle j, builders and transactions alike
  LET x == hs[j] IN
  CASE a = "in" -> Do([op |-> "in", h |-> j, ids |-> <<x.ni + 1>>]) /\ Mod(j, [x EXCEPT !.h = AddIns(@, <<InV(x.ni + 1)>>), !.ni = @ + 1]) /\ UNCHANGED cells
    [] a = "out" -> Do([op |-> "out", h |-> j, ids |-> <<x.no + 1>>]) /\ Mod(j, [x EXCEPT !.h = AddOuts(@, <<OutV(x.no + 1)>>), !.no = @ + 1]) /\ UNCHANGED cells
    [] a = "ttl" -> Do([op |-> "ttl", h |-> j, n |-> BN(70000 + Len(hist))]) /\ Mod(j, [x EXCEPT !.h = SetTtl(@, BN(70000 + Len(hist)))]) /\ UNCHANGED cells
    [] a = "fee" -> Do([op |-> "fee", h |-> j, n |-> BN(20 + 300 * Len(hist))]) /\ Mod(j, [x EXCEPT !.h = SetFeeTo(@, BN(20 + 300 * Len(hist)))]) /\ UNCHANGED cells
    [] a = "meta1" -> Do([op |-> "meta", h |-> j, m |-> 1]) /\ Mod(j, [x EXCEPT !.meta = 1]) /\ UNCHANGED cells
    [] a = "meta2" -> Do([op |-> "meta", h |-> j, m |-> 2]) /\ Mod(j, [x EXCEPT !.meta = 2]) /\ UNCHANGED cells
    [] a = "delmeta" -> Do([op |-> "delmeta", h |-> j]) /\ Mod(j, [x EXCEPT !.meta = 0]) /\ UNCHANGED cells
    [] a \in {"hash", "bytes", "hex", "aux", "bodybytes"} -> Do([op |-> a, h |-> j]) /\ Same
    [] a = "feeq" -> Do([op |-> "feeq", h |-> j, per |-> <<43>>, fix |-> <<1, 0, 0>>]) /\ Same
Wit(k, x) == [k |-> k, s |-> x]                          \* the witness stands for the signature by k over x
OnB(a) ==
  LET x == hs[1] IN
  CASE a = "sign" -> Do([op |-> "sign", h |-> 1, key |-> Len(x.h.keys) + 1]) /\ Put(1, [x EXCEPT !.h = Register(@, Len(x.h.keys) + 1)]) /\ UNCHANGED cells
    [] a = "change" -> /\ Do([op |-> "change", h |-> 1, a |-> 3])
                       /\ Put(1, [x EXCEPT !.h.t = [Change(Ref(x), Encode(Addrs[3])).t EXCEPT !.md = <<>>]]) /\ UNCHANGED cells
    [] a = "minfee" -> Do([op |-> "minfee", h |-> 1]) /\ Same
    [] a = "build" -> /\ Do([op |-> "build", h |-> 1]) /\ UNCHANGED cells
                      /\ LET b == Built(Ref(x), Wit) IN hs' = Append(hs, [x EXCEPT !.h = [b EXCEPT !.t.md = <<>>], !.snap = <<b.t>>])
\* the caller changes the map it gave: what was built with it is no longer promised
Mut == /\ Do([op |-> "metamut", m |-> 1, k |-> U(1 + Len(hist)), v |-> Str("changed")])
       /\ cells' = [cells EXCEPT ![1].kv = IF Len(hist) = 0 THEN <<[@[1] EXCEPT !.v = Str("changed")]>>
                                           ELSE Append(SelectSeq(@, LAMBDA e : e.k # U(1 + Len(hist))), [k |-> U(1 + Len(hist)), v |-> Str("changed")])]
       /\ hs' = [j \in 1..Len(hs) |-> IF hs[j].meta = 1 THEN [hs[j] EXCEPT !.snap = <<>>] ELSE hs[j]]
BOps == {"sign", "change", "minfee", "build"}
TOps == [t \in {"t.in", "t.out", "t.ttl", "t.fee", "t.meta1", "t.meta2", "t.delmeta", "t.hash", "t.bytes", "t.hex", "t.feeq", "t.aux"} |->
         SubSeq(t, 3, Len(t))]
Next == /\ Len(hist) < Depth
        /\ \E a \in Alphabet :
             CASE a \in BOps -> OnB(a)
               [] a = "metamut" -> Mut
               [] a \in DOMAIN TOps -> HasT /\ On(Latest, TOps[a])
               [] OTHER -> On(1, a)
Spec == Init /\ [][Next]_vars
\* ---- what holds in every state
Kept == \A j \in 1..Len(hs) : hs[j].snap # <<>> => LET t == hs[j].snap[1] IN
          /\ Now(hs[j]) = t
          /\ \A w \in 1..Len(t.wits) : t.wits[w].k = hs[j].h.keys[w] /\ t.wits[w].s = TxHash(t)
          /\ Len(t.wits) = Len(hs[j].h.keys)
\* the body commits to the metadata, and the transaction says what was assembled
Commits == \A j \in 1..Len(hs) : LET t == [Now(hs[j]) EXCEPT !.wits = <<>>]  sp == Split(EncTx(t)) IN
             /\ sp.ok /\ sp.body = EncBody(t)
             /\ LET e == Entry(sp.bodyv, 7) IN IF t.md = <<>> THEN e = <<>> /\ sp.md = CNull ELSE e[1].b = Blake2b(32, sp.md) /\ sp.md = t.md[1]
             /\ TxHash(t) = Blake2b(32, sp.body)
\* nothing but the reads of the history differs: queries are no steps of the model
Grown == Len(hs) = 1 + Cardinality({j \in 1..Len(hist) : hist[j].op = "build"})
RBytesOnly == <<"bytes">>
RHash == <<"hash", "bytes", "hash">>
RFee == <<"feeq", "bytes">>
RHex == <<"hex", "bodybytes">>
RECURSIVE Flat(_, _)
Flat(f, n) == IF n = 0 THEN <<>> ELSE Flat(f, n - 1) \o f[n]
ReadOps(j) == [r \in 1..Len(Reads) |-> IF Reads[r] = "feeq" THEN [op |-> "feeq", h |-> j, per |-> <<44>>, fix |-> <<2, 94, 245>>] ELSE [op |-> Reads[r], h |-> j]]
Scenario == [area |-> "tx", ops |-> Opening \o hist \o Flat([j \in 1..Len(hs) |-> ReadOps(j)], Len(hs)), keys |-> [j \in 1..NK |-> Key(j)],
             ins |-> [j \in 1..NK |-> InP(j)], outs |-> [j \in 1..NK |-> OutP(j)], addrs |-> Addrs, metas |-> Metas]
Emit == Emitting /\ Len(hist) = Depth => PrintT("SCEN " \o ToJson(Scenario))
=================================================================================
