--------------------------------- MODULE Address --------------------------------
(* Cardano addresses (CIP-19): what an address is, its bytes, its text, its CBOR   *)
(* form, and which byte strings and texts denote an address.                      *)
(*                                                                                *)
(* An address is a record  [kind, net, pay, stake, ptr, root, pl, mg]              *)
(*   kind  "base" "ent" "ptr" "rew" "byron";   net 0 (testnet) or 1 (mainnet)      *)
(*   pay, stake  <<script?0/1, hash28>>  or <<>> where the kind has none           *)
(*   ptr   <<slot, txIndex, certIndex>> BigNats (kind ptr)                          *)
(*   root  28 bytes, pl: payload (<<>>: none), mg: <<magic>> or <<>> (kind byron)   *)
EXTENDS Cbor, TextCode, Prim
NoAddr == [kind |-> "none", net |-> 0, pay |-> <<>>, stake |-> <<>>, ptr |-> <<>>, root |-> <<>>, pl |-> <<>>, mg |-> <<>>]
BaseA(net, pay, stake) == [NoAddr EXCEPT !.kind = "base", !.net = net, !.pay = pay, !.stake = stake]
EntA(net, pay) == [NoAddr EXCEPT !.kind = "ent", !.net = net, !.pay = pay]
PtrA(net, pay, ptr) == [NoAddr EXCEPT !.kind = "ptr", !.net = net, !.pay = pay, !.ptr = ptr]
RewA(net, stake) == [NoAddr EXCEPT !.kind = "rew", !.net = net, !.stake = stake]
ByronA(root, pl, mg) == [NoAddr EXCEPT !.kind = "byron", !.net = (IF mg = <<>> THEN 1 ELSE 0), !.root = root, !.pl = pl, !.mg = mg]
MagicOf(net) == IF net = 1 THEN <<45, 150, 74, 9>> ELSE <<65, 112, 203, 23>>   \* 764824073, 1097911063

\* variable-length naturals: big-endian base 128, continuation bit on all but the last byte
RECURSIVE Groups128(_)
Groups128(n) == IF n = <<>> THEN <<>> ELSE LET q == DivI(n, 128) IN Append(Groups128(q[1]), q[2])
Nat128(n) == IF n = <<>> THEN <<0>> ELSE LET g == Groups128(n) IN [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]
\* [ok, n, used]: the number at the start of d; not ok if unterminated or beyond 64 bits
ReadNat128(d) ==
  LET ends == {i \in 1..Len(d) : d[i] < 128}
      e == CHOOSE i \in ends : \A j \in ends : i <= j
      n == FoldLeft(LAMBDA acc, x : BAdd(BMulI(acc, 128), BN(x % 128)), <<>>, SubSeq(d, 1, e))
  IN IF ends = {} THEN [ok |-> FALSE, n |-> <<>>, used |-> 0]
     ELSE IF Len(n) > 8 THEN [ok |-> FALSE, n |-> <<>>, used |-> 0]
     ELSE [ok |-> TRUE, n |-> n, used |-> e]

ByronPayload(a) ==
  LET attrs == (IF a.pl = <<>> THEN <<>> ELSE <<<<1>> \o CBytes(a.pl)>>)
               \o (IF a.mg = <<>> THEN <<>> ELSE <<<<2>> \o CBytes(CUint(a.mg[1]))>>)
  IN CArr(<<CBytes(a.root), CHeadI(5, Len(attrs)) \o Concat(attrs), CUint(<<>>)>>)
ByronBytes(a) == LET p == ByronPayload(a) IN CArr(<<CTag(24, CBytes(p)), CUint(Norm(CRC32(p)))>>)
Encode(a) ==
  CASE a.kind = "base"  -> <<a.pay[1] * 16 + a.stake[1] * 32 + a.net>> \o a.pay[2] \o a.stake[2]
    [] a.kind = "ptr"   -> <<64 + a.pay[1] * 16 + a.net>> \o a.pay[2] \o Nat128(a.ptr[1]) \o Nat128(a.ptr[2]) \o Nat128(a.ptr[3])
    [] a.kind = "ent"   -> <<96 + a.pay[1] * 16 + a.net>> \o a.pay[2]
    [] a.kind = "rew"   -> <<224 + a.stake[1] * 16 + a.net>> \o a.stake[2]
    [] a.kind = "byron" -> ByronBytes(a)
Str_addr == <<97, 100, 100, 114>>
Str_stake == <<115, 116, 97, 107, 101>>
Str__test == <<95, 116, 101, 115, 116>>
Prefix(a) == (IF a.kind = "rew" THEN Str_stake ELSE Str_addr) \o (IF a.net = 0 THEN Str__test ELSE <<>>)
Text(a) == IF a.kind = "byron" THEN Base58(Encode(a)) ELSE Bech32(Prefix(a), Encode(a))
CborForm(a) == IF a.kind = "byron" THEN Encode(a) ELSE CBytes(Encode(a))

None == [ok |-> FALSE, a |-> NoAddr]
\* candidate address of a Byron byte string; validity is decided by re-encoding
ByronCand(d) ==
  LET o == DecodeAll(d)
      shape == /\ o.ok /\ o.v.t = "a" /\ Len(o.v.a) = 2
               /\ o.v.a[1].t = "tag" /\ o.v.a[1].v.t = "b" /\ o.v.a[2].t = "u"
      i == DecodeAll(o.v.a[1].v.b)
      ishape == /\ i.ok /\ i.v.t = "a" /\ Len(i.v.a) = 3 /\ i.v.a[1].t = "b" /\ Len(i.v.a[1].b) = 28 /\ i.v.a[2].t = "m"
      kv == i.v.a[2].kv
      attr(k) == LET js == {j \in 1..Len(kv) : kv[j].k.t = "u" /\ kv[j].k.n = BN(k) /\ kv[j].v.t = "b"}
                 IN IF js = {} THEN <<>> ELSE kv[CHOOSE j \in js : TRUE].v.b
      m == DecodeAll(attr(2))
      mg == IF attr(2) = <<>> \/ ~m.ok THEN <<>> ELSE IF m.v.t = "u" /\ Len(m.v.n) <= 4 THEN <<m.v.n>> ELSE <<>>
  IN IF ~shape THEN None ELSE IF ~ishape THEN None
     ELSE [ok |-> TRUE, a |-> ByronA(i.v.a[1].b, attr(1), mg)]
\* Parse(d): the address whose bytes are d, if there is one
Parse(d) ==
  LET h == d[1]  net == h % 16  k == h \div 16
      cred(bit, from) == <<(h \div bit) % 2, SubSeq(d, from, from + 27)>>
      cand == CASE k \in 0..3 /\ Len(d) = 57 /\ net \in {0, 1} -> [ok |-> TRUE, a |-> BaseA(net, cred(16, 2), cred(32, 30))]
                [] k \in 6..7 /\ Len(d) = 29 /\ net \in {0, 1} -> [ok |-> TRUE, a |-> EntA(net, cred(16, 2))]
                [] k \in 14..15 /\ Len(d) = 29 /\ net \in {0, 1} -> [ok |-> TRUE, a |-> RewA(net, cred(16, 2))]
                [] k \in 4..5 /\ Len(d) >= 32 /\ net \in {0, 1} ->
                     LET n1 == ReadNat128(SubSeq(d, 30, Len(d)))
                         n2 == ReadNat128(SubSeq(d, 30 + n1.used, Len(d)))
                         n3 == ReadNat128(SubSeq(d, 30 + n1.used + n2.used, Len(d)))
                     IN IF n1.ok /\ n2.ok /\ n3.ok THEN [ok |-> TRUE, a |-> PtrA(net, cred(16, 2), <<n1.n, n2.n, n3.n>>)] ELSE None
                [] k = 8 -> ByronCand(d)
                [] OTHER -> None
  IN IF d = <<>> THEN None ELSE IF ~cand.ok THEN None
     ELSE IF Encode(cand.a) = d THEN cand ELSE None
\* ParseText(t): the address whose text is t, if there is one
ParseText(t) ==
  LET b == Bech32Shape(t)
      r == Parse(b.b)
      c == Base58Decode(t)
      q == Parse(c.b)
  IN IF b.ok /\ r.ok /\ Text(r.a) = t THEN r
     ELSE IF c.ok /\ q.ok /\ q.a.kind = "byron" /\ Text(q.a) = t THEN q
     ELSE None
ParseHex(t) == LET h == HexDecode(t) IN IF h.ok THEN Parse(h.b) ELSE None
ToEnt(a) == EntA(a.net, a.pay)
ToRew(a) == RewA(a.net, a.stake)
=================================================================================
