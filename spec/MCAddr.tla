---------------------------------- MODULE MCAddr --------------------------------
(* The life of an address on its way: made, put into bytes, hex or text, perhaps       *)
(* damaged, and read again. Checked: what arrives undamaged is the same address; what    *)
(* arrives damaged is never taken for text of an address (C03), and bytes are only       *)
(* accepted as the address that has these bytes (C04); no two addresses share bytes or    *)
(* text (C01, C02). With EMIT set, what arrives is the scenario for the implementation.   *)
EXTENDS Address, TLC, Json, IOUtils
CONSTANTS Kinds, Nets, Hashes, Nums, Vias, Damages, EveryPos
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES a, via, wire, dmg, got
vars == <<a, via, wire, dmg, got>>
\* hashes are named by numbers
Hash(n) == CASE n = 0 -> Zeros(28) [] n = 1 -> [i \in 1..28 |-> 255] [] n = 2 -> [i \in 1..28 |-> (37 * i) % 256]
             [] n = 3 -> [i \in 1..28 |-> IF i = 28 THEN 1 ELSE 0] [] OTHER -> SubSeq(SHA256(<<n>>), 1, 28)
Num(n) == CASE n = 0 -> <<>> [] n = 1 -> <<1>> [] n = 2 -> <<127>> [] n = 3 -> <<128>> [] n = 4 -> <<63, 255>> [] n = 5 -> <<64, 0>>
            [] n = 6 -> <<255, 255, 255, 255>> [] n = 7 -> <<127, 255, 255, 255, 255, 255, 255, 255>> [] n = 8 -> [i \in 1..8 |-> 255]
Creds == {<<k, Hash(n)>> : k \in {0, 1}, n \in Hashes}
Pls == {<<>>, <<0>>, [i \in 1..30 |-> i]}
Mgs == {<<>>, <<<<>>>>, <<<<65, 112, 203, 23>>>>, <<<<255, 255, 255, 255>>>>}
Addrs(kind) ==
  CASE kind = "base" -> {BaseA(n, p, s) : n \in Nets, p \in Creds, s \in Creds}
    [] kind = "ent" -> {EntA(n, p) : n \in Nets, p \in Creds}
    [] kind = "rew" -> {RewA(n, s) : n \in Nets, s \in Creds}
    [] kind = "ptr" -> {PtrA(n, p, <<Num(x), Num(y), Num(z)>>) : n \in Nets, p \in Creds, x \in Nums, y \in Nums, z \in Nums}
    [] kind = "byron" -> {ByronA(Hash(n), pl, mg) : n \in Hashes, pl \in Pls, mg \in Mgs}
Put(x, v) == CASE v = "bytes" -> Encode(x) [] v = "hex" -> HexEncode(Encode(x)) [] v = "text" -> Text(x)
Take(w, v) == CASE v = "bytes" -> Parse(w) [] v = "hex" -> ParseHex(w) [] v = "text" -> ParseText(w)
Init == /\ \E k \in Kinds : a \in Addrs(k)
        /\ via \in Vias /\ wire = Put(a, via) /\ dmg = "no" /\ got = <<>>
\* ---- damage
Set(p, c) == [wire EXCEPT ![p] = c]
Cut(p) == SubSeq(wire, 1, p - 1) \o SubSeq(wire, p + 1, Len(wire))
Ins(p, c) == SubSeq(wire, 1, p - 1) \o <<c>> \o SubSeq(wire, p, Len(wire))
Alphabet == IF via = "hex" THEN {48, 102, 103} ELSE IF a.kind = "byron" THEN {B58[i] : i \in 1..58} ELSE {B32[i] : i \in 1..32}
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Positions == IF EveryPos THEN 1..Len(wire) ELSE {p \in 1..Len(wire) : p < 8 \/ p > Len(wire) - 8 \/ p % 9 = 0}
\* another prefix, with the right checksum for it
Relabelled == IF a.kind = "byron" \/ via # "text" THEN {}
              ELSE {Bech32(h, Encode(a)) : h \in {Str_addr, Str_stake, Str_addr \o Str__test, Str_stake \o Str__test, <<97>>, Str_addr \o <<49>>}}
\* the right prefix and checksum, but more than the bytes: padding that is not zero, or a group too many
Padded == IF a.kind = "byron" \/ via # "text" THEN {}
          ELSE LET g == To5(Encode(a))
                   with(h, x) == LET pm == PolyMod(HrpExpand(h) \o x \o <<0, 0, 0, 0, 0, 0>>) ^^ 1
                                 IN h \o <<49>> \o [i \in 1..Len(x) |-> B32[x[i] + 1]] \o [i \in 1..6 |-> B32[((pm \div (2 ^ (5 * (6 - i)))) % 32) + 1]]
                   h == Prefix(a)
               IN (IF (8 * Len(Encode(a))) % 5 = 0 THEN {} ELSE {with(h, [g EXCEPT ![Len(g)] = @ + x]) : x \in {1, 2, 3}}) \cup {with(h, Append(g, x)) : x \in {0, 1, 31}} \cup {with(h, Front(g))}
Damaged(d) ==
  CASE d = "sub" -> {Set(p, c) : p \in Positions, c \in Alphabet}
    [] d = "byte" -> {Set(p, c) : p \in Positions, c \in {0, 1, 32, 45, 48, 49, 76, 98, 105, 111, 127, 128, 255}}
    [] d = "del" -> {Cut(p) : p \in Positions}
    [] d = "ins" -> {Ins(p, c) : p \in Positions \cup {Len(wire) + 1}, c \in {113, 108, 49, 48}}
    [] d = "dup" -> {Ins(p, wire[p]) : p \in Positions}
    [] d = "swap" -> {[wire EXCEPT ![p] = wire[p + 1], ![p + 1] = wire[p]] : p \in Positions \ {Len(wire)}}
    [] d = "case" -> {Set(p, Upper(wire[p])) : p \in Positions} \cup {[i \in 1..Len(wire) |-> Upper(wire[i])]}
    [] d = "label" -> Relabelled
    [] d = "pad" -> Padded
    [] d = "head" -> {Set(1, h) : h \in 0..255}
    [] d = "len" -> {SubSeq(wire, 1, n) : n \in 0..Len(wire)} \cup {wire \o <<0>>, wire \o <<128>>, wire \o <<1, 2, 3>>, wire \o wire}
    [] d = "bit" -> {Set(p, wire[p] ^^ (2 ^ b)) : p \in Positions, b \in 0..7}
    [] OTHER -> {}
Damage == /\ dmg = "no" /\ got = <<>>
          /\ \E d \in Damages : \E w \in Damaged(d) : w # wire /\ wire' = w /\ dmg' = d
          /\ UNCHANGED <<a, via, got>>
Receive == got = <<>> /\ got' = <<Take(wire, via)>> /\ UNCHANGED <<a, via, wire, dmg>>
Next == Damage \/ Receive
Spec == Init /\ [][Next]_vars
\* ---- what is checked
Arrives == got # <<>> /\ dmg = "no" => got[1].ok /\ got[1].a = a
Detected == got # <<>> /\ dmg # "no" /\ via = "text" => ~got[1].ok
SameBytes == got # <<>> /\ got[1].ok => Put(got[1].a, via) = wire \/ (via = "hex" /\ Put(got[1].a, via) = [i \in 1..Len(wire) |-> IF wire[i] \in 65..70 THEN wire[i] + 32 ELSE wire[i]])
Derives == a.kind = "base" => /\ ToEnt(a).pay = a.pay /\ ToRew(a).stake = a.stake /\ ToEnt(a).net = a.net /\ ToRew(a).net = a.net
                              /\ SubSeq(Encode(ToEnt(a)), 2, 29) = SubSeq(Encode(a), 2, 29) /\ SubSeq(Encode(ToRew(a)), 2, 29) = SubSeq(Encode(a), 30, 57)
Emit == IF Emitting /\ got # <<>>
        THEN PrintT("SCEN " \o ToJson([area |-> "addr", ops |-> (IF dmg = "no" THEN <<[op |-> "mk", dst |-> 1, a |-> a, nm |-> <<>>]>> ELSE <<>>)
                                                                 \o <<[op |-> "dec", via |-> via, dst |-> 2, data |-> wire]>>]))
        ELSE TRUE
=================================================================================
