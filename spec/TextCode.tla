-------------------------------- MODULE TextCode --------------------------------
(* Bech32 (BIP 173, without its length limit), base58 (Bitcoin alphabet), hex.     *)
(* Texts are sequences of character codes.                                        *)
EXTENDS BigNat, Bitwise
Index(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
\* qpzry9x8gf2tvdw0s3jn54khce6mua7l
B32 == <<113,112,122,114,121,57,120,56,103,102,50,116,118,100,119,48,115,51,106,110,53,52,107,104,99,101,54,109,117,97,55,108>>
B32Inv == [c \in 0..255 |-> Index(B32, c) - 1]
PolyStep(chk, v) ==
  LET top == chk \div 33554432                            \* 2^25
      c == ((chk % 33554432) * 32) ^^ v
      c0 == IF top % 2 = 1 THEN c ^^ 996825010 ELSE c
      c1 == IF (top \div 2) % 2 = 1 THEN c0 ^^ 642813549 ELSE c0
      c2 == IF (top \div 4) % 2 = 1 THEN c1 ^^ 513874426 ELSE c1
      c3 == IF (top \div 8) % 2 = 1 THEN c2 ^^ 1027748829 ELSE c2
  IN IF (top \div 16) % 2 = 1 THEN c3 ^^ 705979059 ELSE c3
PolyMod(vs) == FoldLeft(PolyStep, 1, vs)
HrpExpand(hrp) == [i \in 1..Len(hrp) |-> hrp[i] \div 32] \o <<0>> \o [i \in 1..Len(hrp) |-> hrp[i] % 32]
\* 8-bit groups to 5-bit groups, zero padded
To5(b) ==
  LET step(acc, x) ==                                      \* acc: <<value, bits, out>>
        LET v == acc[1] * 256 + x  n == acc[2] + 8
        IN IF n >= 10 THEN <<v % (2 ^ (n - 10)), n - 10, acc[3] \o <<v \div (2 ^ (n - 5)), (v \div (2 ^ (n - 10))) % 32>>>>
                      ELSE <<v % (2 ^ (n - 5)), n - 5, Append(acc[3], v \div (2 ^ (n - 5)))>>
      r == FoldLeft(step, <<0, 0, <<>>>>, b)
  IN IF r[2] = 0 THEN r[3] ELSE Append(r[3], r[1] * (2 ^ (5 - r[2])))
\* whole bytes contained in 5-bit groups; what is left over is dropped
To8(g) ==
  LET step(acc, x) ==
        LET v == acc[1] * 32 + x  n == acc[2] + 5
        IN IF n >= 8 THEN <<v % (2 ^ (n - 8)), n - 8, Append(acc[3], v \div (2 ^ (n - 8)))>> ELSE <<v, n, acc[3]>>
  IN FoldLeft(step, <<0, 0, <<>>>>, g)[3]
Bech32(hrp, b) ==
  LET g == To5(b)
      pm == PolyMod(HrpExpand(hrp) \o g \o <<0, 0, 0, 0, 0, 0>>) ^^ 1
      chk == [i \in 1..6 |-> (pm \div (2 ^ (5 * (6 - i)))) % 32]
  IN hrp \o <<49>> \o [i \in 1..Len(g) |-> B32[g[i] + 1]] \o [i \in 1..6 |-> B32[chk[i] + 1]]
\* The bytes a text in bech32 shape would stand for, its checksum and padding unchecked:
\* a text is valid bech32 exactly if encoding hrp and bytes gives the text again.
Bech32Shape(t) ==
  LET seps == {i \in 1..Len(t) : t[i] = 49}
      s == CHOOSE i \in seps : \A j \in seps : j <= i
      body == SubSeq(t, s + 1, Len(t))
      ok == seps # {} /\ s > 1 /\ Len(t) - s >= 6 /\ \A i \in 1..Len(body) : body[i] \in 0..255 /\ B32Inv[body[i]] >= 0
  IN IF ~ok THEN [ok |-> FALSE, hrp |-> <<>>, b |-> <<>>]
     ELSE [ok |-> TRUE, hrp |-> SubSeq(t, 1, s - 1),
           b |-> To8([i \in 1..(Len(body) - 6) |-> B32Inv[body[i]]])]

\* 123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz
B58 == [i \in 1..9 |-> 48 + i] \o [i \in 1..8 |-> 64 + i] \o [i \in 1..5 |-> 73 + i] \o [i \in 1..11 |-> 79 + i]
       \o [i \in 1..11 |-> 96 + i] \o [i \in 1..14 |-> 108 + i]
B58Inv == [c \in 0..255 |-> Index(B58, c) - 1]
\* division of a BigNat by a small number: <<quotient, remainder>>
DivI(a, k) == LET r == FoldLeft(LAMBDA acc, x : LET v == acc[2] * 256 + x IN <<Append(acc[1], v \div k), v % k>>, <<<<>>, 0>>, a)
              IN <<Norm(r[1]), r[2]>>
LeadZeros(s, z) == LET nz == {i \in 1..Len(s) : s[i] # z} IN IF nz = {} THEN Len(s) ELSE (CHOOSE i \in nz : \A j \in nz : i <= j) - 1
RECURSIVE B58Digits(_)
B58Digits(n) == IF n = <<>> THEN <<>> ELSE LET q == DivI(n, 58) IN Append(B58Digits(q[1]), B58[q[2] + 1])
Base58(b) == [i \in 1..LeadZeros(b, 0) |-> 49] \o B58Digits(Norm(b))
Base58Decode(t) ==
  LET ok == \A i \in 1..Len(t) : t[i] \in 0..255 /\ B58Inv[t[i]] >= 0
  IN IF ~ok THEN [ok |-> FALSE, b |-> <<>>]
     ELSE [ok |-> TRUE, b |-> Zeros(LeadZeros(t, 49)) \o FoldLeft(LAMBDA acc, c : BAdd(BMulI(acc, 58), BN(B58Inv[c])), <<>>, t)]

HexDigit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
HexDecode(t) ==
  IF Len(t) % 2 = 1 \/ \E i \in 1..Len(t) : HexDigit(t[i]) < 0 THEN [ok |-> FALSE, b |-> <<>>]
  ELSE [ok |-> TRUE, b |-> [i \in 1..(Len(t) \div 2) |-> 16 * HexDigit(t[2 * i - 1]) + HexDigit(t[2 * i])]]
HexEncode(b) == [i \in 1..(2 * Len(b)) |->
                   LET n == IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16
                   IN IF n < 10 THEN 48 + n ELSE 87 + n]
=================================================================================
