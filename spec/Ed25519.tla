--------------------------------- MODULE Ed25519 --------------------------------
(* The field, the twisted Edwards curve -x^2 + y^2 = 1 + d x^2 y^2, the scalars   *)
(* and the signature scheme of Ed25519 (RFC 8032), for extended private keys.     *)
EXTENDS BigNat, Prim, Bitwise
P == BSub(<<128>> \o Zeros(31), BN(19))                                      \* 2^255 - 19
L == BAdd(<<16>> \o Zeros(31),                                               \* 2^252 + 277...493
          <<20,222,249,222,162,247,156,214,88,18,99,26,92,245,211,237>>)
FAdd(a, b) == MAdd(a, b, P)
FSub(a, b) == MSub(a, b, P)
FMul(a, b) == MMul(a, b, P)
FInv(a) == MPow(a, BSub(P, BN(2)), P)
FNeg(a) == MSub(<<>>, a, P)
DConst == FMul(FNeg(BN(121665)), FInv(BN(121666)))
SqrtM1 == MPow(BN(2), Norm(<<31>> \o [i \in 1..30 |-> 255] \o <<251>>), P)   \* 2^((p-1)/4)
Odd(a) == Dig(a, 1) % 2 = 1
\* points in extended coordinates <<X, Y, Z, T>>
Ident == <<<<>>, BN(1), BN(1), <<>>>>
PAdd(p, q) ==
  LET a == FMul(FSub(p[2], p[1]), FSub(q[2], q[1]))
      b == FMul(FAdd(p[2], p[1]), FAdd(q[2], q[1]))
      c == FMul(FMul(FMul(p[4], q[4]), DConst), BN(2))
      d == FMul(FMul(p[3], q[3]), BN(2))
      e == FSub(b, a)  f == FSub(d, c)  g == FAdd(d, c)  h == FAdd(b, a)
  IN <<FMul(e, f), FMul(g, h), FMul(f, g), FMul(e, h)>>
PNeg(p) == <<FNeg(p[1]), p[2], p[3], FNeg(p[4])>>
Bit(n, i) == (Dig(n, (i \div 8) + 1) \div (2 ^ (i % 8))) % 2                  \* bit i of n
ScalarMul(n, p) ==                                                           \* double and add
  LET step(acc, i) == LET dbl == PAdd(acc, acc) IN IF Bit(n, i) = 1 THEN PAdd(dbl, p) ELSE dbl
      m == 8 * Len(n)
  IN FoldLeft(step, Ident, [k \in 1..m |-> m - k])
\* 32-byte little-endian encoding: y with the sign of x in the top bit
Compress(p) == LET zi == FInv(p[3])  x == FMul(p[1], zi)  y == FMul(p[2], zi)
                   le == ToLE(y, 32)
               IN IF Odd(x) THEN [le EXCEPT ![32] = @ + 128] ELSE le
\* decoding as ref10 does it: y is taken modulo p, the sign bit selects the root (x = 0 allows both)
Decompress(b) ==
  LET sign == b[32] \div 128
      y == MMod(FromLE([b EXCEPT ![32] = @ % 128]), P)
      yy == FMul(y, y)
      u == FSub(yy, BN(1))
      v == FAdd(FMul(yy, DConst), BN(1))
      v3 == FMul(FMul(v, v), v)
      v7 == FMul(FMul(v3, v3), v)
      e == Norm(<<15>> \o [i \in 1..30 |-> 255] \o <<253>>)                     \* (p-5)/8
      x0 == FMul(FMul(u, v3), MPow(FMul(u, v7), e, P))
      chk == FMul(FMul(x0, x0), v)
      x1 == IF chk = u THEN x0 ELSE FMul(x0, SqrtM1)
      ok == chk = u \/ chk = FNeg(u)
      x == IF (IF Odd(x1) THEN 1 ELSE 0) # sign THEN FNeg(x1) ELSE x1
  IN [ok |-> ok, p |-> <<x, y, BN(1), FMul(x, y)>>]
BasePoint == LET r == Decompress(<<88>> \o [i \in 1..31 |-> 102]) IN r.p
MulBase(n) == ScalarMul(n, BasePoint)
\* scalars: 32-byte little endian
ScReduce(b) == ToLE(MMod(FromLE(b), L), 32)
ScMulAdd(a, b, c) == ToLE(MAdd(MMul(FromLE(a), FromLE(b), L), FromLE(c), L), 32)
ScMinimal(b) == BLt(FromLE(b), L)
\* kl, kr: the two halves of an extended private key
PublicKey(kl) == Compress(MulBase(FromLE(kl)))
SignExt(kl, kr, msg) ==
  LET pk == PublicKey(kl)
      r == ScReduce(SHA512(kr \o msg))
      R == Compress(MulBase(FromLE(r)))
      h == ScReduce(SHA512(R \o pk \o msg))
  IN R \o ScMulAdd(h, kl, r)
Verify(pk, msg, sig) ==
  LET A == Decompress(pk)
      h == ScReduce(SHA512(SubSeq(sig, 1, 32) \o pk \o msg))
      s == SubSeq(sig, 33, 64)
  IN /\ Len(sig) = 64 /\ Len(pk) = 32 /\ A.ok /\ ScMinimal(s)
     /\ Compress(PAdd(MulBase(FromLE(s)), ScalarMul(FromLE(h), PNeg(A.p)))) = SubSeq(sig, 1, 32)
=================================================================================
