---------------------------------- MODULE Keys ----------------------------------
(* Extended keys: master keys (Icarus, ledger style), BIP32-Ed25519 V2 derivation,  *)
(* public keys. A private key is 96 bytes: left half, right half, chain code.       *)
EXTENDS Ed25519
\* all bits of the two bytes but the five clamped ones stay
Force3rd(k) == [k EXCEPT ![1] = (@ \div 8) * 8, ![32] = (@ % 32) + 64]
Icarus(entropy, pw) == Force3rd(PBKDF512(pw, entropy, 4096, 96))
LedgerOk(seed) == Len(seed) = 32
Ledger(seed) == Force3rd(SHA512(seed)) \o SHA256(<<1>> \o seed)
KL(k) == SubSeq(k, 1, 32)
KR(k) == SubSeq(k, 33, 64)
CC(k) == SubSeq(k, 65, 96)
\* idx: 4 bytes, big endian
Hardened(idx) == idx[1] >= 128
Public(k) == PublicKey(KL(k)) \o CC(k)
Low256(n) == Pad(n, 32)
Derive(k, idx) ==
  LET data == IF Hardened(idx) THEN SubSeq(k, 1, 64) ELSE PublicKey(KL(k))
      ztag == IF Hardened(idx) THEN 0 ELSE 2
      z == HMAC512(CC(k), <<ztag>> \o data \o Rev(idx))
      c == HMAC512(CC(k), <<ztag + 1>> \o data \o Rev(idx))
      left == BAdd(FromLE(KL(k)), BMulI(FromLE(SubSeq(z, 1, 28)), 8))       \* modulo 2^256
      right == BAdd(FromLE(KR(k)), FromLE(SubSeq(z, 33, 64)))              \* modulo 2^256
  IN Rev(Low256(left)) \o Rev(Low256(right)) \o SubSeq(c, 33, 64)
\* soft derivation on the public side
DerivePub(xpub, idx) ==
  LET pk == SubSeq(xpub, 1, 32)
      z == HMAC512(SubSeq(xpub, 33, 64), <<2>> \o pk \o Rev(idx))
      c == HMAC512(SubSeq(xpub, 33, 64), <<3>> \o pk \o Rev(idx))
      p == PAdd(Decompress(pk).p, MulBase(BMulI(FromLE(SubSeq(z, 1, 28)), 8)))
  IN Compress(p) \o SubSeq(c, 33, 64)
Sign(k, msg) == SignExt(KL(k), KR(k), msg)
KeyHash(pk) == Blake2b(28, pk)
=================================================================================
