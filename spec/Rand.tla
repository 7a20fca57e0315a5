---------------------------------- MODULE Rand ----------------------------------
(* Reproducible choices for the scenario generators: everything follows from SEED,    *)
(* the scenario's number k and a tag.                                              *)
EXTENDS Prim, BigNat, TLC, IOUtils
Seed == Ascii(IF "SEED" \in DOMAIN IOEnv THEN IOEnv.SEED ELSE "1")
RBytes(k, tag, n) ==                                      \* n pseudo-random bytes, n <= 64
  Blake2b(n, Seed \o <<0>> \o BN(k) \o <<0>> \o tag)
RInt(k, tag, n) == LET b == RBytes(k, tag, 3) IN (b[1] * 65536 + b[2] * 256 + b[3]) % n
RPick(k, tag, s) == s[RInt(k, tag, Len(s)) + 1]
RBig(k, tag) == LET n == RInt(k, tag \o <<1>>, 8) IN Norm(RBytes(k, tag, n + 1))    \* numbers of all sizes up to 64 bits
Tag(name, j) == Ascii(name) \o <<0>> \o BN(j)
=================================================================================
