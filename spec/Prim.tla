---------------------------------- MODULE Prim ----------------------------------
(* Primitives of the specification: hash functions and modular arithmetic on     *)
(* byte sequences (sequences of 0..255, numbers big-endian and without leading   *)
(* zeros, so that zero is <<>>). They are left abstract here; TLC evaluates them  *)
(* with java/Prim.java. Everything else in this directory is defined in TLA+.     *)
EXTENDS Naturals, Sequences
Byte == 0..255
Bytes == Seq(Byte)
LOCAL Abstract(n) == CHOOSE f \in [Bytes -> Bytes] : \A x \in Bytes : Len(f[x]) = n
Ascii(str) == CHOOSE b \in Bytes : TRUE          \* the bytes of a string
SHA256(m) == Abstract(32)[m]
SHA512(m) == Abstract(64)[m]
HMAC512(k, m) == Abstract(64)[k \o m]
PBKDF512(pw, salt, iter, len) == Abstract(len)[pw \o salt]
Blake2b(n, m) == Abstract(n)[m]
CRC32(m) == Abstract(4)[m]
MMod(a, m) == CHOOSE x \in Bytes : TRUE          \* a mod m
MAdd(a, b, m) == CHOOSE x \in Bytes : TRUE       \* a + b mod m
MSub(a, b, m) == CHOOSE x \in Bytes : TRUE       \* a - b mod m
MMul(a, b, m) == CHOOSE x \in Bytes : TRUE       \* a * b mod m
MPow(a, e, m) == CHOOSE x \in Bytes : TRUE       \* a ^ e mod m
JdkEdVerify(pk, msg, sig) == CHOOSE x \in BOOLEAN : TRUE
=================================================================================
