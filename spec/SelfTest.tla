-------------------------------- MODULE SelfTest --------------------------------
(* Known answers for the primitives and for the TLA+ definitions on top of them.  *)
EXTENDS Ed25519, TLC
A(s) == [i \in 1..Len(s) |-> s[i]]
abc == <<97, 98, 99>>
RFC_SK_HASH == SHA512(<<157,97,177,157,239,253,90,96,186,132,74,244,146,236,44,196,68,73,197,105,123,50,105,25,112,59,172,3,28,174,127,96>>)
Clamp(h) == [h EXCEPT ![1] = (@ \div 8) * 8, ![32] = (@ % 64) + 64]
K == Clamp(SubSeq(RFC_SK_HASH, 1, 32))
KR == SubSeq(RFC_SK_HASH, 33, 64)
PK == <<215,90,152,1,130,177,10,183,213,75,254,211,201,100,7,58,14,225,114,243,218,166,35,37,175,2,26,104,247,7,81,26>>
ASSUME PublicKey(K) = PK
ASSUME LET s == SignExt(K, KR, <<>>) IN
         /\ SubSeq(s, 1, 4) = <<229, 86, 67, 0>> /\ s[64] = 11
         /\ Verify(PK, <<>>, s) /\ JdkEdVerify(PK, <<>>, s)
         /\ ~Verify(PK, <<1>>, s) /\ ~Verify(PK, <<>>, [s EXCEPT ![40] = (@ + 1) % 256])
ASSUME SubSeq(SHA256(abc), 1, 4) = <<186, 120, 22, 191>>
ASSUME SubSeq(SHA512(abc), 1, 4) = <<221, 175, 53, 161>>
ASSUME SubSeq(Blake2b(64, abc), 1, 4) = <<186, 128, 165, 63>>
ASSUME Blake2b(32, <<>>) = <<14,87,81,192,38,229,67,178,232,171,46,176,96,153,218,161,209,229,223,71,119,143,119,135,250,171,69,205,241,47,227,168>>
ASSUME SubSeq(PBKDF512(<<112,97,115,115,119,111,114,100>>, <<115,97,108,116>>, 1, 64), 1, 4) = <<134, 127, 112, 207>>
ASSUME CRC32(<<49,50,51,52,53,54,55,56,57>>) = <<203, 244, 57, 38>>
ASSUME BAdd(<<255,255>>, <<1>>) = <<1,0,0>> /\ BSub(<<1,0,0>>, <<1>>) = <<255,255>> /\ BMulI(<<255,255>>, 44) = BN(65535*44)
ASSUME MulBase(L) = MulBase(<<>>) \/ Compress(MulBase(L)) = Compress(Ident)
ASSUME Decompress(PK).ok /\ Compress(Decompress(PK).p) = PK
ASSUME PrintT("ok")
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=================================================================================
