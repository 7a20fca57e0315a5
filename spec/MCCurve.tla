---------------------------------- MODULE MCCurve -------------------------------
(* The laws of the field, of the scalars and of the curve over edge values: the field     *)
(* elements where limbs and the prime wrap, points of small order, the base point and       *)
(* sums of them, scalars around the order. With EMIT set every combination met is a           *)
(* scenario for the implementation's arithmetic.                                          *)
EXTENDS Ed25519, TLC, Json, IOUtils
CONSTANTS Parts, NF, NP, NS
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES part, x, y, z
vars == <<part, x, y, z>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE BMulI(Pow2(k - 1), 2)
M1(a) == BSub(a, <<1>>)
\* numbers below 2^255 whose low 255 bits are the field element
Fields == <<<<>>, <<1>>, <<2>>, <<18>>, <<19>>, P, M1(P), BAdd(P, <<1>>), BAdd(P, <<18>>), Pow2(254), M1(Pow2(254)), Pow2(25), M1(Pow2(26)), Pow2(51), M1(Pow2(102)), Pow2(127), M1(Pow2(128)),
            M1(Pow2(153)), Pow2(204), Pow2(230), Norm(SHA256(<<1>>) \o <<>>), SqrtM1, DConst, FNeg(SqrtM1), M1(Pow2(255))>>
FE(n) == LET b == ToLE(Fields[n], 32) IN [b EXCEPT ![32] = @ % 128]
Val(b) == MMod(FromLE([b EXCEPT ![32] = @ % 128]), P)
\* points: of small order, the base point, their sums
Torsion8 == Decompress(<<199, 23, 106, 112, 61, 77, 216, 79, 186, 60, 11, 118, 13, 16, 103, 15, 42, 32, 83, 250, 44, 57, 204, 198, 78, 199, 253, 119, 146, 172, 3, 122>>).p
Points == <<Ident, ScalarMul(<<4>>, Torsion8), ScalarMul(<<2>>, Torsion8), Torsion8, ScalarMul(<<3>>, Torsion8), BasePoint, PNeg(BasePoint), PAdd(BasePoint, Torsion8),
            MulBase(<<8>>), MulBase(SHA256(<<7>>)), PAdd(MulBase(<<3>>), ScalarMul(<<4>>, Torsion8))>>
\* little endian, 32 bytes
Scalars == <<<<>>, <<1>>, <<2>>, <<8>>, M1(L), L, BAdd(L, <<1>>), Pow2(252), M1(Pow2(252)), M1(Pow2(255)), Pow2(254), Pow2(128), M1(Pow2(64)), BMulI(L, 2), BMulI(L, 15), Norm(SHA256(<<3>>)),
             M1(Pow2(256)), BMulI(L, 7), M1(BMulI(L, 8))>>
SC(n) == ToLE(Scalars[n], 32)
Sum(p, q) == Compress(PAdd(p, q))
Init == /\ part \in Parts /\ z = 1
        /\ x \in 1..(CASE part = "field" -> NF [] part = "point" -> NP [] part = "mul" -> NP [] part = "scalar" -> NS)
        /\ y \in 1..(CASE part = "field" -> NF [] part = "point" -> NP [] part = "mul" -> NS [] part = "scalar" -> NS)
Last3 == CASE part = "field" -> NF [] part = "point" -> NP [] part = "mul" -> NS [] part = "scalar" -> NS
Next == z < Last3 /\ z' = z + 1 /\ UNCHANGED <<part, x, y>>
Spec == Init /\ [][Next]_vars
FieldLaws == part = "field" =>
  LET a == Val(FE(x))  b == Val(FE(y))  c == Val(FE(z)) IN
  /\ FMul(a, FMul(b, c)) = FMul(FMul(a, b), c) /\ FMul(a, FAdd(b, c)) = FAdd(FMul(a, b), FMul(a, c))
  /\ FAdd(a, FNeg(a)) = <<>> /\ FSub(a, b) = FAdd(a, FNeg(b)) /\ (a = <<>> \/ FMul(a, FInv(a)) = <<1>>)
PointLaws == part = "point" =>
  LET p == Points[x]  q == Points[y]  r == Points[z] IN
  /\ Sum(PAdd(p, q), r) = Sum(p, PAdd(q, r)) /\ Sum(p, q) = Sum(q, p)
  /\ Sum(p, PNeg(p)) = Compress(Ident) /\ Sum(p, Ident) = Compress(p)
  /\ Decompress(Compress(p)).ok /\ Compress(Decompress(Compress(p)).p) = Compress(p)
MulLaws == part = "mul" =>
  LET p == Points[x]  a == Scalars[y]  b == Scalars[z] IN
  Sum(ScalarMul(a, p), ScalarMul(b, p)) = Compress(ScalarMul(BAdd(a, b), p))
ScalarLaws == part = "scalar" =>
  LET a == SC(x)  b == SC(y)  c == SC(z) IN
  /\ ScMinimal(ScMulAdd(a, b, c)) /\ ScMulAdd(a, b, c) = ScMulAdd(b, a, c)
  /\ ScMulAdd(a, b, c) = ScReduce(ToLE(MAdd(MMul(Scalars[x], Scalars[y], L), Scalars[z], L), 64))
  /\ (ScMinimal(a) <=> ScReduce(a \o Zeros(32)) = a)
Op(name, a, b, c) == [op |-> name, x |-> a, y |-> b, z |-> c]
Names == <<"fe", "feadd", "fesub", "femul", "femix", "fesq", "fesqs", "fesq2", "feneg", "feflags">>
Ops == CASE part = "field" -> IF z > 1 THEN <<>> ELSE [j \in 1..10 |-> Op(Names[j], FE(x), FE(y), <<>>)] \o (IF y = 1 THEN <<Op("feinv", FE(x), <<>>, <<>>)>> ELSE <<>>)
         [] part = "point" -> IF z > 1 \/ y > 1 THEN <<>> ELSE LET c == Compress(Points[x]) IN <<Op("point", c, <<>>, <<>>), Op("double", c, <<>>, <<>>)>>
         [] part = "mul" -> IF ScMinimal(SC(y)) /\ ScMinimal(SC(z)) THEN <<Op("dsm", SC(y), SC(z), Compress(Points[x]))>> ELSE <<>>
         [] part = "scalar" -> <<Op("scmuladd", SC(x), SC(y), SC(z))>> \o (IF z = 1 THEN <<Op("screduce", SC(x) \o SC(y), <<>>, <<>>)>> ELSE <<>>)
                               \o (IF z = 1 /\ y = 1 THEN <<Op("scminimal", SC(x), <<>>, <<>>)>> \o (IF SC(x)[32] < 128 THEN <<Op("mulbase", SC(x), <<>>, <<>>)>> ELSE <<>>) ELSE <<>>)
Emit == IF Emitting /\ Ops # <<>> THEN PrintT("SCEN " \o ToJson([area |-> "ed", ops |-> Ops])) ELSE TRUE
=================================================================================
