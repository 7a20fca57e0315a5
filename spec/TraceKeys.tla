-------------------------------- MODULE TraceKeys -------------------------------
(* Trace validation of key derivation, signing and hashing against Keys.tla, and   *)
(* of the curve and scalar arithmetic against Ed25519.tla.                          *)
EXTENDS Keys, TLC, Json, IOUtils
PROP == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, m
vars == <<s, i, m>>
If(c, name) == IF c THEN {} ELSE {name}
TypedLen(t) == IF t \in {"Ed25519KeyHash", "ScriptHash", "GenesisDelegateHash", "GenesisHash"} THEN 28 ELSE 32
\* what op e has to return, m: key slots
Expect(e) ==
  CASE e.op = "icarus" -> Icarus(e.entropy, e.pw)
    [] e.op = "seed" -> Ledger(e.seed)
    [] e.op = "norm" -> Force3rd(e.k)
    [] e.op = "raw" -> e.k
    [] e.op = "derive" -> Derive(m[e.src], e.idx)
    [] e.op = "pub" -> Public(m[e.src])
    [] e.op = "sign" -> Sign(m[e.src], e.msg)
\* slots other than the one written are as the model has them
Kept(e) == \A k \in 1..Len(e.slots) :
              LET sl == e.slots[k] IN
              sl.i \in DOMAIN m /\ ("dst" \notin DOMAIN e \/ sl.i # e.dst) /\ (e.op # "scrib" \/ sl.i # e.src) => sl.k = m[sl.i]
HasSrc(e) == "src" \in DOMAIN e /\ e.src \in DOMAIN m
JudgeKey(e) ==
  CASE PROP = "C16" ->
         CASE e.op = "sign" /\ HasSrc(e) ->
                LET pk == PublicKey(KL(m[e.src])) IN
                If(e.r = "ok" /\ e.out = Expect(e), "signature")
                \cup If(e.r = "ok" /\ Len(e.out) = 64 /\ JdkEdVerify(pk, e.msg, e.out), "does not verify")
                \cup If(e.again = e.out, "not deterministic") \cup If(e.msg2 = e.msg, "message changed") \cup If(Kept(e), "key changed")
           [] OTHER -> {}
    [] PROP = "C17" ->
         CASE e.op = "derive" /\ HasSrc(e) -> If(e.r = "ok" /\ e.out = Expect(e), "derived key") \cup If(Kept(e), "another key changed")
           [] e.op = "pub" /\ HasSrc(e) ->
                LET x == Expect(e) IN
                If(e.r = "ok" /\ e.out = x, "public part") \cup If(e.pk = SubSeq(x, 1, 32) /\ e.mpk = e.pk, "public key")
                \cup If(e.pcc = CC(m[e.src]) /\ e.kcc = e.pcc, "chain code") \cup If(Kept(e), "a key changed")
           [] OTHER -> If(Kept(e), "another key changed")
    [] PROP = "C18" ->
         CASE e.op = "icarus" -> If(e.r = "ok" /\ e.out = Expect(e), "master key") \cup If(e.entropy2 = e.entropy /\ e.pw2 = e.pw, "input changed")
           [] e.op = "seed" -> (IF LedgerOk(e.seed) THEN If(e.r = "ok" /\ e.out = Expect(e), "master key") ELSE If(e.r = "err", "no error"))
                               \cup If(e.seed2 = e.seed, "input changed")
           [] e.op = "norm" -> If(e.r = "ok" /\ e.out = Expect(e), "clamping")
           [] OTHER -> {}
    [] PROP = "C19" ->
         CASE e.op = "hash224" -> If(e.r = "ok" /\ e.out = Blake2b(28, e.data), "digest") \cup If(e.data2 = e.data, "input changed")
           [] e.op = "hash256" -> If(e.r = "ok" /\ e.out = Blake2b(32, e.data), "digest") \cup If(e.data2 = e.data, "input changed")
           [] e.op = "pkhash" -> If(e.r = "ok" /\ e.out = KeyHash(e.data), "key hash")
           [] e.op = "typed" -> (IF Len(e.data) = TypedLen(e.typ) THEN If(e.r = "ok" /\ e.out = e.data, "not kept") ELSE If(e.r = "err", "wrong length accepted"))
                                \cup If(e.data2 = e.data, "input changed")
           [] OTHER -> {}

\* ---- C20
F(b) == MMod(FromLE([b EXCEPT ![32] = @ % 128]), P)      \* field element of 32 bytes, the top bit ignored
FOut(n) == ToLE(n, 32)
EdExpect(e) ==                                          \* <<ok, out>>
  LET x == e.x  y == e.y  z == e.z IN
  CASE e.op = "mulbase" -> <<TRUE, Compress(MulBase(FromLE(x)))>>
    [] e.op = "dsm" -> LET A == Decompress(z) IN
         IF A.ok THEN <<TRUE, Compress(PAdd(ScalarMul(FromLE(x), A.p), MulBase(FromLE(y))))>> ELSE <<FALSE, <<>>>>
    [] e.op = "point" -> LET A == Decompress(x) IN IF A.ok THEN <<TRUE, Compress(A.p)>> ELSE <<FALSE, <<>>>>
    [] e.op = "double" -> LET A == Decompress(x)  B == PAdd(A.p, A.p) IN
         IF A.ok THEN <<TRUE, Compress(B) \o Compress(B) \o Compress(PAdd(B, B))>> ELSE <<FALSE, <<>>>>
    [] e.op = "fe" -> <<TRUE, FOut(F(x))>>
    [] e.op = "feadd" -> <<TRUE, FOut(FAdd(F(x), F(y)))>>
    [] e.op = "fesub" -> <<TRUE, FOut(FSub(F(x), F(y)))>>
    [] e.op = "femul" -> <<TRUE, FOut(FMul(F(x), F(y)))>>
    [] e.op = "femix" -> <<TRUE, FOut(FMul(FAdd(F(x), F(y)), FSub(F(x), F(y))))>>
    [] e.op = "fesq" -> <<TRUE, FOut(FMul(F(x), F(x)))>>
    [] e.op = "fesqs" -> LET a == FAdd(F(x), F(y))  d == FSub(F(x), F(y)) IN
         <<TRUE, FOut(FMul(a, a)) \o FOut(FMul(BN(2), FMul(d, d)))>>
    [] e.op = "fesq2" -> <<TRUE, FOut(FMul(BN(2), FMul(F(x), F(x))))>>
    [] e.op = "feinv" -> <<TRUE, FOut(FInv(F(x)))>>
    [] e.op = "feneg" -> <<TRUE, FOut(FNeg(F(x)))>>
    [] e.op = "feflags" -> <<TRUE, <<IF Odd(F(x)) THEN 1 ELSE 0, IF F(x) = <<>> THEN 0 ELSE 1>>>>
    [] e.op = "fecmove" -> <<TRUE, FOut(IF z[1] = 1 THEN F(y) ELSE F(x))>>
    [] e.op = "screduce" -> <<TRUE, ScReduce(x)>>
    [] e.op = "scmuladd" -> <<TRUE, ScMulAdd(x, y, z)>>
    [] e.op = "scminimal" -> <<ScMinimal(x), <<>>>>
Judge(e) == IF PROP = "C20" THEN If(e.r = "ok" /\ <<e.ok, e.out>> = EdExpect(e), e.op) ELSE JudgeKey(e)
\* keys as the specification has them (for hashes and curve operations there is no state)
Step(e) ==
  CASE e.op = "scrib" /\ HasSrc(e) -> [k \in DOMAIN m \ {e.src} |-> m[k]]
    [] e.op \in {"icarus", "seed", "raw", "derive"} ->
         LET rest == [k \in DOMAIN m \ {e.dst} |-> m[k]] IN
         IF (e.op = "seed" /\ ~LedgerOk(e.seed)) \/ (e.op = "derive" /\ ~HasSrc(e)) THEN rest
         ELSE IF PROP \in {"C16", "C17"} THEN (e.dst :> Expect(e)) @@ rest ELSE rest
    [] OTHER -> m
Init == s \in 1..Len(Traces) /\ i = 0 /\ m = <<>>
Next == /\ i < Len(Traces[s].ev)
        /\ LET e == Traces[s].ev[i + 1]
               bad == IF e.op = "dead" THEN {"the process died"} ELSE Judge(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Traces[s].id, ev |-> i + 1, op |-> e.op, why |-> bad]))
              /\ m' = IF e.op = "dead" THEN m ELSE Step(e)
        /\ i' = i + 1 /\ s' = s
=================================================================================
