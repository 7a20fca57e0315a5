--------------------------------- MODULE GenByron -------------------------------
(* Byte strings that are almost Byron addresses: the grammar of the address with every   *)
(* part in its canonical form or in one of several others, at most MaxDev of them at      *)
(* once. Checked: only the canonical ones are addresses, and those are the ones their      *)
(* content encodes to.                                                                *)
EXTENDS Address, TLC, Json, IOUtils
CONSTANTS MaxDev, Tags
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES c, out
Root == [i \in 1..28 |-> (91 * i) % 256]
Pl == [i \in 1..30 |-> 200 - i]
MgB == <<65, 112, 203, 23>>
I(x) == <<x>>
\* alternatives for each part; the first is canonical
MgCbor == CUint(MgB)
AttrAlts == <<
  I(160), I(161) \o I(1) \o CBytes(Pl), I(161) \o I(2) \o CBytes(MgCbor), I(162) \o I(1) \o CBytes(Pl) \o I(2) \o CBytes(MgCbor),   \* 1..4 canonical
  I(162) \o I(2) \o CBytes(MgCbor) \o I(1) \o CBytes(Pl), I(162) \o I(2) \o CBytes(MgCbor) \o I(2) \o CBytes(MgCbor),
  I(161) \o I(0) \o CBytes(Pl), I(161) \o I(3) \o CBytes(MgCbor), <<184, 1>> \o I(2) \o CBytes(MgCbor), I(191) \o I(2) \o CBytes(MgCbor) \o I(255),
  I(161) \o I(1) \o CBytes(<<>>), I(161) \o I(2) \o CBytes(<<>>), I(161) \o I(2) \o MgCbor, I(161) \o I(1) \o MgCbor,
  I(161) \o I(2) \o CBytes(<<27, 0, 0, 0, 0>> \o MgB), I(161) \o I(2) \o CBytes(<<27, 0, 0, 0, 1>> \o MgB), I(161) \o I(2) \o CBytes(MgCbor \o <<0>>),
  I(161) \o I(2) \o CBytes(I(58) \o MgB), I(161) \o I(2) \o CBytes(CBytes(MgB)), I(161) \o <<24, 2>> \o CBytes(MgCbor), I(161) \o I(2) \o <<88, 5>> \o MgCbor,
  I(161) \o I(2) \o I(95) \o CBytes(MgCbor) \o I(255), I(128), I(246), I(161) \o I(34) \o CBytes(MgCbor), I(161) \o <<97, 50>> \o CBytes(MgCbor),
  I(163) \o I(1) \o CBytes(Pl) \o I(2) \o CBytes(MgCbor) \o I(3) \o CBytes(<<1>>), I(161) \o I(2) \o CBytes(CUint(<<>>)), I(161) \o I(2) \o CBytes(CUint(<<255, 255, 255, 255>>)) >>
RootAlts == <<CBytes(Root), CBytes(SubSeq(Root, 1, 27)), CBytes(Append(Root, 0)), <<88, 28>> \o CBytes(Root), I(120) \o I(28) \o Root,
              I(95) \o CBytes(Root) \o I(255), CBytes(<<>>), CBytes(SubSeq(Root \o Root, 1, 32))>>
TypeAlts == <<I(0), I(1), I(2), <<24, 0>>, I(32), I(64), I(246), <<25, 0, 0>>, I(3)>>
\* heads of the inner array, with what follows the three parts
InnerAlts == <<[h |-> I(131), e |-> <<>>], [h |-> <<152, 3>>, e |-> <<>>], [h |-> I(159), e |-> I(255)], [h |-> I(132), e |-> I(0)], [h |-> I(131), e |-> I(0)], [h |-> I(130), e |-> <<>>]>>
WrapAlts == <<"bytes", "long", "indef", "text", "twice", "array">>
TagAlts == <<<<216, 24>>, <<217, 0, 24>>, <<>>, <<216, 25>>, I(192), <<216, 24, 216, 24>>, <<219, 0, 0, 0, 0, 0, 0, 0, 24>>>>
CrcAlts == <<"right", "plus", "long", "neg", "big", "zero", "bytes", "flip", "inner">>
OuterAlts == <<[h |-> I(130), e |-> <<>>], [h |-> <<152, 2>>, e |-> <<>>], [h |-> I(159), e |-> I(255)], [h |-> I(131), e |-> I(0)], [h |-> I(130), e |-> I(0)], [h |-> I(129), e |-> <<>>],
               [h |-> <<153, 0, 2>>, e |-> <<>>], [h |-> I(130), e |-> <<216>>]>>
Dims == <<Len(AttrAlts), Len(RootAlts), Len(TypeAlts), Len(InnerAlts), Len(WrapAlts), Len(TagAlts), Len(CrcAlts), Len(OuterAlts)>>
Canon(x) == (IF x[1] <= 4 THEN 0 ELSE 1) + Cardinality({d \in 2..8 : x[d] # 1})
Form(x) ==
  LET inner == InnerAlts[x[4]].h \o RootAlts[x[2]] \o AttrAlts[x[1]] \o TypeAlts[x[3]] \o InnerAlts[x[4]].e
      w == CASE WrapAlts[x[5]] = "bytes" -> CBytes(inner)
             [] WrapAlts[x[5]] = "long" -> <<89, Len(inner) \div 256, Len(inner) % 256>> \o inner
             [] WrapAlts[x[5]] = "indef" -> I(95) \o CBytes(inner) \o I(255)
             [] WrapAlts[x[5]] = "text" -> <<120, Len(inner)>> \o inner
             [] WrapAlts[x[5]] = "twice" -> CBytes(CBytes(inner))
             [] WrapAlts[x[5]] = "array" -> inner
      k == CRC32(inner)
      crc == CASE CrcAlts[x[7]] = "right" -> CUint(Norm(k))
               [] CrcAlts[x[7]] = "plus" -> CUint(BAdd(Norm(k), <<1>>))
               [] CrcAlts[x[7]] = "long" -> <<27, 0, 0, 0, 0>> \o k
               [] CrcAlts[x[7]] = "neg" -> I(58) \o k
               [] CrcAlts[x[7]] = "big" -> <<27, 0, 0, 0, 1>> \o k
               [] CrcAlts[x[7]] = "zero" -> I(0)
               [] CrcAlts[x[7]] = "bytes" -> CBytes(k)
               [] CrcAlts[x[7]] = "flip" -> CUint(Norm(Rev(k)))
               [] CrcAlts[x[7]] = "inner" -> CUint(Norm(CRC32(w)))
  IN OuterAlts[x[8]].h \o TagAlts[x[6]] \o w \o crc \o OuterAlts[x[8]].e
Init == /\ c \in {x \in (1..4) \X {1} \X {1} \X {1} \X {1} \X {1} \X {1} \X {1} : TRUE} /\ out = <<>>
\* one more part in another form
Deviate == /\ out = <<>> /\ Canon(c) < MaxDev
           /\ \E d \in 1..8 : \E v \in 1..Dims[d] : c[d] = 1 /\ v # 1 /\ (d # 1 \/ v > 4) /\ c' = [c EXCEPT ![d] = v]
           /\ UNCHANGED out
Done == out = <<>> /\ out' = Form(c) /\ UNCHANGED c
Next == Deviate \/ Done
Spec == Init /\ [][Next]_<<c, out>>
OnlyCanonical == out # <<>> => (Parse(out).ok <=> (Canon(c) = 0 \/ (c[1] \in {28, 29} /\ Canon(c) = 1)))
Same == out # <<>> /\ Parse(out).ok => Encode(Parse(out).a) = out
Emit == IF Emitting /\ out # <<>>
        THEN \A v \in Tags : PrintT("SCEN " \o ToJson([area |-> "addr", ops |-> <<[op |-> "dec", via |-> v, dst |-> 2,
               data |-> CASE v = "bytes" -> out [] v = "hex" -> HexEncode(out) [] v = "text" -> Base58(out)]>>]))
        ELSE TRUE
=================================================================================
