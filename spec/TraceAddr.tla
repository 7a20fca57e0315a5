-------------------------------- MODULE TraceAddr -------------------------------
(* Trace validation of the address code: every recorded event has to be a step     *)
(* the specification (Address.tla) allows.  IOEnv.TRACE: ndjson, one scenario per   *)
(* line; IOEnv.PROP: the property whose clauses are judged.                         *)
EXTENDS Address, TLC, Json, IOUtils
PROP == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, m
vars == <<s, i, m>>

\* what a well-behaved address shows
Shown(a, pm) == [a |-> a, pm |-> pm, bytes |-> Encode(a), text |-> Text(a), cbor |-> CborForm(a), cr |-> "ok", r |-> "ok"]
Ref(e) == CASE e.via = "bytes" -> Parse(e.data) [] e.via = "hex" -> ParseHex(e.data) [] OTHER -> ParseText(e.data)
Denoted(e) == CASE e.via = "bytes" -> e.data [] e.via = "hex" -> HexDecode(e.data).b [] OTHER -> <<>>
If(c, name) == IF c THEN {} ELSE {name}
\* o shows address a, text aside
Content(o, a, pm) == If(o.r = "ok", "reading the address fails") \cup If(o.a = a, "kind, network or content")
                 \cup If(o.pm = pm, "network info") \cup If(o.bytes = Encode(a), "bytes")
                 \cup If(o.cr = "ok" /\ o.cbor = CborForm(a), "CBOR form")
\* the magic of the network an address was made for (nm), if it is not the usual one
MkMagic(e) == IF e.nm = <<>> THEN MagicOf(e.a.net) ELSE e.nm[1]
NewMagic(e) == CASE e.op = "mk" -> MkMagic(e) [] e.op = "dec" -> MagicOf(Ref(e).a.net) [] OTHER -> m[e.src].pm
NewSlot(e) == CASE e.op = "mk" -> e.a [] e.op = "dec" -> IF e.r = "ok" THEN Ref(e).a ELSE NoAddr
                [] e.op = "toent" -> ToEnt(m[e.src].a) [] e.op = "torew" -> ToRew(m[e.src].a)
Judge(e) ==
  CASE PROP \in {"C01", "C06"} ->
         LET mine(a) == (a.kind = "byron") = (PROP = "C06") IN
         CASE e.op = "mk" /\ mine(e.a) -> If(e.r = "ok", "construct") \cup Content(e.o, e.a, MkMagic(e))
           [] e.op = "dec" -> LET ref == Ref(e) IN
                IF ~ref.ok THEN {} ELSE IF ~mine(ref.a) THEN {}
                ELSE IF e.r # "ok" THEN {"a valid address is refused"} ELSE Content(e.o, ref.a, MagicOf(ref.a.net))
           [] OTHER -> {}
    [] PROP = "C02" ->
         CASE e.op = "mk" -> If(e.o.r = "ok", "reading the address fails") \cup If(e.o.text = Text(e.a), "text")
           [] e.op = "dec" /\ e.via = "text" -> LET ref == Ref(e) IN
                IF ~ref.ok THEN {}
                ELSE IF e.r # "ok" THEN {"a valid text is refused"}
                ELSE Content(e.o, ref.a, MagicOf(ref.a.net)) \cup If(e.o.text = e.data, "text of the parsed address")
           [] OTHER -> {}
    [] PROP = "C03" ->
         CASE e.op = "dec" /\ e.via = "text" -> IF Ref(e).ok THEN {} ELSE If(e.r = "err", "text accepted that no address prints")
           [] e.op = "dec" /\ Denoted(e) # <<>> ->
                IF Denoted(e)[1] \div 16 # 8 THEN {} ELSE IF Ref(e).ok THEN {} ELSE If(e.r = "err", "Byron bytes accepted")
           [] OTHER -> {}
    [] PROP = "C04" ->
         CASE e.op = "dec" ->
                If(e.r \in {"ok", "err"}, "decoding does not return normally")
                \cup (IF e.r # "ok" THEN {}
                      ELSE If(Ref(e).ok, "accepted although no address has these bytes")
                           \cup If(e.o.r = "ok", "the accepted address cannot be read")
                           \cup (IF e.via = "text" THEN {} ELSE If(e.o.bytes = Denoted(e), "the accepted address has other bytes")))
           [] OTHER -> {}
    [] PROP = "C05" ->
         CASE e.op = "venc" -> If(e.r = "ok" /\ e.out = Nat128(e.n), "encoding")
           [] e.op = "vdec" -> LET ref == ReadNat128(e.data) IN
                IF ref.ok THEN If(e.r = "ok" /\ e.n = ref.n /\ e.used = ref.used, "decoding") ELSE If(e.r = "err", "no error")
           [] OTHER -> {}
    [] PROP = "C07" ->
         (IF e.op \in {"toent", "torew"} /\ e.src \in DOMAIN m /\ m[e.src].a.kind = "base"
            THEN If(e.r = "ok", "derive") \cup If(e.o = Shown(NewSlot(e), NewMagic(e)), "derived address") ELSE {})
         \cup If(e.r \in {"ok", "err", "skip"}, "fails")
         \cup (IF \E k \in 1..Len(e.slots) : e.slots[k].i \in DOMAIN m /\ (e.op \notin {"mk", "dec", "toent", "torew"} \/ e.slots[k].i # e.dst)
                                             /\ e.slots[k].o # m[e.slots[k].i]
                 THEN {"an address changed"} ELSE {})
\* the abstract slots; for C07 with all they show
Step(e) ==
  IF PROP # "C07" THEN m
  ELSE IF e.op \in {"mk", "dec"} \/ (e.op \in {"toent", "torew"} /\ e.src \in DOMAIN m /\ m[e.src].a.kind = "base")
       THEN LET a == NewSlot(e)
                rest == [k \in DOMAIN m \ {e.dst} |-> m[k]]
            IN IF a.kind = "none" THEN rest ELSE rest @@ (e.dst :> Shown(a, NewMagic(e)))
       ELSE IF e.op = "wreck" THEN [k \in DOMAIN m \ {e.src} |-> m[k]]     \* the caller's doing; the others are not concerned
       ELSE m
Init == s \in 1..Len(Traces) /\ i = 0 /\ m = <<>>
Next == /\ i < Len(Traces[s].ev)
        /\ LET e == Traces[s].ev[i + 1]
               bad == IF e.op = "dead" THEN {"the process died"} ELSE Judge(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Traces[s].id, ev |-> i + 1, op |-> e.op, why |-> bad]))
              /\ m' = IF e.op = "dead" THEN m ELSE Step(e)
        /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
=================================================================================
