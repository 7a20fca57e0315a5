--------------------------------- MODULE Protocol -------------------------------
(* The protocol-parameters file of cardano-cli: what loading a text has to yield.    *)
EXTENDS JsonText
LOCAL Low(b) == [i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
LOCAL Whatever == [how |-> "any", n |-> <<>>]                    \* unspecified: an error or some value
LOCAL Refuse == [how |-> "err", n |-> <<>>]
\* the value of a JSON value as a number of at most `bytes` bytes
Number(v, bytes) ==
  LET q == NumParts(v.v)
      n == DecVal(q.int)
  IN CASE v.t = "lit" /\ v.v = Ascii("null") -> Whatever
       [] v.t # "num" -> Refuse
       [] q.hasexp -> Whatever                                    \* 1e3: a number, but not written as an integer
       [] q.hasfrac /\ (\A i \in 1..Len(q.frac) : q.frac[i] = 48) -> Whatever
       [] q.hasfrac -> Refuse
       [] q.neg -> IF n = <<>> THEN Whatever ELSE Refuse
       [] Len(n) > bytes -> Refuse
       [] OTHER -> [how |-> "val", n |-> n]
\* the member of object o named k: "one" value, "none", or "odd" (several, or in other letter case: unspecified)
Member(o, k) ==
  LET js == {j \in 1..Len(o.kv) : Low(o.kv[j].k) = Low(k)}
  IN IF js = {} THEN [how |-> "none", v |-> o]
     ELSE LET j == CHOOSE j \in js : TRUE
          IN [how |-> IF Len(o.kv) > 0 /\ js = {j} /\ o.kv[j].k = k THEN "one" ELSE "odd", v |-> o.kv[j].v]
Param(o, k, bytes) == LET x == Member(o, k) IN IF x.how = "one" THEN Number(x.v, bytes) ELSE Whatever
\* what the file's text demands, per parameter
Demands(text) ==
  LET j == ParseJson(text)
      all(x) == [per |-> x, fix |-> x, max |-> x, utxo |-> x, maj |-> x, min |-> x]
      ver == Member(j.v, Ascii("protocolVersion"))
      inver(k) == CASE ver.how # "one" -> Whatever
                    [] ver.v.t = "lit" /\ ver.v.v = Ascii("null") -> Whatever
                    [] ver.v.t # "obj" -> Refuse
                    [] OTHER -> Param(ver.v, k, 1)
  IN IF ~j.ok THEN all(Refuse)
     ELSE IF j.v.t = "lit" /\ j.v.v = Ascii("null") THEN all(Whatever)
     ELSE IF j.v.t # "obj" THEN all(Refuse)
     ELSE [per |-> Param(j.v, Ascii("txFeePerByte"), 8), fix |-> Param(j.v, Ascii("txFeeFixed"), 8),
           max |-> Param(j.v, Ascii("maxTxSize"), 8), utxo |-> Param(j.v, Ascii("minUTxOValue"), 8),
           maj |-> inver(Ascii("major")), min |-> inver(Ascii("minor"))]
\* result r ("ok"/"err"), out against the demands
LoadOk(d, r, out) ==
  LET fs == DOMAIN d
  IN IF \E f \in fs : d[f].how = "err" THEN r = "err"
     ELSE IF r = "err" THEN \E f \in fs : d[f].how = "any"
     ELSE r = "ok" /\ \A f \in fs : d[f].how = "val" => out[f] = d[f].n
=================================================================================
