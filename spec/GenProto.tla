--------------------------------- MODULE GenProto -------------------------------
(* Protocol-parameter files written member by member: the parameters in every order,      *)
(* other members in every place, and then perhaps one thing wrong (a value that is no        *)
(* number of its range, a file cut short at any place, a character dropped or replaced).       *)
(* Checked: order and other members never matter, and what is cut short is refused.           *)
EXTENDS Protocol, TLC, Json, IOUtils
CONSTANTS NDecoys, Kinds
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES kind,    \* what is being explored
          doc,     \* the members so far: numbers 1..5 are the parameters, above 5 others
          wrong,   \* [at, what]: 0 nothing
          text     \* the finished file
vars == <<kind, doc, wrong, text>>
Decoys == <<"\"txFeePerByteX\": 7", "\"nested\": {\"txFeePerByte\": 1, \"txFeeFixed\": 2, \"protocolVersion\": {\"major\": 9, \"minor\": 9}}", "\"list\": [{\"maxTxSize\": 1}, [2, -3.5e1], null, \"minUTxOValue\"]",
            "\"note\": \"\\\"maxTxSize\\\": 12345\"", "\"major\": 99", "\"minor\": 98", "\"decentralization\": 0.5", "\"extraPraosEntropy\": null">>
Good == [per |-> <<44>>, fix |-> <<2, 94, 245>>, max |-> <<64, 0>>, utxo |-> <<15, 66, 64>>, maj |-> <<6>>, min |-> <<200>>]
Bads == <<"-1", "1.5", "\"44\"", "true", "{}", "[44]", "18446744073709551616", "99999999999999999999999", "0.1", "\"\"", "256", "65536">>
Whole == <<"44", "155381", "16384", "1000000", "6", "200">>
\* the value of parameter p (1..4 numbers, 5 and 6 the version's), one of them perhaps wrong
V(p) == IF wrong.at = p THEN Bads[wrong.what] ELSE Whole[p]
Member1(m) ==
  CASE m = 1 -> "\"txFeePerByte\": " \o V(1) [] m = 2 -> "\"txFeeFixed\":" \o V(2) [] m = 3 -> "\"maxTxSize\" : " \o V(3) [] m = 4 -> "\"minUTxOValue\": " \o V(4)
    [] m = 5 -> "\"protocolVersion\": {\"minor\": " \o V(6) \o ", \"major\": " \o V(5) \o "}"
    [] OTHER -> Decoys[m - 5]
RECURSIVE Join(_, _)
Join(d, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN Member1(d[1]) ELSE Join(d, n - 1) \o ", " \o Member1(d[n])
File(d) == Ascii("{" \o Join(d, Len(d)) \o "}")
None == [at |-> 0, what |-> 0]
Init == kind \in Kinds /\ doc = <<>> /\ text = <<>>
        /\ wrong \in (IF kind = "bad" THEN {[at |-> p, what |-> b] : p \in 1..6, b \in 1..Len(Bads)} ELSE {None})
Has(x) == \E j \in 1..Len(doc) : doc[j] = x
Others == Cardinality({j \in 1..Len(doc) : doc[j] > 5})
Fixed == kind \in {"cut", "char", "bad"}
AddMember == /\ text = <<>>
             /\ \E m \in 1..(5 + NDecoys) : /\ ~Has(m) /\ (m > 5 => kind = "order" /\ Others = 0)
                                            /\ (Fixed => m = Len(doc) + 1)
                                            /\ doc' = Append(doc, m)
             /\ UNCHANGED <<kind, wrong, text>>
Complete == \A m \in 1..5 : Has(m)
Chars == {123, 125, 91, 44, 58, 34, 48, 57, 45, 46, 101, 92, 32, 0, 97}
Out(t) == LET n == Len(t) IN
  CASE kind = "cut" -> {SubSeq(t, 1, k) : k \in 0..(n - 1)}
    [] kind = "char" -> {SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, n) : k \in 1..n} \cup {[t EXCEPT ![k] = c] : k \in 1..n, c \in Chars} \cup {t \o <<c>> : c \in Chars}
    [] OTHER -> {t}
Write == text = <<>> /\ Complete /\ \E w \in Out(File(doc)) : text' = <<w>> /\ UNCHANGED <<kind, doc, wrong>>
Next == AddMember \/ Write
Spec == Init /\ [][Next]_vars
D == Demands(text[1])
NoMatter == text # <<>> /\ kind = "order" => \A f \in DOMAIN D : D[f] = [how |-> "val", n |-> Good[f]]
Cut == text # <<>> /\ kind = "cut" => \A f \in DOMAIN D : D[f].how = "err"
\* 256 and 65536 are wrong for the version only
Wrong == text # <<>> /\ kind = "bad" => ((\E f \in DOMAIN D : D[f].how = "err") <=> (wrong.what < 11 \/ wrong.at > 4))
Emit == IF Emitting /\ text # <<>> THEN PrintT("SCEN " \o ToJson([area |-> "proto", ops |-> <<[op |-> "load", how |-> "file", text |-> text[1]]>>])) ELSE TRUE
=================================================================================
