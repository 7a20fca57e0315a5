---------------------------------- MODULE MCNat ---------------------------------
(* Variable-length naturals: byte strings grown byte by byte over an alphabet, and      *)
(* numbers around every place where the encoding grows. Checked: decoding inverts          *)
(* encoding, the encoding is the only shortest form, every proper prefix is unterminated,    *)
(* and what decodes is within 64 bits.                                                  *)
EXTENDS Address, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxBytes
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES d, n
vars == <<d, n>>
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN <<1>> ELSE BMulI(Pow(k - 1), 2)
Edge == {x \in {BAdd(Pow(k), BN(e)) : k \in 0..63, e \in {0, 1, 2}} \cup {BSub(Pow(k), BN(e)) : k \in 2..64, e \in {1, 2}} \cup {<<>>} : Len(x) <= 8}
Init == (d = <<>> /\ n = <<>>) \/ (n \in Edge /\ d = Nat128(n) \o <<>>)
Grow == Len(d) < MaxBytes /\ n = <<>> /\ \E x \in Alphabet : d' = Append(d, x) /\ n' = <<>>
\* a known number with something before or after it
Follow == n # <<>> /\ Len(d) = Len(Nat128(n)) /\ n' = n /\ \E x \in {<<0>>, <<128>>, <<255, 255>>, <<127>>} : d' = d \o x
Next == Grow \/ Follow
Spec == Init /\ [][Next]_vars
Ref == ReadNat128(d)
Inverts == n # <<>> => Ref.ok /\ Ref.n = n /\ Ref.used = Len(Nat128(n))
Stops == Ref.ok => Ref.used \in 1..Len(d) /\ d[Ref.used] < 128 /\ (\A i \in 1..(Ref.used - 1) : d[i] >= 128) /\ Len(Ref.n) <= 8
Shortest == Ref.ok => LET e == Nat128(Ref.n) IN Len(e) <= Ref.used /\ (Len(e) = Ref.used => e = SubSeq(d, 1, Ref.used))
Unterminated == (\A i \in 1..Len(d) : d[i] >= 128) => ~Ref.ok
Emit == IF Emitting
        THEN PrintT("SCEN " \o ToJson([area |-> "addr", ops |-> <<[op |-> "vdec", data |-> d]>> \o (IF Ref.ok THEN <<[op |-> "venc", n |-> Ref.n]>> ELSE <<>>)]))
        ELSE TRUE
=================================================================================
