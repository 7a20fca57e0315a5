---------------------------------- MODULE MCKeys --------------------------------
(* The tree of keys: from a master key (Icarus, ledger style, or one with a left half at  *)
(* the edges) down every path over the indices Idx. The public side follows on its own,    *)
(* by DerivePub, where it can (soft steps). Checked: both sides always agree, the clamped   *)
(* bits survive, halves stay in range, and signatures of every key on the way verify.       *)
(* With EMIT set, the paths are scenarios.                                                *)
EXTENDS Keys, TLC, Json, IOUtils
CONSTANTS Masters, Steps, MaxDepth, Signing
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES root, path, k, xp
vars == <<root, path, k, xp>>
Idx(n) == CASE n = 0 -> <<0, 0, 0, 0>> [] n = 1 -> <<0, 0, 0, 1>> [] n = 2 -> <<127, 255, 255, 255>> [] n = 3 -> <<128, 0, 0, 0>>
            [] n = 4 -> <<128, 0, 7, 60>> [] n = 5 -> <<255, 255, 255, 255>> [] n = 6 -> <<1, 2, 3, 4>> [] n = 7 -> <<129, 2, 3, 4>>
Rnd(n) == SHA512(<<n>>) \o SHA256(<<n, 1>>)
Ones(n) == [j \in 1..n |-> 255]
\* ops that make a master key in slot 1, and the key
MasterOp(n) ==
  CASE n = 0 -> [op |-> "icarus", dst |-> 1, entropy |-> SubSeq(Rnd(0), 1, 20), pw |-> <<>>]
    [] n = 1 -> [op |-> "icarus", dst |-> 1, entropy |-> SubSeq(Rnd(1), 1, 32), pw |-> <<112, 119>>]
    [] n = 2 -> [op |-> "seed", dst |-> 1, seed |-> SubSeq(Rnd(2), 1, 32)]
    [] n = 3 -> [op |-> "raw", dst |-> 1, k |-> SubSeq(Force3rd(Ones(64) \o Rnd(3)), 1, 96)]
    [] n = 4 -> [op |-> "raw", dst |-> 1, k |-> SubSeq(Force3rd(Zeros(64) \o Rnd(4)), 1, 96)]
    [] n = 5 -> [op |-> "raw", dst |-> 1, k |-> Force3rd(SubSeq(Rnd(5), 1, 27) \o Ones(37) \o SubSeq(Rnd(5), 1, 32))]
    [] n = 6 -> [op |-> "raw", dst |-> 1, k |-> Force3rd(Rnd(6))]
Master(n) == LET o == MasterOp(n) IN
  CASE o.op = "icarus" -> Icarus(o.entropy, o.pw) [] o.op = "seed" -> Ledger(o.seed) [] OTHER -> o.k
Init == root \in Masters /\ path = <<>> /\ k = Master(root) /\ xp = Public(k)
Derived(s) == /\ Len(path) < MaxDepth /\ path' = Append(path, s) /\ root' = root
              /\ k' = Derive(k, Idx(s))
              /\ xp' = IF Hardened(Idx(s)) THEN Public(k') ELSE DerivePub(xp, Idx(s))
Next == \E s \in Steps : Derived(s)
Spec == Init /\ [][Next]_vars
Agree == xp = Public(k)
Clamped == k[1] % 8 = 0 /\ k[32] \div 64 = 1 /\ Len(k) = 96
Msg == SHA256(<<Len(path)>>)
Signs == Signing => LET s == Sign(k, Msg) IN /\ Verify(SubSeq(xp, 1, 32), Msg, s) /\ JdkEdVerify(SubSeq(xp, 1, 32), Msg, s)
                                             /\ ~Verify(SubSeq(xp, 1, 32), Append(Msg, 0), s)
\* no two keys met are the same unless their paths are (checked along a path: a child differs from its parent)
Moves == path # <<>> => CC(k) # CC(Master(root))
Emit == IF Emitting /\ Len(path) = MaxDepth
        THEN PrintT("SCEN " \o ToJson([area |-> "key", ops |->
               <<MasterOp(root) @@ [all |-> 1]>>
               \o [j \in 1..(2 * MaxDepth) |-> IF j % 2 = 1 THEN [op |-> "derive", src |-> (j + 1) \div 2, dst |-> (j + 3) \div 2, idx |-> Idx(path[(j + 1) \div 2]), all |-> MaxDepth + 1]
                                               ELSE [op |-> "pub", src |-> j \div 2 + 1, all |-> MaxDepth + 1]]
               \o <<[op |-> "sign", src |-> MaxDepth + 1, msg |-> Msg, all |-> MaxDepth + 1]>>]))
        ELSE TRUE
=================================================================================
