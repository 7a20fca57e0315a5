--------------------------------- MODULE AddrHeap -------------------------------
(* Why a decoded address is a stable value: byte buffers made explicit. Decoding takes   *)
(* the credentials out of the caller's buffer (by copying them, or by pointing into it),   *)
(* reading hands a buffer to the caller, deriving hands a credential on, and the caller    *)
(* may overwrite any buffer it holds. Every address has a shadow, the content it was        *)
(* decoded with. With CopyIn, CopyOut and CopyDerived the content never changes; without    *)
(* CopyIn or CopyOut it does (AddrHeapNoIn, AddrHeapNoOut).                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxSteps, MaxAddrs, CopyIn, CopyOut, CopyDerived
Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Emitting == Env("EMIT", "") # ""
VARIABLES heap,     \* buffer -> content (a number; overwriting changes it)
          callers,  \* buffers the caller holds: [buf, slot, what]
          addrs,    \* address slot -> [pay, stake] buffers (0: none), kind
          shadow,   \* address slot -> [pay, stake] contents
          hist
vars == <<heap, callers, addrs, shadow, hist>>
Fresh == Len(heap) + 100
Init == heap = <<>> /\ callers = {} /\ addrs = <<>> /\ shadow = <<>> /\ hist = <<>>
Log(o) == Len(hist) < MaxSteps /\ hist' = Append(hist, o)
\* a buffer is decoded; its content is both credentials
Decode(via) ==
  /\ Len(addrs) < MaxAddrs
  /\ Log([op |-> "dec", via |-> via, src |-> 0, dst |-> Len(addrs) + 1])
  /\ LET b == Len(heap) + 1
         shares == ~CopyIn /\ via = "bytes"
     IN /\ heap' = heap \o <<Fresh>> \o (IF shares THEN <<>> ELSE <<Fresh>>)
        /\ callers' = callers \cup {[buf |-> b, slot |-> Len(addrs) + 1, what |-> "in"]}
        /\ addrs' = Append(addrs, [kind |-> "base", buf |-> IF shares THEN b ELSE b + 1])
        /\ shadow' = Append(shadow, Fresh)
\* reading bytes or CBOR hands out a buffer
Read(s, what) ==
  /\ s \in DOMAIN addrs /\ Log([op |-> "read", via |-> what, src |-> s, dst |-> 0])
  /\ LET b == Len(heap) + 1 IN
       /\ heap' = IF CopyOut THEN Append(heap, heap[addrs[s].buf]) ELSE heap
       /\ callers' = callers \cup {[buf |-> IF CopyOut THEN b ELSE addrs[s].buf, slot |-> s, what |-> what]}
  /\ UNCHANGED <<addrs, shadow>>
Derive(s, what) ==
  /\ s \in DOMAIN addrs /\ addrs[s].kind = "base" /\ Len(addrs) < MaxAddrs
  /\ Log([op |-> what, via |-> "", src |-> s, dst |-> Len(addrs) + 1])
  /\ LET b == Len(heap) + 1 IN
       /\ heap' = IF CopyDerived THEN Append(heap, heap[addrs[s].buf]) ELSE heap
       /\ addrs' = Append(addrs, [kind |-> "part", buf |-> IF CopyDerived THEN b ELSE addrs[s].buf])
  /\ shadow' = Append(shadow, shadow[s]) /\ UNCHANGED callers
Overwrite(c) ==
  /\ c \in callers /\ Log([op |-> "scrib", via |-> c.what, src |-> c.slot, dst |-> 0])
  /\ heap' = [heap EXCEPT ![c.buf] = Fresh + Len(hist) * 1000]
  /\ UNCHANGED <<callers, addrs, shadow>>
Next == \/ \E v \in {"bytes", "hex", "text"} : Decode(v)
        \/ \E s \in DOMAIN addrs : Read(s, "bytes") \/ Read(s, "cbor") \/ Derive(s, "toent") \/ Derive(s, "torew")
        \/ \E c \in callers : Overwrite(c)
Spec == Init /\ [][Next]_vars
Stable == \A s \in DOMAIN addrs : heap[addrs[s].buf] = shadow[s]
\* whole histories (every one of the last length), for the implementation
Emit == IF Emitting /\ Len(hist) = MaxSteps /\ hist[MaxSteps].op = "scrib"
        THEN PrintT("SCEN " \o ToJson([area |-> "addr", hist |-> hist]))
        ELSE TRUE
=================================================================================
