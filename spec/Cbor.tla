---------------------------------- MODULE Cbor ----------------------------------
(* CBOR (RFC 8949): shortest-form encoding, and a total decoder of definite-length *)
(* items. Values are records with a type tag t:                                   *)
(*   u, n     unsigned / negative integer, field n: the head's argument           *)
(*   b, s     byte / text string, field b         a  array, field a: the items    *)
(*   m        map, field kv: [k, v] records in order    tag  fields n, v           *)
(*   x        simple value or float, field b: its bytes                           *)
EXTENDS BigNat
CHead(major, n) ==                                       \* n: BigNat below 2^64
  CASE Len(n) = 0                -> <<major * 32>>
    [] Len(n) = 1 /\ n[1] < 24   -> <<major * 32 + n[1]>>
    [] Len(n) = 1 /\ n[1] >= 24  -> <<major * 32 + 24>> \o n
    [] Len(n) = 2                -> <<major * 32 + 25>> \o n
    [] Len(n) \in 3..4           -> <<major * 32 + 26>> \o Pad(n, 4)
    [] OTHER                     -> <<major * 32 + 27>> \o Pad(n, 8)
CHeadI(major, i) == CHead(major, BN(i))
CUint(n) == CHead(0, n)
CBytes(b) == CHeadI(2, Len(b)) \o b
CText(b) == CHeadI(3, Len(b)) \o b
Concat(seqs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, seqs)
CArr(items) == CHeadI(4, Len(items)) \o Concat(items)     \* items: already encoded
CTag(i, item) == CHeadI(6, i) \o item
CTrue == <<245>>
CNull == <<246>>

\* ReadHead(d, p): the head at 1-based position p
ReadHead(d, p) ==
  LET bad == [ok |-> FALSE, major |-> 0, n |-> <<>>, next |-> p, ai |-> 0]
  IN IF p < 1 \/ p > Len(d) THEN bad
     ELSE LET major == d[p] \div 32  ai == d[p] % 32
              ext == CASE ai < 24 -> 0 [] ai = 24 -> 1 [] ai = 25 -> 2 [] ai = 26 -> 4 [] ai = 27 -> 8 [] OTHER -> 99
          IN IF ext = 99 \/ p + ext > Len(d) THEN bad
             ELSE [ok |-> TRUE, major |-> major, next |-> p + 1 + ext, ai |-> ai,
                   n |-> IF ext = 0 THEN BN(ai) ELSE Norm(SubSeq(d, p + 1, p + ext))]
\* ReadItem(d, p, depth): [ok, v, next]
RECURSIVE ReadItem(_, _, _)
ReadItem(d, p, depth) ==
  LET h == ReadHead(d, p)
      bad == [ok |-> FALSE, v |-> [t |-> "bad"], next |-> p]
      small == Len(h.n) <= 3                              \* lengths beyond 2^24 are out of reach here
      n == ToInt(h.n)
      room == Len(d) - h.next + 1
      items(cnt) ==
        FoldLeft(LAMBDA acc, i : IF ~acc.ok THEN acc
                                 ELSE LET r == ReadItem(d, acc.next, depth - 1)
                                      IN [ok |-> r.ok, next |-> r.next, vs |-> Append(acc.vs, r.v)],
                 [ok |-> TRUE, next |-> h.next, vs |-> <<>>], [i \in 1..cnt |-> i])
  IN IF ~h.ok \/ depth = 0 THEN bad
     ELSE CASE h.major = 0 -> [ok |-> TRUE, v |-> [t |-> "u", n |-> h.n], next |-> h.next]
            [] h.major = 1 -> [ok |-> TRUE, v |-> [t |-> "n", n |-> h.n], next |-> h.next]
            [] h.major \in {2, 3} ->
                 IF ~small \/ n > room THEN bad
                 ELSE [ok |-> TRUE, next |-> h.next + n,
                       v |-> [t |-> IF h.major = 2 THEN "b" ELSE "s", b |-> SubSeq(d, h.next, h.next + n - 1)]]
            [] h.major = 4 ->
                 IF ~small \/ n > room THEN bad
                 ELSE LET r == items(n) IN [ok |-> r.ok, v |-> [t |-> "a", a |-> r.vs], next |-> r.next]
            [] h.major = 5 ->
                 IF ~small \/ n > room THEN bad
                 ELSE LET r == items(2 * n)
                      IN [ok |-> r.ok, next |-> r.next,
                          v |-> [t |-> "m", kv |-> IF r.ok THEN [i \in 1..n |-> [k |-> r.vs[2 * i - 1], v |-> r.vs[2 * i]]]
                                                         ELSE <<>>]]
            [] h.major = 6 -> LET r == ReadItem(d, h.next, depth - 1)
                              IN [ok |-> r.ok, v |-> [t |-> "tag", n |-> h.n, v |-> r.v], next |-> r.next]
            [] OTHER -> [ok |-> TRUE, v |-> [t |-> "x", b |-> SubSeq(d, p, h.next - 1)], next |-> h.next]
DecodeAll(d) == LET r == ReadItem(d, 1, 64) IN [ok |-> r.ok /\ r.next = Len(d) + 1, v |-> r.v]
\* the same value, the order of map entries aside
RECURSIVE SameVal(_, _)
SameVal(v, w) ==
  /\ v.t = w.t
  /\ CASE v.t \in {"u", "n"} -> v.n = w.n
       [] v.t \in {"b", "s", "x"} -> v.b = w.b
       [] v.t = "a" -> Len(v.a) = Len(w.a) /\ \A i \in 1..Len(v.a) : SameVal(v.a[i], w.a[i])
       [] v.t = "tag" -> v.n = w.n /\ SameVal(v.v, w.v)
       [] v.t = "m" -> /\ Len(v.kv) = Len(w.kv)
                       /\ \A i \in 1..Len(v.kv) : \E j \in 1..Len(w.kv) :
                             SameVal(v.kv[i].k, w.kv[j].k) /\ SameVal(v.kv[i].v, w.kv[j].v)
                       /\ \A i, j \in 1..Len(v.kv) : SameVal(v.kv[i].k, v.kv[j].k) => i = j
       [] OTHER -> FALSE
\* encoding of a value (map entries in the order given)
RECURSIVE EncodeVal(_)
EncodeVal(v) ==
  CASE v.t = "u" -> CHead(0, v.n)
    [] v.t = "n" -> CHead(1, v.n)
    [] v.t = "b" -> CBytes(v.b)
    [] v.t = "s" -> CText(v.b)
    [] v.t = "a" -> CHeadI(4, Len(v.a)) \o FoldLeft(LAMBDA x, y : x \o EncodeVal(y), <<>>, v.a)
    [] v.t = "m" -> CHeadI(5, Len(v.kv)) \o FoldLeft(LAMBDA x, y : x \o EncodeVal(y.k) \o EncodeVal(y.v), <<>>, v.kv)
    [] v.t = "tag" -> CHead(6, v.n) \o EncodeVal(v.v)
    [] v.t = "x" -> v.b
=================================================================================
