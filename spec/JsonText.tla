--------------------------------- MODULE JsonText -------------------------------
(* JSON (RFC 8259) over byte sequences: which texts are JSON and what they denote.   *)
(* Values: [t, v, kv, a]  t: "obj" (kv: sequence of [k, v]), "arr" (a), "str" (v),     *)
(* "num" (v: the literal), "lit" (v).                                               *)
EXTENDS BigNat, Prim
LOCAL IsDigit(c) == c \in 48..57
JVal(t, v, kv, a) == [t |-> t, v |-> v, kv |-> kv, a |-> a]
\* ---- tokens: [k, v] with k one of { } [ ] : , "s" "n" "l"
LOCAL HexV(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
LOCAL Tok(k, v) == [k |-> k, v |-> v]
LOCAL Flush(a) == CASE a.mode = "num" -> [a EXCEPT !.toks = Append(@, Tok("n", a.buf)), !.mode = "ws", !.buf = <<>>]
                    [] a.mode = "lit" -> [a EXCEPT !.toks = Append(@, Tok("l", a.buf)), !.mode = "ws", !.buf = <<>>]
                    [] OTHER -> a
LOCAL Punct(c) == CASE c = 123 -> "{" [] c = 125 -> "}" [] c = 91 -> "[" [] c = 93 -> "]" [] c = 58 -> ":" [] c = 44 -> "," [] OTHER -> ""
LOCAL Esc(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 98 -> 8 [] c = 102 -> 12 [] c \in {34, 92, 47} -> c [] OTHER -> -1
LOCAL Bad(a) == [a EXCEPT !.mode = "bad"]
LOCAL Plain(a0, c) ==                                        \* outside of strings
  LET a == IF c \in {32, 9, 10, 13, 34} \/ Punct(c) # "" THEN Flush(a0) ELSE a0
  IN CASE c \in {32, 9, 10, 13} -> a
       [] c = 34 -> [a EXCEPT !.mode = "str"]
       [] Punct(c) # "" -> [a EXCEPT !.toks = Append(@, Tok(Punct(c), <<>>))]
       [] a.mode = "ws" /\ (IsDigit(c) \/ c = 45) -> [a EXCEPT !.mode = "num", !.buf = <<c>>]
       [] a.mode = "ws" /\ c \in 97..122 -> [a EXCEPT !.mode = "lit", !.buf = <<c>>]
       [] a.mode = "num" /\ (IsDigit(c) \/ c \in {43, 45, 46, 69, 101}) -> [a EXCEPT !.buf = Append(@, c)]
       [] a.mode = "lit" /\ c \in 97..122 -> [a EXCEPT !.buf = Append(@, c)]
       [] OTHER -> Bad(a)
LOCAL Feed(a, c) ==
  CASE a.mode = "bad" -> a
    [] a.mode = "str" -> CASE c = 34 -> [a EXCEPT !.toks = Append(@, Tok("s", a.buf)), !.mode = "ws", !.buf = <<>>]
                           [] c = 92 -> [a EXCEPT !.mode = "esc"]
                           [] c < 32 -> Bad(a)
                           [] OTHER -> [a EXCEPT !.buf = Append(@, c)]
    [] a.mode = "esc" -> CASE c = 117 -> [a EXCEPT !.mode = "u", !.n = 0, !.x = 0]
                           [] Esc(c) >= 0 -> [a EXCEPT !.mode = "str", !.buf = Append(@, Esc(c))]
                           [] OTHER -> Bad(a)
    [] a.mode = "u" -> IF HexV(c) < 0 THEN Bad(a)
                       ELSE IF a.n < 3 THEN [a EXCEPT !.n = @ + 1, !.x = @ * 16 + HexV(c)]
                       ELSE LET x == a.x * 16 + HexV(c)      \* beyond ASCII: some bytes that are no ASCII character
                            IN [a EXCEPT !.mode = "str", !.buf = @ \o (IF x < 128 THEN <<x>> ELSE <<255, x \div 256, x % 256>>)]
    [] OTHER -> Plain(a, c)
Tokens(d) ==
  LET r == Flush(FoldLeft(Feed, [mode |-> "ws", toks |-> <<>>, buf |-> <<>>, n |-> 0, x |-> 0], d))
  IN [ok |-> r.mode = "ws", toks |-> r.toks]
\* ---- numbers
LOCAL Digits(b) == b # <<>> /\ \A i \in 1..Len(b) : IsDigit(b[i])
LOCAL Find(b, cs) == LET is == {i \in 1..Len(b) : b[i] \in cs} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
\* [ok, neg, int, frac, exp]: parts of a number literal
NumParts(b0) ==
  LET neg == b0 # <<>> /\ Head(b0) = 45
      b == IF neg THEN Tail(b0) ELSE b0
      e == Find(b, {69, 101})
      mant == IF e = 0 THEN b ELSE SubSeq(b, 1, e - 1)
      exp == IF e = 0 THEN <<>> ELSE SubSeq(b, e + 1, Len(b))
      expd == IF exp # <<>> /\ Head(exp) \in {43, 45} THEN Tail(exp) ELSE exp
      p == Find(mant, {46})
      int == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      frac == IF p = 0 THEN <<>> ELSE SubSeq(mant, p + 1, Len(mant))
  IN [ok |-> Digits(int) /\ (Len(int) = 1 \/ Head(int) # 48) /\ (p = 0 \/ Digits(frac)) /\ (e = 0 \/ Digits(expd)),
      neg |-> neg, int |-> int, frac |-> frac, hasexp |-> e # 0, hasfrac |-> p # 0]
DecVal(ds) == FoldLeft(LAMBDA acc, c : BAdd(BMulI(acc, 10), BN(c - 48)), <<>>, ds)
Lits == {Ascii("true"), Ascii("false"), Ascii("null")}
\* ---- values
LOCAL NoVal == [ok |-> FALSE, v |-> JVal("lit", <<>>, <<>>, <<>>), next |-> 0]
LOCAL K(ts, p) == IF p \in 1..Len(ts) THEN ts[p].k ELSE "end"
RECURSIVE PVal(_, _), PMembers(_, _, _), PItems(_, _, _)
PVal(ts, p) ==
  CASE K(ts, p) = "s" -> [ok |-> TRUE, v |-> JVal("str", ts[p].v, <<>>, <<>>), next |-> p + 1]
    [] K(ts, p) = "n" -> [ok |-> NumParts(ts[p].v).ok, v |-> JVal("num", ts[p].v, <<>>, <<>>), next |-> p + 1]
    [] K(ts, p) = "l" -> [ok |-> ts[p].v \in Lits, v |-> JVal("lit", ts[p].v, <<>>, <<>>), next |-> p + 1]
    [] K(ts, p) = "{" -> IF K(ts, p + 1) = "}" THEN [ok |-> TRUE, v |-> JVal("obj", <<>>, <<>>, <<>>), next |-> p + 2] ELSE PMembers(ts, p + 1, <<>>)
    [] K(ts, p) = "[" -> IF K(ts, p + 1) = "]" THEN [ok |-> TRUE, v |-> JVal("arr", <<>>, <<>>, <<>>), next |-> p + 2] ELSE PItems(ts, p + 1, <<>>)
    [] OTHER -> NoVal
PMembers(ts, p, acc) ==
  IF K(ts, p) # "s" \/ K(ts, p + 1) # ":" THEN NoVal
  ELSE LET r == PVal(ts, p + 2)
           acc2 == Append(acc, [k |-> ts[p].v, v |-> r.v])
       IN IF ~r.ok THEN NoVal
          ELSE CASE K(ts, r.next) = "," -> PMembers(ts, r.next + 1, acc2)
                 [] K(ts, r.next) = "}" -> [ok |-> TRUE, v |-> JVal("obj", <<>>, acc2, <<>>), next |-> r.next + 1]
                 [] OTHER -> NoVal
PItems(ts, p, acc) ==
  LET r == PVal(ts, p)
      acc2 == Append(acc, r.v)
  IN IF ~r.ok THEN NoVal
     ELSE CASE K(ts, r.next) = "," -> PItems(ts, r.next + 1, acc2)
            [] K(ts, r.next) = "]" -> [ok |-> TRUE, v |-> JVal("arr", <<>>, <<>>, acc2), next |-> r.next + 1]
            [] OTHER -> NoVal
\* [ok, v]: the value a text denotes
ParseJson(d) ==
  LET t == Tokens(d)
      r == PVal(t.toks, 1)
  IN IF ~t.ok THEN [ok |-> FALSE, v |-> NoVal.v]
     ELSE [ok |-> r.ok /\ r.next = Len(t.toks) + 1, v |-> r.v]
=================================================================================
