--------------------------------- MODULE BigNat ---------------------------------
(* Natural numbers of any size as big-endian byte sequences without leading       *)
(* zeros (TLC's own integers are 32 bits wide; amounts are 64).                   *)
EXTENDS Integers, Sequences, SequencesExt
Norm(b) == LET nz == {i \in 1..Len(b) : b[i] # 0}
           IN IF nz = {} THEN <<>> ELSE SubSeq(b, CHOOSE i \in nz : \A j \in nz : i <= j, Len(b))
RECURSIVE BN(_)
BN(i) == IF i = 0 THEN <<>> ELSE Append(BN(i \div 256), i % 256)      \* from a TLC integer
RECURSIVE ToInt(_)                                                        \* to a TLC integer (must fit)
ToInt(b) == IF b = <<>> THEN 0 ELSE ToInt(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
Dig(a, i) == IF i <= Len(a) THEN a[Len(a) - i + 1] ELSE 0                 \* i-th byte from the right
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
BAdd(a, b) ==
  LET n == MaxLen(a, b) + 1
      step(acc, i) == LET s == Dig(a, i) + Dig(b, i) + acc[1] IN <<s \div 256, <<s % 256>> \o acc[2]>>
  IN Norm(FoldLeft(step, <<0, <<>>>>, [i \in 1..n |-> i])[2])
\* a - b for a >= b
BSub(a, b) ==
  LET n == Len(a)
      step(acc, i) == LET s == Dig(a, i) - Dig(b, i) - acc[1]
                      IN IF s < 0 THEN <<1, <<s + 256>> \o acc[2]>> ELSE <<0, <<s>> \o acc[2]>>
  IN Norm(FoldLeft(step, <<0, <<>>>>, [i \in 1..n |-> i])[2])
\* a * k for a TLC integer k < 2^22
BMulI(a, k) ==
  LET n == Len(a) + 4
      step(acc, i) == LET s == Dig(a, i) * k + acc[1] IN <<s \div 256, <<s % 256>> \o acc[2]>>
  IN Norm(FoldLeft(step, <<0, <<>>>>, [i \in 1..n |-> i])[2])
BLt(a, b) == \/ Len(a) < Len(b)
             \/ /\ Len(a) = Len(b)
                /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
BLe(a, b) == a = b \/ BLt(a, b)
BSum(s) == FoldLeft(BAdd, <<>>, s)
Pad(b, n) == [i \in 1..n |-> Dig(b, n - i + 1)]                            \* to exactly n bytes (low part)
Rev(b) == Reverse(b)
FromLE(b) == Norm(Rev(b))
ToLE(b, n) == Rev(Pad(b, n))
Zeros(n) == [i \in 1..n |-> 0]
Slice(b, from, n) == SubSeq(b, from, from + n - 1)                          \* n bytes from 1-based position
=================================================================================
