------------------------------ MODULE LaikBase ------------------------------
\* Index sets. A range over a space of d dimensions is the sequence
\* <<from1, to1, .., fromd, tod>> (half open), an index a sequence of d integers.
\* Every operation on ranges is defined through the set of points it contains.
EXTENDS Integers, Sequences, FiniteSets, TLC

Dims(r) == Len(r) \div 2
From(r, d) == r[2*d - 1]
To(r, d) == r[2*d]
EmptyR(r) == \E d \in 1..Dims(r) : From(r, d) >= To(r, d)
Points(r) ==
  CASE Len(r) = 2 -> {<<x>> : x \in r[1]..(r[2]-1)}
    [] Len(r) = 4 -> {<<x, y>> : x \in r[1]..(r[2]-1), y \in r[3]..(r[4]-1)}
    [] OTHER -> {<<x, y, z>> : x \in r[1]..(r[2]-1), y \in r[3]..(r[4]-1), z \in r[5]..(r[6]-1)}
Has(r, i) == \A d \in 1..Dims(r) : From(r, d) <= i[d] /\ i[d] < To(r, d)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Inter(r, s) == [k \in 1..Len(r) |-> IF k % 2 = 1 THEN Max2(r[k], s[k]) ELSE Min2(r[k], s[k])]
Overlap(r, s) == ~EmptyR(Inter(r, s))
Subset(r, s) == EmptyR(r) \/ \A d \in 1..Dims(r) : From(s, d) <= From(r, d) /\ To(r, d) <= To(s, d)
RECURSIVE ProdTo(_, _)
ProdTo(r, d) == IF d = 0 THEN 1 ELSE (To(r, d) - From(r, d)) * ProdTo(r, d - 1)
SizeR(r) == IF EmptyR(r) THEN 0 ELSE ProdTo(r, Dims(r))
\* position of index i in a walk through r with the first dimension fastest
LexPos(r, i) ==
  LET n1 == To(r,1) - From(r,1) IN
  CASE Len(r) = 2 -> i[1] - r[1]
    [] Len(r) = 4 -> (i[1] - r[1]) + n1 * (i[2] - r[3])
    [] OTHER -> (i[1] - r[1]) + n1 * ((i[2] - r[3]) + (r[4] - r[3]) * (i[3] - r[5]))
\* index at position k (from 0)
LexIdx(r, k) ==
  LET n1 == To(r,1) - From(r,1) IN
  CASE Len(r) = 2 -> <<r[1] + k>>
    [] Len(r) = 4 -> <<r[1] + (k % n1), r[3] + (k \div n1)>>
    [] OTHER -> LET n2 == r[4] - r[3] IN <<r[1] + (k % n1), r[3] + ((k \div n1) % n2), r[5] + (k \div (n1*n2))>>

Range(f) == {f[x] : x \in DOMAIN f}
SeqSet(s) == {s[k] : k \in 1..Len(s)}
IsSorted(s, le(_, _)) == \A k \in 1..(Len(s)-1) : le(s[k], s[k+1])
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumFun(_, _)
SumFun(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFun(f, S \ {x})
SumSet(S, op(_)) == SumFun([x \in S |-> op(x)], S)
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : y >= x
Abs(x) == IF x < 0 THEN -x ELSE x
IndexOf(s, x) == IF \E k \in 1..Len(s) : s[k] = x THEN (CHOOSE k \in 1..Len(s) : s[k] = x) - 1 ELSE -1
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
Put(f, k, v) == (k :> v) @@ f
=============================================================================
