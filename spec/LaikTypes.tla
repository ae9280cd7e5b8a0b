------------------------------ MODULE LaikTypes ------------------------------
\* Values of the predefined data types and the reductions on them.
\* Values are abstracted as in the logs: the largest value of a type that does not fit
\* into 32 bit is 1000000001, the lowest one -1000000001.
\* A location of a container holds a set of values it may contain; Undef in the set
\* stands for arbitrary content.
EXTENDS LaikBase

VMax == 1000000001
VMin == -1000000001
Undef == 1999999999
U == {Undef}

IsUnsigned(t) == t \in {"uchar", "uint32", "uint64"}
IsFloat(t) == t \in {"float", "double"}
TypeMax(t) == CASE t = "char" -> 127 [] t = "uchar" -> 255 [] OTHER -> VMax
TypeMin(t) == CASE t = "char" -> -128 [] IsUnsigned(t) -> 0 [] OTHER -> VMin
AllOnes(t) == IF IsUnsigned(t) THEN TypeMax(t) ELSE -1
\* wrap to 8 bit types
Wrap(t, v) == CASE t = "char" -> ((v + 128) % 256) - 128
                [] t = "uchar" -> v % 256
                [] OTHER -> v

RECURSIVE BitOp(_, _, _)
BitOp(and, a, b) ==
  IF a = 0 /\ b = 0 THEN 0
  ELSE LET x == a % 2  y == b % 2
           z == IF and THEN x * y ELSE Max2(x, y)
       IN z + 2 * BitOp(and, a \div 2, b \div 2)

Neutral(t, red) ==
  CASE red \in {"sum", "or"} -> 0
    [] red = "prod" -> 1
    [] red = "and" -> AllOnes(t)
    [] red = "min" -> TypeMax(t)
    [] red = "max" -> TypeMin(t)
    [] red = "custom" -> 0

\* combination of two values (Undef where the result cannot be followed with 32 bit integers)
Comb(t, red, a, b) ==
  CASE Abs(a) > VMax \/ Abs(b) > VMax -> Undef
    [] red = "sum" -> IF Abs(a) > 500000000 \/ Abs(b) > 500000000 THEN Undef ELSE Wrap(t, a + b)
    [] red = "prod" -> IF (Abs(a) > 30000 /\ Abs(b) > 1) \/ (Abs(b) > 30000 /\ Abs(a) > 1) THEN Undef ELSE Wrap(t, a * b)
    [] red = "min" -> Min2(a, b)
    [] red = "max" -> Max2(a, b)
    [] red = "and" -> IF a = AllOnes(t) THEN b ELSE IF b = AllOnes(t) THEN a ELSE IF a < 0 \/ b < 0 \/ a >= VMax \/ b >= VMax THEN Undef ELSE BitOp(TRUE, a, b)
    [] red = "or" -> IF a = AllOnes(t) \/ b = AllOnes(t) THEN AllOnes(t) ELSE IF a < 0 \/ b < 0 \/ a >= VMax \/ b >= VMax THEN Undef ELSE BitOp(FALSE, a, b)

\* combination of sets of possible values
CombSets(t, red, A, B) ==
  IF Undef \in A \/ Undef \in B \/ Cardinality(A) * Cardinality(B) > 64 THEN U
  ELSE {Comb(t, red, a, b) : a \in A, b \in B}

RECURSIVE FoldSets(_, _, _)
FoldSets(t, red, s) == IF Len(s) = 1 THEN s[1] ELSE CombSets(t, red, s[1], FoldSets(t, red, Tail(s)))

MayBe(v, S) == Undef \in S \/ v \in S
=============================================================================
