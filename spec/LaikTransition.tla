--------------------------- MODULE LaikTransition ---------------------------
\* Plans for switching: what every process intends to do (P04).
\* F, T: range lists before and after over the same group of n processes.
\* pl: sequence over processes of plans [nil, l, i, s, r, x]:
\*   l: [f, t, r] keep own copy (mapping f to mapping t)   i: [m, o, r] initialise
\*   s: [m, p, r] send to process p    r: [m, p, r] receive from process p
\*   x: [in, out, im, om, op, r] reduction
EXTENDS LaikPartition

RedCode(red) == CASE red = "none" -> 0 [] red = "sum" -> 1 [] red = "prod" -> 2 [] red = "min" -> 3
                  [] red = "max" -> 4 [] red = "and" -> 5 [] red = "or" -> 6 [] red = "any" -> 7
                  [] red = "single" -> 8 [] red = "custom" -> 100

\* what callers have to respect (violations are reported by the library itself)
NoSelf(rl) == \A j, k \in 1..Len(rl) : (j # k /\ rl[j].t = rl[k].t) => ~Overlap(rl[j].r, rl[k].r)
PreservePre(F, T, n, space, red) ==
  IF Dims(space) = 1
  THEN /\ NoSelf(F) /\ NoSelf(T)
       /\ \A k \in 1..Len(F) : ~EmptyR(F[k].r)
       /\ \A k \in 1..Len(T) : ~EmptyR(T[k].r)
       /\ red = "none" =>
            /\ \A i \in UNION {Points(T[k].r) : k \in 1..Len(T)} : Cardinality(Owners(F, i)) = 1
            /\ \A i \in UNION {Points(F[k].r) : k \in 1..Len(F)} : Cardinality(Owners(F, i)) = 1
  ELSE red # "none" => IsAllP(F, n, space) /\ (IsAllP(T, n, space) \/ IsSingleP(T, space) >= 0)

InMap(rl, t, m, r) == Points(r) \subseteq UNION {Points(rl[k].r) : k \in {j \in 1..Len(rl) : rl[j].t = t /\ rl[j].m = m}}

\* the pairs of processes fit together
PairsFit(pl) ==
  \A a \in 1..Len(pl) : \A b \in 1..Len(pl) :
    LET S == SelectSeq(pl[a].s, LAMBDA e : e.p = b - 1)
        R == SelectSeq(pl[b].r, LAMBDA e : e.p = a - 1)
    \* in the same order: messages of a pair carry no names
    IN /\ [k \in 1..Len(S) |-> S[k].r] = [k \in 1..Len(R) |-> R[k].r]
       /\ a = b => S = <<>> /\ R = <<>>
RedsFit(pl, n) ==
  \A a \in 1..Len(pl) : \A k \in 1..Len(pl[a].x) :
    LET e == pl[a].x[k]
        part == SeqSet(e.in) \cup SeqSet(e.out)
    IN /\ (a - 1) \in part /\ part \subseteq 0..(n-1)
       /\ \A c \in part : \E j \in 1..Len(pl[c+1].x) :
            LET f == pl[c+1].x[j] IN f.in = e.in /\ f.out = e.out /\ f.op = e.op /\ f.r = e.r

\* nothing outside of what is owned is read or written
Bounds(pl, F, T) ==
  \A a \in 1..Len(pl) :
    /\ \A k \in 1..Len(pl[a].l) : LET e == pl[a].l[k] IN InMap(F, a-1, e.f, e.r) /\ InMap(T, a-1, e.t, e.r) /\ ~EmptyR(e.r)
    /\ \A k \in 1..Len(pl[a].i) : LET e == pl[a].i[k] IN InMap(T, a-1, e.m, e.r) /\ ~EmptyR(e.r)
    /\ \A k \in 1..Len(pl[a].s) : LET e == pl[a].s[k] IN InMap(F, a-1, e.m, e.r) /\ ~EmptyR(e.r)
    /\ \A k \in 1..Len(pl[a].r) : LET e == pl[a].r[k] IN InMap(T, a-1, e.m, e.r) /\ ~EmptyR(e.r)
    /\ \A k \in 1..Len(pl[a].x) : LET e == pl[a].x[k] IN
         /\ (a-1) \in SeqSet(e.in) => InMap(F, a-1, e.im, e.r)
         /\ (a-1) \in SeqSet(e.out) => InMap(T, a-1, e.om, e.r)
         /\ ~EmptyR(e.r)

\* sources process a plans for index i of its mapping m: number of local copies, receives, reductions
Loc(p, m, i) == {k \in 1..Len(p.l) : p.l[k].t = m /\ Has(p.l[k].r, i)}
Rec(p, m, i) == {k \in 1..Len(p.r) : p.r[k].m = m /\ Has(p.r[k].r, i)}
Red(p, a, m, i) == {k \in 1..Len(p.x) : a \in SeqSet(p.x[k].out) /\ p.x[k].om = m /\ Has(p.x[k].r, i)}
Ini(p, m, i) == {k \in 1..Len(p.i) : p.i[k].m = m /\ Has(p.i[k].r, i)}
\* values preserved
Preserved(pl, F, T, n, red) ==
  \A k \in KeysT(T) :
    LET a == k[1]  m == k[2]  i == k[3]
        p == pl[a+1]
        O == Owners(F, i)
        L == Loc(p, m, i)  R == Rec(p, m, i)  X == Red(p, a, m, i)
        nsrc == Cardinality(L) + Cardinality(R) + Cardinality(X)
    IN /\ \A j \in R : p.r[j].p \in O
       /\ \A j \in X : SeqSet(p.x[j].in) = O /\ p.x[j].op = RedCode(red)
       /\ IF Len(k[3]) = 1 \/ red # "none"
          THEN \/ nsrc = 1 /\ (Cardinality(O) > 1 => X # {})
               \/ O = {} /\ nsrc = 0 /\ Len(k[3]) > 1
          ELSE O # {} => nsrc >= 1 /\ X = {} /\ (Cardinality(O) = 1 => nsrc = 1)
       /\ Ini(p, m, i) = {}
Nothing(p) == p.l = <<>> /\ p.i = <<>> /\ p.s = <<>> /\ p.r = <<>> /\ p.x = <<>>
Initialised(pl, T, red) ==
  /\ \A k \in KeysT(T) : Cardinality(Ini(pl[k[1]+1], k[2], k[3])) >= 1
  /\ \A a \in 1..Len(pl) : /\ \A j \in 1..Len(pl[a].i) : pl[a].i[j].o = RedCode(red)
                           /\ pl[a].l = <<>> /\ pl[a].s = <<>> /\ pl[a].r = <<>> /\ pl[a].x = <<>>
\* the plans of all members
PlansOk(pl, F, T, n, flow, red) ==
  /\ \A a \in 1..Len(pl) : pl[a].nil = 0
  /\ PairsFit(pl) /\ RedsFit(pl, n) /\ Bounds(pl, F, T)
  /\ CASE flow = "pres" -> Preserved(pl, F, T, n, red)
       [] flow = "init" -> Initialised(pl, T, red)
       [] flow = "none" -> \A a \in 1..Len(pl) : Nothing(pl[a])
=============================================================================
