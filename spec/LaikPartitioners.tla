--------------------------- MODULE LaikPartitioners ---------------------------
\* What each provided partitioner has to deliver: predicates on the resulting range list
\* rl for a group of n processes and a space. Nothing here says how blocks are computed.
EXTENDS LaikPartition

OnlyOwners(rl, space) == \A i \in Points(space) : Cardinality(Owners(rl, i)) = 1
\* no index twice in the ranges of one process
NoSelfOverlap(rl) == \A j, k \in 1..Len(rl) : j # k /\ rl[j].t = rl[k].t => ~Overlap(rl[j].r, rl[k].r)
NoEmpty(rl) == \A k \in 1..Len(rl) : ~EmptyR(rl[k].r)
ExactlyOnce(rl, space) == OnlyOwners(rl, space) /\ NoSelfOverlap(rl) /\ NoEmpty(rl)

AllOk(rl, n, space) == IsAllP(rl, n, space)
MasterOk(rl, n, space) == Len(rl) = 1 /\ rl[1].t = 0 /\ rl[1].r = space

\* borders of dimension fd of the base in dimension td, full extent elsewhere
CopyOk(rl, base, space, fd, td) ==
  LET f(r) == [k \in 1..Len(space) |-> IF k = 2*td + 1 THEN r[2*fd + 1] ELSE IF k = 2*td + 2 THEN r[2*fd + 2] ELSE space[k]]
  IN SameBag([k \in 1..Len(rl) |-> <<rl[k].t, rl[k].g, rl[k].r>>],
             [k \in 1..Len(base) |-> <<base[k].t, base[k].g, f(base[k].r)>>])

Grow(r, d, c, space) == \* range r extended by depth d in all dimensions of set c, clamped
  [k \in 1..Len(r) |-> IF ((k + 1) \div 2) \notin c THEN r[k]
                       ELSE IF k % 2 = 1 THEN Max2(r[k] - d, space[k]) ELSE Min2(r[k] + d, space[k])]
\* base range together with the neighbours per dimension (no corners)
HaloPts(r, d, space) == UNION {Points(Grow(r, d, {c}, space)) : c \in 1..Dims(r)}
CornerPts(r, d, space) == Points(Grow(r, d, 1..Dims(r), space))
HaloOk(rl, base, n, space, d) ==
  \A t \in 0..(n-1) :
    /\ OwnPoints(rl, t) = UNION {HaloPts(e.r, d, space) : e \in SeqSet(OwnEntries(base, t))}
    \* halos go into the mapping of their range: one mapping per tag
    /\ \A g \in {base[k].g : k \in {j \in 1..Len(base) : base[j].t = t}} :
         PtsOf(rl, t, g) = UNION {HaloPts(base[k].r, d, space) : k \in {j \in 1..Len(base) : base[j].t = t /\ base[j].g = g}}
CornerOk(rl, base, n, space, d) ==
  SameBag([k \in 1..Len(rl) |-> <<rl[k].t, rl[k].g, rl[k].r>>],
          [k \in 1..Len(base) |-> <<base[k].t, base[k].g, Grow(base[k].r, d, 1..Dims(space), space)>>])

BisectOk(rl, n, space) ==
  /\ ExactlyOnce(rl, space)
  /\ \A t \in 0..(n-1) : Len(OwnEntries(rl, t)) <= 1
  /\ \A k \in 1..Len(rl) : rl[k].g > 0
\* one block per grid position, positions to processes with the first dimension fastest
GridOk(rl, n, space, gx, gy, gz) ==
  /\ ExactlyOnce(rl, space)
  /\ \A t \in 0..(n-1) : Len(OwnEntries(rl, t)) <= 1
  /\ LET nb == <<gx, gy, gz>>
         pos(t) == <<t % gx, (t \div gx) % gy, t \div (gx * gy)>>
     IN \/ \E d \in 1..3 : To(space, d) - From(space, d) < nb[d]  \* fewer indexes than blocks: positions are skipped
        \/ /\ {rl[k].t : k \in 1..Len(rl)} = 0..(gx*gy*gz - 1)
           /\ \A j, k \in 1..Len(rl) : \A d \in 1..3 :
                LET a == pos(rl[j].t)[d]  b == pos(rl[k].t)[d] IN
                /\ a < b => To(rl[j].r, d) <= From(rl[k].r, d)
                /\ a = b => From(rl[j].r, d) = From(rl[k].r, d) /\ To(rl[j].r, d) = To(rl[k].r, d)
                /\ Abs((To(rl[j].r, d) - From(rl[j].r, d)) * nb[d] - (To(space, d) - From(space, d))) <= nb[d]

\* weights used by the drivers (index relative to the origin), all integers
IdxW(w, x) == CASE w = 0 -> 1 [] w = 1 -> 1 + (x % 3) [] w = 2 -> (IF x % 4 = 0 THEN 4 ELSE 1) [] w = 3 -> (IF x % 2 = 1 THEN 0 ELSE 1)
MaxIdxW(w) == CASE w = 0 -> 1 [] w = 1 -> 3 [] w = 2 -> 4 [] w = 3 -> 1
TaskW(w, t) == CASE w = 0 -> 1 [] w = 1 -> 1 + t [] w = 2 -> (IF t % 2 = 1 THEN 3 ELSE 1) [] w = 3 -> (IF t = 1 THEN 0 ELSE 1)
WeightOf(w, f, t) == SumSet(f..(t-1), LAMBDA x : IdxW(w, x))
\* block partitioning of dimension pd (from 0)
BlockOk(rl, n, space, pd, cyc, iw, tw) ==
  LET f == space[2*pd + 1]  e == space[2*pd + 2]
      lo(k) == rl[k].r[2*pd + 1]  hi(k) == rl[k].r[2*pd + 2]
      total == WeightOf(iw, f, e)
      totalT == SumSet(0..(n-1), LAMBDA t : TaskW(tw, t))
      share(t) == SumSet({k \in 1..Len(rl) : rl[k].t = t}, LAMBDA k : WeightOf(iw, lo(k), hi(k)))
      ByPos == [k \in 1..Len(rl) |-> LET c == {j \in 1..Len(rl) : lo(j) < lo(k)} IN Cardinality(c)]
      At(p) == CHOOSE k \in 1..Len(rl) : ByPos[k] = p
  IN /\ ExactlyOnce(rl, space)
     \* full extent in the other dimensions
     /\ \A k \in 1..Len(rl) : \A d \in 1..Dims(space) : d # pd + 1 => From(rl[k].r, d) = From(space, d) /\ To(rl[k].r, d) = To(space, d)
     \* dealt out in order of processes, at most cyc rounds
     /\ LET slot[p \in 0..(Len(rl)-1)] == IF p = 0 THEN rl[At(0)].t
                 ELSE LET prev == slot[p-1]  t == rl[At(p)].t IN
                      IF t > prev % n THEN (prev \div n) * n + t ELSE (prev \div n + 1) * n + t
            \* weights of the processes up to the start of a slot
            twsum(sl) == (sl \div n) * totalT + SumSet(0..((sl % n) - 1), LAMBDA t : TaskW(tw, t))
        IN /\ Len(rl) > 0 => slot[Len(rl) - 1] < n * cyc
           \* every block starts where the weights put it
           /\ (total >= 2 * cyc * n * MaxIdxW(iw)) =>
                \A p \in 0..(Len(rl)-1) :
                   Abs(WeightOf(iw, f, lo(At(p))) * cyc * totalT - total * twsum(slot[p])) <= MaxIdxW(iw) * cyc * totalT
     \* shares follow the weights: rounding only, by less than one index per cycle
     /\ \A t \in 0..(n-1) : Abs(share(t) * totalT - total * TaskW(tw, t)) <= (cyc * MaxIdxW(iw) + 0) * totalT
     /\ (iw = 0 /\ tw = 0) => \A t, u \in 0..(n-1) : Abs(share(t) - share(u)) <= cyc

\* redistribution of the indexes of removed processes; newm: members of the smaller group
\* as ranks of the old one
ReassignOk(rl, base, n, space, newm, iw) ==
  LET keep == {k \in 1..Len(base) : base[k].t \in SeqSet(newm)}
      lost == UNION {Points(base[k].r) : k \in (1..Len(base)) \ keep}
      W(S) == SumSet(S, LAMBDA i : IdxW(iw, i[1]))
      total == W(lost)
  IN /\ \A i \in Points(space) : Owners(base, i) # {} =>
          IF Owners(base, i) \cap SeqSet(newm) # {} /\ i \notin lost THEN Owners(rl, i) = Owners(base, i)
          ELSE Cardinality(Owners(rl, i) \ Owners(base, i)) <= 1 /\ Owners(rl, i) # {} /\ Owners(rl, i) \subseteq SeqSet(newm)
     /\ \A i \in Points(space) : Owners(base, i) = {} => Owners(rl, i) = {}
     /\ NoEmpty(rl)
     \* balanced: nobody takes more than its share of the weight plus one index
     /\ \A t \in SeqSet(newm) : t # newm[Len(newm)] =>
          W({i \in lost : t \in Owners(rl, i) /\ t \notin Owners(base, i)}) * Len(newm) <= total + MaxIdxW(iw) * Len(newm)
=============================================================================
