------------------------------ MODULE LaikExtra ------------------------------
\* Operations on ranges, spaces, range lists and indexes: what the program asks for without
\* changing anything.
EXTENDS LaikSystem

\* list in the order of processes (entries of one process keep their order and mappings)
OwnSorted(l, n) == LET f[k \in 0..n] == IF k = 0 THEN <<>> ELSE f[k-1] \o OwnEntries(l, k-1) IN f[n]

Bool(x) == IF x THEN 1 ELSE 0
\* smallest range containing two others
Hull(a, b) == [k \in 1..Len(a) |-> IF k % 2 = 1 THEN Min2(a[k], b[k]) ELSE Max2(a[k], b[k])]
\* operations on two ranges a, b of a space sp; o: answers of the library
RangesOk(a, b, sp, o) ==
  /\ o.e = <<Bool(EmptyR(a)), Bool(EmptyR(b))>>
  /\ o.z # -1 => o.z = SizeR(a)
  /\ o.w = <<Bool(Subset(a, b)), Bool(Subset(b, a)), Bool(Subset(a, sp))>>
  \* equality is equality of the borders
  /\ o.q = <<Bool(a = b), Bool(\A d \in 1..Dims(a) : From(a, d) = From(b, d))>>
  /\ o.i = (IF Overlap(a, b) THEN Inter(a, b) ELSE <<>>)
  /\ o.i2 = o.i
  /\ (~EmptyR(a) /\ ~EmptyR(b)) => o.x = Hull(a, b)
  /\ Subset(a, o.x) /\ Subset(b, o.x)
RngBad(s, st, o) == {k \in 1..Len(s.pairs) : ~RangesOk(s.pairs[k][1], s.pairs[k][2], st.spc[s.s], o[k])}

\* answers about process e.t of a range list
TidOk(rl, e) ==
  LET own == OwnEntries(rl, e.t) IN
  /\ e.rc = Len(own) /\ e.r = own
  /\ e.mc = Cardinality({own[k].m : k \in 1..Len(own)})
  /\ e.m = [m \in 1..e.mc |-> SelectSeq(own, LAMBDA x : x.m = m - 1)]

\* conversion of global index i of a process with own entries own; o: <<mapping, local index, back>>
ConvOk(own, i, o) ==
  LET at == {own[k].m : k \in {j \in 1..Len(own) : Has(own[j].r, <<i>>)}}
      lo(m) == MinSet({own[k].r[1] : k \in {j \in 1..Len(own) : own[j].m = m}})
      hi(m) == MaxSet({own[k].r[2] : k \in {j \in 1..Len(own) : own[j].m = m}})
      covering == {m \in {own[k].m : k \in 1..Len(own)} : lo(m) <= i /\ i < hi(m)}
  IN /\ at # {} => o[1] \in at
     /\ covering = {} <=> o[1] = -1
     /\ o[1] # -1 => o[1] \in covering /\ o[2] = i - lo(o[1]) /\ o[3] = i

ExtraOps == {"chs", "tq", "g2l", "rng"}
ExtraWhy(st, s, sc) ==
  LET who == SeqSet(s.who)  ob(w) == s.obs[w + 1] IN
  CASE s.op = "chs" -> IF \E w \in who : ob(w) # <<SizeR(s.r), Dims(s.r), s.r>> THEN "borders or size of changed space" ELSE ""
    [] s.op = "rng" -> IF \E w \in who : RngBad(s, st, ob(w)) # {} THEN "operation on ranges" ELSE ""
    [] s.op = "tq" -> IF \E w \in who : \E k \in 1..Len(s.tids) : ob(w)[k].t # s.tids[k] \/ ~TidOk(st.prt[s.p].rl, ob(w)[k]) THEN "answers per process" ELSE ""
    [] s.op = "g2l" ->
         LET p == st.dat[s.d].p
             own(w) == IF p < 0 THEN <<>> ELSE OwnEntries(st.prt[p].rl, IndexOf(Mem(st, p), w))
         IN IF \E w \in who : \E k \in 1..Len(s.idx) : ~ConvOk(own(w), s.idx[k], ob(w)[k]) THEN "conversion of index" ELSE ""
ExtraNext(st, s, sc) == st
=============================================================================
