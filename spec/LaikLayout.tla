------------------------------ MODULE LaikLayout ------------------------------
\* Memory layouts. A mapping holds the hull of its ranges in a piece of memory laid out
\* for a (maybe larger) range A; the place of index i is its position in a walk through A:
\* first dimension fastest (default layout), or last dimension fastest (the layout the
\* test application defines itself).
\* Packing a range delivers its elements in the order of the walk with the first dimension
\* fastest, whatever the layout; a chunk of b bytes takes b div e elements.
EXTENDS LaikSystem

LayOps == {"lay", "lo", "pk", "unpk", "lcp"}

RevPos(r, i) ==
  CASE Len(r) = 2 -> i[1] - r[1]
    [] Len(r) = 4 -> (i[1] - r[1]) * (r[4] - r[3]) + (i[2] - r[3])
    [] OTHER -> ((i[1] - r[1]) * (r[4] - r[3]) + (i[2] - r[3])) * (r[6] - r[5]) + (i[3] - r[5])
Place(lay, r, i) == IF lay = 1 THEN RevPos(r, i) ELSE LexPos(r, i)
FromIdx(r) == [d \in 1..Dims(r) |-> From(r, d)]
ToIdx(r) == [d \in 1..Dims(r) |-> To(r, d)]
HullR(S) == LET a == CHOOSE x \in S : TRUE IN
  [k \in 1..Len(a) |-> IF k % 2 = 1 THEN MinSet({x[k] : x \in S}) ELSE MaxSet({x[k] : x \in S})]

\* own ranges of process w per mapping
OwnEnts(st, d, w) ==
  LET p == st.dat[d].p IN
  IF p < 0 THEN {} ELSE LET t == IndexOf(Mem(st, p), w)  rl == st.prt[p].rl IN {rl[k] : k \in {k \in 1..Len(rl) : rl[k].t = t}}
MapRanges(st, d, w, m) == {e.r : e \in {e \in OwnEnts(st, d, w) : e.m = m}}
MapsOf(st, d, w) == {e.m : e \in OwnEnts(st, d, w)}

\* what process w says about the memory of container d (es: size of an element)
LayoutWhy(st, d, w, es, lay, ob) ==
  LET A(x) == x.all
      first(x) == x.el[1][2]
      off0(x) == first(x)[2] - es * Place(lay, x.all, x.el[1][1])
      secs(i) == {y \in SeqSet(ob) : Has(y.all, i)}
      one(x) ==
        LET req == HullR(MapRanges(st, d, w, x.m)) IN
        IF x.req # req THEN "range of a mapping"
        ELSE IF ~Subset(req, x.all) THEN "memory does not hold the ranges of its mapping"
        ELSE IF Len(x.el) # SizeR(req) \/ {e[1] : e \in SeqSet(x.el)} # Points(req) THEN "indexes of a mapping"
        ELSE IF \E e \in SeqSet(x.el) : e[2][1] < 0 \/ e[2][1] # first(x)[1] THEN "element not in memory of the container"
        ELSE IF off0(x) < 0 \/ off0(x) + es * SizeR(x.all) > x.as THEN "memory too small"
        ELSE IF \E e \in SeqSet(x.el) : e[2][2] # off0(x) + es * Place(lay, x.all, e[1]) THEN "place of an index"
        ELSE IF x.base # <<first(x)[1], off0(x) + es * Place(lay, x.all, FromIdx(req))>> THEN "base address of a mapping"
        ELSE IF x.sz # [k \in 1..Dims(req) |-> To(req, k) - From(req, k)] THEN "sizes of a mapping"
        ELSE IF lay = 0 /\ x.st # [k \in 1..Dims(req) |-> ProdTo(x.all, k - 1)] THEN "strides of a mapping"
        ELSE IF x.mn # x.ls THEN "mapping of a section"
        ELSE IF \E e \in SeqSet(x.el) : secs(e[1]) = {x} /\ e[3] # x.ls THEN "section of an index"
        ELSE ""
      bad == {k \in 1..Len(ob) : one(ob[k]) # ""}
      places == UNION {{e[2] : e \in SeqSet(x.el)} : x \in SeqSet(ob)}
  IN IF [k \in 1..Len(ob) |-> ob[k].m] # [k \in 1..Cardinality(MapsOf(st, d, w)) |-> k - 1] THEN "number of mappings"
     ELSE IF bad # {} THEN one(ob[MinSet(bad)])
     ELSE IF Cardinality(places) # SumSeq([k \in 1..Len(ob) |-> Len(ob[k].el)]) THEN "two indexes in the same place"
     ELSE ""

\* packing: o.c is the sequence of <<size of chunk, elements, index reached, values>>
RECURSIVE PackSteps(_, _, _, _)
PackSteps(es, r, pos, c) == \* -> positions before each chunk, <<>> if a chunk is wrong
  IF c = <<>> THEN <<pos>>
  ELSE LET n == Min2(Head(c)[1] \div es, SizeR(r) - pos)
           idx == IF pos + n = SizeR(r) THEN ToIdx(r) ELSE LexIdx(r, pos + n)
       IN IF Head(c)[2] # n \/ Head(c)[3] # idx THEN <<>>
          ELSE LET rest == PackSteps(es, r, pos + n, Tail(c)) IN IF rest = <<>> THEN <<>> ELSE <<pos>> \o rest
PkWhy(st, d, w, es, o) ==
  IF o.m < 0 THEN (IF OwnEnts(st, d, w) = {} THEN "" ELSE "nothing packed")
  ELSE IF MapRanges(st, d, w, o.m) = {} \/ ~Subset(o.r, HullR(MapRanges(st, d, w, o.m))) THEN "range to pack"
  ELSE LET ps == PackSteps(es, o.r, 0, o.c)  val == st.dat[d].val IN
       IF ps = <<>> THEN "elements taken by a chunk"
       ELSE IF \E k \in 1..Len(o.c) : Len(o.c[k][4]) # o.c[k][2] THEN "number of packed elements"
       ELSE IF \E k \in 1..Len(o.c) : \E j \in 1..o.c[k][2] :
                 LET key == <<w, o.m, LexIdx(o.r, ps[k] + j - 1)>> IN key \in DOMAIN val /\ ~MayBe(o.c[k][4][j], val[key])
            THEN "packed value"
       ELSE ""
UnpkWhy(st, d, w, es, o) ==
  IF o.m < 0 THEN (IF OwnEnts(st, d, w) = {} THEN "" ELSE "nothing unpacked")
  ELSE IF MapRanges(st, d, w, o.m) = {} \/ ~Subset(o.r, HullR(MapRanges(st, d, w, o.m))) THEN "range to unpack"
  ELSE IF PackSteps(es, o.r, 0, o.c) = <<>> THEN "elements taken from a chunk" ELSE ""
UnpkVal(val, w, es, seed, o) ==
  IF o.m < 0 THEN val
  ELSE LET ps == PackSteps(es, o.r, 0, o.c)  n == ps[Len(ps)] IN
       [k \in DOMAIN val |-> IF k[1] = w /\ k[2] = o.m /\ Has(o.r, k[3]) /\ LexPos(o.r, k[3]) < n
                             THEN {((seed * 7 + LexPos(o.r, k[3]) * 3) % 50) + 1} ELSE val[k]]
LcpWhy(st, d, e, w, o) ==
  IF o = <<>> THEN ""
  ELSE IF MapRanges(st, d, w, o[1].m) = {} \/ MapRanges(st, e, w, o[1].m2) = {} THEN "mappings to copy"
  ELSE IF ~Subset(o[1].r, HullR(MapRanges(st, d, w, o[1].m))) \/ ~Subset(o[1].r, HullR(MapRanges(st, e, w, o[1].m2))) THEN "range to copy"
  ELSE ""
LcpVal(val, from, w, o) ==
  IF o = <<>> THEN val
  ELSE [k \in DOMAIN val |-> IF k[1] = w /\ k[2] = o[1].m2 /\ Has(o[1].r, k[3])
                             THEN (IF <<w, o[1].m, k[3]>> \in DOMAIN from THEN from[<<w, o[1].m, k[3]>>] ELSE U) ELSE val[k]]

LayWhy(st, S) ==
  LET one(w) == LET ob == S.obs[w + 1] IN
        CASE S.op = "lo" -> LayoutWhy(st, S.d, w, S.es, S.lay, ob)
          [] S.op = "pk" -> PkWhy(st, S.d, w, S.es, ob)
          [] S.op = "unpk" -> UnpkWhy(st, S.d, w, S.es, ob)
          [] S.op = "lcp" -> LcpWhy(st, S.d, S.e, w, ob)
          [] OTHER -> ""
      bad == {w \in SeqSet(S.who) : one(w) # ""}
  IN IF bad = {} THEN "" ELSE one(MinSet(bad))
LayNext(st, S) ==
  LET f[k \in 0..Len(S.who)] ==
        IF k = 0 THEN st.dat[IF S.op = "lcp" THEN S.e ELSE S.d].val
        ELSE LET w == S.who[k]  ob == S.obs[w + 1] IN
             IF S.op = "unpk" THEN UnpkVal(f[k-1], w, S.es, S.seed, ob)
             ELSE LcpVal(f[k-1], st.dat[S.d].val, w, ob)
  IN CASE S.op = "unpk" -> [st EXCEPT !.dat[S.d].val = f[Len(S.who)]]
       [] S.op = "lcp" -> [st EXCEPT !.dat[S.e].val = f[Len(S.who)]]
       [] OTHER -> st
=============================================================================
