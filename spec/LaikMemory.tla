----------------------------- MODULE LaikMemory -----------------------------
\* Memory of containers, and the statistics about what switching did.
\*   st.mem.res: reservation -> [d: container, ps: set of partitionings]
\*   st.mem.act: container -> reservation in use      st.mem.via: container -> reservation its memory is from (or -1)
\*   st.mem.plc: <<reservation, process, tag>> -> <<piece of memory, range it is laid out for>>, once seen
\*   st.mem.obs: <<process, container>> -> mapping -> <<piece, range>>, as last seen
\*   st.mem.prov: <<process, container>> -> piece of memory last provided
\*   st.mem.due: containers switched since their memory was seen
\*   st.mem.stat: <<process, container>> -> statistics last seen, st.mem.real: process -> counters last seen
\*   st.mem.todo: container -> what switching did since then, per process
EXTENDS LaikLayout

MemOps == {"res", "ures", "fres", "fd", "prov", "mm", "sst", "ssa"}
SwitchOps == {"sw", "swf", "swn", "initp", "xt", "xa"}

Get(f, k, v) == IF k \in DOMAIN f THEN f[k] ELSE v
Drop(f, K) == [k \in DOMAIN f \ K |-> f[k]]

\* ---- memory
\* tags of the ranges process w has in the partitionings of reservation r
BlockTags(st, r, w) ==
  UNION {LET t == IndexOf(Mem(st, p), w)  rl == st.prt[p].rl IN {rl[k].g : k \in {k \in 1..Len(rl) : rl[k].t = t}} : p \in st.mem.res[r].ps}
TagOf(st, d, w, m) == (CHOOSE e \in OwnEnts(st, d, w) : e.m = m).g
ViaOf(st, d) == Get(st.mem.via, d, -1)
\* what process w says about all memory (o.al: pieces in use, o.mp: mappings of containers)
MmWhy(st, w, o) ==
  LET al == SeqSet(o.al)  mp == SeqSet(o.mp)
      piece(i) == CHOOSE a \in al : a.i = i
      known(x) == \E a \in al : a.i = x.at[1]
      want == {<<d, m>> : <<d, m>> \in UNION {{<<d, m>> : m \in MapsOf(st, d, w)} : d \in DOMAIN st.dat}}
      resof(d) == {r \in DOMAIN st.mem.res : st.mem.res[r].d = d}
      via(x) == ViaOf(st, x.d)
      place(x) == <<x.at[1], x.all>>
      key(x) == <<via(x), w, TagOf(st, x.d, w, x.m)>>
      other == {x.at[1] : x \in {x \in mp : via(x) < 0}}
      own(d) == {x.at[1] : x \in {x \in mp : x.d = d /\ via(x) < 0}}
      got(d) == {a.i : a \in {a \in al : a.d = d /\ a.k = 0}}
      blocks(d) == got(d) \ own(d)
      nblocks(d) == SumSet(resof(d), LAMBDA r : Cardinality(BlockTags(st, r, w)))
      seen(d) == Get(st.mem.obs, <<w, d>>, <<>>)
      prov(d) == Get(st.mem.prov, <<w, d>>, -1)
  IN IF {<<x.d, x.m>> : x \in mp} # want \/ Len(o.mp) # Cardinality(want) THEN "mappings of containers"
     ELSE IF \E x \in mp : ~known(x) THEN "mapping without memory"
     ELSE IF \E x \in mp : piece(x.at[1]).d # x.d THEN "memory of another container"
     ELSE IF \E x \in mp : x.st[1] # x.at[1] \/ x.st[2] # 0 THEN "start of the memory of a mapping"
     \* mappings in a reservation: always the same place for the same tag
     ELSE IF \E x \in mp : via(x) >= 0 /\ key(x) \in DOMAIN st.mem.plc /\ st.mem.plc[key(x)] # place(x) THEN "another place in a reservation"
     ELSE IF \E x, y \in mp : via(x) >= 0 /\ via(x) = via(y) /\ x # y /\ x.at[1] = y.at[1] THEN "two mappings in one block of a reservation"
     ELSE IF \E x \in mp : via(x) >= 0 /\ x.at[1] \in other THEN "memory of a reservation used without it"
     ELSE IF \E x \in mp : via(x) >= 0 /\ \E k \in DOMAIN st.mem.plc : k[2] = w /\ k # key(x) /\ st.mem.plc[k][1] = x.at[1] THEN "block of another tag of a reservation"
     ELSE IF \E x \in mp : via(x) < 0 /\ \E k \in DOMAIN st.mem.plc : k[2] = w /\ st.mem.plc[k][1] = x.at[1] THEN "memory of a reservation used without it"
     \* nothing is kept which nobody uses, or returned early
     ELSE IF \E d \in DOMAIN st.dat : st.dat[d].acc = 1 /\ Cardinality(blocks(d)) # nblocks(d) THEN "memory kept or returned"
     ELSE IF \E a \in al : a.k = 0 /\ a.d \notin DOMAIN st.dat THEN "memory kept after freeing its container"
     ELSE IF \E k \in DOMAIN st.mem.plc : k[2] = w /\ ~\E a \in al : a.i = st.mem.plc[k][1] /\ a.k = 0 THEN "memory of a reservation returned"
     \* provided memory is used by the next switch, unless it is still in use
     ELSE IF \E d \in st.mem.due : /\ prov(d) >= 0 /\ ViaOf(st, d) < 0 /\ MapsOf(st, d, w) # {}
                                   /\ ~\E m \in DOMAIN seen(d) : seen(d)[m][1] = prov(d)
                                   /\ ~\E x \in mp : x.d = d /\ x.m = 0 /\ x.at[1] = prov(d) THEN "provided memory not used"
     ELSE ""
MmObs(st, w, o) ==
  [mp |-> [k \in {<<w, d>> : d \in DOMAIN st.dat} |->
            [m \in {x.m : x \in {x \in SeqSet(o.mp) : x.d = k[2]}} |-> LET x == CHOOSE x \in SeqSet(o.mp) : x.d = k[2] /\ x.m = m IN <<x.at[1], x.all>>]],
   pl |-> LET V == {x \in SeqSet(o.mp) : ViaOf(st, x.d) >= 0} IN
          [k \in {<<ViaOf(st, x.d), w, TagOf(st, x.d, w, x.m)>> : x \in V} |->
            LET x == CHOOSE x \in V : k = <<ViaOf(st, x.d), w, TagOf(st, x.d, w, x.m)>> IN <<x.at[1], x.all>>]]

\* ---- statistics
StatNames == <<"switches", "noact", "mallocs", "frees", "mbytes", "fbytes", "cur", "max", "inited", "copied", "trans", "sends", "asends", "recvs", "arecvs", "reds",
               "esend", "erecv", "ered", "bsend", "brecv", "bred", "initops", "redops", "bufcopy">>
SIdx(n) == CHOOSE k \in 1..Len(StatNames) : StatNames[k] = n
ES(ty) == CASE ty \in {"char", "uchar"} -> 1 [] ty \in {"int32", "uint32", "float"} -> 4 [] OTHER -> 8
\* what a switch from keys F to keys T does at process w, seen from outside: elements initialised,
\* and elements which are local before and after <<mapping before, key>>
InitOf(val, K, flow, red, w) ==
  IF flow = "init" THEN {k \in K : k[1] = w}
  ELSE IF flow = "pres" /\ red # "none" THEN LET D == DOMAIN val  W == Places(D) IN {k \in K : k[1] = w /\ Len(k[3]) = 1 /\ Holders(D, W, k[3]) = {}}
  ELSE {}
LocalOf(val, K, flow, w) ==
  IF flow # "pres" THEN {}
  ELSE LET D == DOMAIN val  W == Places(D) IN UNION {LET H == Holders(D, W, k[3]) IN IF Cardinality(H) = 1 /\ (CHOOSE h \in H : TRUE)[1] = w THEN {<<(CHOOSE h \in H : TRUE)[2], k>>} ELSE {} : k \in {k \in K : k[1] = w}}
MaybeLocalOf(val, K, flow, red, w) ==
  IF flow # "pres" THEN {}
  ELSE LET D == DOMAIN val  W == Places(D) IN
       {k \in K : k[1] = w /\ red = "none" /\ Cardinality(Holders(D, W, k[3])) > 1 /\ \E h \in Holders(D, W, k[3]) : h[1] = w}
\* the step, as a switch: <<container, to, flow, reduction>>
AsSwitch(st, S) ==
  CASE S.op \in {"sw", "swn"} -> <<S.d, S.p, S.f, S.r>>
    [] S.op = "swf" -> <<S.d, st.dat[S.d].p, S.f, S.r>>
    [] S.op = "initp" -> <<S.d, S.p, "none", "none">>
    [] S.op = "xt" -> LET x == st.trn[S.t] IN <<S.d, x.to, x.f, x.r>>
    [] S.op = "xa" -> LET q == st.seq[S.a]  x == st.trn[q.t] IN <<q.d, x.to, x.f, x.r>>
\* does this switch count (nothing to nothing does not)
Counts(st, S, a) == S.op # "initp" /\ ~(a[2] < 0 /\ st.dat[a[1]].p < 0)
Work(st, new, S, w) ==
  LET a == AsSwitch(st, S)  d == a[1]
      K == DOMAIN new.dat[d].val  val == st.dat[d].val
      f == IF S.op = "initp" THEN "none" ELSE IF st.dat[d].p < 0 /\ a[3] = "pres" THEN "none" ELSE a[3]
  IN [n |-> IF Counts(st, S, a) THEN 1 ELSE 0,
      ini |-> Cardinality(InitOf(val, K, f, a[4], w)),
      loc |-> LocalOf(val, K, f, w), may |-> Cardinality(MaybeLocalOf(val, K, f, a[4], w)),
      nact |-> IF S.op = "xt" /\ st.trn[S.t].pl[w+1].nil = 0 THEN (IF Nothing(st.trn[S.t].pl[w+1]) THEN 1 ELSE 0)
               ELSE IF S.op = "xa" /\ st.trn[st.seq[S.a].t].pl[w+1].nil = 0 THEN (IF Nothing(st.trn[st.seq[S.a].t].pl[w+1]) THEN 1 ELSE 0)
               ELSE -1,
      old |-> Get(st.mem.obs, <<w, d>>, <<>>)]
\* statistics of container d at process w; o.re: memory requests, returns, bytes of both, held now,
\* largest held, buffers held by prepared sequences (number, bytes), elements reduced and
\* initialised, messages sent, bytes, received, bytes, reductions, bytes
SstWhy(st, d, w, o) ==
  LET p == Get(st.mem.stat, <<w, d>>, [st |-> [k \in 1..25 |-> 0], bn |-> 0])
      r == Get(st.mem.real, w, <<>>)
      W == Get(st.mem.todo, d, <<>>)
      es == ES(st.dat[d].ty)
      D(n) == o.st[SIdx(n)] - p.st[SIdx(n)]
      V(n) == o.st[SIdx(n)]
      R(k) == o.re[k] - r[k]
      work == IF W = <<>> THEN [n |-> 0, ini |-> 0, loc |-> {}, may |-> 0, nact |-> -1, old |-> <<>>] ELSE W[w]
      now == Get(st.mem.obs, <<w, d>>, <<>>)
      moved == {x \in work.loc : x[1] \notin DOMAIN work.old \/ x[2][2] \notin DOMAIN now \/ work.old[x[1]] # now[x[2][2]]}
      first == <<w, d>> \notin DOMAIN st.mem.stat
  IN IF D("switches") # work.n THEN "number of switches"
     ELSE IF D("noact") < 0 \/ D("noact") > work.n \/ (work.nact >= 0 /\ D("noact") # work.nact) THEN "number of switches without actions"
     ELSE IF work.nact >= 0 /\ D("trans") # work.n THEN "number of transitions"
     ELSE IF D("trans") < 0 \/ D("trans") > work.n THEN "number of transitions"
     ELSE IF \E k \in {1, 2, 3, 4, 5, 6, 8, 9, 10, 11} : o.st[k] < p.st[k] THEN "counter went backwards"
     \* memory: what the allocator saw plus buffers of sequences
     ELSE IF V("mallocs") - o.re[1] # (V("frees") - o.re[2]) + o.re[7] THEN "number of allocations"
     ELSE IF V("mbytes") - o.re[3] # (V("fbytes") - o.re[4]) + o.re[8] THEN "bytes allocated"
     ELSE IF V("mallocs") < o.re[1] \/ V("frees") < o.re[2] \/ V("mbytes") < o.re[3] \/ V("fbytes") < o.re[4] THEN "allocations not counted"
     ELSE IF V("cur") # o.re[5] + o.re[8] THEN "bytes held"
     ELSE IF V("max") < V("cur") \/ V("max") < o.re[6] THEN "largest number of bytes held"
     ELSE IF V("mallocs") = o.re[1] /\ V("max") # o.re[6] THEN "largest number of bytes held"
     ELSE IF first THEN ""
     \* messages
     ELSE IF D("sends") + D("asends") # R(11) \/ D("bsend") # R(12) \/ D("esend") * es # D("bsend") THEN "messages sent"
     ELSE IF D("recvs") + D("arecvs") # R(13) \/ D("brecv") # R(14) \/ D("erecv") * es # D("brecv") THEN "messages received"
     ELSE IF D("reds") # R(15) \/ D("bred") # R(16) \/ D("ered") * es # D("bred") THEN "reductions"
     ELSE IF D("redops") # R(9) THEN "elements reduced"
     \* memory initialised and copied
     ELSE IF D("initops") * es + D("inited") # R(10) * es THEN "elements initialised"
     ELSE IF D("initops") * es + D("inited") # work.ini * es THEN "bytes initialised"
     ELSE IF D("copied") < Cardinality(moved) * es \/ D("copied") > (Cardinality(moved) + work.may) * es THEN "bytes copied"
     ELSE ""
SsaWhy(o) == IF \E k \in 1..25 : o.s[k] # SumSeq([j \in 1..Len(o.l) |-> o.l[j][k]]) THEN "sum of statistics" ELSE ""

MemWhy(st, S) ==
  LET one(w) == LET o == S.obs[w + 1] IN
        CASE S.op = "mm" -> MmWhy(st, w, o)
          [] S.op = "sst" -> SstWhy(st, S.d, w, o)
          [] S.op = "ssa" -> SsaWhy(o)
          [] OTHER -> ""
      bad == {w \in SeqSet(S.who) : one(w) # ""}
  IN IF bad = {} THEN "" ELSE one(MinSet(bad))

\* new: successor of st in everything else
MemNext(st, new, S) ==
  LET Who2 == SeqSet(S.who) IN
  CASE S.op = "res" -> [new EXCEPT !.mem.res = Put(@, S.r, [d |-> S.d, ps |-> SeqSet(S.ps)])]
    [] S.op = "ures" -> [new EXCEPT !.mem.act = Put(@, S.d, S.r)]
    [] S.op = "fres" -> [new EXCEPT !.mem.res = Drop(@, {S.r}), !.mem.act = [d \in {d \in DOMAIN @ : @[d] # S.r} |-> @[d]],
                                    !.mem.plc = [k \in {k \in DOMAIN @ : k[1] # S.r} |-> @[k]]]
    [] S.op = "fd" -> [new EXCEPT !.dat = Drop(@, {S.d}), !.mem.act = Drop(@, {S.d}), !.mem.via = Drop(@, {S.d}), !.mem.due = @ \ {S.d},
                                  !.mem.obs = [k \in {k \in DOMAIN @ : k[2] # S.d} |-> @[k]], !.mem.prov = [k \in {k \in DOMAIN @ : k[2] # S.d} |-> @[k]],
                                  !.mem.stat = [k \in {k \in DOMAIN @ : k[2] # S.d} |-> @[k]], !.mem.todo = Drop(@, {S.d})]
    [] S.op = "prov" -> [new EXCEPT !.mem.prov = [k \in {<<w, S.d>> : w \in Who2} |-> S.obs[k[1] + 1]] @@ @]
    [] S.op = "mm" -> [new EXCEPT
         !.mem.obs = [k \in {<<w, d>> : w \in Who2, d \in DOMAIN st.dat} |-> MmObs(st, k[1], S.obs[k[1] + 1]).mp[k]] @@ @,
         !.mem.plc = [k \in UNION {DOMAIN MmObs(st, w, S.obs[w + 1]).pl : w \in Who2} |-> MmObs(st, k[2], S.obs[k[2] + 1]).pl[k]] @@ @,
         !.mem.due = {}]
    [] S.op = "sst" -> [new EXCEPT !.mem.stat = [k \in {<<w, S.d>> : w \in Who2} |-> [st |-> S.obs[k[1] + 1].st, bn |-> 0]] @@ @,
                                   !.mem.real = [w \in Who2 |-> S.obs[w + 1].re] @@ @, !.mem.todo = Drop(@, {S.d})]
    [] S.op \in SwitchOps ->
         LET a == AsSwitch(st, S)  d == a[1]
             r == Get(st.mem.act, d, -1)
         IN [new EXCEPT !.mem.via = Put(@, d, IF r >= 0 /\ a[2] >= 0 /\ a[2] \in st.mem.res[r].ps THEN r ELSE -1),
                        !.mem.due = @ \cup {d},
                        !.mem.todo = IF st.mem.stat = <<>> THEN @ ELSE Put(@, d, [w \in Who2 |-> Work(st, new, S, w)])]
    [] OTHER -> new
=============================================================================
