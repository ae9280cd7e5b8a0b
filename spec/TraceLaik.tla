------------------------------ MODULE TraceLaik ------------------------------
\* Validates recorded executions of the real library: every scenario of the file is a
\* behaviour of LaikSystem in which each process observed, at each step, what the
\* specification allows. A scenario whose next record is not allowed is reported with
\* REJECT, a fully explained one with DONE.
EXTENDS LaikSystem, LaikPartitioners, LaikExtra, LaikStores, LaikMemory, LaikResize, LaikAgents, LaikObserve, Json, IOUtils

Scens == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, pos, st
vars == <<sid, pos, st>>

Sc == Scens[sid]
N == Sc.n
\* in a changing world, only active processes take part (in some steps: those just joined)
Dyn == Sc.dyn = 1
S == LET s == Sc.steps[pos] IN
     IF ~Dyn THEN s
     ELSE [s EXCEPT !.who = SelectSeq(@, LAMBDA w : w \in (IF s.op \in {"jpart", "jinitp"} THEN st.wld.new ELSE st.wld.act))]
Ob(w) == S.obs[w + 1]
Who == SeqSet(S.who)

LogCfg == IF "log" \in DOMAIN Sc THEN Sc.log ELSE DefaultLog

\* first failing check of a list of <<name, holds>>
RECURSIVE First(_)
First(cs) == IF cs = <<>> THEN "" ELSE IF Head(cs)[2] THEN First(Tail(cs)) ELSE Head(cs)[1]

\* ---- groups and spaces
GrpRec ==
  LET a == st.grp[S.a]  b == st.grp[S.b] IN
  CASE S.k = "world" -> [mem |-> st.wld.mem, par |-> -1, par2 |-> -1, id |-> IF \E g \in DOMAIN st.grp : st.grp[g].par = -1 THEN st.grp[CHOOSE g \in DOMAIN st.grp : st.grp[g].par = -1].id ELSE S.g]
    [] S.k = "clone" -> [mem |-> a.mem, par |-> a.id, par2 |-> -1, id |-> S.g]
    [] S.k = "shrink" -> [mem |-> ShrinkMem(a.mem, S.ranks), par |-> a.id, par2 |-> -1, id |-> S.g]
    [] S.k = "union" ->
         IF SeqSet(b.mem) \subseteq SeqSet(a.mem) THEN a
         ELSE IF SeqSet(a.mem) \subseteq SeqSet(b.mem) THEN b
         ELSE [mem |-> UnionMem(a.mem, b.mem, st.wld.loc), par |-> a.id, par2 |-> b.id, id |-> S.g]
GrpMem == GrpRec.mem
GrpWhy ==
  LET r == GrpRec  mem == r.mem
      pm == IF r.par < 0 THEN <<>> ELSE st.grp[r.par].mem
      pm2 == IF r.par2 < 0 THEN <<>> ELSE st.grp[r.par2].mem
  IN
  IF \E w \in Who : Ob(w).n # Len(mem) THEN "group size"
  ELSE IF \E w \in Who : Ob(w).me # IndexOf(mem, w) THEN "own rank in group"
  ELSE IF \E w \in Who : Ob(w).loc # [k \in 1..Len(mem) |-> st.wld.loc[mem[k] + 1]] THEN "members of group"
  ELSE IF \E w \in Who : Ob(w).id # r.id \/ Ob(w).par # r.par \/ Ob(w).par2 # r.par2 THEN "parent of group"
  ELSE IF r.par >= 0 /\ \E w \in Who : Ob(w).tp # Translate(mem, pm) \/ Ob(w).fp # Translate(pm, mem) THEN "translation to or from parent"
  ELSE IF r.par2 >= 0 /\ \E w \in Who : Ob(w).tp2 # Translate(mem, pm2) \/ Ob(w).fp2 # Translate(pm2, mem) THEN "translation to or from second parent"
  ELSE ""
GrpNext == LET r == GrpRec IN NewGroup2(st, S.g, r.mem, r.par, r.par2, r.id)

SpaceWhy == IF \E w \in Who : Ob(w) # <<SizeR(S.r), Dims(S.r), S.r>> THEN "space borders or size" ELSE ""
SpaceNext == NewSpace(st, S.s, S.r)

\* ---- partitionings
\* range list put together from what each member says about itself
OwnList(obs, mem) ==
  LET f[k \in 0..Len(mem)] == IF k = 0 THEN <<>> ELSE f[k-1] \o obs[mem[k] + 1].my IN f[Len(mem)]
Kind(rl, sp, n) ==
  CASE S.kind = "all" -> AllOk(rl, n, sp)
    [] S.kind = "master" -> MasterOk(rl, n, sp)
    [] S.kind = "copy" -> CopyOk(rl, st.prt[S.ot].rl, sp, S.kp[1], S.kp[2])
    [] S.kind = "halo" -> HaloOk(rl, st.prt[S.ot].rl, n, sp, S.kp[1])
    [] S.kind = "chalo" -> CornerOk(rl, st.prt[S.ot].rl, n, sp, S.kp[1])
    [] S.kind = "bisect" -> BisectOk(rl, n, sp)
    [] S.kind = "grid" -> GridOk(rl, n, sp, S.kp[1], S.kp[2], S.kp[3])
    [] S.kind = "block" -> BlockOk(rl, n, sp, S.kp[1], S.kp[2], S.kp[3], S.kp[4])
    [] S.kind = "reassign" -> LET og == st.grp[st.prt[S.ot].g].mem  ng == st.grp[S.kp[1]].mem IN
         ReassignOk(rl, st.prt[S.ot].rl, n, sp, [k \in 1..Len(ng) |-> IndexOf(og, ng[k])], S.kp[2])
    [] S.kind = "rotate" -> LET b == st.prt[S.ot].rl IN
         PlainFrozen([k \in 1..Len(b) |-> [b[k] EXCEPT !.t = (@ + S.kp[1]) % n]], rl)
    [] S.kind = "list" -> Frozen(S.raw, S.flags, rl)
\* S.src: where the range list comes from ("obs": this step, "later": recorded at a later step)
PartList(mem) == IF S.src = "obs" THEN OwnList(S.obs, mem) ELSE OwnList(S.later, mem)
PartWhy(mem, sp) ==
  LET rl == PartList(mem)
      n == Len(mem)
      rep == Who
      obs(w) == IF S.src = "obs" THEN S.obs[w+1] ELSE S.later[w+1]
  IN IF ~WellFormed(rl, n, sp) THEN "range list not well formed"
     ELSE IF ~Kind(rl, sp, n) THEN "ranges not as the partitioner kind demands"
     ELSE IF \E w \in rep : ~OwnReportOk(obs(w), rl, IndexOf(mem, w)) THEN "report about own ranges"
     ELSE IF \E w \in rep : obs(w).has = 1 /\ obs(w).all # rl THEN "list of all ranges"
     ELSE IF \E w \in rep : obs(w).has = 1 /\ ~ReportOk(obs(w), n, sp) THEN "coverage/all/single query"
     ELSE ""
PMem == st.grp[S.g].mem
PWhy == PartWhy(PMem, st.spc[S.s])
PNext == NewPart(st, S.p, S.s, S.g, PartList(PMem))

\* reports about an existing partitioning
DpWhy == LET mem == Mem(st, S.p)  rl == st.prt[S.p].rl IN
  IF \E w \in Who : ~OwnReportOk(Ob(w), rl, IndexOf(mem, w)) THEN "report about own ranges"
  ELSE IF \E w \in Who : Ob(w).has = 1 /\ (Ob(w).all # rl \/ ~ReportOk(Ob(w), Len(mem), SpaceOf(st, S.p))) THEN "list of all ranges"
  ELSE ""
MigNext == [st EXCEPT !.prt[S.p] = [@ EXCEPT !.g = S.g,
    !.rl = LET l == MigrateList(@, Mem(st, S.p), st.grp[S.g].mem)
           IN OwnSorted(l, Len(st.grp[S.g].mem))]]
MigWhy == LET st2 == MigNext
              mem == st.grp[S.g].mem  rl == st2.prt[S.p].rl IN
  IF \E w \in Who : ~OwnReportOk(Ob(w), rl, IndexOf(mem, w)) THEN "report about own ranges after migration"
  ELSE IF \E w \in Who : Ob(w).has = 1 /\ (Ob(w).all # rl \/ ~ReportOk(Ob(w), Len(mem), SpaceOf(st, S.p))) THEN "list of all ranges after migration"
  ELSE ""
PeqWhy == IF \E w \in Who : Ob(w) # (IF EqualP(st.prt[S.p].rl, st.prt[S.q].rl) THEN 1 ELSE 0) THEN "equality of partitionings" ELSE ""
\* ranges kept for a pair of partitionings: at least everything touching own indexes of
\* one of the two, nothing that does not exist, in order
\* (mrg: with merging, what is kept may be parts of merged ranges)
InterOk(kept, rl, mine, mrg) ==
  IF mrg
  THEN /\ \A k \in 1..Len(kept) : \E j \in 1..Len(rl) : rl[j].t = kept[k].t /\ rl[j].g = kept[k].g /\ Subset(kept[k].r, rl[j].r)
       /\ IsSorted(kept, EntryLe)
       /\ \A j \in 1..Len(rl) : (Points(rl[j].r) \cap mine) \subseteq PtsOf(kept, rl[j].t, rl[j].g)
  ELSE
  /\ \A k \in 1..Len(kept) : \E j \in 1..Len(rl) : Bare(rl[j]) = Bare(kept[k])
  /\ IsSorted(kept, EntryLe)
  /\ \A j \in 1..Len(rl) : (Points(rl[j].r) \cap mine # {}) => Count(BareSeq(kept), Bare(rl[j])) = Count(BareSeq(rl), Bare(rl[j]))
InterWhy ==
  LET mem == Mem(st, S.p) IN
  IF \E w \in Who : IndexOf(mem, w) >= 0 /\
       LET t == IndexOf(mem, w)
           mine == OwnPoints(st.prt[S.p].rl, t) \cup OwnPoints(st.prt[S.q].rl, t)
           mrg(p) == (LET k == CHOOSE k \in 1..Len(Sc.steps) : Sc.steps[k].op = "part" /\ Sc.steps[k].p = p IN (Sc.steps[k].flags \div 8) % 2 = 1)
       IN ~InterOk(Ob(w).a, st.prt[S.p].rl, mine, mrg(S.p)) \/ ~InterOk(Ob(w).b, st.prt[S.q].rl, mine, mrg(S.q))
  THEN "ranges kept for a pair" ELSE ""

\* ---- transitions
Flow == S.f
TrF == IF S.p < 0 THEN <<>> ELSE st.prt[S.p].rl
TrT == IF S.q < 0 THEN <<>> ELSE st.prt[S.q].rl
TrG == IF S.p < 0 THEN Mem(st, S.q) ELSE Mem(st, S.p)
TrWhy ==
  LET mem == TrG
      pl == [k \in 1..Len(mem) |-> S.obs[mem[k] + 1]]
      n == Len(mem)
      flow == IF S.p < 0 /\ Flow = "pres" THEN "none" ELSE Flow
  IN IF \E w \in Who : w \notin SeqSet(mem) /\ Ob(w).nil # 1 THEN "plan for a process not in the group"
     ELSE IF \E k \in 1..n : pl[k].nil # 0 THEN "missing plan"
     ELSE IF ~PairsFit(pl) THEN "sends and receives do not fit together"
     ELSE IF ~RedsFit(pl, n) THEN "reductions do not fit together"
     ELSE IF ~Bounds(pl, TrF, TrT) THEN "plan touches indexes not owned"
     ELSE IF ~PlansOk(pl, TrF, TrT, n, flow, S.r) THEN "indexes not filled as they should"
     ELSE ""
TrNext == [st EXCEPT !.trn = Put(@, S.t, [from |-> S.p, to |-> S.q, f |-> Flow, r |-> S.r, pl |-> S.obs])]

\* ---- containers
Formula(ty, mode, seed, w, m, i) ==
  LET lin == i[1] + (IF Len(i) > 1 THEN 11 * i[2] ELSE 0) + (IF Len(i) > 2 THEN 101 * i[3] ELSE 0)
      ww == IF mode \in {1, 3} THEN 0 ELSE w
      mm == IF mode \in {1, 3} THEN 0 ELSE m
      h == seed * 7 + ww * 13 + mm * 5 + (lin + 5000) * 3
  IN CASE mode \in {0, 1} -> (h % 50) + 1
       [] mode \in {2, 3} -> (h % 2) + 1
       [] mode = 4 -> (h * 5 + ww * 3 + lin) % 16
       [] mode = 5 -> (h % 41) - 20
       [] mode = 6 -> h % 9
       [] mode = 7 -> IF h % 4 = 0 THEN TypeMax(ty) ELSE IF h % 4 = 1 THEN TypeMin(ty) ELSE h % 9
WrNext == WriteAll(st, S.d, LAMBDA w, m, i : Formula(st.dat[S.d].ty, S.mode, S.seed, w, m, i))
RdKeys(w) == UNION {{<<w, e.m, i>> : i \in Points(e.r)} : e \in SeqSet(Ob(w))}
RdFun(w) == LET E == SeqSet(Ob(w)) IN
  TLCEval([k \in RdKeys(w) |-> LET e == CHOOSE e \in E : e.m = k[2] /\ Has(e.r, k[3]) IN e.v[LexPos(e.r, k[3]) + 1]])
RdWhy ==
  IF \E w \in Who : \E e \in SeqSet(Ob(w)) : Len(e.v) # SizeR(e.r) THEN "number of elements of an own range"
  ELSE IF \E w \in Who : \E e, f \in SeqSet(Ob(w)) : e.m = f.m /\ \E i \in Points(Inter(e.r, f.r)) : e.v[LexPos(e.r, i) + 1] # f.v[LexPos(f.r, i) + 1]
       THEN "one element with two values"
  ELSE IF \E w \in Who : RdKeys(w) # {k \in DOMAIN st.dat[S.d].val : k[1] = w} THEN "indexes held"
  ELSE IF \E w \in Who : ~ReadOk(st, S.d, w, RdFun(w)) THEN "value of an element"
  ELSE ""
RdNext == LET f == TLCEval([w \in Who |-> RdFun(w)]) IN Known(st, S.d, Who, f)

SwNext == Switch(st, S.d, S.p, S.f, S.r)
SwfNext == Switch(st, S.d, st.dat[S.d].p, S.f, S.r)
ExecNext(d, t) == LET x == st.trn[t] IN Switch(st, d, x.to, x.f, x.r)

\* ---- dispatch
Why == IF Dyn /\ S.who = <<>> THEN "" ELSE
  CASE S.op = "grp" -> GrpWhy
    [] S.op = "space" -> SpaceWhy
    [] S.op = "part" -> PWhy
    [] S.op = "swn" -> PartWhy(PMem, st.spc[st.dat[S.d].s])
    [] S.op = "dp" -> DpWhy
    [] S.op = "mig" -> MigWhy
    [] S.op = "peq" -> PeqWhy
    [] S.op = "inter" -> InterWhy
    [] S.op = "tr" -> TrWhy
    [] S.op = "rd" -> RdWhy
    [] S.op \in KvsOps -> KvsWhy(st.kvs, S)
    [] S.op \in LayOps -> LayWhy(st, S)
    [] S.op \in MemOps -> MemWhy(st, S)
    [] S.op \in StoOps -> StoWhy(st, S, Sc)
    [] S.op \in ExtraOps -> ExtraWhy(st, S, Sc)
    [] S.op = "jpart" -> DpWhy
    [] S.op \in ResOps -> ResWhy(st, S, "")
    [] S.op \in AgOps -> AgWhy(st, S)
    [] S.op \in ObOps -> ObWhy(st, LogCfg, S)
    [] OTHER -> ""
Succ0 ==
  CASE S.op = "grp" -> GrpNext
    [] S.op = "space" -> SpaceNext
    [] S.op = "part" -> PNext
    [] S.op = "swn" -> Switch(NewPart(st, S.p, st.dat[S.d].s, S.g, PartList(PMem)), S.d, S.p, S.f, S.r)
    [] S.op = "mig" -> MigNext
    [] S.op = "tr" -> TrNext
    [] S.op = "data" -> NewData2(st, S.d, S.s, S.ty, S.acc)
    [] S.op = "sw" -> SwNext
    [] S.op = "swf" -> SwfNext
    [] S.op = "initp" -> SetInitial(st, S.d, S.p)
    [] S.op = "xt" -> ExecNext(S.d, S.t)
    [] S.op = "ca" -> [st EXCEPT !.seq = Put(@, S.a, [d |-> S.d, t |-> S.t])]
    [] S.op = "xa" -> ExecNext(st.seq[S.a].d, st.seq[S.a].t)
    [] S.op = "wr" -> WrNext
    [] S.op = "rd" -> RdNext
    [] S.op \in KvsOps -> [st EXCEPT !.kvs = KvsNext(@, S)]
    [] S.op \in LayOps -> LayNext(st, S)
    [] S.op \in StoOps -> StoNext(st, S, Sc)
    [] S.op = "chs" -> ChangeSpace(st, Everyone(st, Sc), S.who, S.s, S.r)
    [] S.op \in ExtraOps -> ExtraNext(st, S, Sc)
    [] S.op \in ResOps -> ResNext(st, S)
    [] S.op \in AgOps -> AgNext(st, S)
    [] S.op \in ObOps -> ObNext(st, LogCfg, S)
    [] OTHER -> st
Succ == IF Dyn THEN (IF S.who = <<>> THEN st ELSE Succ0) ELSE MemNext(st, Succ0, S)

Init == sid \in 1..Len(Scens) /\ pos = 0 /\ st = Initial
\* the run itself: ended regularly, no alarm from the transport or the allocator
Begin ==
  /\ pos = 0
  /\ IF Sc.end = "ok" /\ Sc.ev = <<>>
     THEN pos' = 1 /\ st' = [Initial EXCEPT !.wld = [mem |-> Sc.mem, loc |-> Sc.loc] @@ (IF Dyn THEN WorldStart(N) ELSE <<>>)]
     ELSE PrintT(<<"REJECT", Sc.id, 0, IF Sc.end = "ok" THEN Sc.ev[1] ELSE Sc.end>>) /\ pos' = -1 /\ st' = Initial
  /\ UNCHANGED sid
Step ==
  /\ pos >= 1 /\ pos <= Len(Sc.steps)
  /\ LET why == Why IN
     IF why = "" THEN pos' = pos + 1 /\ st' = Succ
     ELSE PrintT(<<"REJECT", Sc.id, S.n, why>>) /\ pos' = -1 /\ st' = Initial
  /\ UNCHANGED sid
Done ==
  /\ pos = Len(Sc.steps) + 1
  /\ PrintT(<<"DONE", Sc.id>>)
  /\ pos' = -2 /\ st' = Initial /\ UNCHANGED sid
Next == Begin \/ Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
