----------------------------- MODULE LaikResize -----------------------------
\* A world which changes: processes ask to join, or are asked to leave (by naming their
\* locations), and whenever all active processes allow it the world is replaced by a new one.
\* Processes are named by their location id; ids are given to joining processes in sequence
\* and never again.
\*   wld: [act: processes taking part, cur: group number of the world, epoch, next: next id,
\*         must: joins certainly known to the first process, may: joins which may be known,
\*         new: processes joined last, cut: set of possible lists of requests to leave still
\*         to be honoured. Such a request is [m: ids named, w: worlds one of which is the one
\*         it arrived in, sure: it has arrived]]
EXTENDS LaikSystem, LaikKvs, ResizeBelief

WorldStart(n) == [act |-> 0..(n-1), cur |-> 0, epoch |-> 0, next |-> n, must |-> 0, may |-> 0, new |-> {}, cut |-> {<<>>}]

\* resize: what everyone reports is the same world; o(w): report of process w
SortedSeq(S) == LET f[k \in 0..Cardinality(S)] == IF k = 0 THEN <<>> ELSE
                      f[k-1] \o <<CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1>> IN f[Cardinality(S)]
NewWorld(st, mem) ==
  LET old == SeqSet(st.grp[st.wld.cur].mem)  now == SeqSet(mem) IN
  [joined |-> now \ old, left |-> old \ now, same |-> now = old]
ResizeWhy(st, s, o(_)) ==
  LET w == st.wld
      old == st.grp[w.cur].mem
      mem == o(0).loc
      c == NewWorld(st, mem)
      J == c.joined  L == c.left
      W == SeqSet(old) \cup J
      par == IF c.same THEN -1 ELSE st.grp[w.cur].id
  IN
  IF Len(mem) = 0 THEN "empty world"
  ELSE IF mem # SortedSeq(SeqSet(mem)) THEN "order of processes in the new world"
  ELSE IF J # w.next .. (w.next + Cardinality(J) - 1) THEN "ids given to joining processes"
  ELSE IF Cardinality(J) < w.must THEN "request to join not honoured"
  ELSE IF Cardinality(J) > w.must + w.may THEN "more processes joined than asked for"
  ELSE IF CutAfter(w.cut, SeqSet(old), L, SeqSet(mem)) = {} THEN "processes leaving are not those asked to leave"
  ELSE IF \E p \in W : o(p).n = -1 THEN "missing report of a process"
  ELSE IF \E p \in W : o(p).n # Len(mem) \/ o(p).loc # mem THEN "processes do not agree on the new world"
  ELSE IF \E p \in W : o(p).me # IndexOf(mem, p) THEN "own rank in new world"
  ELSE IF \E p \in W : o(p).lid # p THEN "own location id"
  ELSE IF \E p \in W : o(p).epoch # w.epoch + (IF c.same THEN 0 ELSE 1) THEN "epoch after resize"
  ELSE IF \E p \in W : o(p).phase # s.ph THEN "phase after resize"
  ELSE IF \E p \in SeqSet(old) : o(p).par # par \/ o(p).id # (IF c.same THEN st.grp[w.cur].id ELSE s.g) THEN "parent of new world"
  ELSE IF \E p \in J : o(p).par # s.old \/ o(p).id # s.g THEN "parent of new world in a joining process"
  ELSE IF ~c.same /\ \E p \in W : o(p).tp # Translate(mem, old) \/ o(p).fp # Translate(old, mem) THEN "translation to or from the previous world"
  ELSE ""

\* groups with the same number are one object
DropParent(st, id) == [st EXCEPT !.grp = [g \in DOMAIN @ |-> IF @[g].id = id THEN [@[g] EXCEPT !.par = -1] ELSE @[g]]]
FinishResize(st) == DropParent(st, st.grp[st.wld.cur].id)
KvJoin(s, J) == [cur |-> [w \in DOMAIN s.cur \cup J |-> IF w \in DOMAIN s.cur THEN s.cur[w] ELSE <<>>],
                 chg |-> [w \in DOMAIN s.chg \cup J |-> IF w \in DOMAIN s.chg THEN s.chg[w] ELSE {}]]
KvLeave(s, W) == [cur |-> [w \in DOMAIN s.cur \cap W |-> s.cur[w]], chg |-> [w \in DOMAIN s.chg \cap W |-> s.chg[w]]]
AllStores(st, f(_)) == [st EXCEPT !.kvs = [k \in DOMAIN @ |-> f(@[k])],
                                  !.sto.kv = IF @ = <<>> THEN @ ELSE f(@)]
ResizeNext(st0, s, o(_)) ==
  LET st == FinishResize(st0)  w == st.wld
      mem == o(0).loc  old == st.grp[w.cur]
      c == NewWorld(st, mem)
      cut == CutAfter(w.cut, SeqSet(old.mem), c.left, SeqSet(mem))
      n == Cardinality(c.joined)
      st2 == IF c.same THEN NewGroup2(st, s.g, old.mem, -1, -1, old.id)
             ELSE AllStores(NewGroup2(st, s.g, mem, old.id, -1, s.g), LAMBDA k : KvJoin(k, c.joined))
  IN [st2 EXCEPT !.wld = [w EXCEPT !.act = @ \cup c.joined, !.cur = s.g, !.epoch = @ + (IF c.same THEN 0 ELSE 1),
                            !.next = @ + n, !.must = 0, !.may = @ - (n - w.must), !.new = c.joined, !.cut = cut]]
LeaveNext(st, s) ==
  LET W == SeqSet(st.grp[s.g].mem) IN
  AllStores([st EXCEPT !.wld.act = @ \cap W], LAMBDA k : KvLeave(k, W))
CutNext(st, s) ==
  LET r == [m |-> SeqSet(s.lids), w |-> {SeqSet(st.grp[st.wld.cur].mem)}, sure |-> s.sure = 1] IN
  [st EXCEPT !.wld.cut = {Append(cs, r) : cs \in @}]

\* later resizes change what old members see of the parent: dropped
ResOps == {"spawn", "cutoff", "outside", "rsz", "frz", "lv", "jpart", "jinitp", "wst"}
ResWhy(st, s, mwhy) ==
  CASE s.op = "rsz" -> ResizeWhy(FinishResize(st), s, LAMBDA w : s.obs[w + 1])
    [] s.op = "wst" -> IF \E k \in 1..Len(s.who) : s.obs[s.who[k] + 1] # <<st.wld.epoch, s.who[k]>> THEN "epoch or own location id" ELSE ""
    [] OTHER -> ""
ResNext(st, s) ==
  CASE s.op = "rsz" -> ResizeNext(st, s, LAMBDA w : s.obs[w + 1])
    [] s.op = "frz" -> FinishResize(st)
    [] s.op = "lv" -> LeaveNext(st, s)
    [] s.op = "spawn" -> IF s.sure = 1 THEN [st EXCEPT !.wld.must = @ + 1] ELSE [st EXCEPT !.wld.may = @ + 1]
    [] s.op = "cutoff" -> CutNext(st, s)
    [] OTHER -> st
=============================================================================
