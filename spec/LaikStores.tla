------------------------------ MODULE LaikStores ------------------------------
\* Location names of the processes, and index spaces published by name.
\* Published spaces live in a key-value store (LaikKvs) with the borders as values; the
\* handle a process has for a published space always shows the borders in its own view of
\* that store, so that a synchronisation changes what the handle shows.
\*   sto: [kv: store, name: handle number -> name, rng: value -> borders, loc: processes which synchronised locations,
\*         own: location name every process reported]
EXTENDS LaikSystem, LaikKvs

Txt(r) == ToString(r)
Kv(st, W) == IF st.sto.kv = <<>> THEN KvNew(W) ELSE st.sto.kv
\* borders process w sees for a published name
View(st, w, name) == st.sto.rng[At(st.sto.kv.cur[w], name)]
Report(r) == <<SizeR(r), Dims(r), r>>
PublishBy(st, W, ws, name, r) ==
  LET f[k \in 0..Len(ws)] == IF k = 0 THEN Kv(st, W) ELSE KvSet(f[k-1], ws[k], name, Txt(r))
  IN [st EXCEPT !.sto.kv = f[Len(ws)], !.sto.rng = (Txt(r) :> r) @@ @]
ChangeSpace(st, W, ws, s, r) ==
  IF s \in DOMAIN st.sto.name THEN PublishBy(NewSpace(st, s, r), W, ws, st.sto.name[s], r) ELSE NewSpace(st, s, r)
SyncSpaces(st, W) ==
  LET kv == KvSynced(Kv(st, W))  w == CHOOSE w \in W : TRUE IN
  [st EXCEPT !.sto.kv = kv,
             !.spc = [s \in DOMAIN @ |-> IF s \in DOMAIN st.sto.name /\ At(kv.cur[w], st.sto.name[s]) # None
                                         THEN st.sto.rng[At(kv.cur[w], st.sto.name[s])] ELSE @[s]]]

\* processes having a view of the published spaces
Everyone(st, sc) == IF sc.dyn = 1 THEN st.wld.act ELSE SeqSet(sc.mem)
StoOps == {"spset", "spsync", "spget", "spq", "locsync", "locget"}
StoWhy(st, s, sc) ==
  LET who == SeqSet(s.who)  ob(w) == s.obs[w + 1]
      has(w, name) == st.sto.kv # <<>> /\ At(st.sto.kv.cur[w], name) # None IN
  CASE s.op = "spget" ->
         IF \E w \in who : ~has(w, s.name) /\ ob(w) # <<>> THEN "space found which nobody published"
         ELSE IF \E w \in who : has(w, s.name) /\ ob(w) = <<>> THEN "published space not found"
         ELSE IF \E w \in who : has(w, s.name) /\ ob(w) # Report(View(st, w, s.name)) THEN "borders or size of published space"
         ELSE ""
    [] s.op = "spq" ->
         IF \E w \in who : ob(w) # Report(IF s.s \in DOMAIN st.sto.name THEN View(st, w, st.sto.name[s.s]) ELSE st.spc[s.s]) THEN "borders or size shown by a handle" ELSE ""
    [] s.op = "locsync" -> IF \E w \in who : ob(w) = "-" \/ (w \in DOMAIN st.sto.own /\ ob(w) # st.sto.own[w]) THEN "own location name" ELSE ""
    [] s.op = "locget" ->
         LET mem == st.grp[s.g].mem IN
         IF \E w \in who : Len(ob(w)) # Len(mem) THEN "number of location names"
         ELSE IF \E w \in who : \E k \in 1..Len(mem) : ob(w)[k] # (IF w \in st.sto.loc /\ mem[k] \in DOMAIN st.sto.own THEN st.sto.own[mem[k]] ELSE "-") THEN "location name of a process"
         ELSE ""
    [] OTHER -> ""
StoNext(st, s, sc) ==
  LET who == SeqSet(s.who)  W == Everyone(st, sc) IN
  CASE s.op = "spset" -> PublishBy([st EXCEPT !.sto.name = (s.s :> s.name) @@ @], W, s.who, s.name, st.spc[s.s])
    [] s.op = "spsync" -> SyncSpaces(st, W)
    [] s.op = "spget" ->
         LET w == s.who[1] IN
         IF st.sto.kv = <<>> \/ At(st.sto.kv.cur[w], s.name) = None THEN st
         ELSE [st EXCEPT !.sto.name = (s.s :> s.name) @@ @, !.spc = (s.s :> View(st, w, s.name)) @@ @]
    [] s.op = "locsync" -> [st EXCEPT !.sto.loc = who, !.sto.own = [w \in who |-> s.obs[w + 1]] @@ @]
    [] OTHER -> st
=============================================================================
