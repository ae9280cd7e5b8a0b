------------------------------ MODULE LaikKvs ------------------------------
\* Key-value stores: every process changes its own view, synchronisation makes all agree.
\* A store is [cur: process -> (key -> value), chg: process -> keys changed since the last
\* synchronisation]. A removed key is not in the domain.
\* The journal part below is how the changes travel: every process hands a journal (key and
\* value of the last change per key) to the first process, which merges and returns them.
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "-"     \* value of a key which is not there (values are hex strings otherwise)
At(m, key) == IF key \in DOMAIN m THEN m[key] ELSE None
With(m, key, v) == [k \in (IF v = None THEN DOMAIN m \ {key} ELSE DOMAIN m \cup {key}) |-> IF k = key THEN v ELSE m[k]]

KvNew(W) == [cur |-> [w \in W |-> <<>>], chg |-> [w \in W |-> {}]]
\* a process gives key the value v (None: removes it); nothing is changed if it has that value
KvSet(s, w, key, v) ==
  IF At(s.cur[w], key) = v THEN s
  ELSE [s EXCEPT !.cur[w] = With(@, key, v), !.chg[w] = @ \cup {key}]
\* removes everything
KvClean(s, w) == [s EXCEPT !.chg[w] = @ \cup DOMAIN s.cur[w], !.cur[w] = <<>>]

Changed(s) == UNION {s.chg[w] : w \in DOMAIN s.chg}
\* processes changing the same key have to agree on its value
KvConsistent(s) == \A key \in Changed(s) : \A v, w \in DOMAIN s.cur :
                      key \in s.chg[v] /\ key \in s.chg[w] => At(s.cur[v], key) = At(s.cur[w], key)
\* value of a changed key after synchronisation
Agreed(s, key) == At(s.cur[CHOOSE w \in DOMAIN s.cur : key \in s.chg[w]], key)
\* only changes are exchanged: keys nobody changed stay as they are (all views are the same
\* there, except for processes which joined later and start with an empty store)
KvSynced(s) ==
  LET C == Changed(s)
      A == [key \in {k \in C : Agreed(s, k) # None} |-> Agreed(s, key)]
  IN [cur |-> [w \in DOMAIN s.cur |-> A @@ [key \in DOMAIN s.cur[w] \ C |-> s.cur[w][key]]], chg |-> [w \in DOMAIN s.cur |-> {}]]
\* what process w is told while synchronising: <<kind, key>>
KvCalls(s, w) ==
  {<<IF At(s.cur[w], key) = None THEN "c" ELSE IF Agreed(s, key) = None THEN "r" ELSE "u", key>> :
     key \in {k \in Changed(s) : At(s.cur[w], k) # Agreed(s, k)}}

\* ---- recorded executions. Observations are lists <<key, value>>, calls <<kind, key, value>>
DumpOk(l, m) == {l[j] : j \in 1..Len(l)} = {<<k, m[k]>> : k \in DOMAIN m} /\ Len(l) = Cardinality(DOMAIN m)
KvsOps == {"kvs", "kset", "krem", "kclean", "kget", "ksync"}
KvsWhy(kv, s) ==
  LET who == {s.who[k] : k \in 1..Len(s.who)}  ob(w) == s.obs[w + 1] IN
  CASE s.op = "kget" -> IF \E w \in who : \E k \in 1..Len(s.keys) : ob(w)[k] # At(kv[s.k].cur[w], s.keys[k]) THEN "value looked up in store" ELSE ""
    [] s.op = "krem" -> IF \E w \in who : ob(w) # (IF At(kv[s.k].cur[w], s.key) = None THEN 0 ELSE 1) THEN "answer of removal" ELSE ""
    [] s.op = "ksync" ->
         LET b == kv[s.k]  a == KvSynced(b) IN
         IF \E w \in who : ~DumpOk(ob(w).dump, a.cur[w]) THEN "entries after synchronisation"
         ELSE IF \E w \in who : {<<ob(w).calls[j][1], ob(w).calls[j][2]>> : j \in 1..Len(ob(w).calls)} # KvCalls(b, w)
                              \/ Len(ob(w).calls) # Cardinality(KvCalls(b, w)) THEN "callbacks of synchronisation"
         ELSE IF \E w \in who : \E j \in 1..Len(ob(w).calls) : ob(w).calls[j][1] # "r" /\ ob(w).calls[j][3] # At(a.cur[w], ob(w).calls[j][2]) THEN "value given to callback"
         ELSE ""
    [] OTHER -> ""
KvsNext(kv, s) ==
  LET w == s.who[1] IN
  CASE s.op = "kvs" -> (s.k :> KvNew({s.who[j] : j \in 1..Len(s.who)})) @@ kv
    [] s.op = "kset" -> [kv EXCEPT ![s.k] = KvSet(@, w, s.key, s.val)]
    [] s.op = "krem" -> [kv EXCEPT ![s.k] = KvSet(@, w, s.key, None)]
    [] s.op = "kclean" -> [kv EXCEPT ![s.k] = KvClean(@, w)]
    [] s.op = "ksync" -> [kv EXCEPT ![s.k] = KvSynced(@)]
    [] OTHER -> kv
=============================================================================
