------------------------------ MODULE MCKvs ------------------------------
\* The journal algorithm: local changes go into a journal with one entry per key, the first
\* process merges the sorted journals and everybody applies the result. Checked against the
\* definition in LaikKvs. The histories are also written out and replayed on the library.
EXTENDS LaikKvs, Json, IOUtils
CONSTANTS Procs, Keys, Vals, MaxOps, Rounds

VARIABLES s, jr, mine, phase, inbox, merged, hist, calls
vars == <<s, jr, mine, phase, inbox, merged, hist, calls>>
Master == CHOOSE w \in Procs : \A v \in Procs : w <= v
\* journal: function key -> value (None: removal)
Init == /\ s = KvNew(Procs) /\ mine = [w \in Procs |-> <<>>]
        /\ jr = [w \in Procs |-> <<>>] /\ phase = [w \in Procs |-> "local"]
        /\ inbox = {} /\ merged = <<>> /\ hist = <<>> /\ calls = [w \in Procs |-> {}]
Round == Len(SelectSeq(hist, LAMBDA h : h[1] = "ksync"))
OpsInRound == LET L == {k \in 1..Len(hist) : hist[k][1] = "ksync"}
                  from == IF L = {} THEN 0 ELSE CHOOSE k \in L : \A j \in L : j <= k
              IN Len(hist) - from
\* (to keep the number of histories down, processes act in order within a round; local
\* changes of different processes do not depend on each other)
MayAct(w) == /\ phase[w] = "local" /\ OpsInRound < MaxOps /\ Round < Rounds
             /\ \A k \in 1..Len(hist) : k > Len(hist) - OpsInRound => hist[k][2] <= w
             /\ \A v \in Procs : phase[v] = "local"
Local(w, key, v) ==
  /\ MayAct(w) /\ At(mine[w], key) # v
  /\ LET s2 == KvSet(s, w, key, v) IN KvConsistent(s2) /\ s' = s2
  /\ mine' = [mine EXCEPT ![w] = With(@, key, v)]
  /\ jr' = [jr EXCEPT ![w] = (key :> v) @@ @]
  /\ hist' = Append(hist, IF v = None THEN <<"krem", w, key, "">> ELSE <<"kset", w, key, v>>)
  /\ UNCHANGED <<phase, inbox, merged, calls>>
StartSync(w) ==
  /\ phase[w] = "local" /\ Round < Rounds
  /\ \E v \in Procs : jr[v] # <<>> \/ phase[v] # "local"
  /\ phase' = [phase EXCEPT ![w] = IF w = Master THEN "collect" ELSE "wait"]
  /\ inbox' = IF w = Master THEN inbox ELSE inbox \cup {w}
  /\ merged' = IF w = Master THEN jr[w] ELSE merged
  /\ UNCHANGED <<s, jr, mine, hist, calls>>
Collect(w) ==
  /\ phase[Master] = "collect" /\ w \in inbox /\ inbox' = inbox \ {w}
  /\ merged' = jr[w] @@ merged
  /\ UNCHANGED <<s, jr, mine, phase, hist, calls>>
AllIn == inbox = {} /\ \A w \in Procs : phase[w] # "local"
Publish == /\ phase[Master] = "collect" /\ AllIn
           /\ phase' = [w \in Procs |-> "apply"]
           /\ UNCHANGED <<s, jr, mine, inbox, merged, hist, calls>>
Diff(w) == {k \in DOMAIN merged : At(mine[w], k) # merged[k]}
RECURSIVE WithAll(_, _, _)
WithAll(m, f, K) == IF K = {} THEN m ELSE LET k == CHOOSE k \in K : TRUE IN WithAll(With(m, k, f[k]), f, K \ {k})
Apply(w) ==
  /\ phase[w] = "apply"
  /\ calls' = [calls EXCEPT ![w] = {<<IF At(mine[w], k) = None THEN "c" ELSE IF merged[k] = None THEN "r" ELSE "u", k>> : k \in Diff(w)}]
  /\ mine' = [mine EXCEPT ![w] = WithAll(@, merged, DOMAIN merged)]
  /\ phase' = [phase EXCEPT ![w] = "done"]
  /\ UNCHANGED <<s, jr, inbox, merged, hist>>
EndSync ==
  /\ \A w \in Procs : phase[w] = "done"
  /\ s' = KvSynced(s) /\ jr' = [w \in Procs |-> <<>>] /\ phase' = [w \in Procs |-> "local"]
  /\ hist' = Append(hist, <<"ksync", -1, "", "">>) /\ merged' = <<>>
  /\ calls' = [w \in Procs |-> {}]
  /\ UNCHANGED <<mine, inbox>>
Next == \/ \E w \in Procs : StartSync(w) \/ Collect(w) \/ Apply(w) \/ \E k \in Keys : \E v \in Vals \cup {None} : Local(w, k, v)
        \/ Publish \/ EndSync
Spec == Init /\ [][Next]_vars
\* what the algorithm holds is what the definition says
LocalOk == \A w \in Procs : phase[w] = "local" => mine[w] = s.cur[w]
Agree == (\A w \in Procs : phase[w] = "done") => \A w \in Procs : mine[w] = KvSynced(s).cur[w] /\ calls[w] = KvCalls(s, w)
\* history of complete rounds, written out once at its end
Emit == (Round = Rounds /\ IOEnv.EMIT = "1") => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
