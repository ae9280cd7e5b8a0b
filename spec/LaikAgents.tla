----------------------------- MODULE LaikAgents -----------------------------
\* Agents which report failures. A process loads agents (at most MaxAgents); whoever runs an
\* agent reports failed components by name; the program asks for all failures reported since
\* the last time, giving the room it has.
\*   list of agents: <<[a: number, k: kind, q: names reported and not delivered yet,
\*                      it, fi: iteration reached / in which the simulating agent fails]>>
\* kinds: ft (tells how many failures there are), flag (only tells that there are some), def and
\* prof (other agents, never asked), simple (the simulating agent coming with LAIK: it reports
\* one failure from a given iteration on, until cleared)
EXTENDS Integers, Sequences, FiniteSets
MaxAgents == 10
Never == 2147483647
NewAgent(a, k) == [a |-> a, k |-> k, q |-> <<>>, it |-> 0, fi |-> IF k = "simple" THEN 5 ELSE Never]
Load(ag, a, k) == IF Len(ag) < MaxAgents THEN Append(ag, NewAgent(a, k)) ELSE ag
AgReport(ag, a, names) == [k \in 1..Len(ag) |-> IF ag[k].a = a THEN [ag[k] EXCEPT !.q = @ \o names] ELSE ag[k]]
Iterate(ag, a, it) == [k \in 1..Len(ag) |-> IF ag[k].a = a THEN (IF it < 0 THEN [ag[k] EXCEPT !.fi = Never] ELSE [ag[k] EXCEPT !.it = it]) ELSE ag[k]]
Pending(x) == CASE x.k = "simple" -> (IF x.it >= x.fi THEN <<"3432">> ELSE <<>>)
                [] x.k \in {"ft", "flag"} -> x.q
                [] OTHER -> <<>>
RECURSIVE AllOf(_, _)
AllOf(ag, T) == IF ag = <<>> THEN <<>> ELSE (IF Head(ag).a \in T THEN Pending(Head(ag)) ELSE <<>>) \o AllOf(Tail(ag), T)
BagOf(s) == [x \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
Asked(ag) == {ag[k].a : k \in {j \in 1..Len(ag) : Pending(ag[j]) # <<>>}}
\* sets of agents whose failures a query with room for max names may deliver: all if there is
\* room, and an agent is left out only if its failures do not fit any more
Deliveries(ag, max) ==
  {T \in SUBSET Asked(ag) :
     LET n == Len(AllOf(ag, T)) IN
     /\ n <= max
     /\ \A k \in 1..Len(ag) : (ag[k].a \in Asked(ag) \ T) => n + Len(Pending(ag[k])) > max}
AgQuery(ag, T) == [k \in 1..Len(ag) |-> IF ag[k].a \in T THEN [ag[k] EXCEPT !.q = <<>>] ELSE ag[k]]
\* o: [n, r: names, left: <<<<agent, number of names not delivered>>>>]
Left(o, a) == LET k == CHOOSE k \in 1..Len(o.left) : o.left[k][1] = a IN o.left[k][2]
QueryFits(ag, T, o) ==
  /\ BagOf(o.r) = BagOf(AllOf(ag, T))
  /\ \A k \in 1..Len(ag) : ag[k].k # "simple" => Left(o, ag[k].a) = (IF ag[k].a \in T THEN 0 ELSE Len(ag[k].q))
QueryWhy(ag, max, o) ==
  IF o.n # Len(o.r) THEN "number of failures"
  ELSE IF ~\E T \in Deliveries(ag, max) : QueryFits(ag, T, o) THEN "failures delivered"
  ELSE ""
QueryNext(ag, max, o) == AgQuery(ag, CHOOSE T \in Deliveries(ag, max) : QueryFits(ag, T, o))

\* ---- steps of recorded executions; ag(w): agents of process w
AgOps == {"agini", "agld", "agrep", "agit", "agq", "agcl", "agfin"}
AgOf(st, w) == IF w \in DOMAIN st.agt THEN st.agt[w] ELSE <<>>
AgWhy(st, s) ==
  LET O(w) == s.obs[w + 1]
      Ws == {s.who[k] : k \in 1..Len(s.who)} IN
  CASE s.op = "agld" -> IF \E w \in Ws : O(w) # (IF Len(AgOf(st, w)) < MaxAgents THEN 1 ELSE 0) THEN "number of initialisations of an agent" ELSE ""
    [] s.op = "agq" -> LET bad == {w \in Ws : QueryWhy(AgOf(st, w), s.max, O(w)) # ""} IN
         IF bad = {} THEN "" ELSE LET w == CHOOSE w \in bad : TRUE IN QueryWhy(AgOf(st, w), s.max, O(w))
    [] s.op \in {"agcl", "agfin"} ->
         IF \E w \in Ws : O(w)[1] # 0 THEN "library of an agent not closed"
         ELSE IF \E w \in Ws : O(w)[2] # 0 THEN "library of an agent closed more than once"
         ELSE IF \E w \in Ws : O(w)[3] # 0 THEN "agent of another kind was asked for failures"
         ELSE ""
    [] OTHER -> ""
AgNext(st, s) ==
  LET Ws == {s.who[k] : k \in 1..Len(s.who)}
      F(w) == LET ag == AgOf(st, w) IN
        CASE s.op = "agld" -> Load(ag, s.a, s.kind)
          [] s.op = "agrep" -> AgReport(ag, s.a, s.names)
          [] s.op = "agit" -> Iterate(ag, s.a, s.it)
          [] s.op = "agq" -> QueryNext(ag, s.max, s.obs[w + 1])
          [] s.op \in {"agcl", "agfin"} -> <<>>
          [] OTHER -> ag
  IN [st EXCEPT !.agt = [w \in (DOMAIN @) \cup Ws |-> IF w \in Ws THEN F(w) ELSE @[w]]]
=============================================================================
