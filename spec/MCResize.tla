------------------------------ MODULE MCResize ------------------------------
\* How a world changes by messages: the first process (LID 0) collects requests, waits until
\* all other active processes allow a resize, announces joining and leaving processes to
\* everyone, waits for confirmations and lets everyone go on. All interleavings with requests
\* under way are explored. Checked:
\* - everyone taking part in a resize gets the same world with the same epoch
\* - what happens is what LaikResize allows: joins and removals known before are honoured, the
\*   others at any later time, and none is lost (its belief sets are never empty)
\* - nobody waits forever
EXTENDS ResizeBelief, TLC
CONSTANTS N, MaxJoin, MaxCut, Rounds
LIDs == 0 .. (N + MaxJoin - 1)
VARIABLES
  net,     \* requests under way: [join: BOOLEAN, m: ids named, sure: BOOLEAN, n: number]
  rm,      \* ids asked to leave, known to the first process
  jq, jok, \* joins known to the first process, and those of them for the current resize
  mst,     \* first process: app, progress, collect, confirm
  tab,     \* its table: id -> none, ready, in (allows resize), rm (in, to be removed), reg (joining), ok, rmok (confirmed), left (about to end), dead
  up, dn,  \* messages to and from the first process, per process
  pst,     \* other processes: none (not there), app, resize, joining, gone
  view,    \* what a process knows: id -> none, ready, new, rm
  hist,    \* id -> number of resize -> <<world, epoch>>
  epoch, round, entered,   \* entered: id -> resizes entered
  bel, must, may,  \* belief set, joins known and under way
  budget, world, bad
req == <<net, rm, jq, jok>>
mas == <<mst, tab, epoch, round, world>>
oth == <<pst, view, entered>>
abs == <<bel, must, may, bad>>
vars == <<net, rm, jq, jok, mst, tab, up, dn, pst, view, hist, epoch, round, entered, bel, must, may, budget, world, bad>>
Init ==
  /\ net = {} /\ rm = {} /\ jq = 0 /\ jok = 0 /\ mst = "app"
  /\ tab = [l \in LIDs |-> IF l < N THEN "ready" ELSE "none"]
  /\ up = [l \in LIDs |-> <<>>] /\ dn = [l \in LIDs |-> <<>>]
  /\ pst = [l \in LIDs |-> IF l < N THEN "app" ELSE "none"]
  /\ view = [l \in LIDs |-> [k \in LIDs |-> IF l < N /\ k < N THEN "ready" ELSE "none"]]
  /\ hist = [l \in LIDs |-> <<>>] /\ epoch = 0 /\ round = 0 /\ entered = [l \in LIDs |-> 0]
  /\ bel = {<<>>} /\ must = 0 /\ may = 0 /\ budget = [join |-> MaxJoin, cut |-> MaxCut]
  /\ world = 0..(N-1) /\ bad = ""

\* ---- requests, made while the first process is not within a resize
Cuts == {{l} : l \in LIDs \ {0}} \cup {LIDs}
Ask(c, sure) ==
  /\ mst = "app" /\ round < Rounds /\ budget.cut > 0 /\ budget' = [budget EXCEPT !.cut = @ - 1]
  /\ bel' = {Append(x, [m |-> c, w |-> {world}, sure |-> sure]) : x \in bel}
  /\ net' = net \cup {[join |-> FALSE, m |-> c, sure |-> sure, n |-> budget.cut]}
  /\ UNCHANGED <<rm, jq, jok, mas, oth, up, dn, hist, must, may, bad>>
Come(sure) ==
  /\ mst = "app" /\ round < Rounds /\ budget.join > 0 /\ budget' = [budget EXCEPT !.join = @ - 1]
  /\ must' = must + (IF sure THEN 1 ELSE 0) /\ may' = may + (IF sure THEN 0 ELSE 1)
  /\ net' = net \cup {[join |-> TRUE, m |-> {}, sure |-> sure, n |-> budget.join]}
  /\ UNCHANGED <<rm, jq, jok, mas, oth, up, dn, hist, bel, bad>>
\* the first process sees a request whenever it looks for messages
Poll(q) ==
  /\ net' = net \ {q}
  /\ jq' = IF q.join THEN jq + 1 ELSE jq
  /\ rm' = IF q.join THEN rm ELSE rm \cup {l \in q.m \ {0} : tab[l] \notin {"none", "dead"}}
  /\ UNCHANGED <<jok, mas, oth, up, dn, hist, abs, budget>>

\* ---- first process
Start == /\ mst = "app" /\ round < Rounds /\ mst' = "progress"
         /\ tab' = [l \in LIDs |-> IF tab[l] = "left" THEN "dead" ELSE tab[l]]
         /\ UNCHANGED <<req, oth, up, dn, hist, epoch, round, world, abs, budget>>
\* requests which are sure are there: all of them are seen. Joins seen later wait
Collect == /\ mst = "progress" /\ \A q \in net : ~q.sure
           /\ mst' = "collect" /\ jok' = jq /\ jq' = 0
           /\ UNCHANGED <<net, rm, tab, epoch, round, world, oth, up, dn, hist, abs, budget>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SeqOf(S \ {x})
Msgs(k, S) == LET q == SeqOf(S) IN [i \in 1..Len(q) |-> <<k, q[i]>>]
Others == LIDs \ {0}
Announce ==
  /\ mst = "collect" /\ \A l \in Others : tab[l] # "ready"
  /\ LET max == Cardinality({l \in LIDs : tab[l] # "none"})
         J == max .. (max + jok - 1)
         L == {l \in rm : tab[l] = "in"}
         old == {l \in LIDs : l = 0 \/ tab[l] = "in"}
         t == [l \in LIDs |-> IF l \in J THEN "reg" ELSE IF l \in L THEN "rm" ELSE tab[l]]
     IN /\ tab' = t /\ rm' = {} /\ jok' = 0 /\ mst' = "confirm"
        /\ dn' = [l \in LIDs |-> IF l \in (old \cup J) \ {0}
                    THEN dn[l] \o (IF l \in J THEN <<<<"you", l>>>> \o Msgs("id", old) ELSE <<>>)
                               \o Msgs("newid", J \ {l}) \o Msgs("out", L) \o <<<<"getready", 0>>>>
                    ELSE dn[l]]
        /\ pst' = [l \in LIDs |-> IF l \in J THEN "joining" ELSE pst[l]]
        /\ entered' = [l \in LIDs |-> IF l \in J THEN round + 1 ELSE entered[l]]
  /\ UNCHANGED <<net, jq, epoch, round, world, up, view, hist, abs, budget>>
\* a message from process l
Hear(l) ==
  /\ up[l] # <<>> /\ up' = [up EXCEPT ![l] = Tail(@)]
  /\ tab' = [tab EXCEPT ![l] = CASE Head(up[l]) = "enter" -> "in"
                                 [] Head(up[l]) = "ok" -> IF @ = "rm" THEN "rmok" ELSE "ok"]
  /\ UNCHANGED <<req, mst, epoch, round, world, oth, dn, hist, abs, budget>>
Finish ==
  /\ mst = "confirm" /\ \A l \in Others : tab[l] \in {"none", "dead", "ok", "rmok"}
  /\ LET old == world  New == {0} \cup {l \in Others : tab[l] = "ok"}
         L == old \ New  J == New \ old  e == epoch + (IF New = old THEN 0 ELSE 1)
         n == Cardinality(J)  c == CutAfter(bel, old, L, New)
     IN /\ epoch' = e /\ world' = New /\ round' = round + 1 /\ mst' = "app"
        /\ hist' = [hist EXCEPT ![0] = (round + 1) :> <<New, e>> @@ @]
        /\ dn' = [l \in LIDs |-> IF tab[l] \in {"ok", "rmok"} THEN Append(dn[l], <<"phase", e>>) ELSE dn[l]]
        /\ tab' = [l \in LIDs |-> IF tab[l] = "ok" THEN "ready" ELSE IF tab[l] = "rmok" THEN "left" ELSE tab[l]]
        /\ bel' = c
        /\ bad' = IF c = {} THEN "removals" ELSE IF n < must \/ n > must + may THEN "joins" ELSE bad
        /\ must' = 0 /\ may' = may - (n - must)
  /\ UNCHANGED <<req, oth, up, budget>>

\* ---- other processes
Enter(l) ==
  /\ pst[l] = "app" /\ entered[l] < Rounds
  /\ pst' = [pst EXCEPT ![l] = "resize"] /\ entered' = [entered EXCEPT ![l] = @ + 1]
  /\ up' = [up EXCEPT ![l] = Append(@, "enter")]
  /\ UNCHANGED <<req, mas, view, dn, hist, abs, budget>>
Get(l) ==
  /\ pst[l] \in {"resize", "joining"} /\ dn[l] # <<>>
  /\ LET m == Head(dn[l])  v == view[l] IN
     /\ dn' = [dn EXCEPT ![l] = Tail(@)]
     /\ up' = IF m[1] = "getready" THEN [up EXCEPT ![l] = Append(@, "ok")] ELSE up
     /\ view' = [view EXCEPT ![l] =
           CASE m[1] \in {"you", "newid"} -> [v EXCEPT ![m[2]] = "new"]
             [] m[1] = "id" -> [v EXCEPT ![m[2]] = "ready"]
             [] m[1] = "out" -> [v EXCEPT ![m[2]] = "rm"]
             [] m[1] = "phase" -> [k \in LIDs |-> IF v[k] = "new" THEN "ready" ELSE IF v[k] = "rm" THEN "none" ELSE v[k]]
             [] OTHER -> v]
     /\ IF m[1] = "phase"
        THEN /\ hist' = [hist EXCEPT ![l] = entered[l] :> <<{k \in LIDs : v[k] \in {"ready", "new"}}, m[2]>> @@ @]
             /\ pst' = [pst EXCEPT ![l] = IF v[l] = "rm" THEN "gone" ELSE "app"]
        ELSE UNCHANGED <<hist, pst>>
  /\ UNCHANGED <<req, mas, entered, abs, budget>>

Next == \/ \E c \in Cuts, s \in BOOLEAN : Ask(c, s)
        \/ \E s \in BOOLEAN : Come(s)
        \/ \E q \in net : Poll(q)
        \/ Start \/ Collect \/ Announce \/ Finish
        \/ \E l \in Others : Hear(l) \/ Enter(l) \/ Get(l)
Spec == Init /\ [][Next]_vars

Allowed == bad = ""
Agree == \A l \in Others : \A r \in DOMAIN hist[l] : r \in DOMAIN hist[0] /\ hist[l][r] = hist[0][r]
\* every process taking part gets every world, in the end (if nothing can happen any more)
Ended == round = Rounds /\ \A l \in Others : pst[l] \in {"none", "gone"} \/ (pst[l] = "app" /\ entered[l] = Rounds)
NoStuck == (~ENABLED ((\E q \in net : q.sure /\ Poll(q)) \/ Start \/ Collect \/ Announce \/ Finish \/ \E l \in Others : Hear(l) \/ Enter(l) \/ Get(l))) => Ended
Learned == Ended => \A r \in 1..Rounds : \A l \in hist[0][r][1] : r \in DOMAIN hist[l]
Gone == \A l \in Others : pst[l] = "gone" => l \notin world
=============================================================================
