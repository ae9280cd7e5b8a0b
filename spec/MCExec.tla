------------------------------- MODULE MCExec ------------------------------
\* How a backend orders the sends and receives of an action sequence, for every set of
\* messages: within a round first receives from lower, sends to higher, sends to lower,
\* receives from higher processes, each ordered by partner (laik_aseq_sort_2phases).
\* Asynchronous variant: receives posted one round earlier, sends waited for one round later.
\* Every process has the other processes' order as well; no interleaving may get stuck
\* without buffering.
EXTENDS LaikMsg, TLC
CONSTANTS N, Rounds, Same, Modes      \* Same: messages between two processes in a round
P == 1..N
Cell == {<<r, a, b, k>> : r \in 1..Rounds, a \in P, b \in P, k \in 1..Same}
Phase(me, send, q) == IF send THEN (IF q < me THEN 3 ELSE 2) ELSE (IF q < me THEN 1 ELSE 4)
C(k, q, m) == [c |-> k, p |-> q, t |-> 1, m |-> 0, n |-> m[1] * 100 + m[4], q |-> 0, d |-> 0]
\* entries <<key, call>>: key orders the calls of a process
Key(r, ph, q, k) == ((r * 8 + ph) * (N + 1) + q) * (Same + 1) + k
Sync(M, p) ==
  {<<Key(m[1], Phase(p, TRUE, m[3]), m[3], m[4]), C("send", m[3], m)>> : m \in {x \in M : x[2] = p}} \cup
  {<<Key(m[1], Phase(p, FALSE, m[2]), m[2], m[4]), C("recv", m[2], m)>> : m \in {x \in M : x[3] = p}}
\* request numbers: unique within the process
Req(m, recv) == (IF recv THEN 1000 ELSE 0) + (m[1] * N + (IF recv THEN m[2] ELSE m[3])) * (Same + 1) + m[4]
A(k, q, m, r) == [C(k, q, m) EXCEPT !.q = r]
Async(M, p) ==
  LET S == {x \in M : x[2] = p}  R == {x \in M : x[3] = p} IN
  {<<Key(2 * m[1], 1, m[2], m[4]), A("irecv", m[2], m, Req(m, TRUE))>> : m \in R} \cup
  {<<Key(2 * m[1] + 1, Phase(p, FALSE, m[2]), m[2], m[4]), A("wait", 0, m, Req(m, TRUE))>> : m \in R} \cup
  {<<Key(2 * m[1] + 1, Phase(p, TRUE, m[3]), m[3], m[4]), A("isend", m[3], m, Req(m, FALSE))>> : m \in S} \cup
  {<<Key(2 * m[1] + 2, 0, m[3], m[4]), A("wait", 0, m, Req(m, FALSE))>> : m \in S}
\* no order at all but the one of the messages: must be found to get stuck
Naive(M, p) ==
  {<<Key(m[1], 0, m[3], m[4]), C("send", m[3], m)>> : m \in {x \in M : x[2] = p}} \cup
  {<<Key(m[1], 1, m[2], m[4]), C("recv", m[2], m)>> : m \in {x \in M : x[3] = p}}
Entries(M, p, mode) == CASE mode = "sync" -> Sync(M, p) [] mode = "async" -> Async(M, p) [] OTHER -> Naive(M, p)
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<e[2]>> \o Order(S \ {e})
Program(M, mode) == [p \in P |-> Order(Entries(M, p, mode))]

VARIABLES msgs, prog, lk, pc
vars == <<msgs, prog, lk, pc>>
Valid(M) == \A m \in M : m[2] # m[3] /\ (m[4] > 1 => <<m[1], m[2], m[3], m[4] - 1>> \in M)
Init == /\ msgs \in {M \in SUBSET {m \in Cell : m[2] # m[3]} : Valid(M)}
        /\ prog \in {Program(msgs, mode) : mode \in Modes}
        /\ lk = Links(prog, 0 :> P)
        /\ pc = [p \in P |-> 0]
Next == \E p \in P : CanSoft(prog, lk, pc, p) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<msgs, prog, lk>>
Spec == Init /\ [][Next]_vars
NeverStuck == ~Stuck(prog, lk, pc)
Sound == (\A p \in P : pc[p] = 0) => StaticWhy(prog, 0 :> P) = ""
=============================================================================
