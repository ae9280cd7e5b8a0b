------------------------------ MODULE LaikMsg ------------------------------
\* The transport, and programs of transport calls running on it.
\* A program is a function process (1..N) -> sequence of calls
\*   [c: kind, p: other process (0: none), t: tag or number of the collective operation,
\*    m: communicator, n: bytes, q: request, d: element type]
\* No call names its partner by a wildcard and no answer of the transport has influence on
\* later calls. Therefore it is fixed which send meets which receive, and the state of a run
\* is how many calls every process has completed (pc).
\* The transport may buffer any message or none: a send completes when the transport
\* likes, at the latest when the receive is there (posted).
EXTENDS Integers, Sequences, FiniteSets

IsSend(c) == c.c \in {"send", "isend"}
IsRecv(c) == c.c \in {"recv", "irecv"}
IsColl(c) == ~IsSend(c) /\ ~IsRecv(c) /\ c.c # "wait"
\* number of the call among the calls of process p with the same partner, tag and communicator
Nth(prog, p, i) == LET c == prog[p][i] IN
  Cardinality({j \in 1..i : LET x == prog[p][j] IN IsSend(x) = IsSend(c) /\ IsRecv(x) = IsRecv(c) /\ x.p = c.p /\ x.t = c.t /\ x.m = c.m})
\* calls of the partner this send or receive may meet
Meets(prog, p, i) ==
  LET c == prog[p][i]  q == c.p IN
  IF q \notin DOMAIN prog THEN {} ELSE
  {j \in 1..Len(prog[q]) : LET x == prog[q][j] IN
     /\ (IsSend(c) /\ IsRecv(x)) \/ (IsRecv(c) /\ IsSend(x))
     /\ x.p = p /\ x.t = c.t /\ x.m = c.m /\ Nth(prog, q, j) = Nth(prog, p, i)}
\* the call a wait is for
Opens(prog, p, i) == LET S == {j \in 1..(i - 1) : prog[p][j].c \in {"isend", "irecv"} /\ prog[p][j].q = prog[p][i].q} IN
  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
SameColl(prog, x, c) == {j \in 1..Len(prog[x]) : IsColl(prog[x][j]) /\ prog[x][j].m = c.m /\ prog[x][j].t = c.t}

\* For every call: the calls <<process, position>> which have to be posted before it completes
\* if the transport does not buffer (hard), and if it buffers everything (soft)
Links(prog, mem) ==
  [p \in DOMAIN prog |-> [i \in 1..Len(prog[p]) |->
    LET c == prog[p][i]
        part(k) == {<<prog[p][k].p, j>> : j \in Meets(prog, p, k)}
        all == UNION {{<<x, j>> : j \in SameColl(prog, x, c)} : x \in mem[c.m] \ {p}}
    IN CASE c.c \in {"isend", "irecv"} -> [hard |-> {}, soft |-> {}]
         [] c.c = "send" -> [hard |-> part(i), soft |-> {}]
         [] c.c = "recv" -> [hard |-> part(i), soft |-> part(i)]
         [] c.c = "wait" -> LET k == Opens(prog, p, i) IN
              IF k = 0 THEN [hard |-> {}, soft |-> {}]
              ELSE [hard |-> part(k), soft |-> IF prog[p][k].c = "isend" THEN {} ELSE part(k)]
         [] c.c \in {"reduce", "gather"} -> [hard |-> all, soft |-> IF c.p = p THEN all ELSE {}]
         [] c.c = "bcast" -> [hard |-> all, soft |-> IF c.p = p THEN {} ELSE {y \in all : y[1] = c.p}]
         [] OTHER -> [hard |-> all, soft |-> all]]]

\* a call is posted once all calls of the process before it are complete
Posted(pc, y) == pc[y[1]] >= y[2] - 1
Finished(prog, pc) == \A p \in DOMAIN prog : pc[p] = Len(prog[p])
CanHard(prog, lk, pc, p) == pc[p] < Len(prog[p]) /\ \A y \in lk[p][pc[p] + 1].hard : Posted(pc, y)
CanSoft(prog, lk, pc, p) == pc[p] < Len(prog[p]) /\ \A y \in lk[p][pc[p] + 1].soft : Posted(pc, y)
\* nobody can go on unless the transport buffers
Stuck(prog, lk, pc) == ~Finished(prog, pc) /\ \A p \in DOMAIN prog : ~CanHard(prog, lk, pc, p)

\* What must hold for the calls themselves
StaticWhy(prog, mem) ==
  LET C == UNION {{<<p, i>> : i \in 1..Len(prog[p])} : p \in DOMAIN prog}
      at(y) == prog[y[1]][y[2]]
      P2P == {y \in C : IsSend(at(y)) \/ IsRecv(at(y))}
      one(y) == <<at(y).p, CHOOSE j \in Meets(prog, y[1], y[2]) : TRUE>>
  IN IF \E y \in P2P : Cardinality(Meets(prog, y[1], y[2])) # 1 THEN "message without receive or receive without message"
     ELSE IF \E y \in P2P : at(one(y)).n # at(y).n THEN "sizes of send and receive differ"
     ELSE IF \E y \in P2P : at(one(y)).d # at(y).d THEN "types of send and receive differ"
     ELSE IF \E y \in P2P : at(y).c = "send" /\ at(y).p = y[1] THEN "blocking send to itself"
     ELSE IF \E y \in C : at(y).c = "wait" /\ (Opens(prog, y[1], y[2]) = 0 \/ \E j \in (Opens(prog, y[1], y[2]) + 1)..(y[2] - 1) : prog[y[1]][j].c = "wait" /\ prog[y[1]][j].q = at(y).q)
          THEN "wait for a request which is not active"
     ELSE IF \E y \in C : at(y).c \in {"isend", "irecv"} /\ ~\E j \in (y[2] + 1)..Len(prog[y[1]]) : prog[y[1]][j].c = "wait" /\ prog[y[1]][j].q = at(y).q THEN "request never completed"
     ELSE IF \E y \in C : IsColl(at(y)) /\ \E x \in mem[at(y).m] : Cardinality(SameColl(prog, x, at(y))) # 1 THEN "collective operation without some member"
     ELSE IF \E y \in C : IsColl(at(y)) /\ \E x \in mem[at(y).m] : LET z == prog[x][CHOOSE j \in SameColl(prog, x, at(y)) : TRUE] IN
                z.c # at(y).c \/ z.n # at(y).n \/ z.d # at(y).d \/ z.p # at(y).p THEN "collective operations of members differ"
     ELSE ""
=============================================================================
