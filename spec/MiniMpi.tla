------------------------------ MODULE MiniMpi ------------------------------
\* Message passing of the TCP backend ("mini-MPI"): what its calls mean.
\* A communicator is an identity and a sequence of processes (numbers in the world).
\* Messages of one communicator, sender, receiver and tag form a flow: received
\* completely, once, in order; flows are independent of each other.
\* Sending never waits for anybody. Collective calls are one step of all members.
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bitwise, TLC

\* --- values
Rep(v, n) == [i \in 1..n |-> v[((i - 1) % Len(v)) + 1]]
B2(x) == IF x THEN 1 ELSE 0
Comb(op, x, y) ==
  CASE op = "sum" -> x + y
    [] op = "prod" -> x * y
    [] op = "min" -> IF y < x THEN y ELSE x
    [] op = "max" -> IF y > x THEN y ELSE x
    [] op = "land" -> B2(x # 0 /\ y # 0)
    [] op = "lor" -> B2(x # 0 \/ y # 0)
    [] op = "band" -> x & y
    [] op = "bor" -> x | y
RECURSIVE CombAll(_, _)
CombAll(op, vs) == IF Len(vs) = 1 THEN vs[1]
  ELSE LET r == CombAll(op, SubSeq(vs, 1, Len(vs) - 1)) l == vs[Len(vs)] IN [i \in 1..Len(r) |-> Comb(op, r[i], l[i])]

\* --- state: pc, comm: per process the communicators by name; chan: flows; used: number of communicators made from one
Key(id, s, d, t) == <<id, s, d, t>>
World(n) == [id |-> <<>>, mem |-> [k \in 1..n |-> k]]
Start(n) == [pc |-> [p \in 1..n |-> 1], comm |-> [p \in 1..n |-> (0 :> World(n))], chan |-> [k \in {} |-> <<>>], used |-> (<<>> :> 0)]
Flow(st, k) == IF k \in DOMAIN st.chan THEN st.chan[k] ELSE <<>>
RankOf(c, p) == CHOOSE k \in 1..Len(c.mem) : c.mem[k] = p
Coll(w) == w \in {"bcast", "reduce", "allred", "bar", "split", "dup"}

\* the operation process p has to do next (prog: operations of each process)
Done(st, prog, p) == st.pc[p] > Len(prog[p])
Op(st, prog, p) == prog[p][st.pc[p]]
Cm(st, prog, p) == st.comm[p][Op(st, prog, p).c]
\* who takes part in the step of p
Who(st, prog, p) == IF Coll(Op(st, prog, p).w) THEN {Cm(st, prog, p).mem[k] : k \in 1..Len(Cm(st, prog, p).mem)} ELSE {p}
Src(st, prog, p) == Key(Cm(st, prog, p).id, Cm(st, prog, p).mem[Op(st, prog, p).a + 1], p, Op(st, prog, p).tag)
Enabled1(st, prog, p) ==
  /\ ~Done(st, prog, p)
  /\ LET o == Op(st, prog, p) IN
     CASE o.w = "recv" -> Flow(st, Src(st, prog, p)) # <<>>
       [] Coll(o.w) -> \A q \in Who(st, prog, p) : ~Done(st, prog, q) /\ Op(st, prog, q).w = o.w /\ Cm(st, prog, q).id = Cm(st, prog, p).id
       [] OTHER -> TRUE

\* members of the new communicator of <p>: same colour, ordered by hint, then by old number
Before(x, y) == x.h < y.h \/ (x.h = y.h /\ x.r < y.r)
RECURSIVE SortBy(_)
SortBy(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<m.p>> \o SortBy(S \ {m})
NewMem(st, prog, p) ==
  LET c == Cm(st, prog, p) col == Op(st, prog, p).a IN
  IF Op(st, prog, p).w = "dup" THEN c.mem
  ELSE IF col = -1 THEN <<p>>
  ELSE SortBy({[p |-> c.mem[k], r |-> k, h |-> Op(st, prog, c.mem[k]).b] : k \in {j \in 1..Len(c.mem) : Op(st, prog, c.mem[j]).a = col}})
NewId(st, prog, p) ==
  LET o == Op(st, prog, p) c == Cm(st, prog, p) IN
  c.id \o <<st.used[c.id], IF o.w = "dup" THEN -2 ELSE o.a, IF o.w # "dup" /\ o.a = -1 THEN p ELSE 0>>

Nothing == [e |-> 0, n |-> 0, g |-> 1, v |-> <<>>, r |-> -1, s |-> -1]
\* results of the step of process p for all which take part (x: one of them)
Result(st, prog, p, x) ==
  LET o == Op(st, prog, x) c == Cm(st, prog, x) IN
  CASE o.w = "recv" -> LET m == Head(Flow(st, Src(st, prog, x))) IN
         IF Len(m) > o.n THEN [Nothing EXCEPT !.e = 1] ELSE [Nothing EXCEPT !.n = Len(m), !.v = m]
    [] o.w = "bcast" -> [Nothing EXCEPT !.v = LET r == Op(st, prog, c.mem[o.a + 1]) IN Rep(r.v, r.n)]
    [] o.w = "allred" \/ (o.w = "reduce" /\ c.mem[o.a + 1] = x) ->
         [Nothing EXCEPT !.v = CombAll(o.o, [k \in 1..Len(c.mem) |-> LET r == Op(st, prog, c.mem[k]) IN Rep(r.v, r.n)])]
    [] o.w \in {"split", "dup"} -> LET m == NewMem(st, prog, x) IN
         [Nothing EXCEPT !.r = (CHOOSE k \in 1..Len(m) : m[k] = x) - 1, !.s = Len(m)]
    [] OTHER -> Nothing
\* state after the step
Next1(st, prog, p) ==
  LET o == Op(st, prog, p) c == Cm(st, prog, p) W == Who(st, prog, p)
      s1 == [st EXCEPT !.pc = [q \in DOMAIN st.pc |-> IF q \in W THEN st.pc[q] + 1 ELSE st.pc[q]]] IN
  CASE o.w = "send" -> LET k == Key(c.id, p, c.mem[o.a + 1], o.tag) IN
         [s1 EXCEPT !.chan = (k :> Append(Flow(st, k), Rep(o.v, o.n))) @@ st.chan]
    [] o.w = "recv" -> [s1 EXCEPT !.chan[Src(st, prog, p)] = Tail(@)]
    [] o.w \in {"split", "dup"} ->
         [s1 EXCEPT !.comm = [q \in DOMAIN st.comm |-> IF q \in W THEN (Op(st, prog, q).nw :> [id |-> NewId(st, prog, q), mem |-> NewMem(st, prog, q)]) @@ st.comm[q] ELSE st.comm[q]],
                    !.used = [i \in {NewId(st, prog, q) : q \in W} |-> 0] @@ st.used,
                    !.used[c.id] = st.used[c.id] + 1]
    [] OTHER -> s1
=============================================================================
