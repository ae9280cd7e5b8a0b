---------------------------- MODULE MiniScripts ----------------------------
\* All short programs of mini-MPI calls: communicators are split and copied, values sent,
\* reduced and broadcast within any of them. A program is made up call by call in an order in
\* which it can be executed; then all orders of its steps (of independent processes) are gone
\* through. Checked: every order finishes, with the same results (TraceMini may use any one);
\* communicators sharing two processes never share their generation number, from which the
\* implementation makes the headers of messages (its way of agreeing on the number is modelled).
\* Programs are written out to be replayed.
EXTENDS MiniMpi, Json
CONSTANTS N, MaxOps, MaxSplits, Explore
VARIABLES h, prog, st, gen, last, phase, res, ref
\* h: history of <<process, operation>> or collective; gen: generation number of communicators by identity
\* last: of each process; res: results so far of each process; ref: results in the order of making the program
vars == <<h, prog, st, gen, last, phase, res, ref>>
P == 1..N
Base == [w |-> "", c |-> 0, a |-> 0, b |-> 0, tag |-> 0, t |-> "int32", n |-> 1, v |-> <<0>>, o |-> "sum", ip |-> 0, nw |-> 0, p |-> 0]
Init == /\ h = <<>> /\ prog = [p \in P |-> <<>>] /\ st = Start(N) /\ gen = (<<>> :> 0)
        /\ last = [p \in P |-> 0] /\ phase = "make" /\ res = [p \in P |-> <<>>] /\ ref = <<>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Names == UNION {DOMAIN st.comm[p] : p \in P}
Splits == Cardinality({k \in 1..Len(h) : h[k].w \in {"split", "dup"}})
\* do one step (of all which take part in it)
Apply(pr, p) ==
  LET W == Who(st, pr, p) o == Op(st, pr, p) IN
  /\ st' = Next1(st, pr, p)
  /\ res' = [q \in P |-> IF q \in W THEN Append(res[q], Result(st, pr, p, q)) ELSE res[q]]
  /\ IF o.w \in {"split", "dup"}
     THEN LET g == Max({last[q] : q \in W}) + 1 IN
          /\ last' = [q \in P |-> IF q \in W THEN g ELSE last[q]]
          /\ gen' = [i \in {NewId(st, pr, q) : q \in W} |-> g] @@ gen
     ELSE UNCHANGED <<last, gen>>
\* append operations f[q] for all processes q of W
Add(W, f) == [q \in P |-> IF q \in W THEN Append(prog[q], f[q]) ELSE prog[q]]
\* smallest member
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
First(q, name) == Min({st.comm[q][name].mem[k] : k \in 1..Len(st.comm[q][name].mem)})
CollOp(x, name) ==
  \E q0 \in P : /\ name \in DOMAIN st.comm[q0] /\ q0 = First(q0, name)
     /\ LET m == st.comm[q0][name].mem
            W == {m[k] : k \in 1..Len(m)}
            pr == Add(W, [q \in W |-> [x[RankOf(st.comm[q0][name], q)] EXCEPT !.c = name, !.p = q - 1]]) IN
        /\ prog' = pr /\ h' = Append(h, [w |-> x[1].w, q |-> [k \in 1..Len(m) |-> pr[m[k]][Len(pr[m[k]])]]]) /\ Apply(pr, q0)
All(o) == [k \in P |-> o]
Nw == Splits + 1
Split == \E name \in Names, cols \in {<<0, 0, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<0, -1, 0>>}, up \in {0, -1} :
  CollOp([k \in P |-> [Base EXCEPT !.w = "split", !.nw = Nw, !.a = cols[k], !.b = up * k]], name)
Dup == \E name \in Names : CollOp(All([Base EXCEPT !.w = "dup", !.nw = Nw]), name)
Red == \E name \in Names : CollOp([k \in P |-> [Base EXCEPT !.w = "allred", !.v = <<k * 3 + Len(h)>>]], name)
Bc == \E name \in Names : CollOp(All([Base EXCEPT !.w = "bcast", !.v = <<50 + Len(h)>>]), name)
\* a message, received at once or later (one process has at most two messages waiting)
Send == \E p \in P, name \in Names : /\ name \in DOMAIN st.comm[p]
  /\ \E k \in 1..Len(st.comm[p][name].mem) : /\ st.comm[p][name].mem[k] # p
       /\ LET o == [Base EXCEPT !.w = "send", !.c = name, !.a = k - 1, !.v = <<100 + Len(h)>>, !.p = p - 1]
              pr == Add({p}, [q \in {p} |-> o]) IN
          prog' = pr /\ h' = Append(h, [w |-> "send", q |-> <<o>>]) /\ Apply(pr, p)
Recv == \E p \in P, name \in Names : /\ name \in DOMAIN st.comm[p]
  /\ \E k \in 1..Len(st.comm[p][name].mem) : /\ st.comm[p][name].mem[k] # p
       /\ Flow(st, Key(st.comm[p][name].id, st.comm[p][name].mem[k], p, 0)) # <<>>
       /\ LET o == [Base EXCEPT !.w = "recv", !.c = name, !.a = k - 1, !.p = p - 1]
              pr == Add({p}, [q \in {p} |-> o]) IN
          prog' = pr /\ h' = Append(h, [w |-> "recv", q |-> <<o>>]) /\ Apply(pr, p)
Waiting == Cardinality({k \in DOMAIN st.chan : st.chan[k] # <<>>})
Make == /\ phase = "make" /\ Len(h) < MaxOps
        /\ \/ Splits < MaxSplits /\ (Split \/ Dup)
           \/ Red
           \/ Bc
           \/ Waiting < 2 /\ Send
           \/ Recv
        /\ UNCHANGED <<phase, ref>>
\* all messages have been received
Ready == phase = "make" /\ Len(h) = MaxOps /\ Waiting = 0
Run == /\ Explore /\ Ready /\ phase' = "run" /\ ref' = res /\ res' = [p \in P |-> <<>>] /\ st' = Start(N)
       /\ gen' = (<<>> :> 0) /\ last' = [p \in P |-> 0] /\ UNCHANGED <<h, prog>>
Go == /\ phase = "run" /\ UNCHANGED <<h, prog, phase, ref>>
      /\ \E p \in P : Enabled1(st, prog, p) /\ (\A q \in Who(st, prog, p) : p <= q) /\ Apply(prog, p)
Next == Make \/ Run \/ Go
Spec == Init /\ [][Next]_vars
\* ---- properties
Finishes == phase = "run" => \/ \E p \in P : Enabled1(st, prog, p) \/ \A q \in P : Done(st, prog, q)
SameResults == phase = "run" => \A p \in P : SubSeq(ref[p], 1, Len(res[p])) = res[p]
Members(p) == {st.comm[p][k] : k \in DOMAIN st.comm[p]}
NumbersDiffer == \A p \in P : \A x, y \in Members(p) : x # y /\ gen[x.id] = gen[y.id] => {x.mem[k] : k \in 1..Len(x.mem)} \cap {y.mem[k] : k \in 1..Len(y.mem)} = {p}
Emit == ~Explore /\ Ready => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
