----------------------------- MODULE TraceMini -----------------------------
\* Recorded runs of programs of mini-MPI calls against MiniMpi. Flows and collective
\* calls name the process they wait for, so that all orders of steps give the same
\* results (MCMini checks this): one order is followed here.
EXTENDS MiniMpi, TLC, Json, IOUtils

Scens == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, pos, st
S == Scens[sid]
Prog == S.prog
Reject(k, why) == PrintT(<<"REJECT", S.id, k, why>>) /\ pos' = -1 /\ UNCHANGED <<sid, st>>
Init == sid \in 1..Len(Scens) /\ pos = 0 /\ st = Start(Scens[sid].n)
\* every process has all records: initialisation, its calls, the end
Begin ==
  /\ pos = 0
  /\ IF S.end # "ok" \/ S.ev # <<>> THEN Reject(0, IF S.end = "ok" THEN S.ev[1] ELSE S.end)
     ELSE IF \E p \in 1..S.n : Len(S.obs[p]) # Len(Prog[p]) + 2 THEN Reject(0, "calls without result")
     ELSE IF \E p \in 1..S.n : LET o == S.obs[p][1] IN o.r # p - 1 \/ o.s # S.n \/ o.i # 1 THEN Reject(0, "number or size of the world")
     ELSE IF \E p \in 1..S.n : LET o == S.obs[p][Len(S.obs[p])] IN o.e # 0 \/ o.i # 1 THEN Reject(0, "end of the message passing")
     ELSE pos' = 1 /\ UNCHANGED <<sid, st>>
Obs(p) == S.obs[p][st.pc[p] + 1]
Why(p, x) ==
  LET o == Op(st, Prog, x) r == Result(st, Prog, p, x) b == Obs(x) IN
  IF o.w = "sleep" THEN ""
  ELSE IF o.w = "name" THEN (IF b.e # 0 THEN "name of the processor: failed" ELSE IF b.n <= 0 \/ b.len # b.n THEN "name of the processor" ELSE "")
  ELSE IF b.e # r.e THEN o.w \o (IF r.e = 0 THEN ": failed" ELSE ": error not reported")
  ELSE IF o.w = "bar" THEN (IF \E y \in Who(st, Prog, p) : Obs(y).t[1] > b.t[2] THEN "a process left the barrier before all had entered it" ELSE "")
  ELSE IF b.g # 1 THEN o.w \o ": memory outside of the result changed"
  ELSE IF b.n # r.n THEN o.w \o ": number of elements"
  ELSE IF b.v # r.v THEN o.w \o ": values"
  ELSE IF b.r # r.r \/ b.s # r.s THEN o.w \o ": number in or size of the new communicator"
  ELSE ""
Enab == {p \in 1..S.n : Enabled1(st, Prog, p)}
Step ==
  /\ pos > 0
  /\ Enab # {}
  /\ LET p == CHOOSE q \in Enab : \A r \in Enab : q <= r
         bad == {x \in Who(st, Prog, p) : Why(p, x) # ""} IN
     IF bad # {} THEN LET x == CHOOSE y \in bad : \A z \in bad : y <= z IN
       Reject(pos, "process " \o ToString(x - 1) \o ", call " \o ToString(st.pc[x]) \o ": " \o Why(p, x))
     ELSE st' = Next1(st, Prog, p) /\ pos' = pos + 1 /\ UNCHANGED sid
Stop ==
  /\ pos > 0 /\ Enab = {}
  /\ IF \A p \in 1..S.n : Done(st, Prog, p) THEN PrintT(<<"DONE", S.id>>) /\ pos' = -1 /\ UNCHANGED <<sid, st>>
     ELSE Reject(pos, "program cannot be finished")
Next == Begin \/ Step \/ Stop
Spec == Init /\ [][Next]_<<sid, pos, st>>
=============================================================================
