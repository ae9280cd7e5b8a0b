------------------------------ MODULE TraceMsg ------------------------------
\* Recorded programs of transport calls on the transport of LaikMsg.
\* full = 1: every interleaving and every choice of buffering; no reachable state may be
\* stuck without buffering. full = 0: one run without any buffering. This decides the same:
\* completing a call never takes away what another call waits for (MCMsg checks this
\* property of the transport), so that all runs without buffering end alike, and a state
\* from which nobody can go on without buffering would stop that run as well.
EXTENDS LaikMsg, TLC, Json, IOUtils

Scens == ndJsonDeserialize(IOEnv.TRACE)
Prog(s) == [p \in 1..s.n |-> s.prog[p]]
Mem(s) == [m \in {s.comms[k].id : k \in 1..Len(s.comms)} |-> LET c == s.comms[CHOOSE k \in 1..Len(s.comms) : s.comms[k].id = m] IN {c.mem[j] : j \in 1..Len(c.mem)}]
Lk == [k \in 1..Len(Scens) |-> Links(Prog(Scens[k]), Mem(Scens[k]))]
Pr == [k \in 1..Len(Scens) |-> Prog(Scens[k])]

VARIABLES sid, pos, pc
vars == <<sid, pos, pc>>
S == Scens[sid]
Reject(k, why) == PrintT(<<"REJECT", S.id, k, why>>) /\ pos' = -1 /\ UNCHANGED <<sid, pc>>
\* other schedules and other buffering: same calls, same results
AltWhy == IF \E k \in 1..Len(S.alt) : S.alt[k].end # "ok" THEN S.alt[CHOOSE k \in 1..Len(S.alt) : S.alt[k].end # "ok"].end
          ELSE IF \E k \in 1..Len(S.alt) : S.alt[k].ev # <<>> THEN S.alt[CHOOSE k \in 1..Len(S.alt) : S.alt[k].ev # <<>>].ev[1]
          ELSE IF \E k \in 1..Len(S.alt) : S.alt[k].calls # S.calls THEN "calls depend on the schedule"
          ELSE IF \E k \in 1..Len(S.alt) : S.alt[k].res # S.res THEN "results depend on the schedule"
          ELSE ""
Init == sid \in 1..Len(Scens) /\ pos = 0 /\ pc = [p \in 1..Scens[sid].n |-> 0]
Begin ==
  /\ pos = 0
  /\ IF S.end # "ok" \/ S.ev # <<>> THEN Reject(0, IF S.end = "ok" THEN S.ev[1] ELSE S.end)
     ELSE IF AltWhy # "" THEN Reject(0, AltWhy)
     ELSE LET why == StaticWhy(Pr[sid], Mem(S)) IN
          IF why # "" THEN Reject(0, why) ELSE pos' = 1 /\ UNCHANGED <<sid, pc>>
First == CHOOSE p \in 1..S.n : CanHard(Pr[sid], Lk[sid], pc, p) /\ \A q \in 1..(p - 1) : ~CanHard(Pr[sid], Lk[sid], pc, q)
Step ==
  /\ pos = 1 /\ ~Finished(Pr[sid], pc)
  /\ IF Stuck(Pr[sid], Lk[sid], pc) THEN Reject(1, "deadlock")
     ELSE /\ \E p \in (IF S.full = 1 THEN {q \in 1..S.n : CanSoft(Pr[sid], Lk[sid], pc, q)} ELSE {First}) : pc' = [pc EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<sid, pos>>
Done == pos = 1 /\ Finished(Pr[sid], pc) /\ PrintT(<<"DONE", S.id>>) /\ pos' = -2 /\ UNCHANGED <<sid, pc>>
Next == Begin \/ Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
