------------------------------- MODULE MCMsg -------------------------------
\* All small programs of transport calls on the transport of LaikMsg:
\* - a call which can complete without buffering stays so until it completes
\* - what can complete without buffering can complete with buffering
\* - nobody can get stuck (in any interleaving, with any choice of buffering) unless the
\*   one run without buffering which always lets the first able process go on gets stuck
EXTENDS LaikMsg, TLC
CONSTANTS N, MaxLen, Kinds
P == 1..N
Call(k, q, r) == [c |-> k, p |-> q, t |-> IF k = "barrier" THEN r ELSE 1, m |-> 0, n |-> 1, q |-> IF k \in {"isend", "irecv", "wait"} THEN r ELSE 0, d |-> 0]
Calls(p) == UNION {CASE k \in {"wait"} -> {Call(k, 0, 1)} [] k = "barrier" -> {Call(k, 0, 1)}
                     [] OTHER -> {Call(k, q, 1) : q \in P \ {p}} : k \in Kinds}
Progs(p) == UNION {[1..l -> Calls(p)] : l \in 0..MaxLen}
Mem == 0 :> P
RECURSIVE Strict(_, _, _)
\* end of the run without buffering
Strict(prog, lk, pc) ==
  LET A == {p \in P : CanHard(prog, lk, pc, p)} IN
  IF A = {} THEN pc
  ELSE LET p == CHOOSE x \in A : \A y \in A : x <= y IN Strict(prog, lk, [pc EXCEPT ![p] = @ + 1])
\* operations of communicators are numbered by the process
Num(s) == [i \in 1..Len(s) |-> IF s[i].c = "barrier" THEN [s[i] EXCEPT !.t = Cardinality({j \in 1..i : s[j].c = "barrier"})] ELSE s[i]]
\* (the number of programs of each process is multiplied, so they are chosen one after the other)
VARIABLES prog, lk, end, pc
vars == <<prog, lk, end, pc>>
Init == prog = <<>> /\ lk = <<>> /\ end = <<>> /\ pc = <<>>
Choose ==
  /\ Len(prog) < N
  /\ \E s \in Progs(Len(prog) + 1) : prog' = Append(prog, Num(s))
  /\ IF Len(prog) + 1 < N THEN UNCHANGED <<lk, end, pc>>
     ELSE /\ lk' = Links(prog', Mem)
          /\ end' = Strict(prog', lk', [p \in P |-> 0])
          /\ pc' = [p \in P |-> 0]
Step == Len(prog) = N /\ \E p \in P : CanSoft(prog, lk, pc, p) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<prog, lk, end>>
Next == Choose \/ Step
Spec == Init /\ [][Next]_vars
HardSoft == Len(prog) = N => \A p \in P : CanHard(prog, lk, pc, p) => CanSoft(prog, lk, pc, p)
StuckAlike == Len(prog) = N => (Stuck(prog, lk, pc) => ~Finished(prog, end))
Persist == [][Len(prog) = N => \A p \in P : (CanHard(prog, lk, pc, p) /\ pc'[p] = pc[p]) => CanHard(prog, lk, pc', p)]_vars
\* sanity: programs exist which get stuck, and which get stuck only without buffering
NeverStuck == Len(prog) = N => ~Stuck(prog, lk, pc)
=============================================================================
