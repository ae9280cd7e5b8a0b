------------------------------ MODULE LaikSystem ------------------------------
\* State and transitions of LAIK as seen by the program: process groups, index spaces,
\* partitionings, data containers with the values every process holds, precomputed
\* transitions, reservations and action sequences.
\* A state is one record; operators deliver the successor state. The same operators are
\* used by the models (MC*.tla) and by the validation of recorded executions (Trace*.tla).
\*
\* Processes are named by their initial location (0..N-1).
\*   grp: id -> [mem: sequence of processes, par: id of parent or -1]
\*   spc: id -> range
\*   prt: id -> [s: space, g: group, rl: range list]
\*   dat: id -> [s, ty, acc: own allocator, p: partitioning or -1, val: <<process, mapping, index>> -> set of possible values]
\*   trn: id -> [from, to, f: flow, r: reduction, pl: plans of the processes]
\*   mem: see LaikMemory
\*   seq: id -> [d, t]
\*   sto: see LaikStores
EXTENDS LaikTypes, LaikTransition

Initial == [grp |-> <<>>, spc |-> <<>>, prt |-> <<>>, dat |-> <<>>, trn |-> <<>>, seq |-> <<>>,
            kvs |-> <<>>, agt |-> <<>>, obv |-> <<>>, wld |-> <<>>, sto |-> [kv |-> <<>>, name |-> <<>>, rng |-> <<>>, loc |-> {}, own |-> <<>>],
            mem |-> [res |-> <<>>, act |-> <<>>, via |-> <<>>, plc |-> <<>>, obs |-> <<>>, prov |-> <<>>, due |-> {},
                     stat |-> <<>>, real |-> <<>>, todo |-> <<>>]]

Mem(st, p) == st.grp[st.prt[p].g].mem
NumTasks(st, p) == Len(Mem(st, p))
SpaceOf(st, p) == st.spc[st.prt[p].s]
\* keys <<process, mapping, index>> of a partitioning
Keys(st, p) == {<<Mem(st, p)[k[1] + 1], k[2], k[3]>> : k \in KeysT(st.prt[p].rl)}
KeysOf(st, p, w) == {k \in Keys(st, p) : k[1] = w}

\* groups
\* id: number under which the group was created first (a union may be one of its operands)
NewGroup2(st, g, mem, par, par2, id) == [st EXCEPT !.grp = Put(@, g, [mem |-> mem, par |-> par, par2 |-> par2, id |-> id])]
NewGroup(st, g, mem, par) == NewGroup2(st, g, mem, par, -1, g)
ShrinkMem(mem, ranks) == LET keep == {k \in 1..Len(mem) : (k - 1) \notin SeqSet(ranks)} IN
  [j \in 1..Cardinality(keep) |-> mem[CHOOSE k \in keep : Cardinality({x \in keep : x < k}) = j - 1]]
\* members of both groups in order of their location ids
RECURSIVE ByLoc(_, _)
ByLoc(S, loc) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : loc[x+1] <= loc[y+1] IN <<x>> \o ByLoc(S \ {x}, loc)
UnionMem(a, b, loc) == ByLoc(SeqSet(a) \cup SeqSet(b), loc)
\* translation of members of a to ranks in b
Translate(a, b) == [k \in 1..Len(a) |-> IndexOf(b, a[k])]

NewSpace(st, s, r) == [st EXCEPT !.spc = Put(@, s, r)]
NewPart(st, p, s, g, rl) == [st EXCEPT !.prt = Put(@, p, [s |-> s, g |-> g, rl |-> rl])]
NewData2(st, d, s, ty, acc) == [st EXCEPT !.dat = Put(@, d, [s |-> s, ty |-> ty, acc |-> acc, p |-> -1, val |-> <<>>])]
NewData(st, d, s, ty) == NewData2(st, d, s, ty, 0)

\* value sets after switching a container with values val of type ty to keys K
\* D: keys with values, W: pairs <<process, mapping>> among them
Places(D) == {<<k[1], k[2]>> : k \in D}
Holders(D, W, i) == {k \in {<<w[1], w[2], i>> : w \in W} : k \in D}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Reduced(ty, red, val, H) == LET s == SeqOfSet(H) IN FoldSets(ty, red, [k \in 1..Len(s) |-> val[s[k]]])
\* n: size of the group the reduction runs in
SwitchVal(val, K, ty, flow, red) ==
  IF flow = "none" THEN [k \in K |-> U]
  ELSE IF flow = "init" THEN [k \in K |-> {Neutral(ty, red)}]
  ELSE LET I == {k[3] : k \in K}
           D == DOMAIN val
           W == Places(D)
           new == TLCEval([i \in I |->
             LET H == Holders(D, W, i) IN
             IF H = {} THEN (IF red = "none" \/ Len(i) > 1 THEN U ELSE {Neutral(ty, red)})
             ELSE IF Cardinality(H) = 1 THEN val[CHOOSE k \in H : TRUE]
             ELSE IF red = "none" THEN UNION {val[k] : k \in H}
             ELSE IF red \in {"any", "single", "custom"} THEN U
             ELSE Reduced(ty, red, val, H)])
       IN [k \in K |-> new[k[3]]]

Switch(st, d, p, flow, red) ==
  [st EXCEPT !.dat[d].p = p,
             !.dat[d].val = IF p < 0 THEN <<>> ELSE SwitchVal(@, Keys(st, p), st.dat[d].ty, flow, red)]
\* an unchanged partitioning and no flow keeps the memory, but promises nothing
SetInitial(st, d, p) == [st EXCEPT !.dat[d].p = p, !.dat[d].val = [k \in Keys(st, p) |-> U]]

\* the program writes v(w, m, i) to everything it owns
WriteAll(st, d, v(_, _, _)) == [st EXCEPT !.dat[d].val = [k \in DOMAIN @ |-> {v(k[1], k[2], k[3])}]]

\* process w reads values ob (key -> value): possible, and known from now on
ReadOk(st, d, w, ob) ==
  LET val == st.dat[d].val IN
  /\ DOMAIN ob = {k \in DOMAIN val : k[1] = w}
  /\ \A k \in DOMAIN ob : MayBe(ob[k], val[k])
\* ob: process in W -> (key -> value)
Known(st, d, W, ob) ==
  [st EXCEPT !.dat[d].val = [k \in DOMAIN @ |-> IF k[1] \in W THEN (IF Undef \in @[k] THEN @[k] ELSE {ob[k[1]][k]}) ELSE @[k]]]
=============================================================================
