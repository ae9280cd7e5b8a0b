--------------------------- MODULE ObserveScripts ---------------------------
\* All short histories of measuring one process: profiling on and off, to a file or not, resetting,
\* user spans, work done in LAIK (part of it communicating) and outside, records written.
\* Checked: what is reported is always the time really spent since measuring began (the ghost
\* variables say how much that is), a file consists of complete records between its borders and
\* does not change any more once it is closed. Histories are written out to be replayed.
EXTENDS LaikObserve, Json
CONSTANTS MaxOps
VARIABLES h, ob, tot, bck, wall, base, old
\* tot, bck: spent in LAIK and in the backend since the start, wall: elapsed time,
\* base: <<tot, bck, wall>> when measuring began, old: files as they were when closed
vars == <<h, ob, tot, bck, wall, base, old>>
Cfg == DefaultLog
Init == h = <<>> /\ ob = Obv0(Cfg) /\ tot = 0 /\ bck = 0 /\ wall = 0 /\ base = <<0, 0, 0>> /\ old = <<>>
Pair == <<tot, bck>>
S(op, on) == [op |-> op, on |-> on, t |-> "x", i |-> 5, p |-> 1, k |-> 1]
Do(op, on) == h' = Append(h, <<op, on>>)
Step(op, on, o) ==
  /\ Do(op, on) /\ ob' = ObNextAt(ob, Cfg, 0, S(op, on), o) /\ UNCHANGED <<tot, bck, wall>>
  /\ base' = IF \/ op = "prs" /\ ob.on
                \/ op = "pen" /\ on = 1 /\ ~ob.on
                \/ op = "pfile" /\ ~(ob.on /\ ob.fo > 0)
             THEN <<tot, bck, wall>> ELSE base
  /\ old' = IF op = "pcl" /\ ob.fo > 0 THEN Append(old, <<ob.fo, ob'.ff[ob.fo]>>) ELSE old
\* not while a file is open and profiling is off: nobody would close that one
MayOpen == Len(ob.ff) < 2 /\ ~(ob.fo > 0 /\ ~ob.on)
Measure == \/ \E on \in {0, 1} : Step("pen", on, Pair) \/ Step("pus", on, wall)
           \/ Step("prs", 0, Pair) \/ Step("pwr", 0, Pair) \/ Step("ppr", 0, 0) \/ Step("pcl", 0, 0)
           \/ MayOpen /\ Step("pfile", 0, Pair)
Used(op) == op \in {h[k][1] : k \in 1..Len(h)}
Work == Do("work", 0) /\ tot' = tot + 3 /\ bck' = bck + 2 /\ wall' = wall + 3 /\ UNCHANGED <<ob, base, old>>
Tick == Do("tick", 0) /\ wall' = wall + 5 /\ UNCHANGED <<ob, tot, bck, base, old>>
Mark == ~Used("its") /\ Step("its", 0, 0)
Next == Len(h) < MaxOps /\ (Measure \/ Work \/ Tick \/ Mark)
Spec == Init /\ [][Next]_vars
\* ---- properties
MeasuredIsSpent == ob.on => tot - ob.T0 = tot - base[1] /\ bck - ob.B0 = bck - base[2]
Bounded == ob.on => bck - ob.B0 <= tot - ob.T0 /\ tot - ob.T0 <= wall - base[3] /\ ob.us >= 0 /\ ob.us <= wall
ClosedStays == \A k \in 1..Len(old) : ob.ff[old[k][1]] = old[k][2]
Complete == \A f \in 1..Len(ob.ff) : ob.ff[f] # <<>> =>
  /\ ob.ff[f][1] = <<"start">> /\ ob.ff[f][2] = <<"app">>
  /\ \A k \in 3..Len(ob.ff[f]) : ob.ff[f][k][1] \in {"rec", "text", "end"} /\ (ob.ff[f][k][1] = "end" => k = Len(ob.ff[f]))
  /\ f # ob.fo => ob.ff[f][Len(ob.ff[f])] = <<"end">>
Emit == Len(h) = MaxOps => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
