---------------------------- MODULE AgentScripts ----------------------------
\* All short histories of loading, reporting and asking. Checked: every report is delivered
\* exactly once or still waits, whatever room queries have. Histories are written out to be
\* replayed with the real library.
EXTENDS LaikAgents, TLC, Json, IOUtils
CONSTANTS MaxOps, Kinds, Rooms
VARIABLES h, ag, rep, got, lost
\* h: history, rep: names reported to agents loaded, got: names delivered, lost: dropped with their agent
Init == h = <<>> /\ ag = <<>> /\ rep = <<>> /\ got = <<>> /\ lost = <<>>
Name(n) == ToString(n)
Do(x) == h' = Append(h, x)
LoadA == \E k \in Kinds : /\ Len(ag) < 3 /\ ag' = Load(ag, Len(SelectSeq(h, LAMBDA x : x[1] = "load")), k)
                          /\ Do(<<"load", k, 0>>) /\ UNCHANGED <<rep, got, lost>>
ReportA == \E j \in 1..Len(ag), n \in {1, 2} :
   LET names == [i \in 1..n |-> Name(Len(rep) + i)] IN
   /\ ag[j].k \in {"ft", "flag"} => TRUE
   /\ ag' = AgReport(ag, ag[j].a, names)
   /\ rep' = IF ag[j].k \in {"ft", "flag"} THEN rep \o names ELSE rep
   /\ Do(<<"report", ToString(ag[j].a), n>>) /\ UNCHANGED <<got, lost>>
\* room is not enough only if all agents tell how many failures there are
Ask == \E max \in Rooms : \E T \in Deliveries(ag, max) :
   /\ (\A k \in 1..Len(ag) : ag[k].k # "flag") \/ max >= Len(AllOf(ag, Asked(ag)))
   /\ got' = got \o AllOf(ag, T) /\ ag' = AgQuery(ag, T)
   /\ Do(<<"ask", ToString(max), 0>>) /\ UNCHANGED <<rep, lost>>
Clean == ag # <<>> /\ ag' = <<>> /\ lost' = lost \o AllOf(ag, Asked(ag)) /\ Do(<<"clean", "", 0>>) /\ UNCHANGED <<rep, got>>
Next == Len(h) < MaxOps /\ (LoadA \/ ReportA \/ Ask \/ Clean)
Spec == Init /\ [][Next]_<<h, ag, rep, got, lost>>
Count1(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
OnceEach == LET all == got \o lost \o AllOf(ag, Asked(ag)) IN \A k \in 1..Len(rep) : Count1(all, rep[k]) = Count1(rep, rep[k])
NoneInvented == \A k \in 1..Len(got) : Count1(rep, got[k]) = 1
Emit == Len(h) = MaxOps => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
