--------------------------- MODULE ResizeScripts ---------------------------
\* All short histories of requests between resizes, written out to be replayed: joins and
\* removals which are known to the first process (sure) or under way, in every order
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, MaxJoin, PerRound, Rounds
VARIABLES h, round, n, j
Init == h = <<>> /\ round = 0 /\ n = 0 /\ j = 0
LIDs == 0 .. (N + MaxJoin - 1)
Put(x) == h' = Append(h, x)
Join(s) == n < PerRound /\ j < MaxJoin /\ Put(<<"join", s, <<>>>>) /\ n' = n + 1 /\ j' = j + 1 /\ UNCHANGED round
Cut(s, m) == n < PerRound /\ Put(<<"cut", s, m>>) /\ n' = n + 1 /\ UNCHANGED <<round, j>>
Resize == round < Rounds /\ Put(<<"rsz", 0, <<>>>>) /\ round' = round + 1 /\ n' = 0 /\ UNCHANGED j
Next == \/ round < Rounds /\ \E s \in {0, 1} : Join(s) \/ (\E l \in LIDs \ {0} : Cut(s, <<l>>)) \/ Cut(s, [k \in 1..(N + MaxJoin) |-> k - 1])
        \/ Resize
Spec == Init /\ [][Next]_<<h, round, n, j>>
Emit == round = Rounds => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
