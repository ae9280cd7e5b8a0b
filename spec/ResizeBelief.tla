---------------------------- MODULE ResizeBelief ----------------------------
\* Which requests to leave may have been honoured. Somebody outside asks for the removal of
\* processes; the request is known to the first process at once (sure), or at any later time.
\* A belief is a list of requests not known to be honoured yet; a set of beliefs covers all
\* possibilities. A request is [m: ids named, w: worlds one of which is the one it arrived in
\* (only processes there can be meant), sure: it has arrived].
EXTENDS Integers, Sequences, FiniteSets
\* processes removed if requests cs are honoured: ch[k] = world request k arrived in, or {} if
\* it is not there yet. The first process cannot be removed.
Removed(cs, ch, W) == (UNION {cs[k].m \cap ch[k] : k \in 1..Len(cs)} \cap W) \ {0}
\* worlds are never empty
Choices(cs) == {ch \in [1..Len(cs) -> UNION {cs[k].w : k \in 1..Len(cs)} \cup {{}}] :
                  \A k \in 1..Len(cs) : (ch[k] = {} /\ ~cs[k].sure) \/ ch[k] \in cs[k].w}
RECURSIVE KeepReq(_, _, _, _)
KeepReq(cs, ch, k, New) == IF k > Len(cs) THEN <<>>
  ELSE (IF ch[k] = {} THEN <<[cs[k] EXCEPT !.w = @ \cup {New}]>> ELSE <<>>) \o KeepReq(cs, ch, k + 1, New)
\* lists of requests left if the world became New and processes L left
CutAfter(cut, W, L, New) ==
  UNION {{KeepReq(cs, ch, 1, New) : ch \in {c \in Choices(cs) : Removed(cs, c, W) = L}} : cs \in cut}

=============================================================================
