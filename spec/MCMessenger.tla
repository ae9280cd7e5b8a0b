---------------------------- MODULE MCMessenger ----------------------------
\* How messages get from one process to another in the TCP backend: the sender puts a message
\* into its outbox and offers it (TRY), which is refused if the inbox of the receiver is full; a
\* receiver which waits asks for the message (GET); a synchronous send insists (ADD). Boxes keep a
\* mark of messages which left them. Connections may be refused, or closed before a request is read.
\* All programs of M messages between two processes, all limits of the boxes, all schedules.
\* Checked: no message gets lost, appears twice or stays behind, and everything is received in the end.
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS M, Threads, Failures, Inf
Pr == {1, 2}
\* the last two are the barrier at the end: process 2 tells it is there (M + 1), 1 lets it go (M + 2)
K == 1..(M + 2)
VARIABLES prog, snd, inlim, outlim, pc, main, out, inb, tasks, act, dis, left, mark, gone
\* mark: messages known to have left the outbox, gone: processes which have ended
vars == <<prog, snd, inlim, outlim, pc, main, out, inb, tasks, act, dis, left, mark, gone>>
Other(p) == 3 - p
Own == 1..M
Perm == {f \in [Own -> Own] : \A i, j \in Own : f[i] = f[j] => i = j}
\* messages made in the order 1..M. With limited outbox the receiver takes each before the next is made,
\* otherwise in any order after making all its own
Sub(f(_)) == LET RECURSIVE s(_)
                 s(k) == IF k > M THEN <<>> ELSE f(k) \o s(k + 1) IN s(1)
End_(p, s) == s \o (IF p = 1 THEN << <<"get", M + 1>>, <<"send", M + 2>> >> ELSE << <<"push", M + 1>>, <<"get", M + 2>> >>)
Init ==
  /\ \E f \in [Own -> Pr] : snd = [k \in K |-> IF k \in Own THEN f[k] ELSE M + 3 - k]
  /\ inlim \in {0, 1, Inf} /\ outlim \in {0, 1, Inf}
  /\ \E kind \in [Own -> {"push", "send"}] :
       IF outlim < Inf THEN prog = [p \in Pr |-> End_(p, Sub(LAMBDA k : IF snd[k] = p THEN << <<kind[k], k>> >> ELSE << <<"get", k>> >>))]
       ELSE \E f \in Perm : prog = [p \in Pr |-> End_(p, Sub(LAMBDA k : IF snd[k] = p THEN << <<kind[k], k>> >> ELSE <<>>)
                                               \o Sub(LAMBDA k : IF snd[f[k]] = p THEN <<>> ELSE << <<"get", f[k]>> >>))]
  /\ pc = [p \in Pr |-> 1] /\ main = [p \in Pr |-> "idle"]
  /\ out = [p \in Pr |-> [k \in K |-> "none"]] /\ inb = out
  /\ tasks = [p \in Pr |-> <<>>] /\ act = [p \in Pr |-> {}] /\ dis = act /\ left = Failures /\ mark = act /\ gone = {}
Finished(p) == pc[p] > Len(prog[p])
Op(p) == prog[p][pc[p]]
Held(box) == Cardinality({k \in K : box[k] = "held"})
\* a message leaves a box; in an unlimited one all remain
Drop(box, k, lim) == IF lim = Inf \/ box[k] = "none" THEN box ELSE [box EXCEPT ![k] = "gone"]
Keep(box, k) == IF box[k] = "none" THEN [box EXCEPT ![k] = "held"] ELSE box
Adv(p) == pc' = [pc EXCEPT ![p] = @ + 1] /\ main' = [main EXCEPT ![p] = "idle"]
U0 == UNCHANGED <<prog, snd, inlim, outlim, gone>>
U == U0 /\ UNCHANGED mark
\* a request of p does not get through
Fail(p) == IF Other(p) \in gone THEN UNCHANGED left ELSE left > 0 /\ left' = left - 1
Mark(p, k) == mark' = [mark EXCEPT ![p] = @ \cup {k}]

Push(p) == /\ ~Finished(p) /\ main[p] = "idle" /\ Op(p)[1] = "push"
           /\ out' = [out EXCEPT ![p] = Keep(@, Op(p)[2])] /\ tasks' = [tasks EXCEPT ![p] = Append(@, <<"try", Op(p)[2]>>)]
           /\ main' = [main EXCEPT ![p] = "block"] /\ U /\ UNCHANGED <<pc, inb, act, dis, left>>
Unblock(p) == /\ main[p] = "block" /\ (outlim = Inf \/ Held(out[p]) <= outlim)
              /\ Adv(p) /\ U /\ UNCHANGED <<out, inb, tasks, act, dis, left>>
Send(p) == /\ ~Finished(p) /\ main[p] = "idle" /\ Op(p)[1] = "send"
           /\ out' = [out EXCEPT ![p] = Keep(@, Op(p)[2])] /\ main' = [main EXCEPT ![p] = "add"]
           /\ U /\ UNCHANGED <<pc, inb, tasks, act, dis, left>>
AddGo(p) == /\ main[p] = "add" /\ U /\ UNCHANGED <<out, inb, tasks, act, dis>>
            /\ UNCHANGED <<pc, left>> /\ main' = [main EXCEPT ![p] = IF out[p][Op(p)[2]] = "held" THEN "addreq" ELSE "addfail"]
AddFail(p) == main[p] = "addreq" /\ Fail(p) /\ main' = [main EXCEPT ![p] = "addfail"] /\ U /\ UNCHANGED <<pc, out, inb, tasks, act, dis>>
\* it may have been fetched by the receiver meanwhile
AddMore(p) == /\ main[p] = "addfail" /\ U /\ UNCHANGED <<out, inb, tasks, act, dis, left>>
              /\ IF Op(p)[2] \in mark[p] THEN Adv(p) ELSE UNCHANGED pc /\ main' = [main EXCEPT ![p] = "add"]
AddServe(p) == /\ main[p] = "addreq" /\ Other(p) \notin gone /\ inb' = [inb EXCEPT ![Other(p)] = Keep(@, Op(p)[2])]
               /\ main' = [main EXCEPT ![p] = "addresp"] /\ U /\ UNCHANGED <<pc, out, tasks, act, dis, left>>
AddEnd(p) == /\ main[p] = "addresp" /\ out' = [out EXCEPT ![p] = Drop(@, Op(p)[2], outlim)]
             /\ Adv(p) /\ U0 /\ Mark(p, Op(p)[2]) /\ UNCHANGED <<inb, tasks, act, dis, left>>
Get(p) == /\ ~Finished(p) /\ main[p] = "idle" /\ Op(p)[1] = "get" /\ inb[p][Op(p)[2]] = "held"
          /\ inb' = [inb EXCEPT ![p] = Drop(@, Op(p)[2], inlim)]
          /\ Adv(p) /\ U /\ UNCHANGED <<out, tasks, act, dis, left>>
Ask(p) == /\ ~Finished(p) /\ main[p] = "idle" /\ Op(p)[1] = "get" /\ inb[p][Op(p)[2]] # "held"
          /\ \A i \in 1..Len(tasks[p]) : tasks[p][i] # <<"get", Op(p)[2]>>
          /\ tasks' = [tasks EXCEPT ![p] = Append(@, <<"get", Op(p)[2]>>)]
          /\ U /\ UNCHANGED <<pc, main, out, inb, act, dis, left>>
\* client threads
Take(p, t) == /\ tasks[p] # <<>> /\ t = Head(tasks[p]) /\ Cardinality(act[p]) < Threads /\ \A x \in act[p] : x[1] # t
              /\ tasks' = [tasks EXCEPT ![p] = Tail(@)]
              /\ act' = IF t[1] = "try" /\ out[p][t[2]] # "held" THEN act ELSE [act EXCEPT ![p] = @ \cup {<<t, "req">>}]
              /\ U /\ UNCHANGED <<pc, main, out, inb, dis, left>>
Refuse(p, t) == <<t, "req">> \in act[p] /\ Fail(p) /\ act' = [act EXCEPT ![p] = @ \ {<<t, "req">>}] /\ U /\ UNCHANGED <<pc, main, out, inb, tasks, dis>>
To(p, t, x) == act' = [act EXCEPT ![p] = (@ \ {<<t, "req">>}) \cup {<<t, x>>}]
Serve(p, t) == /\ <<t, "req">> \in act[p] /\ Other(p) \notin gone /\ U /\ UNCHANGED <<pc, main, out, tasks, left>>
  /\ LET q == Other(p) k == t[2] IN
     IF t[1] = "try" THEN
       /\ UNCHANGED dis
       /\ IF inb[q][k] # "none" THEN To(p, t, "yes") /\ UNCHANGED inb
          ELSE IF inlim # Inf /\ Held(inb[q]) + 1 > inlim THEN To(p, t, "no") /\ UNCHANGED inb
          ELSE To(p, t, "yes") /\ inb' = [inb EXCEPT ![q] = Keep(@, k)]
     ELSE
       /\ UNCHANGED inb
       /\ IF out[q][k] = "held" THEN To(p, t, "yes") /\ dis' = [dis EXCEPT ![q] = @ \cup {k}]
          ELSE To(p, t, "no") /\ UNCHANGED dis
\* the server has sent the message, which leaves the outbox
Sent(p, k) == /\ k \in dis[p] /\ dis' = [dis EXCEPT ![p] = @ \ {k}] /\ out' = [out EXCEPT ![p] = Drop(@, k, outlim)]
              /\ U0 /\ Mark(p, k) /\ UNCHANGED <<pc, main, inb, tasks, act, left>>
End(p, t) == \E r \in {"yes", "no"} :
  /\ <<t, r>> \in act[p] /\ act' = [act EXCEPT ![p] = @ \ {<<t, r>>}]
  /\ out' = IF r = "yes" /\ t[1] = "try" THEN [out EXCEPT ![p] = Drop(@, t[2], outlim)] ELSE out
  /\ inb' = IF r = "yes" /\ t[1] = "get" THEN [inb EXCEPT ![p] = Keep(@, t[2])] ELSE inb
  /\ IF r = "yes" /\ t[1] = "try" THEN Mark(p, t[2]) ELSE UNCHANGED mark
  /\ U0 /\ UNCHANGED <<pc, main, tasks, dis, left>>
\* the threads finish what they have begun
Leave(p) == /\ p \notin gone /\ Finished(p) /\ tasks[p] = <<>> /\ act[p] = {} /\ dis[p] = {} /\ gone' = gone \cup {p}
            /\ UNCHANGED <<prog, snd, inlim, outlim, pc, main, out, inb, tasks, act, dis, left, mark>>
T == {"try", "get"} \X K
Quiet == \A p \in Pr : Finished(p) /\ tasks[p] = <<>> /\ act[p] = {} /\ dis[p] = {}
Main(p) == Push(p) \/ Unblock(p) \/ Send(p) \/ AddGo(p) \/ AddMore(p) \/ AddServe(p) \/ AddEnd(p) \/ Ask(p)
Next == \E p \in Pr : \/ Main(p) \/ Get(p) \/ AddFail(p) \/ Leave(p)
                      \/ \E t \in T : Take(p, t) \/ Refuse(p, t) \/ Serve(p, t) \/ End(p, t)
                      \/ \E k \in K : Sent(p, k)
Client(p) == \E t \in T : Take(p, t) \/ Serve(p, t) \/ End(p, t) \/ (Other(p) \in gone /\ Refuse(p, t))
\* with one thread and tasks in order of their making nothing more is needed
Fair == \A p \in Pr : /\ WF_vars(Main(p) \/ Get(p) \/ Leave(p) \/ (Other(p) \in gone /\ AddFail(p)))
                      /\ WF_vars(Client(p)) /\ WF_vars(\E k \in K : Sent(p, k))
Spec == Init /\ [][Next]_vars /\ Fair
\* ---- properties
Made(k) == out[snd[k]][k] # "none"
Received(k) == LET q == Other(snd[k]) IN \E i \in 1..Len(prog[q]) : prog[q][i] = <<"get", k>> /\ pc[q] > i
NotLost == \A k \in K : Made(k) /\ ~Received(k) =>
  \/ out[snd[k]][k] = "held" \/ inb[Other(snd[k])][k] = "held" \/ <<<<"get", k>>, "yes">> \in act[Other(snd[k])]
NotTwice == \A k \in K : Received(k) => inb[Other(snd[k])][k] = (IF inlim = Inf THEN "held" ELSE "gone")
NotInvented == \A k \in K : ~Made(k) => inb[Other(snd[k])][k] = "none"
NothingLeft == Quiet => \A p \in Pr : (outlim < Inf => Held(out[p]) = 0) /\ (inlim < Inf => Held(inb[p]) = 0)
\* with nothing under way somebody can go on, asking the other one if needed
NoStuck == (\A p \in Pr : tasks[p] = <<>> /\ act[p] = {} /\ dis[p] = {}) /\ ~(\A p \in Pr : Finished(p)) =>
  \E p \in Pr : ~Finished(p) /\
    CASE main[p] = "block" -> outlim = Inf \/ Held(out[p]) <= outlim
      [] main[p] = "idle" /\ Op(p)[1] = "get" -> inb[p][Op(p)[2]] = "held" \/ (Other(p) \notin gone /\ out[Other(p)][Op(p)[2]] = "held")
      [] OTHER -> TRUE
\* everything is received in the end
Received_ == <>(gone = Pr)
=============================================================================
