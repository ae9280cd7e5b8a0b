----------------------------- MODULE LaikObserve -----------------------------
\* Observing a program: log output, measured times, iterations and phases.
\* None of it takes part in anything else of the specification: whatever is logged or measured,
\* all other steps have to be explained by the other modules.
\*   state of a process: [lvl: level from which messages are shown, ctr: borders of iterations and
\*   phases passed, lc, ln: last numbers printed, it, ph, pk: iteration and phase,
\*   on, T0, B0: profiling since that much time was spent in LAIK and in the backend,
\*   us, act, ust: time of the last user span, and the running one, fo: file open (0: none),
\*   ff: lines written to each file]
EXTENDS Integers, Sequences, FiniteSets, TLC
LineLen == 100
\* configuration: [lvl, from, to: locations which log (-1: all), pfx: prefix 0 none 1 short 2 long]
DefaultLog == [lvl |-> 4, from |-> -1, to |-> -1, pfx |-> 2]
Obv0(cfg) == [lvl |-> cfg.lvl, ctr |-> 0, lc |-> -1, ln |-> 0, it |-> 0, ph |-> 0, pk |-> -1,
              on |-> FALSE, T0 |-> 0, B0 |-> 0, us |-> 0, act |-> FALSE, ust |-> 0, fo |-> 0, ff |-> <<>>]

\* ---- log output
Logs(ob, cfg, w, l) == l >= ob.lvl /\ (cfg.from < 0 \/ (cfg.from <= w /\ w <= cfg.to))
\* words ws from line k on; the line after them, or 0
\* (a line may turn out empty where a line is broken between two spaces in front of a long word)
RECURSIVE TakeWords(_, _, _)
TakeWords(L, k, ws) ==
  IF ws = <<>> THEN k
  ELSE IF k > Len(L) THEN 0
  ELSE LET w == L[k].w IN
       IF Len(w) > Len(ws) \/ w # SubSeq(ws, 1, Len(w)) THEN 0
       ELSE TakeWords(L, k + 1, SubSeq(ws, Len(w) + 1, Len(ws)))
RECURSIVE TextFits(_, _, _, _)
TextFits(L, k, msg, m) ==
  IF m > Len(msg) THEN k = Len(L) + 1
  ELSE IF k > Len(L) THEN FALSE
  ELSE LET e == IF msg[m].w = <<>> THEN (IF L[k].w = <<>> THEN k + 1 ELSE 0) ELSE TakeWords(L, k, msg[m].w)
       IN e > 0 /\ L[k].i = msg[m].i /\ (\A j \in k + 1..e - 1 : L[j].i > msg[m].i) /\ TextFits(L, e, msg, m + 1)
RECURSIVE WordsLen(_)
WordsLen(ws) == IF ws = <<>> THEN 0 ELSE Len(Head(ws)) + 1 + WordsLen(Tail(ws))
LineBroken(x) == Len(x.w) <= 2 \/ x.i + WordsLen(SubSeq(x.w, 1, Len(x.w) - 1)) - 1 <= LineLen + 4
PrefixFits(ob, cfg, w, l, L, k, c) ==
  LET x == L[k] IN
  /\ x.h = (IF k = 1 THEN "==" ELSE "..")
  /\ x.k = cfg.pfx
  /\ cfg.pfx >= 1 => x.loc = w
  /\ cfg.pfx = 2 => /\ x.ctr = ob.ctr /\ x.ln = k /\ x.n = L[1].n /\ x.n > (IF ob.lc = ob.ctr THEN ob.ln ELSE 0)
                    /\ x.us <= c + 600 /\ x.us >= c - 20600
  /\ x.lv = (IF l \in {3, 4} THEN (IF k = 1 THEN l ELSE 9) ELSE 0)
LogWhy(ob, cfg, w, s, o) ==
  IF ~Logs(ob, cfg, w, s.l) THEN (IF o.l # <<>> THEN "message which is not to be shown" ELSE "")
  ELSE IF ~TextFits(o.l, 1, s.msg, 1) THEN "text of message"
  ELSE IF \E k \in 1..Len(o.l) : ~LineBroken(o.l[k]) THEN "long line of message"
  ELSE IF \E k \in 1..Len(o.l) : ~PrefixFits(ob, cfg, w, s.l, o.l, k, o.c) THEN "prefix of message"
  ELSE ""
LogNext(ob, cfg, w, s, o) ==
  IF Logs(ob, cfg, w, s.l) /\ o.l # <<>> THEN [ob EXCEPT !.lc = ob.ctr, !.ln = IF cfg.pfx = 2 THEN o.l[1].n ELSE @] ELSE ob

\* ---- measured times; o: <<time spent in LAIK, in the backend>> since the start
Fresh(ob, o) == [ob EXCEPT !.T0 = o[1], !.B0 = o[2], !.us = 0]
Written(ob, line) == IF ob.on /\ ob.fo > 0 THEN [ob EXCEPT !.ff[ob.fo] = Append(@, line)] ELSE ob
ProfRec(ob, w, o) == <<"rec", ToString(w), ToString(ob.ph), ToString(ob.it), ToString(o[1] - ob.T0), ToString(o[2] - ob.B0), ToString(ob.us)>>
Profile(ob, w, s, o) ==
  CASE s.op = "pen" -> IF s.on = 0 THEN [ob EXCEPT !.on = FALSE] ELSE IF ob.on THEN ob ELSE Fresh([ob EXCEPT !.on = TRUE], o)
    [] s.op = "pfile" -> IF ob.on /\ ob.fo > 0 THEN [ob EXCEPT !.ff = Append(@, <<>>)]
                         ELSE Fresh([ob EXCEPT !.on = TRUE, !.fo = Len(ob.ff) + 1, !.ff = Append(@, <<<<"start">>, <<"app">>>>)], o)
    [] s.op = "prs" -> IF ob.on THEN Fresh(ob, o) ELSE ob
    [] s.op = "pus" -> IF ~ob.on THEN ob
                       ELSE IF s.on = 1 THEN [ob EXCEPT !.act = TRUE, !.ust = o]
                       ELSE IF ob.act THEN [ob EXCEPT !.act = FALSE, !.us = o - ob.ust] ELSE ob
    [] s.op = "pwr" -> Written(ob, ProfRec(ob, w, o))
    [] s.op = "ppr" -> Written(ob, <<"text", s.t>>)
    [] s.op = "pcl" -> IF ob.fo > 0 THEN [ob EXCEPT !.ff[ob.fo] = Append(@, <<"end">>), !.fo = 0] ELSE ob
    [] OTHER -> ob

\* ---- steps of recorded executions
ObOps == {"log", "lset", "lsh", "its", "itr", "phs", "itg", "tick", "pen", "pfile", "prs", "pus", "pq", "pwr", "ppr", "pcl", "pfget"}
ObOf(st, cfg, w) == IF w \in DOMAIN st.obv THEN st.obv[w] ELSE Obv0(cfg)
ObWhyAt(ob, cfg, w, s, o) ==
  CASE s.op = "log" -> LogWhy(ob, cfg, w, s, o)
    [] s.op = "lsh" -> IF o # [l \in 1..5 |-> IF l >= ob.lvl THEN 1 ELSE 0] THEN "levels shown" ELSE ""
    [] s.op = "itg" -> IF o # <<ob.it, ob.ph, ob.pk, ob.pk>> THEN "iteration or phase" ELSE ""
    [] s.op = "pq" -> IF o[1] # (IF ob.on THEN o[3] - ob.T0 ELSE 0) THEN "LAIK total time"
                      ELSE IF o[2] # (IF ob.on THEN o[4] - ob.B0 ELSE 0) THEN "backend time" ELSE ""
    [] s.op = "pfget" -> IF o # ob.ff[s.f + 1] THEN "content of profile file" ELSE ""
    [] OTHER -> ""
ObNextAt(ob, cfg, w, s, o) ==
  CASE s.op = "log" -> LogNext(ob, cfg, w, s, o)
    [] s.op = "lset" -> [ob EXCEPT !.lvl = s.l]
    [] s.op = "its" -> [ob EXCEPT !.it = s.i, !.ctr = @ + 1]
    [] s.op = "itr" -> [ob EXCEPT !.it = 0]
    [] s.op = "phs" -> [ob EXCEPT !.ph = s.p, !.pk = s.k, !.ctr = @ + 1]
    [] OTHER -> Profile(ob, w, s, o)
ObWhy(st, cfg, s) ==
  LET Ws == {s.who[k] : k \in 1..Len(s.who)}
      bad == {w \in Ws : ObWhyAt(ObOf(st, cfg, w), cfg, w, s, s.obs[w + 1]) # ""} IN
  IF bad = {} THEN "" ELSE LET w == CHOOSE w \in bad : TRUE IN ObWhyAt(ObOf(st, cfg, w), cfg, w, s, s.obs[w + 1])
ObNext(st, cfg, s) ==
  LET Ws == {s.who[k] : k \in 1..Len(s.who)} IN
  [st EXCEPT !.obv = [w \in (DOMAIN @) \cup Ws |-> IF w \in Ws THEN ObNextAt(ObOf(st, cfg, w), cfg, w, s, s.obs[w + 1]) ELSE @[w]]]
=============================================================================
