---------------------------- MODULE LaikPartition ----------------------------
\* Partitionings. A range list is a sequence of entries [t, g, m, r]: range r is owned by
\* process t (rank in the group), carries tag g and lives in mapping m of that process.
EXTENDS LaikBase

OwnEntries(rl, t) == SelectSeq(rl, LAMBDA e : e.t = t)
OwnPoints(rl, t) == UNION {Points(rl[k].r) : k \in {j \in 1..Len(rl) : rl[j].t = t}}
Owners(rl, i) == {rl[k].t : k \in {j \in 1..Len(rl) : Has(rl[j].r, i)}}
\* <<process, mapping, index>> for everything owned
KeysT(rl) == UNION {{<<rl[k].t, rl[k].m, i>> : i \in Points(rl[k].r)} : k \in 1..Len(rl)}
MapRange(rl, t, m) ==
  LET E == {k \in 1..Len(rl) : rl[k].t = t /\ rl[k].m = m} IN {rl[k].r : k \in E}

\* order kept by a frozen list: process, then tag, then start in the first dimension
EntryLe(a, b) ==
  \/ a.t < b.t
  \/ a.t = b.t /\ a.g < b.g
  \/ a.t = b.t /\ a.g = b.g /\ a.r[1] <= b.r[1]
\* expected mapping number of entry k of a sorted list: a new mapping for each range of tag 0
\* and for each new tag
RECURSIVE MapNoAt(_, _)
MapNoAt(rl, k) ==
  IF k = 1 \/ rl[k-1].t # rl[k].t THEN 0
  ELSE MapNoAt(rl, k-1) + (IF rl[k].g = 0 \/ rl[k].g # rl[k-1].g THEN 1 ELSE 0)
MapNos(rl) ==
  LET f[k \in 0..Len(rl)] ==
        IF k = 0 THEN <<>>
        ELSE LET p == f[k-1] IN
             Append(p, IF k = 1 \/ rl[k-1].t # rl[k].t THEN 0
                       ELSE p[k-1] + (IF rl[k].g = 0 \/ rl[k].g # rl[k-1].g THEN 1 ELSE 0))
  IN f[Len(rl)]

Bare(e) == <<e.t, e.g, e.r>>
BareSeq(rl) == [k \in 1..Len(rl) |-> Bare(rl[k])]

\* list as it is frozen from raw appended ranges
PlainFrozen(raw, rl) ==
  /\ SameBag(BareSeq(raw), BareSeq(rl))
  /\ IsSorted(rl, EntryLe)
  /\ LET mn == MapNos(rl) IN \A k \in 1..Len(rl) : rl[k].m = mn[k]
\* with merging (1d): same points per process and tag, maximal disjoint ranges
PtsOf(rl, t, g) == UNION {Points(rl[k].r) : k \in {j \in 1..Len(rl) : rl[j].t = t /\ rl[j].g = g}}
MergedFrozen(raw, rl) ==
  /\ {<<raw[k].t, raw[k].g>> : k \in 1..Len(raw)} = {<<rl[k].t, rl[k].g>> : k \in 1..Len(rl)}
  /\ \A tg \in {<<raw[k].t, raw[k].g>> : k \in 1..Len(raw)} : PtsOf(raw, tg[1], tg[2]) = PtsOf(rl, tg[1], tg[2])
  /\ IsSorted(rl, EntryLe)
  /\ \A k \in 1..(Len(rl)-1) : (rl[k].t = rl[k+1].t /\ rl[k].g = rl[k+1].g) => rl[k].r[2] < rl[k+1].r[1]
  /\ LET mn == MapNos(rl) IN \A k \in 1..Len(rl) : rl[k].m = mn[k]
\* single index format: as merged, but everything of a process in one mapping
SingleFrozen(raw, rl) ==
  /\ {raw[k].t : k \in 1..Len(raw)} = {rl[k].t : k \in 1..Len(rl)}
  /\ \A t \in {raw[k].t : k \in 1..Len(raw)} : OwnPoints(raw, t) = OwnPoints(rl, t)
  /\ IsSorted(rl, EntryLe)
  /\ \A k \in 1..(Len(rl)-1) : rl[k].t = rl[k+1].t => rl[k].r[2] < rl[k+1].r[1]
  /\ \A k \in 1..Len(rl) : rl[k].m = 0 /\ rl[k].g = 0
\* flags: Merge = 8, SingleIndex = 16
Frozen(raw, flags, rl) ==
  IF (flags \div 16) % 2 = 1 THEN SingleFrozen(raw, rl)
  ELSE IF (flags \div 8) % 2 = 1 THEN MergedFrozen(raw, rl)
  ELSE PlainFrozen(raw, rl)

\* structure every range list has
WellFormed(rl, n, space) ==
  /\ \A k \in 1..Len(rl) : rl[k].t \in 0..(n-1) /\ Subset(rl[k].r, space)
  /\ IsSorted(rl, EntryLe)

Covers(rl, space) == \A i \in Points(space) : Owners(rl, i) # {}
IsAllP(rl, n, space) ==
  Len(rl) = n /\ \A t \in 0..(n-1) : \E k \in 1..Len(rl) : rl[k].t = t /\ rl[k].r = space
IsSingleP(rl, space) == IF Len(rl) = 1 /\ rl[1].r = space THEN rl[1].t ELSE -1
\* equality of partitionings: same ranges for same processes
EqualP(a, b) == [k \in 1..Len(a) |-> <<a[k].t, a[k].r>>] = [k \in 1..Len(b) |-> <<b[k].t, b[k].r>>]

\* migration to a group with other members: memA and memB are the members (processes) of
\* the groups; entries follow their process
MigrateList(rl, memA, memB) == [k \in 1..Len(rl) |-> [rl[k] EXCEPT !.t = IndexOf(memB, memA[rl[k].t + 1])]]
CanMigrate(rl, memA, memB) == \A k \in 1..Len(rl) : IndexOf(memB, memA[rl[k].t + 1]) >= 0

\* what a process reports about a partitioning it knows all ranges of (o: observation)
ReportOk(o, n, space) ==
  LET rl == o.all IN
  /\ WellFormed(rl, n, space)
  /\ o.q[1] = (IF IsAllP(rl, n, space) THEN 1 ELSE 0)
  /\ o.q[2] = IsSingleP(rl, space)
  /\ o.q[3] = (IF Covers(rl, space) THEN 1 ELSE 0)
\* own ranges, mapping count, ranges by mapping; me < 0: not member
OwnReportOk(o, rl, me) ==
  /\ o.me = me
  /\ IF me < 0 THEN o.rc = 0 /\ o.mc = 0 /\ o.my = <<>> /\ o.mr = <<>>
     ELSE LET own == OwnEntries(rl, me) IN
       /\ o.my = own
       /\ o.rc = Len(own)
       /\ o.mc = Cardinality({own[k].m : k \in 1..Len(own)})
       /\ {own[k].m : k \in 1..Len(own)} = 0..(o.mc - 1)
       /\ o.mr = [m \in 1..o.mc |-> LET e == SelectSeq(own, LAMBDA x : x.m = m - 1) IN [k \in 1..Len(e) |-> e[k].r]]
=============================================================================
