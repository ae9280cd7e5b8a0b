From 12583340ecf8ed606cdbe6fbc54513b0f435a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 01/78] fix: neutral elements of min and max reductions (were
 swapped)

---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..7027f97 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From cfa0c17e5462bc009f9cb0df7253c8a4087908bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 02/78] fix: reduction without inputs has to use the init
 function of the type

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index 7027f97..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From 1d55e5d93ac969e66366e00f09a74d3c4edebd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 03/78] fix: MPI backend has to reduce and/or bitwise, as the
 reduce functions of types do

---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..34669af 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 93825490fda013fc4918514e916c0520926e3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 04/78] fix: ordering of range borders must not truncate 64bit
 differences

---
 src/space.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..231ddce 100644
--- a/src/space.c
+++ b/src/space.c
@@ -833,8 +833,7 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
-
+    return (sb1->b < sb2->b) ? -1 : 1;
 }
 
 static bool addTask(TaskGroup* g, int task, int maxTasks)
-- 
2.43.0


From d58a823f1d4f8bb6aa94d5feca348b88a393856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 05/78] fix: no reduction for indexes without output in new
 partitioning

---
 src/space.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/space.c b/src/space.c
index 231ddce..894e111 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1289,6 +1289,9 @@ void calcAddReductions(int tflags,
 
                 } // one input
 
+                // values not wanted by anybody: nothing to reduce
+                if (outputGroup.count == 0) continue;
+
                 // add reduction operation
                 int in = getTaskGroup(&inputGroup);
                 int out = getTaskGroup(&outputGroup);
-- 
2.43.0


From f8e04efa4bed71e0fec315f4d38621faab0922b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 06/78] fix: sender and receiver have to agree on messages
 skipped for ranges available locally

---
 src/space.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/space.c b/src/space.c
index 894e111..a1d6f8a 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1333,6 +1333,16 @@ void calcAddReductions(int tflags,
 
 static int trans_id = 0;
 
+// helper for do_calc_transition
+// does a task have exactly range <r> among its ranges in list <rl>?
+static
+bool hasOwnRange(Laik_RangeList* rl, int task, Laik_Range* r)
+{
+    for(unsigned int o = rl->off[task]; o < rl->off[task+1]; o++)
+        if (laik_range_isEqual(r, &(rl->trange[o].range))) return true;
+    return false;
+}
+
 // Calculate communication required for transitioning between partitionings
 Laik_Transition*
 do_calc_transition(Laik_Space* space,
@@ -1491,18 +1501,15 @@ do_calc_transition(Laik_Space* space,
                         // TODO: we only check for exact match to catch All
                         // FIXME: should print out a Warning/Error as the App
                         //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
-                        if (range == 0) continue;
+                        if (hasOwnRange(fromRL, myid, &(toRL->trange[o1].range)))
+                            continue;
 
                         for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
 
+                            // same decision as done by sender (see below)
+                            if (hasOwnRange(fromRL, myid, &(fromRL->trange[o2].range)))
+                                continue;
+
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
                                                        &(toRL->trange[o1].range));
                             if (range == 0) continue;
@@ -1523,19 +1530,16 @@ do_calc_transition(Laik_Space* space,
                     // TODO: we only check for exact match to catch All
                     // FIXME: should print out a Warning/Error as the App
                     //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
-                        }
-                    }
-                    if (range == 0) continue;
+                    if (hasOwnRange(fromRL, task, &(fromRL->trange[o1].range)))
+                        continue;
 
                     // we may send multiple messages to same task
                     for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
 
+                        // same decision as done by receiver (see above)
+                        if (hasOwnRange(fromRL, task, &(toRL->trange[o2].range)))
+                            continue;
+
                         range = laik_range_intersect(&(fromRL->trange[o1].range),
                                                    &(toRL->trange[o2].range));
                         if (range == 0) continue;
-- 
2.43.0


From d1052eabe792f5d1d16936784bb60087f1a99203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 07/78] fix: receive ranges in the order they are sent by the
 other process

---
 src/space.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/space.c b/src/space.c
index a1d6f8a..39d5caf 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1495,19 +1495,21 @@ do_calc_transition(Laik_Space* space,
                 // something to receive not coming from a reduction?
                 for(int task = 0; task < taskCount; task++) {
                     if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
+                    // the order must match that used by the sender (see below):
+                    // messages between a pair of processes do not overtake
+                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
 
-                        // everything we have local will not have been sent
-                        // TODO: we only check for exact match to catch All
-                        // FIXME: should print out a Warning/Error as the App
-                        //        was requesting for overwriting of values!
-                        if (hasOwnRange(fromRL, myid, &(toRL->trange[o1].range)))
+                        // same decision as done by sender (see below)
+                        if (hasOwnRange(fromRL, myid, &(fromRL->trange[o2].range)))
                             continue;
 
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                        for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
 
-                            // same decision as done by sender (see below)
-                            if (hasOwnRange(fromRL, myid, &(fromRL->trange[o2].range)))
+                            // everything we have local will not have been sent
+                            // TODO: we only check for exact match to catch All
+                            // FIXME: should print out a Warning/Error as the App
+                            //        was requesting for overwriting of values!
+                            if (hasOwnRange(fromRL, myid, &(toRL->trange[o1].range)))
                                 continue;
 
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
-- 
2.43.0


From c79cbc6e5ddeaf4afa697205c1a58bae7ff5af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 08/78] fix: single backend reductions: multiple dimensions,
 mappings, no input

---
 src/backend-single.c | 48 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/backend-single.c b/src/backend-single.c
index 5e04196..b832703 100644
--- a/src/backend-single.c
+++ b/src/backend-single.c
@@ -82,30 +82,32 @@ void laik_single_exec(Laik_ActionSeq* as)
     Laik_MappingList* fromList = tc->fromList;
     Laik_MappingList* toList = tc->toList;
 
-    if (t->redCount > 0) {
-        assert(fromList->count == 1);
-        assert(toList->count == 1);
-        Laik_Mapping* fromMap = &(fromList->map[0]);
-        Laik_Mapping* toMap = &(toList->map[0]);
-        char* fromBase = fromMap ? fromMap->base : 0;
-        char* toBase = toMap ? toMap->base : 0;
-
-        for(int i=0; i < t->redCount; i++) {
+    for(int i=0; i < t->redCount; i++) {
+        // with at most one input, the result is a copy of the input
+        // or, without input, the neutral element
+        struct redTOp* op = &(t->red[i]);
+        int myid = t->group->myid;
+        assert(laik_trans_isInGroup(t, op->outputGroup, myid));
+        assert(op->myOutputMapNo < toList->count);
+        Laik_Mapping* toMap = &(toList->map[op->myOutputMapNo]);
+        assert(toMap->base != 0);
+
+        if (laik_trans_isInGroup(t, op->inputGroup, myid)) {
+            assert(op->myInputMapNo < fromList->count);
+            Laik_Mapping* fromMap = &(fromList->map[op->myInputMapNo]);
+            assert(fromMap->base != 0);
+            if (fromMap->base == toMap->base) continue;
+
+            laik_log(1, "Single reduce: copy, base from/to %p/%p\n",
+                     (void*) fromMap->base, (void*) toMap->base);
+            laik_data_copy(&(op->range), fromMap, toMap);
+        }
+        else {
             assert(d->space->dims == 1);
-            struct redTOp* op = &(t->red[i]);
-            int64_t from = op->range.from.i[0];
-            int64_t to   = op->range.to.i[0];
-            assert(fromBase != 0);
-            assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
-            assert(toBase != 0);
-            assert(to > from);
-
-            laik_log(1, "Single reduce: "
-                        "from %lld, to %lld, elemsize %d, base from/to %p/%p\n",
-                     (long long int) from, (long long int) to,
-                     d->elemsize, (void*) fromBase, (void*) toBase);
-
-            memcpy(toBase, fromBase, (to-from) * fromMap->data->elemsize);
+            int64_t off = op->range.from.i[0] - toMap->requiredRange.from.i[0];
+            int64_t count = op->range.to.i[0] - op->range.from.i[0];
+            assert(d->type->init != 0);
+            (d->type->init)(toMap->base + off * d->elemsize, (int) count, op->redOp);
         }
     }
 
-- 
2.43.0


From 1419ccb8e3c19cb0bc0fc4cd798f9f1117b265fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 09/78] fix: result of reduction in 2d/3d must not be
 overwritten by local copy

---
 src/space.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 39d5caf..b4b0eec 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1435,8 +1435,11 @@ do_calc_transition(Laik_Space* space,
 
             // determine local ranges to keep
             // (may need local copy if from/to mappings are different).
-            // reductions are not handled here, but by backend
-            for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+            // reductions are not handled here, but by backend: the local
+            // input must not overwrite the result of a reduction
+            unsigned int fromEnd = fromRL->off[myid+1];
+            if (laik_is_reduction(redOp)) fromEnd = fromRL->off[myid];
+            for(o1 = fromRL->off[myid]; o1 < fromEnd; o1++) {
                 for(o2 = toRL->off[myid]; o2 < toRL->off[myid+1]; o2++) {
                     range = laik_range_intersect(&(fromRL->trange[o1].range),
                                                &(toRL->trange[o2].range));
-- 
2.43.0


From 16a177385183df1bdf15706c88522ba39ff01c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 10/78] fix: lexicographical layout has to use strides of the
 section of a mapping

---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From a80b43b9e854c8f555d3ffe13f75eafb48d6525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 11/78] fix: offsets of a layout are relative to the start of
 the allocation

---
 src/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..e857eec 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1412,7 +1412,7 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     if (!m) return 0;
 
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From c01b813fadd4ad0fb1a3144d6aef913a71b43be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 12/78] fix: buffer overflow in description of layouts with
 many mappings

---
 src/layout_lex.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..a8e3572 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -119,19 +119,19 @@ char* describe_lex(Laik_Layout* l)
     assert(l->describe == describe_lex);
     Laik_Layout_Lex* ll = (Laik_Layout_Lex*) l;
 
-    int o;
-    o = sprintf(s, "lex (%dd, %d maps, strides ",
-                l->dims, l->map_count);
-    for(int i = 0; i < l->map_count; i++) {
+    // output is truncated if too long
+    size_t o = snprintf(s, sizeof(s), "lex (%dd, %d maps, strides ",
+                        l->dims, l->map_count);
+    for(int i = 0; (i < l->map_count) && (o < sizeof(s)); i++) {
         Lex_Entry* e = &(ll->e[i]);
-        o += sprintf(s+o, "%s%llu/%llu/%llu",
+        o += snprintf(s+o, sizeof(s)-o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
              (unsigned long long) e->stride[0],
              (unsigned long long) e->stride[1],
              (unsigned long long) e->stride[2]);
     }
-    o += sprintf(s+o, ")");
-    assert(o < 200);
+    if (o < sizeof(s))
+        snprintf(s+o, sizeof(s)-o, ")");
 
     return s;
 }
-- 
2.43.0


From 94542bb0e24da5caa0b83af5492daf68595a324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 13/78] fix: complete asynchronous sends before later rounds
 may change the buffers sent

---
 src/backend-mpi.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 34669af..185d1e9 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,8 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion before next round,
+//   as reductions in later rounds may overwrite the buffer sent
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +221,16 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // add a new round 0 with MpiReq and all MpiIrecv actions.
+    // Waits for MpiISend actions come first in the round after the send
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -245,7 +243,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
             laik_mpi_addMpiIsend(as, a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
+            laik_mpi_addMpiWait(as, a->round + 2, req_id);
             req_id++;
             break;
         }
-- 
2.43.0


From bd283b1d1db98e594d929cd615071e762cf529c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 14/78] fix: block partitioner with less indexes than parts or
 zero weights

---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..b64c0da 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -616,7 +616,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // remaining indexes go to the current task. This may not be the last one,
+    // e.g. if there are less indexes than parts or with index weights of zero
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 872827141997fa314b3fd3a9c2dd2838baa3c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 15/78] fix: bisection partitioner must not create empty ranges

---
 src/partitioner.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index b64c0da..60e6885 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -407,6 +407,7 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     // split set of tasks and width into two parts, do recursion
     int midTask = (fromTask + toTask)/2;
     w = width * (midTask-fromTask) / (toTask - fromTask);
+    if (w == 0) w = 1; // no empty ranges with less indexes than tasks
     Laik_Range s1 = *s, s2 = *s;
     s1.to.i[splitDim] = s->from.i[splitDim] + w;
     s2.from.i[splitDim] = s->from.i[splitDim] + w;
-- 
2.43.0


From da8959aba47acd08cf9b43ff2c4467b60e3f206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 16/78] fix: grid partitioner must cover the last index of each
 dimension

---
 src/partitioner.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index 60e6885..d876c70 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -458,6 +458,7 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     for(int z = 0; z < data->zblocks; z++) {
         from = ss->from.i[2] + z * zStep;
         to   = ss->from.i[2] + (z+1) * zStep;
+        if (z+1 == data->zblocks) to = ss->to.i[2]; // avoid rounding
         if (from == to) continue;
         if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
@@ -466,6 +467,7 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         for(int y = 0; y < data->yblocks; y++) {
             from = ss->from.i[1] + y * yStep;
             to   = ss->from.i[1] + (y+1) * yStep;
+            if (y+1 == data->yblocks) to = ss->to.i[1];
             if (from == to) continue;
             if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
@@ -474,6 +476,7 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
             for(int x = 0; x < data->xblocks; x++) {
                 from = ss->from.i[0] + x * xStep;
                 to   = ss->from.i[0] + (x+1) * xStep;
+                if (x+1 == data->xblocks) to = ss->to.i[0];
                 if (from == to) continue;
                 if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
-- 
2.43.0


From f66634ea828dd30a5b4a8ee4f2973dcee37f9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 17/78] fix: halos near borders of the space were dropped
 instead of cut

---
 src/partitioner.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index d876c70..503d8aa 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,55 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From 9d44ca187cf95944669bb7289c423543ea9e4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 18/78] fix: initialization of values must not truncate 64bit
 indexes

---
 src/data.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data.c b/src/data.c
index e857eec..e3dbbb2 100644
--- a/src/data.c
+++ b/src/data.c
@@ -21,6 +21,7 @@
 #define __STDC_WANT_LIB_EXT2__ 1
 
 #include <assert.h>
+#include <inttypes.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -715,9 +716,9 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
+        int elemCount = (int) (to - from);
 
         char* toBase = toMap->base;
         assert(from >= toMap->requiredRange.from.i[0]);
@@ -735,7 +736,7 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
+        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%" PRId64 ";%" PRId64 "[ from %p\n",
                  d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
     }
 }
-- 
2.43.0


From 7395efda7d9798b950709fc77918417afae77cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 19/78] fix: grid partitioner on spaces with negative indexes
 (rounding towards zero)

---
 src/partitioner.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 503d8aa..b024d78 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -468,8 +468,8 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     range.space = p->space;
     int task = 0;
     for(int z = 0; z < data->zblocks; z++) {
-        from = ss->from.i[2] + z * zStep;
-        to   = ss->from.i[2] + (z+1) * zStep;
+        from = ss->from.i[2] + (int64_t)(z * zStep);
+        to   = ss->from.i[2] + (int64_t)((z+1) * zStep);
         if (z+1 == data->zblocks) to = ss->to.i[2]; // avoid rounding
         if (from == to) continue;
         if (to > ss->to.i[2]) to = ss->to.i[2];
@@ -477,8 +477,8 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
-            from = ss->from.i[1] + y * yStep;
-            to   = ss->from.i[1] + (y+1) * yStep;
+            from = ss->from.i[1] + (int64_t)(y * yStep);
+            to   = ss->from.i[1] + (int64_t)((y+1) * yStep);
             if (y+1 == data->yblocks) to = ss->to.i[1];
             if (from == to) continue;
             if (to > ss->to.i[1]) to = ss->to.i[1];
@@ -486,8 +486,8 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
-                from = ss->from.i[0] + x * xStep;
-                to   = ss->from.i[0] + (x+1) * xStep;
+                from = ss->from.i[0] + (int64_t)(x * xStep);
+                to   = ss->from.i[0] + (int64_t)((x+1) * xStep);
                 if (x+1 == data->xblocks) to = ss->to.i[0];
                 if (from == to) continue;
                 if (to > ss->to.i[0]) to = ss->to.i[0];
-- 
2.43.0


From 939fa89a58b03d60e191c7e516a3fc64faeb9cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 20/78] fix: first switch to a group this process is not part
 of

---
 src/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index e3dbbb2..afdb39e 100644
--- a/src/data.c
+++ b/src/data.c
@@ -790,7 +790,8 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        // (there are none if this process was no member of the old group)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
-- 
2.43.0


From 392a898890c0dc36f4e777cff68159a099841035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 21/78] fix: copy values between different mappings of a
 reservation

---
 src/data.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index afdb39e..fb7cb24 100644
--- a/src/data.c
+++ b/src/data.c
@@ -555,8 +555,8 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
+    // both mapping lists from same reservation?
+    bool sameRes = (fromList->res != 0) && (fromList->res == toList->res);
 
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
@@ -565,6 +565,9 @@ void copyMaps(Laik_Transition* t,
         assert(op->toMapNo < toList->count);
         Laik_Mapping* toMap = &(toList->map[op->toMapNo]);
 
+        // no copy required if we stay in same memory of a reservation
+        if (sameRes && (fromMap->baseMapping == toMap->baseMapping)) continue;
+
         assert(toMap->data == fromMap->data);
         if (toMap->count == 0) {
             // no elements to copy to
-- 
2.43.0


From afe472b09b1cd4a3a17be44858a841318d03cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 22/78] fix: laik_switchto_new_partitioning left out processes
 which leave the group

---
 src/data.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index fb7cb24..00f74dc 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1363,8 +1363,7 @@ Laik_Partitioning* laik_switchto_new_partitioning(Laik_Data* d, Laik_Group* g,
                                                   Laik_DataFlow flow,
                                                   Laik_ReductionOperation redOp)
 {
-    if (laik_myid(g) < 0) return 0;
-
+    // processes not in <g> also have to take part: others may need their data
     Laik_Partitioning* p;
     p = laik_new_partitioning(pr, g, d->space, 0);
 
-- 
2.43.0


From 8629d86bb4633b1d3cb4650599fe7fd22f208e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 23/78] fix: switching to no partitioning

---
 src/data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.c b/src/data.c
index 00f74dc..1609160 100644
--- a/src/data.c
+++ b/src/data.c
@@ -747,6 +747,8 @@ void initMaps(Laik_Transition* t,
 static
 void allocateMappings(Laik_MappingList* toList, Laik_SwitchStat* ss)
 {
+    if (!toList) return; // no mappings without partitioning
+
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* map = &(toList->map[i]);
         if (map->base) continue;
-- 
2.43.0


From 7607c708429bea7a2cba38b1619d6ac9ee3c0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 24/78] fix: memory of reservations was never freed

---
 src/data.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data.c b/src/data.c
index 1609160..bb89f53 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1180,6 +1180,9 @@ void laik_reservation_alloc(Laik_Reservation* res)
             m->layoutSection = m->baseMapping->layoutSection;
 
             initEmbeddedMapping(m, m->baseMapping);
+            // memory is owned by the base mapping and freed with the reservation
+            m->baseMapping->allocator = m->allocator;
+            m->allocator = 0;
 
             if (laik_log_begin(1)) {
                 laik_log_append("  [%d] ", m->mapNo);
-- 
2.43.0


From 668d86f3e8e48bbdcc0c2036f19516770bb75e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 25/78] fix: container used reservation after it was freed

---
 src/data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.c b/src/data.c
index bb89f53..95794c8 100644
--- a/src/data.c
+++ b/src/data.c
@@ -959,6 +959,10 @@ void laik_reservation_free(Laik_Reservation* r)
         r->mList = 0;
     }
 
+    // do not use this reservation any more
+    if (r->data->activeReservation == r)
+        r->data->activeReservation = 0;
+
     laik_log(1, "reservation '%s' (data '%s'): freed %llu bytes\n",
                  r->name, r->data->name, (unsigned long long) bytesFreed);
                 
-- 
2.43.0


From 8190fbc51ba011c6640da8f1d6263ace76c1712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 26/78] fix: receives must not be started before earlier rounds
 are done with the buffer

---
 src/backend-mpi.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 185d1e9..0a39e96 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -214,7 +214,8 @@ bool laik_mpi_log_action(Laik_Action* a)
 // transformation: split send/recv actions into isend/irecv + wait
 // - replace send with isend and wait for completion before next round,
 //   as reductions in later rounds may overwrite the buffer sent
-// - replace recv with irecv at begin and wait at original position
+// - replace recv with irecv at begin of round and wait at original position
+//   (not earlier: buffer may be used by actions in previous rounds)
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
     // must not have new actions, we want to start a new build
@@ -229,8 +230,9 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 
     if (count == 0) return false;
 
-    // add a new round 0 with MpiReq and all MpiIrecv actions.
-    // Waits for MpiISend actions come first in the round after the send
+    // add a new round 0 with MpiReq, and make 2 rounds out of each round r:
+    // - round 2r+1 gets MpiWaits for sends of previous round, then MpiIrecv actions
+    // - round 2r+2 gets all other actions in original order
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -241,25 +243,24 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
         switch(a->type) {
         case LAIK_AT_BufSend: {
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
-            laik_mpi_addMpiIsend(as, a->round + 1,
+            laik_mpi_addMpiIsend(as, 2 * a->round + 2,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, a->round + 2, req_id);
+            laik_mpi_addMpiWait(as, 2 * a->round + 3, req_id);
             req_id++;
             break;
         }
 
         case LAIK_AT_BufRecv: {
             Laik_A_BufRecv* aa = (Laik_A_BufRecv*) a;
-            laik_mpi_addMpiIrecv(as, 0,
+            laik_mpi_addMpiIrecv(as, 2 * a->round + 1,
                                  aa->buf, aa->count, aa->from_rank, req_id);
-            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+            laik_mpi_addMpiWait(as, 2 * a->round + 2, req_id);
             req_id++;
             break;
         }
 
         default:
-            // all rounds up by one due to new round 0
-            laik_aseq_add(a, as, a->round + 1);
+            laik_aseq_add(a, as, 2 * a->round + 2);
             break;
         }
     }
-- 
2.43.0


From 527a4a6b39b8c6f7e486b19d9feda881a29aea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 27/78] fix: filter for ranges intersecting own ranges needs to
 handle no or unordered own ranges

---
 src/partitioning.c | 56 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..e659249 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -99,44 +99,16 @@ static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
         return false;
     }
 
-    // binary search
+    // ranges are not necessarily ordered by index (but by tag first)
     Laik_TaskRange_Gen* ts = par->ts;
-    unsigned int off1 = 0, off2 = par->len;
-    while(off1 < off2) {
-        unsigned int mid = (off1 + off2) / 2;
-        laik_log(1,"  filter check at %d: [%lld;%lld[",
-                 mid,
-                 (long long) ts[mid].range.from.i[0],
-                 (long long) ts[mid].range.to.i[0]);
-
-        if (from >= ts[mid].range.to.i[0]) {
-            laik_log(1,"    larger, check against %d: [%lld;%lld[",
-                     mid+1,
-                     (long long) ts[mid+1].range.from.i[0],
-                     (long long) ts[mid+1].range.to.i[0]);
-            if (to <= ts[mid+1].range.from.i[0]) {
-                laik_log(1,"    no intersection!");
-                return false;
-            }
-            off1 = mid;
-            continue;
+    for(unsigned int o = 0; o < par->len; o++) {
+        if ((from < ts[o].range.to.i[0]) && (to > ts[o].range.from.i[0])) {
+            laik_log(1,"    found intersection!");
+            return true;
         }
-        if (to <= ts[mid].range.from.i[0]) {
-            laik_log(1,"    smaller, check against %d: [%lld;%lld[",
-                     mid-1,
-                     (long long) ts[mid-1].range.from.i[0],
-                     (long long) ts[mid-1].range.to.i[0]);
-            if (from >= ts[mid-1].range.to.i[0]) {
-                laik_log(1,"    no intersection!");
-                return false;
-            }
-            off2 = mid;
-            continue;
-        }
-        break;
     }
-    laik_log(1,"    found intersection!");
-    return true;
+    laik_log(1,"    no intersection!");
+    return false;
 }
 
 
@@ -161,18 +133,25 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
+
+    // install filter function, also if there are no own ranges
+    sf->filter_func = idxfilter;
+
     // no own ranges?
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
 
     Laik_TaskRange_Gen* ts1 = list->trange + list->off[tid];
-    Laik_TaskRange_Gen* ts2 = list->trange + list->off[tid+1]-1;
 
     PFilterPar* par = malloc(sizeof(PFilterPar));
     par->len = mycount;
     par->from = ts1->range.from.i[0];
-    par->to   = ts2->range.to.i[0];
+    par->to   = ts1->range.to.i[0];
     par->ts = ts1;
+    for(unsigned int o = 1; o < mycount; o++) {
+        if (ts1[o].range.from.i[0] < par->from) par->from = ts1[o].range.from.i[0];
+        if (ts1[o].range.to.i[0] > par->to) par->to = ts1[o].range.to.i[0];
+    }
 
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
@@ -180,9 +159,6 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From 07dfec503c539aac748980abdf0ec746241ec762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 28/78] fix: merging of an empty range list

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..cf5d564 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -410,8 +410,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From 97745e29da84b857fab28ef6573fd56b25f1b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 29/78] fix: offsets into mappings of a range list: other
 processes, migration

---
 src/rangelist.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index cf5d564..867dfd2 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -567,7 +567,8 @@ void laik_updateMapOffsets(Laik_RangeList* list, int tid)
 {
     // already calculated?
     if (list->map_tid == tid) return;
-    assert(list->map_tid < 0);
+    free(list->map_off); // offsets of another task
+    list->map_off = 0;
     list->map_tid = tid;
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
@@ -701,4 +702,9 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
     list->tid_count = new_count;
     sortRanges(list);
     updateOffsets(list);
+
+    // map offsets need to be recalculated
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_tid = -1;
 }
-- 
2.43.0


From e17470cccc35d6b95743119b3535103930f16412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 30/78] fix: migration must keep mapping numbers (single index
 partitionings)

---
 src/rangelist.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 867dfd2..c7e220c 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -701,7 +701,15 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
     }
     list->tid_count = new_count;
     sortRanges(list);
-    updateOffsets(list);
+
+    // update offsets, but keep mapping numbers
+    unsigned int off = 0;
+    for(unsigned int task = 0; task < list->tid_count; task++) {
+        list->off[task] = off;
+        while((off < list->count) && (list->trange[off].task == (int) task)) off++;
+    }
+    list->off[list->tid_count] = off;
+    assert(off == list->count);
 
     // map offsets need to be recalculated
     free(list->map_off);
-- 
2.43.0


From 0c89b12193b63eba2f3784f0f9af41bb5fb6b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 31/78] fix: check for coverage of a space with more than 100
 uncovered parts

---
 src/rangelist.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index c7e220c..2a7b033 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -164,13 +164,20 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 //#define DEBUG_COVERSPACE 1
 
 // TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
+static Laik_Range* notcovered = 0;
+static int notcovered_capacity = 0;
 static int notcovered_count;
 
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
+    if (notcovered_count == notcovered_capacity) {
+        notcovered_capacity = 100 + 2 * notcovered_capacity;
+        notcovered = realloc(notcovered, notcovered_capacity * sizeof(Laik_Range));
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
     notcovered[notcovered_count] = *s;
     notcovered_count++;
 }
@@ -246,11 +253,12 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
 
         int count = notcovered_count; // number of ranges to visit
         for(int j = 0; j < count; j++) {
-            Laik_Range* orig = &(notcovered[j]);
+            // copy, as appending may move the list
+            Laik_Range orig = notcovered[j];
 
-            if (laik_range_intersect(orig, toRemove) == 0) {
+            if (laik_range_intersect(&orig, toRemove) == 0) {
                 // range to remove does not overlap with orig: keep original
-                appendToNotcovered(orig);
+                appendToNotcovered(&orig);
                 continue;
             }
 
@@ -259,21 +267,21 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
             // check for space not covered in orig, loop through valid dims
             for(int d = 0; d < dims; d++) {
                 // space in dim <d> before <toRemove> ?
-                if (orig->from.i[d] < toRemove->from.i[d]) {
+                if (orig.from.i[d] < toRemove->from.i[d]) {
                     // yes, add to not-covered
-                    Laik_Range s = *orig;
+                    Laik_Range s = orig;
                     s.to.i[d] = toRemove->from.i[d];
                     appendToNotcovered(&s);
                     // remove appended part from <orig>
-                    orig->from.i[d] = toRemove->from.i[d];
+                    orig.from.i[d] = toRemove->from.i[d];
                 }
                 // space in dim <d> after <toRemove> ?
-                if (orig->to.i[d] > toRemove->to.i[d]) {
-                    Laik_Range s = *orig;
+                if (orig.to.i[d] > toRemove->to.i[d]) {
+                    Laik_Range s = orig;
                     s.from.i[d] = toRemove->to.i[d];
                     appendToNotcovered(&s);
                     // remove appended part from <orig>
-                    orig->to.i[d] = toRemove->to.i[d];
+                    orig.to.i[d] = toRemove->to.i[d];
                 }
             }
         }
-- 
2.43.0


From 4e37d53314e70bf1891a2c4ace1158490441b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 32/78] fix: intersection and containment of empty ranges

---
 src/space.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index b4b0eec..36df7fe 100644
--- a/src/space.c
+++ b/src/space.c
@@ -170,7 +170,7 @@ bool intersectRange(int64_t from1, int64_t to1, int64_t from2, int64_t to2,
     if (from2 >= to1) return false;
     *resFrom = (from1 > from2) ? from1 : from2;
     *resTo = (to1 > to2) ? to2 : to1;
-    return true;
+    return (*resFrom < *resTo); // no intersection if one was empty
 }
 
 // get the intersection of two ranges; return 0 if intersection is empty
@@ -233,6 +233,9 @@ bool laik_range_within_range(const Laik_Range* r1, const Laik_Range* r2)
 
     assert(r1->space == r2->space);
 
+    // an empty range is contained in any other
+    if (laik_range_isEmpty((Laik_Range*) r1)) return true;
+
     int dims = r1->space->dims;
     if (r1->from.i[0] < r1->to.i[0]) {
         // not empty
-- 
2.43.0


From 799fc6f9f57bfb2f27c06830467b30a08e19a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:52 +0000
Subject: [PATCH 33/78] fix: conversion of global to local index with
 overlapping mappings

With multiple mappings, an index may be covered by a mapping which just spans
a gap there: the value is in the mapping with the index among its ranges.
---
 src/data.c | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/data.c b/src/data.c
index 95794c8..8ba3574 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1555,20 +1555,38 @@ Laik_Mapping* laik_get_map_3d(Laik_Data* d, int n, void** base,
 }
 
 
-Laik_Mapping* laik_global2local_1d(Laik_Data* d, int64_t gidx, uint64_t* lidx)
+// helper: number of mapping of own partition covering 1d index <gidx>, or -1.
+// A mapping spans all its ranges, including gaps inbetween. If an index is
+// covered by multiple mappings, use the one with the index among its ranges
+static
+int getMapNo_1d(Laik_Data* d, int64_t gidx)
 {
-    assert(d->space->dims == 1);
-    if (!d->activeMappings) return 0;
+    int found = -1, count = 0;
     for(int i = 0; i < d->activeMappings->count; i++) {
         Laik_Mapping* m = &(d->activeMappings->map[i]);
 
         if (gidx < m->requiredRange.from.i[0]) continue;
         if (gidx >= m->requiredRange.to.i[0]) continue;
 
-        if (lidx) *lidx = gidx - m->requiredRange.from.i[0];
-        return m;
+        if (count++ == 0) found = i;
     }
-    return 0;
+    if (count < 2) return found;
+
+    int rcount = laik_my_rangecount(d->activePartitioning);
+    for(int i = 0; i < rcount; i++) {
+        Laik_TaskRange* tr = laik_my_range(d->activePartitioning, i);
+        const Laik_Range* r = laik_taskrange_get_range(tr);
+
+        if (gidx < r->from.i[0]) continue;
+        if (gidx >= r->to.i[0]) continue;
+        return laik_taskrange_get_mapNo(tr);
+    }
+    return found;
+}
+
+Laik_Mapping* laik_global2local_1d(Laik_Data* d, int64_t gidx, uint64_t* lidx)
+{
+    return laik_global2maplocal_1d(d, gidx, 0, lidx);
 }
 
 Laik_Mapping* laik_global2maplocal_1d(Laik_Data* d, int64_t gidx,
@@ -1576,19 +1594,14 @@ Laik_Mapping* laik_global2maplocal_1d(Laik_Data* d, int64_t gidx,
 {
     assert(d->space->dims == 1);
     if (!d->activeMappings) return 0;
-    for(int i = 0; i < d->activeMappings->count; i++) {
-        Laik_Mapping* m = &(d->activeMappings->map[i]);
-
-        if (gidx < m->requiredRange.from.i[0]) continue;
-        if (gidx >= m->requiredRange.to.i[0]) continue;
+    int n = getMapNo_1d(d, gidx);
+    // if not found: set mapNo to invalid -1
+    if (mapNo) *mapNo = n;
+    if (n < 0) return 0;
 
-        if (lidx) *lidx = gidx - m->requiredRange.from.i[0];
-        if (mapNo) *mapNo = i;
-        return m;
-    }
-    // not found: set mapNo to invalid -1
-    if (mapNo) *mapNo = -1;
-    return 0;
+    Laik_Mapping* m = &(d->activeMappings->map[n]);
+    if (lidx) *lidx = gidx - m->requiredRange.from.i[0];
+    return m;
 }
 
 
-- 
2.43.0


From 49308c8411e28f2eef8aa3a78a187a2582b5000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 34/78] fix: a cloned group could not be used, as it was not
 known to the backend

---
 src/core.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 4150c81..831bbd3 100644
--- a/src/core.c
+++ b/src/core.c
@@ -359,7 +359,8 @@ void laik_set_world(Laik_Instance* i, Laik_Group* newworld)
 
 // create a clone of <g>, derived from <g>
 // helper for laik_new_shrinked_group, does not call into backend to track new group
-Laik_Group* laik_clone_group(Laik_Group* g)
+static
+Laik_Group* clone_group(Laik_Group* g)
 {
     Laik_Group* g2 = laik_create_group(g->inst, g->size);
     g2->parent = g;
@@ -375,6 +376,18 @@ Laik_Group* laik_clone_group(Laik_Group* g)
     return g2;
 }
 
+// create a clone of <g>, derived from <g>
+Laik_Group* laik_clone_group(Laik_Group* g)
+{
+    Laik_Group* g2 = clone_group(g);
+
+    // allow the backend to track the new created group g2
+    if (g->inst->backend->updateGroup)
+        (g->inst->backend->updateGroup)(g2);
+
+    return g2;
+}
+
 // helpers for laik_new_union_group
 
 struct lididx
@@ -492,7 +505,7 @@ Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
 // Shrinking (collective)
 Laik_Group* laik_new_shrinked_group(Laik_Group* g, int len, int* list)
 {
-    Laik_Group* g2 = laik_clone_group(g);
+    Laik_Group* g2 = clone_group(g);
 
     for(int i = 0; i < g->size; i++)
         g2->fromParent[i] = 0; // init
-- 
2.43.0


From 5b521a380c8d3570241ee022b124db428398e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 35/78] fix: values of different length in a KVS are different

Setting a key to a value which has the old value as prefix (or the other
way round) compared beyond the end of the value, or kept the old value.
---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..2d01e09 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -371,7 +371,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From 482d436aeaf71b7febd745da2705cbe92722ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 36/78] fix: detect inconsistent binary values when merging KVS
 changes

---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 2d01e09..14b01cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
-- 
2.43.0


From db4e890b413583374f4021a7229fb82bf32d941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 37/78] fix: changing a KVS entry repeatedly between
 synchronisations

The journal got multiple changes for the same key, which could not be
merged, or resulted in a reported inconsistency.
---
 src/kvs.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index 14b01cc..2f27e39 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -121,6 +121,23 @@ void laik_kvs_changes_free(Laik_KVS_Changes* c)
     }
 }
 
+// remove change of <key> from a journal not sorted yet
+static void changes_del(Laik_KVS_Changes* c, char* key)
+{
+    for(int i = 0; i + 2 < c->offUsed; i += 2) {
+        if (strcmp(c->data + c->off[i], key) != 0) continue;
+
+        int len = c->off[i + 2] - c->off[i];
+        memmove(c->data + c->off[i], c->data + c->off[i + 2],
+                (size_t) (c->dataUsed - c->off[i + 2]));
+        c->dataUsed -= len;
+        c->offUsed -= 2;
+        for(int j = i; j < c->offUsed; j++)
+            c->off[j] = c->off[j + 2] - len;
+        return;
+    }
+}
+
 // allocate own space in <c>, and does deep copy of <key> and <data>
 void laik_kvs_changes_add(Laik_KVS_Changes* c,
                           char* key, int dlen, char* data,
@@ -427,6 +444,10 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     }
 
     if (kvs->in_sync) return e;
+
+    // only the last change of a key gets propagated
+    if (e->updated)
+        changes_del(&(kvs->changes), key);
     e->updated = true;
 
     laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
-- 
2.43.0


From 92706fcc5c4718fd7cd1184101c871b2b75900da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 38/78] fix: propagate removal of KVS entries

Synchronising after removing an entry hit an assertion as a change without
value was not expected, and other processes never removed their entry.
---
 src/kvs.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 2f27e39..a721dfc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -172,7 +172,8 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     c->dataUsed += klen;
     c->off[c->offUsed] = c->dataUsed;
     char* newdata = c->data + c->dataUsed;
-    memcpy(newdata, data, (size_t) dlen);
+    if (dlen > 0)
+        memcpy(newdata, data, (size_t) dlen);
     c->dataUsed += dlen;
     c->off[c->offUsed + 1] = c->dataUsed;
     c->offUsed += 2;
@@ -219,7 +220,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range, empty if removed
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -293,7 +294,12 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        if (c->off[i+2] == c->off[i+1]) {
+            // no value: removed
+            laik_kvs_remove(kvs, c->data + c->off[i]);
+            continue;
+        }
         laik_kvs_set(kvs,
                      c->data + c->off[i],
                      (unsigned)(c->off[i+2] - c->off[i+1]), // data size
@@ -350,8 +356,14 @@ static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     e->vlen = 0;
     e->data = 0;
 
-    if (!kvs->in_sync)
-        laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+    if (kvs->in_sync) return;
+
+    // only the last change of a key gets propagated
+    if (e->updated)
+        changes_del(&(kvs->changes), e->key);
+    e->updated = true;
+
+    laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
 }
 
 // remove all entries
@@ -368,7 +380,16 @@ void laik_kvs_clean(Laik_KVStore* kvs)
 bool laik_kvs_remove(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
-    if (!e) return false;
+    if (!e || !e->value) return false; // not existing or already removed
+
+    if (e->updated && kvs->in_sync) {
+        // removed by other process, but updated ourself
+        laik_log(LAIK_LL_Panic,
+                 "KVS '%s' at key '%s': update inconsistency\n",
+                 kvs->name, key);
+        exit(1);
+    }
+
     remove_entry(kvs, e);
     return true;
 }
-- 
2.43.0


From 62df1579a8090798f7576b5630b8ae3fe18046ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 39/78] fix: KVS synchronisation without or with short changes

The assertion about more bytes than offsets does not hold without changes,
or if the only change is a short key with a value of one byte.
---
 src/backend-mpi.c              | 2 +-
 src/backends/tcp/backend-tcp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 0a39e96..2f302c9 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1170,7 +1170,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..96ab596 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -902,7 +902,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) == (count[1] == 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From ef81c5008568afdb80df16429cc81e706e858ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 40/78] fix: TCP2: exchange KVS entries of any content and
 length

Keys and values were printed as strings into a buffer of 100 bytes, and
cut or misinterpreted by the receiver if too long, with spaces or zeros.
Removed entries have no value to send.
---
 src/backend-tcp2.c | 79 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..567c76f 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -158,6 +158,7 @@
 #include "laik-backend-tcp2.h"
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <netinet/in.h>
 #include <signal.h>
@@ -1041,7 +1042,7 @@ void got_help(InstData* d, int fd, int lid)
     send_cmd(d, lid, "#  id <id> <loc> <host> <port> <flags> : announce location id info");
     send_cmd(d, lid, "#  kvs allow <name>             : allow to send changes for KVS");
     send_cmd(d, lid, "#  kvs changes <count>          : announce number of changes for KVS");
-    send_cmd(d, lid, "#  kvs data <key> <value>       : send changed KVS entry");
+    send_cmd(d, lid, "#  kvs data <key> [<value>]     : send changed KVS entry (hex, no value: removed)");
     send_cmd(d, lid, "#  myid <id>                    : identify your location id");
     send_cmd(d, lid, "#  ok                           : positive response to a request");
     send_cmd(d, lid, "#  phase <phase> <epoch>        : announce current phase/epoch");
@@ -1316,12 +1317,12 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
         return;
     }
 
-    char cmd[21];
-    char name[30];
-    if (sscanf(msg, "%20s %29s", cmd, name) < 2) {
+    char* name = strchr(msg, ' ');
+    if (!name) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs allow' command '%s'; ignoring", msg);
         return;
     }
+    name++;
 
     laik_log(1, "TCP2 allowed to send changes for KVS '%s'", name);
     assert(d->kvs_name == 0);
@@ -1347,23 +1348,69 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
         d->exit = 1;
 }
 
+// send changed KVS entry. As keys and values may have any content, send
+// them as hex digits. A removed entry has no value
+static
+void send_kvs_data(InstData* d, int lid, Laik_KVS_Entry* e)
+{
+    int klen = strlen(e->key);
+    int vlen = e->value ? (int) e->vlen : -1;
+
+    char* msg = malloc(2 * klen + 2 * (vlen > 0 ? vlen : 0) + 20);
+    int o = sprintf(msg, "kvs data k");
+    for(int i = 0; i < klen; i++)
+        o += sprintf(msg + o, "%02x", (unsigned char) e->key[i]);
+    if (vlen >= 0)
+        o += sprintf(msg + o, " v");
+    for(int i = 0; i < vlen; i++)
+        o += sprintf(msg + o, "%02x", (unsigned char) e->value[i]);
+    send_cmd(d, lid, msg);
+    free(msg);
+}
+
+// convert hex digits to bytes in-place, up to next non-hex char.
+// terminates with 0 and returns number of bytes
+static
+int hex2bytes(char* str)
+{
+    int len = 0, v;
+    while(isxdigit((unsigned char) str[2 * len]) &&
+          (sscanf(str + 2 * len, "%2x", (unsigned int*) &v) == 1)) {
+        str[len] = (char) v;
+        len++;
+    }
+    str[len] = 0;
+    return len;
+}
+
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    // data k<key as hex> [v<value as hex>]
+    char* key = strchr(msg, ' ');
+    if (!key || (key[1] != 'k')) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
+    key += 2;
+    char* value = strstr(key, " v");
+    int vlen = 0;
+    if (value) {
+        value += 2;
+        vlen = hex2bytes(value);
+    }
+    hex2bytes(key);
 
-    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
+    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': %d bytes", lid, key, vlen);
     assert(d->kvs != 0);
     assert(d->kvs_changes > 0);
     assert(d->kvs_received < d->kvs_changes);
 
-    Laik_KVS_Entry* e = laik_kvs_sets(d->kvs, key, value);
+    // sets value or removes entry if there is no value
+    laik_kvs_set(d->kvs, key, vlen, value);
     // simply mark it as updated
     //  this may send unneeded updates, but we do not use change journal in TCP2
-    e->updated = true;
+    Laik_KVS_Entry* e = laik_kvs_entry(d->kvs, key);
+    if (e) e->updated = true;
 
     d->kvs_received++;
     if (d->kvs_received == d->kvs_changes)
@@ -2412,9 +2459,7 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, 0, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
+            send_kvs_data(d, 0, &(kvs->entry[i]));
         }
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
@@ -2435,8 +2480,10 @@ void tcp2_sync(Laik_KVStore* kvs)
     // master
 
     for(int lid = 1; lid <= d->maxid; lid++) {
-        sprintf(msg, "kvs allow %s", kvs->name);
-        send_cmd(d, lid, msg);
+        char* allowmsg = malloc(strlen(kvs->name) + 20);
+        sprintf(allowmsg, "kvs allow %s", kvs->name);
+        send_cmd(d, lid, allowmsg);
+        free(allowmsg);
 
         // wait for changes from LID <lid>
         d->kvs_changes = -1;
@@ -2457,10 +2504,8 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, lid, msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
         for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+            send_kvs_data(d, lid, &(kvs->entry[i]));
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From 4f56724c5ba2b2ad0b30280cea81d6c204afae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 41/78] fix: TCP2: commands longer than the receive buffer

Enlarge the buffer instead of stopping with a panic, and keep space for
the NL appended when the other side closes the connection.
---
 src/backend-tcp2.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 567c76f..4ff22e8 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -273,6 +273,7 @@ typedef struct {
 
     // receive buffer
     int rbuf_used;
+    int rbuf_size;
     char* rbuf;
     // if > 0 we are in binary data receive mode, outstanding bytes
     int outstanding_bin;
@@ -463,6 +464,7 @@ void add_rfd(InstData* d, int fd, loop_cb_t cb)
     d->fds[fd].cmd = 0; // no unprocessed command
     d->fds[fd].rbuf = malloc(RBUF_LEN);
     d->fds[fd].rbuf_used = 0;
+    d->fds[fd].rbuf_size = RBUF_LEN;
     d->fds[fd].outstanding_bin = 0;
 }
 
@@ -1646,14 +1648,17 @@ void got_bytes(InstData* d, int fd)
     assert((fd >= 0) && (fd < MAX_FDS));
     int used = d->fds[fd].rbuf_used;
 
-    if (used == RBUF_LEN) {
-        // buffer not large enough for even 1 command: should not happen
-        laik_panic("TCP2 receive buffer too small for 1 command");
-        exit(1);
+    // keep space for NL to add if other side closes connection
+    if (used + 1 >= d->fds[fd].rbuf_size) {
+        // buffer not large enough for 1 command: enlarge
+        d->fds[fd].rbuf_size *= 2;
+        d->fds[fd].rbuf = realloc(d->fds[fd].rbuf, d->fds[fd].rbuf_size);
+        if (!d->fds[fd].rbuf)
+            laik_panic("Out of memory allocating TCP2 receive buffer");
     }
 
     char* rbuf = d->fds[fd].rbuf;
-    int len = read(fd, rbuf + used, RBUF_LEN - used);
+    int len = read(fd, rbuf + used, d->fds[fd].rbuf_size - 1 - used);
     if (len == -1) {
         int e = errno;
         laik_log(1, "TCP2 warning: read error on FD %d: %s\n",
-- 
2.43.0


From edf69c2a6cf6a653d534d02ba857cd619e8cdc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:23 +0000
Subject: [PATCH 42/78] fix: action sequences with reductions could not be
 prepared without reservations

---
 src/data.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index 8ba3574..54b39ee 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1240,7 +1240,12 @@ Laik_ActionSeq* laik_calc_actions(Laik_Data* d,
 
     Laik_ActionSeq* as = createTransASeq(d, t, fromList, toList);
     const Laik_Backend* backend = d->space->inst->backend;
-    if (backend->prepare) {
+    if (backend->prepare && (t->redCount > 0) && (!fromList || !toList)) {
+        // reductions cannot be prepared without knowing the mappings used:
+        // sequence stays unprepared, see laik_exec_actions
+        laik_log(1, "calc actions: reductions without given mappings");
+    }
+    else if (backend->prepare) {
         (backend->prepare)(as);
 
         // remember mappings at prepare time
@@ -1293,8 +1298,13 @@ void laik_exec_actions(Laik_ActionSeq* as)
     }
 
     // only execute by backend which optimized the sequence
+    const Laik_Backend* backend = d->space->inst->backend;
     if (as->backend)
-        assert(as->backend == d->space->inst->backend);
+        assert(as->backend == backend);
+    else if (backend->prepare) {
+        // not prepared yet: prepare on the fly, using current mappings
+        as = 0;
+    }
 
     doTransition(d, t, as, d->activeMappings, toList);
 
-- 
2.43.0


From 67b032c95501b886c1bc5c64b096266f6f2af190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 43/78] fix: freeing a container kept its memory and left it
 registered

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 11 +++++++++++
 src/data.c                   |  7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..1ad9b70 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -117,6 +117,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index 831bbd3..15b06d0 100644
--- a/src/core.c
+++ b/src/core.c
@@ -281,6 +281,17 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    int i = 0;
+    while((i < inst->data_count) && (inst->data[i] != d)) i++;
+    assert(i < inst->data_count); // not found, should not happen
+
+    inst->data_count--;
+    for(; i < inst->data_count; i++)
+        inst->data[i] = inst->data[i + 1];
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index 54b39ee..d2c01b6 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1654,6 +1654,13 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    // memory of active mappings, if not owned by a reservation
+    if (d->activeMappings && (d->activeMappings->res == 0))
+        freeMappingList(d->activeMappings, d->stat);
+
+    laik_removeDataFromInstance(d->space->inst, d);
+
+    free(d->stat);
     free(d);
 }
 
-- 
2.43.0


From f2ab412ae5f16bb796f8a6bf502758e49cdb4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 44/78] fix: provided memory was used for new indexes while it
 held values to be moved

---
 src/data.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index d2c01b6..a143b54 100644
--- a/src/data.c
+++ b/src/data.c
@@ -333,6 +333,17 @@ Laik_Range* coveringRanges(int n, Laik_RangeList* list, int myid)
 // forward decl
 static void laik_map_set_allocation(Laik_Mapping*, char*, uint64_t, Laik_Allocator*);
 
+// helper for prepareMaps
+// is memory provided by the application still used by an active mapping?
+static
+bool providedMemoryInUse(Laik_Data* d)
+{
+    if (!d->activeMappings) return false;
+    for(int i = 0; i < d->activeMappings->count; i++)
+        if (d->activeMappings->map[i].start == d->map0_base) return true;
+    return false;
+}
+
 static
 Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
 {
@@ -384,7 +395,9 @@ Laik_MappingList* prepareMaps(Laik_Data* d, Laik_Partitioning* p)
         m->layout = layout;       // all maps use same layout
         m->layoutSection = mapNo; // but different sections of it
 
-        if ((mapNo == 0) && (d->map0_base != 0)) {
+        // memory still holding values to be sent or copied must not be used for
+        // other indexes: if possible, it gets re-used later (see checkMapReuse)
+        if ((mapNo == 0) && (d->map0_base != 0) && !providedMemoryInUse(d)) {
             laik_log(1, "  using provided memory (%lld bytes at %p with layout %s)",
                      (unsigned long long int) d->map0_size, d->map0_base,
                      layout->describe(m->layout));
@@ -654,6 +667,7 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
 
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* toMap = &(toList->map[i]);
+        if (toMap->base) continue; // uses provided memory
 
         Laik_Mapping* fromMap = 0;
         int sNo;
-- 
2.43.0


From 550b561ffb2e82ef5c38e09fadbdc3ac3228f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:23 +0000
Subject: [PATCH 45/78] fix: adding statistics ignored the bytes currently
 allocated

---
 src/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data.c b/src/data.c
index a143b54..c81be73 100644
--- a/src/data.c
+++ b/src/data.c
@@ -89,6 +89,7 @@ void laik_addSwitchStat(Laik_SwitchStat* target, Laik_SwitchStat* src)
     target->freeCount          += src->freeCount          ;
     target->mallocedBytes      += src->mallocedBytes      ;
     target->freedBytes         += src->freedBytes         ;
+    target->currAllocedBytes   += src->currAllocedBytes   ;
     target->maxAllocedBytes    += src->maxAllocedBytes    ;
     target->initedBytes        += src->initedBytes        ;
     target->copiedBytes        += src->copiedBytes        ;
-- 
2.43.0


From d33a87b0b9609f10dffeffb993f1d7a98495ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 46/78] fix: buffer too small to publish 3d spaces with large
 borders

---
 src/space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 36df7fe..91f072c 100644
--- a/src/space.c
+++ b/src/space.c
@@ -419,7 +419,7 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    static char buf[150]; // large enough for 6 numbers with 64 bits
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From 4e95da7e7fd31234bfd3a0ed47fadd2d8179821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 47/78] fix: spaces received via the space store were not
 usable

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index 91f072c..46bbc54 100644
--- a/src/space.c
+++ b/src/space.c
@@ -344,6 +344,7 @@ Laik_Space* laik_new_space(Laik_Instance* inst)
 
     space->inst = inst;
     space->dims = 0; // invalid
+    space->range.space = space; // borders are set later
     space->nextSpaceForInstance = 0;
 
     space->kvs = 0;
-- 
2.43.0


From ec3c93b15c0baef8fd84b2a94f9b9f296a8938d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:55 +0000
Subject: [PATCH 48/78] fix: TCP2 backend left result of reduction without
 inputs undefined

The other backends write the neutral element of the reduction.
---
 src/backend-tcp2.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 4ff22e8..0310a9e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2283,6 +2283,22 @@ void recv_range(Laik_Range* range, int fromLID, Laik_Mapping* toMap, Laik_Reduct
     p->rcount = 0;
 }
 
+// set all elements in <range> to neutral element of reduction <ro>
+static
+void init_range(Laik_Range* range, Laik_Mapping* m, Laik_ReductionOperation ro)
+{
+    assert(m->start != 0); // must be backed by memory
+    Laik_Layout* l = m->layout;
+    Laik_Type* t = m->data->type;
+    assert(t->init);
+
+    Laik_Index idx = range->from;
+    do {
+        int64_t off = l->offset(l, m->layoutSection, &idx);
+        (t->init)(m->start + off * m->data->elemsize, 1, ro);
+    } while(next_lex(range, &idx));
+}
+
 /* reduction at one process using send/recv
  * 
  * One process is chosen to do the reduction (reduceProcess): this is selected
@@ -2355,6 +2371,10 @@ void exec_reduce(Laik_TransitionContext* tc,
         recv_range(a->range, inLID, m, op);
         op = a->redOp; // eventually reset to reduction op from None
     }
+    if (inCount == 0) {
+        // no input: result is neutral element of reduction
+        init_range(a->range, m, a->redOp);
+    }
 
     // send result to processes in output group
     int outCount = laik_trans_groupCount(t, a->outputGroup);
-- 
2.43.0


From c0020d0525e05aecfbb6d92d7d5e2303f83e9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:10 +0000
Subject: [PATCH 49/78] fix: TCP2 backend overflowed buffers with large or
 negative indexes

---
 src/backend-tcp2.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 0310a9e..93277ca 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -337,19 +337,19 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    static char str[70];
 
     if (dims == 1)
-        sprintf(str, "%llu", (unsigned long long) idx->i[0]);
+        sprintf(str, "%lld", (long long) idx->i[0]);
     if (dims == 2)
-        sprintf(str, "%llu/%llu",
-                (unsigned long long) idx->i[0],
-                (unsigned long long) idx->i[1]);
+        sprintf(str, "%lld/%lld",
+                (long long) idx->i[0],
+                (long long) idx->i[1]);
     if (dims == 3)
-        sprintf(str, "%llu/%llu/%llu",
-                (unsigned long long) idx->i[0],
-                (unsigned long long) idx->i[1],
-                (unsigned long long) idx->i[2]);
+        sprintf(str, "%lld/%lld/%lld",
+                (long long) idx->i[0],
+                (long long) idx->i[1],
+                (long long) idx->i[2]);
     return str;
 }
 
@@ -723,7 +723,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[90];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -770,7 +770,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[90];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
@@ -2140,7 +2140,7 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    char str[450];
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
-- 
2.43.0


From ae5751046aa51db30926258f7cf699a5cef2a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:50 +0000
Subject: [PATCH 50/78] fix: freeing action sequences of backends without
 cleanup function crashed

---
 src/action.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/action.c b/src/action.c
index 90b8892..d987705 100644
--- a/src/action.c
+++ b/src/action.c
@@ -86,7 +86,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     laik_log(1, "free action seq '%s' (%d actions, %d buffers)",
              as->name, as->actionCount, as->bufferCount);
 
-    if (as->backend) {
+    if (as->backend && as->backend->cleanup) {
         // ask backend to do its own cleanup for this action sequence
         (as->backend->cleanup)(as);
     }
-- 
2.43.0


From f23786265fb39db4e2b1bc3156292adbca43636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 51/78] fix: TCP2 backend panicked if an external client
 disconnected before its answer

---
 src/backend-tcp2.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 93277ca..89bf501 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -663,8 +663,10 @@ void send_cmd(InstData* d, int lid, char* cmd)
 
     if (res < 0) {
         int e = errno;
-        laik_log(LAIK_LL_Panic, "TCP2 write error on FD %d: %s\n",
-                 fd, strerror(e));
+        // without LID: external client which may have closed the connection
+        // already. Not an error, got_bytes() will clean up
+        laik_log((lid < 0) ? LAIK_LL_Warning : LAIK_LL_Panic,
+                 "TCP2 write error on FD %d: %s\n", fd, strerror(e));
     }
 }
 
-- 
2.43.0


From c59e33be1bfcb2d2b651bbd194890af0faef1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:21 +0000
Subject: [PATCH 52/78] fix: TCP2 backend used freed receive buffer after a
 quit command

---
 src/backend-tcp2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 89bf501..8713bc5 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1622,7 +1622,7 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            return; // connection closed, receive buffer is gone
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1631,6 +1631,8 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            // connection closed by command ("quit")? Receive buffer is gone
+            if (fds->cb == 0) return;
             pos1 = pos2+1;
         }
         pos2++;
@@ -1675,6 +1677,8 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            // already closed by left-over command ("quit")?
+            if (d->fds[fd].cb == 0) return;
         }
 
         int lid = d->fds[fd].lid;
-- 
2.43.0


From 3888f7d2189d575470a8258c64146e7f7eb15bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 53/78] fix: TCP2 backend hung synchronising a KVS after
 processes were removed

---
 src/backend-tcp2.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 8713bc5..3b981b1 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2510,7 +2510,9 @@ void tcp2_sync(Laik_KVStore* kvs)
 
     // master
 
+    // only with active processes: others got removed or are about to leave
     for(int lid = 1; lid <= d->maxid; lid++) {
+        if (d->peer[lid].state != PS_Ready) continue;
         char* allowmsg = malloc(strlen(kvs->name) + 20);
         sprintf(allowmsg, "kvs allow %s", kvs->name);
         send_cmd(d, lid, allowmsg);
@@ -2532,11 +2534,13 @@ void tcp2_sync(Laik_KVStore* kvs)
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
     for(int lid = 1; lid <= d->maxid; lid++)
-        send_cmd(d, lid, msg);
+        if (d->peer[lid].state == PS_Ready)
+            send_cmd(d, lid, msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
         for(int lid = 1; lid <= d->maxid; lid++)
-            send_kvs_data(d, lid, &(kvs->entry[i]));
+            if (d->peer[lid].state == PS_Ready)
+                send_kvs_data(d, lid, &(kvs->entry[i]));
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From 79536d1f4387e57216bf867afaefdd6263ed6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 54/78] fix: more than 100 requests to resize the world ended
 in an assertion

---
 include/laik/core-internal.h |  2 +-
 src/core.c                   | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 1ad9b70..ae3fdd6 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -142,7 +142,7 @@ struct _Laik_ResizeRequest {
 // Each entry just is a pointer to backend-specific data
 struct _Laik_ResizeRequests {
     int size, used;
-    Laik_ResizeRequest req[0];
+    Laik_ResizeRequest* req;
 };
 
 Laik_ResizeRequests* laik_new_resize_reqs(int size);
diff --git a/src/core.c b/src/core.c
index 15b06d0..7416b0a 100644
--- a/src/core.c
+++ b/src/core.c
@@ -620,7 +620,12 @@ void laik_finish_world_resize(Laik_Instance* instance)
 Laik_ResizeRequests* laik_new_resize_reqs(int size)
 {
     Laik_ResizeRequests* reqs;
-    reqs = malloc(size * sizeof(Laik_ResizeRequest) + sizeof(Laik_ResizeRequests));
+    reqs = malloc(sizeof(Laik_ResizeRequests));
+    if (reqs) reqs->req = malloc(size * sizeof(Laik_ResizeRequest));
+    if (!reqs || !reqs->req) {
+        laik_panic("Out of memory allocating resize requests");
+        exit(1); // not actually needed, laik_panic never returns
+    }
     reqs->size = size;
     reqs->used = 0;
 
@@ -632,12 +637,19 @@ static
 void laik_add_resize_req(Laik_Instance* instance, bool is_join_req, void* backend_data)
 {
     if (instance->resizeRequests == 0) {
-        // reserve space for 100 join requests
+        // reserve space for 100 requests, enlarged on demand
         instance->resizeRequests = laik_new_resize_reqs(100);
     }
 
     Laik_ResizeRequests* reqs = instance->resizeRequests;
-    assert(reqs->used < reqs->size);
+    if (reqs->used == reqs->size) {
+        reqs->size *= 2;
+        reqs->req = realloc(reqs->req, reqs->size * sizeof(Laik_ResizeRequest));
+        if (!reqs->req) {
+            laik_panic("Out of memory allocating resize requests");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
     reqs->req[reqs->used].is_join_req = is_join_req;
     reqs->req[reqs->used].backend_data = backend_data;
     reqs->used++;
-- 
2.43.0


From 16fba834c0d7e201f9469424129ca8904b7e8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 55/78] fix: requests to leave arriving during a resize were
 lost

---
 src/core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 7416b0a..7352897 100644
--- a/src/core.c
+++ b/src/core.c
@@ -592,9 +592,9 @@ Laik_Group* laik_allow_world_resize(Laik_Instance* instance, int phase)
                        jcount, rcount);
     }
 
+    // backend removes processed requests. Requests arriving while it resizes
+    // the world are kept for the next time
     Laik_Group* g = (instance->backend->resize)(reqs);
-    if (reqs)
-        reqs->used = 0;
 
     if (g) {
         laik_set_world(instance, g);
-- 
2.43.0


From 33aef619f3604b715274032dc8d22d6068aba14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 56/78] fix: TCP2 backend failed if a process was asked twice
 to leave

---
 src/backend-tcp2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 3b981b1..0f82cea 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2734,9 +2734,9 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             }
             else {
                 Peer* peer = (Peer*) req->backend_data;
+                // ignore if already marked for removal, or removed since request
+                if (peer->state != PS_InResize) continue;
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
-                // expected to be active
-                assert(peer->state == PS_InResize);
                 peer->state = PS_InResizeRemove;
             }
         }
-- 
2.43.0


From de149ea29dbba70492f287945f15250aa98958fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 57/78] fix: TCP2 backend failed if a process asking to join
 disconnected or asked twice

---
 src/backend-tcp2.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 0f82cea..87213af 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -480,6 +480,8 @@ void rm_rfd(InstData* d, int fd)
     d->fds[fd].state = PS_Invalid;
     free(d->fds[fd].rbuf);
     d->fds[fd].rbuf = 0;
+    free(d->fds[fd].cmd);
+    d->fds[fd].cmd = 0;
 }
 
 // run event loop until an event handler asks to exit
@@ -848,7 +850,10 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     if ((d->mystate != PS_InStartup) &&
         (d->mystate != PS_InResize1)) {
         // after startup: process later in resize()
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd != 0) {
+            laik_log(LAIK_LL_Warning, "already registered; ignoring '%s'", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_RegReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -2722,9 +2727,9 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
                 FDState* fds = (FDState*) req->backend_data;
                 int fd = fds - d->fds;
                 assert(&(d->fds[fd]) == fds);
-                assert(fds->state == PS_RegReceived2);
+                // ignore if connection got closed since request
+                if ((fds->state != PS_RegReceived2) || (fds->cmd == 0)) continue;
                 assert(fds->lid < 0);
-                assert(fds->cmd);
 
                 laik_log(1, "TCP2 resize: replay join req '%s' from FD %d",
                         fds->cmd, fd);
-- 
2.43.0


From 850c4b8e7e2ddb96409d72e388e768ab77554d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:36 +0000
Subject: [PATCH 58/78] fix: TCP2 backend failed on removal requests arriving
 during startup

---
 src/backend-tcp2.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 87213af..757dffa 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -211,7 +211,6 @@ static Laik_Instance* instance = 0;
 typedef enum _PeerState {
     PS_Invalid = 0,
     PS_Unknown,        // accepted connection, may be active peer or not registered
-    PS_CutoffReceived, // peer/master: cutoff command received, queued
     PS_BeforeReg,      // peer/master: about to register
     PS_RegReceived,    // master peer: received registration request, not yet processed
     PS_RegReceived2,   // master peer: received registration request, in wait queue
@@ -297,6 +296,10 @@ struct _InstData {
     int exit;         // set to exit event loop
     FDState fds[MAX_FDS];
 
+    // cutoff commands received in startup
+    int cutoffs;
+    char** cutoff;
+
     // currently synced KVS (usually NULL)
     Laik_KVStore* kvs;
     char *kvs_name;  // non-null if sending changes of KVS with given name allowed
@@ -363,10 +366,6 @@ char* get_statestring(PeerState st)
         // accepted connection, may be active peer or not registered
         return "unknown";
 
-    case PS_CutoffReceived:
-        // master/peer: received cutoff request, in wait queue
-        return "cutoff command queued, waiting";
-
     case PS_BeforeReg:
         // peer/master: about to register
         return "about to register";
@@ -968,16 +967,16 @@ void got_myid(InstData* d, int fd, int lid, char* msg)
 
 // the pattern is parsed as extended POSIX regular expression
 // (similar to PERL regexp, but no back-refs)
-void got_cutoff(InstData* d, int fd, char* msg)
+void got_cutoff(InstData* d, char* msg)
 {
     // cutoff <location pattern>
 
     if (instance == 0) {
-        // no instance yet to queue remove requests, need to replay
-        assert(d->fds[fd].cmd == 0);
-
-        d->fds[fd].state = PS_CutoffReceived;
-        d->fds[fd].cmd = strdup(msg);
+        // no instance yet to queue remove requests, need to replay. Independent
+        // of the connection, which may be used further or closed before
+        d->cutoff = realloc(d->cutoff, (d->cutoffs + 1) * sizeof(char*));
+        if (!d->cutoff) laik_panic("TCP2 Out of memory queueing cutoff command");
+        d->cutoff[d->cutoffs++] = strdup(msg);
         laik_log(1, "TCP2 queued for later processing: '%s'", msg);
         return;
     }
@@ -1537,7 +1536,7 @@ void got_cmd(InstData* d, int fd, char* msg, int len)
     switch(msg[0]) {
     case 'r': got_register(d, fd, lid, msg); return; // register <location> <host> <port>
     case 'm': got_myid(d, fd, lid, msg); return; // myid <lid>
-    case 'c': got_cutoff(d, fd, msg); return; // cutoff <location pattern>
+    case 'c': got_cutoff(d, msg); return; // cutoff <location pattern>
     case 'h': got_help(d, fd, lid); return;
     case 't': got_terminate(d, fd, lid); return;
     case 'q': got_quit(d, fd, lid); return;
@@ -1791,6 +1790,8 @@ InstData* new_inst_data(char* host, char* location)
     // announce capability to accept binary data? Defaults to yes, can be switched off
     char* str = getenv("LAIK_TCP2_BIN");
     d->accept_bin_data = str ? atoi(str) : 1;
+    d->cutoffs = 0;
+    d->cutoff = 0;
     d->kvs = 0;       // only set during tcp2_sync()
     d->kvs_changes = 0;
     d->kvs_received = 0;
@@ -2558,6 +2559,14 @@ void tcp2_make_progress()
     InstData* d = (InstData*)instance->backend_data;
     check_loop(d);
 
+    // replay cutoff commands which arrived during startup
+    for(int i = 0; i < d->cutoffs; i++) {
+        laik_log(1, "TCP2 make progress: replay cutoff '%s'", d->cutoff[i]);
+        got_cutoff(d, d->cutoff[i]);
+        free(d->cutoff[i]);
+    }
+    d->cutoffs = 0;
+
     // collect register requests into join list
     // make sure to do this only once: change state
     for(int fd = 0; fd < MAX_FDS; fd++) {
@@ -2566,14 +2575,6 @@ void tcp2_make_progress()
                 d->fds[fd].state = PS_RegReceived2;
                 laik_add_join_req(instance, &(d->fds[fd]));
                 break;
-            case PS_CutoffReceived:
-                // replay
-                laik_log(1, "TCP2 make progress: replay cutoff '%s' from FD %d",
-                        d->fds[fd].cmd, fd);
-                got_cutoff(d, fd, d->fds[fd].cmd);
-                free(d->fds[fd].cmd);
-                d->fds[fd].cmd = 0;
-                break;
             default:
                 break;
         }
-- 
2.43.0


From e936ff9bc5029d33cd136338ac1bb8f45bec346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:36 +0000
Subject: [PATCH 59/78] fix: TCP2 backend overflowed the world group of a
 joining process if others left

---
 src/backend-tcp2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 757dffa..14ba75c 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2080,10 +2080,10 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     laik_log(1, "TCP2 newcomer: added %d, old %d, remove %d (dead %d)",
              added, old, remove, d->deadPeers);
     assert(world_size == old + added);
-    world_size -= remove;
 
-    // create initial world group
+    // create initial world group, with space for mapping from parent
     Laik_Group* world = laik_create_group(instance, world_size);
+    world_size -= remove;
     world->size = world_size;
     if (old == 0) {
         // we are part of initial processes: no parent
-- 
2.43.0


From 53fa4a432b32ad177beefee3b35f4ca859c355a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:36 +0000
Subject: [PATCH 60/78] fix: TCP2 backend overflowed a buffer reporting a long
 queued command

---
 src/backend-tcp2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 14ba75c..e573500 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1117,7 +1117,7 @@ void got_status(InstData* d, int fd, int lid)
                 get_statestring(d->fds[i].state));
         send_cmd(d, lid, msg);
         if (d->fds[i].cmd) {
-            sprintf(msg, "#        queued for processing: '%s'", d->fds[i].cmd);
+            snprintf(msg, sizeof(msg), "#        queued for processing: '%s'", d->fds[i].cmd);
             send_cmd(d, lid, msg);
         }
     }
-- 
2.43.0


From d7c338339e7a67bc81003ae4ccf15d8daeb96ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 61/78] fix: locations were not synchronised correctly in a
 world which had grown

---
 include/laik/core-internal.h |  3 ++-
 src/core.c                   | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index ae3fdd6..8a5da1c 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -74,9 +74,10 @@ struct _Laik_Instance {
 
     // KV store for exchanging location information
     Laik_KVStore* locationStore;
-    // direct access to synchronized location strings (array of size <size>)
+    // direct access to synchronized location strings (array of <location_size>)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int location_size;
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 7352897..7bd454f 100644
--- a/src/core.c
+++ b/src/core.c
@@ -219,6 +219,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
 
     instance->locationStore = 0;
     instance->location = 0; // set at location sync
+    instance->location_size = 0;
 
     instance->spaceStore = 0;
 
@@ -706,16 +707,21 @@ void laik_sync_location(Laik_Instance *instance)
 {
     if (instance->locationStore == NULL) {
         instance->locationStore = laik_kvs_new("location", instance);
-        instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
-        assert(instance->location != 0);
-        for(int i = 0; i < instance->locations; i++)
-            instance->location[i] = 0;
-
         // register function to update direct access to location
         laik_kvs_reg_callbacks(instance->locationStore,
                                update_location, update_location, remove_location);
     }
 
+    // there may be more locations than at last synchronization
+    if (instance->location_size < instance->locations) {
+        instance->location = (char**) realloc(instance->location,
+                                              (unsigned)instance->locations * sizeof(char*));
+        assert(instance->location != 0);
+        for(int i = instance->location_size; i < instance->locations; i++)
+            instance->location[i] = 0;
+        instance->location_size = instance->locations;
+    }
+
     Laik_Group* world = laik_world(instance);
     char* mylocation = laik_mylocation(instance);
     int mylocationid = laik_group_locationid(world, laik_myid(world));
@@ -723,6 +729,8 @@ void laik_sync_location(Laik_Instance *instance)
     instance->location[mylocationid] = mylocation;
 
     char* myKey = locationkey(mylocationid);
+    // propagate even if not changed: processes may have joined
+    laik_kvs_remove(instance->locationStore, myKey);
     laik_kvs_sets(instance->locationStore, myKey, mylocation);
     laik_kvs_sync(instance->locationStore);
 }
@@ -735,6 +743,9 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    // joined after last synchronization?
+    if (lid >= group->inst->location_size)
+        return NULL;
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From c406e20a99db9f2eaee6dc3dcb6c5379dc70a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 62/78] fix: number of groups, growing with each resize, was
 limited to 50

---
 include/laik/core-internal.h |  3 ++-
 include/laik/definitions.h   |  2 +-
 src/core.c                   | 12 +++++++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 8a5da1c..dd54610 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -91,7 +91,8 @@ struct _Laik_Instance {
     Laik_Space* firstSpaceForInstance;
 
     int group_count, data_count, mapping_count;
-    Laik_Group* group[MAX_GROUPS];
+    int group_size; // allocated size of <group>
+    Laik_Group** group;
     Laik_Data* data[MAX_DATAS];
     Laik_Mapping* mapping[MAX_MAPPINGS]; // active mappings
 
diff --git a/include/laik/definitions.h b/include/laik/definitions.h
index 75b47c5..de13a61 100644
--- a/include/laik/definitions.h
+++ b/include/laik/definitions.h
@@ -18,7 +18,7 @@
 #ifndef LAIK_DEFINITIONS_H
 #define LAIK_DEFINITIONS_H
 
-#define MAX_GROUPS        50
+#define MAX_GROUPS        50 // initial size of list, enlarged on demand
 #define MAX_SPACES        10
 #define MAX_PARTITIONINGS 10
 #define MAX_DATAS         1000
diff --git a/src/core.c b/src/core.c
index 7bd454f..dafadb3 100644
--- a/src/core.c
+++ b/src/core.c
@@ -229,6 +229,8 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
     instance->firstSpaceForInstance = 0;
 
     instance->group_count = 0;
+    instance->group_size = 0;
+    instance->group = 0;
     instance->data_count = 0;
     instance->mapping_count = 0;
 
@@ -297,7 +299,15 @@ void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
 {
-    assert(i->group_count < MAX_GROUPS);
+    if (i->group_count == i->group_size) {
+        // enlarge: each resize of the world needs further groups
+        i->group_size = (i->group_size > 0) ? (2 * i->group_size) : MAX_GROUPS;
+        i->group = realloc(i->group, i->group_size * sizeof(Laik_Group*));
+        if (!i->group) {
+            laik_panic("Out of memory allocating group list");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
 
     Laik_Group* g;
 
-- 
2.43.0


From 75e0c383dc0da51a824786896078af8c05cb2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:28 +0000
Subject: [PATCH 63/78] fix: TCP2 backend failed to resize the world with phase
 -1

---
 src/backend-tcp2.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index e573500..f9a2b07 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -286,7 +286,8 @@ struct _InstData {
     int listenfd;     // file descriptor for listening to connections
     int listenport;   // port we listen at (random unless master)
     int maxid;        // highest seen id
-    int phase;        // current phase
+    int phase;        // current phase (any value valid)
+    bool got_phase;   // received phase from master?
     int epoch;        // current epoch
     bool accept_bin_data; // configured to accept binary data
 
@@ -1232,6 +1233,7 @@ void got_phase(InstData* d, char* msg)
     laik_log(1, "TCP2 got phase %d / epoch %d", phase, epoch);
     d->phase = phase;
     d->epoch = epoch;
+    d->got_phase = true;
 
     d->exit = 1;
 }
@@ -1785,6 +1787,7 @@ InstData* new_inst_data(char* host, char* location)
     d->listenfd = -1; // not bound yet
     d->maxid = -1;    // not set yet
     d->phase = -1;    // not set yet
+    d->got_phase = false;
     d->epoch = -1;    // not set yet
     d->mylid = -1;    // net yet determined
     // announce capability to accept binary data? Defaults to yes, can be switched off
@@ -1877,7 +1880,7 @@ int startup_non_master(InstData* d)
         run_loop(d);
 
     // wait for active phase
-    while(d->phase == -1)
+    while(!d->got_phase)
         run_loop(d);
 
     // LIDs without any info received actually are dead
@@ -2628,8 +2631,8 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
         send_cmd(d, 0, msg);
 
         // wait for master to finish resize phase
-        d->phase = -1;
-        while(d->phase != phase)
+        d->got_phase = false;
+        while(!d->got_phase || (d->phase != phase))
             run_loop(d);
 
         int added = 0, to_remove = 0;
-- 
2.43.0


From ba2563b44f7e00099b5f51559acef1fa232a7d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:58 +0000
Subject: [PATCH 64/78] fix: library of last loaded agent was not closed, and
 tenth agent lost

---
 src/external.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..aa74368 100644
--- a/src/external.c
+++ b/src/external.c
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -176,8 +176,8 @@ void laik_ext_loadagent (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
-- 
2.43.0


From dc9480d5407f341190949bc027ebc095e0d29154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:58 +0000
Subject: [PATCH 65/78] fix: loading more agents than supported overwrote the
 list of agents

---
 src/external.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/external.c b/src/external.c
index aa74368..6a603a8 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,10 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    if(ctrl->num_agents >= MAX_AGENTS){
+        laik_log(LAIK_LL_Error, "too many agents, not loading further one");
+        return;
+    }
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -169,7 +172,10 @@ void laik_ext_loadagent (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    if(ctrl->num_agents >= MAX_AGENTS){
+        laik_log(LAIK_LL_Error, "too many agents, not loading further one");
+        return;
+    }
 
     agent = init(argc, argv);
 
-- 
2.43.0


From a131e90cd7d7e92ef57c166302e46042b19782a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:58 +0000
Subject: [PATCH 66/78] fix: laik_ext_load_agent_from_function, declared in the
 API, was not defined

---
 src/external.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.c b/src/external.c
index 6a603a8..b3becc4 100644
--- a/src/external.c
+++ b/src/external.c
@@ -152,7 +152,7 @@ void laik_ext_load_agent_from_file (
  * @param  argv: arguments to pass to the agent
  * @retval None
  */
-void laik_ext_loadagent (
+void laik_ext_load_agent_from_function (
     Laik_Instance* instance,
     laik_agent_init init,
     int argc, 
-- 
2.43.0


From af246369a8307ca33eec9c06a2ba9ab74ecf2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:19 +0000
Subject: [PATCH 67/78] fix: laik_get_failed lost failures of all but the last
 agent reporting, and ignored the buffer size

---
 src/external.c | 56 ++++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/external.c b/src/external.c
index b3becc4..67a484f 100644
--- a/src/external.c
+++ b/src/external.c
@@ -231,15 +231,14 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
-    int i, n; //, count;
+    int i, n, count;
     assert(instance);    
     ctrl = instance->repart_ctrl;
     assert(ctrl);
     
 
-    //count = 0;
+    count = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
 
@@ -253,36 +252,35 @@ void laik_get_failed (
             if(!n){
                 continue;
             }
+            // Not enough space left? Keep for next call
+            if(count + n > max_failed){
+                continue;
+            }
 
             // Yes: (1) Get uids; (2) Map; (3) Create List
-            // (1) Get a list of node_uids
-
-
-            fta->getfail(num_failed, failed_ranks);
-
-            //printf("fta-> getfail: %d \n", *num_failed);
-            for(int k = 0 ; k < *num_failed; k++ )
-			{
-				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(failed_ranks + k)->uid, k);
-				fflush(stdout);
-			}
-
-            // (2) Map the failed nodes to ranks
-            //for(j=0;j<n;j++){
-                // Prevent Segmentation Fault
-                //assert(count < max_failed);
-
-                // Map node uid to laik id
-                //int id = laik_map_id(instance, &buffer[i]);
-                
-                // fill the whole list
-                //*failed_ranks[count] = id;
-             //   count++;
-           // }
-        }
-    }
+            // (1) Get a list of node_uids. There may be more than announced
+            int size = (n > MAX_FAILED_BUFFER) ? n : MAX_FAILED_BUFFER;
+            node_uid_t* buffer = (node_uid_t*) calloc(size, sizeof(node_uid_t));
+            if(!buffer){
+                laik_panic("Out of memory allocating list of failed nodes");
+                exit(1); // not actually needed, laik_panic never returns
+            }
+            n = 0;
+            fta->getfail(&n, buffer);
 
+            // (2) TODO: Map the failed nodes to ranks
 
+            // (3) append to list
+            for(int k = 0 ; k < n && count < max_failed; k++ )
+            {
+                laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n", buffer[k].uid, k);
+                failed_ranks[count] = buffer[k];
+                count++;
+            }
+            free(buffer);
+        }
+    }
+    *num_failed = count;
 }
 
 /** 
-- 
2.43.0


From 5af60c565e177b47c821648c8333a2b1e9ed2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 68/78] fix: simple agent wrote a failure to an undefined
 address

---
 external/simple/simple-agent.c | 7 +++----
 external/simple/simple-agent.h | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/external/simple/simple-agent.c b/external/simple/simple-agent.c
index 8fe8a8e..c3ea923 100644
--- a/external/simple/simple-agent.c
+++ b/external/simple/simple-agent.c
@@ -61,9 +61,9 @@ void sa_set_iter(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 ){
-    char* buf = (*l_failed[0]).uid;
+    char* buf = l_failed[0].uid;
 #ifdef __DEBUG__
     printf("Simple Agent: Get Failed, fail_iter = %d, aIter = %d\n", fail_iter, aIter);    
 #endif
@@ -114,8 +114,7 @@ Laik_Agent* agent_init(
     myBase->detach = sa_detach;
     myBase->reset = sa_reset;
 
-    // FIXME: the cast suppresses a warning: wrong types! (JW)
-    me->getfail = (laik_agent_get_failed) sa_getfailed;
+    me->getfail = sa_getfailed;
     me->peekfail = sa_peekfailed;
     me->setiter = sa_set_iter;
 #ifdef __DEBUG__
diff --git a/external/simple/simple-agent.h b/external/simple/simple-agent.h
index f11ab0b..ed07852 100644
--- a/external/simple/simple-agent.h
+++ b/external/simple/simple-agent.h
@@ -28,7 +28,7 @@ Laik_Agent* agent_init(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 );
 
 void sa_set_iter(
-- 
2.43.0


From 88f433cae1d55704949cc033cde982fb6e4747ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 69/78] fix: log messages with long parts or long words
 overflowed buffers

---
 src/logging.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 14e49a1..8eac359 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -223,7 +223,7 @@ void log_append(const char *format, va_list ap)
     // does it fit into buffer? (len is without terminating zero byte)
     if (len >= left) {
         int size = 2 * current_logSize;
-        if (size < len + 1) size = len + 1;
+        if (size < current_logPos + len + 1) size = current_logPos + len + 1;
         current_logBuffer = realloc(current_logBuffer, size);
         current_logSize = size;
         // printf("Enlarging log buffer to %d bytes ...\n", size);
@@ -279,8 +279,16 @@ void log_flush()
     counter++;
 
 #define LINE_LEN 100
-    // enough for prefix plus one line of log message
-    static char buf2[150 + LINE_LEN];
+    // enough for prefix plus one line of log message (with LINE_LEN characters
+    // or more if there is a longer word, also plus indent)
+    static char* buf2 = 0;
+    static int buf2_size = 0;
+    int needed = 150 + LINE_LEN + 2 * current_logPos;
+    if (buf2_size < needed) {
+        buf2 = realloc(buf2, needed);
+        assert(buf2); // cannot call laik_panic
+        buf2_size = needed;
+    }
     int off1 = 0, off, off2;
 
     char* buf1 = current_logBuffer;
@@ -357,7 +365,7 @@ void log_flush()
         off2 += sprintf(buf2+off2, "%s\n", buf1 + off1);
         off1 = off;
 
-        assert(off2 < 150 + LINE_LEN);
+        assert(off2 < buf2_size);
 
         // TODO: allow to go to debug file
         fprintf(stderr, "%s", buf2);
-- 
2.43.0


From 6599399eb05ce45df6db015a122a3fed14956a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 70/78] fix: guid was uninitialised with the single and TCP2
 backends

---
 src/core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core.c b/src/core.c
index dafadb3..bcb2d03 100644
--- a/src/core.c
+++ b/src/core.c
@@ -213,6 +213,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
     instance->locations = size;    // initial number of locations
     instance->mylocationid = myid; // initially, myid is my locationid
     instance->mylocation = strdup(location);
+    sprintf(instance->guid, "%d", myid); // default, may be changed by backend
     instance->world = 0;           // still invalid, gets set by backend
 
     instance->resizeRequests = 0;
-- 
2.43.0


From 4182a32c6f4502828fed3a5be5f8c99fb45d13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 71/78] fix: file mode of profiling was ignored if profiling
 was already enabled, and crashed without file

---
 src/profiling.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/profiling.c b/src/profiling.c
index 48502c4..205aba4 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -175,7 +175,8 @@ void laik_profile_user_stop(Laik_Instance* i)
 void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
 {
     if (laik_profinst) {
-        if (laik_profinst == i) return;
+        // already in output-to-file mode?
+        if ((laik_profinst == i) && i->profiling->profile_file) return;
         laik_profinst->profiling->do_profiling = false;
     }
 
@@ -185,10 +186,12 @@ void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
     i->profiling->do_profiling = true;
     i->profiling->time_backend = 0.0;
     i->profiling->time_total = 0.0;
+    i->profiling->time_user = 0.0;
     snprintf(i->profiling->filename, MAX_FILENAME_LENGTH, "t%s.%s", i->guid, filename);
     i->profiling->profile_file = fopen(filename, "a+");
     if (i->profiling->profile_file == NULL) {
         laik_log(LAIK_LL_Error, "Unable to start file based profiling");
+        return;
     }
 
     fprintf((FILE*)i->profiling->profile_file, "======MEASUREMENT START AT: %lu======\n", 
@@ -249,7 +252,7 @@ void laik_close_profiling_file(Laik_Instance* i)
 // print arbitrary text to file in output-to-file mode
 void laik_profile_printf(const char* msg, ...)
 {
-    if (laik_profinst->profiling->profile_file) {
+    if (laik_profinst && laik_profinst->profiling->profile_file) {
         va_list args;
         va_start(args, msg);
         vfprintf((FILE*)laik_profinst->profiling->profile_file, msg, args);
-- 
2.43.0


From a2bbccfcd82fac61dc35fe1a5a30ba27b85c032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:59 +0000
Subject: [PATCH 72/78] fix: LAIK total time was never measured, and KVS
 synchronization missing in backend time

---
 include/laik/profiling-internal.h |  7 +++++++
 src/data.c                        | 13 +++++++++++++
 src/kvs.c                         |  4 ++++
 src/profiling.c                   | 28 ++++++++++++++++++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/include/laik/profiling-internal.h b/include/laik/profiling-internal.h
index 6fa8fb2..88e3398 100644
--- a/include/laik/profiling-internal.h
+++ b/include/laik/profiling-internal.h
@@ -21,6 +21,7 @@
 
 #include <stdbool.h>      // for bool
 #include "definitions.h"  // for MAX_FILENAME_LENGTH
+#include "core.h"         // for Laik_Instance
 
 struct _Laik_Profiling_Controller
 {
@@ -36,4 +37,10 @@ struct _Laik_Profiling_Controller
     void* profile_file;
 };
 
+// called around time spans to be added to LAIK total time / backend time
+void laik_profiling_total_start(Laik_Instance* i);
+void laik_profiling_total_stop(Laik_Instance* i);
+void laik_profiling_backend_start(Laik_Instance* i);
+void laik_profiling_backend_stop(Laik_Instance* i);
+
 #endif // LAIK_PROFILING_INTERNAL
diff --git a/src/data.c b/src/data.c
index c81be73..51f4d8b 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1223,6 +1223,8 @@ void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
         laik_log_flush(" on data '%s'", d->name);
     }
 
+    laik_profiling_total_start(d->space->inst);
+
     // we only can execute transtion if start state in transition is correct
     if (d->activePartitioning != t->fromPartitioning) {
         laik_panic("laik_exec_transition starts in wrong partitioning!");
@@ -1235,6 +1237,8 @@ void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    laik_profiling_total_stop(d->space->inst);
 }
 
 Laik_ActionSeq* laik_calc_actions(Laik_Data* d,
@@ -1295,6 +1299,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
         laik_log_flush(" on data '%s'", d->name);
     }
 
+    laik_profiling_total_start(d->space->inst);
+
     // we only can execute transtion if start state in transition is correct
     if (d->activePartitioning != t->fromPartitioning) {
         laik_panic("laik_exec_actions starts in wrong partitioning!");
@@ -1326,6 +1332,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    laik_profiling_total_stop(d->space->inst);
 }
 
 
@@ -1334,6 +1342,8 @@ void laik_switchto_partitioning(Laik_Data* d,
                                 Laik_Partitioning* toP, Laik_DataFlow flow,
                                 Laik_ReductionOperation redOp)
 {
+    laik_profiling_total_start(d->space->inst);
+
     // calculate actions to be done for switching
 
     Laik_Group *toGroup = 0, *fromGroup = 0, *commonGroup = 0;
@@ -1350,6 +1360,7 @@ void laik_switchto_partitioning(Laik_Data* d,
     else {
         if (!toP) {
             // nothing to switch from/to
+            laik_profiling_total_stop(d->space->inst);
             return;
         }
     }
@@ -1370,6 +1381,8 @@ void laik_switchto_partitioning(Laik_Data* d,
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
+
+    laik_profiling_total_stop(d->space->inst);
 }
 
 
diff --git a/src/kvs.c b/src/kvs.c
index a721dfc..4990854 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -491,9 +491,12 @@ void laik_kvs_sync(Laik_KVStore* kvs)
 
     laik_log(1, "sync KVS '%s' (progagating %d/%d entries) ...",
              kvs->name, kvs->changes.offUsed / 2, kvs->used);
+    laik_profiling_total_start(kvs->inst);
+    laik_profiling_backend_start(kvs->inst);
     kvs->in_sync = true;
     (b->sync)(kvs);
     kvs->in_sync = false;
+    laik_profiling_backend_stop(kvs->inst);
 
     // all queued entries sent, remove
     laik_kvs_changes_set_size(&(kvs->changes), 0, 0);
@@ -504,6 +507,7 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     laik_log(1, "  sync done (now %d entries).", kvs->used);
 
     laik_kvs_sort(kvs);
+    laik_profiling_total_stop(kvs->inst);
 }
 
 Laik_KVS_Entry* laik_kvs_entry(Laik_KVStore* kvs, char* key)
diff --git a/src/profiling.c b/src/profiling.c
index 205aba4..7fbd558 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -141,6 +141,34 @@ void laik_reset_profiling(Laik_Instance* i)
     }
 }
 
+// called when entering a function covered by LAIK total time
+void laik_profiling_total_start(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->timer_total = laik_wtime();
+}
+
+// called when leaving a function covered by LAIK total time
+void laik_profiling_total_stop(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->time_total += laik_wtime() - i->profiling->timer_total;
+}
+
+// called before calling into backend
+void laik_profiling_backend_start(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->timer_backend = laik_wtime();
+}
+
+// called after return from backend
+void laik_profiling_backend_stop(Laik_Instance* i)
+{
+    if (i->profiling->do_profiling)
+        i->profiling->time_backend += laik_wtime() - i->profiling->timer_backend;
+}
+
 // start user-time measurement
 void laik_profile_user_start(Laik_Instance* i)
 {
-- 
2.43.0


From cec7ebb4f2aab3534dab044727f3e9150045e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:04 +0000
Subject: [PATCH 73/78] fix: TCP backend supported reducing sums only, others
 ended in a panic

Similarly to the MPI backend, and/or have to be done bitwise, as the reduce
functions of types do.
---
 src/backends/tcp/backend-tcp.c |  4 +-
 src/backends/tcp/minimpi.c     | 77 ++++++++++++++++++++--------------
 src/backends/tcp/minimpi.h     |  2 +
 src/backends/tcp/mpi.h         |  2 +
 4 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index 96ab596..f8916f0 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -281,8 +281,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index f2eb846..624193c 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -165,40 +165,55 @@ static void laik_tcp_minimpi_combine (void* buffer, const void* data, const size
     laik_tcp_always (data);
     laik_tcp_always (errors);
 
-    switch (op) {
-        case LAIK_TCP_MINIMPI_SUM:
-        switch (datatype) {
-
-#define do_sum(TYPE) TYPE* b = buffer; \
-                     const TYPE* d = data; \
-                     for (size_t i = 0; i < elements; i++) \
-                         b[i] += d[i];
-
-            case LAIK_TCP_MINIMPI_DOUBLE: { do_sum(double)   } break;
-            case LAIK_TCP_MINIMPI_FLOAT:  { do_sum(float)    } break;
-            case LAIK_TCP_MINIMPI_INT64:  { do_sum(int64_t)  } break;
-            case LAIK_TCP_MINIMPI_INT32:  { do_sum(int32_t)  } break;
-            case LAIK_TCP_MINIMPI_INT8:   { do_sum(int8_t)   } break;
-            case LAIK_TCP_MINIMPI_UINT64: { do_sum(uint64_t) } break;
-            case LAIK_TCP_MINIMPI_UINT32: { do_sum(uint32_t) } break;
-            case LAIK_TCP_MINIMPI_UINT8:  { do_sum(uint8_t)  } break;
-#undef do_sum
-            default:
-                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
-                    break;
-            }
-            break;
-        case LAIK_TCP_MINIMPI_PROD:
-        case LAIK_TCP_MINIMPI_MIN:
-        case LAIK_TCP_MINIMPI_MAX:
-        case LAIK_TCP_MINIMPI_LAND:
-        case LAIK_TCP_MINIMPI_LOR:
-            laik_tcp_errors_push (errors, __func__, 1, "Unimplemented MPI operation %d", op);
-            break;
+// combine all elements, with <x> from <buffer>, and <y> from <data>
+#define do_loop(TYPE, RESULT) { TYPE* b = buffer; \
+                                const TYPE* d = data; \
+                                for (size_t i = 0; i < elements; i++) { \
+                                    const TYPE x = b[i]; \
+                                    const TYPE y = d[i]; \
+                                    b[i] = RESULT; \
+                                } } break;
+
+// operations supported for all types
+#define do_common(TYPE) case LAIK_TCP_MINIMPI_SUM:  do_loop (TYPE, x + y) \
+                        case LAIK_TCP_MINIMPI_PROD: do_loop (TYPE, x * y) \
+                        case LAIK_TCP_MINIMPI_MIN:  do_loop (TYPE, y < x ? y : x) \
+                        case LAIK_TCP_MINIMPI_MAX:  do_loop (TYPE, y > x ? y : x) \
+                        case LAIK_TCP_MINIMPI_LAND: do_loop (TYPE, x && y) \
+                        case LAIK_TCP_MINIMPI_LOR:  do_loop (TYPE, x || y)
+
+#define do_float(TYPE) switch (op) { \
+                           do_common (TYPE) \
+                           default: \
+                               laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d", op); \
+                       } break;
+
+#define do_int(TYPE) switch (op) { \
+                         do_common (TYPE) \
+                         case LAIK_TCP_MINIMPI_BAND: do_loop (TYPE, x & y) \
+                         case LAIK_TCP_MINIMPI_BOR:  do_loop (TYPE, x | y) \
+                         default: \
+                             laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d", op); \
+                     } break;
+
+    switch (datatype) {
+        case LAIK_TCP_MINIMPI_DOUBLE: do_float (double)
+        case LAIK_TCP_MINIMPI_FLOAT:  do_float (float)
+        case LAIK_TCP_MINIMPI_INT64:  do_int (int64_t)
+        case LAIK_TCP_MINIMPI_INT32:  do_int (int32_t)
+        case LAIK_TCP_MINIMPI_INT8:   do_int (int8_t)
+        case LAIK_TCP_MINIMPI_UINT64: do_int (uint64_t)
+        case LAIK_TCP_MINIMPI_UINT32: do_int (uint32_t)
+        case LAIK_TCP_MINIMPI_UINT8:  do_int (uint8_t)
         default:
-            laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d", op);
+            laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
             break;
     }
+
+#undef do_loop
+#undef do_common
+#undef do_float
+#undef do_int
 }
 
 static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unused)) Laik_Tcp_Errors* errors) {
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index 48c08ca..b54eceb 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -37,6 +37,8 @@ typedef enum {
     LAIK_TCP_MINIMPI_MAX,
     LAIK_TCP_MINIMPI_LAND,
     LAIK_TCP_MINIMPI_LOR,
+    LAIK_TCP_MINIMPI_BAND,
+    LAIK_TCP_MINIMPI_BOR,
 } Laik_Tcp_MiniMpiOp;
 
 typedef size_t Laik_Tcp_MiniMpiStatus;
diff --git a/src/backends/tcp/mpi.h b/src/backends/tcp/mpi.h
index 485cdeb..8c0b823 100644
--- a/src/backends/tcp/mpi.h
+++ b/src/backends/tcp/mpi.h
@@ -37,6 +37,8 @@ typedef Laik_Tcp_MiniMpiType MPI_Datatype;
 #define MPI_MAX  LAIK_TCP_MINIMPI_MAX
 #define MPI_LAND LAIK_TCP_MINIMPI_LAND
 #define MPI_LOR  LAIK_TCP_MINIMPI_LOR
+#define MPI_BAND LAIK_TCP_MINIMPI_BAND
+#define MPI_BOR  LAIK_TCP_MINIMPI_BOR
 typedef Laik_Tcp_MiniMpiOp MPI_Op;
 
 typedef Laik_Tcp_MiniMpiStatus MPI_Status;
-- 
2.43.0


From 64eaa0b5c01a7babc66ed7ac324abd6579b85396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:31 +0000
Subject: [PATCH 74/78] fix: mini-MPI split ordered tasks with same hint
 differently in each task, and large hints wrongly

---
 src/backends/tcp/minimpi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 624193c..ac863ec 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -139,7 +139,11 @@ static int laik_tcp_split_compare (const void* a, const void* b) {
     const Laik_Tcp_Split* x = a;
     const Laik_Tcp_Split* y = b;
 
-    return x->hint - y->hint;
+    // Order by hint, with same hint by rank in the old communicator
+    if (x->hint != y->hint) {
+        return x->hint < y->hint ? -1 : 1;
+    }
+    return x->rank < y->rank ? -1 : (x->rank > y->rank);
 }
 
 static size_t laik_tcp_minimpi_sizeof (const Laik_Tcp_MiniMpiType datatype, Laik_Tcp_Errors* errors) {
-- 
2.43.0


From 5cb54702f33a49ed9fc891e9e2d2f0afee8228b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:31 +0000
Subject: [PATCH 75/78] fix: messages of different communicators split from the
 same one were mixed up in mini-MPI

All were identified by the distance to the world communicator. With
the TCP backend, using two groups derived from the same group resulted in hangs.
---
 src/backends/tcp/minimpi.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index ac863ec..74015c9 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -36,13 +36,14 @@
 struct Laik_Tcp_MiniMpiComm {
     GArray*  tasks;      // Mapping from per-communicator ranks to world ranks
     size_t   rank;       // Our own rank in this communicator
-    size_t   generation; // The number of generations to the world communicator
+    size_t   generation; // Number of this communicator, different for all communicators we are part of
 };
 
 typedef struct __attribute__ ((packed)) {
     int64_t  color;
     int64_t  hint;
     uint64_t rank;
+    uint64_t generation;
 } Laik_Tcp_Split;
 
 typedef enum {
@@ -63,6 +64,7 @@ typedef struct {
 
 static GHashTable*         flows     = NULL;
 static Laik_Tcp_Messenger* messenger = NULL;
+static size_t              last      = 0;    // The last generation number we used
 
 // Internal functions
 
@@ -372,9 +374,8 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 int laik_tcp_minimpi_comm_dup (const Laik_Tcp_MiniMpiComm* comm, Laik_Tcp_MiniMpiComm** new_communicator) {
     laik_tcp_always (comm);
 
-    *new_communicator = laik_tcp_minimpi_new (g_array_ref (comm->tasks), comm->rank, comm->generation + 1);
-
-    return LAIK_TCP_MINIMPI_SUCCESS;
+    // All tasks have to agree on the generation number of the new communicator
+    return laik_tcp_minimpi_comm_split (comm, 0, comm->rank, new_communicator);
 }
 
 // https://www.mpich.org/static/docs/v3.2/www3/MPI_Comm_rank.html
@@ -406,9 +407,10 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
 
     // Create our own split info structure
     const Laik_Tcp_Split split = {
-        .color = color,
-        .hint  = hint,
-        .rank  = comm->rank,
+        .color      = color,
+        .hint       = hint,
+        .rank       = comm->rank,
+        .generation = last + 1,
     };
 
     // Create a serialized version of our split info structure
@@ -495,10 +497,17 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
     // Initialize our new rank with something invalid
     size_t new_local_rank = SIZE_MAX;
 
+    // All tasks use the largest generation number proposed
+    size_t generation = 0;
+
     // Iterate over all the split info structures
     for (size_t i = 0; i < splits->len; i++) {
         const Laik_Tcp_Split split = g_array_index (splits, Laik_Tcp_Split, i);
 
+        if (split.generation > generation) {
+            generation = split.generation;
+        }
+
         // If we have reached our own split info, we have found our new rank
         if (split.rank == comm->rank) {
             new_local_rank = tasks->len;
@@ -515,7 +524,8 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
     laik_tcp_always (new_local_rank < tasks->len);
 
     // Construct the new communicator
-    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, comm->generation + 1);
+    last = generation;
+    *new_communicator = laik_tcp_minimpi_new (g_steal_pointer (&tasks), new_local_rank, generation);
 
     return LAIK_TCP_MINIMPI_SUCCESS;
 }
@@ -651,7 +661,8 @@ int laik_tcp_minimpi_init (int* argc, char*** argv) {
     for (size_t i = 0; i < config->addresses->len; i++) {
         g_array_append_vals (tasks, &i, 1);
     }
-    LAIK_TCP_MINIMPI_COMM_WORLD = laik_tcp_minimpi_new (g_steal_pointer (&tasks), rank, 0);
+    last = 0;
+    LAIK_TCP_MINIMPI_COMM_WORLD = laik_tcp_minimpi_new (g_steal_pointer (&tasks), rank, last);
 
     // Return success
     return LAIK_TCP_MINIMPI_SUCCESS;
-- 
2.43.0


From 12c2502050275a103faf37a373bedb1dc03f1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:18 +0000
Subject: [PATCH 76/78] fix: name of processor in mini-MPI depended on previous
 contents of buffer

---
 src/backends/tcp/minimpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 74015c9..a89073a 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -593,7 +593,7 @@ int laik_tcp_minimpi_get_processor_name (char* name, int* result_length) {
     g_autoptr (Laik_Tcp_Errors) errors = laik_tcp_errors_new ();
 
     char hostname[1024];
-    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (name, sizeof (hostname)) == sizeof (hostname)) {
+    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (hostname, sizeof (hostname)) == sizeof (hostname)) {
         laik_tcp_errors_push (errors, __func__, 0, "Failed to determine hostname");
         return laik_tcp_minimpi_error (errors);
     }
-- 
2.43.0


From ee121113e96150d48a7a55436f97b714603bc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:18 +0000
Subject: [PATCH 77/78] fix: TCP backend lost messages or waited forever when
 signals interrupted waiting

---
 src/backends/tcp/map.c         |  6 +++++-
 src/backends/tcp/socket.c      | 11 ++++++++++-
 src/backends/tcp/socketqueue.c |  3 ++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/backends/tcp/map.c b/src/backends/tcp/map.c
index 088a42a..65d5eaf 100644
--- a/src/backends/tcp/map.c
+++ b/src/backends/tcp/map.c
@@ -23,6 +23,7 @@
 #include "condition.h"  // for laik_tcp_condition_broadcast, laik_tcp_condit...
 #include "debug.h"      // for laik_tcp_always, laik_tcp_debug
 #include "lock.h"       // for laik_tcp_lock_new, LAIK_TCP_LOCK, laik_tcp_lo...
+#include "time.h"       // for laik_tcp_time
 
 struct Laik_Tcp_Map {
     Laik_Tcp_Condition* condition;
@@ -136,8 +137,11 @@ GBytes* laik_tcp_map_get (Laik_Tcp_Map* this, const GBytes* key, const double se
 
     GBytes* value = NULL;
 
+    // Waking up for another key or because of a signal must not start the time limit again
+    const double deadline = laik_tcp_time () + seconds;
+
     while (!g_hash_table_lookup_extended (this->hash, key, NULL, (void**) &value)) {
-        if (!laik_tcp_condition_wait_seconds (this->condition, this->lock, seconds)) {
+        if (!laik_tcp_condition_wait_seconds (this->condition, this->lock, deadline - laik_tcp_time ())) {
             return NULL;
         }
     }
diff --git a/src/backends/tcp/socket.c b/src/backends/tcp/socket.c
index f3721fa..5a00cd0 100644
--- a/src/backends/tcp/socket.c
+++ b/src/backends/tcp/socket.c
@@ -396,5 +396,14 @@ bool laik_tcp_socket_wait (Laik_Tcp_Socket* this, const short events, const doub
 
     struct pollfd pollfd = laik_tcp_socket_get_pollfd (this, events);
 
-    return poll (&pollfd, 1, seconds * 1000) == 1;
+    const gint64 deadline = g_get_monotonic_time () + (gint64) (seconds * G_USEC_PER_SEC);
+    int remaining = seconds * 1000;
+    int result;
+
+    // Being interrupted by a signal handler is no failure, so go on waiting
+    while ((result = poll (&pollfd, 1, remaining)) < 0 && errno == EINTR) {
+        remaining = MAX (deadline - g_get_monotonic_time (), 0) / 1000;
+    }
+
+    return result == 1;
 }
diff --git a/src/backends/tcp/socketqueue.c b/src/backends/tcp/socketqueue.c
index 855332e..2f78f59 100644
--- a/src/backends/tcp/socketqueue.c
+++ b/src/backends/tcp/socketqueue.c
@@ -16,6 +16,7 @@
  */
 
 #include "socketqueue.h"
+#include <errno.h>       // for errno, EINTR
 #include <glib.h>        // for GPtrArray, GArray, g_array_new, g_array_remo...
 #include <poll.h>        // for pollfd, poll, POLLIN, POLLNVAL
 #include <stdbool.h>     // for false, true
@@ -121,7 +122,7 @@ Laik_Tcp_Socket* laik_tcp_socket_queue_pop (Laik_Tcp_SocketQueue* this) {
 
         // No luck yet, do a poll(2) call to block until there is an event
         __attribute__ ((unused)) int ready = poll ((struct pollfd*) this->pollfds->data, this->pollfds->len, -1);
-        laik_tcp_always (ready >= 1);
+        laik_tcp_always (ready >= 1 || errno == EINTR);
     }
 }
 
-- 
2.43.0


From c2ad69c523c952ed93049d5d9b6af8a9e9004971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:39 +0000
Subject: [PATCH 78/78] fix: TCP backend failed at the end if a message was
 fetched while its synchronous sending failed

---
 src/backends/tcp/map.c       | 19 ++++++++++++++++++-
 src/backends/tcp/map.h       |  3 +++
 src/backends/tcp/messenger.c |  9 ++++-----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/backends/tcp/map.c b/src/backends/tcp/map.c
index 65d5eaf..4084498 100644
--- a/src/backends/tcp/map.c
+++ b/src/backends/tcp/map.c
@@ -30,6 +30,7 @@ struct Laik_Tcp_Map {
     Laik_Tcp_Lock*      lock;
 
     GHashTable* hash;
+    GHashTable* discarded;
 
     size_t size;
     size_t limit;
@@ -91,7 +92,8 @@ void laik_tcp_map_discard (Laik_Tcp_Map* this, GBytes* key) {
     laik_tcp_debug ("Discarding key 0x%08X", g_bytes_hash (key));
 
     if (this->limit == SIZE_MAX) {
-        laik_tcp_debug ("Mapping may grow to infinite size, aborting");
+        laik_tcp_debug ("Mapping may grow to infinite size, keeping the value");
+        g_hash_table_add (this->discarded, g_bytes_ref (key));
         return;
     }
 
@@ -109,6 +111,17 @@ void laik_tcp_map_discard (Laik_Tcp_Map* this, GBytes* key) {
     laik_tcp_condition_broadcast (this->condition);
 }
 
+bool laik_tcp_map_discarded (Laik_Tcp_Map* this, GBytes* key) {
+    laik_tcp_always (this);
+    laik_tcp_always (key);
+
+    LAIK_TCP_LOCK (this->lock);
+
+    // The value may be kept if the mapping has no limit, so look for both
+    void* value = NULL;
+    return g_hash_table_contains (this->discarded, key) || (g_hash_table_lookup_extended (this->hash, key, NULL, &value) && !value);
+}
+
 void laik_tcp_map_free (Laik_Tcp_Map* this) {
     if (!this) {
         return;
@@ -122,6 +135,7 @@ void laik_tcp_map_free (Laik_Tcp_Map* this) {
 
     // Free the hash tables
     g_hash_table_unref (this->hash);
+    g_hash_table_unref (this->discarded);
 
     // Free ourself
     g_free (this);
@@ -162,6 +176,9 @@ Laik_Tcp_Map* laik_tcp_map_new (size_t limit) {
         // Create the hash table for the mapping
         .hash = g_hash_table_new_full (g_bytes_hash, g_bytes_equal, laik_tcp_map_destroy, laik_tcp_map_destroy),
 
+        // Create the set of all keys discarded while their values are kept
+        .discarded = g_hash_table_new_full (g_bytes_hash, g_bytes_equal, laik_tcp_map_destroy, NULL),
+
         // Set up the initial and maximum value for the total size of all mappings
         .size  = 0,
         .limit = limit,
diff --git a/src/backends/tcp/map.h b/src/backends/tcp/map.h
index 9ef1092..2044991 100644
--- a/src/backends/tcp/map.h
+++ b/src/backends/tcp/map.h
@@ -32,6 +32,9 @@ G_DEFINE_AUTOPTR_CLEANUP_FUNC (Laik_Tcp_Map, laik_tcp_map_free)
 
 void laik_tcp_map_discard (Laik_Tcp_Map* this, GBytes* key);
 
+__attribute__ ((warn_unused_result))
+bool laik_tcp_map_discarded (Laik_Tcp_Map* this, GBytes* key);
+
 __attribute__ ((warn_unused_result))
 GBytes* laik_tcp_map_get (Laik_Tcp_Map* this, const GBytes* key, double seconds);
 
diff --git a/src/backends/tcp/messenger.c b/src/backends/tcp/messenger.c
index 8eaf59c..9c10300 100644
--- a/src/backends/tcp/messenger.c
+++ b/src/backends/tcp/messenger.c
@@ -292,11 +292,10 @@ void laik_tcp_messenger_send (Laik_Tcp_Messenger* this, size_t receiver, GBytes*
             return;
         }
 
-        // Next, check if the message is still available in the outbox, since it
-        // may also have been requested by the recipient with a GET and
-        // subsequently discarded. If so, we can also return.
-        g_autoptr (GBytes) stored = laik_tcp_map_get (this->outbox, header, 0);
-        if (!stored) {
+        // Next, check if the message may also have been requested by the
+        // recipient with a GET and subsequently discarded from the outbox. If
+        // so, we can also return.
+        if (laik_tcp_map_discarded (this->outbox, header)) {
             return;
         }
 
-- 
2.43.0

