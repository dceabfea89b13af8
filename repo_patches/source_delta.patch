From 12db6ddc862534483c0a66cfdd73ef8b9db76464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 01/45] fix: merging ranges of a partitioning without any range
 aborted

---
 src/rangelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..dd9b942 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -410,8 +410,9 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
+    // nothing to merge? (there may be no ranges reported at all)
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From e0f9e99ca938346b4910425525ead4e2f89cee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 02/45] fix: ranges with negative tags got invalid map numbers
 or were sorted wrongly

---
 src/rangelist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index dd9b942..580c93e 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -377,7 +377,8 @@ static int trgen_cmp(const void *p1, const void *p2)
             if (ts1->range.from.i[0] == ts2->range.from.i[0]) return 0;
             return -1;
         }
-        return ts1->tag - ts2->tag;
+        // do not use difference, may overflow
+        return (ts1->tag > ts2->tag) ? 1 : -1;
     }
     return ts1->task - ts2->task;
 }
@@ -462,7 +463,7 @@ static void updateOffsets(Laik_RangeList* list)
             Laik_TaskRange_Gen* ts = &(list->trange[off]);
             if (ts->task > task) break;
             assert(ts->task == task);
-            if ((ts->tag == 0) || (ts->tag != lastTag)) {
+            if ((mapNo < 0) || (ts->tag == 0) || (ts->tag != lastTag)) {
                 mapNo++;
                 lastTag = ts->tag;
             }
-- 
2.43.0


From aa178cedf51392fcc36d36fac2af38acabc357ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 03/45] fix: coverage check aborted with more than 100
 uncovered ranges

---
 src/rangelist.c | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 580c93e..4f3494f 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -163,15 +163,24 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 // print verbose debug output?
 //#define DEBUG_COVERSPACE 1
 
-// TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
-static int notcovered_count;
+// dynamic list, grows on demand and is kept for next coverage check
+static Laik_Range* notcovered = 0;
+static int notcovered_count = 0;
+static int notcovered_capacity = 0;
 
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
-    notcovered[notcovered_count] = *s;
+    Laik_Range r = *s; // <s> may point into list, which may be moved
+    if (notcovered_count == notcovered_capacity) {
+        notcovered_capacity = (notcovered_capacity + 50) * 2;
+        notcovered = realloc(notcovered,
+                             sizeof(Laik_Range) * notcovered_capacity);
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
+    notcovered[notcovered_count] = r;
     notcovered_count++;
 }
 
@@ -246,11 +255,11 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
 
         int count = notcovered_count; // number of ranges to visit
         for(int j = 0; j < count; j++) {
-            Laik_Range* orig = &(notcovered[j]);
+            Laik_Range orig = notcovered[j];
 
-            if (laik_range_intersect(orig, toRemove) == 0) {
+            if (laik_range_intersect(&orig, toRemove) == 0) {
                 // range to remove does not overlap with orig: keep original
-                appendToNotcovered(orig);
+                appendToNotcovered(&orig);
                 continue;
             }
 
@@ -259,21 +268,21 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
             // check for space not covered in orig, loop through valid dims
             for(int d = 0; d < dims; d++) {
                 // space in dim <d> before <toRemove> ?
-                if (orig->from.i[d] < toRemove->from.i[d]) {
+                if (orig.from.i[d] < toRemove->from.i[d]) {
                     // yes, add to not-covered
-                    Laik_Range s = *orig;
+                    Laik_Range s = orig;
                     s.to.i[d] = toRemove->from.i[d];
                     appendToNotcovered(&s);
                     // remove appended part from <orig>
-                    orig->from.i[d] = toRemove->from.i[d];
+                    orig.from.i[d] = toRemove->from.i[d];
                 }
                 // space in dim <d> after <toRemove> ?
-                if (orig->to.i[d] > toRemove->to.i[d]) {
-                    Laik_Range s = *orig;
+                if (orig.to.i[d] > toRemove->to.i[d]) {
+                    Laik_Range s = orig;
                     s.from.i[d] = toRemove->to.i[d];
                     appendToNotcovered(&s);
                     // remove appended part from <orig>
-                    orig->to.i[d] = toRemove->to.i[d];
+                    orig.to.i[d] = toRemove->to.i[d];
                 }
             }
         }
-- 
2.43.0


From 9eaebf95c90ae163ba3c3e3b85826407e1323069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 04/45] fix: map offsets of a range list were stale after
 migration to another group

---
 src/rangelist.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rangelist.c b/src/rangelist.c
index 4f3494f..cc43423 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -691,6 +691,12 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
             assert(list->off[i] == list->off[i+1]);
     }
 
+    // task ids change: map offsets need to be calculated again
+    list->map_tid = -1;
+    list->map_count = 0;
+    free(list->map_off);
+    list->map_off = 0;
+
     // update range task ids
     for(unsigned int i = 0; i < list->count; i++) {
         int old_id = list->trange[i].task;
-- 
2.43.0


From ebbdc11393aa23582c6f57afaa103ad44ab5402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 05/45] fix: halo partitioner dropped halos of ranges near the
 space border

---
 src/partitioner.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..b2b687d 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,55 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From 1d6aa9a852bf57503d6bc48ae2ce7959631c1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 06/45] fix: bisection partitioner aborted with more tasks than
 indexes

---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index b2b687d..7e46e37 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -422,7 +422,8 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     Laik_Range s1 = *s, s2 = *s;
     s1.to.i[splitDim] = s->from.i[splitDim] + w;
     s2.from.i[splitDim] = s->from.i[splitDim] + w;
-    doBisection(r, p, &s1, fromTask, midTask);
+    if (w > 0) // with more tasks than indexes, the first tasks may get nothing
+        doBisection(r, p, &s1, fromTask, midTask);
     doBisection(r, p, &s2, midTask, toTask);
 }
 
-- 
2.43.0


From 8cbf6897fc89dea72204c243a59e0e577312c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 07/45] fix: block partitioner aborted if not every task gets
 indexes

---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 7e46e37..6de1464 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -629,7 +629,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // remaining indexes go to current task. This may not be the last one,
+    // e.g. with more tasks than indexes
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 382125d84c79c3314d09eef061e8f54025c74f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 08/45] fix: grid partitioner could lose the last indexes by
 rounding

---
 src/partitioner.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 6de1464..9b4fbd4 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -458,9 +458,9 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     assert(p->group->size >= blocks);
 
     Laik_Range* ss = &(p->space->range);
-    double xStep = (ss->to.i[0] - ss->from.i[0]) / (double) data->xblocks;
-    double yStep = (ss->to.i[1] - ss->from.i[1]) / (double) data->yblocks;
-    double zStep = (ss->to.i[2] - ss->from.i[2]) / (double) data->zblocks;
+    int64_t xWidth = ss->to.i[0] - ss->from.i[0];
+    int64_t yWidth = ss->to.i[1] - ss->from.i[1];
+    int64_t zWidth = ss->to.i[2] - ss->from.i[2];
 
     Laik_Range range;
     int64_t from, to;
@@ -468,26 +468,23 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     range.space = p->space;
     int task = 0;
     for(int z = 0; z < data->zblocks; z++) {
-        from = ss->from.i[2] + z * zStep;
-        to   = ss->from.i[2] + (z+1) * zStep;
+        from = ss->from.i[2] + zWidth * z / data->zblocks;
+        to   = ss->from.i[2] + zWidth * (z+1) / data->zblocks;
         if (from == to) continue;
-        if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
-            from = ss->from.i[1] + y * yStep;
-            to   = ss->from.i[1] + (y+1) * yStep;
+            from = ss->from.i[1] + yWidth * y / data->yblocks;
+            to   = ss->from.i[1] + yWidth * (y+1) / data->yblocks;
             if (from == to) continue;
-            if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
-                from = ss->from.i[0] + x * xStep;
-                to   = ss->from.i[0] + (x+1) * xStep;
+                from = ss->from.i[0] + xWidth * x / data->xblocks;
+                to   = ss->from.i[0] + xWidth * (x+1) / data->xblocks;
                 if (from == to) continue;
-                if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
                 range.to.i[0]   = to;
 
-- 
2.43.0


From 1eaf5f89719ada3d71ac90f41821f77c32b21c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 09/45] fix: intersection filter was not installed for a
 process without own ranges

---
 src/partitioning.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..4f560aa 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -161,6 +161,10 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
+
+    // install filter function. Without own ranges, nothing passes the filter
+    sf->filter_func = idxfilter;
+
     // no own ranges?
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
@@ -180,9 +184,6 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From 61c899b8e098b77ddbdbd0cc6e8a6ed23b90386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 10/45] fix: intersection filter dropped ranges if own ranges
 overlap or use several tags

---
 include/laik/space-internal.h |  1 +
 src/partitioning.c            | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/laik/space-internal.h b/include/laik/space-internal.h
index dde4b54..d1953f8 100644
--- a/include/laik/space-internal.h
+++ b/include/laik/space-internal.h
@@ -123,6 +123,7 @@ typedef struct {
     int64_t from, to;
     Laik_TaskRange_Gen* ts;
     unsigned int len;
+    bool ordered; // are both start and end indexes of ranges ascending?
 } PFilterPar;
 
 // parameters for filtering ranges on a partitioner run
diff --git a/src/partitioning.c b/src/partitioning.c
index 4f560aa..a9f2453 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -99,8 +99,17 @@ static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
         return false;
     }
 
-    // binary search
     Laik_TaskRange_Gen* ts = par->ts;
+
+    // own ranges may overlap or be sorted by tag: then check all of them
+    if (!par->ordered) {
+        for(unsigned int i = 0; i < par->len; i++)
+            if ((from < ts[i].range.to.i[0]) && (to > ts[i].range.from.i[0]))
+                return true;
+        return false;
+    }
+
+    // binary search
     unsigned int off1 = 0, off2 = par->len;
     while(off1 < off2) {
         unsigned int mid = (off1 + off2) / 2;
@@ -170,13 +179,20 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     if (mycount == 0) return;
 
     Laik_TaskRange_Gen* ts1 = list->trange + list->off[tid];
-    Laik_TaskRange_Gen* ts2 = list->trange + list->off[tid+1]-1;
-
     PFilterPar* par = malloc(sizeof(PFilterPar));
     par->len = mycount;
     par->from = ts1->range.from.i[0];
-    par->to   = ts2->range.to.i[0];
+    par->to   = ts1->range.to.i[0];
     par->ts = ts1;
+    par->ordered = true;
+    for(unsigned i = 1; i < mycount; i++) {
+        Laik_Range* prev = &(ts1[i-1].range);
+        Laik_Range* r = &(ts1[i].range);
+        if ((r->from.i[0] < prev->from.i[0]) || (r->to.i[0] < prev->to.i[0]))
+            par->ordered = false;
+        if (r->from.i[0] < par->from) par->from = r->from.i[0];
+        if (r->to.i[0] > par->to) par->to = r->to.i[0];
+    }
 
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
-- 
2.43.0


From 3868c3b19a748cd43a0537878ea3e2ce30ef9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 11/45] fix: reduction without inputs used neutral element of
 type char for all integer types

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..43e4300 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From 080d581adba0b881d34ded354747aa7b58be94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 12/45] fix: neutral elements of minimum and maximum reductions
 were swapped

---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index 43e4300..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From 1e44de0c722036ed554262260296f2281a44c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 13/45] fix: pack/unpack/copy in lex layout used strides of
 first map for all maps

---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From 20a8d5fb1b5730fa3c9b493afced81d6f0e49200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 14/45] fix: description of lex layout with many maps
 overflowed its buffer

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..cd9f586 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -123,6 +123,11 @@ char* describe_lex(Laik_Layout* l)
     o = sprintf(s, "lex (%dd, %d maps, strides ",
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
+        if (o > 100) {
+            // no space left for strides of further maps (each up to 64 chars)
+            o += sprintf(s+o, ", ...");
+            break;
+        }
         Lex_Entry* e = &(ll->e[i]);
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
-- 
2.43.0


From 9b04a527982179b9a7c8818e22684b3be6c1f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 15/45] fix: laik_get_map_addr returned wrong address for
 mapping embedded in larger allocation

---
 src/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..56426b6 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1411,8 +1411,9 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     Laik_Mapping* m = laik_get_map(d, n);
     if (!m) return 0;
 
+    // offset is relative to start of the allocation
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From 3f70a168f2714951055cf76f6d7252e2a37328fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 16/45] fix: init of mappings truncated indexes to 32 bit

---
 src/data.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data.c b/src/data.c
index 56426b6..6db992b 100644
--- a/src/data.c
+++ b/src/data.c
@@ -715,9 +715,9 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
+        int elemCount = (int) (to - from);
 
         char* toBase = toMap->base;
         assert(from >= toMap->requiredRange.from.i[0]);
@@ -735,8 +735,9 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%lld;%lld[ from %p\n",
+                 d->name, op->rangeNo, op->mapNo, elemCount,
+                 (long long) from, (long long) to, (void*) toBase);
     }
 }
 
-- 
2.43.0


From 52adfebb817e55b55423eb9b7e37314d5457f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 17/45] fix: KVS: compare length of values before deciding that
 a value is unchanged

Setting a value which is a prefix of the old one was ignored, and setting
a longer value read beyond the end of the old one.
---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..2d01e09 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -371,7 +371,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From 662647d00384b4b24573ad34efb220cfd11a9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 18/45] fix: KVS: compare binary values when merging changes

strncmp stops at the first zero byte, so different values were seen as equal.
---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 2d01e09..14b01cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
-- 
2.43.0


From 7a15874a025cf985329667371920175e670d7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 19/45] fix: KVS: allow synchronisation of removed entries

Removing an entry appends a change without data to the journal. Sorting
and applying such a journal aborted.
---
 src/kvs.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 14b01cc..94ceb2e 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -202,7 +202,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range (empty if removed)
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -276,11 +276,13 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
-        laik_kvs_set(kvs,
-                     c->data + c->off[i],
-                     (unsigned)(c->off[i+2] - c->off[i+1]), // data size
-                     c->data + c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        char* key = c->data + c->off[i];
+        unsigned vlen = (unsigned)(c->off[i+2] - c->off[i+1]); // data size
+        if (vlen == 0)
+            laik_kvs_remove(kvs, key); // no data: key was removed
+        else
+            laik_kvs_set(kvs, key, vlen, c->data + c->off[i+1]);
     }
 }
 
-- 
2.43.0


From 6fd88e5e76be7cc845fe4f5305ca290c5e6034cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 20/45] fix: KVS: allow multiple changes of the same key before
 a synchronisation

The journal may contain multiple changes for one key, but merging requires
unique keys, and applying own outdated values was seen as inconsistency.
---
 src/kvs.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 94ceb2e..f424d81 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -185,6 +185,18 @@ static int entrycmp(const void * v1, const void * v2)
     return strcmp(e1->key, e2->key);
 }
 
+// for qsort in laik_kvs_changes_sort: changes of same key stay in journal order
+static int changecmp(const void * v1, const void * v2)
+{
+    const Laik_KVS_Entry* e1 = (const Laik_KVS_Entry*) v1;
+    const Laik_KVS_Entry* e2 = (const Laik_KVS_Entry*) v2;
+    int res = strcmp(e1->key, e2->key);
+    if (res != 0) return res;
+    // keys are in same data array, appended on each change
+    if (e1->key == e2->key) return 0;
+    return (e1->key < e2->key) ? -1 : 1;
+}
+
 void laik_kvs_changes_sort(Laik_KVS_Changes* c)
 {
     // first fill entry array from data/offset array, then sort
@@ -217,7 +229,17 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
     assert(c->entryUsed * 2 + 1 == c->offUsed);
 
     // now sort
-    qsort(c->entry, (size_t) c->entryUsed, sizeof(Laik_KVS_Entry), entrycmp);
+    qsort(c->entry, (size_t) c->entryUsed, sizeof(Laik_KVS_Entry), changecmp);
+
+    // if there are multiple changes for a key, only keep the last one
+    int used = 0;
+    for(int i = 0; i < c->entryUsed; i++) {
+        if ((i + 1 < c->entryUsed) &&
+            (strcmp(c->entry[i].key, c->entry[i + 1].key) == 0)) continue;
+        c->entry[used] = c->entry[i];
+        used++;
+    }
+    c->entryUsed = used;
 }
 
 void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
@@ -274,6 +296,17 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->dataUsed > 0);
     assert(c->off != 0);
     assert(c->data != 0);
+    if (c->entryUsed > 0) {
+        // changes are sorted: use entries, there is only one per key
+        for(int i = 0; i < c->entryUsed; i++) {
+            Laik_KVS_Entry* e = &(c->entry[i]);
+            if (e->vlen == 0)
+                laik_kvs_remove(kvs, e->key); // no data: key was removed
+            else
+                laik_kvs_set(kvs, e->key, e->vlen, e->value);
+        }
+        return;
+    }
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
         assert(c->off[i+2] >= c->off[i+1]);
-- 
2.43.0


From b725d1ac24e0bf2a86f1f8fc54f92c80cc81b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 21/45] fix: MPI backend: allow synchronising a KVS without any
 changes

The assertion failed if no process had changes, or with very short keys.
---
 src/backend-mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..3089ceb 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1171,7 +1171,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || (count[1] > 0)); // each key has at least one byte
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From 424ddf29783566b2251b0d32971ab8069d2f99f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:13 +0000
Subject: [PATCH 22/45] fix: space serialisation: make buffer large enough for
 3d spaces with large coordinates

---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..fb6db5b 100644
--- a/src/space.c
+++ b/src/space.c
@@ -416,7 +416,8 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    // 6 numbers with up to 20 characters each, and 9 other characters
+    static char buf[150];
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From 4d9fff6f1ab22313d232c044513eaab1bbf3f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 23/45] fix: 2d/3d transitions: send and receive operations of
 two processes match in number, range and order

---
 src/space.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/space.c b/src/space.c
index fb6db5b..046430e 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1330,6 +1330,15 @@ void calcAddReductions(int tflags,
     freeBorderList();
 }
 
+// is given range one of the ranges of a task?
+static
+bool hasEqualRange(Laik_RangeList* list, int task, Laik_Range* range)
+{
+    for(unsigned int o = list->off[task]; o < list->off[task+1]; o++)
+        if (laik_range_isEqual(range, &(list->trange[o].range))) return true;
+    return false;
+}
+
 static int trans_id = 0;
 
 // Calculate communication required for transitioning between partitionings
@@ -1490,17 +1499,12 @@ do_calc_transition(Laik_Space* space,
                         // TODO: we only check for exact match to catch All
                         // FIXME: should print out a Warning/Error as the App
                         //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
-                        if (range == 0) continue;
+                        if (hasEqualRange(fromRL, myid, &(toRL->trange[o1].range)))
+                            continue;
 
                         for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                            if (hasEqualRange(fromRL, myid, &(fromRL->trange[o2].range)))
+                                continue;
 
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
                                                        &(toRL->trange[o1].range));
@@ -1516,24 +1520,20 @@ do_calc_transition(Laik_Space* space,
             // something to send?
             for(int task = 0; task < taskCount; task++) {
                 if (task == myid) continue;
-                for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+                // order and exceptions must match the receive operations above
+                for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
 
                     // everything the receiver has local, no need to send
                     // TODO: we only check for exact match to catch All
                     // FIXME: should print out a Warning/Error as the App
                     //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
-                        }
-                    }
-                    if (range == 0) continue;
+                    if (hasEqualRange(fromRL, task, &(toRL->trange[o2].range)))
+                        continue;
 
                     // we may send multiple messages to same task
-                    for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
+                    for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
+                        if (hasEqualRange(fromRL, task, &(fromRL->trange[o1].range)))
+                            continue;
 
                         range = laik_range_intersect(&(fromRL->trange[o1].range),
                                                    &(toRL->trange[o2].range));
-- 
2.43.0


From 051fffd44f7cd027ab57ae928b68acd0a2857eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 24/45] fix: calcAddReductions: compare 64-bit borders without
 truncation

---
 src/space.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/space.c b/src/space.c
index 046430e..cb071a0 100644
--- a/src/space.c
+++ b/src/space.c
@@ -834,8 +834,7 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
-
+    return (sb1->b < sb2->b) ? -1 : 1;
 }
 
 static bool addTask(TaskGroup* g, int task, int maxTasks)
-- 
2.43.0


From 465a23b07f6b605c1a3f774da1253fc3fa91d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 25/45] fix: calcAddReductions: no reduction if no process
 wants the result

---
 src/space.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/space.c b/src/space.c
index cb071a0..61a054a 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1195,6 +1195,9 @@ void calcAddReductions(int tflags,
                      (long long int) nextBorder, act[myActivity]);
 #endif
 
+            // no action needed if nobody wants the result
+            if (outputGroup.count == 0) continue;
+
             if (myActivity > 0) {
                 assert(isInTaskGroup(&inputGroup, myid) ||
                        isInTaskGroup(&outputGroup, myid));
-- 
2.43.0


From 1d649cbc95d1938d13a3aeeef9f21dd7c512e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 26/45] fix: MPI backend: And/Or reductions work bitwise as
 everywhere else

---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 3089ceb..a429e5f 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 5793460655a2345ec4c482b160c01001ac91e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 27/45] fix: MPI backend: complete asynchronous sends before
 their memory is changed

---
 src/backend-mpi.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index a429e5f..bce2a6c 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,27 +212,27 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
-// - replace recv with irecv at begin and wait at original position
+// - replace send with isend and wait for completion at end of the round:
+//   later rounds may change or receive into the memory sent
+// - replace recv with irecv at begin of the round and wait at original position:
+//   previous rounds may send from the memory received into
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
     // must not have new actions, we want to start a new build
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // spread rounds by 3, all actions but the following get into middle round
+    // - first round gets MpiIrecv actions (and MpiReq at very first position)
+    // - last round gets Waits from MpiISend actions
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -243,25 +243,24 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
         switch(a->type) {
         case LAIK_AT_BufSend: {
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
-            laik_mpi_addMpiIsend(as, a->round + 1,
+            laik_mpi_addMpiIsend(as, 3 * a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
+            laik_mpi_addMpiWait(as, 3 * a->round + 2, req_id);
             req_id++;
             break;
         }
 
         case LAIK_AT_BufRecv: {
             Laik_A_BufRecv* aa = (Laik_A_BufRecv*) a;
-            laik_mpi_addMpiIrecv(as, 0,
+            laik_mpi_addMpiIrecv(as, 3 * a->round,
                                  aa->buf, aa->count, aa->from_rank, req_id);
-            laik_mpi_addMpiWait(as, a->round + 1, req_id);
+            laik_mpi_addMpiWait(as, 3 * a->round + 1, req_id);
             req_id++;
             break;
         }
 
         default:
-            // all rounds up by one due to new round 0
-            laik_aseq_add(a, as, a->round + 1);
+            laik_aseq_add(a, as, 3 * a->round + 1);
             break;
         }
     }
-- 
2.43.0


From ad386ba2cc065aad5ac4ed7abceaf049366e21d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 28/45] fix: a freed reservation must not be used for further
 switches

---
 src/data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.c b/src/data.c
index 6db992b..d76ead5 100644
--- a/src/data.c
+++ b/src/data.c
@@ -938,6 +938,10 @@ void laik_reservation_add(Laik_Reservation* r, Laik_Partitioning* p)
 // free reservation and the memory space allocated
 void laik_reservation_free(Laik_Reservation* r)
 {
+    // must not be used any more for switches
+    if (r->data->activeReservation == r)
+        r->data->activeReservation = 0;
+
     for(int i = 0; i < r->count; i++) {
         assert(r->entry[i].mList != 0);
         free(r->entry[i].mList);
-- 
2.43.0


From c8f6ac424fed71acce16b72dad1483205cac5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 29/45] fix: copyMaps: copy between different mappings of the
 same reservation

---
 src/data.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index d76ead5..700fcb7 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,8 +554,8 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
+    // do we stay in same reservation?
+    bool sameRes = (fromList->res != 0) && (fromList->res == toList->res);
 
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
@@ -565,6 +565,10 @@ void copyMaps(Laik_Transition* t,
         Laik_Mapping* toMap = &(toList->map[op->toMapNo]);
 
         assert(toMap->data == fromMap->data);
+
+        // no copy required if embedded in same mapping of the reservation
+        if (sameRes && (fromMap->baseMapping == toMap->baseMapping)) continue;
+
         if (toMap->count == 0) {
             // no elements to copy to
             continue;
-- 
2.43.0


From 01b604638b63649d6fd1281d8319c0037877dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 30/45] fix: single backend: reductions for any mappings and
 number of inputs

---
 src/backend-single.c | 49 +++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/backend-single.c b/src/backend-single.c
index 5e04196..b4810b0 100644
--- a/src/backend-single.c
+++ b/src/backend-single.c
@@ -82,30 +82,37 @@ void laik_single_exec(Laik_ActionSeq* as)
     Laik_MappingList* fromList = tc->fromList;
     Laik_MappingList* toList = tc->toList;
 
-    if (t->redCount > 0) {
-        assert(fromList->count == 1);
-        assert(toList->count == 1);
-        Laik_Mapping* fromMap = &(fromList->map[0]);
-        Laik_Mapping* toMap = &(toList->map[0]);
-        char* fromBase = fromMap ? fromMap->base : 0;
-        char* toBase = toMap ? toMap->base : 0;
-
-        for(int i=0; i < t->redCount; i++) {
+    for(int i=0; i < t->redCount; i++) {
+        struct redTOp* op = &(t->red[i]);
+        assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
+        assert(toList && (op->myOutputMapNo < toList->count));
+        Laik_Mapping* toMap = &(toList->map[op->myOutputMapNo]);
+        assert(toMap->base != 0);
+
+        if (laik_trans_groupCount(t, op->inputGroup) > 0) {
+            // we are the only input: just copy values
+            assert(fromList && (op->myInputMapNo < fromList->count));
+            Laik_Mapping* fromMap = &(fromList->map[op->myInputMapNo]);
+            assert(fromMap->base != 0);
+
+            laik_log(1, "Single reduce: copy map %d => map %d",
+                     op->myInputMapNo, op->myOutputMapNo);
+            laik_data_copy(&(op->range), fromMap, toMap);
+        }
+        else {
+            // no input: set to neutral element of reduction
             assert(d->space->dims == 1);
-            struct redTOp* op = &(t->red[i]);
             int64_t from = op->range.from.i[0];
             int64_t to   = op->range.to.i[0];
-            assert(fromBase != 0);
-            assert(laik_trans_isInGroup(t, op->outputGroup, t->group->myid));
-            assert(toBase != 0);
-            assert(to > from);
-
-            laik_log(1, "Single reduce: "
-                        "from %lld, to %lld, elemsize %d, base from/to %p/%p\n",
-                     (long long int) from, (long long int) to,
-                     d->elemsize, (void*) fromBase, (void*) toBase);
-
-            memcpy(toBase, fromBase, (to-from) * fromMap->data->elemsize);
+            assert(from >= toMap->requiredRange.from.i[0]);
+            uint64_t off = (uint64_t) (from - toMap->requiredRange.from.i[0]);
+
+            laik_log(1, "Single reduce: init map %d from %lld, to %lld",
+                     op->myOutputMapNo,
+                     (long long int) from, (long long int) to);
+            assert(d->type->init != 0);
+            (d->type->init)(toMap->base + off * d->elemsize,
+                            (int) (to - from), op->redOp);
         }
     }
 
-- 
2.43.0


From 100bfe56421c752800058c3dbdb23486ac5a494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 31/45] fix: laik_aseq_free: backends may have no cleanup
 function

---
 src/action.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/action.c b/src/action.c
index 90b8892..d987705 100644
--- a/src/action.c
+++ b/src/action.c
@@ -86,7 +86,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     laik_log(1, "free action seq '%s' (%d actions, %d buffers)",
              as->name, as->actionCount, as->bufferCount);
 
-    if (as->backend) {
+    if (as->backend && as->backend->cleanup) {
         // ask backend to do its own cleanup for this action sequence
         (as->backend->cleanup)(as);
     }
-- 
2.43.0


From 64d135f722aa9ae99e4f8ea628ea4e34cafae733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:14 +0000
Subject: [PATCH 32/45] fix: removeTask: a task larger than all members is not
 found

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index 61a054a..3b087ce 100644
--- a/src/space.c
+++ b/src/space.c
@@ -866,6 +866,7 @@ static bool removeTask(TaskGroup* g, int task)
         if (task == g->task[o]) break;
         o++;
     }
+    if (o == g->count) return false; // not found
     o++;
     while(o < g->count) {
         g->task[o - 1] = g->task[o];
-- 
2.43.0


From f7676821e0e8a837fb84b4b7068482bb09f4d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 33/45] fix: switching to no partitioning, or by a process
 outside of the group, crashed

---
 src/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index 700fcb7..2d7a419 100644
--- a/src/data.c
+++ b/src/data.c
@@ -794,7 +794,7 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
@@ -809,7 +809,8 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
     checkMapReuse(toList, fromList);
 
     // allocate space for mappings for which reuse is not possible
-    allocateMappings(toList, d->stat);
+    if (toList)
+        allocateMappings(toList, d->stat);
 
     bool doASeqCleanup = false;
     if (as) {
-- 
2.43.0


From 3ede8365927e543b0946e989cb83846608300dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 34/45] fix: memory of a reservation was never released

---
 src/data.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data.c b/src/data.c
index 2d7a419..230338b 100644
--- a/src/data.c
+++ b/src/data.c
@@ -624,9 +624,15 @@ void initEmbeddedMapping(Laik_Mapping* toMap, Laik_Mapping* fromMap)
     toMap->allocCount = fromMap->allocCount;
     toMap->capacity = fromMap->capacity;
 
-    // use allocator of fromMap to deallocate memory
-    toMap->allocator = fromMap->allocator;
-    fromMap->allocator = 0;
+    if (toMap->baseMapping) {
+        // memory still owned by base mapping (of a reservation)
+        toMap->allocator = 0;
+    }
+    else {
+        // use allocator of fromMap to deallocate memory
+        toMap->allocator = fromMap->allocator;
+        fromMap->allocator = 0;
+    }
 
     // set <base> of embedded mapping according to required vs. allocated
     uint64_t off = laik_offset(toMap->layout, toMap->layoutSection, &(toMap->requiredRange.from));
-- 
2.43.0


From 16c9468f7c1e3a8ba43bc8ca279d3da6f73b3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 35/45] fix: memory provided by the application was ignored if
 an old mapping could be reused

---
 src/data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.c b/src/data.c
index 230338b..242359c 100644
--- a/src/data.c
+++ b/src/data.c
@@ -667,6 +667,8 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
             fromMap = &(fromList->map[sNo]);
             if (fromMap->base == 0) continue;
             if (fromMap->reusedFor >= 0) continue; // only reuse once
+            // keep using memory provided by application for new mapping
+            if (toMap->start && (toMap->start != fromMap->start)) continue;
 
             // does new mapping fit into old?
             bool reuse = (toList->layout->reuse)(toList->layout, i, fromList->layout, sNo);
-- 
2.43.0


From 5358a783d90ebd895494f20535eb958e866c5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:45 +0000
Subject: [PATCH 36/45] fix: reservations with a negative tag or with tags far
 apart

---
 src/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index 242359c..98bb4c4 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1007,7 +1007,8 @@ int mygroup_cmp(const void *p1, const void *p2)
     const struct mygroup* g1 = (const struct mygroup*) p1;
     const struct mygroup* g2 = (const struct mygroup*) p2;
 
-    return g1->tag - g2->tag;
+    // no difference of tags: this may overflow
+    return (g1->tag > g2->tag) - (g1->tag < g2->tag);
 }
 
 
@@ -1081,7 +1082,7 @@ void laik_reservation_alloc(Laik_Reservation* res)
     int resMapNo = -1;
     int lastTag = -1;
     for(unsigned int i = 0; i < groupCount; i++) {
-        if (glist[i].tag != lastTag) {
+        if ((resMapNo < 0) || (glist[i].tag != lastTag)) {
             lastTag = glist[i].tag;
             resMapNo++;
         }
-- 
2.43.0


From 9d851299f35ed4558db37c0d45a2d655abfda25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:45 +0000
Subject: [PATCH 37/45] fix: freeing a reservation without allocation crashed

---
 src/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 98bb4c4..36b21ef 100644
--- a/src/data.c
+++ b/src/data.c
@@ -956,7 +956,7 @@ void laik_reservation_free(Laik_Reservation* r)
         r->data->activeReservation = 0;
 
     for(int i = 0; i < r->count; i++) {
-        assert(r->entry[i].mList != 0);
+        // may be 0 if nothing was allocated for this reservation
         free(r->entry[i].mList);
         r->entry[i].mList = 0;
     }
-- 
2.43.0


From 7e1359e8bcb449fae3662ed892dca76de2aadc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:58 +0000
Subject: [PATCH 38/45] fix: sorting by rank digits aborted for sequences with
 other actions than send/recv

---
 src/action.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/action.c b/src/action.c
index d987705..a2c7aa6 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1724,8 +1724,8 @@ int cmp_rankdigits(const void* aptr1, const void* aptr2)
     bool a2isSend = laik_action_isSend(a2);
     bool a1isRecv = laik_action_isRecv(a1);
     bool a2isRecv = laik_action_isRecv(a2);
-    int a1peer = getActionPeer(a1);
-    int a2peer = getActionPeer(a2);
+    int a1peer = (a1isSend || a1isRecv) ? getActionPeer(a1) : 0;
+    int a2peer = (a2isSend || a2isRecv) ? getActionPeer(a2) : 0;
 
     // phase number is number of lower digits equal to my rank
     int a1phase = 0, a2phase = 0, mask = 0;
-- 
2.43.0


From f28606ab416f03cfc50fdfd9dd6b4f8b89c993ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:02 +0000
Subject: [PATCH 39/45] fix: buffer sizes of action sequences above 4 GB
 wrapped around

---
 src/action.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/action.c b/src/action.c
index a2c7aa6..6783343 100644
--- a/src/action.c
+++ b/src/action.c
@@ -252,6 +252,18 @@ void laik_aseq_addTExec(Laik_ActionSeq* as, int tid)
 }
 
 
+// size in bytes of a buffer for <count> elements; offsets into buffers
+// of an action sequence are <unsigned int>, thus larger ones are not supported
+static
+unsigned int getBufSize(uint64_t count, unsigned int elemsize)
+{
+    if ((elemsize > 0) && (count > UINT32_MAX / elemsize)) {
+        laik_panic("Buffer for action sequence too large");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    return (unsigned int) (count * elemsize);
+}
+
 // append action to reserve buffer space
 // if <bufID> is negative, a new ID is generated (always > 100)
 // returns bufID.
@@ -872,7 +884,7 @@ bool laik_aseq_allocBuffer(Laik_ActionSeq* as)
             assert(aa->bufID < (int)(100 + as->bufReserveCount));
             resAction[aa->bufID - 100] = aa;
             aa->bufID = as->bufferCount; // mark as processed
-            bufSize += aa->size;
+            bufSize = getBufSize((uint64_t) bufSize + aa->size, 1);
             rCount++;
             break;
         }
@@ -1182,7 +1194,8 @@ bool laik_aseq_combineActions(Laik_ActionSeq* as)
         a->mark = 0;
 
     // first pass: how much buffer space / copy range elements is needed?
-    unsigned int bufSize = 0, copyRanges = 0;
+    uint64_t bufSize = 0;
+    unsigned int copyRanges = 0;
     a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
         // skip already combined actions
@@ -1298,10 +1311,10 @@ bool laik_aseq_combineActions(Laik_ActionSeq* as)
     as->ceCount++;
     as->ceRanges += copyRanges;
 
-    int bufID = laik_aseq_addBufReserve(as, bufSize * elemsize, -1);
+    int bufID = laik_aseq_addBufReserve(as, getBufSize(bufSize, elemsize), -1);
 
-    laik_log(1, "Reservation for combined actions: length %d x %d, ranges %d",
-             bufSize, elemsize, copyRanges);
+    laik_log(1, "Reservation for combined actions: length %llu x %d, ranges %d",
+             (unsigned long long) bufSize, elemsize, copyRanges);
 
     // unmark all actions: restart for finding same type of actions
     a = as->action;
@@ -1925,7 +1938,7 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
             }
             else {
                 // split off packing and sending, using a buffer of required size
-                int bufID = laik_aseq_addBufReserve(as, aa->count * elemsize, -1);
+                int bufID = laik_aseq_addBufReserve(as, getBufSize(aa->count, elemsize), -1);
                 if (fromMap)
                     laik_aseq_addPackToRBuf(as, 3 * a->round,
                                             fromMap, aa->range, bufID, 0);
@@ -1972,7 +1985,7 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
             }
             else {
                 // split off receiving and unpacking, using buffer of required size
-                int bufID = laik_aseq_addBufReserve(as, aa->count * elemsize, -1);
+                int bufID = laik_aseq_addBufReserve(as, getBufSize(aa->count, elemsize), -1);
                 laik_aseq_addRBufRecv(as, 3 * a->round + 1,
                                       bufID, 0, aa->count, aa->from_rank);
                 if (toMap)
@@ -2096,7 +2109,7 @@ void laik_aseq_addReduce3Rounds(Laik_ActionSeq* as,
     // we are the reduce task
 
     int inCount = laik_trans_groupCount(t, ba->inputGroup);
-    unsigned int byteCount = ba->count * data->elemsize;
+    unsigned int byteCount = getBufSize(ba->count, data->elemsize);
 
     bool inputFromMe = laik_trans_isInGroup(t, ba->inputGroup, myid);
     assert(inCount >= 0);
@@ -2107,7 +2120,7 @@ void laik_aseq_addReduce3Rounds(Laik_ActionSeq* as,
     }
 
     // buffer for all partial input values
-    unsigned int bufSize = inCountWithoutMe * byteCount;
+    unsigned int bufSize = getBufSize(inCountWithoutMe, byteCount);
     int bufID = -1;
     if (bufSize > 0)
         bufID = laik_aseq_addBufReserve(as, bufSize, -1);
@@ -2213,7 +2226,7 @@ void laik_aseq_addReduce2Rounds(Laik_ActionSeq* as,
     // I am interested in result, process inputs from others
 
     int inCount = laik_trans_groupCount(t, ba->inputGroup);
-    unsigned int byteCount = ba->count * data->elemsize;
+    unsigned int byteCount = getBufSize(ba->count, data->elemsize);
 
     // buffer for all partial input values
     assert(inCount >= 0);
@@ -2222,7 +2235,7 @@ void laik_aseq_addReduce2Rounds(Laik_ActionSeq* as,
         assert(inCountWithoutMe > 0);
         inCountWithoutMe--;
     }
-    unsigned int bufSize = inCountWithoutMe * byteCount;
+    unsigned int bufSize = getBufSize(inCountWithoutMe, byteCount);
 
     int bufID = -1;
     if (bufSize > 0)
-- 
2.43.0


From ceeb9b119afd05330ca047fc962b23d2ad455ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:02 +0000
Subject: [PATCH 40/45] fix: wrong field checked for the size of messages
 received into a reserved buffer

---
 src/backend-mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index bce2a6c..1b3c79b 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -831,7 +831,7 @@ void laik_mpi_exec(Laik_ActionSeq* as)
             // check that we received the expected number of elements
             err = MPI_Get_count(&st, dataType, &count);
             if (err != MPI_SUCCESS) laik_mpi_panic(err);
-            assert((int)ba->count == count);
+            assert((int)aa->count == count);
             break;
         }
 
-- 
2.43.0


From 90f6b1a99a489683ae6f70f2663645576a079203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:11 +0000
Subject: [PATCH 41/45] fix: tcp2: do not use the receive buffer after 'quit'
 closed the connection

---
 src/backend-tcp2.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..4dfe1e3 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1571,7 +1571,8 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            // connection closed and receive buffer freed
+            return;
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1580,6 +1581,8 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            // "quit" closes the connection and frees the receive buffer
+            if (fds->cb == 0) return;
             pos1 = pos2+1;
         }
         pos2++;
@@ -1621,6 +1624,8 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            // connection already closed by "quit" in left-over commands?
+            if (d->fds[fd].cb == 0) return;
         }
 
         int lid = d->fds[fd].lid;
-- 
2.43.0


From c51fa9eed9c1229a4e55f0f804a4b015907747e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:11 +0000
Subject: [PATCH 42/45] fix: tcp2: buffers for text data too small for larger
 elements

---
 src/backend-tcp2.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 4dfe1e3..4f74959 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -777,8 +777,7 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    char data_in[len];
     int l = 0;
 
     // parse hex bytes
@@ -2093,7 +2092,7 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    char str[100 + 3 * s]; // 3 characters per byte
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
-- 
2.43.0


From 309d62fafaeb2345e45e622ac875a046cc5f02c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:21 +0000
Subject: [PATCH 43/45] fix: tcp2: synchronise key-value entries of any length

---
 src/backend-tcp2.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 4f74959..ed0a27f 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1348,8 +1348,10 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
 
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    int len = strlen(msg);
+    char cmd[21], key[len + 1], value[len + 1];
+    // key and value have to fit, as both are part of the message
+    if (sscanf(msg, "%20s %s %[^\n]", cmd, key, value) < 3) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
@@ -2386,6 +2388,17 @@ void tcp2_exec(Laik_ActionSeq* as)
     }
 }
 
+// send KVS entry <e> to processes with location IDs <fromLID> to <toLID>
+static
+void send_kvs_data(InstData* d, Laik_KVS_Entry* e, int fromLID, int toLID)
+{
+    // size of key and value is not limited
+    char msg[strlen(e->key) + strlen(e->value) + 20];
+    sprintf(msg, "kvs data %s %s", e->key, e->value);
+    for(int lid = fromLID; lid <= toLID; lid++)
+        send_cmd(d, lid, msg);
+}
+
 void tcp2_sync(Laik_KVStore* kvs)
 {
     char msg[100];
@@ -2416,9 +2429,7 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, 0, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
+            send_kvs_data(d, &(kvs->entry[i]), 0, 0);
         }
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
@@ -2461,10 +2472,7 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, lid, msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
-        for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+        send_kvs_data(d, &(kvs->entry[i]), 1, d->maxid);
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From 213f5a1a96464e7814d2f9d1b3952bf6f54fd863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:11 +0000
Subject: [PATCH 44/45] fix: tcp2: binary data from unregistered senders
 accessed memory before the peer table

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index ed0a27f..f140412 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -696,6 +696,12 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
 {
     laik_log(1, "TCP2 got binary data (from LID %d, len %d)", lid, len);
 
+    if (lid < 0) {
+        // sender not registered
+        laik_log(LAIK_LL_Warning, "TCP2 ignoring binary data from unknown sender");
+        return len;
+    }
+
     Peer* p = &(d->peer[lid]);
     if ((p->rcount == 0) || (p->rcount == p->roff)) {
         laik_log(LAIK_LL_Warning, "TCP2 ignoring data from LID %d without send permission", lid);
-- 
2.43.0


From 1b88a361900adb3e0395f2e78543efe21a9e95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:39 +0000
Subject: [PATCH 45/45] fix: tcp2: buffers for position texts too small for
 three large coordinates

---
 src/backend-tcp2.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index f140412..35f050e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -335,7 +335,7 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    static char str[64];
 
     if (dims == 1)
         sprintf(str, "%llu", (unsigned long long) idx->i[0]);
@@ -726,7 +726,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[80];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -773,7 +773,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[80];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
-- 
2.43.0

