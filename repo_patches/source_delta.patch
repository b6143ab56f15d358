From 3b638e7fe315afaa353f4dda2398a03380c262d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 01/43] fix: fsm_setend() treats every non-zero value as true,
 as documented

---
 src/libfsm/end.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..4d3a6ad 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,17 +26,13 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
-	case 0:
-		assert(fsm->endcount > 0);
-		fsm->endcount--;
-		fsm->states[state].end = 0;
-		break;
-
-	case 1:
+	if (end) {
 		assert(fsm->endcount < FSM_ENDCOUNT_MAX);
 		fsm->endcount++;
 		fsm->states[state].end = 1;
-		break;
+	} else {
+		assert(fsm->endcount > 0);
+		fsm->endcount--;
+		fsm->states[state].end = 0;
 	}
 }
-- 
2.43.0


From 14caa01a63bed75340f62bdba81de8682e422736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 02/43] fix: fsm_concat() must not leave a's original end
 states accepting

---
 src/libfsm/concat.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..974ca23 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -22,7 +22,7 @@ fsm_concat(struct fsm *a, struct fsm *b,
 {
 	struct fsm *q;
 	fsm_state_t ea, sb;
-	fsm_state_t sq;
+	fsm_state_t sq, i;
 	struct fsm_combine_info combine_info_internal;
 
 	if (combine_info == NULL) {
@@ -54,10 +54,15 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	fsm_setend(a, ea, 1);
+	/* only the collated state ends a; it's linked to b below */
+	for (i = 0; i < a->statecount; i++) {
+		fsm_setend(a, i, i == ea);
+	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
-- 
2.43.0


From c46136b4bbdbd048e28f93030a965f9bbafb3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 03/43] fix: fsm_complement() needs a DFA even when every state
 is already complete; and an fsm is left for the caller to free on error

---
 src/libfsm/complement.c | 3 +--
 src/libfsm/complete.c   | 1 -
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..d38866d 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -22,9 +22,8 @@ fsm_complement(struct fsm *fsm)
 
 	assert(fsm != NULL);
 
-	if (!fsm_all(fsm, fsm_iscomplete)) {
+	if (!fsm_all(fsm, fsm_isdfa) || !fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..786dd8a 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From 5570a5a820077dfd55a6e7a5e65a446f044eb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 04/43] fix: edge_set_remove_state() and
 edge_set_replace_state() read one group past the end

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..5a8385e 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -803,7 +803,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1086,7 +1086,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From a27a7d5d1407fbce33b1c29598616de4e7da8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 05/43] fix: edge_set_compact() kept an empty group to state 0
 when every group was removed

---
 src/adt/edgeset.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 5a8385e..47073e2 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -914,8 +914,11 @@ edge_set_compact(struct edge_set **pset, const struct fsm_alloc *alloc,
 	}
 #endif
 
-	info[0].assignment = 0;
-	ncount++;
+	/* sorted, so when the first is to be removed then all of them are */
+	if (info[0].new_to != FSM_STATE_REMAP_NO_STATE) {
+		info[0].assignment = 0;
+		ncount++;
+	}
 
 	for (i = 1; i < set->count; i++) {
 		const fsm_state_t prev_new_to = info[i - 1].new_to;
-- 
2.43.0


From aa7625765fcf921e42839f3cc6c3da98a89e07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 06/43] fix: state_set_replace() must keep the set sorted and
 free of duplicates

---
 src/adt/stateset.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..4c1c40d 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -662,9 +662,20 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 		return;
 	}
 
-	for (i = 0; i < set->i; i++) {
-		if (set->a[i] == old) {
-			set->a[i] = new;
-		}
+	if (old == new || !state_set_contains(set, old)) {
+		return;
+	}
+
+	/* drop the old state, keeping the array sorted and free of duplicates */
+	state_set_remove(setp, old);
+
+	i = state_set_empty(set) ? 0 : state_set_search(set, new);
+	if (i < set->i && set->a[i] == new) {
+		return;
 	}
+
+	/* there's room, because an item was just removed */
+	memmove(&set->a[i + 1], &set->a[i], (set->i - i) * (sizeof *set->a));
+	set->a[i] = new;
+	set->i++;
 }
-- 
2.43.0


From 256d93fd90af0f291e1371252ed08585044b818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 07/43] fix: state_set_compact() must keep the set sorted for a
 mapping which reorders states

---
 src/adt/stateset.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 4c1c40d..f782c1e 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -420,7 +420,6 @@ state_set_compact(struct state_set **setp,
 		if (new_id == FSM_STATE_REMAP_NO_STATE) {
 			*setp = NULL;
 		} else {
-			assert(new_id <= s);
 			*setp = SINGLETON_ENCODE(new_id);
 		}
 		return;
@@ -453,6 +452,21 @@ state_set_compact(struct state_set **setp,
 	set->i -= removed;
 	assert(set->i == dst);
 
+	/* The mapping isn't necessarily monotonic */
+	if (set->i > 1) {
+		size_t curr = 1;
+
+		qsort(&set->a[0], set->i, sizeof set->a[0], state_set_cmpptr);
+
+		for (i = 1; i < set->i; i++) {
+			if (set->a[i] != set->a[i - 1]) {
+				set->a[curr++] = set->a[i];
+			}
+		}
+
+		set->i = curr;
+	}
+
 #if LOG_COMPACT
 	for (i = 0; i < set->i; i++) {
 		fprintf(stderr, "state_set_compact: now set->a[%zu/%zu]: %d\n", i, set->i, set->a[i]);
-- 
2.43.0


From d67ac72f933f7a995922440d41e42fbc373b1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 08/43] fix: fsm_shuffle() dereferenced NULL when consolidation
 fails

---
 src/libfsm/shuffle.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..431e140 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,7 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From 40205f707e052465a7c8fb1da0bbd5e23707e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 09/43] fix: struct bm is one bit per character; bm_count()
 counted words beyond it after bm_invert()

---
 include/adt/bitmap.h | 2 +-
 src/adt/bitmap.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/adt/bitmap.h b/include/adt/bitmap.h
index 61c4f9a..ffede47 100644
--- a/include/adt/bitmap.h
+++ b/include/adt/bitmap.h
@@ -17,7 +17,7 @@ struct fsm_state;
 struct fsm_options;
 
 struct bm {
-	uint64_t map[(UCHAR_MAX + 1)/sizeof(uint64_t)];
+	uint64_t map[(UCHAR_MAX + 1)/(CHAR_BIT * sizeof(uint64_t))];
 };
 
 int
diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..e0792c0 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -82,7 +82,7 @@ bm_count(const struct bm *bm)
 
 	count = 0;
 
-	for (n = 0; n < sizeof(sizeof(bm->map)/sizeof(bm->map[0])); n++) {
+	for (n = 0; n < sizeof(bm->map)/sizeof(bm->map[0]); n++) {
 		count += u64bitset_popcount(bm->map[n]);
 	}
 
-- 
2.43.0


From 0a5897d7cc04d0dc2e2980daae2f64a42d547be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 10/43] fix: fsm_mergestates() lost b's start and end status,
 and gave the wrong state when a was last

---
 src/libfsm/mergestates.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..4cbfaff 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -8,6 +8,7 @@
 #include <stdlib.h>
 
 #include <fsm/fsm.h>
+#include <fsm/pred.h>
 
 #include <adt/set.h>
 #include <adt/stateset.h>
@@ -21,7 +22,7 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 {
 	struct fsm_edge e;
 	struct edge_iter it;
-	fsm_state_t i;
+	fsm_state_t i, start;
 
 	assert(fsm != NULL);
 	assert(a < fsm->statecount);
@@ -58,10 +59,23 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 		edge_set_remove_state(&fsm->states[i].edges, b);
 	}
 
+	/* the merged state stands for either state */
+	if (fsm_isend(fsm, b)) {
+		fsm_setend(fsm, a, 1);
+	}
+	if (fsm_getstart(fsm, &start) && start == b) {
+		fsm_setstart(fsm, a);
+	}
+
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
+	/* fsm_removestate() rehouses the last state over the one removed */
+	if (a == fsm->statecount) {
+		a = b;
+	}
+
 	if (q != NULL) {
 		*q = a;
 	}
-- 
2.43.0


From fa1329d2bdc7c492ac3a562c4c2f5fdaa2e85ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 11/43] fix: fsm_equal() reported an error as equality

---
 src/libfsm/equal.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..570d038 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -118,6 +118,8 @@ subsetof(const struct fsm *a, const struct fsm *b)
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	int r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -136,6 +138,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
-- 
2.43.0


From 920a8e3c4fd889b9e6a89da8d16add9f2c01e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 12/43] fix: fsm_trim() removes no states from an fsm with none

---
 src/libfsm/trim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/trim.c b/src/libfsm/trim.c
index c37965f..2d0ab63 100644
--- a/src/libfsm/trim.c
+++ b/src/libfsm/trim.c
@@ -506,7 +506,7 @@ fsm_trim(struct fsm *fsm, enum fsm_trim_mode mode,
 	assert(fsm != NULL);
 
 	if (fsm->statecount == 0) {
-		return 1;
+		return 0;
 	}
 
 	if (shortest_end_distance != NULL
-- 
2.43.0


From dfcce642b94a71e48482e15d7d46f68502a5edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 13/43] fix: fsm_endid_compact() leaked the ids of removed
 states, and still counted their buckets

---
 src/libfsm/endids.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..8a5e2c7 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1062,13 +1062,18 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 		nbuckets[nb_i].state = BUCKET_NO_STATE;
 	}
 
+	size_t nused = 0;
+
 	for (size_t ob_i = 0; ob_i < ei->bucket_count; ob_i++) {
 		const struct endid_info_bucket *ob = &ei->buckets[ob_i];
 		if (ob->state == BUCKET_NO_STATE) { continue; }
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			f_free(fsm->alloc, ob->ids);
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
@@ -1079,6 +1084,7 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 			if (nb->state == BUCKET_NO_STATE) {
 				nb->state = nstate;
 				nb->ids = ob->ids;
+				nused++;
 				placed = true;
 				break;
 			}
@@ -1088,5 +1094,6 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 	f_free(fsm->alloc, ei->buckets);
 	ei->buckets = nbuckets;
+	ei->buckets_used = nused;
 	return 1;
 }
-- 
2.43.0


From 9341c2ab8c5b7d4660316f04bbb5eb6ae5217c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 14/43] fix: idmap overflowed its bit set for values which are
 a multiple of 64

---
 src/adt/idmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..89cbe22 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -44,7 +44,8 @@ value_words(unsigned max_value) {
 		/* Still allocate one word, for storing 0. */
 		return 1;
 	} else {
-		return u64bitset_words(max_value);
+		/* bits 0 to max_value inclusive */
+		return u64bitset_words((size_t)max_value + 1);
 	}
 }
 
-- 
2.43.0


From 7fb15d82f903d4865216b4cf5746644165be76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 15/43] fix: fsm_minimise() could merge states with different
 eager outputs

---
 src/libfsm/minimise.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..eb44e2f 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -778,7 +778,8 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
 			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
+				s = env->jump[s];
+				continue; /* skip */
 			}
 
 			if (!collect_end_ids(fsm, s, &e->end)) {
-- 
2.43.0


From 5f48206a640cd185ea304d4e2b637c1627a17606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 16/43] fix: fsm_minimise() compared uninitialised label sets
 for states without edges

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 47073e2..4f9f36e 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -430,6 +430,8 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 {
 	size_t i;
 
+	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
+
 	if (set == NULL) {
 		return 0;
 	}
@@ -439,8 +441,6 @@ edge_set_check_edges_with_EC_mapping(const struct edge_set *set,
 	    label, (void *)set);
 #endif
 
-	memset(labels, 0x00, (256/64)*sizeof(labels[0]));
-
 	/* Find the state the label leads to, if any. */
 	const size_t offset = label/64;
 	const uint64_t bit = (uint64_t)1 << (label & 63);
-- 
2.43.0


From 6894c82437533ba9d130a01bb595eefcaba07f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 17/43] fix: fsm_union_array() gave the wrong state bases when
 operands have no captures

---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..afeabe0 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -194,7 +194,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		if (ci.base_a > 0 || ci.capture_base_a > 0) {
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
-- 
2.43.0


From 406950d65dc2a7d4d112c9afe028416b39e31656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 18/43] fix: fsm_remove_epsilons() asserted for an fsm with no
 states

---
 src/libfsm/epsilons.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..7543714 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -141,6 +141,10 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 	assert(nfa != NULL);
 
+	if (state_count == 0) {
+		return 1;
+	}
+
 	TIME(&pre);
 	eclosures = epsilon_closure(nfa);
 	TIME(&post);
-- 
2.43.0


From 599c7d596968a5e92f7a72b5bf8845707a15ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 19/43] fix: fsm_exec() wrote to captures when given NULL

---
 src/libfsm/exec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/exec.c b/src/libfsm/exec.c
index d8cebd8..eb6caa7 100644
--- a/src/libfsm/exec.c
+++ b/src/libfsm/exec.c
@@ -114,7 +114,7 @@ fsm_exec(const struct fsm *fsm,
 	}
 	const fsm_state_t start = state;
 
-	for (i = 0; i < capture_count; i++) {
+	for (i = 0; captures != NULL && i < capture_count; i++) {
 		captures[i].pos[0] = FSM_CAPTURE_NO_POS;
 		captures[i].pos[1] = FSM_CAPTURE_NO_POS;
 	}
@@ -160,7 +160,9 @@ fsm_exec(const struct fsm *fsm,
 		    offset, captures);
 	}
 
-	fsm_capture_finalize_captures(fsm, capture_count, captures);
+	if (captures != NULL) {
+		fsm_capture_finalize_captures(fsm, capture_count, captures);
+	}
 
 	*end = state;
 	return 1;
-- 
2.43.0


From 6c0bcb301e3b677067caffddff453d3d2cfb7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 20/43] fix: fsm_endid_set_bulk() gave an uninitialised id for
 an empty list

---
 src/libfsm/endids.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 8a5e2c7..f5abc23 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -591,7 +591,7 @@ fsm_endid_set_bulk(struct fsm *fsm,
 		LOG_2("removed id duplicates, %zu starting entries, %zu after duplicates removed\n",
 			n, j);
 
-		b->ids->count = j;
+		b->ids->count = n == 0 ? 0 : j;
 	}
 
 	return 1;
-- 
2.43.0


From 39744886080fdd48bd1ab25ac72f22c7fed38775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 21/43] fix: state_set_create() leaked on allocation failure

---
 src/adt/stateset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index f782c1e..53ce8c1 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -193,6 +193,7 @@ state_set_create(const struct fsm_alloc *a)
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
-- 
2.43.0


From 7d84be948e910dee399ca8a9c6ff31ef49f39c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 22/43] fix: fsm_new_statealloc() used the fsm after freeing it
 on allocation failure

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..4072795 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
 		fsm_capture_free(new);
 		fsm_endid_free(new);
+		f_free(new->alloc, new->states);
+		f_free(new->alloc, new);
 		return NULL;
 	}
 
-- 
2.43.0


From 0e3c1efb6338219c75eb084a92c88f72017cbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 23/43] fix: has_capture_actions was uninitialised for new
 states

---
 src/libfsm/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..145790c 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -65,6 +65,7 @@ fsm_addstate(struct fsm *fsm, fsm_state_t *state)
 		new->visited  = 0;
 		new->epsilons = NULL;
 		new->edges    = NULL;
+		new->has_capture_actions = 0;
 		new->has_eager_outputs = 0;
 	}
 
@@ -90,6 +91,7 @@ fsm_addstate_bulk(struct fsm *fsm, size_t n)
 			new->visited  = 0;
 			new->epsilons = NULL;
 			new->edges    = NULL;
+			new->has_capture_actions = 0;
 			new->has_eager_outputs = 0;
 		}
 
-- 
2.43.0


From aafe8ccbc34a94c5db3080d30b3d648b43f1c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 24/43] fix: fsm_reverse() checked the wrong pointer for
 allocation failure

---
 src/libfsm/reverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..a8383a0 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -124,7 +124,7 @@ fsm_reverse(struct fsm *fsm)
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
+	if (epsilons == NULL) {
 		state_set_free(endset);
 		f_free(fsm->alloc, edges);
 		return 0;
-- 
2.43.0


From c50e5323fbd05a5a0c354250f870c04c61587d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 25/43] fix: fsm_removestate() left the start state out of
 range when it was rehoused

---
 src/libfsm/state.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 145790c..4ae40c2 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -154,6 +154,10 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	if (state < fsm->statecount - 1) {
 		fsm->states[state] = fsm->states[fsm->statecount - 1];
 
+		if (fsm_getstart(fsm, &start) && start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
+
 		for (i = 0; i < fsm->statecount - 1; i++) {
 			state_set_replace(&fsm->states[i].epsilons, fsm->statecount - 1, state);
 			if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, fsm->statecount - 1, state)) {
-- 
2.43.0


From 3c19e292936a967692b7d313180c53c2a65f627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 26/43] fix: fsm_removestate() left end ids and eager outputs
 behind on the wrong state

---
 src/libfsm/state.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 4ae40c2..86a4e2d 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -166,6 +166,31 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 		}
 	}
 
+	/* Likewise for the end metadata, which is stored per fsm */
+	{
+		fsm_state_t *mapping;
+
+		mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof(mapping[0]));
+		if (mapping == NULL) {
+			return 0;
+		}
+
+		for (i = 0; i < fsm->statecount; i++) {
+			mapping[i] = i;
+		}
+		mapping[fsm->statecount - 1] = state;
+		mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
+		if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
+		|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount))
+		{
+			f_free(fsm->alloc, mapping);
+			return 0;
+		}
+
+		f_free(fsm->alloc, mapping);
+	}
+
 	fsm->statecount--;
 	return 1;
 }
-- 
2.43.0


From 29a1b68abe9fd4924078f19913ff05f0ecdb60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 27/43] fix: edge_set_copy() dereferenced NULL when copying an
 empty set into an existing one

---
 src/adt/edgeset.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 4f9f36e..8091f8c 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -708,17 +708,16 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	if (edge_set_empty(src)) {
+		return 1;
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
 		return edge_set_copy_into(dst, alloc, src);
 	}
 
-	if (edge_set_empty(src)) {
-		*dst = NULL;
-		return 1;
-	}
-
 	set = f_malloc(alloc, sizeof(*set));
 	if (set == NULL) {
 		return 0;
-- 
2.43.0


From 260a296bad556a9044ff95cb1e2c05b3c12b3642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 28/43] fix: epsilon_closure() ignored allocation failure,
 giving incomplete closures

---
 src/libfsm/closure.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..099791d 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -173,7 +173,9 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error;
+		}
 	}
 
 	return closures;
-- 
2.43.0


From b7db37f3802b8f9865939c706c7c4a65ba8ba316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 29/43] fix: fsm_shortest() ignored its start state

---
 src/libfsm/shortest.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..c3a5218 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -37,8 +37,6 @@ fsm_shortest(const struct fsm *fsm,
 	assert(goal < fsm->statecount);
 	assert(cost != NULL);
 
-	(void)start; /* unused */
-
 	/*
 	 * We find a least-cost ("shortest") path by Dijkstra's algorithm.
 	 *
@@ -64,16 +62,11 @@ fsm_shortest(const struct fsm *fsm,
 	path = NULL;
 
 	{
-		fsm_state_t qs, i;
-
-		if (!fsm_getstart(fsm, &qs)) {
-			errno = EINVAL;
-			goto error;
-		}
+		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
 			u = priq_push(fsm->alloc, &todo, i,
-				i == qs ? 0 : FSM_COST_INFINITY);
+				i == start ? 0 : FSM_COST_INFINITY);
 			if (u == NULL) {
 				goto error;
 			}
@@ -82,7 +75,7 @@ fsm_shortest(const struct fsm *fsm,
 			 * It's non-sensical to describe the start state as being reached
 			 * by a symbol; this field is not used.
 			 */
-			if (i == qs) {
+			if (i == start) {
 				u->c = '\0';
 			}
 		}
-- 
2.43.0


From 85652787bb979156edbbd273f2946c89d0d06248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 30/43] fix: fsm_cost_legible() passed negative values to ctype
 functions

---
 src/libfsm/cost/legible.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/cost/legible.c b/src/libfsm/cost/legible.c
index e35c575..0523a7c 100644
--- a/src/libfsm/cost/legible.c
+++ b/src/libfsm/cost/legible.c
@@ -57,7 +57,7 @@ fsm_cost_legible(fsm_state_t from, fsm_state_t to, char c)
 	(void) to;
 
 	for (i = 0; i < sizeof a / sizeof *a; i++) {
-		if (a[i].is(c)) {
+		if (a[i].is((unsigned char)c)) {
 			const unsigned char_class_cost = 1000 * a[i].cost;
 			return char_class_cost + (unsigned char)c;
 		}
-- 
2.43.0


From 206cb8b7f9a441f14854ec4f1b1f0773b3887833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 31/43] fix: fsm_shortest() considered only one character per
 group of edges, and overflowed costs

---
 src/libfsm/shortest.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index c3a5218..ff79230 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -112,21 +112,27 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
-				const uint64_t w = info.symbols[i];
-				if (w != 0) {
-					for (size_t bit = 0; bit < 64; bit++) {
-						if (u64bitset_get(&w, bit)) {
-							symbol = 64*i + bit;
-							break;
-						}
-					}
+			/* find the least-cost character in the bitset */
+			c = FSM_COST_INFINITY;
+			for (size_t i = 0; i <= FSM_SIGMA_MAX; i++) {
+				unsigned n;
+
+				if (!u64bitset_get(info.symbols, i)) {
+					continue;
+				}
+
+				n = cost(u->state, v->state, (char)i);
+				if (symbol == (unsigned)-1 || n < c) {
+					symbol = i;
+					c = n;
 				}
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
+			/* infinitely far */
+			if (c >= FSM_COST_INFINITY - u->cost) {
+				continue;
+			}
 
 			/* relax */
 			if (v->cost > u->cost + c) {
-- 
2.43.0


From 2791b0c7e2d406bda471b3b16c6923df2b9004f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 32/43] fix: fsm_findmode for a state whose edges all lead to
 different states

---
 src/libfsm/mode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/mode.c b/src/libfsm/mode.c
index 87af0bd..c233c40 100644
--- a/src/libfsm/mode.c
+++ b/src/libfsm/mode.c
@@ -27,7 +27,7 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		unsigned int freq;
 	} mode;
 
-	mode.freq = 1;
+	mode.freq = 0;
 	mode.state = (fsm_state_t)-1;
 
 	edge_set_group_iter_reset(fsm->states[state].edges, EDGE_GROUP_ITER_ALL, &iter);
-- 
2.43.0


From 9437645de8edcc50165dd7a1cc361a2417efe626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 33/43] fix: fsm_empty() reported a machine as non-empty when
 it ran out of memory

---
 src/libfsm/empty.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..f89dbd5 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -21,6 +21,7 @@ int
 fsm_empty(const struct fsm *fsm)
 {
 	fsm_state_t start;
+	int r;
 
 	assert(fsm != NULL);
 
@@ -34,10 +35,11 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	r = fsm_reachableany(fsm, start, fsm_isend);
+	if (r == -1) {
+		return -1;
 	}
 
-	return 1;
+	return !r;
 }
 
-- 
2.43.0


From 8e290753e65737cdcb6a1316747d91b2cded1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 34/43] fix: fsm_equal() took running out of memory for an
 empty language

---
 src/libfsm/equal.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 570d038..78b0229 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -90,6 +90,24 @@ subtract(const struct fsm *a, const struct fsm *b)
 	return q;
 }
 
+/*
+ * fsm_empty() considers a missing start state to be an error,
+ * but here it's just a language with nothing in it.
+ */
+static int
+empty(const struct fsm *fsm)
+{
+	fsm_state_t start;
+
+	assert(fsm != NULL);
+
+	if (!fsm_getstart(fsm, &start)) {
+		return 1;
+	}
+
+	return fsm_empty(fsm);
+}
+
 static int
 subsetof(const struct fsm *a, const struct fsm *b)
 {
@@ -104,7 +122,7 @@ subsetof(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	r = fsm_empty(q);
+	r = empty(q);
 
 	fsm_free(q);
 
@@ -118,7 +136,7 @@ subsetof(const struct fsm *a, const struct fsm *b)
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
-	int r;
+	int ra, rb, r;
 
 	assert(a != NULL);
 	assert(b != NULL);
@@ -128,7 +146,17 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
+	ra = empty(a);
+	if (ra == -1) {
+		return -1;
+	}
+
+	rb = empty(b);
+	if (rb == -1) {
+		return -1;
+	}
+
+	if (ra && rb) {
 		return 1;
 	}
 
-- 
2.43.0


From 2c2c728a75b90d46a268395529b41907c8a002c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 35/43] fix: fsm_capture_set_path: report a failed allocation
 of the seen set

---
 src/libfsm/capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..3c8c987 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -148,6 +148,9 @@ fsm_capture_set_path(struct fsm *fsm, unsigned capture_id,
 	seen_words = fsm->statecount/64 + 1;
 	env.seen = f_malloc(fsm->alloc,
 	    seen_words * sizeof(env.seen[0]));
+	if (env.seen == NULL) {
+		goto cleanup;
+	}
 
 	if (!mark_capture_path(&env)) {
 		goto cleanup;
-- 
2.43.0


From 837cbc7128998830008b8d578832540f8e0e0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 36/43] fix: fsm_consolidate: free the new machine on failure,
 and report edge_set_compact failing

---
 src/libfsm/consolidate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..ca303aa 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+				dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
@@ -170,6 +172,7 @@ fsm_consolidate(const struct fsm *src,
 cleanup:
 
 	if (seen != NULL) { f_free(src->alloc, seen); }
+	if (dst != NULL) { fsm_free(dst); }
 	return NULL;
 }
 
-- 
2.43.0


From 13d6fd3a73237e094462c2f31fd7ec01df4499ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 37/43] fix: fsm_reverse: do not leak the reversed edges when
 an allocation fails

---
 src/libfsm/reverse.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index a8383a0..ee689f4 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -172,7 +172,7 @@ fsm_reverse(struct fsm *fsm)
 				assert(e.state < fsm->statecount);
 
 				if (!edge_set_add(&edges[e.state], fsm->alloc, e.symbol, i)) {
-					return 0;
+					goto error1;
 				}
 			}
 		}
@@ -225,7 +225,7 @@ fsm_reverse(struct fsm *fsm)
 			}
 
 			if (!edge_set_copy(&edges[start], fsm->alloc, edges[s])) {
-				goto error;
+				goto error1;
 			}
 		}
 	}
@@ -293,8 +293,6 @@ error1:
 		}
 	}
 
-error:
-
 	state_set_free(endset);
 
 	f_free(fsm->alloc, epsilons);
-- 
2.43.0


From 4759972cc42969e0a98280f66e7c1fdee3ccd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 38/43] fix: fsm_compact_states: report edge_set_compact
 failing, and free the mapping on failure

---
 src/libfsm/state.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 86a4e2d..eaa3877 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -260,7 +260,10 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			if (!edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping)) {
+				f_free(fsm->alloc, mapping);
+				return 0;
+			}
 		}
 	}
 
@@ -292,9 +295,11 @@ fsm_compact_states(struct fsm *fsm,
 
 	/* Remap end metadata */
 	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
 		return 0;
 	}
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
 		return 0;
 	}
 
-- 
2.43.0


From 6162b0972f9f07b0071112c119ab6de93f6f8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 39/43] fix: fsm_removestate: leave no dangling or shared sets
 behind when an allocation fails

---
 src/libfsm/state.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index eaa3877..1d503be 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -137,6 +137,8 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 
 	state_set_free(fsm->states[state].epsilons);
 	edge_set_free(fsm->alloc, fsm->states[state].edges);
+	fsm->states[state].epsilons = NULL;
+	fsm->states[state].edges = NULL;
 
 	if (fsm_getstart(fsm, &start) && start == state) {
 		fsm_clearstart(fsm);
@@ -153,6 +155,8 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	 */
 	if (state < fsm->statecount - 1) {
 		fsm->states[state] = fsm->states[fsm->statecount - 1];
+		fsm->states[fsm->statecount - 1].epsilons = NULL;
+		fsm->states[fsm->statecount - 1].edges = NULL;
 
 		if (fsm_getstart(fsm, &start) && start == fsm->statecount - 1) {
 			fsm_setstart(fsm, state);
-- 
2.43.0


From e4858b0160bd64ea85edfd73e95be9f50a4a2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 40/43] fix: sets were freed with free() rather than by the
 allocator they came from, and leaked on allocation failure

---
 src/adt/set.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -169,7 +170,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From 534a9ebbbbdf486cbd7036e495611c77a45beddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 41/43] fix: interned_state_set_pool_alloc: check the right
 pointer for allocation failure

---
 src/adt/internedstateset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..624c64c 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
-- 
2.43.0


From e4625081531cf9fd050db7c1e94133cf4774dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 42/43] fix: fsm_determinise: leaks and a stale buffer when an
 allocation fails

---
 src/libfsm/determinise.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..46536ff 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -222,6 +222,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 		}
 #endif
 		if (!fsm_addstate_bulk(dfa, dfacount)) {
+			fsm_free(dfa);
 			goto cleanup;
 		}
 
@@ -261,15 +262,18 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * known to have been an end state.
 			 */
 			if (!fsm_endid_carry(nfa, ss, dfa, m->dfastate)) {
+				fsm_free(dfa);
 				goto cleanup;
 			}
 		}
 
 		if (!remap_capture_actions(&map, issp, dfa, nfa)) {
+			fsm_free(dfa);
 			goto cleanup;
 		}
 
 		if (!remap_eager_outputs(&map, issp, dfa, nfa)) {
+			fsm_free(dfa);
 			goto cleanup;
 		}
 
@@ -908,6 +912,7 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) { return 0; } /* never empty, so this is an error */
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -936,12 +941,12 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
 		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
 	}
 
-- 
2.43.0


From d007aba34a3bcf26fabc236cccd3f2bf233e9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 43/43] fix: fsm_compact_states, fsm_removestate: renumber
 capture actions along with their states

---
 src/libfsm/capture.c | 77 ++++++++++++++++++++++++++++++++++++++++++++
 src/libfsm/capture.h |  6 ++++
 src/libfsm/state.c   |  8 ++++-
 3 files changed, 90 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index 3c8c987..b9b2e1b 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -402,6 +402,83 @@ grow_capture_action_buckets(const struct fsm_alloc *alloc,
 	return 1;
 }
 
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count)
+{
+	struct fsm_capture_info *ci;
+	struct fsm_capture_action_bucket *nbuckets;
+	size_t nused = 0;
+	size_t i, mask;
+
+	assert(fsm != NULL);
+	assert(mapping != NULL);
+
+	ci = fsm->capture_info;
+	assert(ci != NULL);
+
+	if (ci->bucket_count == 0) {
+		return 1;
+	}
+
+	nbuckets = f_malloc(fsm->alloc, ci->bucket_count * sizeof(nbuckets[0]));
+	if (nbuckets == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		nbuckets[i].state = CAPTURE_NO_STATE;
+	}
+
+	for (i = 0; i < fsm->statecount; i++) {
+		fsm->states[i].has_capture_actions = 0;
+	}
+
+	mask = ci->bucket_count - 1;
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		struct fsm_capture_action_bucket b = ci->buckets[i];
+		uint64_t h;
+		size_t b_i;
+
+		if (b.state == CAPTURE_NO_STATE) {
+			continue;
+		}
+
+		assert(b.state < mapping_count);
+		b.state = mapping[b.state];
+		if (b.state == FSM_STATE_REMAP_NO_STATE) {
+			continue;
+		}
+
+		if (b.action.to != CAPTURE_NO_STATE) {
+			assert(b.action.to < mapping_count);
+			b.action.to = mapping[b.action.to];
+			if (b.action.to == FSM_STATE_REMAP_NO_STATE) {
+				continue;
+			}
+		}
+
+		h = hash_id(b.state);
+		for (b_i = 0; b_i < ci->bucket_count; b_i++) {
+			struct fsm_capture_action_bucket *dst_b;
+			dst_b = &nbuckets[(h + b_i) & mask];
+			if (dst_b->state == CAPTURE_NO_STATE) {
+				*dst_b = b;
+				fsm->states[b.state].has_capture_actions = 1;
+				nused++;
+				break;
+			}
+		}
+	}
+
+	f_free(fsm->alloc, ci->buckets);
+	ci->buckets = nbuckets;
+	ci->buckets_used = nused;
+
+	return 1;
+}
+
 static int
 grow_trail(struct capture_set_path_env *env)
 {
diff --git a/src/libfsm/capture.h b/src/libfsm/capture.h
index 4c0ba47..280dbde 100644
--- a/src/libfsm/capture.h
+++ b/src/libfsm/capture.h
@@ -53,6 +53,12 @@ fsm_capture_add_action(struct fsm *fsm,
     fsm_state_t state, enum capture_action_type type,
     unsigned id, fsm_state_t to);
 
+/* Update the capture actions after states have been renumbered, discarding
+ * those for (or leading to) states mapped to FSM_STATE_REMAP_NO_STATE. */
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count);
+
 /* Callback for iterating over capture actions.
  * Return 1 to continue, return 0 to halt.
  * If TO is not meaningful for a particular type, it will be
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 1d503be..e2aa546 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -20,6 +20,7 @@
 #include "internal.h"
 #include "endids.h"
 #include "eager_output.h"
+#include "capture.h"
 
 int
 fsm_addstate(struct fsm *fsm, fsm_state_t *state)
@@ -186,7 +187,8 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 		mapping[state] = FSM_STATE_REMAP_NO_STATE;
 
 		if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
-		|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount))
+		|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)
+		|| !fsm_capture_compact(fsm, mapping, fsm->statecount))
 		{
 			f_free(fsm->alloc, mapping);
 			return 0;
@@ -306,6 +308,10 @@ fsm_compact_states(struct fsm *fsm,
 		f_free(fsm->alloc, mapping);
 		return 0;
 	}
+	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
 
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
-- 
2.43.0

