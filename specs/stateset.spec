// Sets of states: sorted arrays with a tagged-pointer singleton form (src/adt/stateset.c)
source "src/adt/stateset.c";
basetype state_set, fsm, fsm_alloc;
basefield state_set.a;

predicate ss_single(state_set *s) = ptr_int(s) % 2 == 1;
logic int ss_dec(state_set *s) = ptr_int(s) / 2;

// representation of the non-null, non-singleton form
predicate ss_heap(state_set *s) =
	block(s) > 0 && valid(s) && s->a != null && block(s->a) > 0
	&& block(s->a) != block(s) && 1 <= s->n && 0 <= s->i <= s->n && valid_n(s->a, s->n)
	&& (forall int j {: s->a[j] :} . 0 <= j < s->i ==> 0 <= s->a[j] <= U32_MAX)
	&& (forall int j, int k {: s->a[j], s->a[k] :} . 0 <= j < k < s->i ==> s->a[j] < s->a[k]);

predicate ss_one(state_set *s) = block(s) < 0 && ss_single(s) && 0 <= ss_dec(s) <= U32_MAX
	&& block(s) == block(ptrof(2 * ss_dec(s) + 1));

predicate ss_wf(state_set *s) = s == null || ss_one(s) || ss_heap(s);

predicate ss_mem(state_set *s, int x) opaque =
	s != null && (if ss_single(s) then x == ss_dec(s) else (exists int j . 0 <= j < s->i && s->a[j] == x));

// the same through the content of the array alone (survives changes elsewhere in memory)
logic bool sq_has(iseq a, int n, int x);
axiom sq_def: forall iseq a, int n, int x {: sq_has(a, n, x) :} . sq_has(a, n, x) <==> (exists int j . 0 <= j < n && a[j] == x);
lemma ss_row sq_def: forall state_set *s, int x {: ss_mem(s, x) :} . s != null && !ss_single(s) ==> (ss_mem(s, x) <==> sq_has(inner(s->a[0]), s->i, x));
logic int ss_count(state_set *s) = if s == null then 0 else if ss_single(s) then 1 else s->i;

fn state_set_cmp {
	// counts are below 2^32 because elements are distinct 32-bit numbers
	requires ss_wf(a) && ss_wf(b) && a != null && b != null && ss_count(a) <= U32_MAX && ss_count(b) <= U32_MAX;
	ensures sound: result == 0 ==> (forall int x . ss_mem(a, x) <==> ss_mem(b, x));
	ensures size: result == 0 ==> ss_count(a) == ss_count(b);
	ensures complete: ss_single(a) && ss_single(b) && ss_dec(a) == ss_dec(b) ==> result == 0;
	ensures complete2: !ss_single(a) && !ss_single(b) && a->i == b->i
		&& (forall int j . 0 <= j < a->i ==> a->a[j] == b->a[j]) ==> result == 0;
}

fn state_set_search {
	requires ss_heap(set) && 0 <= state <= U32_MAX && !ss_single(set);
	ensures range: 0 <= result <= set->i;
	ensures below: forall int j . 0 <= j < result ==> set->a[j] < state;
	ensures above: forall int j . result <= j < set->i ==> set->a[j] >= state;
	loop 1 {
		invariant 0 <= start <= end <= set->i;
		invariant mid: start == end ==> (mid == start || set->i == 0 && mid == 0);
		invariant mid <= set->i;
		invariant forall int j . 0 <= j < start ==> set->a[j] < state;
		invariant forall int j . end <= j < set->i ==> set->a[j] > state;
		variant end - start;
	}
}
fn state_set_create {
	ensures result == null || (fresh(result) && ss_heap(result) && result->i == 0 && fresh(result->a) && result->n == 8 && result->alloc == a);
	allocates;
	assigns @state_set(fresh);
}
fn state_set_free {
	requires ss_wf(set);
	frees set where block(set) > 0; frees set->a where block(set) > 0;
}
fn state_set_empty {
	requires ss_wf(set);
	ensures result == (if ss_count(set) == 0 then 1 else 0);
	ensures some: result == 0 ==> (exists int x . ss_mem(set, x));
	ensures none: result == 1 ==> (forall int x {: ss_mem(set, x) :} . !ss_mem(set, x));
}
fn state_set_only {
	requires ss_wf(set) && ss_count(set) == 1;
	ensures ss_mem(set, result);
	ensures forall int x . ss_mem(set, x) ==> x == result;
}
fn state_set_contains {
	requires ss_wf(set) && 0 <= state <= U32_MAX;
	ensures result == 0 || result == 1;
	ensures result == 1 <==> ss_mem(set, state);
}
fn state_set_count {
	requires ss_wf(set);
	ensures result == ss_count(set);
}

// the set's own heap blocks
predicate ss_owns(state_set *s, int b) = block(s) > 0 && (b == block(s) || b == block(s->a));

fn state_set_add {
	requires valid(setp) && ss_wf(*setp) && 0 <= state <= U32_MAX;
	requires sep: block(*setp) > 0 ==> !ss_owns(*setp, block(setp));
	ensures ok: result == 0 || result == 1;
	ensures wf: ss_wf(*setp);
	ensures keep: forall int x {: ss_mem(*setp, x) :} . result == 1 ==> (ss_mem(*setp, x) <==> (old(ss_mem(*setp, x)) || x == state));
	ensures nonempty: result == 1 ==> *setp != null;
	ensures own: block(*setp) > 0 ==> (if old(block(*setp)) > 0 then *setp == old(*setp) && (block((*setp)->a) == old(block((*setp)->a)) || fresh((*setp)->a)) else fresh(*setp) && fresh((*setp)->a));
	ensures stays: old(block(*setp)) > 0 ==> block(*setp) > 0;
	ensures fail: result == 0 && old(block(*setp)) > 0 ==> *setp == old(*setp);
	ensures first: old(block(*setp) > 0 && (*setp)->i == 0) ==> result == 1 && (*setp)->i == 1 && (*setp)->a[0] == state;
	ensures null_ok: old(*setp == null) ==> result == 1 && ss_one(*setp) && ss_dec(*setp) == state;
	allocates;
	frees (*setp)->a where block(*setp) > 0;
	assigns *setp, @m.u32(block((*setp)->a)) where block(*setp) > 0, @m.u32(fresh), @state_set(block(*setp)) where block(*setp) > 0, @state_set(fresh);
}
fn state_set_add_bulk {
	requires valid(setp) && ss_wf(*setp) && valid_n(a, n) && a != null && off(a) == 0;
	requires forall int j {: a[j] :} . 0 <= j < n ==> 0 <= a[j] <= U32_MAX;
	requires sep: block(*setp) > 0 ==> !ss_owns(*setp, block(setp)) && !ss_owns(*setp, block(a));
	requires sep2: block(a) != block(setp);
	ensures ok: result == 0 || result == 1;
	ensures wf: ss_wf(*setp);
	ensures keep: forall int x {: ss_mem(*setp, x) :} . result == 1 ==> (ss_mem(*setp, x) <==> (old(ss_mem(*setp, x)) || (exists int j . 0 <= j < n && old(a[j]) == x)));
	ensures own: block(*setp) > 0 ==> (if old(block(*setp)) > 0 then *setp == old(*setp) && (block((*setp)->a) == old(block((*setp)->a)) || fresh((*setp)->a)) else fresh(*setp) && fresh((*setp)->a));
	ensures stays: old(block(*setp)) > 0 ==> block(*setp) > 0;
	ensures fail: result == 0 && old(block(*setp)) > 0 ==> *setp == old(*setp);
	allocates;
	frees (*setp)->a where block(*setp) > 0;
	assigns *setp, @m.u32(block((*setp)->a)) where block(*setp) > 0, @m.u32(fresh), @state_set(block(*setp)) where block(*setp) > 0, @state_set(fresh);
	loop 1 {
		invariant 1 <= curr <= i <= max && max == at(L1, set->i) + n && set->a == at(L1, set->a) && set->n == at(L1, set->n) && max <= set->n;
		invariant rest: forall int j {: set->a[j] :} . i <= j < max ==> set->a[j] == at(L1, set->a[j]);
		invariant prev: let q = i - 1 in set->a[q] == at(L1, set->a[q]) && set->a[curr-1] == at(L1, set->a[q]);
		invariant sorted: forall int j, int k {: set->a[j], set->a[k] :} . 0 <= j < k < curr ==> set->a[j] < set->a[k];
		invariant sub: forall int j {: set->a[j] :} . 0 <= j < curr ==> (exists int k . 0 <= k < i && at(L1, set->a[k]) == set->a[j]);
		invariant sup: forall int k {: at(L1, set->a[k]) :} . 0 <= k < i ==> (exists int j . 0 <= j < curr && set->a[j] == at(L1, set->a[k]));
		variant max - i;
	}
}
fn state_set_copy {
	requires valid(dst) && ss_wf(*dst) && ss_wf(src);
	requires sep: block(*dst) > 0 ==> !ss_owns(*dst, block(dst)) && (block(src) > 0 ==> block(src) != block(*dst) && block(src) != block((*dst)->a) && !ss_owns(*dst, block(src->a)));
	requires sep2: block(src) > 0 ==> !ss_owns(src, block(dst));
	ensures ok: result == 0 || result == 1;
	ensures wf: ss_wf(*dst);
	ensures own: block(*dst) > 0 ==> (if old(block(*dst)) > 0 then *dst == old(*dst) && (block((*dst)->a) == old(block((*dst)->a)) || fresh((*dst)->a)) else fresh(*dst) && fresh((*dst)->a));
	ensures stays: old(block(*dst)) > 0 ==> block(*dst) > 0;
	ensures union: forall int x {: ss_mem(*dst, x) :} . result == 1 ==> (ss_mem(*dst, x) <==> (old(ss_mem(*dst, x)) || old(ss_mem(src, x))));
	allocates;
	frees (*dst)->a where block(*dst) > 0;
	assigns *dst, @m.u32(block((*dst)->a)) where block(*dst) > 0, @m.u32(fresh), @state_set(block(*dst)) where block(*dst) > 0, @state_set(fresh);
}

// callbacks given to the set functions: deterministic functions of their arguments
logic int cb_remap(int fn, void *opaque, int s);
logic int cb_pred(int fn, fsm *f, int s);
fn cb_remap_contract {
	trusted;
	ensures result == cb_remap(self, arg2, arg1) && 0 <= result <= U32_MAX;
}
fn cb_pred_contract {
	trusted;
	ensures result == cb_pred(self, arg1, arg2);
}

fn state_set_compact {
	requires valid(setp) && ss_wf(*setp);
	requires sep: block(*setp) > 0 ==> !ss_owns(*setp, block(setp));
	ensures wf: ss_wf(*setp);
	ensures same: block(*setp) == old(block(*setp)) || block(*setp) <= 0 && old(block(*setp)) <= 0;
	ensures image: forall int y . ss_mem(*setp, y) <==> (exists int x . old(ss_mem(*setp, x)) && cb_remap(block(remap), opaque, x) == y && y != U32_MAX);
	callback remap = cb_remap_contract;
	assigns *setp, @m.u32(block((*setp)->a)) where block(*setp) > 0, (*setp)->i where block(*setp) > 0;
	loop 1 {
		invariant 0 <= dst <= i <= set->i && removed == i - dst;
		invariant rest: forall int j {: set->a[j] :} . i <= j < set->i ==> set->a[j] == old((*setp)->a[j]);
		invariant sub: forall int j {: set->a[j] :} . 0 <= j < dst ==> 0 <= set->a[j] < U32_MAX && (exists int k . 0 <= k < i && cb_remap(block(remap), opaque, old((*setp)->a[k])) == set->a[j]);
		invariant sup: forall int k {: old((*setp)->a[k]) :} . 0 <= k < i ==> cb_remap(block(remap), opaque, old((*setp)->a[k])) == U32_MAX || (exists int j . 0 <= j < dst && set->a[j] == cb_remap(block(remap), opaque, old((*setp)->a[k])));
		variant set->i - i;
	}
	// removing duplicates after sorting
	loop 2 {
		invariant 1 <= curr <= i <= set->i && set->i == at(L2, set->i) && set->a == at(L2, set->a) && set->n == at(L2, set->n);
		invariant rest: forall int j {: set->a[j] :} . i <= j < set->i ==> set->a[j] == at(L2, set->a[j]);
		invariant prev: let q = i - 1 in set->a[q] == at(L2, set->a[q]) && set->a[curr-1] == at(L2, set->a[q]);
		invariant sorted: forall int j, int k {: set->a[j], set->a[k] :} . 0 <= j < k < curr ==> set->a[j] < set->a[k];
		invariant sub2: forall int j {: set->a[j] :} . 0 <= j < curr ==> (exists int k . 0 <= k < i && at(L2, set->a[k]) == set->a[j]);
		invariant sup2: forall int k {: at(L2, set->a[k]) :} . 0 <= k < i ==> (exists int j . 0 <= j < curr && set->a[j] == at(L2, set->a[k]));
		variant set->i - i;
	}
}
fn state_set_remove {
	requires valid(setp) && ss_wf(*setp) && 0 <= state <= U32_MAX;
	requires sep: block(*setp) > 0 ==> !ss_owns(*setp, block(setp));
	ensures wf: ss_wf(*setp);
	ensures same: block(*setp) == old(block(*setp)) || block(*setp) <= 0 && old(block(*setp)) <= 0;
	ensures removed: forall int x {: ss_mem(*setp, x) :} . ss_mem(*setp, x) <==> (old(ss_mem(*setp, x)) && x != state);
	ensures size: old(block(*setp)) > 0 ==> *setp == old(*setp) && (*setp)->i == old((*setp)->i) - (if old(ss_mem(*setp, state)) then 1 else 0);
	assigns *setp where block(*setp) <= 0, @m.u32(block((*setp)->a)) where block(*setp) > 0, (*setp)->i where block(*setp) > 0;
}
fn state_set_reset {
	requires valid(it);
	ensures it->i == 0 && it->set == set;
	assigns it->i, it->set;
}
// the k-th element delivered by the iterator
logic int ss_at(state_set *s, int k) = if ss_single(s) then ss_dec(s) else s->a[k];
fn state_set_next {
	requires valid(it) && valid(state) && ss_wf(it->set) && 0 <= it->i <= ss_count(it->set);
	requires block(it->set) > 0 ==> !ss_owns(it->set, block(it)) && !ss_owns(it->set, block(state));
	ensures result == (if old(it->i) < ss_count(it->set) then 1 else 0);
	ensures it->set == old(it->set) && it->i == old(it->i) + result;
	ensures result == 1 ==> *state == ss_at(it->set, old(it->i)) && ss_mem(it->set, *state) && 0 <= *state <= U32_MAX;
	assigns it->i, *state where it->i < ss_count(it->set);
}
fn state_set_has {
	requires ss_wf(set) && fsm != null && predicate != null;
	ensures result == 0 || result == 1;
	ensures result == 1 <==> (exists int x . ss_mem(set, x) && cb_pred(block(predicate), fsm, x) != 0);
	callback predicate = cb_pred_contract;
	loop 1 {
		invariant it.set == set && 0 <= it.i <= ss_count(set);
		invariant forall int k {: ss_at(set, k) :} . 0 <= k < it.i ==> cb_pred(block(predicate), fsm, ss_at(set, k)) == 0;
		variant ss_count(set) - it.i;
	}
}
fn state_set_array {
	requires ss_heap(set) && !ss_single(set);
	ensures result == set->a;
}
fn state_set_rebase {
	requires valid(setp) && ss_wf(*setp) && 0 <= base <= U32_MAX;
	requires sep: block(*setp) > 0 ==> !ss_owns(*setp, block(setp));
	requires nowrap: forall int k {: ss_at(*setp, k) :} . 0 <= k < ss_count(*setp) ==> ss_at(*setp, k) + base <= U32_MAX;
	ensures wf: ss_wf(*setp);
	ensures shifted: forall int x {: ss_mem(*setp, x) :} . ss_mem(*setp, x) <==> old(ss_mem(*setp, x - base));
	ensures same: block(*setp) == old(block(*setp)) || block(*setp) <= 0 && old(block(*setp)) <= 0;
	assigns *setp where block(*setp) <= 0, @m.u32(block((*setp)->a)) where block(*setp) > 0;
	loop 1 {
		invariant 0 <= i <= set->i;
		invariant forall int j {: set->a[j] :} . i <= j < set->i ==> set->a[j] == old((*setp)->a[j]);
		invariant forall int j {: set->a[j] :} . 0 <= j < i ==> set->a[j] == old((*setp)->a[j]) + base;
		variant set->i - i;
	}
}

fn state_set_replace {
	requires valid(setp) && ss_wf(*setp) && 0 <= old <= U32_MAX && 0 <= new <= U32_MAX;
	requires sep: block(*setp) > 0 ==> !ss_owns(*setp, block(setp));
	ensures wf: ss_wf(*setp);
	ensures same: block(*setp) == old(block(*setp)) || block(*setp) <= 0 && old(block(*setp)) <= 0;
	ensures replaced: forall int x {: ss_mem(*setp, x) :} . ss_mem(*setp, x) <==>
		(old(ss_mem(*setp, old)) && x == new || old(ss_mem(*setp, x)) && x != old);
	at exit assert kept: block(*setp) > 0 && (*setp)->i == at(A_state_set_search_1, (*setp)->i) + 1 ==>
		(forall int j {: at(A_state_set_search_1, (*setp)->a[j]) :} . 0 <= j < at(A_state_set_search_1, (*setp)->i) ==> (exists int k . 0 <= k < (*setp)->i && (*setp)->a[k] == at(A_state_set_search_1, (*setp)->a[j])));
	at exit assert only: block(*setp) > 0 && (*setp)->i == at(A_state_set_search_1, (*setp)->i) + 1 ==>
		(forall int k {: (*setp)->a[k] :} . 0 <= k < (*setp)->i ==> (*setp)->a[k] == new || (exists int j . 0 <= j < at(A_state_set_search_1, (*setp)->i) && (*setp)->a[k] == at(A_state_set_search_1, (*setp)->a[j])));
	at exit assert step: forall int x {: ss_mem(*setp, x) :} . ss_mem(*setp, x) <==> at(A_state_set_search_1, ss_mem(*setp, x)) || x == new;
	assigns *setp where block(*setp) <= 0, @m.u32(block((*setp)->a)) where block(*setp) > 0, (*setp)->i where block(*setp) > 0;
}
