// The machine: struct fsm, its state array, start and accepting states
// (src/libfsm/internal.h, end.c, start.c, state.c, pred/isend.c)
source "src/libfsm/end.c";
basetype fsm, fsm_alloc, state_set, edge_set;
basefield fsm.states;

// number of states marked accepting among the first n flags of a sequence
logic int nends(iseq a, int n);
axiom nends_0 auto: forall iseq a, int n {: nends(a, n) :} . n <= 0 ==> nends(a, n) == 0;
axiom nends_s auto: forall iseq a, int n {: nends(a, n) :} . n > 0 ==> nends(a, n) == nends(a, n - 1) + (if a[n - 1] != 0 then 1 else 0);
lemma nends_range auto ind_n: forall iseq a, int n {: nends(a, n) :} . 0 <= nends(a, n) && (n >= 0 ==> nends(a, n) <= n);
lemma nends_upd auto ind_n: forall iseq a, int i, int v, int n {: nends(a[i := v], n) :} .
	nends(a[i := v], n) == nends(a, n) + (if 0 <= i < n then (if v != 0 then 1 else 0) - (if a[i] != 0 then 1 else 0) else 0);
lemma nends_ext ind_n: forall iseq a, iseq b, int n {: nends(a, n), nends(b, n) :} . (forall int i . 0 <= i < n ==> (a[i] != 0 <==> b[i] != 0)) ==> nends(a, n) == nends(b, n);
lemma nends_pos ind_n: forall iseq a, int n, int i {: nends(a, n), a[i] :} . 0 <= i < n && a[i] != 0 ==> nends(a, n) > 0;

predicate fsm_shape(fsm *f) =
	block(f) > 0 && valid(f) && block(f->states) > 0 && valid_n(f->states, f->statealloc)
	&& 0 <= f->statecount <= f->statealloc && f->statealloc <= U32_MAX;
logic int fsm_nends(fsm *f) = nends(inner(f->states[0].end), f->statecount);
predicate fsm_starts(fsm *f) = f->hasstart != 0 ==> 0 <= f->start < f->statecount;
predicate fsm_ends(fsm *f) = f->endcount == fsm_nends(f);

fn fsm_setend {
	requires fsm_shape(fsm) && 0 <= state < fsm->statecount && fsm_ends(fsm) && fsm->statecount < 0x7fffffff;
	ensures marked: fsm->states[state].end == (if end != 0 then 1 else 0);
	ensures count: fsm_ends(fsm);
	use nends_pos;
	assigns fsm->states[state].end, fsm->endcount;
}
