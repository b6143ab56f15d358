// Reachability in the transition graph, and the depth-first search over it
source "src/libfsm/walk/reachable.c";
import "graph.spec";
import "walk_pred.spec";

// S is closed under every transition of the machine
predicate g_closed(fsm *f, iseq S) =
	(forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount && S[i] != 0 && g_eps(f, i, t) ==> S[t] != 0)
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && S[i] != 0 && g_sym(f, i, c, t) ==> S[t] != 0);
// b is reachable from a: b is in every closed set holding a (least fixed point)
predicate g_reach(fsm *f, int a, int b) opaque = forall iseq S . S[a] != 0 && g_closed(f, S) ==> S[b] != 0;
lemma reach_self: forall fsm *f, int a {: g_reach(f, a, a) :} . g_reach(f, a, a);
lemma reach_sym: forall fsm *f, int a, int b, int c, int t {: g_reach(f, a, b), g_sym(f, b, c, t) :} . g_reach(f, a, b) && 0 <= b < f->statecount && g_sym(f, b, c, t) ==> g_reach(f, a, t);
lemma reach_eps: forall fsm *f, int a, int b, int t {: g_reach(f, a, b), g_eps(f, b, t) :} . g_reach(f, a, b) && 0 <= b < f->statecount && g_eps(f, b, t) ==> g_reach(f, a, t);
lemma reach_all: forall fsm *f, int a, int b, iseq S {: g_reach(f, a, b), S[a] :} . g_reach(f, a, b) && S[a] != 0 && g_closed(f, S) ==> S[b] != 0;
// neither depends on memory outside the machine's own sets
lemma eps_frame (m.u32) ss_row: forall fsm *f, int i, int t, int a, int b {: g_eps(f, i, t), old(g_reach(f, a, b)) :} {: old(g_eps(f, i, t)), g_reach(f, a, b) :} .
	(f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_eps(f, i, t) <==> old(g_eps(f, i, t)));
lemma reach_frame (m.u32) eps_frame: forall fsm *f, int a, int b {: g_reach(f, a, b), old(g_reach(f, a, b)) :} .
	(forall int i . 0 <= i < f->statecount && f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_reach(f, a, b) <==> old(g_reach(f, a, b)));

predicate in_q(fsm_state_t *q, int n, int x) opaque = exists int j . 0 <= j < n && q[j] == x;
lemma nends_free ind_n: forall iseq a, int n, int i {: nends(a, n), a[i] :} . 0 <= i < n && a[i] == 0 ==> nends(a, n) <= n - 1;

predicate r_queue(fsm *f, fsm_state_t *q, int n) = 0 <= n <= f->statecount && valid_n(q, f->statecount) && block(q) > 0 && off(q) == 0 && block(q) != block(f->states)
	&& n <= nends(inner(f->states[0].visited), f->statecount)
	&& (forall int j {: q[j] :} . 0 <= j < n ==> 0 <= q[j] < f->statecount && f->states[q[j]].visited != 0);

fn fsm_reachable {
	callback predicate = cb_pred on fsm;
	requires fsm_graph(fsm) && fsm_sep(fsm) && predicate != null && 0 <= state < fsm->statecount;
	ensures r: result == 0 || result == 1 || result == -1;
	ensures any_yes: any != 0 && result == 1 ==> (exists int t . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) && pred_val(block(predicate), t) != 0);
	ensures any_no: any != 0 && result == 0 ==> (forall int t {: old(g_reach(fsm, state, t)) :} . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) ==> pred_val(block(predicate), t) == 0);
	ensures all_no: any == 0 && result == 0 ==> (exists int t . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) && pred_val(block(predicate), t) == 0);
	ensures all_yes: any == 0 && result == 1 ==> (forall int t {: old(g_reach(fsm, state, t)) :} . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) ==> pred_val(block(predicate), t) != 0);
	assigns @fsm_state.visited(block(fsm->states));
	use ss_row, reach_self, reach_sym, reach_eps, reach_all, nends_free;
	at after state_set_next assert same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at after state_set_next assert inq: forall int x {: in_q(q, qtop, x) :} {: at(B_state_set_next_1, in_q(q, qtop, x)) :} . in_q(q, qtop, x) <==> at(B_state_set_next_1, in_q(q, qtop, x));
	at after state_set_next assert it: result == 1 ==> (let d = dst in old(g_eps(fsm, state__2, d))) && 0 <= dst < fsm->statecount;
	loop 1 {
		invariant 0 <= i <= fsm->statecount && nends(inner(fsm->states[0].visited), i) == 0;
		invariant forall int k {: fsm->states[k].visited :} . 0 <= k < i ==> fsm->states[k].visited == 0;
		variant fsm->statecount - i;
	}
	loop 2 {
		invariant same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant r_queue(fsm, q, qtop) && (stopcond == 0 || stopcond == 1) && (stopcond == 0 <==> any == 0);
		invariant from: fsm->states[state].visited != 0;
		invariant real: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> old(g_reach(fsm, state, k));
		invariant done: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 && !in_q(q, qtop, k) ==> (pred_val(block(predicate), k) != 0 <==> stopcond == 0) && (forall int t {: old(g_eps(fsm, k, t)) :} . old(g_eps(fsm, k, t)) ==> fsm->states[t].visited != 0) && (forall int c, int t {: old(g_sym(fsm, k, c, t)) :} . old(g_sym(fsm, k, c, t)) ==> fsm->states[t].visited != 0);
		variant fsm->statecount - nends(inner(fsm->states[0].visited), fsm->statecount) + qtop;
		after closed: qtop == 0 ==> (let S = inner(fsm->states[0].visited) in old(g_closed(fsm, S)));
		after all: qtop == 0 ==> (forall int t {: old(g_reach(fsm, state, t)) :} . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) ==> (pred_val(block(predicate), t) != 0 <==> stopcond == 0));
	}
	loop 3 {
		invariant cnt: nends(inner(fsm->states[0].visited), fsm->statecount) - qtop == at(L3, nends(inner(fsm->states[0].visited), fsm->statecount) - qtop);
		invariant here: 0 <= state__2 < fsm->statecount && fsm->states[state__2].visited != 0 && (pred_val(block(predicate), state__2) != 0 <==> stopcond == 0);
		invariant same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant r_queue(fsm, q, qtop) && (stopcond == 0 || stopcond == 1) && (stopcond == 0 <==> any == 0);
		invariant from: fsm->states[state].visited != 0;
		invariant real: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> old(g_reach(fsm, state, k));
		invariant done: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 && k != state__2 && !in_q(q, qtop, k) ==> (pred_val(block(predicate), k) != 0 <==> stopcond == 0) && (forall int t {: old(g_eps(fsm, k, t)) :} . old(g_eps(fsm, k, t)) ==> fsm->states[t].visited != 0) && (forall int c, int t {: old(g_sym(fsm, k, c, t)) :} . old(g_sym(fsm, k, c, t)) ==> fsm->states[t].visited != 0);
		invariant pos: it.set == fsm->states[state__2].edges && (it.set != null ==> 0 <= it.i <= it.set->count && 0 <= it.j <= 256);
		invariant seen: it.set != null ==> (forall int g, int c {: es_bit(it.set, g, c) :} . 0 <= g < it.set->count && 0 <= c < 256 && (g < it.i || g == it.i && c < it.j) && es_bit(it.set, g, c) ==> fsm->states[it.set->groups[g].to].visited != 0);
		variant if it.set == null then 0 else (it.set->count - it.i) * 257 + 256 - it.j;
		after out: forall int c, int t {: g_sym(fsm, state__2, c, t) :} . g_sym(fsm, state__2, c, t) ==> fsm->states[t].visited != 0;
	}
	loop 4 {
		invariant cnt: nends(inner(fsm->states[0].visited), fsm->statecount) - qtop == at(L4, nends(inner(fsm->states[0].visited), fsm->statecount) - qtop);
		invariant here: 0 <= state__2 < fsm->statecount && fsm->states[state__2].visited != 0 && (pred_val(block(predicate), state__2) != 0 <==> stopcond == 0);
		invariant same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant r_queue(fsm, q, qtop) && (stopcond == 0 || stopcond == 1) && (stopcond == 0 <==> any == 0);
		invariant from: fsm->states[state].visited != 0;
		invariant real: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> old(g_reach(fsm, state, k));
		invariant done: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 && k != state__2 && !in_q(q, qtop, k) ==> (pred_val(block(predicate), k) != 0 <==> stopcond == 0) && (forall int t {: old(g_eps(fsm, k, t)) :} . old(g_eps(fsm, k, t)) ==> fsm->states[t].visited != 0) && (forall int c, int t {: old(g_sym(fsm, k, c, t)) :} . old(g_sym(fsm, k, c, t)) ==> fsm->states[t].visited != 0);
		invariant sym: forall int c, int t {: g_sym(fsm, state__2, c, t) :} . g_sym(fsm, state__2, c, t) ==> fsm->states[t].visited != 0;
		invariant pos: si.set == fsm->states[state__2].epsilons && 0 <= si.i <= ss_count(si.set);
		invariant seen1: si.set != null && ss_single(si.set) && si.i > 0 ==> fsm->states[ss_dec(si.set)].visited != 0;
		invariant seen2: si.set != null && !ss_single(si.set) ==> (forall int k {: si.set->a[k] :} . 0 <= k < si.i ==> fsm->states[si.set->a[k]].visited != 0);
		variant ss_count(si.set) - si.i;
		after out: forall int t {: old(g_eps(fsm, state__2, t)) :} . old(g_eps(fsm, state__2, t)) ==> fsm->states[t].visited != 0;
	}
	loop 5 {
		invariant 0 <= i <= fsm->statecount;
		variant fsm->statecount - i;
	}
}

fn fsm_reachableall {
	callback predicate = cb_pred on fsm;
	requires fsm_graph(fsm) && fsm_sep(fsm) && predicate != null && 0 <= state < fsm->statecount;
	ensures r: result == 0 || result == 1 || result == -1;
	ensures no: result == 0 ==> (exists int t . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) && pred_val(block(predicate), t) == 0);
	ensures yes: result == 1 ==> (forall int t {: old(g_reach(fsm, state, t)) :} . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) ==> pred_val(block(predicate), t) != 0);
	assigns @fsm_state.visited(block(fsm->states));
}
fn fsm_reachableany {
	callback predicate = cb_pred on fsm;
	requires fsm_graph(fsm) && fsm_sep(fsm) && predicate != null && 0 <= state < fsm->statecount;
	ensures r: result == 0 || result == 1 || result == -1;
	ensures yes: result == 1 ==> (exists int t . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) && pred_val(block(predicate), t) != 0);
	ensures no: result == 0 ==> (forall int t {: old(g_reach(fsm, state, t)) :} . 0 <= t < fsm->statecount && old(g_reach(fsm, state, t)) ==> pred_val(block(predicate), t) == 0);
	assigns @fsm_state.visited(block(fsm->states));
}
