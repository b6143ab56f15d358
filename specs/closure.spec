// Epsilon closures (src/libfsm/closure.c)
source "src/libfsm/closure.c";
import "graph.spec";
import "queue.spec";

// S is closed under empty moves; b is reachable from a by empty moves (least fixed point)
predicate g_eclosed(fsm *f, iseq S) = forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount && S[i] != 0 && g_eps(f, i, t) ==> S[t] != 0;
predicate g_ereach(fsm *f, int a, int b) opaque = forall iseq S . S[a] != 0 && g_eclosed(f, S) ==> S[b] != 0;
lemma ereach_self: forall fsm *f, int a {: g_ereach(f, a, a) :} . g_ereach(f, a, a);
lemma ereach_step: forall fsm *f, int a, int b, int t {: g_ereach(f, a, b), g_eps(f, b, t) :} . g_ereach(f, a, b) && 0 <= b < f->statecount && g_eps(f, b, t) ==> g_ereach(f, a, t);
lemma ereach_trans: forall fsm *f, int a, int b, int c {: g_ereach(f, a, b), g_ereach(f, b, c) :} . g_ereach(f, a, b) && g_ereach(f, b, c) ==> g_ereach(f, a, c);
lemma ereach_all: forall fsm *f, int a, int b, iseq S {: g_ereach(f, a, b), S[a] :} . g_ereach(f, a, b) && S[a] != 0 && g_eclosed(f, S) ==> S[b] != 0;
// no empty moves out of a
lemma ereach_only (m.u32): forall fsm *f, int a, int b {: g_ereach(f, a, b) :} . f->states[a].epsilons == null && g_ereach(f, a, b) ==> b == a;
// the members of a set as a sequence
comprehension cl_set: forall state_set *c, int a {: ss_mem(c, a) :} . exists iseq S . forall int x {: S[x] :} {: ss_mem(c, x) :} . S[x] != 0 <==> ss_mem(c, x);
lemma ereach_mem (m.u32, state_set.a@b, state_set.i) cl_set ereach_all: forall fsm *f, state_set *c, int a, int b {: old(g_ereach(f, a, b)), ss_mem(c, a), ss_mem(c, b) :} .
	ss_mem(c, a) && old(g_ereach(f, a, b)) && (forall int i, int t {: old(g_eps(f, i, t)) :} . 0 <= i < f->statecount && ss_mem(c, i) && old(g_eps(f, i, t)) ==> ss_mem(c, t)) ==> ss_mem(c, b);

// the sets of an array of closures: each well formed, and sharing no memory with the machine, the array or each other
predicate cl_sets(fsm *f, state_set **cl, int n) =
	valid_n(cl, n) && block(cl) > 0 && off(cl) == 0 && block(cl) != block(f) && block(cl) != block(f->states)
	&& (forall int k {: cl[k] :} . 0 <= k < n ==> ss_wf(cl[k]) && !ss_owns(cl[k], block(cl)) && !ss_owns(cl[k], block(f)) && !ss_owns(cl[k], block(f->states)))
	&& (forall int k, int i {: cl[k], f->states[i].epsilons :} . 0 <= k < n && 0 <= i < f->statecount && block(cl[k]) > 0 ==> !ss_owns(f->states[i].epsilons, block(cl[k])) && !ss_owns(f->states[i].epsilons, block(cl[k]->a)))
	&& (forall int i {: f->states[i].epsilons :} . 0 <= i < f->statecount ==> !ss_owns(f->states[i].epsilons, block(cl)));
predicate cl_apart(state_set **cl, int n) = forall int j, int k {: cl[j], cl[k] :} . 0 <= j < n && 0 <= k < n && j != k && block(cl[k]) > 0 ==> !ss_owns(cl[j], block(cl[k])) && !ss_owns(cl[j], block(cl[k]->a));

fn epsilon_closure_single {
	requires fsm_graph(fsm) && block(fsm) != block(fsm->states) && (forall int i {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> !ss_owns(fsm->states[i].epsilons, block(fsm)) && !ss_owns(fsm->states[i].epsilons, block(fsm->states)));
	requires sets: cl_sets(fsm, closures, fsm->statecount) && cl_apart(closures, fsm->statecount) && 0 <= s < fsm->statecount && closures[s] == null;
	requires clear: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount ==> fsm->states[k].visited == 0;
	requires done: forall int k, int t {: ss_mem(closures[k], t) :} {: g_ereach(fsm, k, t) :} . 0 <= k < fsm->statecount && closures[k] != null ==> (ss_mem(closures[k], t) <==> g_ereach(fsm, k, t));
	requires rng: forall int k, int t {: ss_mem(closures[k], t) :} . 0 <= k < fsm->statecount && closures[k] != null && ss_mem(closures[k], t) ==> 0 <= t < fsm->statecount;
	ensures r: result == 0 || result == 1;
	ensures rng: forall int t {: ss_mem(closures[s], t) :} . result == 1 && ss_mem(closures[s], t) ==> 0 <= t < fsm->statecount;
	ensures wf: ss_wf(closures[s]);
	ensures own: block(closures[s]) > 0 ==> fresh(closures[s]) && fresh(closures[s]->a);
	ensures full: result == 1 ==> closures[s] != null;
	ensures exact: forall int t {: ss_mem(closures[s], t) :} {: old(g_ereach(fsm, s, t)) :} . result == 1 ==> (ss_mem(closures[s], t) <==> old(g_ereach(fsm, s, t)));
	ensures clear: result == 1 ==> (forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount ==> fsm->states[k].visited == 0);
	allocates;
	assigns closures[s], @fsm_state.visited(block(fsm->states)), @state_set(fresh), @m.u32(fresh), @queue(fresh);
	use ss_row, ereach_self, ereach_step, ereach_trans, ereach_mem, nends_free;
	at after state_set_next assert same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at after state_set_next assert others: forall int k, int t {: ss_mem(closures[k], t) :} {: old(ss_mem(closures[k], t)) :} . 0 <= k < fsm->statecount && k != s ==> (ss_mem(closures[k], t) <==> old(ss_mem(closures[k], t)));
	at after state_set_next assert mine: forall int t {: ss_mem(closures[s], t) :} {: at(B_state_set_next, ss_mem(closures[s], t)) :} . ss_mem(closures[s], t) <==> at(B_state_set_next, ss_mem(closures[s], t));
	at after queue_pop assert same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at after queue_pop assert others: forall int k, int t {: ss_mem(closures[k], t) :} {: old(ss_mem(closures[k], t)) :} . 0 <= k < fsm->statecount && k != s ==> (ss_mem(closures[k], t) <==> old(ss_mem(closures[k], t)));
	at after queue_pop assert mine: forall int t {: ss_mem(closures[s], t) :} {: at(B_queue_pop, ss_mem(closures[s], t)) :} . ss_mem(closures[s], t) <==> at(B_queue_pop, ss_mem(closures[s], t));
	at before state_set_copy assert c1: 0 <= p < fsm->statecount && (let pp = p in closures[pp] == old(closures[pp]));
	at before state_set_copy assert c2: ss_wf(closures[p]);
	at after state_set_copy assert same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at after state_set_copy assert fr: block(closures[s]) > 0 ==> fresh(closures[s]) && fresh(closures[s]->a);
	at after state_set_add assert fr: block(closures[s]) > 0 ==> fresh(closures[s]) && fresh(closures[s]->a);
	at after state_set_add assert same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at after state_set_add assert others: forall int k, int t {: ss_mem(closures[k], t) :} {: old(ss_mem(closures[k], t)) :} . 0 <= k < fsm->statecount && k != s ==> (ss_mem(closures[k], t) <==> old(ss_mem(closures[k], t)));
	at before state_set_reset 1 assert real: forall int t {: ss_mem(closures[s], t) :} . ss_mem(closures[s], t) ==> 0 <= t < fsm->statecount && old(g_ereach(fsm, s, t));
	at before state_set_reset 1 assert done: let pp = p in forall int k, int t {: old(g_eps(fsm, k, t)) :} . 0 <= k < fsm->statecount && k != pp && ss_mem(closures[s], k) && old(g_eps(fsm, k, t)) ==> ss_mem(closures[s], t) || fsm->states[t].visited != 0;
	at before state_set_reset 1 assert me: ss_mem(closures[s], p) && ss_mem(closures[s], s);
	at before queue_pop assert me: ss_mem(closures[s], p) && ss_mem(closures[s], s);
	at before queue_pop assert done: forall int k, int t {: old(g_eps(fsm, k, t)) :} . 0 <= k < fsm->statecount && ss_mem(closures[s], k) && old(g_eps(fsm, k, t)) ==> ss_mem(closures[s], t) || q_in(q, t);
	loop 1 {
		invariant same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant others: forall int k, int t {: ss_mem(closures[k], t) :} {: old(ss_mem(closures[k], t)) :} . 0 <= k < fsm->statecount && k != s ==> (ss_mem(closures[k], t) <==> old(ss_mem(closures[k], t)));
		invariant set: ss_wf(closures[s]) && (closures[s] == null ==> p == s) && (block(closures[s]) > 0 ==> fresh(closures[s]) && fresh(closures[s]->a));
		invariant new: let c = closures[s] in block(c) > 0 ==> (let a = c->a in at(L1, newer(c) && newer(a)));
		invariant q: q_ok(q) && fresh(q) && !ss_owns(closures[s], block(q)) && (forall int x {: q_in(q, x) :} . q_in(q, x) ==> 0 <= x < fsm->statecount && fsm->states[x].visited != 0);
		invariant away: !ss_owns(closures[s], block(&p)) && !ss_owns(closures[s], block(&it));
		invariant here: (p == s || ss_mem(closures[s], s)) && 0 <= p < fsm->statecount && fsm->states[p].visited != 0;
		invariant real1: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> old(g_ereach(fsm, s, k));
		invariant real2: forall int t {: ss_mem(closures[s], t) :} . ss_mem(closures[s], t) ==> 0 <= t < fsm->statecount && old(g_ereach(fsm, s, t));
		invariant vis: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> q_in(q, k) || k == p || ss_mem(closures[s], k);
		invariant done: forall int k, int t {: old(g_eps(fsm, k, t)) :} . 0 <= k < fsm->statecount && ss_mem(closures[s], k) && old(g_eps(fsm, k, t)) ==> ss_mem(closures[s], t) || fsm->states[t].visited != 0;
		variant fsm->statecount - nends(inner(fsm->states[0].visited), fsm->statecount) + q_len(q) + 1;
		after all: forall int t {: old(g_ereach(fsm, s, t)) :} . old(g_ereach(fsm, s, t)) ==> ss_mem(closures[s], t);
	}
	loop 2 {
		assigns es, state_iter.i, @fsm_state.visited(block(fsm->states)), @queue(block(q));
		invariant away: !ss_owns(closures[s], block(&p)) && !ss_owns(closures[s], block(&es)) && !ss_owns(closures[s], block(&state_iter)) && !ss_owns(closures[s], block(&it));
		invariant cnt: nends(inner(fsm->states[0].visited), fsm->statecount) - q_len(q) == at(L2, nends(inner(fsm->states[0].visited), fsm->statecount) - q_len(q));
		invariant same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant others: forall int k, int t {: ss_mem(closures[k], t) :} {: old(ss_mem(closures[k], t)) :} . 0 <= k < fsm->statecount && k != s ==> (ss_mem(closures[k], t) <==> old(ss_mem(closures[k], t)));
		invariant mine: forall int t {: ss_mem(closures[s], t) :} {: at(L2, ss_mem(closures[s], t)) :} . ss_mem(closures[s], t) <==> at(L2, ss_mem(closures[s], t));
		invariant q: q_ok(q) && fresh(q) && (forall int x {: q_in(q, x) :} . q_in(q, x) ==> 0 <= x < fsm->statecount && fsm->states[x].visited != 0);
		invariant real1: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> old(g_ereach(fsm, s, k));
		invariant vis: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> q_in(q, k) || ss_mem(closures[s], k);
		invariant kept: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && at(L2, fsm->states[k].visited) != 0 ==> fsm->states[k].visited != 0;
		invariant pos: state_iter.set == fsm->states[p].epsilons && 0 <= state_iter.i <= ss_count(state_iter.set);
		invariant seen1: state_iter.set != null && ss_single(state_iter.set) && state_iter.i > 0 ==> fsm->states[ss_dec(state_iter.set)].visited != 0;
		invariant seen2: state_iter.set != null && !ss_single(state_iter.set) ==> (forall int k {: state_iter.set->a[k] :} . 0 <= k < state_iter.i ==> fsm->states[state_iter.set->a[k]].visited != 0);
		variant ss_count(state_iter.set) - state_iter.i;
		after out: let pp = p in forall int t {: old(g_eps(fsm, pp, t)) :} . old(g_eps(fsm, pp, t)) ==> fsm->states[t].visited != 0;
	}
	loop 3 {
		assigns p, it.i, @fsm_state.visited(block(fsm->states));
		invariant left0: ss_single(closures[s]) ==> (forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> k == ss_dec(closures[s]));
		invariant mine: forall int t {: ss_mem(closures[s], t) :} {: at(L3, ss_mem(closures[s], t)) :} . ss_mem(closures[s], t) <==> at(L3, ss_mem(closures[s], t));
		invariant rng: forall int t {: ss_mem(closures[s], t) :} . ss_mem(closures[s], t) ==> 0 <= t < fsm->statecount;
		invariant pos: it.set == closures[s] && 0 <= it.i <= ss_count(it.set);
		invariant left1: ss_single(closures[s]) && it.i > 0 ==> (forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount ==> fsm->states[k].visited == 0);
		invariant left2: !ss_single(closures[s]) ==> (forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount && fsm->states[k].visited != 0 ==> (exists int j . it.i <= j < closures[s]->i && closures[s]->a[j] == k));
		variant ss_count(it.set) - it.i;
	}
}

lemma ereach_same (m.u32, state_set.a@b, state_set.i, fsm.states@b, fsm_state.epsilons@b, fsm.statecount): forall fsm *f, int a, int b {: g_ereach(f, a, b), old(g_ereach(f, a, b)) :} .
	f->statecount == old(f->statecount) && (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < f->statecount ==> (g_eps(f, i, t) <==> old(g_eps(f, i, t)))) ==> (g_ereach(f, a, b) <==> old(g_ereach(f, a, b)));

predicate cl_block(state_set **cl, int n, int b) = exists int k . 0 <= k < n && ss_owns(cl[k], b);

fn closure_free {
	requires valid(fsm) && valid_n(closures, n) && 0 <= n <= U32_MAX && block(closures) > 0 && off(closures) == 0 && block(fsm) != block(closures);
	requires sets: forall int k {: closures[k] :} . 0 <= k < n ==> ss_wf(closures[k]) && !ss_owns(closures[k], block(closures)) && !ss_owns(closures[k], block(fsm));
	requires apart: cl_apart(closures, n);
	frees closures;
	frees _ where cl_block(closures, n, _);
	loop 1 {
		frees _ where cl_block(closures, n, _);
		invariant sets: forall int k {: closures[k] :} . s <= k < n ==> ss_wf(closures[k]);
		variant n - s;
	}
}

fn epsilon_closure {
	requires fsm_graph(fsm) && fsm->statecount > 0 && block(fsm) != block(fsm->states) && (forall int i {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> !ss_owns(fsm->states[i].epsilons, block(fsm)) && !ss_owns(fsm->states[i].epsilons, block(fsm->states)));
	ensures own: result != null ==> fresh(result) && cl_sets(fsm, result, fsm->statecount) && cl_apart(result, fsm->statecount);
	ensures new: result != null ==> (forall int k {: result[k] :} . 0 <= k < fsm->statecount ==> result[k] != null && (block(result[k]) > 0 ==> fresh(result[k]) && fresh(result[k]->a)));
	ensures rng: result != null ==> (forall int k, int t {: ss_mem(result[k], t) :} . 0 <= k < fsm->statecount && ss_mem(result[k], t) ==> 0 <= t < fsm->statecount);
	ensures exact: result != null ==> (forall int k, int t {: ss_mem(result[k], t) :} {: old(g_ereach(fsm, k, t)) :} . 0 <= k < fsm->statecount ==> (ss_mem(result[k], t) <==> old(g_ereach(fsm, k, t))));
	ensures same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	allocates;
	assigns @fsm_state.visited(block(fsm->states)), @m.p_state_set(fresh), @state_set(fresh), @m.u32(fresh), @queue(fresh);
	use ss_row, ereach_self, ereach_only, ereach_same;
	loop 1 {
		invariant clear: forall int k {: fsm->states[k].visited :} . 0 <= k < s ==> fsm->states[k].visited == 0;
		invariant none: forall int k {: closures[k] :} . 0 <= k < s ==> (if fsm->states[k].epsilons == null then ss_one(closures[k]) && ss_dec(closures[k]) == k else closures[k] == null);
		variant fsm->statecount - s;
	}
	loop 2 {
		invariant sets: cl_sets(fsm, closures, fsm->statecount) && cl_apart(closures, fsm->statecount);
		invariant new: forall int k {: closures[k] :} . 0 <= k < fsm->statecount ==> (block(closures[k]) > 0 ==> fresh(closures[k]) && fresh(closures[k]->a)) && (let c = closures[k] in block(c) > 0 ==> (let a = c->a in at(L2, newer(c) && newer(a))));
		invariant same: forall int i, int t {: g_eps(fsm, i, t) :} {: old(g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant clear: forall int k {: fsm->states[k].visited :} . 0 <= k < fsm->statecount ==> fsm->states[k].visited == 0;
		invariant full: forall int k {: closures[k] :} . 0 <= k < s ==> closures[k] != null;
		invariant rng: forall int k, int t {: ss_mem(closures[k], t) :} . 0 <= k < fsm->statecount && closures[k] != null && ss_mem(closures[k], t) ==> 0 <= t < fsm->statecount;
		invariant done: forall int k, int t {: ss_mem(closures[k], t) :} {: old(g_ereach(fsm, k, t)) :} . 0 <= k < fsm->statecount && closures[k] != null ==> (ss_mem(closures[k], t) <==> old(g_ereach(fsm, k, t)));
		variant fsm->statecount - s;
	}
	loop 3 {
		frees _ where cl_block(closures, fsm->statecount, _);
		invariant sets: forall int k {: closures[k] :} . s <= k < fsm->statecount ==> ss_wf(closures[k]);
		variant fsm->statecount - s;
	}
}
