// Adding states (src/libfsm/state.c)
source "src/libfsm/state.c";
import "graph.spec";
import "start.spec";

// the machine is as it was, with n states more: without edges, not accepting
predicate st_new(fsm *f, int i) = f->states[i].end == 0 && f->states[i].visited == 0 && f->states[i].edges == null && f->states[i].epsilons == null && f->states[i].has_capture_actions == 0 && f->states[i].has_eager_outputs == 0;

fn fsm_addstate {
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_ends(fsm) && fsm_starts(fsm) && 0 < fsm->statealloc <= 0x7fffffff;
	requires out: state != null ==> valid(state) && block(state) > 0 && block(state) != block(fsm->states) && block(state) != block(fsm) && (forall int i {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> !ss_owns(fsm->states[i].epsilons, block(state)));
	ensures r: result == 0 || result == 1;
	ensures count: fsm->statecount == old(fsm->statecount) + result;
	ensures id: result == 1 && state != null ==> *state == old(fsm->statecount);
	ensures graph: fsm_graph(fsm);
	ensures sep: fsm_sep(fsm);
	ensures ends: fsm_ends(fsm) && fsm->endcount == old(fsm->endcount);
	ensures starts: fsm_starts(fsm) && fsm->hasstart == old(fsm->hasstart) && fsm->start == old(fsm->start);
	ensures own: fsm->states == old(fsm->states) || off(fsm->states) == 0 && fresh(fsm->states);
	ensures alloc: fsm->statealloc == old(fsm->statealloc) || fsm->statealloc == 2 * old(fsm->statecount);
	ensures new: result == 1 ==> st_new(fsm, old(fsm->statecount));
	ensures old_ends: forall int i {: fsm->states[i].end :} {: fsm->states[i].visited :} {: fsm->states[i].has_capture_actions :} {: fsm->states[i].has_eager_outputs :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].end == old(fsm->states[i].end) && fsm->states[i].visited == old(fsm->states[i].visited) && fsm->states[i].has_capture_actions == old(fsm->states[i].has_capture_actions) && fsm->states[i].has_eager_outputs == old(fsm->states[i].has_eager_outputs);
	ensures old_ptr: forall int i {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].edges == old(fsm->states[i].edges) && fsm->states[i].epsilons == old(fsm->states[i].epsilons);
	ensures old_sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < old(fsm->statecount) ==> (g_sym(fsm, i, c, t) <==> old(g_sym(fsm, i, c, t)));
	ensures old_eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < old(fsm->statecount) ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at exit assert eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < old(fsm->statecount) ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	use nends_ext, ss_row;
	allocates;
	frees fsm->states;
	assigns fsm->states, fsm->statecount, fsm->statealloc, *state where state != null, @fsm_state(block(fsm->states)), @fsm_state(fresh);
	loop 1 {
		invariant fsm->statealloc <= i <= n;
		invariant kept: forall int k {: tmp[k].has_capture_actions :} {: tmp[k].has_eager_outputs :} . 0 <= k < fsm->statealloc ==> tmp[k].has_capture_actions == at(L1, tmp[k].has_capture_actions) && tmp[k].has_eager_outputs == at(L1, tmp[k].has_eager_outputs);
		variant n - i;
	}
}
lemma nends_new ind_n: forall iseq a, int m, int n {: nends(a, m), nends(a, n) :} . 0 <= m && (forall int i . m <= i < n ==> a[i] == 0) && m <= n ==> nends(a, n) == nends(a, m);
fn fsm_addstate_bulk {
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_ends(fsm) && fsm_starts(fsm) && 0 < fsm->statealloc <= 0x7fffffff && fsm->statecount + n <= 0x3fffffff;
	ensures r: result == 0 || result == 1;
	ensures count: if result == 1 then fsm->statecount == old(fsm->statecount) + n else old(fsm->statecount) <= fsm->statecount < old(fsm->statecount) + n;
	ensures cap: result == 1 ==> 0 < fsm->statealloc <= 0x7fffffff;
	ensures own: fsm->states == old(fsm->states) || off(fsm->states) == 0 && fresh(fsm->states);
	ensures graph: fsm_graph(fsm);
	ensures sep: fsm_sep(fsm);
	ensures ends: fsm_ends(fsm) && fsm->endcount == old(fsm->endcount);
	ensures starts: fsm_starts(fsm) && fsm->hasstart == old(fsm->hasstart) && fsm->start == old(fsm->start);
	ensures new: forall int i {: fsm->states[i].end :} {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . old(fsm->statecount) <= i < fsm->statecount ==> st_new(fsm, i);
	ensures old_ends: forall int i {: fsm->states[i].end :} {: fsm->states[i].visited :} {: fsm->states[i].has_capture_actions :} {: fsm->states[i].has_eager_outputs :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].end == old(fsm->states[i].end) && fsm->states[i].visited == old(fsm->states[i].visited) && fsm->states[i].has_capture_actions == old(fsm->states[i].has_capture_actions) && fsm->states[i].has_eager_outputs == old(fsm->states[i].has_eager_outputs);
	ensures old_ptr: forall int i {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].edges == old(fsm->states[i].edges) && fsm->states[i].epsilons == old(fsm->states[i].epsilons);
	ensures old_sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < old(fsm->statecount) ==> (g_sym(fsm, i, c, t) <==> old(g_sym(fsm, i, c, t)));
	ensures old_eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < old(fsm->statecount) ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	at after fsm_addstate assert eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < old(fsm->statecount) ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	use nends_ext, nends_new, ss_row;
	allocates;
	frees fsm->states;
	assigns fsm->states, fsm->statecount, fsm->statealloc, @fsm_state(block(fsm->states)), @fsm_state(fresh), @m.u32(fresh);
	loop 1 {
		invariant 0 <= i <= n;
		invariant made: forall int k {: fsm->states[k].end :} {: fsm->states[k].edges :} {: fsm->states[k].epsilons :} . fsm->statecount <= k < fsm->statecount + i ==> st_new(fsm, k);
		invariant kept: forall int k {: fsm->states[k].end :} {: fsm->states[k].edges :} {: fsm->states[k].epsilons :} {: fsm->states[k].visited :} {: fsm->states[k].has_capture_actions :} {: fsm->states[k].has_eager_outputs :} . 0 <= k < fsm->statecount ==> fsm->states[k].end == old(fsm->states[k].end) && fsm->states[k].edges == old(fsm->states[k].edges) && fsm->states[k].epsilons == old(fsm->states[k].epsilons)
			&& fsm->states[k].visited == old(fsm->states[k].visited) && fsm->states[k].has_capture_actions == old(fsm->states[k].has_capture_actions) && fsm->states[k].has_eager_outputs == old(fsm->states[k].has_eager_outputs);
		variant n - i;
	}
	loop 2 {
		invariant own: fsm->states == old(fsm->states) || off(fsm->states) == 0 && fresh(fsm->states);
		invariant 0 <= i <= n && fsm->statecount == old(fsm->statecount) + i && 0 < fsm->statealloc <= 0x7fffffff;
		invariant graph: fsm_graph(fsm);
		invariant sep: fsm_sep(fsm);
		invariant ends: fsm_ends(fsm) && fsm->endcount == old(fsm->endcount);
		invariant starts: fsm_starts(fsm) && fsm->hasstart == old(fsm->hasstart) && fsm->start == old(fsm->start);
		invariant new: forall int i {: fsm->states[i].end :} {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . old(fsm->statecount) <= i < fsm->statecount ==> st_new(fsm, i);
		invariant old_ends: forall int i {: fsm->states[i].end :} {: fsm->states[i].visited :} {: fsm->states[i].has_capture_actions :} {: fsm->states[i].has_eager_outputs :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].end == old(fsm->states[i].end) && fsm->states[i].visited == old(fsm->states[i].visited) && fsm->states[i].has_capture_actions == old(fsm->states[i].has_capture_actions) && fsm->states[i].has_eager_outputs == old(fsm->states[i].has_eager_outputs);
		invariant old_ptr: forall int i {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].edges == old(fsm->states[i].edges) && fsm->states[i].epsilons == old(fsm->states[i].epsilons);
		invariant old_sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < old(fsm->statecount) ==> (g_sym(fsm, i, c, t) <==> old(g_sym(fsm, i, c, t)));
		invariant old_eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < old(fsm->statecount) ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		variant n - i;
	}
}
