// Duplicating a subgraph (src/libfsm/subgraph.c)
source "src/libfsm/subgraph.c";
import "state.spec";
import "addedge.spec";
import "isend.spec";
import "fsmc.spec";

predicate sg_off(fsm *f, int b) = b != block(f) && b != block(f->states)
	&& (forall int i {: f->states[i].epsilons :} . 0 <= i < f->statecount ==> !ss_owns(f->states[i].epsilons, b))
	&& (forall int i {: f->states[i].edges :} . 0 <= i < f->statecount && f->states[i].edges != null ==> !es_owns(f->states[i].edges, b));
predicate sg_apart(fsm *f, int b) = b > 0 && sg_off(f, b);

fn fsm_subgraph_start {
	requires fsm_shape(fsm) && valid(subgraph);
	ensures subgraph->start == fsm->statecount;
	assigns subgraph->start;
}
fn fsm_subgraph_stop {
	requires fsm_shape(fsm) && valid(subgraph);
	ensures subgraph->end == fsm->statecount;
	assigns subgraph->end;
}
fn fsm_subgraph_duplicate {
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_ends(fsm) && fsm_starts(fsm) && 0 < fsm->statealloc <= 0x7fffffff;
	requires sub: valid(subgraph) && sg_apart(fsm, block(subgraph)) && subgraph->start < subgraph->end && subgraph->end <= fsm->statecount && 2 * fsm->statecount <= 0x1000000;
	requires out: valid(q) && sg_apart(fsm, block(q)) && (x != null ==> valid(x) && sg_apart(fsm, block(x)) && x != q && subgraph->start <= *x < subgraph->end);
	ensures r: result == 0 || result == 1;
	ensures count: result == 1 ==> fsm->statecount == old(fsm->statecount) + old(subgraph->end - subgraph->start);
	ensures sub: subgraph->start == old(subgraph->start) && subgraph->end == old(subgraph->end);
	ensures q: result == 1 ==> *q == old(fsm->statecount);
	ensures x: result == 1 && x != null ==> *x == old(*x - subgraph->start + fsm->statecount);
	ensures graph: result == 1 ==> fsm_graph(fsm) && fsm_sep(fsm) && fsm_ends(fsm) && fsm_starts(fsm) && fsm->hasstart == old(fsm->hasstart) && fsm->start == old(fsm->start);
	// the original is unchanged
	ensures old_ends: result == 1 ==> (forall int i {: fsm->states[i].end :} . 0 <= i < old(fsm->statecount) ==> fsm->states[i].end == old(fsm->states[i].end));
	ensures old_sym: result == 1 ==> (forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < old(fsm->statecount) && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> old(g_sym(fsm, i, c, t))));
	ensures old_eps: result == 1 ==> (forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < old(fsm->statecount) ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t))));
	// the new states are a copy of it
	ensures new_ends: result == 1 ==> (forall int i, int o {: fsm->states[i].end, old(fsm->states[o].end) :} . old(fsm->statecount) <= i < fsm->statecount && o == i - old(fsm->statecount) + subgraph->start ==> (fsm->states[i].end != 0 <==> old(fsm->states[o].end) != 0));
	ensures new_sym: result == 1 ==> (forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . old(fsm->statecount) <= i < fsm->statecount && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> old(fsm->statecount) <= t < fsm->statecount && old(g_sym(fsm, i - fsm->statecount + subgraph->start, c, t - fsm->statecount + subgraph->start))));
	ensures new_eps: result == 1 ==> (forall int i, int t {: g_eps(fsm, i, t) :} . old(fsm->statecount) <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(fsm->statecount) <= t < fsm->statecount && old(g_eps(fsm, i - fsm->statecount + subgraph->start, t - fsm->statecount + subgraph->start))));
	allocates;
	frees _ where 1 == 1;
	assigns *q, *x where x != null, @fsm(block(fsm)), @fsm_state(_) where 1 == 1, @edge_set(_) where 1 == 1, @edge_group(_) where 1 == 1, @state_set(_) where 1 == 1, @m.u32(_) where 1 == 1;
	use ss_row;
	scoped;
	at after fsm_addstate_bulk assert away: sg_off(fsm, block(subgraph)) && valid(q) && sg_off(fsm, block(q)) && (x != null ==> valid(x) && sg_off(fsm, block(x)) && *x == old(*x));
	at exit assert eps: result == 1 ==> (forall int i, int t {: g_eps(fsm, i, t) :} {: at(X2, g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> at(X2, g_eps(fsm, i, t))));
	at after state_set_next assert same: forall int i, int t {: g_eps(fsm, i, t) :} {: at(B_state_set_next, g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> at(B_state_set_next, g_eps(fsm, i, t)));
	at before state_set_reset assert away: sg_off(fsm, block(&jt)) && sg_off(fsm, block(&old_dst)) && sg_off(fsm, block(&it)) && sg_off(fsm, block(&e));
	loop 1 {
		invariant i: old_start <= ind <= old_end && new_start == (if ind == old_start then 0 else base) && new_end == (if ind == old_start then 0 else base + ind - old_start);
		invariant ends: fsm_ends(fsm);
		invariant old_ends: forall int i {: fsm->states[i].end :} . 0 <= i < base ==> fsm->states[i].end == old(fsm->states[i].end);
		invariant new_ends: forall int i, int o {: fsm->states[i].end, old(fsm->states[o].end) :} . base <= i < base + ind - old_start && o == i - base + old_start ==> (fsm->states[i].end != 0 <==> old(fsm->states[o].end) != 0);
		invariant rest: forall int i {: fsm->states[i].end :} . base + ind - old_start <= i < fsm->statecount ==> fsm->states[i].end == 0;
		assigns fsm->endcount, @fsm_state.end(block(fsm->states));
		variant old_end - ind;
	}
	at after edge_set_next assert to: result == 1 && old_start <= e.state < old_end ==> g_sym(fsm, old_src, e.symbol, e.state) && 0 <= e.symbol < 256 && e.state == it.set->groups[it.i].to;
	at before fsm_addedge_epsilon assert in: new_start <= ind < fsm->statecount && new_start <= new_dst < fsm->statecount && old_src < new_start && g_eps(fsm, old_src, old_dst);
	at after edge_set_next assert done: forall int g, int c {: es_bit(it.set, g, c) :} . result == 1 && it.set != null && 0 <= c < 256 && 0 <= g < it.set->count && (g < it.i || g == it.i && c < it.j) && es_bit(it.set, g, c) && old_start <= it.set->groups[g].to < old_end ==> g_sym(fsm, ind, c, it.set->groups[g].to - old_start + new_start) || c == e.symbol && it.set->groups[g].to == e.state;
	at after fsm_addedge_literal assert keep: result == 1 ==> (forall int c, int t {: at(B_fsm_addedge_literal, g_sym(fsm, ind, c, t)) :} . 0 <= c < 256 && at(B_fsm_addedge_literal, g_sym(fsm, ind, c, t)) ==> g_sym(fsm, ind, c, t));
	at after fsm_addedge_literal assert new: result == 1 ==> g_sym(fsm, ind, e.symbol, new_dst);
	at after fsm_addedge_literal assert bits: forall int g, int c {: es_bit(it.set, g, c) :} . it.set != null && 0 <= g < it.set->count && es_bit(it.set, g, c) ==> at(B_fsm_addedge_literal, es_bit(it.set, g, c)) && it.set->groups[g].to == at(B_fsm_addedge_literal, it.set->groups[g].to) && it.set->count == at(B_fsm_addedge_literal, it.set->count);
	loop 2 {
		assigns @fsm_state.edges(_) where 1 == 1, @fsm_state.epsilons(_) where 1 == 1, @edge_set(_) where 1 == 1, @edge_group(_) where 1 == 1, @state_set(_) where 1 == 1, @m.u32(_) where 1 == 1;
		invariant i: new_start <= ind <= new_start + old_end - old_start && new_end == fsm->statecount && fsm->statecount == new_start + old_end - old_start && new_start == old(fsm->statecount) && old_start == old(subgraph->start) && old_end == old(subgraph->end);
		invariant ok: fsm_graph(fsm) && fsm_sep(fsm);
		invariant outs: valid(q) && sg_off(fsm, block(q)) && (x != null ==> valid(x) && sg_off(fsm, block(x)) && *x == old(*x));
		invariant old_sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < new_start && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> old(g_sym(fsm, i, c, t)));
		invariant old_eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < new_start ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
		invariant new_sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . new_start <= i < ind && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> new_start <= t < fsm->statecount && g_sym(fsm, i - new_start + old_start, c, t - new_start + old_start));
		invariant new_eps: forall int i, int t {: g_eps(fsm, i, t) :} . new_start <= i < ind ==> (g_eps(fsm, i, t) <==> new_start <= t < fsm->statecount && g_eps(fsm, i - new_start + old_start, t - new_start + old_start));
		invariant rest_sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . ind <= i < fsm->statecount && 0 <= c < 256 ==> !g_sym(fsm, i, c, t);
		invariant rest_eps: forall int i, int t {: g_eps(fsm, i, t) :} . ind <= i < fsm->statecount ==> !g_eps(fsm, i, t);
		variant new_end - ind;
	}
	loop 3 {
		assigns jt.i, old_dst, @fsm_state.epsilons(_) where 1 == 1, @state_set(_) where 1 == 1, @m.u32(_) where 1 == 1;
		invariant ok: fsm_graph(fsm) && fsm_sep(fsm);
		invariant outs: valid(q) && sg_off(fsm, block(q)) && (x != null ==> valid(x) && sg_off(fsm, block(x)) && *x == old(*x));
		invariant away: valid(&jt) && valid(&old_dst) && valid(&it) && valid(&e) && sg_off(fsm, block(&jt)) && sg_off(fsm, block(&old_dst)) && sg_off(fsm, block(&it)) && sg_off(fsm, block(&e));
		invariant pos: jt.set == fsm->states[old_src].epsilons && 0 <= jt.i <= ss_count(jt.set);
		invariant sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < fsm->statecount && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> at(L3, g_sym(fsm, i, c, t)));
		invariant eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount && i != ind ==> (g_eps(fsm, i, t) <==> at(L3, g_eps(fsm, i, t)));
		invariant sound: forall int t {: g_eps(fsm, ind, t) :} . g_eps(fsm, ind, t) ==> new_start <= t < fsm->statecount && g_eps(fsm, old_src, t - new_start + old_start);
		invariant compl: forall int k, int o {: ss_at(jt.set, k), g_eps(fsm, old_src, o) :} . 0 <= k < jt.i && o == ss_at(jt.set, k) && old_start <= o < old_end ==> g_eps(fsm, ind, o - old_start + new_start);
		after all: forall int t {: g_eps(fsm, ind, t) :} . g_eps(fsm, ind, t) <==> new_start <= t < fsm->statecount && g_eps(fsm, old_src, t - new_start + old_start);
		variant ss_count(jt.set) - jt.i;
	}
	loop 4 {
		assigns it.i, it.j, e.symbol, e.state, @fsm_state.edges(_) where 1 == 1, @edge_set(_) where 1 == 1, @edge_group(_) where 1 == 1;
		invariant ok: fsm_graph(fsm) && fsm_sep(fsm);
		invariant outs: valid(q) && sg_off(fsm, block(q)) && (x != null ==> valid(x) && sg_off(fsm, block(x)) && *x == old(*x));
		invariant away: valid(&it) && valid(&e) && sg_off(fsm, block(&it)) && sg_off(fsm, block(&e));
		invariant pos: it.set == fsm->states[old_src].edges && (it.set != null ==> 0 <= it.i <= it.set->count && 0 <= it.j <= 256);
		invariant eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> at(L4, g_eps(fsm, i, t)));
		invariant sym: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < fsm->statecount && i != ind && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> at(L4, g_sym(fsm, i, c, t)));
		invariant sound: forall int c, int t {: g_sym(fsm, ind, c, t) :} . 0 <= c < 256 && g_sym(fsm, ind, c, t) ==> new_start <= t < fsm->statecount && g_sym(fsm, old_src, c, t - new_start + old_start);
		invariant compl: forall int g, int c {: es_bit(it.set, g, c) :} . it.set != null && 0 <= c < 256 && 0 <= g < it.set->count && (g < it.i || g == it.i && c < it.j) && es_bit(it.set, g, c) && old_start <= it.set->groups[g].to < old_end ==> g_sym(fsm, ind, c, it.set->groups[g].to - old_start + new_start);
		after all: forall int c, int t {: g_sym(fsm, ind, c, t) :} . 0 <= c < 256 ==> (g_sym(fsm, ind, c, t) <==> new_start <= t < fsm->statecount && g_sym(fsm, old_src, c, t - new_start + old_start));
		after all_eps: forall int t {: g_eps(fsm, ind, t) :} . g_eps(fsm, ind, t) <==> new_start <= t < fsm->statecount && g_eps(fsm, old_src, t - new_start + old_start);
		after all_eps2: let o = old_src in o == ind - new_start + old_start && (forall int t, int i {: g_eps(fsm, i, t) :} . i == ind ==> (g_eps(fsm, i, t) <==> new_start <= t < fsm->statecount && g_eps(fsm, i - new_start + old_start, t - new_start + old_start)));
		variant if it.set == null then 0 else (it.set->count - it.i) * 257 + 256 - it.j;
	}
}
