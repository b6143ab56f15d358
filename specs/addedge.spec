// Building the transition graph (src/libfsm/edge.c)
source "src/libfsm/edge.c";
import "graph.spec";

fn fsm_addedge_literal {
	requires fsm_graph(fsm) && fsm_sep(fsm) && 0 <= from < fsm->statecount && 0 <= to < fsm->statecount && fsm->statecount <= 0x1000000;
	ensures r: result == 0 || result == 1;
	ensures added: result == 1 ==> (forall int i, int k, int t {: g_sym(fsm, i, k, t) :} . 0 <= i < fsm->statecount && 0 <= k < 256 ==> (g_sym(fsm, i, k, t) <==> old(g_sym(fsm, i, k, t)) || i == from && t == to && k == (if c < 0 then c + 256 else c)));
	ensures eps_kept: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	ensures failed: result == 0 ==> (forall int i, int k, int t {: g_sym(fsm, i, k, t) :} . 0 <= i < fsm->statecount && 0 <= k < 256 ==> (g_sym(fsm, i, k, t) <==> old(g_sym(fsm, i, k, t))));
	ensures graph: fsm_graph(fsm);
	ensures sep: fsm_sep(fsm);
	ensures own: let e = fsm->states[from].edges in (if old(fsm->states[from].edges) != null then e == old(fsm->states[from].edges) && (e->groups == old(fsm->states[from].edges->groups) || fresh(e->groups)) else e == null || fresh(e) && fresh(e->groups));
	allocates;
	assigns fsm->states[from].edges where fsm->states[from].edges == null, fsm->states[from].edges->count where fsm->states[from].edges != null, fsm->states[from].edges->ceil where fsm->states[from].edges != null, fsm->states[from].edges->groups where fsm->states[from].edges != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block(fsm->states[from].edges->groups)) where fsm->states[from].edges != null;
	frees fsm->states[from].edges->groups where fsm->states[from].edges != null;
}
fn fsm_addedge_epsilon {
	requires fsm_graph(fsm) && fsm_sep(fsm) && 0 <= from < fsm->statecount && 0 <= to < fsm->statecount;
	ensures r: result == 0 || result == 1;
	ensures added: result == 1 ==> (forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)) || i == from && t == to));
	ensures sym_kept: forall int i, int k, int t {: g_sym(fsm, i, k, t) :} . 0 <= i < fsm->statecount ==> (g_sym(fsm, i, k, t) <==> old(g_sym(fsm, i, k, t)));
	ensures graph: result == 1 ==> fsm_graph(fsm);
	ensures sep: result == 1 ==> fsm_sep(fsm);
	ensures own: let e = fsm->states[from].epsilons in block(e) > 0 ==> (block(e) == old(block(fsm->states[from].epsilons)) || fresh(e)) && (old(block(fsm->states[from].epsilons)) > 0 && block(e->a) == old(block(fsm->states[from].epsilons->a)) || fresh(e->a));
	allocates;
	assigns fsm->states[from].epsilons, @m.u32(block(fsm->states[from].epsilons->a)) where block(fsm->states[from].epsilons) > 0, @m.u32(fresh), @state_set(block(fsm->states[from].epsilons)) where block(fsm->states[from].epsilons) > 0, @state_set(fresh);
	frees fsm->states[from].epsilons->a where block(fsm->states[from].epsilons) > 0;
}
fn fsm_addedge_any {
	requires fsm_graph(fsm) && fsm_sep(fsm) && 0 <= from < fsm->statecount && 0 <= to < fsm->statecount && fsm->statecount <= 0x1000000;
	ensures r: result == 0 || result == 1;
	ensures added: result == 1 ==> (forall int i, int k, int t {: g_sym(fsm, i, k, t) :} . 0 <= i < fsm->statecount && 0 <= k < 256 ==> (g_sym(fsm, i, k, t) <==> old(g_sym(fsm, i, k, t)) || i == from && t == to));
	ensures eps_kept: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	ensures graph: fsm_graph(fsm);
	ensures sep: fsm_sep(fsm);
	ensures own: let e = fsm->states[from].edges in (if old(fsm->states[from].edges) != null then e == old(fsm->states[from].edges) && (e->groups == old(fsm->states[from].edges->groups) || fresh(e->groups)) else e == null || fresh(e) && fresh(e->groups));
	allocates;
	assigns fsm->states[from].edges where fsm->states[from].edges == null, fsm->states[from].edges->count where fsm->states[from].edges != null, fsm->states[from].edges->ceil where fsm->states[from].edges != null, fsm->states[from].edges->groups where fsm->states[from].edges != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block(fsm->states[from].edges->groups)) where fsm->states[from].edges != null;
	frees fsm->states[from].edges->groups where fsm->states[from].edges != null;
	loop 1 {
		invariant 0 <= i <= 256;
		invariant graph: fsm_graph(fsm);
		invariant sep: fsm_sep(fsm);
		invariant sym: forall int s, int k, int t {: g_sym(fsm, s, k, t) :} . 0 <= s < fsm->statecount && 0 <= k < 256 ==> (g_sym(fsm, s, k, t) <==> old(g_sym(fsm, s, k, t)) || s == from && t == to && k < i);
		invariant eps: forall int s, int t {: g_eps(fsm, s, t) :} . 0 <= s < fsm->statecount ==> (g_eps(fsm, s, t) <==> old(g_eps(fsm, s, t)));
		invariant own: let e = fsm->states[from].edges in (if old(fsm->states[from].edges) != null then e == old(fsm->states[from].edges) && (e->groups == old(fsm->states[from].edges->groups) || fresh(e->groups)) else e == null || fresh(e) && fresh(e->groups));
		invariant others: forall int s {: fsm->states[s].edges :} . s != from ==> fsm->states[s].edges == old(fsm->states[s].edges);
		variant 256 - i;
	}
}
