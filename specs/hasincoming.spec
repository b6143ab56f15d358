source "src/libfsm/pred/hasincoming.c";
import "graph.spec";

fn fsm_hasincoming {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == 0 || result == 1;
	ensures yes: result == 1 ==> (exists int i . 0 <= i < fsm->statecount && (g_eps(fsm, i, state) || (exists int c . g_sym(fsm, i, c, state))));
	ensures no: result == 0 ==> (forall int i {: g_eps(fsm, i, state) :} . 0 <= i < fsm->statecount ==> !g_eps(fsm, i, state));
	ensures no2: result == 0 ==> (forall int i, int c {: g_sym(fsm, i, c, state) :} . 0 <= i < fsm->statecount ==> !g_sym(fsm, i, c, state));
	loop 1 {
		invariant 0 <= i <= fsm->statecount;
		invariant forall int k {: g_eps(fsm, k, state) :} . 0 <= k < i ==> !g_eps(fsm, k, state);
		invariant forall int k, int c {: g_sym(fsm, k, c, state) :} . 0 <= k < i ==> !g_sym(fsm, k, c, state);
		variant fsm->statecount - i;
	}
	loop 2 {
		invariant gi_wf(&it) && it.set == fsm->states[i].edges && it.flag == 0;
		invariant it.set != null ==> (forall int j, int c {: es_bit(it.set, j, c) :} . 0 <= j < it.i && 0 <= c < 256 && es_bit(it.set, j, c) ==> it.set->groups[j].to != state);
		variant if it.set == null then 0 else it.set->count - it.i;
	}
}
