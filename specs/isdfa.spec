source "src/libfsm/pred/isdfa.c";
import "graph.spec";
import "start.spec";
import "nondet.spec";

fn fsm_isdfa {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount && fsm_starts(fsm);
	ensures result == 0 || result == 1;
	ensures yes: result == 1 ==> fsm->hasstart != 0 && (forall int t {: g_eps(fsm, state, t) :} . !g_eps(fsm, state, t)) && es_det(fsm->states[state].edges);
	ensures no: result == 0 ==> fsm->hasstart == 0 || (exists int t . g_eps(fsm, state, t)) || !es_det(fsm->states[state].edges);
}
