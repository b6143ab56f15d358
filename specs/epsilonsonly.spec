source "src/libfsm/pred/epsilonsonly.c";
import "graph.spec";

fn fsm_epsilonsonly {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == 0 || result == 1;
	ensures yes: result == 1 ==> (exists int t . g_eps(fsm, state, t)) && (forall int c, int t {: g_sym(fsm, state, c, t) :} . !g_sym(fsm, state, c, t));
	ensures no: result == 0 ==> (forall int t {: g_eps(fsm, state, t) :} . !g_eps(fsm, state, t)) || (exists int c, int t . g_sym(fsm, state, c, t));
}
