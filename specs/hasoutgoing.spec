source "src/libfsm/pred/hasoutgoing.c";
import "graph.spec";

fn fsm_hasoutgoing {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == 0 || result == 1;
	ensures no: result == 0 ==> (forall int t {: g_eps(fsm, state, t) :} . !g_eps(fsm, state, t)) && (forall int c, int t {: g_sym(fsm, state, c, t) :} . !g_sym(fsm, state, c, t));
	ensures yes: result == 1 ==> (exists int t . g_eps(fsm, state, t)) || (exists int c, int t . g_sym(fsm, state, c, t));
}
