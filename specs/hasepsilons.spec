source "src/libfsm/pred/hasepsilons.c";
import "graph.spec";

fn fsm_hasepsilons {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == 0 || result == 1;
	ensures none: result == 0 ==> (forall int t {: g_eps(fsm, state, t) :} . !g_eps(fsm, state, t));
	ensures some: result == 1 ==> (exists int t . g_eps(fsm, state, t));
}
