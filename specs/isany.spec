source "src/libfsm/pred/isany.c";
import "graph.spec";

fn fsm_isany {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == 1;
}
