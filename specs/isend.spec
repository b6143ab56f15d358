source "src/libfsm/pred/isend.c";
import "graph.spec";

fn fsm_isend {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == (if fsm->states[state].end != 0 then 1 else 0);
}
