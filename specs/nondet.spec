source "src/libfsm/pred/hasnondeterminism.c";
import "graph.spec";
import "hasepsilons.spec";
fn state_hasnondeterminism {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount && bm_wf(bm) && (fsm->states[state].edges != null ==> !es_owns(fsm->states[state].edges, block(bm)));
	ensures r: result == 0 || result == 1;
	ensures bm: bm_wf(bm);
	ensures empty: old(bm_none(bm)) ==> (result == 0 <==> es_det(fsm->states[state].edges));
	assigns @bm.map(block(bm));
}
