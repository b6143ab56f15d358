// Emptiness (src/libfsm/empty.c)
source "src/libfsm/empty.c";
import "lang.spec";
import "start.spec";
import "isend.spec";

fn fsm_empty {
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_starts(fsm);
	ensures nostart: fsm->hasstart == 0 ==> result == -1;
	ensures no: result == 0 ==> fsm->hasstart != 0;
	ensures range: result == 0 || result == 1 || result == -1;
	ensures empty: result == 1 ==> (forall int t {: old(g_reach(fsm, fsm->start, t)) :} . 0 <= t < fsm->statecount && old(g_reach(fsm, fsm->start, t)) ==> fsm->states[t].end == 0);
	ensures some: result == 0 ==> (exists int t . 0 <= t < fsm->statecount && old(g_reach(fsm, fsm->start, t)) && fsm->states[t].end != 0);
	// the same over words: exactly when no word is accepted
	ensures words: (result == 1 ==> !old(g_some(fsm))) && (result == 0 ==> old(g_some(fsm)));
	assigns @fsm_state.visited(block(fsm->states));
	use reach_frame, eps_frame, some_reach, reach_some;
}
