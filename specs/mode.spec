// The most common destination of a state
source "src/libfsm/mode.c";
import "graph.spec";
// number of symbols in group j
logic int gpop(edge_set *s, int j) = popc(s->groups[j].symbols[0]) + popc(s->groups[j].symbols[1]) + popc(s->groups[j].symbols[2]) + popc(s->groups[j].symbols[3]);
lemma gpop_pos: forall edge_set *s, int j, int c {: es_bit(s, j, c) :} . 0 <= c < 256 && es_bit(s, j, c) && (forall int w {: s->groups[j].symbols[w] :} . 0 <= w < 4 ==> 0 <= s->groups[j].symbols[w] <= U64_MAX) ==> gpop(s, j) > 0 && s->groups[j].symbols[0] >= 0;
fn fsm_findmode {
	use gpop_pos;
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	requires some: (exists int c . 0 <= c < 256 && es_any(fsm->states[state].edges, c)) && (freq != null ==> block(freq) > 0 && valid(freq));
	// destinations are state numbers, so never the all-ones marker
	requires fsm->statecount <= 0x1000000;
	ensures is: (exists int j . 0 <= j < fsm->states[state].edges->count && fsm->states[state].edges->groups[j].to == result && (freq != null ==> gpop(fsm->states[state].edges, j) == *freq));
	ensures most: freq != null ==> (forall int j {: fsm->states[state].edges->groups[j].symbols[0] :} . 0 <= j < fsm->states[state].edges->count ==> gpop(fsm->states[state].edges, j) <= *freq);
	assigns *freq where freq != null;
	unroll 2 4;
	at after edge_set_group_iter_next assert skip: result == 1 ==> (forall int j {: iter.set->groups[j].symbols[0] :} . at(B_edge_set_group_iter_next_1, iter.i) <= j < iter.i - 1 ==> gpop(iter.set, j) == 0);
	at after edge_set_group_iter_next assert here: result == 1 ==> gpop(iter.set, iter.i - 1) == popc(info.symbols[0]) + popc(info.symbols[1]) + popc(info.symbols[2]) + popc(info.symbols[3]) && gpop(iter.set, iter.i - 1) > 0;
	at after edge_set_group_iter_next assert done: result == 0 ==> (forall int j {: iter.set->groups[j].symbols[0] :} . at(B_edge_set_group_iter_next_1, iter.i) <= j < iter.set->count ==> gpop(iter.set, j) == 0);
	loop 1 {
		invariant gi_wf(&iter) && iter.set == fsm->states[state].edges && iter.flag == 0 && iter.set != null;
		invariant freq: 0 <= mode.freq <= 256 && (mode.freq == 0 <==> mode.state == U32_MAX);
		invariant most: forall int j {: iter.set->groups[j].symbols[0] :} . 0 <= j < iter.i ==> gpop(iter.set, j) <= mode.freq;
		invariant is: mode.freq > 0 ==> (exists int j . 0 <= j < iter.i && iter.set->groups[j].to == mode.state && gpop(iter.set, j) == mode.freq);
		variant iter.set->count - iter.i;
		after nz: forall int w {: iter.set->groups[w].symbols[0] :} . 0 <= w < iter.set->count ==> gpop(iter.set, w) <= mode.freq;
		after pos0: mode.freq == 0 ==> (forall int j, int w {: es_bit(iter.set, j, w) :} . 0 <= j < iter.set->count && 0 <= w < 256 ==> !es_bit(iter.set, j, w));
		after pos: mode.freq == 0 ==> (forall int w {: es_any(iter.set, w) :} . 0 <= w < 256 ==> !es_any(iter.set, w));
	}
}
