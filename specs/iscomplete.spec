source "src/libfsm/pred/iscomplete.c";
import "graph.spec";

fn fsm_iscomplete {
	requires fsm_graph(fsm) && 0 <= state < fsm->statecount;
	ensures result == 0 || result == 1;
	ensures yes: result == 1 ==> (forall int c {: es_any(fsm->states[state].edges, c) :} . 0 <= c < 256 ==> es_any(fsm->states[state].edges, c));
	ensures no: result == 0 ==> (exists int c . 0 <= c < 256 && !es_any(fsm->states[state].edges, c));
	loop 1 {
		invariant gi_wf(&it) && it.set == fsm->states[state].edges && it.flag == 0 && bm_wf(&bm);
		invariant seen1: forall int c {: bm_has(&bm, c) :} . 0 <= c < 256 && bm_has(&bm, c) ==> es_any(it.set, c);
		invariant seen2: it.set != null ==> (forall int j, int c {: es_bit(it.set, j, c) :} . 0 <= j < it.i && 0 <= c < 256 && es_bit(it.set, j, c) ==> bm_has(&bm, c));
		variant if it.set == null then 0 else it.set->count - it.i;
	}
	at after bm_count 1 assert w0: bm.map[0] != U64_MAX ==> !bm_has(&bm, lsb(bnot(bm.map[0])));
	at after bm_count 1 assert w1: bm.map[1] != U64_MAX ==> !bm_has(&bm, 64 + lsb(bnot(bm.map[1])));
	at after bm_count 1 assert w2: bm.map[2] != U64_MAX ==> !bm_has(&bm, 128 + lsb(bnot(bm.map[2])));
	at after bm_count 1 assert w3: bm.map[3] != U64_MAX ==> !bm_has(&bm, 192 + lsb(bnot(bm.map[3])));
	at after bm_count 1 assert full: result == 256 ==> (forall int c {: bm_has(&bm, c) :} {: es_any(it.set, c) :} . 0 <= c < 256 ==> bm_has(&bm, c));
	at after bm_count 1 assert notfull: result != 256 ==> (let c0 = (if bm.map[0] != U64_MAX then lsb(bnot(bm.map[0])) else if bm.map[1] != U64_MAX then 64 + lsb(bnot(bm.map[1])) else if bm.map[2] != U64_MAX then 128 + lsb(bnot(bm.map[2])) else 192 + lsb(bnot(bm.map[3]))) in 0 <= c0 < 256 && !es_any(fsm->states[state].edges, c0));
	unroll 2 4;
}
