// Complement (src/libfsm/complement.c)
source "src/libfsm/complement.c";
import "complete.spec";

fn fsm_trim {
	// assumed contract (bounded check C10): the words stay
	trusted;
	requires fsm_ok(fsm) && shortest_end_distance == null;
	ensures r: -1 <= result;
	ensures ok: result >= 0 ==> fsm_ok(fsm);
	ensures lang: result >= 0 ==> (forall iseq w, int n {: g_acc(fsm, w, n) :} {: old(g_acc(fsm, w, n)) :} . g_acc(fsm, w, n) <==> old(g_acc(fsm, w, n)));
	allocates;
	frees _ where fsm_owns(fsm, _);
	assigns @fsm(_) where 1 == 1, @fsm_state(_) where 1 == 1, @edge_set(_) where 1 == 1, @edge_group(_) where 1 == 1, @state_set(_) where 1 == 1, @m.u32(_) where 1 == 1;
}
fn fsm_complement {
	requires fsm_ok(fsm) && fsm->hasstart != 0 && fsm->statecount < 0x1000000;
	ensures r: result == 0 || result == 1;
	ensures ok: result == 1 ==> fsm_ok(fsm);
	// a word of bytes is accepted afterwards exactly when it was not before
	ensures lang: result == 1 ==> (forall iseq w, int n {: g_acc(fsm, w, n) :} {: old(g_acc(fsm, w, n)) :} . 0 <= n && word_bytes(w, n) ==> (g_acc(fsm, w, n) <==> !old(g_acc(fsm, w, n))));
	allocates;
	frees _ where 1 == 1;
	assigns @fsm(_) where 1 == 1, @fsm_state(_) where 1 == 1, @edge_set(_) where 1 == 1, @edge_group(_) where 1 == 1, @state_set(_) where 1 == 1, @m.u32(_) where 1 == 1;
	call fsm_complete: all = 1;
	at after fsm_all 1 assert det: result == 1 ==> g_det(fsm);
	at after fsm_all 2 assert det: result == 1 ==> g_complete(fsm);
	use next_any, mem_any, es_nondet_det, es_uniq, flip_acc;
	loop 1 {
		invariant ok: fsm_ok(fsm) && 0 <= i <= fsm->statecount;
		invariant flipped: forall int k {: fsm->states[k].end :} . 0 <= k < i ==> (fsm->states[k].end != 0 <==> at(L1, fsm->states[k].end) == 0);
		invariant rest: forall int k {: fsm->states[k].end :} . i <= k < fsm->statecount ==> fsm->states[k].end == at(L1, fsm->states[k].end);
		after lang: forall iseq w, int n {: g_acc(fsm, w, n) :} {: old(g_acc(fsm, w, n)) :} . 0 <= n && word_bytes(w, n) ==> (g_acc(fsm, w, n) <==> !old(g_acc(fsm, w, n)));
		variant fsm->statecount - i;
	}
}
