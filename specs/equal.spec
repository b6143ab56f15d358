// Equality of languages (src/libfsm/equal.c), over the contract of the subtraction
source "src/libfsm/equal.c";
import "lang.spec";
import "empty.spec";

// L(a) without L(b) holds no word
predicate lang_sub(fsm *a, fsm *b) opaque = forall iseq w, int n {: g_acc(a, w, n) :} . g_acc(a, w, n) ==> g_acc(b, w, n);
lemma sub_some: forall fsm *a, fsm *b, fsm *q {: lang_sub(a, b), g_some(q) :} . (forall iseq w, int n {: g_acc(q, w, n) :} {: g_acc(a, w, n) :} . g_acc(q, w, n) <==> g_acc(a, w, n) && !g_acc(b, w, n)) ==> (lang_sub(a, b) <==> !g_some(q));

fn fsm_free {
	// trusted here: releases only the memory of the machine it is given
	trusted;
	requires fsm_graph(fsm);
	assigns nothing;
}
fn subtract {
	// assumed contract: fsm_subtract's product construction (bounded check C07)
	trusted;
	requires fsm_graph(a) && fsm_sep(a) && fsm_graph(b) && fsm_sep(b) && fsm_starts(a) && fsm_starts(b);
	allocates;
	ensures fresh: result != null ==> fresh(block(result)) && fresh(block(result->states));
	ensures q: result != null ==> fsm_graph(result) && fsm_sep(result) && fsm_starts(result);
	ensures lang: result != null ==> (forall iseq w, int n {: g_acc(result, w, n) :} {: g_acc(a, w, n) :} . g_acc(result, w, n) <==> g_acc(a, w, n) && !g_acc(b, w, n));
	assigns @fsm_state.visited(block(a->states)), @fsm_state.visited(block(b->states));
}
fn empty {
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_starts(fsm);
	ensures range: result == 0 || result == 1 || result == -1;
	ensures words: (result == 1 ==> !old(g_some(fsm))) && (result == 0 ==> old(g_some(fsm)));
	assigns @fsm_state.visited(block(fsm->states));
	use some_frame, eps_frame, some_reach;
}
fn subsetof {
	requires fsm_graph(a) && fsm_sep(a) && fsm_graph(b) && fsm_sep(b) && fsm_starts(a) && fsm_starts(b);
	ensures range: result == 0 || result == 1 || result == -1;
	ensures sub: (result == 1 ==> old(lang_sub(b, a))) && (result == 0 ==> !old(lang_sub(b, a)));
	assigns @fsm_state.visited(block(a->states)), @fsm_state.visited(block(b->states)), @fsm_state.visited(fresh);
	use sub_some;
	allocates;
}
fn fsm_equal {
	requires fsm_graph(a) && fsm_sep(a) && fsm_graph(b) && fsm_sep(b) && fsm_starts(a) && fsm_starts(b);
	ensures range: result == 0 || result == 1 || result == -1;
	ensures same: result == 1 ==> old(lang_sub(a, b)) && old(lang_sub(b, a));
	ensures differ: result == 0 ==> !old(lang_sub(a, b)) || !old(lang_sub(b, a));
	assigns @fsm_state.visited(block(a->states)), @fsm_state.visited(block(b->states)), @fsm_state.visited(fresh);
	use sub_some;
	allocates;
}
