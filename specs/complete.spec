// Completion (src/libfsm/complete.c)
source "src/libfsm/complete.c";
import "langops.spec";
import "state.spec";
import "addedge.spec";
import "isdfa.spec";
import "isend.spec";
import "isany.spec";
import "iscomplete.spec";

// the blocks that hold a machine's states and their sets
predicate fsm_owns(fsm *f, int b) opaque = b == block(f->states) || (exists int i {: f->states[i].edges :} {: f->states[i].epsilons :} . 0 <= i < f->statecount && (f->states[i].edges != null && es_owns(f->states[i].edges, b) || ss_owns(f->states[i].epsilons, b)));

predicate fsm_ok(fsm *f) = fsm_graph(f) && fsm_sep(f) && fsm_starts(f) && fsm_ends(f) && 0 < f->statealloc <= 0x7fffffff;

fn fsm_determinise {
	// assumed contract (bounded check C01): a deterministic machine for the same words, still with a start
	trusted;
	requires fsm_ok(fsm) && fsm->hasstart != 0;
	ensures r: result == 0 || result == 1;
	ensures ok: fsm_ok(fsm) && (result == 1 ==> fsm->hasstart != 0 && g_det(fsm) && fsm->statecount < 0x1000000);
	ensures lang: result == 1 ==> (forall iseq w, int n {: g_acc(fsm, w, n) :} {: old(g_acc(fsm, w, n)) :} . g_acc(fsm, w, n) <==> old(g_acc(fsm, w, n)));
	ensures own: forall int b {: fsm_owns(fsm, b) :} . fsm_owns(fsm, b) ==> old(fsm_owns(fsm, b)) || fresh(b);
	allocates;
	frees _ where fsm_owns(fsm, _);
	assigns @fsm(block(fsm)), @fsm_state(_) where fsm_owns(fsm, _), @fsm_state(fresh), @edge_set(_) where fsm_owns(fsm, _), @edge_set(fresh), @edge_group(_) where fsm_owns(fsm, _), @edge_group(fresh),
		@state_set(_) where fsm_owns(fsm, _), @state_set(fresh), @m.u32(_) where fsm_owns(fsm, _), @m.u32(fresh);
}
lemma acc_frame2 (m.u32) runs_frame: forall fsm *f, iseq w, int n {: g_acc(f, w, n), old(g_acc(f, w, n)) :} .
	(forall int i . 0 <= i < f->statecount && f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_acc(f, w, n) <==> old(g_acc(f, w, n)));
// what is asked of the predicate given to fsm_complete; all != 0 when it accepts every state
fn cb_pick {
	trusted;
	ghost int all;
	requires fsm_graph(arg1) && 0 <= arg2 < arg1->statecount;
	ensures all != 0 ==> result != 0;
}
// an edge for c has to be added
predicate c_lack(fsm *f, int i, int c) opaque = 0 <= c < 256 && (forall int t {: g_sym(f, i, c, t) :} . !g_sym(f, i, c, t));
fn fsm_complete {
	ghost int all;
	callback predicate = cb_pick;
	requires fsm_ok(fsm) && fsm->hasstart != 0 && predicate != null && fsm->statecount < 0x1000000;
	ensures r: result == 0 || result == 1;
	ensures ok: result == 1 ==> fsm_ok(fsm) && fsm->hasstart != 0 && fsm->statecount <= 0x1000000;
	ensures det: result == 1 ==> g_det(fsm);
	ensures complete: result == 1 && all != 0 ==> g_complete(fsm);
	ensures lang: result == 1 ==> (forall iseq w, int n {: g_acc(fsm, w, n) :} {: old(g_acc(fsm, w, n)) :} . g_acc(fsm, w, n) <==> old(g_acc(fsm, w, n)));
	allocates;
	frees _ where 1 == 1;
	assigns @fsm(_) where 1 == 1, @fsm_state(_) where 1 == 1, @edge_set(_) where 1 == 1, @edge_group(_) where 1 == 1, @state_set(_) where 1 == 1, @m.u32(_) where 1 == 1;
	scoped;
	use sink_acc, next_any, acc_frame2, ss_row, mem_any, es_nondet_det, es_uniq;
	at after fsm_all assert det: result == 1 ==> g_det(fsm);
	at after fsm_determinise assert away: !fsm_owns(fsm, block(&new));
	at before fsm_determinise assert same: forall iseq w, int n {: old(g_acc(fsm, w, n)) :} {: g_acc(fsm, w, n) :} . g_acc(fsm, w, n) <==> old(g_acc(fsm, w, n));
	at after fsm_has assert same: forall iseq w, int n {: old(g_acc(fsm, w, n)) :} {: g_acc(fsm, w, n) :} . g_acc(fsm, w, n) <==> old(g_acc(fsm, w, n));
	at after fsm_has assert away: !fsm_owns(fsm, block(&new));
	at after fsm_addstate assert away: forall int i {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> (fsm->states[i].edges != null ==> !es_owns(fsm->states[i].edges, block(&new))) && !ss_owns(fsm->states[i].epsilons, block(&new));
	at after fsm_addedge_any assert sink: result == 1 ==> (forall int c, int t {: g_sym(fsm, new, c, t) :} . g_sym(fsm, new, c, t) <==> t == new && 0 <= c < 256);
	loop 1 {
		invariant ok: fsm_ok(fsm) && fsm->hasstart != 0 && 0 <= s <= fsm->statecount && fsm->statecount <= 0x1000000 && fsm->statecount == new + 1 && new == at(A_fsm_has_1, fsm->statecount);
		invariant start: fsm->start == at(A_fsm_has_1, fsm->start);
		invariant eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> !g_eps(fsm, i, t);
		invariant todo: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . s <= i < new ==> (g_sym(fsm, i, c, t) <==> at(A_fsm_has_1, g_sym(fsm, i, c, t)));
		invariant kept: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} {: at(A_fsm_has_1, g_sym(fsm, i, c, t)) :} . 0 <= i < s && i < new && at(A_fsm_has_1, g_sym(fsm, i, c, t)) ==> g_sym(fsm, i, c, t);
		invariant added: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} . 0 <= i < s && i < new && g_sym(fsm, i, c, t) ==> at(A_fsm_has_1, g_sym(fsm, i, c, t)) || t == new && at(A_fsm_has_1, c_lack(fsm, i, c));
		invariant full: all != 0 ==> (forall int i, int c {: g_next(fsm, i, c) :} . 0 <= i < s && 0 <= c < 256 ==> g_next(fsm, i, c));
		invariant sink: forall int c, int t {: g_sym(fsm, new, c, t) :} . g_sym(fsm, new, c, t) <==> t == new && 0 <= c < 256;
		invariant ends: fsm->states[new].end == 0 && (forall int i {: fsm->states[i].end :} . 0 <= i < new ==> fsm->states[i].end == at(A_fsm_has_1, fsm->states[i].end));
		invariant away: valid(&new) && block(fsm->states) != block(&new) && (forall int i {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> (fsm->states[i].edges != null ==> !es_owns(fsm->states[i].edges, block(&new))) && !ss_owns(fsm->states[i].epsilons, block(&new)));
		variant fsm->statecount - s;
	}
	loop 2 {
		invariant it: jt.set == fsm->states[s].edges && bm_wf(&bm) && valid(&jt) && valid(&e) && (jt.set != null ==> 0 <= jt.i <= jt.set->count && 0 <= jt.j <= 256);
		invariant seen1: forall int c {: bm_has(&bm, c) :} . 0 <= c < 256 && bm_has(&bm, c) ==> es_any(jt.set, c);
		invariant seen2: jt.set != null ==> (forall int g, int c {: es_bit(jt.set, g, c) :} . 0 <= c < 256 && 0 <= g < jt.set->count && (g < jt.i || g == jt.i && c < jt.j) && es_bit(jt.set, g, c) ==> bm_has(&bm, c));
		after lack: forall int c {: bm_has(&bm, c) :} {: es_any(fsm->states[s].edges, c) :} . 0 <= c < 256 ==> (bm_has(&bm, c) <==> es_any(fsm->states[s].edges, c));
		variant if jt.set == null then 0 else 257 * (jt.set->count - jt.i) + 256 - jt.j;
	}
	loop 3 {
		invariant ok: fsm_ok(fsm) && -1 <= i <= 256 && bm_wf(&bm);
		invariant eps: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> !g_eps(fsm, i, t);
		invariant others: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} {: at(L3, g_sym(fsm, i, c, t)) :} . 0 <= i < fsm->statecount && i != s ==> (g_sym(fsm, i, c, t) <==> at(L3, g_sym(fsm, i, c, t)));
		invariant this: let k = i in forall int c, int t {: g_sym(fsm, s, c, t) :} {: at(L3, g_sym(fsm, s, c, t)) :} . g_sym(fsm, s, c, t) <==> at(L3, g_sym(fsm, s, c, t)) || t == new && 0 <= c <= k && c < 256 && at(L3, !es_any(fsm->states[s].edges, c));
		invariant away: valid(&new) && block(fsm->states) != block(&new) && (forall int i {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> (fsm->states[i].edges != null ==> !es_owns(fsm->states[i].edges, block(&new))) && !ss_owns(fsm->states[i].epsilons, block(&new)));
		invariant bm: forall int i {: fsm->states[i].edges :} . 0 <= i < fsm->statecount && fsm->states[i].edges != null ==> !es_owns(fsm->states[i].edges, block(&bm)) && !es_owns(fsm->states[i].edges, block(&jt)) && !es_owns(fsm->states[i].edges, block(&e));
		after fill0: forall int c {: g_next(fsm, s, c) :} {: g_sym(fsm, s, c, new) :} . 0 <= c < 256 ==> at(L3, g_next(fsm, s, c)) || g_sym(fsm, s, c, new);
		after rest: forall int i, int c {: g_next(fsm, i, c) :} . 0 <= i < fsm->statecount && i != s && at(L3, g_next(fsm, i, c)) ==> g_next(fsm, i, c);
		after fill: forall int c {: g_next(fsm, s, c) :} . 0 <= c < 256 ==> g_next(fsm, s, c);
		variant 256 - i;
	}
}
