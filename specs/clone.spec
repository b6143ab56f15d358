// Cloning (src/libfsm/clone.c)
source "src/libfsm/clone.c";
import "fsmc.spec";
import "state.spec";
import "isend.spec";

fn copy_capture_actions {
	// assumed here (bounded check C28): records captures in the copy, changes no edge, accepting state or start
	trusted;
	requires fsm_graph(dst) && fsm_graph(src);
	ensures result == 0 || result == 1;
	allocates;
	assigns @fsm_state.has_capture_actions(block(dst->states)), dst->capture_info;
}
fn copy_end_ids {
	// assumed here (bounded checks C13, C19)
	trusted;
	requires fsm_graph(dst) && fsm_graph(src);
	ensures result == 0 || result == 1;
	allocates;
	assigns dst->endid_info;
}
fn copy_eager_output_ids {
	// assumed here (bounded checks C13, C27)
	trusted;
	requires fsm_graph(dst) && fsm_graph(src);
	ensures result == 0 || result == 1;
	allocates;
	assigns @fsm_state.has_eager_outputs(block(dst->states)), dst->eager_output_info;
}
fn fsm_clone {
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_ends(fsm) && fsm_starts(fsm) && alloc_ok(fsm->alloc) && fsm->statecount <= 0x3fffffff;
	ensures own: result != null ==> fresh(result) && fresh(result->states);
	ensures own_sets: result != null ==> (forall int i {: result->states[i].edges :} {: result->states[i].epsilons :} . 0 <= i < result->statecount ==> (result->states[i].edges != null ==> fresh(result->states[i].edges) && fresh(result->states[i].edges->groups))
		&& (block(result->states[i].epsilons) > 0 ==> fresh(result->states[i].epsilons) && fresh(result->states[i].epsilons->a)));
	ensures ok: result != null ==> fsm_new_ok(result);
	ensures size: result != null ==> result->statecount == fsm->statecount && result->alloc == fsm->alloc;
	ensures start: result != null ==> (result->hasstart != 0 <==> fsm->hasstart != 0) && (fsm->hasstart != 0 ==> result->start == fsm->start);
	ensures ends: result != null ==> (forall int i {: result->states[i].end :} {: fsm->states[i].end :} . 0 <= i < fsm->statecount ==> (result->states[i].end != 0 <==> fsm->states[i].end != 0));
	ensures sym: result != null ==> (forall int i, int c, int t {: g_sym(result, i, c, t) :} {: g_sym(fsm, i, c, t) :} . 0 <= i < fsm->statecount && 0 <= c < 256 ==> (g_sym(result, i, c, t) <==> g_sym(fsm, i, c, t)));
	ensures eps: result != null ==> (forall int i, int t {: g_eps(result, i, t) :} {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> (g_eps(result, i, t) <==> g_eps(fsm, i, t)));
	// the original keeps its graph
	ensures kept: forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> old(g_eps(fsm, i, t)));
	allocates;
	assigns @fsm(fresh), @fsm_state(fresh), @edge_set(fresh), @edge_group(fresh), @state_set(fresh), @m.u32(fresh);
	use ss_row;
	scoped;
	at after state_set_copy assert kept: forall int i, int t {: g_eps(fsm, i, t) :} {: at(B_state_set_copy, g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> at(B_state_set_copy, g_eps(fsm, i, t)));
	at after state_set_copy assert others: let ii = i in forall int i, int t {: g_eps(new, i, t) :} {: at(B_state_set_copy, g_eps(new, i, t)) :} . i != ii && 0 <= i < new->statecount ==> (g_eps(new, i, t) <==> at(B_state_set_copy, g_eps(new, i, t)));
	at after state_set_copy assert this: let ii = i in result == 1 ==> (forall int t {: g_eps(new, ii, t) :} {: g_eps(fsm, ii, t) :} . g_eps(new, ii, t) <==> g_eps(fsm, ii, t));
	at after state_set_copy assert graph1: fsm_graph(fsm);
	at after state_set_copy assert sep1: fsm_sep(fsm);
	at after state_set_copy assert sets2: fsm_sets(new);
	at after state_set_copy assert sep2: fsm_sep(new);
	at after state_set_copy assert graph2: result == 1 ==> fsm_graph(new);
	at after edge_set_copy assert to: let ii = i in result == 1 && new->states[ii].edges != null ==> fsm->states[ii].edges != null && new->states[ii].edges->count == fsm->states[ii].edges->count && (forall int j {: new->states[ii].edges->groups[j].to :} . 0 <= j < new->states[ii].edges->count ==> new->states[ii].edges->groups[j].to == fsm->states[ii].edges->groups[j].to);
	at after edge_set_copy assert kept: forall int i, int c, int t {: g_sym(fsm, i, c, t) :} {: at(B_edge_set_copy, g_sym(fsm, i, c, t)) :} . 0 <= i < fsm->statecount && 0 <= c < 256 ==> (g_sym(fsm, i, c, t) <==> at(B_edge_set_copy, g_sym(fsm, i, c, t)));
	at after edge_set_copy assert others: let ii = i in forall int i, int c, int t {: g_sym(new, i, c, t) :} {: at(B_edge_set_copy, g_sym(new, i, c, t)) :} . i != ii && 0 <= i < new->statecount && 0 <= c < 256 ==> (g_sym(new, i, c, t) <==> at(B_edge_set_copy, g_sym(new, i, c, t)));
	at after edge_set_copy assert this: let ii = i in result == 1 ==> (forall int c, int t {: g_sym(new, ii, c, t) :} {: g_sym(fsm, ii, c, t) :} . 0 <= c < 256 ==> (g_sym(new, ii, c, t) <==> g_sym(fsm, ii, c, t)));
	at after fsm_getstart assert kept: forall int i, int t {: g_eps(fsm, i, t) :} {: at(B_fsm_getstart, g_eps(fsm, i, t)) :} . 0 <= i < fsm->statecount ==> (g_eps(fsm, i, t) <==> at(B_fsm_getstart, g_eps(fsm, i, t)));
	at after fsm_getstart assert kept2: forall int i, int t {: g_eps(new, i, t) :} {: at(B_fsm_getstart, g_eps(new, i, t)) :} . 0 <= i < new->statecount ==> (g_eps(new, i, t) <==> at(B_fsm_getstart, g_eps(new, i, t)));
	at after fsm_getstart assert graph1: fsm_graph(fsm);
	at after fsm_getstart assert graph2: fsm_graph(new);
	at after fsm_getstart assert sep2: fsm_sep(new);
	loop 1 {
		invariant 0 <= i <= fsm->statecount && new->statecount == fsm->statecount && fresh(new) && fresh(new->states);
		invariant fgraph: fsm_graph(fsm) && fsm_sep(fsm);
		invariant graph: fsm_graph(new);
		invariant sep: fsm_sep(new);
		invariant ends1: fsm_ends(new);
		invariant ok: 0 < new->statealloc && off(new->states) == 0 && off(new) == 0 && new->hasstart == 0 && new->linkage_info == null && new->alloc == fsm->alloc;
		invariant own: forall int k {: new->states[k].edges :} {: new->states[k].epsilons :} . 0 <= k < new->statecount ==> (new->states[k].edges != null ==> fresh(new->states[k].edges) && fresh(new->states[k].edges->groups))
			&& (block(new->states[k].epsilons) > 0 ==> fresh(new->states[k].epsilons) && fresh(new->states[k].epsilons->a));
		invariant ends: forall int k {: new->states[k].end :} {: fsm->states[k].end :} . 0 <= k < i ==> (new->states[k].end != 0 <==> fsm->states[k].end != 0);
		invariant sym: forall int k, int c, int t {: g_sym(new, k, c, t) :} {: g_sym(fsm, k, c, t) :} . 0 <= k < i && 0 <= c < 256 ==> (g_sym(new, k, c, t) <==> g_sym(fsm, k, c, t));
		invariant eps: forall int k, int t {: g_eps(new, k, t) :} {: g_eps(fsm, k, t) :} . 0 <= k < i ==> (g_eps(new, k, t) <==> g_eps(fsm, k, t));
		invariant kept: forall int k, int t {: g_eps(fsm, k, t) :} . 0 <= k < fsm->statecount ==> (g_eps(fsm, k, t) <==> old(g_eps(fsm, k, t)));
		invariant todo: forall int k {: new->states[k].end :} {: new->states[k].edges :} {: new->states[k].epsilons :} . i <= k < new->statecount ==> st_new(new, k);
		variant fsm->statecount - i;
	}
}
