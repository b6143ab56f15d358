// Making and releasing machines (src/libfsm/fsm.c)
source "src/libfsm/fsm.c";
import "graph.spec";
import "start.spec";

predicate alloc_ok(fsm_alloc *a) = a == null || block(a) > 0 && valid(a) && a->free != null && a->calloc != null && a->malloc != null && a->realloc != null;
predicate fsm_new_ok(fsm *f) = fsm_graph(f) && fsm_sep(f) && fsm_ends(f) && fsm_starts(f) && 0 < f->statealloc && off(f->states) == 0 && off(f) == 0;

// the blocks that hold the sets of a machine
predicate fsm_set_block(fsm *f, int b) opaque = exists int i {: f->states[i].edges :} {: f->states[i].epsilons :} . 0 <= i < f->statecount && (f->states[i].edges != null && es_owns(f->states[i].edges, b) || ss_owns(f->states[i].epsilons, b));

fn fsm_countstates {
	requires fsm_shape(fsm);
	ensures result == fsm->statecount;
	assigns nothing;
}
fn fsm_capture_init {
	// trusted: makes empty bookkeeping
	trusted;
	requires valid(fsm);
	ensures result == 0 || result == 1;
	allocates;
	assigns fsm->capture_info;
}
fn fsm_endid_init {
	trusted;
	requires valid(fsm);
	ensures result == 0 || result == 1;
	allocates;
	assigns fsm->endid_info;
}
fn fsm_eager_output_init {
	trusted;
	requires valid(fsm);
	ensures result == 0 || result == 1;
	allocates;
	assigns fsm->eager_output_info;
}
fn fsm_capture_free {
	// trusted: releases only that bookkeeping
	trusted;
	requires valid(fsm);
	assigns fsm->capture_info;
}
fn fsm_endid_free {
	trusted;
	requires valid(fsm);
	assigns fsm->endid_info;
}
fn fsm_eager_output_free {
	trusted;
	requires valid(fsm);
	assigns fsm->eager_output_info;
}
fn fsm_new_statealloc {
	requires alloc_ok(alloc) && 0 <= statealloc <= 0x7fffffff;
	ensures new: result != null ==> fresh(result) && fresh(result->states) && fsm_new_ok(result);
	ensures empty: result != null ==> result->statecount == 0 && result->hasstart == 0 && result->endcount == 0 && result->alloc == alloc && result->linkage_info == null && 0 < result->statealloc <= 0x7fffffff && result->statealloc >= statealloc;
	allocates;
	assigns @fsm(fresh), @fsm_state(fresh);
}
fn fsm_new {
	requires alloc_ok(alloc);
	ensures new: result != null ==> fresh(result) && fresh(result->states) && fsm_new_ok(result);
	ensures empty: result != null ==> result->statecount == 0 && result->hasstart == 0 && result->endcount == 0 && result->alloc == alloc && result->linkage_info == null && 0 < result->statealloc <= 0x7fffffff;
	allocates;
	assigns @fsm(fresh), @fsm_state(fresh);
}
// the sets of a machine in use, whatever they lead to
predicate fsm_sets(fsm *f) = fsm_shape(f) && (forall int i {: f->states[i].edges :} . 0 <= i < f->statecount ==> es_wf(f->states[i].edges)) && (forall int i {: f->states[i].epsilons :} . 0 <= i < f->statecount ==> ss_wf(f->states[i].epsilons));
// every block of the machine is freed, once
fn free_contents {
	requires fsm_sets(fsm) && fsm_sep(fsm) && fsm->linkage_info == null && off(fsm->states) == 0;
	frees fsm->states;
	frees _ where fsm_set_block(fsm, _);
	assigns fsm->capture_info, fsm->endid_info, fsm->eager_output_info;
	loop 1 {
		invariant 0 <= i <= fsm->statecount && fsm_shape(fsm);
		invariant left: (forall int k {: fsm->states[k].epsilons :} . i <= k < fsm->statecount ==> ss_wf(fsm->states[k].epsilons)) && (forall int k {: fsm->states[k].edges :} . i <= k < fsm->statecount ==> es_wf(fsm->states[k].edges));
		variant fsm->statecount - i;
	}
}
fn fsm_free {
	requires fsm_sets(fsm) && fsm_sep(fsm) && fsm->linkage_info == null && off(fsm->states) == 0 && off(fsm) == 0;
	frees fsm; frees fsm->states;
	frees _ where fsm_set_block(fsm, _);
	allocates;
	assigns fsm->capture_info, fsm->endid_info, fsm->eager_output_info;
}
