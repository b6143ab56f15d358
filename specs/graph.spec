// The transition graph of a machine and the read-only queries on it
source "src/libfsm/edge.c";
import "fsm.spec";
import "edgeset.spec";

// symbol c leads from state i to t; empty move from i to t
predicate g_sym(fsm *f, int i, int c, int t) = es_mem(f->states[i].edges, c, t);
predicate g_eps(fsm *f, int i, int t) = ss_mem(f->states[i].epsilons, t);

// every state's sets are well formed and lead to states of the machine
predicate fsm_graph(fsm *f) =
	fsm_shape(f)
	&& (forall int i {: f->states[i].edges :} . 0 <= i < f->statecount ==> es_wf(f->states[i].edges) && es_small(f->states[i].edges))
	&& (forall int i {: f->states[i].epsilons :} . 0 <= i < f->statecount ==> ss_wf(f->states[i].epsilons))
	&& (forall int i, int j {: f->states[i].edges->groups[j].to :} . 0 <= i < f->statecount && f->states[i].edges != null && 0 <= j < f->states[i].edges->count ==> f->states[i].edges->groups[j].to < f->statecount)
	&& (forall int i, int t {: ss_mem(f->states[i].epsilons, t) :} {: sq_has(inner(f->states[i].epsilons->a[0]), f->states[i].epsilons->i, t) :} . 0 <= i < f->statecount && ss_mem(f->states[i].epsilons, t) ==> 0 <= t < f->statecount);

// no heap block is shared between two states' sets, or with the machine itself
predicate fsm_sep(fsm *f) =
	block(f) != block(f->states)
	&& (forall int i {: f->states[i].edges :} . 0 <= i < f->statecount && f->states[i].edges != null ==> !es_owns(f->states[i].edges, block(f)) && !es_owns(f->states[i].edges, block(f->states)))
	&& (forall int i {: f->states[i].epsilons :} . 0 <= i < f->statecount ==> !ss_owns(f->states[i].epsilons, block(f)) && !ss_owns(f->states[i].epsilons, block(f->states)))
	&& (forall int i, int j {: f->states[i].edges, f->states[j].edges :} . 0 <= i < f->statecount && 0 <= j < f->statecount && i != j && f->states[i].edges != null && f->states[j].edges != null
		==> !es_owns(f->states[i].edges, block(f->states[j].edges)) && !es_owns(f->states[i].edges, block(f->states[j].edges->groups)))
	&& (forall int i, int j {: f->states[i].epsilons, f->states[j].epsilons :} . 0 <= i < f->statecount && 0 <= j < f->statecount && i != j && block(f->states[j].epsilons) > 0
		==> !ss_owns(f->states[i].epsilons, block(f->states[j].epsilons)) && !ss_owns(f->states[i].epsilons, block(f->states[j].epsilons->a)))
	&& (forall int i, int j {: f->states[i].edges, f->states[j].epsilons :} . 0 <= i < f->statecount && 0 <= j < f->statecount && f->states[i].edges != null && block(f->states[j].epsilons) > 0
		==> !es_owns(f->states[i].edges, block(f->states[j].epsilons)) && !es_owns(f->states[i].edges, block(f->states[j].epsilons->a)));
