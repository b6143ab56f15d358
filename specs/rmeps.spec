// Removal of empty moves (src/libfsm/epsilons.c)
source "src/libfsm/epsilons.c";
import "langops.spec";
import "closure.spec";
import "isend.spec";
import "start.spec";

// a state that empty moves lead to from i has an edge for c to t; ... is accepting
predicate cl_sym(fsm *f, int i, int c, int t) opaque = exists int m {: g_ereach(f, i, m) :} . 0 <= m < f->statecount && g_ereach(f, i, m) && g_sym(f, m, c, t);
predicate cl_end(fsm *f, int i) opaque = exists int m {: g_ereach(f, i, m) :} . 0 <= m < f->statecount && g_ereach(f, i, m) && f->states[m].end != 0;
lemma cl_sym_in: forall fsm *f, int i, int m, int c, int t {: g_ereach(f, i, m), g_sym(f, m, c, t) :} . 0 <= m < f->statecount && g_ereach(f, i, m) && g_sym(f, m, c, t) ==> cl_sym(f, i, c, t);
lemma cl_end_in: forall fsm *f, int i, int m {: g_ereach(f, i, m), f->states[m].end :} . 0 <= m < f->statecount && g_ereach(f, i, m) && f->states[m].end != 0 ==> cl_end(f, i);
lemma cl_sym_up ereach_trans: forall fsm *f, int i, int m, int c, int t {: g_ereach(f, i, m), cl_sym(f, m, c, t) :} . 0 <= m < f->statecount && g_ereach(f, i, m) && cl_sym(f, m, c, t) ==> cl_sym(f, i, c, t);
lemma cl_end_up ereach_trans: forall fsm *f, int i, int m {: g_ereach(f, i, m), cl_end(f, m) :} . 0 <= m < f->statecount && g_ereach(f, i, m) && cl_end(f, m) ==> cl_end(f, i);
// the start, and what an edge leads to
predicate g_lab(fsm *f, int j) opaque = 0 <= j < f->statecount && (j == f->start || (exists int i, int c {: g_sym(f, i, c, j) :} . 0 <= i < f->statecount && g_sym(f, i, c, j)));
lemma lab_in: forall fsm *f, int i, int c, int j {: g_sym(f, i, c, j), g_lab(f, j) :} . 0 <= i < f->statecount && 0 <= j < f->statecount && g_sym(f, i, c, j) ==> g_lab(f, j);

// runs go on along empty moves
comprehension runs_row: forall fsm *f, iseq w, int n, int a, int b {: g_runs(f, w, n, a, b) :} . exists iseq S . forall int i {: S[i] :} {: g_runs(f, w, n, a, i) :} . S[i] != 0 <==> g_runs(f, w, n, a, i);
lemma runs_ereach runs_row runs_eps ereach_all: forall fsm *f, iseq w, int n, int a, int b, int m {: g_runs(f, w, n, a, b), g_ereach(f, b, m) :} . 0 <= n && g_runs(f, w, n, a, b) && g_ereach(f, b, m) ==> g_runs(f, w, n, a, m);
lemma runs_cl runs_ereach runs_sym: forall fsm *f, iseq w, int n, int a, int b, int c, int t {: g_runs(f, w, n, a, b), cl_sym(f, b, c, t) :} . 0 <= n && c == w[n] && g_runs(f, w, n, a, b) && cl_sym(f, b, c, t) ==> g_runs(f, w, n + 1, a, t);
// the runs as a relation
predicate g_rel(fsm *f, iseq w, int a, iseq2 T) opaque = forall int i, int k {: T[i][k] :} {: g_runs(f, w, k, a, i) :} . T[i][k] != 0 <==> g_runs(f, w, k, a, i);
comprehension rel_ex: forall fsm *f, iseq w, int n, int a, int b {: g_runs(f, w, n, a, b) :} . exists iseq2 T . g_rel(f, w, a, T);

// nothing new: every run afterwards is one from before
lemma rm_closed (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) runs_cl: forall fsm *f, iseq w, int n, int a, iseq2 T {: old(g_rel(f, w, a, T)), w_closed(f, w, n, T) :} . old(g_rel(f, w, a, T))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) ==> old(cl_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount ==> !g_eps(f, i, t)) ==> w_closed(f, w, n, T);
lemma rm_rel (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rm_closed runs_all runs_self: forall fsm *f, iseq w, int n, int a, int b, iseq2 T {: old(g_rel(f, w, a, T)), g_runs(f, w, n, a, b) :} . old(g_rel(f, w, a, T))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) ==> old(cl_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount ==> !g_eps(f, i, t))
	&& g_runs(f, w, n, a, b) ==> old(g_runs(f, w, 0, a, a)) && w_closed(f, w, n, T) && T[b][n] != 0 && old(g_runs(f, w, n, a, b));
lemma rm_runs (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rel_ex rm_rel: forall fsm *f, iseq w, int n, int a, int b {: g_runs(f, w, n, a, b), old(g_runs(f, w, n, a, b)) :} . (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) ==> old(cl_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount ==> !g_eps(f, i, t))
	&& g_runs(f, w, n, a, b) ==> old(g_runs(f, w, n, a, b));
lemma rm_acc1 (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rm_runs runs_ereach acc_by: forall fsm *f, iseq w, int n, int b {: g_runs(f, w, n, f->start, b), old(g_acc(f, w, n)), f->states[b].end :} . (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) ==> old(cl_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount ==> !g_eps(f, i, t))
	&& (forall int i {: f->states[i].end :} . 0 <= i < f->statecount && f->states[i].end != 0 ==> old(cl_end(f, i)))
	&& 0 <= n && f->hasstart != 0 && 0 <= b < f->statecount && f->states[b].end != 0 && g_runs(f, w, n, f->start, b) ==> old(g_runs(f, w, n, f->start, b)) && old(g_acc(f, w, n));
// nothing lost: every state of a run is reached by empty moves from one that the new machine reaches
predicate cov(fsm *f, iseq2 T, int k, int i) opaque = exists int j {: g_ereach(f, j, i) :} . 0 <= j < f->statecount && g_lab(f, j) && T[j][k] != 0 && g_ereach(f, j, i);
predicate cov_rel(fsm *f, iseq2 T, iseq2 S) opaque = forall int i, int k {: S[i][k] :} {: cov(f, T, k, i) :} . S[i][k] != 0 <==> cov(f, T, k, i);
comprehension cov_ex: forall fsm *f, iseq2 T, int k, int i {: cov(f, T, k, i) :} . exists iseq2 S . cov_rel(f, T, S);
lemma cov_eps ereach_step: forall fsm *f, iseq2 T, int k, int i, int t {: cov(f, T, k, i), g_eps(f, i, t) :} . 0 <= i < f->statecount && cov(f, T, k, i) && g_eps(f, i, t) ==> cov(f, T, k, t);
lemma cov_in ereach_self: forall fsm *f, iseq2 T, int k, int j {: cov(f, T, k, j) :} . g_lab(f, j) && T[j][k] != 0 ==> g_ereach(f, j, j) && cov(f, T, k, j);
predicate cov_step(fsm *f, iseq w, int n, iseq2 T) opaque = forall int j, int k, int t {: T[j][k], cl_sym(f, j, w[k], t) :} . 0 <= j < f->statecount && 0 <= k < n && g_lab(f, j) && T[j][k] != 0 && cl_sym(f, j, w[k], t) ==> T[t][k + 1] != 0;
lemma cov_sym cl_sym_in cov_in lab_in: forall fsm *f, iseq w, int n, iseq2 T, int k, int i, int t {: cov(f, T, k, i), g_sym(f, i, w[k], t), cov_step(f, w, n, T) :} .
	0 <= i < f->statecount && 0 <= t < f->statecount && 0 <= k < n && cov_step(f, w, n, T) && cov(f, T, k, i) && g_sym(f, i, w[k], t) ==> g_lab(f, t) && cov(f, T, k + 1, t);
lemma cov_closed cov_sym cov_eps: forall fsm *f, iseq w, int n, iseq2 T, iseq2 S {: cov_rel(f, T, S), w_closed(f, w, n, S) :} . g_in(f) && cov_step(f, w, n, T) && cov_rel(f, T, S) ==> w_closed(f, w, n, S);
lemma cov_runs cov_ex cov_closed cov_in runs_all: forall fsm *f, iseq w, int n, int a, int b, iseq2 T {: g_runs(f, w, n, a, b), cov(f, T, n, b) :} . g_in(f) && cov_step(f, w, n, T) && g_lab(f, a) && T[a][0] != 0 && g_runs(f, w, n, a, b) ==> cov(f, T, 0, a) && cov(f, T, n, b);
lemma rm_step (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) runs_sym: forall fsm *f, iseq w, int n, int a, iseq2 T {: g_rel(f, w, a, T), old(cov_step(f, w, n, T)) :} . g_rel(f, w, a, T)
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(cl_sym(f, i, c, t)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_sym(f, i, c, t)) ==> g_sym(f, i, c, t)) ==> old(cov_step(f, w, n, T));
lemma rm_back (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rm_step cov_runs runs_self: forall fsm *f, iseq w, int n, int a, int b, iseq2 T {: g_rel(f, w, a, T), old(g_runs(f, w, n, a, b)) :} . g_rel(f, w, a, T) && 0 <= n && old(g_in(f))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(cl_sym(f, i, c, t)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_sym(f, i, c, t)) ==> g_sym(f, i, c, t))
	&& old(g_lab(f, a)) && old(g_runs(f, w, n, a, b)) ==> g_runs(f, w, 0, a, a) && old(cov_step(f, w, n, T)) && old(cov(f, T, n, b));
lemma rm_end (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) cl_end_in acc_by: forall fsm *f, iseq w, int n, int b, iseq2 T {: g_rel(f, w, f->start, T), old(cov(f, T, n, b)), g_acc(f, w, n), old(f->states[b].end) :} . g_rel(f, w, f->start, T) && 0 <= n && 0 <= b < f->statecount
	&& (forall int i {: f->states[i].end :} {: old(cl_end(f, i)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_end(f, i)) ==> f->states[i].end != 0)
	&& f->hasstart != 0 && old(cov(f, T, n, b)) && old(f->states[b].end) != 0 ==> g_acc(f, w, n);
lemma rm_acc2t (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rm_back rm_end: forall fsm *f, iseq w, int n, int b, iseq2 T {: g_rel(f, w, f->start, T), old(g_runs(f, w, n, f->start, b)), g_acc(f, w, n), old(f->states[b].end) :} . g_rel(f, w, f->start, T) && 0 <= n && old(g_in(f))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(cl_sym(f, i, c, t)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_sym(f, i, c, t)) ==> g_sym(f, i, c, t))
	&& (forall int i {: f->states[i].end :} {: old(cl_end(f, i)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_end(f, i)) ==> f->states[i].end != 0)
	&& f->hasstart != 0 && old(g_lab(f, f->start)) && 0 <= b < f->statecount && old(f->states[b].end) != 0 && old(g_runs(f, w, n, f->start, b)) ==> old(cov(f, T, n, b)) && g_acc(f, w, n);
comprehension rel_ex2: forall fsm *f, iseq w, int n {: g_acc(f, w, n) :} . exists iseq2 T . g_rel(f, w, f->start, T);
lemma rm_acc2 (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rel_ex2 rm_acc2t: forall fsm *f, iseq w, int n, int b {: old(g_runs(f, w, n, f->start, b)), g_acc(f, w, n), old(f->states[b].end) :} . 0 <= n && old(g_in(f))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(cl_sym(f, i, c, t)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_sym(f, i, c, t)) ==> g_sym(f, i, c, t))
	&& (forall int i {: f->states[i].end :} {: old(cl_end(f, i)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_end(f, i)) ==> f->states[i].end != 0)
	&& f->hasstart != 0 && old(g_lab(f, f->start)) && 0 <= b < f->statecount && old(f->states[b].end) != 0 && old(g_runs(f, w, n, f->start, b)) ==> g_acc(f, w, n);
lemma rm_acc (fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, fsm_state.end, state_set.i, state_set.a, m.u32) rm_acc1 rm_acc2: forall fsm *f, iseq w, int n {: g_acc(f, w, n), old(g_acc(f, w, n)) :} . old(g_in(f))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) ==> old(cl_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount ==> !g_eps(f, i, t))
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(cl_sym(f, i, c, t)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_sym(f, i, c, t)) ==> g_sym(f, i, c, t))
	&& (forall int i {: f->states[i].end :} . 0 <= i < f->statecount && f->states[i].end != 0 ==> old(cl_end(f, i)))
	&& (forall int i {: f->states[i].end :} {: old(cl_end(f, i)) :} . 0 <= i < f->statecount && old(g_lab(f, i)) && old(cl_end(f, i)) ==> f->states[i].end != 0)
	&& 0 <= f->start < f->statecount && old(g_lab(f, f->start)) ==> (g_acc(f, w, n) <==> old(g_acc(f, w, n)));
