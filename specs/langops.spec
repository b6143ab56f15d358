// How changes of the transition graph change the language (two-state lemmas)
source "src/libfsm/walk/reachable.c";
import "lang.spec";

predicate word_bytes(iseq w, int n) opaque = forall int k {: w[k] :} . 0 <= k < n ==> 0 <= w[k] <= 255;

// --- a dead state added: state N leads only to itself, other states keep their moves and may also lead to N
predicate g_deadrow(int N, iseq2 S, iseq2 T) opaque = forall int i, int k {: T[i][k] :} . T[i][k] != 0 <==> (S[i][k] != 0 || i == N);
comprehension deadrow_ex: forall fsm *f, iseq w, int n, iseq2 S {: w_closed(f, w, n, S) :} . exists iseq2 T . g_deadrow(f->statecount, S, T);
lemma sink_closed (fsm.statecount, fsm.states, fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, state_set.i, state_set.a, m.u32): forall fsm *f, iseq w, int n, int N, iseq2 S, iseq2 T {: g_deadrow(N, S, T), old(w_closed(f, w, n, S)), w_closed(f, w, n, T) :} .
	f->statecount == N + 1 && old(f->statecount) == N
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(g_sym(f, i, c, t)) :} . 0 <= i < N ==> (g_sym(f, i, c, t) ==> t == N || old(g_sym(f, i, c, t))) && (old(g_sym(f, i, c, t)) ==> 0 <= t < N && g_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < N ==> (g_eps(f, i, t) ==> t == N || old(g_eps(f, i, t))) && (old(g_eps(f, i, t)) ==> 0 <= t < N && g_eps(f, i, t)))
	&& (forall int c, int t {: g_sym(f, N, c, t) :} . g_sym(f, N, c, t) ==> t == N)
	&& (forall int t {: g_eps(f, N, t) :} . g_eps(f, N, t) ==> t == N)
	&& g_deadrow(N, S, T) && old(w_closed(f, w, n, S)) ==> w_closed(f, w, n, T);
lemma sink_runs1 (fsm.statecount, fsm.states, fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, state_set.i, state_set.a, m.u32) deadrow_ex sink_closed runs_all: forall fsm *f, iseq w, int n, int a, int b, int N, iseq2 S {: g_runs(f, w, n, a, b), old(w_closed(f, w, n, S)), S[N] :} .
	f->statecount == N + 1 && old(f->statecount) == N
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(g_sym(f, i, c, t)) :} . 0 <= i < N ==> (g_sym(f, i, c, t) ==> t == N || old(g_sym(f, i, c, t))) && (old(g_sym(f, i, c, t)) ==> 0 <= t < N && g_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < N ==> (g_eps(f, i, t) ==> t == N || old(g_eps(f, i, t))) && (old(g_eps(f, i, t)) ==> 0 <= t < N && g_eps(f, i, t)))
	&& (forall int c, int t {: g_sym(f, N, c, t) :} . g_sym(f, N, c, t) ==> t == N)
	&& (forall int t {: g_eps(f, N, t) :} . g_eps(f, N, t) ==> t == N)
	&& b != N && S[a][0] != 0 && old(w_closed(f, w, n, S)) && g_runs(f, w, n, a, b) ==> S[b][n] != 0;
lemma sink_back (fsm.statecount, fsm.states, fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, state_set.i, state_set.a, m.u32, fsm.hasstart, fsm.start, fsm_state.end) deadrow_ex sink_closed runs_all: forall fsm *f, iseq w, int n, int a, int b, int N {: g_runs(f, w, n, a, b), old(g_acc(f, w, n)), f->states[N].end :} .
	f->statecount == N + 1 && old(f->statecount) == N
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(g_sym(f, i, c, t)) :} . 0 <= i < N ==> (g_sym(f, i, c, t) ==> t == N || old(g_sym(f, i, c, t))) && (old(g_sym(f, i, c, t)) ==> 0 <= t < N && g_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < N ==> (g_eps(f, i, t) ==> t == N || old(g_eps(f, i, t))) && (old(g_eps(f, i, t)) ==> 0 <= t < N && g_eps(f, i, t)))
	&& (forall int c, int t {: g_sym(f, N, c, t) :} . g_sym(f, N, c, t) ==> t == N)
	&& (forall int t {: g_eps(f, N, t) :} . g_eps(f, N, t) ==> t == N)
	&& b != N && g_runs(f, w, n, a, b) ==> old(g_runs(f, w, n, a, b));
lemma sink_closed2 (fsm.statecount, fsm.states, fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, state_set.i, state_set.a, m.u32): forall fsm *f, iseq w, int n, int N, iseq2 S {: w_closed(f, w, n, S), old(w_closed(f, w, n, S)), f->states[N].edges :} .
	f->statecount == N + 1 && old(f->statecount) == N
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(g_sym(f, i, c, t)) :} . 0 <= i < N ==> (g_sym(f, i, c, t) ==> t == N || old(g_sym(f, i, c, t))) && (old(g_sym(f, i, c, t)) ==> 0 <= t < N && g_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < N ==> (g_eps(f, i, t) ==> t == N || old(g_eps(f, i, t))) && (old(g_eps(f, i, t)) ==> 0 <= t < N && g_eps(f, i, t)))
	&& (forall int c, int t {: g_sym(f, N, c, t) :} . g_sym(f, N, c, t) ==> t == N)
	&& (forall int t {: g_eps(f, N, t) :} . g_eps(f, N, t) ==> t == N)
	&& w_closed(f, w, n, S) ==> old(w_closed(f, w, n, S));
lemma sink_fwd (fsm.statecount, fsm.states, fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, state_set.i, state_set.a, m.u32, fsm.hasstart, fsm.start, fsm_state.end) sink_closed2 runs_all: forall fsm *f, iseq w, int n, int a, int b, int N {: old(g_runs(f, w, n, a, b)), g_acc(f, w, n), f->states[N].end :} .
	f->statecount == N + 1 && old(f->statecount) == N
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(g_sym(f, i, c, t)) :} . 0 <= i < N ==> (g_sym(f, i, c, t) ==> t == N || old(g_sym(f, i, c, t))) && (old(g_sym(f, i, c, t)) ==> 0 <= t < N && g_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < N ==> (g_eps(f, i, t) ==> t == N || old(g_eps(f, i, t))) && (old(g_eps(f, i, t)) ==> 0 <= t < N && g_eps(f, i, t)))
	&& (forall int c, int t {: g_sym(f, N, c, t) :} . g_sym(f, N, c, t) ==> t == N)
	&& (forall int t {: g_eps(f, N, t) :} . g_eps(f, N, t) ==> t == N)
	&& old(g_runs(f, w, n, a, b)) ==> g_runs(f, w, n, a, b);
lemma sink_acc (fsm.statecount, fsm.states, fsm_state.edges, edge_set.count, edge_set.groups, edge_group.to, edge_group.symbols, fsm_state.epsilons, state_set.i, state_set.a, m.u32, fsm.hasstart, fsm.start, fsm_state.end) sink_back sink_fwd: forall fsm *f, iseq w, int n, int N {: g_acc(f, w, n), old(g_acc(f, w, n)), f->states[N].end :} .
	f->statecount == N + 1 && old(f->statecount) == N
	&& (forall int i, int c, int t {: g_sym(f, i, c, t) :} {: old(g_sym(f, i, c, t)) :} . 0 <= i < N ==> (g_sym(f, i, c, t) ==> t == N || old(g_sym(f, i, c, t))) && (old(g_sym(f, i, c, t)) ==> 0 <= t < N && g_sym(f, i, c, t)))
	&& (forall int i, int t {: g_eps(f, i, t) :} {: old(g_eps(f, i, t)) :} . 0 <= i < N ==> (g_eps(f, i, t) ==> t == N || old(g_eps(f, i, t))) && (old(g_eps(f, i, t)) ==> 0 <= t < N && g_eps(f, i, t)))
	&& (forall int c, int t {: g_sym(f, N, c, t) :} . g_sym(f, N, c, t) ==> t == N)
	&& (forall int t {: g_eps(f, N, t) :} . g_eps(f, N, t) ==> t == N)
	&& f->hasstart == old(f->hasstart) && f->start == old(f->start)
	&& f->states[N].end == 0 && (forall int i {: f->states[i].end :} {: old(f->states[i].end) :} . 0 <= i < N ==> (f->states[i].end != 0 <==> old(f->states[i].end) != 0))
	==> (g_acc(f, w, n) <==> old(g_acc(f, w, n)));

// --- complement: a complete deterministic machine with every accepting flag inverted
predicate g_next(fsm *f, int i, int c) opaque = exists int t {: g_sym(f, i, c, t) :} . g_sym(f, i, c, t);
lemma bit_next es_mem_intro: forall fsm *f, int i, int c, int j {: g_next(f, i, c), es_bit(f->states[i].edges, j, c) :} . f->states[i].edges != null && 0 <= c < 256 && 0 <= j < f->states[i].edges->count && es_bit(f->states[i].edges, j, c) ==> g_sym(f, i, c, f->states[i].edges->groups[j].to) && g_next(f, i, c);
lemma next_any bit_next: forall fsm *f, int i, int c {: g_next(f, i, c) :} . es_any(f->states[i].edges, c) && 0 <= c < 256 ==> es_any(f->states[i].edges, c) && g_next(f, i, c);
predicate g_complete(fsm *f) opaque = forall int i, int c {: g_next(f, i, c) :} . 0 <= i < f->statecount && 0 <= c < 256 ==> g_next(f, i, c);
lemma mem_any: forall edge_set *s, int c, int t {: es_mem(s, c, t) :} . es_mem(s, c, t) ==> es_any(s, c) && 0 <= c < 256;
predicate g_in(fsm *f) = (forall int i, int c, int t {: g_sym(f, i, c, t) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) ==> 0 <= t < f->statecount);
predicate g_there(fsm *f, iseq w, int n, int a) opaque = exists int b {: g_at(f, w, n, a, b) :} . 0 <= b < f->statecount && g_at(f, w, n, a, b);
lemma there_0 at_self: forall fsm *f, iseq w, int a {: g_there(f, w, 0, a) :} . g_det(f) && 0 <= a < f->statecount ==> g_at(f, w, 0, a, a) && g_there(f, w, 0, a);
lemma there_any at_step: forall fsm *f, iseq w, int n, int m, int a, int b {: g_at(f, w, n, a, b), g_there(f, w, m, a) :} . m == n + 1 && g_det(f) && g_complete(f) && g_in(f) && 0 <= n && 0 <= w[n] <= 255 && 0 <= b < f->statecount && g_at(f, w, n, a, b) ==> g_next(f, b, w[n]) && g_at(f, w, n, a, b) && g_there(f, w, m, a);
lemma there_step there_any: forall fsm *f, iseq w, int n, int m, int a {: g_there(f, w, n, a), g_there(f, w, m, a) :} . m == n + 1 && g_det(f) && g_complete(f) && g_in(f) && 0 <= n && 0 <= w[n] <= 255 && g_there(f, w, n, a) ==> g_there(f, w, m, a);
lemma there_pre: forall iseq w, int n, int m {: word_bytes(w, n), word_bytes(w, m) :} . 0 <= n && m == n + 1 && word_bytes(w, m) ==> word_bytes(w, n) && 0 <= w[n] <= 255;
lemma there_all ind_n there_0 there_step there_pre: forall fsm *f, iseq w, int a, int n {: g_there(f, w, n, a), word_bytes(w, n) :} . g_det(f) && g_complete(f) && g_in(f) && 0 <= a < f->statecount && 0 <= n && word_bytes(w, n) ==> g_there(f, w, n, a);
lemma flip_1 (fsm_state.end) acc_by: forall fsm *f, iseq w, int n, int b {: g_at(f, w, n, f->start, b), g_acc(f, w, n), old(g_acc(f, w, n)) :} .
	f->hasstart != 0 && 0 <= n && 0 <= b < f->statecount && g_at(f, w, n, f->start, b)
	&& (f->states[b].end != 0 <==> old(f->states[b].end) == 0)
	==> (g_acc(f, w, n) <==> !old(g_acc(f, w, n)));
lemma flip_acc (fsm_state.end) there_all flip_1: forall fsm *f, iseq w, int n {: g_acc(f, w, n), old(g_acc(f, w, n)) :} .
	g_det(f) && g_complete(f) && g_in(f) && f->hasstart != 0 && 0 <= f->start < f->statecount && 0 <= n && word_bytes(w, n)
	&& (forall int i {: f->states[i].end :} {: old(f->states[i].end) :} . 0 <= i < f->statecount ==> (f->states[i].end != 0 <==> old(f->states[i].end) == 0))
	==> g_there(f, w, n, f->start) && (g_acc(f, w, n) <==> !old(g_acc(f, w, n)));
