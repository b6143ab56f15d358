// The language of a machine: the words some accepting run of the transition graph reads
source "src/libfsm/walk/reachable.c";
import "reach.spec";

// S relates states to positions of the word w[0..n) and is closed under the moves that w allows
predicate w_closed(fsm *f, iseq w, int n, iseq2 S) opaque =
	(forall int i, int t, int k {: g_eps(f, i, t), S[i][k] :} . 0 <= i < f->statecount && 0 <= k <= n && S[i][k] != 0 && g_eps(f, i, t) ==> S[t][k] != 0)
	&& (forall int i, int t, int k {: g_sym(f, i, w[k], t) :} {: S[i][k], S[t][k + 1] :} . 0 <= i < f->statecount && 0 <= k < n && S[i][k] != 0 && g_sym(f, i, w[k], t) ==> S[t][k + 1] != 0);
// reading w[0..n) from a can end in b
predicate g_runs(fsm *f, iseq w, int n, int a, int b) opaque = forall iseq2 S . S[a][0] != 0 && w_closed(f, w, n, S) ==> S[b][n] != 0;
lemma runs_all: forall fsm *f, iseq w, int n, int a, int b, iseq2 S {: g_runs(f, w, n, a, b), w_closed(f, w, n, S) :} {: g_runs(f, w, n, a, b), S[a][0] :} . g_runs(f, w, n, a, b) && S[a][0] != 0 && w_closed(f, w, n, S) ==> S[b][n] != 0;

predicate spread(iseq R, iseq2 S) opaque = forall int i, int k {: S[i][k] :} . S[i][k] != 0 <==> R[i] != 0;
comprehension spread_ex: forall iseq R, int a {: R[a] :} . exists iseq2 S . spread(R, S);
lemma spread_closed: forall fsm *f, iseq w, int n, iseq R, iseq2 S {: spread(R, S), w_closed(f, w, n, S) :} . spread(R, S) && g_closed(f, R) ==> w_closed(f, w, n, S);
lemma spread_runs runs_all spread_closed: forall fsm *f, iseq w, int n, int a, int b, iseq R, iseq2 S {: spread(R, S), g_runs(f, w, n, a, b) :} . spread(R, S) && g_runs(f, w, n, a, b) && g_closed(f, R) && R[a] != 0 ==> R[b] != 0;
lemma runs_reach spread_ex spread_runs: forall fsm *f, iseq w, int n, int a, int b {: g_runs(f, w, n, a, b) :} . 0 <= n && g_runs(f, w, n, a, b) ==> g_reach(f, a, b);

lemma runs_self: forall fsm *f, iseq w, int a {: g_runs(f, w, 0, a, a) :} . g_runs(f, w, 0, a, a);
lemma runs_eps: forall fsm *f, iseq w, int n, int a, int b, int t {: g_runs(f, w, n, a, b), g_eps(f, b, t) :} . 0 <= n && 0 <= b < f->statecount && g_runs(f, w, n, a, b) && g_eps(f, b, t) ==> g_runs(f, w, n, a, t);
lemma runs_sym: forall fsm *f, iseq w, int n, int a, int b, int t {: g_runs(f, w, n, a, b), g_sym(f, b, w[n], t) :} . 0 <= n && 0 <= b < f->statecount && g_runs(f, w, n, a, b) && g_sym(f, b, w[n], t) ==> g_runs(f, w, n + 1, a, t);
// a run over w[0..n) does not depend on the rest of w
lemma runs_pre: forall fsm *f, iseq w, int n, int a, int b, int c {: g_runs(f, w, n, a, b), w[n := c] :} . 0 <= n && g_runs(f, w, n, a, b) ==> g_runs(f, w[n := c], n, a, b);
lemma runs_app runs_sym runs_pre: forall fsm *f, iseq w, int n, int a, int b, int c, int t {: g_runs(f, w, n, a, b), g_sym(f, b, c, t) :} . 0 <= n && 0 <= b < f->statecount && g_runs(f, w, n, a, b) && g_sym(f, b, c, t) ==> g_runs(f, w[n := c], n + 1, a, t);

predicate word_to(fsm *f, int a, int b) opaque = exists iseq w, int n {: g_runs(f, w, n, a, b) :} . 0 <= n && g_runs(f, w, n, a, b);
lemma word_self runs_self: forall fsm *f, int a {: word_to(f, a, a) :} . word_to(f, a, a);
lemma word_eps runs_eps: forall fsm *f, int a, int b, int t {: word_to(f, a, b), g_eps(f, b, t) :} . 0 <= b < f->statecount && word_to(f, a, b) && g_eps(f, b, t) ==> word_to(f, a, t);
lemma word_sym runs_app: forall fsm *f, int a, int b, int c, int t {: word_to(f, a, b), g_sym(f, b, c, t) :} . 0 <= b < f->statecount && word_to(f, a, b) && g_sym(f, b, c, t) ==> word_to(f, a, t);
comprehension word_set: forall fsm *f, int a {: word_to(f, a, a) :} . exists iseq S . forall int b {: S[b] :} {: word_to(f, a, b) :} . S[b] != 0 <==> word_to(f, a, b);
lemma reach_word word_set word_eps word_sym word_self reach_all: forall fsm *f, int a, int b {: g_reach(f, a, b) :} . g_reach(f, a, b) && word_to(f, a, a) ==> word_to(f, a, b);
// b is reachable from a exactly when some word leads there
lemma reach_iff reach_word word_self runs_reach: forall fsm *f, int a, int b {: g_reach(f, a, b) :} . g_reach(f, a, b) <==> word_to(f, a, b);
// the language
predicate g_acc(fsm *f, iseq w, int n) opaque = 0 <= n && f->hasstart != 0 && (exists int b {: g_runs(f, w, n, f->start, b) :} . 0 <= b < f->statecount && f->states[b].end != 0 && g_runs(f, w, n, f->start, b));
// some word is accepted exactly when an accepting state is reachable from the start
predicate g_some(fsm *f) opaque = exists iseq w, int n {: g_acc(f, w, n) :} . g_acc(f, w, n);
lemma acc_reach runs_reach: forall fsm *f, iseq w, int n {: g_acc(f, w, n) :} . g_acc(f, w, n) ==> (exists int t {: g_reach(f, f->start, t) :} . 0 <= t < f->statecount && g_reach(f, f->start, t) && f->states[t].end != 0);
lemma some_reach acc_reach: forall fsm *f {: g_some(f) :} . g_some(f) ==> f->hasstart != 0 && (exists int t {: g_reach(f, f->start, t) :} . 0 <= t < f->statecount && g_reach(f, f->start, t) && f->states[t].end != 0);
lemma acc_by: forall fsm *f, iseq w, int n, int t {: g_acc(f, w, n), g_runs(f, w, n, f->start, t) :} {: g_some(f), g_runs(f, w, n, f->start, t) :} . 0 <= n && f->hasstart != 0 && 0 <= t < f->statecount && f->states[t].end != 0 && g_runs(f, w, n, f->start, t) ==> g_acc(f, w, n);
lemma reach_some reach_iff acc_by: forall fsm *f, int t {: g_some(f), g_reach(f, f->start, t) :} . f->hasstart != 0 && 0 <= t < f->statecount && g_reach(f, f->start, t) && f->states[t].end != 0 ==> g_some(f);
// neither the runs nor the language depend on memory outside the machine's own sets
lemma runs_frame (m.u32) eps_frame: forall fsm *f, iseq w, int n, int a, int b {: g_runs(f, w, n, a, b), old(g_acc(f, w, n)) :} {: old(g_runs(f, w, n, a, b)), g_acc(f, w, n) :} .
	(forall int i . 0 <= i < f->statecount && f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_runs(f, w, n, a, b) <==> old(g_runs(f, w, n, a, b)));
lemma acc_frame (m.u32) runs_frame: forall fsm *f, iseq w, int n {: g_acc(f, w, n), old(g_some(f)) :} {: old(g_acc(f, w, n)), g_some(f) :} .
	(forall int i . 0 <= i < f->statecount && f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_acc(f, w, n) <==> old(g_acc(f, w, n)));
lemma some_frame (m.u32) acc_frame: forall fsm *f {: g_some(f), old(g_some(f)) :} .
	(forall int i . 0 <= i < f->statecount && f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_some(f) <==> old(g_some(f)));

// deterministic: no empty moves, at most one successor by each symbol
predicate g_det(fsm *f) opaque = (forall int i, int t {: g_eps(f, i, t) :} . 0 <= i < f->statecount ==> !g_eps(f, i, t))
	&& (forall int i, int c, int t, int u {: g_sym(f, i, c, t), g_sym(f, i, c, u) :} . 0 <= i < f->statecount && g_sym(f, i, c, t) && g_sym(f, i, c, u) ==> t == u);
// b is the one state that w[0..n) leads to from a
predicate g_at(fsm *f, iseq w, int n, int a, int b) opaque = g_runs(f, w, n, a, b) && (forall int t {: g_runs(f, w, n, a, t) :} . g_runs(f, w, n, a, t) ==> t == b);
predicate g_cut(fsm *f, iseq w, int n, int a, int x, iseq2 S) opaque = forall int i, int k {: S[i][k] :} . S[i][k] != 0 <==> (k <= n && g_runs(f, w, k, a, i) || k == n + 1 && i == x);
// runs up to position n, then x at position n + 1, nothing after
comprehension cut_set: forall fsm *f, iseq w, int n, int a, int x {: g_runs(f, w, n + 1, a, x) :} . exists iseq2 S . g_cut(f, w, n, a, x, S);
comprehension cut_set0: forall fsm *f, iseq w, int n, int a, int b {: g_at(f, w, n, a, b) :} . exists iseq2 S . g_cut(f, w, n, a, -1, S);
lemma cut_closed runs_eps runs_sym: forall fsm *f, iseq w, int n, int a, int b, int t, iseq2 S {: g_cut(f, w, n, a, t, S), g_at(f, w, n, a, b) :} . g_cut(f, w, n, a, t, S) && g_det(f) && 0 <= n && g_at(f, w, n, a, b) && g_sym(f, b, w[n], t) ==> w_closed(f, w, n + 1, S);
lemma cut_dead runs_eps runs_sym: forall fsm *f, iseq w, int n, int a, int b, int m, iseq2 S {: g_cut(f, w, n, a, -1, S), g_at(f, w, n, a, b), w_closed(f, w, m, S) :} . g_cut(f, w, n, a, -1, S) && g_det(f) && 0 <= n < m && g_at(f, w, n, a, b) && (forall int t {: g_sym(f, b, w[n], t) :} . !g_sym(f, b, w[n], t)) ==> w_closed(f, w, m, S);
predicate g_unit(int a, iseq2 S) opaque = forall int i, int k {: S[i][k] :} . S[i][k] != 0 <==> k == 0 && i == a;
comprehension unit_set: forall fsm *f, iseq w, int n, int a {: g_at(f, w, n, a, a) :} . exists iseq2 S . g_unit(a, S);
lemma unit_closed: forall fsm *f, iseq w, int a, iseq2 S {: g_unit(a, S), w_closed(f, w, 0, S) :} . g_det(f) && g_unit(a, S) ==> w_closed(f, w, 0, S);
lemma unit_runs unit_closed runs_all: forall fsm *f, iseq w, int a, int t, iseq2 S {: g_unit(a, S), g_runs(f, w, 0, a, t) :} . g_det(f) && g_unit(a, S) && g_runs(f, w, 0, a, t) ==> t == a;
lemma at_self unit_set unit_runs runs_self: forall fsm *f, iseq w, int a {: g_at(f, w, 0, a, a) :} . g_det(f) ==> g_at(f, w, 0, a, a);
lemma cut_runs cut_closed runs_all runs_self: forall fsm *f, iseq w, int n, int a, int b, int t, int x, iseq2 S {: g_cut(f, w, n, a, t, S), g_at(f, w, n, a, b), g_runs(f, w, n + 1, a, x) :} . g_cut(f, w, n, a, t, S) && g_det(f) && 0 <= n && g_at(f, w, n, a, b) && g_sym(f, b, w[n], t) && g_runs(f, w, n + 1, a, x) ==> x == t;
lemma at_step cut_set cut_runs runs_sym: forall fsm *f, iseq w, int n, int a, int b, int t {: g_at(f, w, n, a, b), g_sym(f, b, w[n], t) :} . g_det(f) && 0 <= n && 0 <= b < f->statecount && g_at(f, w, n, a, b) && g_sym(f, b, w[n], t) ==> g_at(f, w, n + 1, a, t);
lemma dead_runs cut_dead runs_all runs_self: forall fsm *f, iseq w, int n, int a, int b, int m, int x, iseq2 S {: g_cut(f, w, n, a, -1, S), g_at(f, w, n, a, b), g_runs(f, w, m, a, x) :} . g_cut(f, w, n, a, -1, S) && g_det(f) && 0 <= n < m && g_at(f, w, n, a, b) && (forall int t {: g_sym(f, b, w[n], t) :} . !g_sym(f, b, w[n], t)) ==> (S[x][m] == 0 || x == -1) && (g_runs(f, w, m, a, x) ==> x == -1);
lemma at_dead cut_set0 dead_runs: forall fsm *f, iseq w, int n, int a, int b, int m, int x {: g_at(f, w, n, a, b), g_runs(f, w, m, a, x) :} . g_det(f) && 0 <= n < m && 0 <= x && g_at(f, w, n, a, b) && (forall int t {: g_sym(f, b, w[n], t) :} . !g_sym(f, b, w[n], t)) ==> !g_runs(f, w, m, a, x);
lemma es_uniq: forall edge_set *s, int c, int t, int u {: es_mem(s, c, t), es_mem(s, c, u) :} . es_wf(s) && es_det(s) && es_mem(s, c, t) && es_mem(s, c, u) ==> t == u;
lemma eps_frame_det (m.u32) ss_row: forall fsm *f, int i, int t {: g_eps(f, i, t), old(g_det(f)) :} {: old(g_eps(f, i, t)), g_det(f) :} .
	(f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_eps(f, i, t) <==> old(g_eps(f, i, t)));
lemma det_frame (m.u32) eps_frame_det: forall fsm *f {: g_det(f), old(g_det(f)) :} .
	(forall int i . 0 <= i < f->statecount && f->states[i].epsilons != null && !ss_single(f->states[i].epsilons) ==> inner(f->states[i].epsilons->a[0]) == old(inner(f->states[i].epsilons->a[0])))
	==> (g_det(f) <==> old(g_det(f)));
predicate es_nondet(edge_set *s) opaque = exists int c, int t, int u {: es_mem(s, c, t), es_mem(s, c, u) :} . es_mem(s, c, t) && es_mem(s, c, u) && t != u;
lemma bit_mem: forall edge_set *s, int j, int c {: es_bit(s, j, c), es_nondet(s) :} . s != null && 0 <= j < s->count && 0 <= c < 256 && es_bit(s, j, c) ==> es_mem(s, c, s->groups[j].to);
lemma es_nondet_det es_uniq bit_mem: forall edge_set *s {: es_nondet(s) :} . es_wf(s) ==> (es_nondet(s) <==> !es_det(s));
