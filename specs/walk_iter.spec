// Walks: every state and every edge is visited exactly once, in order, until the visitor declines
source "src/libfsm/walk/iter.c";
ghostsource "ghost.h";
import "graph.spec";

// (i,t,c) comes after the last labelled edge in the log / before the edge (i2,t2,c2)
predicate wl_after(walk_log *l, int i, int t, int c) = i > l->from || i == l->from && (t > l->to || t == l->to && c > l->sym);
predicate lex3(int i, int t, int c, int i2, int t2, int c2) = i < i2 || i == i2 && (t < t2 || t == t2 && c < c2);
predicate wl_eafter(walk_log *l, int i, int t) = i > l->efrom || i == l->efrom && t > l->eto;
predicate wl_init(walk_log *l) = l != null && valid(l) && l->state == -1 && l->from == -1 && l->to == 0 && l->sym == 0 && l->efrom == -1 && l->eto == 0 && l->stopped == 0;

// contracts of the visitors: what a walk may ask of them
fn cb_visit_state {
	trusted;
	ghost walk_log *log;
	requires running: log->stopped == 0;
	requires next: arg2 == log->state + 1;
	ensures log->state == arg2 && (result == 0 <==> log->stopped != 0);
	assigns log->state, log->stopped;
}
fn cb_visit_edge {
	trusted;
	ghost walk_log *log;
	requires running: log->stopped == 0;
	requires real: 0 <= arg2 < arg1->statecount && 0 <= arg3 <= U32_MAX && g_sym(arg1, arg2, (if arg4 < 0 then arg4 + 256 else arg4), arg3);
	requires once: wl_after(log, arg2, arg3, (if arg4 < 0 then arg4 + 256 else arg4));
	requires none_missed: forall int i, int t, int c {: g_sym(arg1, i, c, t) :} . 0 <= i < arg1->statecount && wl_after(log, i, t, c) && lex3(i, t, c, arg2, arg3, (if arg4 < 0 then arg4 + 256 else arg4)) ==> !g_sym(arg1, i, c, t);
	ensures log->from == arg2 && log->to == arg3 && log->sym == (if arg4 < 0 then arg4 + 256 else arg4) && (result == 0 <==> log->stopped != 0);
	assigns log->from, log->to, log->sym, log->stopped;
}
fn cb_visit_epsilon {
	trusted;
	ghost walk_log *log;
	requires running: log->stopped == 0;
	requires real: 0 <= arg2 < arg1->statecount && g_eps(arg1, arg2, arg3);
	requires once: wl_eafter(log, arg2, arg3);
	requires none_missed: forall int i, int t {: g_eps(arg1, i, t) :} . 0 <= i < arg1->statecount && wl_eafter(log, i, t) && (i < arg2 || i == arg2 && t < arg3) ==> !g_eps(arg1, i, t);
	ensures log->efrom == arg2 && log->eto == arg3 && (result == 0 <==> log->stopped != 0);
	assigns log->efrom, log->eto, log->stopped;
}
fn fsm_walk_states {
	ghost walk_log *log;
	callback callback = cb_visit_state;
	requires fsm_shape(fsm) && callback != null && wl_init(log);
	ensures all: result == 1 ==> log->state == fsm->statecount - 1 && log->stopped == 0;
	ensures stop: result == 0 ==> log->stopped != 0;
	ensures result == 0 || result == 1;
	assigns log->state, log->stopped;
	loop 1 {
		invariant 0 <= i <= fsm->statecount && log->state == i - 1 && log->stopped == 0;
		variant fsm->statecount - i;
	}
}
fn fsm_walk_edges {
	use ss_row;

	ghost walk_log *log;
	callback callback_literal = cb_visit_edge;
	callback callback_epsilon = cb_visit_epsilon;
	requires fsm_graph(fsm) && callback_literal != null && callback_epsilon != null && wl_init(log);
	ensures result == 0 || result == 1;
	ensures stop: result == 0 ==> log->stopped != 0;
	ensures all: result == 1 ==> log->stopped == 0 && (forall int i, int t, int c {: g_sym(fsm, i, c, t) :} . 0 <= i < fsm->statecount && wl_after(log, i, t, c) ==> !g_sym(fsm, i, c, t));
	ensures all_eps: result == 1 ==> (forall int i, int t {: g_eps(fsm, i, t) :} . 0 <= i < fsm->statecount && wl_eafter(log, i, t) ==> !g_eps(fsm, i, t));
	assigns log->from, log->to, log->sym, log->efrom, log->eto, log->stopped;
	loop 1 {
		invariant 0 <= i <= fsm->statecount && log->stopped == 0 && log->from < i && log->efrom < i;
		invariant lit: forall int k, int t, int c {: g_sym(fsm, k, c, t) :} . 0 <= k < i && wl_after(log, k, t, c) ==> !g_sym(fsm, k, c, t);
		invariant eps: forall int k, int t {: g_eps(fsm, k, t) :} . 0 <= k < i && wl_eafter(log, k, t) ==> !g_eps(fsm, k, t);
		variant fsm->statecount - i;
	}
	loop 2 {
		invariant log->stopped == 0 && log->from <= i && log->efrom < i;
		invariant pos: ei.set == fsm->states[i].edges && (ei.set != null ==> 0 <= ei.i <= ei.set->count && 0 <= ei.j <= 256);
		invariant lit: forall int k, int t, int c {: g_sym(fsm, k, c, t) :} . 0 <= k < i && wl_after(log, k, t, c) ==> !g_sym(fsm, k, c, t);
		invariant here: log->from == i ==> ei.set != null && ei.i < ei.set->count && ei.j >= 1 && log->to == ei.set->groups[ei.i].to && log->sym == ei.j - 1;
		invariant here2: log->from < i ==> ei.i == 0 && ei.j == 0;
		variant if ei.set == null then 0 else (ei.set->count - ei.i) * 257 + 256 - ei.j;
	}
	loop 3 {
		invariant log->stopped == 0 && log->from <= i && log->efrom <= i;
		invariant pos: di.set == fsm->states[i].epsilons && 0 <= di.i <= ss_count(di.set);
		invariant eps: forall int k, int t {: g_eps(fsm, k, t) :} . 0 <= k < i && wl_eafter(log, k, t) ==> !g_eps(fsm, k, t);
		invariant here: log->efrom == i ==> di.i >= 1 && log->eto == ss_at(di.set, di.i - 1);
		invariant here2: log->efrom < i ==> di.i == 0;
		variant ss_count(di.set) - di.i;
	}
}
