// Execution of a deterministic machine over a stream of characters (src/libfsm/exec.c)
source "src/libfsm/exec.c";
ghostsource "ghost.h";
import "lang.spec";
import "isdfa.spec";
import "isend.spec";
import "walk_pred.spec";

// the characters a getc callback will deliver, and how many
logic iseq input(int p);
logic int input_len(int p);
logic int capcount(int f);

fn cb_getc {
	trusted;
	ghost exec_log *log;
	requires once: log->ended == 0;
	ensures eof: old(log->pos) >= input_len(self) ==> result == -1 && log->pos == old(log->pos) && log->ended == 1;
	ensures char: old(log->pos) < input_len(self) ==> result == input(self)[old(log->pos)] && 0 <= result <= 255 && log->pos == old(log->pos) + 1 && log->ended == 0;
	assigns log->pos, log->ended;
}
fn fsm_countcaptures { trusted; ensures result == capcount(block(fsm)) && 0 <= result; assigns nothing; }
fn fsm_capture_has_capture_actions { trusted; requires 0 <= state < fsm->statecount; ensures result == 0 || result == 1; assigns nothing; }
fn fsm_capture_update_captures { trusted; requires captures != null; assigns @fsm_capture.pos(block(captures)); }
fn fsm_capture_finalize_captures { trusted; requires captures != null; assigns @fsm_capture.pos(block(captures)); }
fn match_eager_outputs_for_state { trusted; requires 0 <= state < fsm->statecount; ensures result == 1; assigns nothing; }

fn transition {
	requires fsm_graph(fsm) && fsm_sep(fsm) && 0 <= state < fsm->statecount && 0 <= c <= 255 && valid(next) && next != null;
	requires sep: fsm->states[state].edges != null ==> !es_owns(fsm->states[state].edges, block(next));
	ensures r: result == 0 || result == 1;
	ensures found: result == 1 ==> (let t = *next in 0 <= t < fsm->statecount && old(g_sym(fsm, state, c, t)));
	ensures none: result == 0 ==> (forall int t {: old(g_sym(fsm, state, c, t)) :} . !old(g_sym(fsm, state, c, t)));
	assigns *next, @fsm_capture.pos(block(captures));
}

fn fsm_exec {
	ghost exec_log *log;
	callback fsm_getc = cb_getc;
	requires fsm_graph(fsm) && fsm_sep(fsm) && fsm_starts(fsm) && fsm_getc != null && end != null && valid(end);
	requires log != null && valid(log) && log->pos == 0 && log->ended == 0 && 0 <= input_len(block(fsm_getc)) < 0x7fffffff;
	requires caps: captures != null ==> valid_n(captures, capcount(block(fsm))) && capcount(block(fsm)) < U32_MAX;
	ensures range: result == 0 || result == 1 || result == -1;
	ensures error: result == -1 <==> !old(g_det(fsm)) || fsm->hasstart == 0;
	// accepted: the whole input was read and leads to the accepting state reported
	ensures accept: result == 1 ==> old(g_acc(fsm, input(block(fsm_getc)), input_len(block(fsm_getc))));
	ensures where: result == 1 ==> log->ended != 0 && (let b = *end in 0 <= b < fsm->statecount && fsm->states[b].end != 0 && old(g_at(fsm, input(block(fsm_getc)), input_len(block(fsm_getc)), fsm->start, b)));
	ensures reject: result == 0 ==> !old(g_acc(fsm, input(block(fsm_getc)), input_len(block(fsm_getc))));
	assigns *end, log->pos, log->ended, @fsm_capture.pos(block(captures));
	at after fsm_all assert det: result == 1 ==> g_det(fsm);
	at after fsm_all assert dup: result == 0 && fsm->hasstart != 0 ==> (exists int i {: fsm->states[i].edges :} . 0 <= i < fsm->statecount && ((exists int t . g_eps(fsm, i, t)) || es_nondet(fsm->states[i].edges)));
	at after fsm_all assert nondet: (result == 0 ==> !g_det(fsm) || fsm->hasstart == 0);
	use es_nondet_det, es_uniq, det_frame, acc_by, eps_frame, runs_frame, acc_frame, at_self, at_step, at_dead;
	loop 1 {
		invariant 0 <= i <= capture_count;
		variant capture_count - i;
	}
	loop 2 {
		invariant det: old(g_det(fsm)) && fsm->hasstart != 0;
		invariant here: 0 <= state < fsm->statecount;
		invariant fed: 0 <= log->pos <= input_len(block(fsm_getc)) && log->ended == 0 && offset == log->pos;
		invariant at: let s = state in let p = log->pos in old(g_at(fsm, input(block(fsm_getc)), p, fsm->start, s));
		variant input_len(block(fsm_getc)) - log->pos;
	}
}
