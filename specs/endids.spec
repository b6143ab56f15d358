// End ids (src/libfsm/endids.c): the sorted id arrays
source "src/libfsm/endids.c";
ghostsource "ghost.h";
import "graph.spec";
import "isend.spec";
import "start.spec";

fn check_ids_sorted_and_unique {
	ensures result == 1;
	assigns nothing;
}
// the first place whose id is not below itm
fn bisect_left_sorted_ids {
	requires n > 0 ==> valid_n(ids, n) && n <= 0x7fffffff && ids != null;
	requires sorted: forall int j, int k {: ids[j], ids[k] :} . 0 <= j < k < n ==> ids[j] < ids[k];
	ensures range: 0 <= result <= n;
	ensures below: forall int j {: ids[j] :} . 0 <= j < result ==> ids[j] < itm;
	ensures above: forall int j {: ids[j] :} . result <= j < n ==> ids[j] >= itm;
	assigns nothing;
	loop 1 {
		invariant 0 <= lo <= hi + 1 && hi < n;
		invariant below: forall int j {: ids[j] :} . 0 <= j < lo ==> ids[j] < itm;
		invariant above: forall int j {: ids[j] :} . hi < j < n ==> ids[j] > itm;
		variant hi - lo + 1;
	}
}
fn cmp_endids {
	requires valid(cast(u32 *, pa)) && valid(cast(u32 *, pb));
	ensures order: (result < 0 <==> *cast(u32 *, pa) < *cast(u32 *, pb)) && (result == 0 <==> *cast(u32 *, pa) == *cast(u32 *, pb));
	assigns nothing;
}
// every id of a state is moved by the same distance, none is dropped
fn incr_remap {
	requires valid(cast(i32 *, opaque)) && valid(num_written) && (num_ids > 0 ==> valid_n(endids, num_ids)) && block(num_written) != block(endids) && block(opaque) != block(endids) && block(opaque) != block(num_written) && num_ids <= 0x7fffffff;
	ensures r: result == 1 && *num_written == num_ids;
	ensures moved: forall int i {: endids[i] :} . 0 <= i < num_ids ==> endids[i] == (old(endids[i]) + *cast(i32 *, opaque)) % 0x100000000;
	assigns *num_written, @m.u32(block(endids));
	loop 1 {
		invariant 0 <= i <= num_ids;
		invariant moved: forall int k {: endids[k] :} . 0 <= k < i ==> endids[k] == (old(endids[k]) + delta) % 0x100000000;
		invariant left: forall int k {: endids[k] :} . i <= k ==> endids[k] == old(endids[k]);
		variant num_ids - i;
	}
}
// what fsm_setendid may ask of fsm_endid_set (assumed otherwise; bounded check C18): accepting states only, in order, none skipped
predicate between_none(fsm *f, int a, int b) = forall int k {: f->states[k].end :} . a < k < b ==> f->states[k].end == 0;
fn fsm_endid_set {
	trusted;
	ghost id_log *log;
	ghost int want;
	requires fsm_shape(fsm) && 0 <= state < fsm->statecount;
	requires accepting: fsm->states[state].end != 0;
	requires order: state > log->last && between_none(fsm, log->last, state);
	requires id: id == want;
	ensures result == 0 || result == 1;
	ensures log->last == state;
	allocates;
	assigns log->last;
}
// every accepting state is given the id, and no other state is
fn fsm_setendid {
	ghost id_log *log;
	requires fsm_graph(fsm) && valid(log) && log->last == -1;
	ensures r: result == 0 || result == 1;
	ensures all: result == 1 ==> between_none(fsm, log->last, fsm->statecount);
	allocates;
	assigns log->last;
	call fsm_endid_set: log = log;
	call fsm_endid_set: want = id;
	loop 1 {
		invariant 0 <= i <= fsm->statecount && -1 <= log->last < i && between_none(fsm, log->last, i);
		variant fsm->statecount - i;
	}
}
