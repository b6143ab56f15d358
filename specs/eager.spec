// Eager outputs (src/libfsm/eager_output.c)
source "src/libfsm/eager_output.c";
ghostsource "ghost.h";
import "fsmc.spec";
import "isend.spec";
addrfield eager_output_info.htab;

predicate eo_ok(fsm *f) = f->eager_output_info != null && valid(f->eager_output_info) && off(f->eager_output_info) == 0 && block(f->eager_output_info) != block(f) && block(f->eager_output_info) != block(f->states);
predicate eo_table(eager_output_info *e) = 0 < e->htab.bucket_count <= 0x7fffffff && valid_n(e->htab.buckets, e->htab.bucket_count) && e->htab.buckets != null && block(e->htab.buckets) != block(e);
fn fsm_eager_output_set_cb {
	requires valid(fsm) && eo_ok(fsm);
	ensures fsm->eager_output_info->cb == cb && fsm->eager_output_info->opaque == opaque;
	assigns fsm->eager_output_info->cb, fsm->eager_output_info->opaque;
}
fn fsm_eager_output_state_has_eager_output {
	requires fsm_shape(fsm) && 0 <= state < fsm->statecount;
	ensures result == 0 || result == 1;
	ensures (result != 0 <==> fsm->states[state].has_eager_outputs != 0);
	assigns nothing;
}
// some bucket holds an id
fn fsm_eager_output_has_eager_output {
	requires valid(fsm) && eo_ok(fsm) && eo_table(fsm->eager_output_info);
	requires forall int k {: fsm->eager_output_info->htab.buckets[k].entry :} . 0 <= k < fsm->eager_output_info->htab.bucket_count && fsm->eager_output_info->htab.buckets[k].entry != null ==> valid(fsm->eager_output_info->htab.buckets[k].entry);
	ensures some: result != 0 <==> (exists int k {: fsm->eager_output_info->htab.buckets[k].entry :} . 0 <= k < fsm->eager_output_info->htab.bucket_count && fsm->eager_output_info->htab.buckets[k].entry != null && fsm->eager_output_info->htab.buckets[k].entry->used > 0);
	assigns nothing;
	loop 1 {
		invariant 0 <= b_i <= htab->bucket_count;
		invariant forall int k {: htab->buckets[k].entry :} . 0 <= k < b_i && htab->buckets[k].entry != null ==> htab->buckets[k].entry->used == 0;
		variant htab->bucket_count - b_i;
	}
}
fn cmp_fsm_output_id_t {
	requires valid(cast(u32 *, pa)) && valid(cast(u32 *, pb));
	ensures order: (result < 0 <==> *cast(u32 *, pa) < *cast(u32 *, pb)) && (result == 0 <==> *cast(u32 *, pa) == *cast(u32 *, pb));
	assigns nothing;
}
// the ids are collected in a buffer that is never overrun; a buffer too small is reported
fn append_cb {
	requires valid(cast(get_env *, opaque)) && cast(get_env *, opaque)->count <= cast(get_env *, opaque)->ceil && valid_n(cast(get_env *, opaque)->buf, cast(get_env *, opaque)->ceil) && block(cast(get_env *, opaque)->buf) != block(opaque) && cast(get_env *, opaque)->ceil <= 0x7fffffff;
	ensures result == 0 || result == 1;
	ensures full: if old(cast(get_env *, opaque)->count) == old(cast(get_env *, opaque)->ceil) then result == 0 && cast(get_env *, opaque)->ok == 0 && cast(get_env *, opaque)->count == old(cast(get_env *, opaque)->count)
		else result == 1 && cast(get_env *, opaque)->count == old(cast(get_env *, opaque)->count) + 1 && cast(get_env *, opaque)->ok == old(cast(get_env *, opaque)->ok) && cast(get_env *, opaque)->buf[old(cast(get_env *, opaque)->count)] == id;
	assigns cast(get_env *, opaque)->ok, cast(get_env *, opaque)->count, cast(get_env *, opaque)->buf[cast(get_env *, opaque)->count];
}
fn inc_cb {
	requires valid(cast(u64 *, opaque)) && *cast(u64 *, opaque) < 0x7fffffffffffffff;
	ensures result == 1 && *cast(u64 *, opaque) == old(*cast(u64 *, opaque)) + 1;
	assigns *cast(u64 *, opaque);
}
// what fsm_eager_output_set_on_ends may ask of fsm_eager_output_set (assumed otherwise; bounded check C27)
predicate between_none(fsm *f, int a, int b) = forall int k {: f->states[k].end :} . a < k < b ==> f->states[k].end == 0;
fn fsm_eager_output_set {
	trusted;
	ghost id_log *log;
	ghost int want;
	requires fsm_shape(fsm) && 0 <= state < fsm->statecount;
	requires accepting: fsm->states[state].end != 0;
	requires order: state > log->last && between_none(fsm, log->last, state);
	requires id: id == want;
	ensures result == 0 || result == 1;
	ensures log->last == state;
	allocates;
	assigns log->last, fsm->states[state].has_eager_outputs;
}
fn fsm_eager_output_set_on_ends {
	ghost id_log *log;
	requires fsm_graph(fsm) && valid(log) && log->last == -1;
	ensures r: result == 0 || result == 1;
	ensures all: result == 1 ==> between_none(fsm, log->last, fsm->statecount);
	allocates;
	assigns log->last, @fsm_state.has_eager_outputs(block(fsm->states));
	call fsm_eager_output_set: log = log;
	call fsm_eager_output_set: want = id;
	loop 1 {
		invariant 0 <= i <= count && count == fsm->statecount && -1 <= log->last < i && between_none(fsm, log->last, i);
		variant count - i;
	}
}
