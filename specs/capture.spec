// Capture bookkeeping (src/libfsm/capture.c)
source "src/libfsm/capture.c";
import "graph.spec";

predicate cap_table(fsm_capture_info *c) = 0 <= c->bucket_count <= 0x40000000 && c->buckets_used <= c->bucket_count && (c->bucket_count > 0 ==> c->buckets != null && valid_n(c->buckets, c->bucket_count) && block(c->buckets) != block(c));
predicate cap_ok(fsm *f) = valid(f) && f->capture_info != null && valid(f->capture_info) && block(f->capture_info) != block(f) && block(f->capture_info) != block(f->states) && cap_table(f->capture_info);
// bucket k holds an action
predicate cap_full(fsm_capture_info *c, int k) = 0 <= k < c->bucket_count && c->buckets[k].state != 0xffffffff;

fn fsm_countcaptures {
	requires valid(fsm) && (fsm->capture_info != null ==> valid(fsm->capture_info) && fsm->capture_info->max_capture_id < 0xffffffff);
	ensures count: if fsm->capture_info == null || fsm->capture_info->buckets_used == 0 then result == 0 else result == fsm->capture_info->max_capture_id + 1;
	assigns nothing;
}
fn fsm_capture_has_captures {
	requires valid(fsm) && (fsm->capture_info != null ==> valid(fsm->capture_info));
	ensures some: result != 0 <==> fsm->capture_info != null && fsm->capture_info->buckets_used > 0;
	assigns nothing;
}
fn fsm_capture_has_capture_actions {
	requires fsm_shape(fsm) && 0 <= state < fsm->statecount;
	ensures result != 0 <==> fsm->states[state].has_capture_actions != 0;
	assigns nothing;
}
fn cmp_action {
	requires valid(a) && valid(b);
	ensures same: result == 0 <==> a->id == b->id && a->type == b->type && a->to == b->to;
	ensures id: a->id < b->id ==> result < 0;
	ensures id2: a->id > b->id ==> result > 0;
	assigns nothing;
}
fn init_capture_action_htab {
	requires valid(fsm) && valid(ci) && block(ci) != block(fsm) && (ci->bucket_count > 0 ==> ci->buckets != null) && (ci->bucket_count == 0 ==> ci->buckets == null && ci->buckets_used == 0);
	ensures r: result == 0 || result == 1;
	ensures made: result == 1 && old(ci->bucket_count) == 0 ==> cap_table(ci) && fresh(ci->buckets) && ci->bucket_count > 0 && (forall int k {: ci->buckets[k].state :} . 0 <= k < ci->bucket_count ==> ci->buckets[k].state == 0xffffffff);
	ensures kept: old(ci->bucket_count) > 0 ==> result == 1 && ci->buckets == old(ci->buckets) && ci->bucket_count == old(ci->bucket_count);
	ensures failed: result == 0 ==> ci->bucket_count == 0 && ci->buckets == null;
	allocates;
	assigns ci->buckets where ci->bucket_count == 0, ci->bucket_count where ci->bucket_count == 0, @fsm_capture_action_bucket(fresh);
	loop 1 {
		invariant 0 <= i <= count;
		invariant forall int k {: ci->buckets[k].state :} . 0 <= k < i ==> ci->buckets[k].state == 0xffffffff;
		variant count - i;
	}
}
// every action's id moves by base, and the highest id follows
fn fsm_capture_rebase_capture_id {
	requires cap_ok(fsm) && 0 <= base;
	requires room: forall int k {: fsm->capture_info->buckets[k].action.id :} . cap_full(fsm->capture_info, k) ==> fsm->capture_info->buckets[k].action.id + base <= 0xffffffff;
	ensures moved: forall int k {: fsm->capture_info->buckets[k].action.id :} . cap_full(fsm->capture_info, k) ==> fsm->capture_info->buckets[k].action.id == old(fsm->capture_info->buckets[k].action.id) + base;
	ensures highest: forall int k {: fsm->capture_info->buckets[k].action.id :} . cap_full(fsm->capture_info, k) ==> fsm->capture_info->max_capture_id >= fsm->capture_info->buckets[k].action.id;
	ensures max: fsm->capture_info->max_capture_id >= old(fsm->capture_info->max_capture_id);
	assigns fsm->capture_info->max_capture_id, @fsm_capture_action_bucket.action.id(block(fsm->capture_info->buckets));
	loop 1 {
		invariant 0 <= i <= ci->bucket_count && ci->max_capture_id >= old(fsm->capture_info->max_capture_id);
		invariant done: forall int k {: ci->buckets[k].action.id :} . 0 <= k < i && cap_full(ci, k) ==> ci->buckets[k].action.id == old(ci->buckets[k].action.id) + base && ci->max_capture_id >= ci->buckets[k].action.id;
		invariant left: forall int k {: ci->buckets[k].action.id :} . i <= k < ci->bucket_count ==> ci->buckets[k].action.id == old(ci->buckets[k].action.id);
		variant ci->bucket_count - i;
	}
}
// every action's state, and the state it leads to, move by base
fn fsm_capture_rebase_capture_action_states {
	requires cap_ok(fsm) && 0 <= base;
	requires room: forall int k {: fsm->capture_info->buckets[k].state :} {: fsm->capture_info->buckets[k].action.to :} . cap_full(fsm->capture_info, k) ==> fsm->capture_info->buckets[k].state + base < 0xffffffff && (fsm->capture_info->buckets[k].action.to != 0xffffffff ==> fsm->capture_info->buckets[k].action.to + base < 0xffffffff);
	ensures moved: forall int k {: fsm->capture_info->buckets[k].state :} . 0 <= k < fsm->capture_info->bucket_count ==> (if old(fsm->capture_info->buckets[k].state) == 0xffffffff then fsm->capture_info->buckets[k].state == 0xffffffff else fsm->capture_info->buckets[k].state == old(fsm->capture_info->buckets[k].state) + base);
	ensures to: forall int k {: fsm->capture_info->buckets[k].action.to :} . 0 <= k < fsm->capture_info->bucket_count && old(fsm->capture_info->buckets[k].state) != 0xffffffff ==> (if old(fsm->capture_info->buckets[k].action.to) == 0xffffffff then fsm->capture_info->buckets[k].action.to == 0xffffffff else fsm->capture_info->buckets[k].action.to == old(fsm->capture_info->buckets[k].action.to) + base);
	assigns @fsm_capture_action_bucket.state(block(fsm->capture_info->buckets)), @fsm_capture_action_bucket.action.to(block(fsm->capture_info->buckets));
	loop 1 {
		invariant 0 <= i <= ci->bucket_count;
		invariant moved: forall int k {: ci->buckets[k].state :} . 0 <= k < i ==> (if old(ci->buckets[k].state) == 0xffffffff then ci->buckets[k].state == 0xffffffff else ci->buckets[k].state == old(ci->buckets[k].state) + base);
		invariant to: forall int k {: ci->buckets[k].action.to :} . 0 <= k < i && old(ci->buckets[k].state) != 0xffffffff ==> (if old(ci->buckets[k].action.to) == 0xffffffff then ci->buckets[k].action.to == 0xffffffff else ci->buckets[k].action.to == old(ci->buckets[k].action.to) + base);
		invariant left: forall int k {: ci->buckets[k].state :} {: ci->buckets[k].action.to :} . i <= k < ci->bucket_count ==> ci->buckets[k].state == old(ci->buckets[k].state) && ci->buckets[k].action.to == old(ci->buckets[k].action.to);
		variant ci->bucket_count - i;
	}
}
