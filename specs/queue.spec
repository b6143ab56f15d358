// The bounded first-in first-out queue (src/adt/queue.c)
source "src/adt/queue.c";
basetype queue, fsm_alloc;

// 32 bytes of header, then the elements
predicate q_ok(queue *q) = block(q) > 0 && off(q) == 0 && q->capacity > 0 && bytes(q) >= 32 + 4 * q->capacity && bytes(q) >= 40 && 0 <= q->rd <= q->wr && q->wr <= q->capacity;
logic int q_len(queue *q) = q->wr - q->rd;
// the k-th element, oldest first
logic int q_at(queue *q, int k) opaque = q->q[q->rd + k];

predicate q_in(queue *q, int x) opaque = exists int j . 0 <= j < q_len(q) && q_at(q, j) == x;
fn queue_new {
	requires 0 <= max_capacity <= 0x1000000000;
	ensures result != null ==> fresh(result) && q_ok(result) && q_len(result) == 0 && result->capacity == max_capacity && result->alloc == a;
	allocates;
	assigns @queue(fresh);
}
fn queue_push {
	requires q_ok(q) && 0 <= state <= U32_MAX;
	ensures r: result == 0 || result == 1;
	ensures ok: q_ok(q) && q->capacity == old(q->capacity) && q->alloc == old(q->alloc);
	ensures full: result == 0 ==> old(q_len(q) == q->capacity || q_len(q) == 0 && q->rd > 0) && q_len(q) == old(q_len(q));
	ensures len: q_len(q) == old(q_len(q)) + result;
	ensures in: forall int x {: q_in(q, x) :} {: old(q_in(q, x)) :} . q_in(q, x) <==> old(q_in(q, x)) || result == 1 && x == state;
	ensures last: result == 1 ==> q_at(q, old(q_len(q))) == state;
	ensures fifo: forall int k {: q_at(q, k) :} {: old(q_at(q, k)) :} . 0 <= k < old(q_len(q)) ==> q_at(q, k) == old(q_at(q, k));
	assigns q->rd, q->wr, @queue.q(block(q));
}
fn queue_pop {
	requires q_ok(q) && valid(state) && block(state) != block(q);
	ensures r: result == (if old(q_len(q)) == 0 then 0 else 1);
	ensures ok: q_ok(q) && q->capacity == old(q->capacity) && q->alloc == old(q->alloc);
	ensures len: q_len(q) == old(q_len(q)) - result;
	ensures in: forall int x {: q_in(q, x) :} {: old(q_in(q, x)) :} . (q_in(q, x) ==> old(q_in(q, x))) && (old(q_in(q, x)) ==> q_in(q, x) || result == 1 && x == *state);
	ensures first_in: result == 1 ==> old(let y = q_at(q, 0) in q_in(q, y));
	ensures none: result == 0 ==> (forall int x {: old(q_in(q, x)) :} . !old(q_in(q, x)));
	ensures first: result == 1 ==> *state == old(q_at(q, 0));
	ensures rest: forall int k {: q_at(q, k) :} . 0 <= k < q_len(q) ==> q_at(q, k) == old(q_at(q, k + 1));
	ensures rest2: forall int k {: old(q_at(q, k)) :} . 1 <= k < old(q_len(q)) ==> q_at(q, k - 1) == old(q_at(q, k));
	ensures rest0: result == 0 ==> (forall int k {: q_at(q, k) :} {: old(q_at(q, k)) :} . q_at(q, k) == old(q_at(q, k)));
	at exit assert sh: result == 1 ==> (forall int k {: old(q_at(q, k)) :} . 1 <= k < old(q_len(q)) ==> q_at(q, k - 1) == old(q_at(q, k)));
	at exit assert sh2: forall int k {: q_at(q, k) :} . 0 <= k < q_len(q) ==> q_at(q, k) == old(q_at(q, k + result));
	ensures reset: q_len(q) == 0 ==> q->rd == 0 || result == 0;
	assigns q->rd, q->wr, *state where q_len(q) > 0;
}
fn queue_free {
	requires q_ok(q);
	frees q;
}
