// 256-bit maps and bare 64-bit word sets (src/adt/bitmap.c, include/adt/u64bitset.h)
source "src/adt/bitmap.c";
predicate bm_wf(bm *b) = block(b) > 0 && valid(b) && (forall int w {: b->map[w] :} . 0 <= w < 4 ==> 0 <= b->map[w] <= U64_MAX);
predicate bm_has(bm *b, int c) = bit(b->map[c / 64], c % 64);
predicate bm_none(bm *b) = forall int c {: bm_has(b, c) :} . 0 <= c < 256 ==> !bm_has(b, c);

fn u64bitset_words {
	ensures result * 64 >= count && result * 64 < count + 64;
}
fn bm_get {
	requires bm_wf(bm) && 0 <= i < 256;
	ensures result == (if bm_has(bm, i) then 1 else 0);
}
fn bm_set {
	requires bm_wf(bm) && 0 <= i < 256;
	ensures bm_wf(bm);
	ensures set: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> old(bm_has(bm, c)) || c == i);
	assigns bm->map[i / 64];
}
fn bm_unset {
	requires bm_wf(bm) && 0 <= i < 256;
	ensures bm_wf(bm);
	ensures clear: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> old(bm_has(bm, c)) && c != i);
	assigns bm->map[i / 64];
}
fn bm_next {
	requires bm_wf(bm) && -1 <= i <= 256;
	ensures range: i < result <= 256 || i == 256 && result == 256;
	ensures found: result < 256 ==> (bm_has(bm, result) <==> value != 0);
	ensures first: forall int c {: bm_has(bm, c) :} . i < c < result ==> (bm_has(bm, c) <==> value == 0);
	loop 1 {
		invariant i < n && (n <= 256 || i == 256 && n == 257);
		invariant forall int c {: bm_has(bm, c) :} . i < c < n && c < 256 ==> (bm_has(bm, c) <==> value == 0);
		variant 258 - n;
	}
}
fn bm_clear {
	requires block(bm) > 0 && valid(bm);
	ensures bm_wf(bm);
	ensures none: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> !bm_has(bm, c);
	assigns bm->map;
	loop 1 {
		invariant 0 <= n <= 4;
		invariant forall int w {: bm->map[w] :} . 0 <= w < n ==> bm->map[w] == 0;
		variant 4 - n;
	}
}
fn bm_invert {
	requires bm_wf(bm);
	ensures bm_wf(bm);
	ensures inv: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> !old(bm_has(bm, c)));
	assigns bm->map;
	loop 1 {
		invariant 0 <= n <= 4;
		invariant bm_wf(bm);
		invariant forall int w, int k {: bit(bm->map[w], k) :} . 0 <= w < n && 0 <= k < 64 ==> (bit(bm->map[w], k) <==> !old(bit(bm->map[w], k)));
		invariant forall int w {: bm->map[w] :} . n <= w < 4 ==> bm->map[w] == old(bm->map[w]);
		variant 4 - n;
	}
}
fn bm_copy {
	requires bm_wf(src) && block(dst) > 0 && valid(dst) && block(src) != block(dst);
	ensures bm_wf(dst);
	ensures eq: forall int c {: bm_has(dst, c) :} . 0 <= c < 256 ==> (bm_has(dst, c) <==> bm_has(src, c));
	assigns dst->map;
}
fn bm_intersect {
	requires bm_wf(src) && bm_wf(dst);
	ensures bm_wf(dst);
	ensures and: forall int c {: bm_has(dst, c) :} . 0 <= c < 256 ==> (bm_has(dst, c) <==> old(bm_has(dst, c)) && old(bm_has(src, c)));
	assigns dst->map;
	loop 1 {
		invariant 0 <= i <= 4 && bm_wf(src) && bm_wf(dst);
		invariant forall int w, int k {: bit(dst->map[w], k) :} . 0 <= w < i && 0 <= k < 64 ==> (bit(dst->map[w], k) <==> old(bit(dst->map[w], k)) && old(bit(src->map[w], k)));
		invariant forall int w {: dst->map[w] :} . i <= w < 4 ==> dst->map[w] == old(dst->map[w]);
		invariant forall int w {: src->map[w] :} . block(src) != block(dst) || i <= w < 4 ==> src->map[w] == old(src->map[w]);
		variant 4 - i;
	}
}
fn bm_union {
	requires bm_wf(src) && bm_wf(dst);
	ensures bm_wf(dst);
	ensures or: forall int c {: bm_has(dst, c) :} . 0 <= c < 256 ==> (bm_has(dst, c) <==> old(bm_has(dst, c)) || old(bm_has(src, c)));
	assigns dst->map;
	loop 1 {
		invariant 0 <= i <= 4 && bm_wf(src) && bm_wf(dst);
		invariant forall int w, int k {: bit(dst->map[w], k) :} . 0 <= w < i && 0 <= k < 64 ==> (bit(dst->map[w], k) <==> old(bit(dst->map[w], k)) || old(bit(src->map[w], k)));
		invariant forall int w {: dst->map[w] :} . i <= w < 4 ==> dst->map[w] == old(dst->map[w]);
		invariant forall int w {: src->map[w] :} . block(src) != block(dst) || i <= w < 4 ==> src->map[w] == old(src->map[w]);
		variant 4 - i;
	}
}
fn bm_any {
	requires bm_wf(bm);
	ensures result == 0 || result == 1;
	ensures any: result == 1 ==> (exists int c . 0 <= c < 256 && bm_has(bm, c));
	ensures none: result == 0 ==> (forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> !bm_has(bm, c));
	loop 1 {
		invariant 0 <= i <= 4;
		invariant forall int w {: bm->map[w] :} . 0 <= w < i ==> bm->map[w] == 0;
		variant 4 - i;
	}
	at exit assert wit: result == 1 ==> (exists int w, int k . 0 <= w < 4 && 0 <= k < 64 && bit(bm->map[w], k) && bm_has(bm, 64 * w + k));
}
fn bm_nth_word {
	inline;
}
fn u64bitset_popcount {
	requires 0 <= s <= U64_MAX;
	ensures result == popc(s);
}
fn bm_count {
	requires bm_wf(bm);
	ensures result == popc(bm->map[0]) + popc(bm->map[1]) + popc(bm->map[2]) + popc(bm->map[3]);
	unroll 1 4;
}
