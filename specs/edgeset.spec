// Labelled transitions: groups sorted by destination, each with a 256-bit symbol set (src/adt/edgeset.c)
source "src/adt/edgeset.c";
import "stateset.spec";
import "bitmap.spec";
basetype edge_set, fsm_alloc, edge_group_iter, edge_group_iter_info;
basefield edge_set.groups;

predicate es_bit(edge_set *s, int i, int c) = bit(s->groups[i].symbols[c / 64], c % 64);

predicate es_heap(edge_set *s) =
	block(s) > 0 && valid(s) && block(s->groups) > 0 && block(s->groups) != block(s)
	&& 1 <= s->ceil && 0 <= s->count <= s->ceil && valid_n(s->groups, s->ceil)
	&& (forall int j {: s->groups[j].to :} . 0 <= j < s->count ==> 0 <= s->groups[j].to <= U32_MAX)
	&& (forall int j, int w {: s->groups[j].symbols[w] :} . 0 <= j < s->count && 0 <= w < 4 ==> 0 <= s->groups[j].symbols[w] <= U64_MAX)
	&& (forall int j, int k {: s->groups[j].to, s->groups[k].to :} . 0 <= j < k < s->count ==> s->groups[j].to < s->groups[k].to);

predicate es_wf(edge_set *s) = s == null || es_heap(s);

// the relation: symbol c leads to state t
predicate es_mem(edge_set *s, int c, int t) opaque =
	s != null && 0 <= c < 256 && (exists int j . 0 <= j < s->count && s->groups[j].to == t && es_bit(s, j, c));

predicate es_owns(edge_set *s, int b) = block(s) > 0 && (b == block(s) || b == block(s->groups));

// some edge is labelled c; every byte leads to at most one state
predicate es_any(edge_set *s, int c) opaque = s != null && (exists int j . 0 <= j < s->count && es_bit(s, j, c));
predicate es_det(edge_set *s) = s == null || (forall int j, int k, int c {: es_bit(s, j, c), es_bit(s, k, c) :} . 0 <= j < k < s->count && 0 <= c < 256 ==> !(es_bit(s, j, c) && es_bit(s, k, c)));
lemma es_mem_intro: forall edge_set *s, int j, int c {: es_bit(s, j, c), es_any(s, c) :} {: es_bit(s, j, c), s->groups[j].to :} . s != null && 0 <= j < s->count && 0 <= c < 256 && es_bit(s, j, c) ==> es_mem(s, c, s->groups[j].to);

fn edge_set_new {
	ensures result == null;
}
fn edge_set_free {
	requires es_wf(set);
	frees set where set != null; frees set->groups where set != null;
}
fn grow_groups {
	requires es_heap(set) && set->ceil <= 0x10000000000;
	ensures ok: result == 0 || result == 1;
	ensures grown: result == 1 ==> set->ceil == 2 * old(set->ceil);
	ensures kept: result == 0 ==> set->ceil == old(set->ceil) && set->groups == old(set->groups);
	ensures es_heap(set);
	ensures own: set->groups == old(set->groups) || fresh(set->groups);
	ensures same: forall int j {: set->groups[j].to :} . 0 <= j < set->count ==> set->groups[j].to == old(set->groups[j].to);
	ensures same2: forall int j, int w {: set->groups[j].symbols[w] :} . 0 <= j < set->count && 0 <= w < 4 ==> set->groups[j].symbols[w] == old(set->groups[j].symbols[w]);
	allocates;
	frees set->groups;
	assigns set->ceil, set->groups, @edge_group(fresh);
}
fn dump_edge_set {
}
fn init_empty {
	ensures result == null || fresh(result) && es_heap(result) && fresh(result->groups) && result->ceil == 1 && result->count == 0;
	allocates;
	assigns @edge_set(fresh);
}
fn find_state_position {
	requires es_heap(set) && 0 <= state <= U32_MAX && valid(dst);
	ensures present: result == FSP_FOUND_VALUE_PRESENT ==> 0 <= *dst < set->count && set->groups[*dst].to == state;
	ensures absent: result != FSP_FOUND_VALUE_PRESENT ==> result == FSP_FOUND_INSERT_POSITION && 0 <= *dst <= set->count
		&& (forall int j {: set->groups[j].to :} . 0 <= j < *dst ==> set->groups[j].to < state)
		&& (forall int j {: set->groups[j].to :} . *dst <= j < set->count ==> set->groups[j].to > state);
	assigns *dst;
	loop 1 {
		invariant 0 <= lo <= hi <= set->count && set->count > 0;
		invariant at_end: lo == hi ==> mid == lo;
		invariant below: forall int j {: set->groups[j].to :} . 0 <= j < lo ==> set->groups[j].to < state;
		invariant above: forall int j {: set->groups[j].to :} . hi <= j < set->count ==> set->groups[j].to > state;
		variant hi - lo;
		assigns nothing;
	}
}
fn find_first_group_label {
	requires valid(g) && valid(label) && g != null && (forall int w {: g->symbols[w] :} . 0 <= w < 4 ==> 0 <= g->symbols[w] <= U64_MAX);
	ensures r: result == 0 || result == 1;
	ensures found: result == 1 ==> 0 <= *label < 256 && bit(g->symbols[*label / 64], *label % 64);
	ensures none: result == 0 ==> (forall int c {: bit(g->symbols[c / 64], c % 64) :} . 0 <= c < 256 ==> !bit(g->symbols[c / 64], c % 64));
	ensures none2: result == 0 ==> (forall int w {: g->symbols[w] :} . 0 <= w < 4 ==> g->symbols[w] == 0);
	assigns *label;
	loop 1 {
		invariant 0 <= i <= 4;
		invariant forall int w {: g->symbols[w] :} . 0 <= w < i ==> g->symbols[w] == 0;
		variant 4 - i;
		assigns nothing;
	}
	loop 2 {
		invariant 0 <= bit <= 64;
		invariant forall int k {: bit(g->symbols[i], k) :} . 0 <= k < bit ==> !bit(g->symbols[i], k);
		invariant 0 <= lsb(g->symbols[i]) < 64 && bit(g->symbols[i], lsb(g->symbols[i]));
		variant 64 - bit;
		assigns nothing;
	}
}
fn edge_set_empty {
	requires es_wf(s);
	ensures r: result == 0 || result == 1;
	ensures nonempty: result == 0 ==> s != null && s->count > 0 && (exists int j, int c . 0 <= j < s->count && 0 <= c < 256 && es_bit(s, j, c));
	ensures empty: result == 1 ==> (forall int c, int t {: es_mem(s, c, t) :} . !es_mem(s, c, t));
	ensures some: result == 0 ==> (exists int c, int t . es_mem(s, c, t));
	at exit assert result == 0 ==> (let l = at(A_find_first_group_label_1, label) in let p = at(A_find_first_group_label_1, i) in es_mem(s, l, s->groups[p].to));
	ensures empty2: result == 1 && s != null ==> (forall int j, int c {: es_bit(s, j, c) :} . 0 <= j < s->count && 0 <= c < 256 ==> !es_bit(s, j, c));
	loop 1 {
		invariant 0 <= i <= s->count;
		invariant forall int j, int c {: es_bit(s, j, c) :} . 0 <= j < i && 0 <= c < 256 ==> !es_bit(s, j, c);
		variant s->count - i;
	}
}
lemma sorted_count ind_n: forall iseq a, int n {: a[n - 1] :} . 1 <= n && (forall int j, int k {: a[j], a[k] :} . 0 <= j < k < n ==> a[j] < a[k]) && a[0] >= 0 ==> a[n - 1] >= n - 1;
predicate es_bits(uint64_t *a, int c) = bit(a[c / 64], c % 64);
fn edge_set_add_bulk {
	requires valid(pset) && es_wf(*pset) && 0 <= state <= U32_MAX && block(symbols) > 0 && off(symbols) == 0 && valid_n(symbols, 4);
	requires (forall int w {: symbols[w] :} . 0 <= w < 4 ==> 0 <= symbols[w] <= U64_MAX);
	requires sep: *pset != null ==> !es_owns(*pset, block(pset)) && !es_owns(*pset, block(symbols));
	requires sep2: block(symbols) != block(pset);
	ensures ok: result == 0 || result == 1;
	ensures wf: es_wf(*pset) && (result == 1 ==> *pset != null);
	ensures add: forall int c, int t {: es_mem(*pset, c, t) :} . result == 1 && 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> old(es_mem(*pset, c, t)) || t == state && old(es_bits(symbols, c)));
	ensures own: result == 1 ==> (if old(*pset) != null then *pset == old(*pset) && ((*pset)->groups == old((*pset)->groups) || fresh((*pset)->groups)) else fresh(*pset) && fresh((*pset)->groups));
	ensures fail: result == 0 ==> *pset == old(*pset) && (old(*pset) != null ==> (*pset)->groups == old((*pset)->groups));
	ensures fail2: result == 0 && *pset != null ==> (*pset)->count == old((*pset)->count) && (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count ==> (*pset)->groups[j].to == old((*pset)->groups[j].to)) && (forall int j, int w {: (*pset)->groups[j].symbols[w] :} . 0 <= j < (*pset)->count && 0 <= w < 4 ==> (*pset)->groups[j].symbols[w] == old((*pset)->groups[j].symbols[w]));
	ensures low: result == 1 && old(*pset) != null ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count && (*pset)->groups[j].to < state ==> j < old((*pset)->count) && (*pset)->groups[j].to == old((*pset)->groups[j].to));
	ensures low2: result == 1 && old(*pset) != null ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < old((*pset)->count) && old((*pset)->groups[j].to) < state ==> (*pset)->groups[j].to == old((*pset)->groups[j].to));
	ensures has: result == 1 ==> (exists int p . 0 <= p < (*pset)->count && (*pset)->groups[p].to == state);
	ensures tos: result == 1 ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count ==> (*pset)->groups[j].to == state || old(*pset) != null && (j < old((*pset)->count) && (*pset)->groups[j].to == old((*pset)->groups[j].to) || 1 <= j <= old((*pset)->count) && (*pset)->groups[j].to == old((*pset)->groups[j - 1].to)));
	allocates;
	frees (*pset)->groups where *pset != null;
	use sorted_count;
	at exit assert s1: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> (*pset)->groups[p].to == state && 0 <= p <= at(A_find_state_position_1, (*pset)->count));
	at exit assert s2: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < p ==> (*pset)->groups[j].to == at(A_find_state_position_1, (*pset)->groups[j].to) && (*pset)->groups[j].to < state));
	at exit assert s3: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> (forall int j {: (*pset)->groups[j].to :} . p < j < (*pset)->count ==> (*pset)->groups[j].to == at(A_find_state_position_1, (*pset)->groups[j - 1].to) && (*pset)->groups[j].to > state));
	at exit assert s4: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> (forall int j, int k {: (*pset)->groups[j].to, (*pset)->groups[k].to :} . 0 <= j < k < (*pset)->count ==> (*pset)->groups[j].to < (*pset)->groups[k].to));
	assigns *pset where *pset == null, (*pset)->count where *pset != null, (*pset)->ceil where *pset != null, (*pset)->groups where *pset != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block((*pset)->groups)) where *pset != null;
	at exit assert s5: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count ==> 0 <= (*pset)->groups[j].to <= U32_MAX));
	at exit assert s6: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> (forall int j, int w {: (*pset)->groups[j].symbols[w] :} . 0 <= j < (*pset)->count && 0 <= w < 4 ==> 0 <= (*pset)->groups[j].symbols[w] <= U64_MAX));
	at exit assert s7: let p = at(A_find_state_position_1, i) in ((*pset)->count == at(A_find_state_position_1, (*pset)->count) + 1 ==> es_heap(*pset));
	loop 1 {
		invariant 0 <= i <= 4;
		invariant forall int w, int k {: bit(eg->symbols[w], k) :} . 0 <= w < i && 0 <= k < 64 ==> (bit(eg->symbols[w], k) <==> at(L1, bit(eg->symbols[w], k)) || bit(symbols[w], k));
		invariant forall int w {: eg->symbols[w] :} . i <= w < 4 ==> eg->symbols[w] == at(L1, eg->symbols[w]);
		invariant forall int w {: eg->symbols[w] :} . 0 <= w < 4 ==> 0 <= eg->symbols[w] <= U64_MAX;
		invariant others: forall int j, int w {: set->groups[j].symbols[w] :} . 0 <= j < set->count && off(set->groups) + j != off(eg) ==> set->groups[j].symbols[w] == at(L1, set->groups[j].symbols[w]);
		variant 4 - i;
	}
}
fn edge_set_add {
	requires valid(pset) && es_wf(*pset) && 0 <= state <= U32_MAX;
	requires sep: *pset != null ==> !es_owns(*pset, block(pset));
	ensures ok: result == 0 || result == 1;
	ensures wf: es_wf(*pset) && (result == 1 ==> *pset != null);
	ensures add: forall int c, int t {: es_mem(*pset, c, t) :} . result == 1 && 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> old(es_mem(*pset, c, t)) || t == state && c == symbol);
	ensures own: result == 1 ==> (if old(*pset) != null then *pset == old(*pset) && ((*pset)->groups == old((*pset)->groups) || fresh((*pset)->groups)) else fresh(*pset) && fresh((*pset)->groups));
	ensures fail: result == 0 ==> *pset == old(*pset) && (old(*pset) != null ==> (*pset)->groups == old((*pset)->groups));
	ensures fail2: result == 0 && *pset != null ==> (*pset)->count == old((*pset)->count) && (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count ==> (*pset)->groups[j].to == old((*pset)->groups[j].to)) && (forall int j, int w {: (*pset)->groups[j].symbols[w] :} . 0 <= j < (*pset)->count && 0 <= w < 4 ==> (*pset)->groups[j].symbols[w] == old((*pset)->groups[j].symbols[w]));
	ensures low: result == 1 && old(*pset) != null ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count && (*pset)->groups[j].to < state ==> j < old((*pset)->count) && (*pset)->groups[j].to == old((*pset)->groups[j].to));
	ensures low2: result == 1 && old(*pset) != null ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < old((*pset)->count) && old((*pset)->groups[j].to) < state ==> (*pset)->groups[j].to == old((*pset)->groups[j].to));
	ensures has: result == 1 ==> (exists int p . 0 <= p < (*pset)->count && (*pset)->groups[p].to == state);
	ensures tos: result == 1 ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count ==> (*pset)->groups[j].to == state || old(*pset) != null && (j < old((*pset)->count) && (*pset)->groups[j].to == old((*pset)->groups[j].to) || 1 <= j <= old((*pset)->count) && (*pset)->groups[j].to == old((*pset)->groups[j - 1].to)));
	allocates;
	frees (*pset)->groups where *pset != null;
	assigns *pset where *pset == null, (*pset)->count where *pset != null, (*pset)->ceil where *pset != null, (*pset)->groups where *pset != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block((*pset)->groups)) where *pset != null;
}
fn edge_set_advise_growth {
	requires valid(pset) && es_wf(*pset) && count <= 0x100000000 && (*pset != null ==> (*pset)->ceil <= 0x100000000);
	requires sep: *pset != null ==> !es_owns(*pset, block(pset));
	ensures ok: result == 0 || result == 1;
	ensures wf: es_wf(*pset) && (result == 1 ==> *pset != null && (*pset)->ceil >= count);
	ensures own: old(*pset) == null || *pset == old(*pset);
	ensures same: forall int c, int t {: es_mem(*pset, c, t) :} . 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> old(es_mem(*pset, c, t)));
	allocates;
	frees (*pset)->groups where *pset != null;
	assigns *pset where *pset == null, (*pset)->ceil where *pset != null, (*pset)->groups where *pset != null, @edge_set(fresh), @edge_group(fresh);
	loop 1 {
		invariant 1 <= nceil && nceil <= 0x800000000;
		invariant nceil == 1 || nceil < 2 * (oceil + count);
		variant oceil + count - nceil;
	}
}
fn edge_set_add_state_set {
	requires valid(setp) && es_wf(*setp) && ss_wf(state_set);
	requires sep: *setp != null ==> !es_owns(*setp, block(setp));
	requires sep2: block(state_set) > 0 ==> !ss_owns(state_set, block(setp));
	requires sep3: *setp != null && block(state_set) > 0 ==> !es_owns(*setp, block(state_set)) && !es_owns(*setp, block(state_set->a));
	ensures ok: result == 0 || result == 1;
	ensures wf: es_wf(*setp);
	ensures add: forall int c, int t {: es_mem(*setp, c, t) :} . result == 1 && 0 <= c < 256 ==> (es_mem(*setp, c, t) <==> old(es_mem(*setp, c, t)) || c == symbol && ss_mem(state_set, t));
	allocates;
	frees (*setp)->groups where *setp != null;
	assigns *setp where *setp == null, (*setp)->count where *setp != null, (*setp)->ceil where *setp != null, (*setp)->groups where *setp != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block((*setp)->groups)) where *setp != null;
	loop 1 {
		invariant si.set == state_set && 0 <= si.i <= ss_count(state_set) && es_wf(*setp);
		invariant *setp != null ==> !es_owns(*setp, block(setp)) && !es_owns(*setp, block(state_set)) && (block(state_set) > 0 ==> !es_owns(*setp, block(state_set->a)));
		invariant old(*setp) == null || *setp == old(*setp);
		invariant old(*setp) == null || (*setp)->groups == old((*setp)->groups) || fresh((*setp)->groups);
		invariant old(*setp) == null ==> *setp == null || fresh(*setp) && fresh((*setp)->groups);
		invariant forall int c, int t {: es_mem(*setp, c, t) :} . 0 <= c < 256 ==> (es_mem(*setp, c, t) <==> old(es_mem(*setp, c, t)) || c == symbol && (exists int k . 0 <= k < si.i && ss_at(state_set, k) == t));
		variant ss_count(state_set) - si.i;
	}
}
predicate es_small(edge_set *s) = s != null ==> (forall int j {: s->groups[j].to :} . 0 <= j < s->count ==> s->groups[j].to < 0x1000000);
fn edge_set_find {
	requires es_wf(set) && valid(e) && es_small(set);
	ensures r: result == 0 || result == 1;
	ensures found: result == 1 ==> e->symbol == symbol && es_mem(set, symbol, e->state);
	ensures none: result == 0 ==> (forall int t {: es_mem(set, symbol, t) :} . !es_mem(set, symbol, t));
	assigns e->state, e->symbol;
	loop 1 {
		invariant 0 <= i <= set->count;
		invariant forall int j {: es_bit(set, j, symbol) :} . 0 <= j < i ==> !es_bit(set, j, symbol);
		variant set->count - i;
	}
}
fn edge_set_contains {
	requires es_wf(set);
	ensures r: result == 0 || result == 1;
	ensures found: result == 1 ==> (exists int t . es_mem(set, symbol, t));
	ensures none: result == 0 ==> (forall int t {: es_mem(set, symbol, t) :} . !es_mem(set, symbol, t));
	loop 1 {
		invariant 0 <= i <= set->count;
		invariant forall int j {: es_bit(set, j, symbol) :} . 0 <= j < i ==> !es_bit(set, j, symbol);
		variant set->count - i;
	}
	at exit assert w: result == 1 ==> (exists int j . 0 <= j < set->count && es_bit(set, j, symbol) && es_mem(set, symbol, set->groups[j].to));
}
fn edge_set_transition {
	requires es_wf(set) && valid(state) && es_small(set) && (set != null ==> !es_owns(set, block(state)));
	ensures r: result == 0 || result == 1;
	ensures found: result == 1 ==> es_mem(set, symbol, *state);
	ensures none: result == 0 ==> (forall int t {: es_mem(set, symbol, t) :} . !es_mem(set, symbol, t));
	assigns *state;
}
fn edge_set_remove {
	requires valid(pset) && es_wf(*pset);
	requires sep: *pset != null ==> !es_owns(*pset, block(pset));
	ensures wf: es_wf(*pset) && *pset == old(*pset);
	ensures removed: forall int c, int t {: es_mem(*pset, c, t) :} . 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> old(es_mem(*pset, c, t)) && c != symbol);
	assigns @edge_group.symbols(block((*pset)->groups)) where *pset != null;
	loop 1 {
		invariant 0 <= i <= set->count;
		invariant forall int j, int w {: set->groups[j].symbols[w] :} . 0 <= j < set->count && 0 <= w < 4 ==> 0 <= set->groups[j].symbols[w] <= U64_MAX;
		invariant forall int j, int c {: es_bit(set, j, c) :} . 0 <= j < set->count && 0 <= c < 256 ==> (es_bit(set, j, c) <==> old(es_bit(*pset, j, c)) && (c != symbol || j >= i));
		variant set->count - i;
	}
}
fn edge_set_remove_state {
	requires valid(pset) && es_wf(*pset) && 0 <= state <= U32_MAX;
	requires sep: *pset != null ==> !es_owns(*pset, block(pset));
	ensures wf: es_wf(*pset) && *pset == old(*pset);
	ensures removed: forall int c, int t {: es_mem(*pset, c, t) :} . 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> old(es_mem(*pset, c, t)) && t != state);
	assigns @edge_group(block((*pset)->groups)) where *pset != null, (*pset)->count where *pset != null;
	loop 1 {
		invariant 0 <= i <= set->count && es_heap(set) && set == old(*pset);
		invariant before: forall int j {: set->groups[j].to :} . 0 <= j < i ==> set->groups[j].to != state;
		invariant once: set->count == old((*pset)->count) || set->count == old((*pset)->count) - 1;
		invariant low: forall int j {: set->groups[j].to :} . 0 <= j < set->count && set->groups[j].to < state ==> set->groups[j].to == old((*pset)->groups[j].to) && inner(set->groups[j].symbols) == old(inner((*pset)->groups[j].symbols));
		invariant high: let d = old((*pset)->count) - set->count in (forall int j {: set->groups[j].to :} . 0 <= j < set->count && set->groups[j].to > state ==> set->groups[j].to == old((*pset)->groups[j + d].to) && inner(set->groups[j].symbols) == old(inner((*pset)->groups[j + d].symbols)));
		invariant low2: forall int k {: old((*pset)->groups[k].to) :} . 0 <= k < old((*pset)->count) && old((*pset)->groups[k].to) < state ==> k < set->count && set->groups[k].to == old((*pset)->groups[k].to);
		invariant high2: let d = old((*pset)->count) - set->count in (forall int k {: old((*pset)->groups[k].to) :} . 0 <= k < old((*pset)->count) && old((*pset)->groups[k].to) > state ==> k - d >= 0 && set->groups[k - d].to == old((*pset)->groups[k].to));
		variant set->count - i;
	}
}
fn edge_set_reset {
	requires valid(it) && it != null;
	ensures it->i == 0 && it->j == 0 && it->set == set;
	assigns it->i, it->j, it->set;
}
fn edge_set_next {
	requires valid(it) && it != null && valid(e) && es_wf(it->set) && es_small(it->set) && (it->set != null ==> 0 <= it->i <= it->set->count && 0 <= it->j <= 256);
	requires sep: it->set != null ==> !es_owns(it->set, block(it)) && !es_owns(it->set, block(e));
	ensures r: (result == 0 || result == 1) && it->set == old(it->set);
	ensures pos: it->set != null ==> 0 <= it->i <= it->set->count && 0 <= it->j <= 256;
	ensures edge: result == 1 ==> it->set != null && it->i < it->set->count && e->symbol == it->j - 1 && it->j >= 1 && es_bit(it->set, it->i, e->symbol) && e->state == it->set->groups[it->i].to && es_mem(it->set, e->symbol, e->state);
	ensures forward: result == 1 ==> it->i > old(it->i) || it->i == old(it->i) && it->j > old(it->j);
	ensures skipped: result == 1 ==> (forall int g, int c {: es_bit(it->set, g, c) :} . 0 <= c < 256 && (g > old(it->i) || g == old(it->i) && c >= old(it->j)) && (g < it->i || g == it->i && c < it->j - 1) ==> !es_bit(it->set, g, c));
	ensures done: result == 0 && it->set != null ==> (forall int g, int c {: es_bit(it->set, g, c) :} . 0 <= c < 256 && g < it->set->count && (g > old(it->i) || g == old(it->i) && c >= old(it->j)) ==> !es_bit(it->set, g, c));
	assigns it->i, it->j, e->state, e->symbol;
	loop 1 {
		invariant it->set == set && old(it->i) <= it->i <= set->count && 0 <= it->j <= 256 && (it->i == old(it->i) ==> it->j >= old(it->j)) && (it->i > old(it->i) ==> it->j == 0);
		invariant forall int g, int c {: es_bit(set, g, c) :} . 0 <= c < 256 && (g > old(it->i) || g == old(it->i) && c >= old(it->j)) && (g < it->i || g == it->i && c < it->j) ==> !es_bit(set, g, c);
		variant set->count - it->i;
	}
	loop 2 {
		invariant it->set == set && 0 <= it->j <= 256 && it->i < set->count && (it->i == old(it->i) ==> it->j >= old(it->j));
		invariant forall int g, int c {: es_bit(set, g, c) :} . 0 <= c < 256 && (g > old(it->i) || g == old(it->i) && c >= old(it->j)) && (g < it->i || g == it->i && c < it->j) ==> !es_bit(set, g, c);
		variant 256 - it->j;
	}
}
fn edge_set_rebase {
	requires valid(pset) && es_wf(*pset) && 0 <= base <= U32_MAX;
	requires sep: *pset != null ==> !es_owns(*pset, block(pset));
	requires nowrap: *pset != null ==> (forall int j {: (*pset)->groups[j].to :} . 0 <= j < (*pset)->count ==> (*pset)->groups[j].to + base <= U32_MAX);
	ensures wf: es_wf(*pset) && *pset == old(*pset);
	ensures shifted: forall int c, int t {: es_mem(*pset, c, t) :} . 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> old(es_mem(*pset, c, t - base)));
	assigns @edge_group.to(block((*pset)->groups)) where *pset != null;
	loop 1 {
		invariant 0 <= i <= set->count;
		invariant forall int j {: set->groups[j].to :} . 0 <= j < set->count ==> set->groups[j].to == old((*pset)->groups[j].to) + (if j < i then base else 0);
		variant set->count - i;
	}
}
fn edge_set_ordered_iter_reset_to {
	requires valid(eoi) && eoi != null;
	ensures eoi->symbol == symbol && eoi->pos == 0 && eoi->set == set;
	assigns eoi->symbol, eoi->pos, eoi->set;
}
fn edge_set_ordered_iter_reset {
	requires valid(eoi) && eoi != null;
	ensures eoi->symbol == 0 && eoi->pos == 0 && eoi->set == set;
	assigns eoi->symbol, eoi->pos, eoi->set;
}
fn edge_set_ordered_iter_next {
	requires valid(eoi) && eoi != null && valid(e) && es_wf(eoi->set) && es_small(eoi->set) && 0 <= eoi->symbol <= 255 && (eoi->set != null ==> 0 <= eoi->pos <= eoi->set->count);
	requires sep: eoi->set != null ==> !es_owns(eoi->set, block(eoi)) && !es_owns(eoi->set, block(e));
	ensures r: result == 0 || result == 1;
	ensures edge: result == 1 ==> eoi->set == old(eoi->set) && eoi->set != null && 1 <= eoi->pos <= eoi->set->count && e->symbol == eoi->symbol && es_bit(eoi->set, eoi->pos - 1, e->symbol) && e->state == eoi->set->groups[eoi->pos - 1].to && es_mem(eoi->set, e->symbol, e->state);
	ensures forward: result == 1 ==> eoi->symbol > old(eoi->symbol) || eoi->symbol == old(eoi->symbol) && eoi->pos > old(eoi->pos);
	ensures skipped: result == 1 ==> (forall int g, int c {: es_bit(eoi->set, g, c) :} . 0 <= g < eoi->set->count && (c > old(eoi->symbol) || c == old(eoi->symbol) && g >= old(eoi->pos)) && (c < eoi->symbol || c == eoi->symbol && g < eoi->pos - 1) ==> !es_bit(eoi->set, g, c));
	ensures done: result == 0 && old(eoi->set) != null ==> eoi->set == null && (forall int g, int c {: es_bit(old(eoi->set), g, c) :} . 0 <= g < old(eoi->set)->count && c < 256 && (c > old(eoi->symbol) || c == old(eoi->symbol) && g >= old(eoi->pos)) ==> !es_bit(old(eoi->set), g, c));
	assigns eoi->symbol, eoi->pos, eoi->set, e->state, e->symbol;
	loop 1 {
		invariant eoi->set == set && set == old(eoi->set) && eoi->symbol >= old(eoi->symbol) && 0 <= eoi->pos <= set->count && (eoi->symbol == old(eoi->symbol) ==> eoi->pos >= old(eoi->pos)) && 0 <= eoi->symbol <= 255;
		invariant eoi->symbol > old(eoi->symbol) ==> eoi->pos == 0;
		invariant forall int g, int c {: es_bit(set, g, c) :} . 0 <= g < set->count && (c > old(eoi->symbol) || c == old(eoi->symbol) && g >= old(eoi->pos)) && (c < eoi->symbol || c == eoi->symbol && g < eoi->pos) ==> !es_bit(set, g, c);
		variant 256 - eoi->symbol;
	}
	loop 2 {
		invariant eoi->set == set && set == old(eoi->set) && 0 <= eoi->pos <= set->count && (eoi->symbol == old(eoi->symbol) ==> eoi->pos >= old(eoi->pos));
		invariant forall int g, int c {: es_bit(set, g, c) :} . 0 <= g < set->count && (c > old(eoi->symbol) || c == old(eoi->symbol) && g >= old(eoi->pos)) && (c < eoi->symbol || c == eoi->symbol && g < eoi->pos) ==> !es_bit(set, g, c);
		variant set->count - eoi->pos;
	}
}
fn edge_set_check_edges_with_EC_mapping {
	requires es_wf(set) && block(state_ecs) > 0 && valid_n(state_ecs, ec_map_count) && block(labels) > 0 && off(labels) == 0 && off(state_ecs) == 0 && valid_n(labels, 4) && valid(to_state) && block(to_state) > 0;
	requires inmap: set != null ==> (forall int j {: set->groups[j].to :} . 0 <= j < set->count ==> set->groups[j].to < ec_map_count);
	requires sep: block(to_state) != block(state_ecs);
	ensures r: result == 0 || result == 1;
	ensures range: forall int w {: labels[w] :} . 0 <= w < 4 ==> 0 <= labels[w] <= U64_MAX;
	ensures none: result == 0 ==> (forall int t {: es_mem(set, label, t) :} . !es_mem(set, label, t)) && (forall int c {: es_bits(labels, c) :} . 0 <= c < 256 ==> !es_bits(labels, c));
	ensures found: result == 1 ==> es_mem(set, label, *to_state) && 0 <= *to_state < ec_map_count;
	ensures labels: result == 1 ==> (forall int c {: es_bits(labels, c) :} . 0 <= c < 256 ==> (es_bits(labels, c) <==> (exists int t . es_mem(set, c, t) && 0 <= t < ec_map_count && state_ecs[t] == state_ecs[*to_state])));
	assigns *to_state, @m.u64(block(labels));
	loop 1 {
		invariant 0 <= i <= set->count && found == 0;
		invariant forall int j {: es_bit(set, j, label) :} . 0 <= j < i ==> !es_bit(set, j, label);
		variant set->count - i;
	}
	loop 2 {
		invariant 0 <= i <= set->count;
		invariant r: forall int w {: labels[w] :} . 0 <= w < 4 ==> 0 <= labels[w] <= U64_MAX;
		invariant sub: forall int w, int k {: bit(labels[w], k) :} . 0 <= w < 4 && 0 <= k < 64 && bit(labels[w], k) ==> (exists int j . 0 <= j < i && bit(set->groups[j].symbols[w], k) && state_ecs[set->groups[j].to] == first_ec);
		invariant sup: forall int j, int w, int k {: bit(set->groups[j].symbols[w], k) :} . 0 <= j < i && 0 <= w < 4 && 0 <= k < 64 && bit(set->groups[j].symbols[w], k) && state_ecs[set->groups[j].to] == first_ec ==> bit(labels[w], k);
		variant set->count - i;
	}
	loop 3 {
		invariant 0 <= w_i <= 4;
		invariant forall int w, int k {: bit(labels[w], k) :} . 0 <= w < w_i && 0 <= k < 64 ==> (bit(labels[w], k) <==> at(L3, bit(labels[w], k)) || bit(eg->symbols[w], k));
		invariant forall int w {: labels[w] :} . w_i <= w < 4 ==> labels[w] == at(L3, labels[w]);
		invariant forall int w {: labels[w] :} . 0 <= w < 4 ==> 0 <= labels[w] <= U64_MAX;
		variant 4 - w_i;
	}
}
// symbol seen earlier: a smaller position of the scan
fn edge_set_hasnondeterminism {
	requires es_wf(set) && bm_wf(bm) && (set != null ==> !es_owns(set, block(bm)));
	ensures r: result == 0 || result == 1;
	ensures det: result == 0 ==> (forall int j, int k, int c {: es_bit(set, j, c), es_bit(set, k, c) :} . set != null && 0 <= j < k < set->count && 0 <= c < 256 ==> !(es_bit(set, j, c) && es_bit(set, k, c)));
	ensures det2: result == 0 ==> (forall int j, int c {: es_bit(set, j, c) :} . set != null && 0 <= j < set->count && 0 <= c < 256 && es_bit(set, j, c) ==> !old(bm_has(bm, c)));
	ensures nondet: result == 1 ==> set != null && (exists int j, int c . 0 <= j < set->count && 0 <= c < 256 && es_bit(set, j, c) && (old(bm_has(bm, c)) || (exists int k . 0 <= k < j && es_bit(set, k, c))));
	ensures bm: bm_wf(bm);
	ensures bm2: result == 0 ==> (forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> old(bm_has(bm, c)) || set != null && (exists int j . 0 <= j < set->count && es_bit(set, j, c))));
	assigns @bm.map(block(bm));
	loop 1 {
		invariant 0 <= i <= set->count && bm_wf(bm);
		invariant acc: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> old(bm_has(bm, c)) || (exists int j . 0 <= j < i && es_bit(set, j, c)));
		invariant det: forall int j, int k, int c {: es_bit(set, j, c), es_bit(set, k, c) :} . 0 <= j < k < i && 0 <= c < 256 ==> !(es_bit(set, j, c) && es_bit(set, k, c));
		invariant det2: forall int j, int c {: es_bit(set, j, c) :} . 0 <= j < i && 0 <= c < 256 && es_bit(set, j, c) ==> !old(bm_has(bm, c));
		variant set->count - i;
	}
	loop 2 {
		invariant 0 <= w_i <= 4 && bm_wf(bm);
		invariant acc: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> at(L1, true) && (old(bm_has(bm, c)) || (exists int j . 0 <= j < i && es_bit(set, j, c)) || c < 64 * w_i && es_bit(set, i, c)));
		invariant new: forall int c {: es_bit(set, i, c) :} . 0 <= c < 64 * w_i && es_bit(set, i, c) ==> !old(bm_has(bm, c)) && (forall int j {: es_bit(set, j, c) :} . 0 <= j < i ==> !es_bit(set, j, c));
		variant 4 - w_i;
	}
	loop 3 {
		invariant 0 <= b_i <= 64 && bm_wf(bm);
		invariant acc: forall int c {: bm_has(bm, c) :} . 0 <= c < 256 ==> (bm_has(bm, c) <==> old(bm_has(bm, c)) || (exists int j . 0 <= j < i && es_bit(set, j, c)) || c < 64 * w_i + b_i && es_bit(set, i, c));
		invariant new: forall int c {: es_bit(set, i, c) :} . 0 <= c < 64 * w_i + b_i && es_bit(set, i, c) ==> !old(bm_has(bm, c)) && (forall int j {: es_bit(set, j, c) :} . 0 <= j < i ==> !es_bit(set, j, c));
		variant 64 - b_i;
	}
}
fn edge_set_copy_into {
	requires valid(pdst) && es_heap(*pdst) && es_heap(src) && *pdst != null && src != null;
	requires sep: !es_owns(*pdst, block(pdst)) && !es_owns(src, block(pdst)) && !es_owns(*pdst, block(src)) && !es_owns(*pdst, block(src->groups));
	ensures ok: result == 0 || result == 1;
	ensures wf: es_heap(*pdst);
	ensures same: *pdst == old(*pdst) && ((*pdst)->groups == old((*pdst)->groups) || fresh((*pdst)->groups));
	ensures union: forall int c, int t {: es_mem(*pdst, c, t) :} . result == 1 && 0 <= c < 256 ==> (es_mem(*pdst, c, t) <==> old(es_mem(*pdst, c, t)) || es_mem(src, c, t));
	allocates;
	frees (*pdst)->groups;
	assigns (*pdst)->count, (*pdst)->ceil, (*pdst)->groups, @edge_set(fresh), @edge_group(fresh), @edge_group(block((*pdst)->groups));
	loop 1 {
		invariant 0 <= sg_i <= src->count && 0 <= dg_i <= dst->count && dst == *pdst && es_heap(dst);
		invariant own: dst->groups == old((*pdst)->groups) || fresh(dst->groups);
		invariant below: forall int j {: dst->groups[j].to :} . 0 <= j < dg_i && sg_i < src->count ==> dst->groups[j].to < src->groups[sg_i].to;
		invariant mem: forall int c, int t {: es_mem(dst, c, t) :} . 0 <= c < 256 ==> (es_mem(dst, c, t) <==> old(es_mem(*pdst, c, t)) || (exists int j . 0 <= j < sg_i && src->groups[j].to == t && es_bit(src, j, c)));
	}
	loop 2 {
		invariant 0 <= w_i <= 4;
		invariant forall int w, int k {: bit(dst_g->symbols[w], k) :} . 0 <= w < w_i && 0 <= k < 64 ==> (bit(dst_g->symbols[w], k) <==> at(L2, bit(dst_g->symbols[w], k)) || bit(src_g->symbols[w], k));
		invariant forall int w {: dst_g->symbols[w] :} . w_i <= w < 4 ==> dst_g->symbols[w] == at(L2, dst_g->symbols[w]);
		invariant forall int w {: dst_g->symbols[w] :} . 0 <= w < 4 ==> 0 <= dst_g->symbols[w] <= U64_MAX;
		invariant others: forall int j, int w {: dst->groups[j].symbols[w] :} . 0 <= j < dst->count && off(dst->groups) + j != off(dst_g) ==> dst->groups[j].symbols[w] == at(L2, dst->groups[j].symbols[w]);
		after forall int c, int t {: es_mem(dst, c, t) :} . 0 <= c < 256 ==> (es_mem(dst, c, t) <==> at(L2, es_mem(dst, c, t)) || t == src_g->to && es_bit(src, sg_i, c));
		variant 4 - w_i;
	}
}
fn edge_set_copy {
	requires valid(dst) && es_wf(*dst) && es_wf(src) && dst != null;
	requires sep: *dst != null ==> !es_owns(*dst, block(dst)) && (src != null ==> !es_owns(*dst, block(src)) && !es_owns(*dst, block(src->groups)));
	requires sep2: src != null ==> !es_owns(src, block(dst));
	ensures ok: result == 0 || result == 1;
	ensures wf: es_wf(*dst);
	ensures own: if old(*dst) != null then *dst == old(*dst) && ((*dst)->groups == old((*dst)->groups) || fresh((*dst)->groups)) else *dst == null || fresh(*dst) && fresh((*dst)->groups);
	ensures copied: old(*dst) == null && *dst != null ==> src != null && (*dst)->count == src->count && (forall int j {: (*dst)->groups[j].to :} . 0 <= j < (*dst)->count ==> (*dst)->groups[j].to == src->groups[j].to);
	ensures union: forall int c, int t {: es_mem(*dst, c, t) :} . result == 1 && 0 <= c < 256 ==> (es_mem(*dst, c, t) <==> old(es_mem(*dst, c, t)) || es_mem(src, c, t));
	allocates;
	frees (*dst)->groups where *dst != null;
	assigns *dst where *dst == null, (*dst)->count where *dst != null, (*dst)->ceil where *dst != null, (*dst)->groups where *dst != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block((*dst)->groups)) where *dst != null;
}
fn edge_set_replace_state {
	requires valid(pset) && es_wf(*pset) && 0 <= old <= U32_MAX && 0 <= new <= U32_MAX;
	requires sep: *pset != null ==> !es_owns(*pset, block(pset));
	ensures ok: result == 0 || result == 1;
	ensures wf: es_wf(*pset) && *pset == old(*pset);
	ensures own: *pset != null ==> (*pset)->groups == old((*pset)->groups) || fresh((*pset)->groups);
	ensures replaced: forall int c, int t {: es_mem(*pset, c, t) :} . result == 1 && 0 <= c < 256 ==> (es_mem(*pset, c, t) <==> (old(es_mem(*pset, c, t)) && t != old) || t == new && old(es_mem(*pset, c, old)));
	allocates;
	frees (*pset)->groups where *pset != null;
	assigns (*pset)->count where *pset != null, (*pset)->ceil where *pset != null, (*pset)->groups where *pset != null, @edge_set(fresh), @edge_group(fresh), @edge_group(block((*pset)->groups)) where *pset != null;
	loop 1 {
		invariant 0 <= i <= set->count;
		invariant forall int j {: set->groups[j].to :} . 0 <= j < i ==> set->groups[j].to != old;
		variant set->count - i;
	}
	at after find_first_group_label assert here: es_heap(set);
	loop 2 {
		invariant 0 <= i <= set->count;
		invariant forall int j {: set->groups[j].to :} . 0 <= j < i ==> set->groups[j].to != new;
		variant set->count - i;
	}
	loop 3 {
		invariant 0 <= w_i <= 4;
		invariant forall int w, int k {: bit(eg->symbols[w], k) :} . 0 <= w < w_i && 0 <= k < 64 ==> (bit(eg->symbols[w], k) <==> at(L3, bit(eg->symbols[w], k)) || bit(cp.symbols[w], k));
		invariant forall int w {: eg->symbols[w] :} . w_i <= w < 4 ==> eg->symbols[w] == at(L3, eg->symbols[w]);
		invariant forall int w {: eg->symbols[w] :} . 0 <= w < 4 ==> 0 <= eg->symbols[w] <= U64_MAX;
		invariant others: forall int j, int w {: set->groups[j].symbols[w] :} . 0 <= j < set->count && off(set->groups) + j != off(eg) ==> set->groups[j].symbols[w] == at(L3, set->groups[j].symbols[w]);
		after forall int c, int t {: es_mem(set, c, t) :} . 0 <= c < 256 ==> (es_mem(set, c, t) <==> at(L3, es_mem(set, c, t)) || t == new && bit(cp.symbols[c / 64], c % 64));
		variant 4 - w_i;
	}
	at before edge_set_add assert bwf: es_heap(set);
	at before edge_set_add assert cut: forall int c, int t {: es_mem(set, c, t) :} . 0 <= c < 256 ==> (es_mem(set, c, t) <==> at(A_find_first_group_label_1, es_mem(set, c, t)) && t != old);
	at before edge_set_add assert cp: forall int c {: bit(cp.symbols[c / 64], c % 64) :} . 0 <= c < 256 ==> (bit(cp.symbols[c / 64], c % 64) <==> at(A_find_first_group_label_1, es_mem(set, c, old)));
}

// ---- iteration by group
predicate gi_bit(edge_group_iter *it, int c) = bit(it->internal[c / 64], c % 64);
predicate info_bit(edge_group_iter_info *g, int c) = bit(g->symbols[c / 64], c % 64);
predicate gi_wf(edge_group_iter *it) = valid(it) && block(it) > 0 && es_wf(it->set) && (it->set != null ==> 0 <= it->i <= it->set->count)
	&& (it->set != null ==> !es_owns(it->set, block(it))) && 0 <= it->flag <= 2
	&& (forall int w {: it->internal[w] :} . 0 <= w < 4 ==> 0 <= it->internal[w] <= U64_MAX);
logic int gi_pos(edge_group_iter *it) = 2 * it->i + (if it->flag == 2 then 1 else 0);
// byte c labels edges to two different destinations
predicate es_multi(edge_set *s, int c) = s != null && (exists int j, int k . 0 <= j < k < s->count && es_bit(s, j, c) && es_bit(s, k, c));

fn edge_set_group_iter_reset {
	requires es_wf(set) && valid(egi) && block(egi) > 0 && 0 <= iter_type <= 1 && (set != null ==> !es_owns(set, block(egi)));
	ensures wf: gi_wf(egi) && egi->set == set && egi->i == 0 && egi->flag == iter_type;
	ensures all: iter_type == 0 ==> (forall int c {: gi_bit(egi, c) :} . 0 <= c < 256 ==> !gi_bit(egi, c));
	ensures multi: iter_type == 1 ==> (forall int c {: gi_bit(egi, c) :} . 0 <= c < 256 ==> (gi_bit(egi, c) <==> es_multi(set, c)));
	assigns egi->set, egi->flag, egi->i, egi->internal;
	loop 1 {
		invariant 0 <= g_i <= set->count && gi_wf(egi) && egi->set == set && egi->i == 0 && egi->flag == 1;
		invariant forall int w {: seen[w] :} . 0 <= w < 4 ==> 0 <= seen[w] <= U64_MAX;
		invariant seen1: forall int j, int c {: es_bit(set, j, c) :} . 0 <= j < g_i && 0 <= c < 256 && es_bit(set, j, c) ==> es_bits(seen, c);
		invariant seen2: forall int c {: es_bits(seen, c) :} . 0 <= c < 256 && es_bits(seen, c) ==> (exists int j . 0 <= j < g_i && es_bit(set, j, c));
		invariant multi1: forall int j, int k, int c {: es_bit(set, j, c), es_bit(set, k, c) :} . 0 <= j < k < g_i && 0 <= c < 256 && es_bit(set, j, c) && es_bit(set, k, c) ==> gi_bit(egi, c);
		invariant multi2: forall int c {: gi_bit(egi, c) :} . 0 <= c < 256 && gi_bit(egi, c) ==> es_multi(set, c);
		variant set->count - g_i;
	}
	loop 2 {
		invariant 0 <= g_i < set->count && gi_wf(egi) && egi->set == set && egi->i == 0 && egi->flag == 1 && 0 <= i <= 256;
		invariant forall int w {: seen[w] :} . 0 <= w < 4 ==> 0 <= seen[w] <= U64_MAX;
		invariant seen1: forall int j, int c {: es_bit(set, j, c) :} . 0 <= j < g_i && 0 <= c < 256 && es_bit(set, j, c) ==> es_bits(seen, c);
		invariant seen1b: forall int c {: es_bit(set, g_i, c) :} . 0 <= c < i && es_bit(set, g_i, c) ==> es_bits(seen, c);
		invariant seen2: forall int c {: es_bits(seen, c) :} . 0 <= c < 256 && es_bits(seen, c) ==> (exists int j . 0 <= j <= g_i && (j < g_i || c < i) && es_bit(set, j, c));
		invariant multi1: forall int j, int k, int c {: es_bit(set, j, c), es_bit(set, k, c) :} . 0 <= j < k < g_i && 0 <= c < 256 && es_bit(set, j, c) && es_bit(set, k, c) ==> gi_bit(egi, c);
		invariant multi1b: forall int j, int c {: es_bit(set, j, c), es_bit(set, g_i, c) :} . 0 <= j < g_i && 0 <= c < i && es_bit(set, j, c) && es_bit(set, g_i, c) ==> gi_bit(egi, c);
		invariant multi2: forall int c {: gi_bit(egi, c) :} . 0 <= c < 256 && gi_bit(egi, c) ==> es_multi(set, c);
		variant 256 - i;
	}
}
fn edge_set_group_iter_next {
	requires gi_wf(egi) && valid(eg) && block(eg) > 0 && (egi->set != null ==> !es_owns(egi->set, block(eg)));
	ensures r: (result == 0 || result == 1) && egi->set == old(egi->set) && gi_wf(egi);
	ensures kind: (egi->flag == 0 <==> old(egi->flag) == 0);
	ensures all: result == 1 && egi->flag == 0 ==> egi->set != null && old(egi->i) < egi->i && eg->to == egi->set->groups[egi->i - 1].to
		&& (forall int w {: eg->symbols[w] :} . 0 <= w < 4 ==> eg->symbols[w] == egi->set->groups[egi->i - 1].symbols[w]) && (exists int w . 0 <= w < 4 && eg->symbols[w] != 0);
	ensures all_skip: result == 1 && egi->flag == 0 ==> (forall int j, int w {: egi->set->groups[j].symbols[w] :} . old(egi->i) <= j < egi->i - 1 && 0 <= w < 4 ==> egi->set->groups[j].symbols[w] == 0);
	ensures all_done: result == 0 && egi->flag == 0 && egi->set != null ==> (forall int j, int w {: egi->set->groups[j].symbols[w] :} . old(egi->i) <= j < egi->set->count && 0 <= w < 4 ==> egi->set->groups[j].symbols[w] == 0);
	ensures uniq: result == 1 && egi->flag == 2 ==> egi->set != null && eg->unique == 1 && egi->i < egi->set->count && eg->to == egi->set->groups[egi->i].to
		&& (forall int c {: info_bit(eg, c) :} . 0 <= c < 256 ==> (info_bit(eg, c) <==> es_bit(egi->set, egi->i, c) && !gi_bit(egi, c)));
	ensures multi: result == 1 && egi->flag == 1 ==> egi->set != null && eg->unique == 0 && 0 < egi->i && eg->to == egi->set->groups[egi->i - 1].to
		&& (forall int c {: info_bit(eg, c) :} . 0 <= c < 256 ==> (info_bit(eg, c) <==> es_bit(egi->set, egi->i - 1, c) && gi_bit(egi, c)));
	ensures range: result == 1 ==> (forall int w {: eg->symbols[w] :} . 0 <= w < 4 ==> 0 <= eg->symbols[w] <= U64_MAX) && (exists int w . 0 <= w < 4 && eg->symbols[w] != 0);
	ensures forward: result == 1 && egi->flag != 0 ==> gi_pos(egi) > old(gi_pos(egi));
	ensures skip_u: result == 1 && egi->flag != 0 ==> (forall int j, int c {: es_bit(egi->set, j, c) :} . 0 <= c < 256 && old(gi_pos(egi)) <= 2 * j < gi_pos(egi) - 1 && es_bit(egi->set, j, c) ==> gi_bit(egi, c));
	ensures skip_m: result == 1 && egi->flag != 0 ==> (forall int j, int c {: es_bit(egi->set, j, c) :} . 0 <= c < 256 && old(gi_pos(egi)) <= 2 * j + 1 < gi_pos(egi) - 1 && es_bit(egi->set, j, c) ==> !gi_bit(egi, c));
	ensures done_u: result == 0 && egi->flag != 0 && egi->set != null ==> (forall int j, int c {: es_bit(egi->set, j, c) :} . 0 <= c < 256 && old(gi_pos(egi)) <= 2 * j && j < egi->set->count && es_bit(egi->set, j, c) ==> gi_bit(egi, c));
	ensures done_m: result == 0 && egi->flag != 0 && egi->set != null ==> (forall int j, int c {: es_bit(egi->set, j, c) :} . 0 <= c < 256 && old(gi_pos(egi)) <= 2 * j + 1 && j < egi->set->count && es_bit(egi->set, j, c) ==> !gi_bit(egi, c));
	ensures some: result == 1 ==> (exists int c . es_mem(egi->set, c, eg->to));
	at exit assert m0: result == 1 && eg->symbols[0] != 0 ==> es_mem(egi->set, lsb(eg->symbols[0]), eg->to);
	at exit assert m1: result == 1 && eg->symbols[1] != 0 ==> es_mem(egi->set, 64 + lsb(eg->symbols[1]), eg->to);
	at exit assert m2: result == 1 && eg->symbols[2] != 0 ==> es_mem(egi->set, 128 + lsb(eg->symbols[2]), eg->to);
	at exit assert m3: result == 1 && eg->symbols[3] != 0 ==> es_mem(egi->set, 192 + lsb(eg->symbols[3]), eg->to);
	assigns egi->flag, egi->i, eg->to, eg->unique, eg->symbols;
	loop 1 {
		invariant gi_wf(egi) && egi->set == old(egi->set) && any == 0 && (egi->flag == 0 <==> old(egi->flag) == 0) && egi->i >= old(egi->i) && gi_pos(egi) >= old(gi_pos(egi)) && (egi->set != null ==> egi->i <= egi->set->count);
		invariant same: forall int w {: egi->internal[w] :} . egi->internal[w] == old(egi->internal[w]);
		invariant skip0: egi->flag == 0 && egi->set != null ==> (forall int j, int w {: egi->set->groups[j].symbols[w] :} . old(egi->i) <= j < egi->i && 0 <= w < 4 ==> egi->set->groups[j].symbols[w] == 0);
		invariant skip_u: egi->flag != 0 && egi->set != null ==> (forall int j, int c {: es_bit(egi->set, j, c) :} . 0 <= c < 256 && old(gi_pos(egi)) <= 2 * j < gi_pos(egi) && es_bit(egi->set, j, c) ==> gi_bit(egi, c));
		invariant skip_m: egi->flag != 0 && egi->set != null ==> (forall int j, int c {: es_bit(egi->set, j, c) :} . 0 <= c < 256 && old(gi_pos(egi)) <= 2 * j + 1 < gi_pos(egi) && es_bit(egi->set, j, c) ==> !gi_bit(egi, c));
		variant if egi->set == null then 0 else egi->set->count - egi->i;
	}
	loop 2 {
		invariant 0 <= i <= 4 && (any == 0 || any == 1);
		invariant forall int w {: eg->symbols[w] :} . 0 <= w < i ==> eg->symbols[w] == g->symbols[w];
		invariant any == 0 ==> (forall int w {: eg->symbols[w] :} . 0 <= w < i ==> eg->symbols[w] == 0);
		invariant any == 1 ==> (exists int w . 0 <= w < i && eg->symbols[w] != 0);
		variant 4 - i;
	}
	loop 3 {
		invariant 0 <= i <= 4 && (any == 0 || any == 1);
		invariant forall int w, int k {: bit(eg->symbols[w], k) :} . 0 <= w < i && 0 <= k < 64 ==> (bit(eg->symbols[w], k) <==> bit(g->symbols[w], k) && !bit(egi->internal[w], k));
		invariant forall int w {: eg->symbols[w] :} . 0 <= w < i ==> 0 <= eg->symbols[w] <= U64_MAX;
		invariant any == 0 ==> (forall int w {: eg->symbols[w] :} . 0 <= w < i ==> eg->symbols[w] == 0);
		invariant any == 1 ==> (exists int w . 0 <= w < i && eg->symbols[w] != 0);
		variant 4 - i;
		after none: any == 0 ==> (forall int c {: es_bit(egi->set, egi->i, c) :} . 0 <= c < 256 && es_bit(egi->set, egi->i, c) ==> gi_bit(egi, c));
	}
	loop 4 {
		invariant 0 <= i <= 4 && (any == 0 || any == 1);
		invariant forall int w, int k {: bit(eg->symbols[w], k) :} . 0 <= w < i && 0 <= k < 64 ==> (bit(eg->symbols[w], k) <==> bit(g->symbols[w], k) && bit(egi->internal[w], k));
		invariant forall int w {: eg->symbols[w] :} . 0 <= w < i ==> 0 <= eg->symbols[w] <= U64_MAX;
		invariant any == 0 ==> (forall int w {: eg->symbols[w] :} . 0 <= w < i ==> eg->symbols[w] == 0);
		invariant any == 1 ==> (exists int w . 0 <= w < i && eg->symbols[w] != 0);
		variant 4 - i;
	}
}

// ---- counting
// set bits of w below position k; edges in the first n groups
logic int nbits(int w, int k);
axiom nbits_0 auto: forall int w, int k {: nbits(w, k) :} . k <= 0 ==> nbits(w, k) == 0;
axiom nbits_s auto: forall int w, int k {: nbits(w, k) :} . k > 0 ==> nbits(w, k) == nbits(w, k - 1) + (if bit(w, k - 1) then 1 else 0);
lemma nbits_none auto ind_k: forall int w, int k {: nbits(w, k) :} . w == 0 ==> nbits(w, k) == 0;
lemma nbits_range auto ind_k: forall int w, int k {: nbits(w, k) :} . 0 <= nbits(w, k) && (k >= 0 ==> nbits(w, k) <= k);
logic int egc(iseq2 r, int n);
axiom egc_0 auto: forall iseq2 r, int n {: egc(r, n) :} . n <= 0 ==> egc(r, n) == 0;
axiom egc_s auto: forall iseq2 r, int n {: egc(r, n) :} . n > 0 ==> egc(r, n) == egc(r, n - 1) + nbits(r[n - 1][0], 64) + nbits(r[n - 1][1], 64) + nbits(r[n - 1][2], 64) + nbits(r[n - 1][3], 64);
fn edge_set_count {
	requires es_wf(set);
	ensures n: result == (if set == null then 0 else egc(inner2(set->groups[0].symbols), set->count));
	unroll 2 4;
	loop 1 {
		invariant rng: 0 <= i <= set->count && 0 <= res <= 256 * i;
		invariant val: res == egc(inner2(set->groups[0].symbols), i);
		invariant forall int w {: set->groups[i].symbols[w] :} . i < set->count && 0 <= w < 4 && set->groups[i].symbols[w] == 0 ==> nbits(set->groups[i].symbols[w], 64) == 0;
		variant set->count - i;
	}
	loop 3 {
		invariant bit == 0 || bit == pow2(lsb(bit)) && pow2(lsb(bit) + 1) == 2 * bit && 0 <= lsb(bit) < 64;
		invariant bit != 0 ==> nbits(w, lsb(bit) + 1) == nbits(w, lsb(bit)) + (if bit(w, lsb(bit)) then 1 else 0);
		variant if bit == 0 then 0 else 64 - lsb(bit);
		invariant (bit == 0 ==> res == at(L3, res) + nbits(w, 64)) && (bit != 0 ==> res == at(L3, res) + nbits(w, lsb(bit)));
	}
}
