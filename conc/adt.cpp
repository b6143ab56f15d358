// Model-based checks of the containers underneath an automaton.
#include "ref.hpp"
#include "props.hpp"
#include <deque>
#define new new_
#define old old_
#define set set_
extern "C" {
#include <adt/alloc.h>
#include <adt/stateset.h>
#include <adt/bitmap.h>
#include <adt/edgeset.h>
#include <adt/queue.h>
#include <adt/u64bitset.h>
#include <adt/idmap.h>
#include <adt/priq.h>
#include <adt/set.h>
struct fsm_edge { fsm_state_t state:24; unsigned char symbol; };
struct state_set **epsilon_closure(const struct fsm *fsm);
void closure_free(const struct fsm *fsm, struct state_set **closures, size_t n);
}
#undef new
#undef old
#undef set
static AllocStats AS;
static const fsm_alloc *AL() { return counting_alloc(&AS); }
static string S(const set<unsigned> &s) { string o = "{"; for (unsigned x : s) o += fmt(" %u", x); return o + " }"; }
static set<unsigned> members(const struct state_set *s, const char *what) {
	set<unsigned> r; struct state_iter it; fsm_state_t x; bool first = true; fsm_state_t prev = 0;
	for (state_set_reset(s, &it); state_set_next(&it, &x);) { CHECK(first || x > prev, "%s: iteration is not strictly ascending: %u then %u", what, prev, x); first = false; prev = x; r.insert(x); if (r.size() > 100000) fail("endless iteration"); }
	CHECK(state_set_count(s) == r.size(), "%s: count %zu, %zu members", what, state_set_count(s), r.size()); CHECK(!!state_set_empty(s) == r.empty(), "%s: empty", what);
	if (r.size() == 1) CHECK(state_set_only(s) == *r.begin(), "%s: only", what);
	return r;
}
struct Map { map<unsigned, unsigned> m; };
static fsm_state_t remapf(fsm_state_t s, const void *o) { auto &m = ((const Map *)o)->m; auto it = m.find(s); return it == m.end() ? FSM_STATE_REMAP_NO_STATE : it->second; }
static set<unsigned> PS; static int predf(const struct fsm *, fsm_state_t s) { return PS.count(s) > 0; }
// C16
static void p16(u64 i, Rng &g) {
	const int N = 3; struct state_set *s[N] = {0, 0, 0}; set<unsigned> m[N]; unsigned range = g.chance(50) ? 6 : g.chance(60) ? 60 : 1000000; int k = g.range(2, g.chance(85) ? 25 : 120); C.nt = true;
	for (int j = 0; j < k; j++) {
		int a = g.below(N), b = g.below(N), op = g.below(14); unsigned x = g.below(range); if (g.chance(40) && !m[a].empty()) { auto it = m[a].begin(); std::advance(it, g.below((unsigned)m[a].size())); x = *it; }
		switch (op) {
		case 0: case 1: case 2: say(fmt("add %d %u", a, x)); CHECK(state_set_add(&s[a], AL(), x), "add"); m[a].insert(x); break;
		case 3: case 4: { unsigned n = g.below(g.chance(80) ? 6 : 60); vector<fsm_state_t> v; string l; for (unsigned z = 0; z < n; z++) { v.push_back(g.chance(20) && z ? v[z - 1] : g.below(range)); l += fmt(" %u", v[z]); } say(fmt("add_bulk %d [%s ]", a, l.c_str())); v.push_back(0); CHECK(state_set_add_bulk(&s[a], AL(), v.data(), n), "bulk"); v.pop_back(); m[a].insert(v.begin(), v.end()); break; }
		case 5: say(fmt("remove %d %u", a, x)); state_set_remove(&s[a], x); m[a].erase(x); break;
		case 6: if (a == b) break; say(fmt("copy %d <- %d", a, b)); CHECK(state_set_copy(&s[a], AL(), s[b]), "copy"); m[a].insert(m[b].begin(), m[b].end()); break;
		case 7: { unsigned d = g.below(50); if (!m[a].empty() && *m[a].rbegin() > 4000000) break; say(fmt("rebase %d by %u", a, d)); state_set_rebase(&s[a], d); set<unsigned> n; for (unsigned z : m[a]) n.insert(z + d); m[a] = n; break; }
		case 8: { Map mp; string l; int mode = g.below(3); unsigned c = 0; for (unsigned z : m[a]) { if (g.chance(30)) continue; mp.m[z] = mode == 0 ? c : mode == 1 ? g.below(range) : z / 2; c++; l += fmt(" %u->%u", z, mp.m[z]); } say(fmt("compact %d [%s ]", a, l.c_str())); state_set_compact(&s[a], remapf, &mp); set<unsigned> n; for (auto &p : mp.m) n.insert(p.second); m[a] = n; break; }
		case 9: { unsigned y = g.below(range); say(fmt("replace %d %u by %u", a, x, y)); state_set_replace(&s[a], x, y); if (m[a].erase(x)) m[a].insert(y); break; }
		case 10: { PS.clear(); for (int z = 0; z < 3; z++) PS.insert(g.chance(50) ? x + z : g.below(range)); bool w = false; for (unsigned z : m[a]) w |= PS.count(z) > 0; say(fmt("has %d", a)); struct fsm *dummy = (struct fsm *)&PS; CHECK(!!state_set_has(dummy, s[a], predf) == w, "has"); break; }
		case 11: if (s[a] && s[b]) { int c = state_set_cmp(s[a], s[b]); CHECK((c == 0) == (m[a] == m[b]), "cmp of %s and %s is %d", S(m[a]).c_str(), S(m[b]).c_str(), c); } break;
		case 12: say(fmt("clear %d", a)); state_set_free(s[a]); s[a] = nullptr; m[a].clear(); break;
		case 13: if (m[a].size() > 1) { const fsm_state_t *p = state_set_array(s[a]); size_t z = 0; for (unsigned y : m[a]) CHECK(p[z++] == y, "array"); } break;
		}
		for (int z = 0; z < N; z++) { set<unsigned> q = members(s[z], fmt("set %d", z).c_str()); CHECK(q == m[z], "set %d holds %s, expected %s", z, S(q).c_str(), S(m[z]).c_str()); }
		CHECK(!!state_set_contains(s[a], x) == (m[a].count(x) > 0), "contains %u", x); CHECK(!!state_set_contains(s[a], x + 1) == (m[a].count(x + 1) > 0), "contains %u", x + 1);
	}
	for (int z = 0; z < N; z++) state_set_free(s[z]);
}
typedef map<u8, set<unsigned>> Rel;
static string RS(const Rel &r) { string o = "{"; map<set<unsigned>, string> inv; for (auto &p : r) for (unsigned t : p.second) o += r.size() > 40 ? (p.first % 37 ? "" : fmt(" %02x->%u..", p.first, t)) : fmt(" %02x->%u", p.first, t); return o + " }"; }
static void eq_rel(struct edge_set *s, const Rel &m, const char *what) {
	Rel q; struct edge_iter it; struct fsm_edge e; size_t n = 0, want = 0; for (auto &p : m) want += p.second.size();
	for (edge_set_reset(s, &it); edge_set_next(&it, &e);) { n++; CHECK(q[e.symbol].insert(e.state).second, "%s: iteration yields %02x->%u twice", what, e.symbol, (unsigned)e.state); if (n > 1000000) fail("endless iteration"); }
	CHECK(q == m, "%s: iteration gives %s expected %s", what, RS(q).c_str(), RS(m).c_str()); CHECK(edge_set_count(s) == want, "%s: count %zu expected %zu", what, edge_set_count(s), want); CHECK(!!edge_set_empty(s) == (want == 0), "%s: empty() says %d with %zu edges", what, edge_set_empty(s), want);
	struct bm bm; bm_clear(&bm); bool nd = false; for (auto &p : m) nd |= p.second.size() > 1; CHECK(!!edge_set_hasnondeterminism(s, &bm) == nd, "%s: hasnondeterminism", what);
	for (int c = 0; c < 256; c++) { auto f = m.find((u8)c); CHECK(!!edge_set_contains(s, (u8)c) == (f != m.end()), "%s: contains %02x", what, c); struct fsm_edge x; if (edge_set_find(s, (u8)c, &x)) { CHECK(f != m.end() && f->second.count(x.state) && x.symbol == c, "%s: find %02x gives %u", what, c, (unsigned)x.state); } else CHECK(f == m.end(), "%s: find %02x fails", what, c); if (!nd) { fsm_state_t t = 0; int r = edge_set_transition(s, (u8)c, &t); CHECK(!!r == (f != m.end()), "%s: transition %02x gives %d", what, c, r); if (r) CHECK(f->second.count(t), "%s: transition %02x leads to %u", what, c, t); } }
	for (int mode = 0; mode < 2; mode++) {
		struct edge_group_iter gi; struct edge_group_iter_info inf; Rel z; memset(&inf, 0, sizeof inf); edge_set_group_iter_reset(s, mode ? EDGE_GROUP_ITER_UNIQUE : EDGE_GROUP_ITER_ALL, &gi); n = 0;
		while (edge_set_group_iter_next(&gi, &inf)) { if (++n > 100000) fail("endless group iteration"); for (int c = 0; c < 256; c++) if (u64bitset_get(inf.symbols, c)) { CHECK(z[(u8)c].insert(inf.to).second, "%s: groups yield %02x->%u twice", what, c, inf.to); auto f = m.find((u8)c); if (mode) CHECK((f != m.end() && f->second.size() == 1) == !!inf.unique, "%s: group uniqueness of %02x->%u", what, c, inf.to); } }
		CHECK(z == m, "%s: groups (mode %d) give %s expected %s", what, mode, RS(z).c_str(), RS(m).c_str()); }
}
static fsm_state_t eremap(fsm_state_t s, const void *o) { return remapf(s, o); }
// C17
static void p17(u64 i, Rng &g) {
	const int N = 2; struct edge_set *s[N] = {edge_set_new(), edge_set_new()}; Rel m[N]; unsigned range = g.chance(60) ? 5 : g.chance(60) ? 40 : 100000; int k = g.range(2, g.chance(85) ? 14 : 50); C.nt = true;
	auto sym = [&] { static const u8 sp[] = {0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255}; return (u8)(g.chance(40) ? 'a' + g.below(3) : g.chance(60) ? sp[g.below(12)] : g.below(256)); };
	for (int j = 0; j < k; j++) {
		int a = g.below(N), op = g.below(12); unsigned x = g.below(range); if (g.chance(50) && !m[a].empty()) { auto it = m[a].begin(); std::advance(it, g.below((unsigned)m[a].size())); if (!it->second.empty()) { auto jt = it->second.begin(); std::advance(jt, g.below((unsigned)it->second.size())); x = *jt; } }
		switch (op) {
		case 0: case 1: case 2: { u8 c = sym(); say(fmt("add %d %02x->%u", a, c, x)); CHECK(edge_set_add(&s[a], AL(), c, x), "add"); m[a][c].insert(x); break; }
		case 3: case 4: { uint64_t w[4] = {0, 0, 0, 0}; int n = g.range(1, 5); string l; for (int z = 0; z < n; z++) { unsigned lo = sym(), hi = g.chance(50) ? lo : std::min(255u, lo + g.below(70)); l += fmt(" %02x-%02x", lo, hi); for (unsigned c = lo; c <= hi; c++) u64bitset_set(w, c); } say(fmt("add_bulk %d%s -> %u", a, l.c_str(), x)); CHECK(edge_set_add_bulk(&s[a], AL(), w, x), "add_bulk"); for (int c = 0; c < 256; c++) if (u64bitset_get(w, c)) m[a][(u8)c].insert(x); break; }
		case 5: { u8 c = sym(); if (!m[a].empty() && g.chance(60)) c = m[a].begin()->first; say(fmt("remove byte %d %02x", a, c)); edge_set_remove(&s[a], c); m[a].erase(c); break; }
		case 6: { say(fmt("remove state %d %u", a, x)); edge_set_remove_state(&s[a], x); for (auto it = m[a].begin(); it != m[a].end();) { it->second.erase(x); if (it->second.empty()) it = m[a].erase(it); else ++it; } break; }
		case 7: { unsigned y = g.below(range); say(fmt("replace state %d %u by %u", a, x, y)); CHECK(edge_set_replace_state(&s[a], AL(), x, y), "replace"); for (auto &p : m[a]) if (p.second.erase(x)) p.second.insert(y); break; }
		case 8: { say(fmt("copy %d -> %d", 1 - a, a)); CHECK(edge_set_copy(&s[a], AL(), s[1 - a]), "copy"); for (auto &p : m[1 - a]) m[a][p.first].insert(p.second.begin(), p.second.end()); break; }
		case 9: { unsigned mx = 0; for (auto &p : m[a]) for (unsigned t : p.second) mx = std::max(mx, t); if (mx > 8000000) break; unsigned d = g.below(40); say(fmt("rebase %d by %u", a, d)); edge_set_rebase(&s[a], d); for (auto &p : m[a]) { set<unsigned> n; for (unsigned t : p.second) n.insert(t + d); p.second = n; } break; }
		case 10: { Map mp; string l; set<unsigned> all; for (auto &p : m[a]) all.insert(p.second.begin(), p.second.end()); unsigned c = 0; int mode = g.below(3); unsigned pct = g.chance(20) ? 100 : 30; for (unsigned z : all) { if (g.chance(pct)) continue; mp.m[z] = mode == 0 ? c : mode == 1 ? g.below(range) : z / 2; c++; l += fmt(" %u->%u", z, mp.m[z]); } say(fmt("compact %d [%s ]", a, l.c_str())); CHECK(edge_set_compact(&s[a], AL(), eremap, &mp), "compact"); Rel n; for (auto &p : m[a]) for (unsigned t : p.second) if (mp.m.count(t)) n[p.first].insert(mp.m[t]); m[a] = n; break; }
		case 11: { struct state_set *ss = nullptr; set<unsigned> t; int n = g.below(4); while (n--) { unsigned z = g.below(range); state_set_add(&ss, AL(), z); t.insert(z); } u8 c = sym(); say(fmt("add %d %02x-> set %s", a, c, S(t).c_str())); CHECK(edge_set_add_state_set(&s[a], AL(), c, ss), "add set"); if (!t.empty()) m[a][c].insert(t.begin(), t.end()); state_set_free(ss); break; }
		}
		for (auto it = m[a].begin(); it != m[a].end();) if (it->second.empty()) it = m[a].erase(it); else ++it;
		eq_rel(s[a], m[a], fmt("set %d", a).c_str()); if (j % 4 == 3) eq_rel(s[1 - a], m[1 - a], "the other set");
	}
	for (int z = 0; z < N; z++) edge_set_free(AL(), s[z]);
}
// C18
struct RM { int mode; unsigned arg; int stop; set<unsigned> seen; };
static int endremap(fsm_state_t st, size_t n, fsm_end_id_t *ids, size_t *w, void *o) { RM *r = (RM *)o; r->seen.insert(st); size_t j = 0; for (size_t k = 0; k < n; k++) { if (r->mode == 0) ids[j++] = ids[k] / 2; else if (r->mode == 1) ids[j++] = ids[k] ^ r->arg; else if (k % 2 == 0) ids[j++] = 100 - ids[k] % 90; } *w = j; return (int)r->seen.size() != r->stop; }
static void p18(u64 i, Rng &g) {
	struct fsm *f = fsm_new(AL()); int n = g.range(1, g.chance(85) ? 6 : 90); CHECK(fsm_addstate_bulk(f, n), "bulk"); vector<set<unsigned>> m(n); vector<char> end(n); C.nt = true; string l; for (int k = 0; k < n; k++) if (g.chance(70)) { fsm_setend(f, k, 1); end[k] = 1; l += fmt(" %d", k); } say(fmt("%d states, ends%s", n, l.c_str()));
	int k = g.range(1, g.chance(80) ? 20 : 120); unsigned range = g.chance(60) ? 6 : 100000;
	for (int j = 0; j < k; j++) {
		int a = g.below(n), op = g.below(12); unsigned id = g.below(range); if (g.chance(3)) id = 0xffffffffu;
		if (op < 7) { if (!end[a]) continue; say(fmt("endid_set %d %u", a, id)); CHECK(fsm_endid_set(f, a, id) == 1, "set"); m[a].insert(id); }
		else if (op == 7) { say(fmt("setendid %u on all", id)); CHECK(fsm_setendid(f, id) == 1, "setendid"); for (int z = 0; z < n; z++) if (end[z]) m[z].insert(id); }
		else if (op == 8) { int d = (int)g.below(9) - 4; say(fmt("increment all by %d", d)); fsm_increndids(f, d); for (auto &q : m) { set<unsigned> w; for (unsigned x : q) w.insert(x + (unsigned)d); q = w; } }
		else if (op == 9) { RM r{(int)g.below(3), g.below(8), -1, {}}; say(fmt("remap mode %d arg %u", r.mode, r.arg)); int rc = fsm_mapendids(f, endremap, &r); CHECK(rc == 1, "mapendids %d", rc); set<unsigned> want; for (int z = 0; z < n; z++) if (!m[z].empty()) { want.insert(z); set<unsigned> w; size_t q = 0; for (unsigned x : m[z]) { if (r.mode == 0) w.insert(x / 2); else if (r.mode == 1) w.insert(x ^ r.arg); else if (q % 2 == 0) w.insert(100 - x % 90); q++; } m[z] = w; } CHECK(r.seen == want, "the remap callback was called for %s, expected %s", S(r.seen).c_str(), S(want).c_str()); }
		else if (op == 10) { struct fsm *c = fsm_clone(f); CHECK(c, "clone"); say("replace by clone"); fsm_free(f); f = c; }
		else { set<int> keep; for (int z = 0; z < n; z++) if (g.chance(80)) keep.insert(z); if (keep.empty()) continue; say("compact"); auto kf = [](fsm_state_t s, void *o) -> int { return ((set<int> *)o)->count((int)s) > 0; }; CHECK(fsm_compact_states(f, kf, &keep, nullptr), "compact"); vector<set<unsigned>> m2; vector<char> e2; for (int z : keep) { m2.push_back(m[z]); e2.push_back(end[z]); } m = m2; end = e2; n = (int)keep.size(); }
		for (int z = 0; z < n; z++) { size_t c = fsm_endid_count(f, z); CHECK(c == m[z].size(), "state %d has %zu ids, expected %s", z, c, S(m[z]).c_str()); if (!end[z]) continue; vector<fsm_end_id_t> b(c + 2, 0xabababab); if (c) { CHECK(fsm_endid_get(f, z, c - 1, b.data()) == 0, "too-small buffer accepted for state %d", z); CHECK(b[c - 1] == 0xabababab, "wrote beyond the buffer"); } CHECK(fsm_endid_get(f, z, c + 1, b.data()) == 1, "get"); size_t q = 0; for (unsigned x : m[z]) { CHECK(b[q] == x, "id %zu of state %d is %u, expected %s", q, z, b[q], S(m[z]).c_str()); q++; } CHECK(b[c] == 0xabababab, "wrote beyond the ids"); }
	}
	fsm_free(f);
}
static void idcb(fsm_state_t s, unsigned v, void *o) { auto *m = (map<unsigned, std::multiset<unsigned>> *)o; (*m)[s].insert(v); }
// C20
static void p20(u64 i, Rng &g) {
	int op = g.below(5); C.nt = true;
	if (op == 0) { // queue
		unsigned cap = g.range(1, 9); say(fmt("queue of %u", cap)); struct queue *q = queue_new(AL(), cap); CHECK(q, "new"); std::deque<unsigned> d; int k = g.range(1, 60); for (int j = 0; j < k; j++) { if (g.chance(55)) { unsigned x = g.below(1000); if (d.size() == cap) { say(fmt("push %u (full)", x)); CHECK(queue_push(q, x) == 0, "push to a full queue succeeded"); } else { say(fmt("push %u", x)); CHECK(queue_push(q, x), "push with %zu of %u used failed", d.size(), cap); d.push_back(x); } } else { fsm_state_t x = 77777; int r = queue_pop(q, &x); say("pop"); CHECK(!!r == !d.empty(), "pop %d", r); if (r) { CHECK(x == d.front(), "popped %u expected %u", x, d.front()); d.pop_front(); } } } queue_free(q);
	} else if (op == 1) { // bitmap
		struct bm a, b; set<int> A, B; bm_clear(&a); bm_clear(&b); int k = g.range(1, 40); for (int j = 0; j < k; j++) { bool w = g.chance(60); struct bm *x = w ? &a : &b; set<int> &X = w ? A : B; int bit = g.chance(40) ? (int)(64 * g.below(4) + (g.chance(50) ? 0 : 63)) : (int)g.below(256); int o = g.below(9);
			switch (o) { case 0: case 1: case 2: say(fmt("set %d %d", w, bit)); bm_set(x, bit); X.insert(bit); break; case 3: say(fmt("unset %d %d", w, bit)); bm_unset(x, bit); X.erase(bit); break; case 4: say(fmt("invert %d", w)); bm_invert(x); { set<int> n; for (int c = 0; c < 256; c++) if (!X.count(c)) n.insert(c); X = n; } break; case 5: say("a |= b"); bm_union(&a, &b); A.insert(B.begin(), B.end()); break; case 6: say("a &= b"); bm_intersect(&a, &b); { set<int> n; for (int c : A) if (B.count(c)) n.insert(c); A = n; } break; case 7: say("a = b"); bm_copy(&a, &b); A = B; break; case 8: if (g.chance(20)) { bm_clear(x); X.clear(); say("clear"); } else { *bm_nth_word(x, bit / 64) |= 1ull << (bit % 64); X.insert(bit); say(fmt("word set %d %d", w, bit)); } break; }
			for (int c = 0; c < 256; c++) { CHECK(!!bm_get(&a, c) == (A.count(c) > 0), "bit %d of a", c); CHECK(!!bm_get(&b, c) == (B.count(c) > 0), "bit %d of b", c); } CHECK(bm_count(&a) == A.size(), "count %u expected %zu", bm_count(&a), A.size()); CHECK(!!bm_any(&a) == !A.empty(), "any");
			for (int v = 0; v < 2; v++) { vector<size_t> got; size_t c = bm_next(&a, -1, v); while (c <= 255 && got.size() < 300) { got.push_back(c); c = bm_next(&a, (int)c, v); } vector<size_t> want; for (int z = 0; z < 256; z++) if ((A.count(z) > 0) == v) want.push_back(z); CHECK(got == want, "bm_next(%d) enumerates %zu positions, expected %zu", v, got.size(), want.size()); } }
	} else if (op == 2) { // id map
		struct idmap *m = idmap_new(AL()); CHECK(m, "new"); map<unsigned, set<unsigned>> M; unsigned sr = g.chance(50) ? 5 : 300, vr = g.chance(50) ? 70 : 700; int k = g.range(1, g.chance(70) ? 30 : 300); for (int j = 0; j < k; j++) { unsigned s = g.below(sr), v = g.chance(20) ? 64 * g.below(6) + (g.chance(50) ? 63 : 0) : g.below(vr); say(fmt("idmap_set %u %u", s, v)); CHECK(idmap_set(m, s, v), "set"); M[s].insert(v); if (j > 20 && j % 10) continue; map<unsigned, std::multiset<unsigned>> it; idmap_iter(m, idcb, &it); CHECK(it.size() == M.size(), "iteration yields %zu states, expected %zu", it.size(), M.size()); for (auto &p : M) { auto &x = it[p.first]; CHECK(x.size() == p.second.size() && set<unsigned>(x.begin(), x.end()) == p.second, "iteration for state %u", p.first); map<unsigned, std::multiset<unsigned>> one; idmap_iter_for_state(m, p.first, idcb, &one); CHECK(one[p.first].size() == p.second.size() && set<unsigned>(one[p.first].begin(), one[p.first].end()) == p.second, "per-state iteration for %u", p.first); }
			for (unsigned z : {s, s + 1, 0u}) { size_t c = idmap_get_value_count(m, z); auto f = M.find(z); size_t w = f == M.end() ? 0 : f->second.size(); CHECK(c == w, "count of %u is %zu expected %zu", z, c, w); vector<unsigned> b(c + 1, 0xabab); size_t wr = 99; if (c) { CHECK(!idmap_get(m, z, (c - 1) * sizeof(unsigned), b.data(), &wr), "too-small buffer accepted"); wr = 99; } CHECK(idmap_get(m, z, c * sizeof(unsigned), b.data(), &wr), "get of state %u", z); CHECK(wr == c, "wrote %zu expected %zu", wr, c); size_t q = 0; if (c) for (unsigned x : f->second) { CHECK(b[q] == x, "value %zu of %u is %u expected %u", q, z, b[q], x); q++; } CHECK(b[c] == 0xabab, "wrote too much"); } } idmap_free(m);
	} else if (op == 3) { // priority queue
		struct priq *p = nullptr, *done = nullptr; map<unsigned, unsigned> M; int k = g.range(1, 40); unsigned nx = 0; for (int j = 0; j < k; j++) { int o = g.below(5); if (o < 2) { unsigned c = g.below(20); if (g.chance(10)) c = 0xffffffffu; say(fmt("push %u cost %u", nx, c)); CHECK(priq_push(AL(), &p, nx, c), "push"); M[nx++] = c; } else if (o == 2) { struct priq *x = priq_pop(&p); say("pop"); CHECK((x != nullptr) == !M.empty(), "pop"); if (x) { unsigned mn = ~0u; for (auto &q : M) mn = std::min(mn, q.second); CHECK(M.count(x->state) && M[x->state] == x->cost && x->cost == mn, "popped state %u cost %u, least cost %u", x->state, x->cost, mn); CHECK(x->next == nullptr, "popped node still linked"); M.erase(x->state); priq_move(&done, x); CHECK(priq_find(done, x->state) == x, "moved node not found"); } } else if (o == 3) { unsigned s = g.below(nx + 1); struct priq *x = priq_find(p, s); CHECK((x != nullptr) == (M.count(s) > 0), "find %u", s); if (x) CHECK(x->state == s && x->cost == M[s], "find"); } else if (!M.empty()) { auto it = M.begin(); std::advance(it, g.below((unsigned)M.size())); struct priq *x = priq_find(p, it->first); CHECK(x, "find"); unsigned c = g.below(20); say(fmt("update %u to %u", it->first, c)); x->cost = c; priq_update(&p, x, c); it->second = c; } size_t n = 0; unsigned last = 0; for (struct priq *x = p; x; x = x->next) { CHECK(++n <= M.size(), "too many nodes"); CHECK(x->cost >= last, "not in order"); last = x->cost; } CHECK(n == M.size(), "%zu nodes expected %zu", n, M.size()); } priq_free(AL(), p); priq_free(AL(), done);
	} else { // u64bitset
		unsigned n = g.range(1, 300); size_t w = u64bitset_words(n); CHECK(w * 64 >= n && (w - 1) * 64 < n, "words(%u) = %zu", n, w); vector<uint64_t> v(w); set<unsigned> M; int k = g.range(1, 60); for (int j = 0; j < k; j++) { unsigned b = g.below(n); if (g.chance(65)) { u64bitset_set(v.data(), b); M.insert(b); say(fmt("set %u", b)); } else { u64bitset_clear(v.data(), b); M.erase(b); say(fmt("clear %u", b)); } } size_t pc = 0; for (uint64_t x : v) pc += u64bitset_popcount(x); CHECK(pc == M.size(), "popcount"); for (unsigned b = 0; b < n; b++) CHECK(!!u64bitset_get(v.data(), b) == (M.count(b) > 0), "bit %u", b);
	}
}
// C35
static void p35(u64 i, Rng &g) {
	u64 t; exhaustive2(0, &t, true); GenOpt o; o.maxn = 40; Ref r = i < t ? exhaustive2(i, nullptr, true) : gen(g, o); if (g.chance(50)) { int n = r.n(); int k = g.below(3 * n + 1); while (k--) r.eps[g.below(n)].insert(g.below(n)); } if (!r.n()) return; say("closure of " + show(r)); C.nt = r.haseps(); struct fsm *f = build(r, AL()); auto want = closures(r); int reps = g.range(1, 2);
	while (reps--) { struct state_set **c = epsilon_closure(f); CHECK(c, "errno %d", errno); for (int k = 0; k < r.n(); k++) { set<unsigned> q = members(c[k], "closure"), w(want[k].begin(), want[k].end()); CHECK(q == w, "closure of %d is %s, expected %s", k, S(q).c_str(), S(w).c_str()); } closure_free(f, c, r.n()); }
	CHECK(extract(f) == r, "machine changed"); fsm_free(f);
}
// C28
static void p28(u64 i, Rng &g) {
	GenOpt o; o.maxn = 6; o.nostart = false; Ref r = gen(g, o); for (auto &m : r.e) { std::map<int, int> cnt; for (auto it = m.begin(); it != m.end();) { for (auto jt = it->second.begin(); jt != it->second.end();) if (++cnt[*jt] > 2) jt = it->second.erase(jt); else ++jt; if (it->second.empty()) it = m.erase(it); else ++it; } } /* the search for paths goes through each label of each edge */ if (r.n() < 1) return; for (auto &x : r.eps) x.clear(); say("captures on " + show(r)); struct fsm *f = build(r, AL()); unsigned mx = 0; bool any = false; vector<char> has(r.n()); int k = g.range(0, 4);
	CHECK(fsm_countcaptures(f) == 0, "fresh machine has captures");
	for (int j = 0; j < k; j++) { unsigned id = g.below(4); int a = g.below(r.n()), b = g.below(r.n()); { Ref x = r; x.start = a; if (!reach(x).count(b)) continue; } say(fmt("path %u: %d..%d", id, a, b)); CHECK(fsm_capture_set_path(f, id, a, b), "set_path"); // states on some simple path a..b
		set<int> on; std::function<void(int, vector<int> &)> dfs = [&](int x, vector<int> &path) { path.push_back(x); if (x == b) { on.insert(path.begin(), path.end()); path.pop_back(); return; } set<int> nx; for (auto &p : r.e[x]) nx.insert(p.second.begin(), p.second.end()); for (int y : nx) if (std::find(path.begin(), path.end(), y) == path.end()) dfs(y, path); path.pop_back(); }; vector<int> p; dfs(a, p); bool mult = r.n() <= 8; (void)mult; if (!on.empty()) { any = true; for (int x : on) has[x] = 1; } mx = std::max(mx, id); }
	C.nt = any;
	auto chk = [&](struct fsm *x, int base, unsigned want, const char *w) { CHECK(fsm_countcaptures(x) == want, "%s: %u captures, expected %u", w, fsm_countcaptures(x), want); for (int s = 0; s < r.n(); s++) CHECK(!!fsm_capture_has_capture_actions(x, s + base) == !!has[s], "%s: state %d takes part: %d, expected %d", w, s + base, fsm_capture_has_capture_actions(x, s + base), has[s]); };
	unsigned want = any ? mx + 1 : 0; chk(f, 0, want, "as declared"); struct fsm *c = fsm_clone(f); CHECK(c, "clone"); if (any) chk(c, 0, want, "clone"); chk(f, 0, want, "after cloning");
	if (any && g.chance(60)) { unsigned b = g.below(3); say(fmt("rebase ids by %u", b)); fsm_capture_rebase_capture_id(f, b); want += b; chk(f, 0, want, "rebased"); }
	if (g.chance(60)) { struct fsm_combine_info ci; say("merge with a clone of the machine without captures"); struct fsm *h = build(r, AL()); struct fsm *m = fsm_merge(f, h, &ci); CHECK(m, "merge"); chk(m, ci.base_a, want, "merged"); f = m; }
	fsm_free(c); c = nullptr;
	if (g.chance(60)) { // renumbering: states removed by trimming
		int n0 = fsm_countstates(f); vector<char> h0(n0); for (int s = 0; s < n0; s++) h0[s] = fsm_capture_has_capture_actions(f, s); unsigned c0 = fsm_countcaptures(f); Ref q = extract(f); if (q.start < 0) { fsm_free(f); return; } set<int> R = reach(q); vector<char> keep(n0); bool all = true; bool se = g.chance(50);
		for (int s = 0; s < n0; s++) { keep[s] = R.count(s); if (keep[s] && se) { Ref x = q; x.start = s; bool e = false; for (int y : reach(x)) if (q.end[y]) e = true; keep[s] = e; } if (h0[s] && !keep[s]) all = false; }
		say(fmt("trim (%d)", se)); CHECK(fsm_trim(f, se ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, nullptr) >= 0, "trim"); struct fsm *d = fsm_clone(f); CHECK(d, "clone"); int k = 0;
		for (int s = 0; s < n0; s++) if (keep[s]) { int a1 = !!fsm_capture_has_capture_actions(f, k), a2 = !!fsm_capture_has_capture_actions(d, k); CHECK(a1 == a2, "state %d (%d before trimming) takes part: %d, in a clone: %d", k, s, a1, a2); CHECK(!a1 || h0[s], "state %d (%d before trimming) takes part and did not before", k, s); if (all) CHECK(a1 == h0[s], "state %d (%d before trimming) takes part: %d, before: %d", k, s, a1, h0[s]); k++; }
		if (all) CHECK(fsm_countcaptures(f) == c0, "%u captures after trimming, %u before", fsm_countcaptures(f), c0);
		fsm_free(d);
	}
	fsm_free(f);
}
Prop adt_props[] = { {"C16", p16, 400000}, {"C17", p17, 100000}, {"C18", p18, 100000}, {"C20", p20, 400000}, {"C28", p28, 100000}, {"C35", p35, 200000}, {nullptr, nullptr, 0} };
