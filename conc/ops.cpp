// Language-level checks of the FSM operations against the reference model.
#include "ref.hpp"
#include "props.hpp"
typedef vector<const Ref *> RV;
static bool id1(const vector<bool> &a) { return a[0]; }
static set<unsigned> idsum(const vector<View> &v) { set<unsigned> s; for (auto &x : v) if (x.acc) s.insert(x.ids->begin(), x.ids->end()); return s; }
static AllocStats AS;
static const fsm_alloc *AL() { return counting_alloc(&AS); }
static void nontrivial(bool b) { if (b) C.nt = true; }
static Ref unary(u64 i, Rng &g, GenOpt o, bool ex = true) { u64 t; exhaustive2(0, &t, o.eps); Ref r = (ex && i < t && !o.dfa) ? exhaustive2(i, nullptr, o.eps) : gen(g, o); if (ex && i < t && o.ids && !o.dfa) for (int k = 0; k < r.n(); k++) if (r.end[k]) r.ids[k].insert(k + 7); return r; }
static bool nonempty_lang(const Ref &r) { auto a = reach(r), b = coreach(r); for (int x : a) if (b.count(x)) return true; return false; }
static bool too_big(const Ref &r, size_t lim = 4000) { return r.n() > 6 && subset_count(r, lim) == (size_t)-1; }
static void must_be_dfa(const Ref &r) { for (int i = 0; i < r.n(); i++) { if (!r.eps[i].empty()) fail(fmt("state %d of the result has an epsilon edge: ", i) + show(r)); for (auto &p : r.e[i]) if (p.second.size() > 1) fail(fmt("state %d of the result has two transitions on byte %02x: ", i, p.first) + show(r)); } }
static Ref det_ref(const Ref &r) { // subset construction in the model
	auto clo = closures(r); Ref d; map<set<int>, int> m; vector<set<int>> q;
	auto get = [&](const set<int> &s) { auto it = m.find(s); if (it != m.end()) return it->second; int k = d.add(); m[s] = k; q.push_back(s); for (int x : s) { if (r.end[x]) { d.end[k] = 1; d.ids[k].insert(r.ids[x].begin(), r.ids[x].end()); } d.eager[k].insert(r.eager[x].begin(), r.eager[x].end()); } return k; };
	if (r.start < 0) return d; d.start = get(clo[r.start]);
	for (size_t h = 0; h < q.size(); h++) { auto s = q[h]; map<u8, set<int>> o; for (int x : s) for (auto &p : r.e[x]) for (int t : p.second) o[p.first].insert(clo[t].begin(), clo[t].end()); for (auto &p : o) { int t = get(p.second); d.e[h][p.first].insert(t); } }
	return d;
}

// C01
static void p01(u64 i, Rng &g) {
	GenOpt o; o.ids = true; Ref r = unary(i, g, o); if (r.start < 0) return; say("determinise of " + show(r));
	if (too_big(r)) return;
	nontrivial(r.nondet() && nonempty_lang(r));
	struct fsm *f = build(r, AL());
	int mode = g.below(4); size_t lim = 0;
	if (mode == 0) {
		Ref re; { struct fsm *h = build(r, AL()); CHECK(fsm_remove_epsilons(h), "errno %d", errno); re = extract(h); fsm_free(h); } size_t sc = subset_count(re, 5000); lim = g.range(1, (unsigned)sc + 3); struct fsm_determinise_config cfg = {lim};
		say(fmt("state_limit=%zu", lim));
		auto x = fsm_determinise_with_config(f, &cfg);
		CHECK(x == FSM_DETERMINISE_WITH_CONFIG_OK || x == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED, "result %d", (int)x);
		if (x == FSM_DETERMINISE_WITH_CONFIG_STATE_LIMIT_REACHED) { CHECK(sc + 1 >= lim || (size_t)r.n() > lim, "limit %zu reported though the deterministic machine needs only %zu states", lim, sc); Ref q = extract(f); lang_is(q, RV{&r}, id1, "machine left after the limit was reached"); fsm_free(f); return; }
		CHECK(fsm_countstates(f) <= lim + 1, "limit %zu but %u states", lim, fsm_countstates(f));
	} else CHECK(fsm_determinise(f) == 1, "errno %d", errno);
	Ref q = extract(f); must_be_dfa(q);
	if (r.start >= 0) for (unsigned s = 0; s < fsm_countstates(f); s++) CHECK(fsm_isdfa(f, s), "state %u", s);
	lang_is(q, RV{&r}, id1, "determinise", idsum); fsm_free(f);
}
// C02
static void p02(u64 i, Rng &g) {
	GenOpt o; o.ids = true; Ref r;
	if (g.chance(50)) { o.dfa = true; r = gen(g, o); } else { Ref n = unary(i, g, o); if (too_big(n, 300)) return; r = det_ref(n); if (r.n() > 120) return;
		if (g.chance(50) && r.n()) { // split states to create equivalent ones
			int m = r.n(); for (int k = 0; k < m; k++) { int z = r.add(); r.e[z] = r.e[k]; r.end[z] = r.end[k]; r.ids[z] = r.ids[k]; }
			for (int k = 0; k < 2 * m; k++) for (auto &p : r.e[k]) if (g.chance(50)) { int t = *p.second.begin(); p.second = {t < m ? t + m : t - m}; } } }
	if (r.start < 0) return; say("minimise of " + show(r)); nontrivial(nonempty_lang(r));
	struct fsm *f = build(r, AL());
	CHECK(fsm_minimise(f) == 1, "errno %d", errno);
	Ref q = extract(f); must_be_dfa(q); lang_is(q, RV{&r}, id1, "minimise", idsum);
	size_t want = min_states(r, true); if (want == 0) CHECK(q.n() <= 1, "empty language but %d states", q.n()); else CHECK((size_t)q.n() == want, "result has %d states, the smallest machine has %zu: %s", q.n(), want, show(q).c_str());
	fsm_free(f);
}
// C03
static void p03(u64 i, Rng &g) {
	GenOpt o; o.ids = true; o.eager = g.chance(30); Ref r = unary(i, g, o); if (r.start < 0) return; say("remove epsilons of " + show(r)); nontrivial(r.haseps() && nonempty_lang(r));
	if (too_big(r)) return;
	struct fsm *f = build(r, AL()); CHECK(fsm_remove_epsilons(f) == 1, "errno %d", errno);
	Ref q = extract(f); for (int k = 0; k < q.n(); k++) CHECK(q.eps[k].empty(), "state %d still has epsilons", k);
	lang_is(q, RV{&r}, id1, "remove epsilons", idsum, true); fsm_free(f);
}
static pair<Ref, Ref> two(u64 i, Rng &g, bool ids) {
	GenOpt o; o.ids = ids; o.maxn = 20; o.nostart = false; o.shared_alpha = g.chance(80);
	Ref a, b; if (i < 4000 || g.chance(10)) { u64 t; exhaustive2(0, &t, true); a = exhaustive2(1 + g.below((unsigned)t - 1), nullptr, true); b = exhaustive2(1 + g.below((unsigned)t - 1), nullptr, true); if (a.start < 0) a.start = 0; if (b.start < 0) b.start = 0; } else { a = gen(g, o); b = gen(g, o); if (!a.n()) { a.add(); a.start = 0; } if (!b.n()) { b.add(); b.start = 0; } }
	if (ids) for (int k = 0; k < b.n(); k++) { set<unsigned> s; for (unsigned x : b.ids[k]) s.insert(x ^ 0x40); b.ids[k] = s; }
	return {a, b};
}
// C04
static void p04(u64 i, Rng &g) {
	if (g.chance(65)) {
		auto ab = two(i, g, true); Ref &a = ab.first, &b = ab.second; if (g.chance(3)) a = Ref(); if (g.chance(3)) b = Ref();
		say("union of A: " + show(a)); say("and B: " + show(b)); nontrivial(nonempty_lang(a) && nonempty_lang(b));
		if (too_big(a, 500) || too_big(b, 500)) return;
		struct fsm_combine_info ci; bool wi = g.chance(50);
		struct fsm *q = fsm_union(build(a, AL()), build(b, AL()), wi ? &ci : nullptr); CHECK(q, "errno %d", errno);
		Ref r = extract(q); lang_is(r, RV{&a, &b}, [](const vector<bool> &v) { return v[0] || v[1]; }, "union", idsum);
		if (wi && a.n() && b.n()) { // the reported bases must locate the operands
			Ref ra = r, rb = r; ra.start = a.start + (int)ci.base_a; rb.start = b.start + (int)ci.base_b;
			CHECK(ra.start < r.n() && rb.start < r.n(), "bases %u %u", ci.base_a, ci.base_b);
			lang_is(ra, RV{&a}, id1, "operand A at its reported base", idsum); lang_is(rb, RV{&b}, id1, "operand B at its reported base", idsum);
		}
		fsm_free(q); return;
	}
	int k = g.range(1, 5); vector<Ref> rs; vector<struct fsm *> fs; RV rv; GenOpt o; o.ids = true; o.maxn = g.chance(30) ? 20 : 5; o.nostart = false; o.shared_alpha = true;
	for (int j = 0; j < k; j++) { Ref r = gen(g, o); if (!r.n()) { r.add(); r.start = 0; } rs.push_back(r); say(fmt("union_array operand %d: ", j) + show(r)); if (too_big(r, 200)) return; }
	for (auto &r : rs) { rv.push_back(&r); fs.push_back(build(r, AL())); nontrivial(nonempty_lang(r)); }
	vector<struct fsm_combined_base_pair> bs(k); bool wb = g.chance(60);
	struct fsm *q = fsm_union_array(k, fs.data(), wb ? bs.data() : nullptr); CHECK(q, "errno %d", errno);
	Ref r = extract(q); lang_is(r, rv, [](const vector<bool> &v) { for (bool x : v) if (x) return true; return false; }, "union_array", idsum);
	if (wb) for (int j = 0; j < k; j++) { Ref x = r; x.start = rs[j].start + (int)bs[j].state; CHECK(x.start < r.n(), "base %u", bs[j].state); lang_is(x, RV{&rs[j]}, id1, fmt("operand %d at its reported base", j).c_str(), idsum); }
	fsm_free(q);
}
// C05
static void p05(u64 i, Rng &g) {
	auto ab = two(i, g, true); Ref &a = ab.first, &b = ab.second; say("concat of A: " + show(a)); say("and B: " + show(b)); nontrivial(nonempty_lang(a) && nonempty_lang(b));
	if (too_big(a, 300) || too_big(b, 300)) return;
	Ref c; for (int k = 0; k < a.n() + b.n(); k++) c.add();
	for (int k = 0; k < a.n(); k++) { c.e[k] = a.e[k]; c.eps[k] = a.eps[k]; if (a.end[k]) c.eps[k].insert(a.n() + b.start); }
	for (int k = 0; k < b.n(); k++) { for (auto &p : b.e[k]) for (int t : p.second) c.e[k + a.n()][p.first].insert(t + a.n()); for (int t : b.eps[k]) c.eps[k + a.n()].insert(t + a.n()); c.end[k + a.n()] = b.end[k]; c.ids[k + a.n()] = b.ids[k]; }
	c.start = a.start;
	struct fsm *q = fsm_concat(build(a, AL()), build(b, AL()), nullptr);
	bool aends = false, bends = false; for (char x : a.end) aends |= x; for (char x : b.end) bends |= x;
	if (!q) { CHECK(!aends || !bends, "concatenation of two machines with start and end states failed, errno %d", errno); return; }
	Ref r = extract(q); lang_is(r, RV{&c}, id1, "concat", idsum); fsm_free(q);
}
// C06
static void p06(u64 i, Rng &g) {
	GenOpt o; o.nostart = false; Ref r = unary(i, g, o); if (!r.n()) { r.add(); } if (r.start < 0) r.start = 0;
	if (g.chance(20)) { for (int k = 0; k < r.n(); k++) for (int c = 0; c < 256; c++) if (r.e[k][(u8)c].empty()) r.e[k][(u8)c].insert(k); } // complete, possibly nondeterministic
	if (r.n() > 25) return;
	bool comp = g.chance(65); say((comp ? "complement of " : "complete of ") + show(r)); nontrivial(nonempty_lang(r));
	if (too_big(r, 300)) return;
	struct fsm *f = build(r, AL());
	if (comp) { CHECK(fsm_complement(f) == 1, "errno %d", errno); Ref q = extract(f); lang_is(q, RV{&r}, [](const vector<bool> &v) { return !v[0]; }, "complement");
		if (g.chance(40)) { CHECK(fsm_complement(f) == 1, "errno %d", errno); q = extract(f); lang_is(q, RV{&r}, id1, "double complement"); } }
	else { CHECK(fsm_complete(f, fsm_isany) == 1, "errno %d", errno); Ref q = extract(f); lang_is(q, RV{&r}, id1, "complete"); for (int k = 0; k < q.n(); k++) { CHECK(q.e[k].size() == 256, "state %d has transitions on only %zu bytes", k, q.e[k].size()); CHECK(fsm_iscomplete(f, k), "state %d", k); } }
	fsm_free(f);
}
// C07
static void p07(u64 i, Rng &g) {
	auto ab = two(i, g, g.chance(50)); Ref &a = ab.first, &b = ab.second; int op = g.below(2);
	say((op ? "subtract, A: " : "intersect, A: ") + show(a)); say("B: " + show(b)); nontrivial(nonempty_lang(a) && nonempty_lang(b));
	if (too_big(a, 100) || too_big(b, 100)) return;
	struct fsm *x = build(a, AL()), *y = build(b, AL());
	struct fsm *q = op ? fsm_subtract(x, y) : fsm_intersect(x, y); CHECK(q, "errno %d", errno);
	Ref r = extract(q); if (op) lang_is(r, RV{&a, &b}, [](const vector<bool> &v) { return v[0] && !v[1]; }, "subtract"); else lang_is(r, RV{&a, &b}, [](const vector<bool> &v) { return v[0] && v[1]; }, "intersect");
	fsm_free(q);
}
// C08
static void p08(u64 i, Rng &g) {
	if (g.chance(40)) { GenOpt o; Ref r = unary(i, g, o); if (r.start < 0) return; say("empty? " + show(r)); bool e = !nonempty_lang(r); nontrivial(!e); struct fsm *f = build(r, AL()); int x = fsm_empty(f); CHECK(x == (e ? 1 : 0), "fsm_empty says %d, language is %s", x, e ? "empty" : "not empty"); CHECK(extract(f) == r, "operand changed: %s", show(extract(f)).c_str()); fsm_free(f); return; }
	auto ab = two(i, g, false); Ref a = ab.first, b = ab.second; if (a.n() > 12) return;
	if (g.chance(50)) { b = too_big(a, 60) ? a : det_ref(a); if (b.n() > 20) b = a; if (g.chance(50) && b.n()) { int z = g.below(b.n()); b.end[z] = !b.end[z]; } if (g.chance(30)) std::swap(a, b); }
	say("equal? A: " + show(a)); say("B: " + show(b)); if (too_big(a, 100) || too_big(b, 100)) return;
	RV v{&a, &b}; string why, wit; lockstep(v, [](const vector<View> &x) -> string { return x[0].acc != x[1].acc ? "d" : ""; }, why, wit); nontrivial(nonempty_lang(a) && nonempty_lang(b));
	struct fsm *x = build(a, AL()), *y = build(b, AL()); int e = fsm_equal(x, y), e2 = fsm_equal(y, x);
	CHECK(e == (why.empty() ? 1 : 0), "fsm_equal says %d but the languages %s (%s)", e, why.empty() ? "are equal" : "differ", quote(wit).c_str());
	CHECK(e2 == e, "not symmetric: %d then %d", e, e2); CHECK(extract(x) == a && extract(y) == b, "operand changed"); fsm_free(x); fsm_free(y);
}
static Ref rev_ref(const Ref &r) { Ref q; for (int k = 0; k < r.n(); k++) q.add(); for (int k = 0; k < r.n(); k++) { for (auto &p : r.e[k]) for (int t : p.second) q.e[t][p.first].insert(k); for (int t : r.eps[k]) q.eps[t].insert(k); } int s = q.add(); q.start = s; for (int k = 0; k < r.n(); k++) if (r.end[k]) q.eps[s].insert(k); if (r.start >= 0) q.end[r.start] = 1; return q; }
// C09
static void p09(u64 i, Rng &g) {
	GenOpt o; Ref r = unary(i, g, o); say("reverse of " + show(r)); nontrivial(nonempty_lang(r)); Ref w = rev_ref(r); if (too_big(r) || too_big(w)) return;
	struct fsm *f = build(r, AL()); CHECK(fsm_reverse(f) == 1, "errno %d", errno); Ref q = extract(f); lang_is(q, RV{&w}, id1, "reverse");
	if (g.chance(40)) { CHECK(fsm_reverse(f) == 1, "errno %d", errno); q = extract(f); if (!too_big(q)) lang_is(q, RV{&r}, id1, "double reverse"); } fsm_free(f);
}
static Ref restrict_ref(const Ref &r, const set<int> &keep, map<int, int> &m) { Ref q; for (int k = 0; k < r.n(); k++) if (keep.count(k)) m[k] = q.add(); for (auto &p : m) { int k = p.first, z = p.second; q.end[z] = r.end[k]; q.ids[z] = r.ids[k]; q.eager[z] = r.eager[k]; for (int t : r.eps[k]) if (m.count(t)) q.eps[z].insert(m[t]); for (auto &e : r.e[k]) for (int t : e.second) if (m.count(t)) q.e[z][e.first].insert(m[t]); } if (r.start >= 0 && m.count(r.start)) q.start = m[r.start]; return q; }
// C10
static void p10(u64 i, Rng &g) {
	GenOpt o; o.ids = true; o.eager = g.chance(20); Ref r = unary(i, g, o); int mode = g.below(2); bool sed = g.chance(60); say(fmt("trim mode %d (distances %d) of ", mode, sed) + show(r));
	set<int> a = reach(r), b = coreach(r), keep; for (int x : a) if (!mode || b.count(x)) keep.insert(x); nontrivial(!keep.empty() && (int)keep.size() < r.n());
	struct fsm *f = build(r, AL()); unsigned *d = nullptr; bool wd = sed && mode == 1;
	long n = fsm_trim(f, mode ? FSM_TRIM_START_AND_END_REACHABLE : FSM_TRIM_START_REACHABLE, wd ? &d : nullptr);
	CHECK(n == (long)(r.n() - keep.size()), "returned %ld, %d states are useless", n, (int)(r.n() - keep.size()));
	map<int, int> m; Ref want = restrict_ref(r, keep, m), got = extract(f); CHECK(got.n() == (int)keep.size(), "%d states kept, expected %zu", got.n(), keep.size());
	CHECK(got == want, "kept machine differs: %s  expected: %s", show(got).c_str(), show(want).c_str());
	if (wd && got.n()) { CHECK(d != nullptr, "no distances"); vector<long> dist(want.n(), -1); vector<int> q; for (int k = 0; k < want.n(); k++) if (want.end[k]) { dist[k] = 0; q.push_back(k); }
		for (size_t h = 0; h < q.size(); h++) for (int k = 0; k < want.n(); k++) if (dist[k] < 0) { bool e = want.eps[k].count(q[h]) > 0; for (auto &p : want.e[k]) e |= p.second.count(q[h]) > 0; if (e) { dist[k] = dist[q[h]] + 1; q.push_back(k); } }
		for (int k = 0; k < want.n(); k++) CHECK((long)d[k] == dist[k], "distance of state %d (after trimming) is %u, expected %ld", k, d[k], dist[k]); }
	if (d) AL()->free(AL()->opaque, d);
	fsm_free(f);
}
struct Feed { const string *s; size_t pos; size_t calls; };
static int feed(void *o) { Feed *f = (Feed *)o; f->calls++; if (f->pos >= f->s->size()) return EOF; return (u8)(*f->s)[f->pos++]; }
static string word(Rng &g, const Ref &r, int maxl) { // biased to follow edges
	string w; int l = g.below(maxl + 1); set<int> cur; if (r.start >= 0) cur.insert(r.start);
	for (int k = 0; k < l; k++) { vector<u8> opts; for (int x : cur) for (auto &p : r.e[x]) opts.push_back(p.first); u8 c = !opts.empty() && g.chance(92) ? opts[g.below((unsigned)opts.size())] : (u8)g.below(256); w += (char)c; set<int> nx; for (int x : cur) { auto it = r.e[x].find(c); if (it != r.e[x].end()) nx.insert(it->second.begin(), it->second.end()); } cur = nx; }
	return w;
}
// C11
static void p11(u64 i, Rng &g) {
	GenOpt o; o.dfa = !g.chance(10); o.nostart = true; Ref r = gen(g, o); say("exec of " + show(r)); struct fsm *f = build(r, AL());
	bool dfa = !r.nondet();
	for (int k = 0; k < 6; k++) {
		string w = word(g, r, 12); say("input " + quote(w)); fsm_state_t end = 12345; Feed fd{&w, 0, 0};
		int rc = fsm_exec(f, feed, &fd, &end, nullptr);
		if (!dfa) { CHECK(rc == -1, "non-deterministic or startless machine: returned %d", rc); continue; }
		int s = r.start; size_t used = 0; bool dead = false; for (char c : w) { used++; auto it = r.e[s].find((u8)c); if (it == r.e[s].end()) { dead = true; break; } s = *it->second.begin(); }
		bool acc = !dead && r.end[s]; CHECK(rc == (acc ? 1 : 0), "returned %d, machine %s the input", rc, acc ? "accepts" : "rejects"); if (acc) { CHECK(end == (fsm_state_t)s, "end state %u, expected %d", end, s); nontrivial(true); }
		CHECK(fd.calls <= used + (dead ? 0 : 1), "%zu bytes requested, %zu needed", fd.calls, used + (dead ? 0 : 1));
		if (w.find('\0') == string::npos) { const char *p = w.c_str(); end = 1; int r2 = fsm_exec(f, fsm_sgetc, &p, &end, nullptr); CHECK(r2 == rc, "string reader: returned %d, byte reader %d", r2, rc); }
	}
	CHECK(extract(f) == r, "machine changed"); fsm_free(f);
}
struct Walk { int n; int stop; vector<int> seen; };
static int wcb(const struct fsm *, fsm_state_t s, void *o) { Walk *w = (Walk *)o; w->seen.push_back((int)s); return (int)w->seen.size() != w->stop; }
static const Ref *PR; static unsigned PM; static int pmask(const struct fsm *, fsm_state_t s) { return (PM >> (s % 32)) & 1; }
// C12
static void p12(u64 i, Rng &g) {
	GenOpt o; o.ids = false; Ref r = unary(i, g, o); say("predicates on " + show(r)); nontrivial(r.n() > 1); struct fsm *f = build(r, AL());
	CHECK(extract(f) == r, "walk does not report the graph built: %s", show(extract(f)).c_str());
	unsigned long ne = 0; vector<bool> inc(r.n()); for (int k = 0; k < r.n(); k++) { ne += 0; for (auto &p : r.e[k]) for (int t : p.second) { ne++; inc[t] = true; } for (int t : r.eps[k]) inc[t] = true; }
	CHECK(fsm_countstates(f) == (unsigned)r.n(), "%u", fsm_countstates(f)); CHECK(fsm_countedges(f) == ne, "fsm_countedges %u, expected %lu", fsm_countedges(f), ne);
	auto clo = closures(r);
	for (int k = 0; k < r.n(); k++) {
		bool det = true; for (auto &p : r.e[k]) if (p.second.size() > 1) det = false;
		CHECK(!!fsm_isend(f, k) == !!r.end[k], "state %d", k); CHECK(!!fsm_isdfa(f, k) == (r.start >= 0 && r.eps[k].empty() && det), "isdfa state %d", k);
		CHECK(!!fsm_iscomplete(f, k) == (r.e[k].size() == 256), "iscomplete state %d", k); CHECK(!!fsm_hasepsilons(f, k) == !r.eps[k].empty(), "hasepsilons state %d", k);
		CHECK(!!fsm_hasincoming(f, k) == inc[k], "hasincoming state %d", k); CHECK(!!fsm_hasoutgoing(f, k) == (!r.eps[k].empty() || !r.e[k].empty()), "hasoutgoing state %d", k);
		CHECK(!!fsm_epsilonsonly(f, k) == (!r.eps[k].empty() && r.e[k].empty()), "epsilonsonly state %d", k); CHECK(fsm_isany(f, k) == 1, "isany");
		{ bool nd = false; set<u8> seen; for (int x : clo[k]) for (auto &p : r.e[x]) { if (p.second.size() > 1 || seen.count(p.first)) nd = true; seen.insert(p.first); } CHECK(!!fsm_hasnondeterminism(f, k) == nd, "hasnondeterminism state %d", k); }
		map<int, unsigned> fr; for (auto &p : r.e[k]) for (int t : p.second) fr[t]++; unsigned best = 0; for (auto &p : fr) best = std::max(best, p.second);
		if (best > 1) { unsigned q = 0; fsm_state_t m = fsm_findmode(f, k, &q); CHECK(q == best && fr[(int)m] == best, "findmode of state %d: state %u frequency %u, best frequency %u", k, m, q, best); }
	}
	PM = (unsigned)g.next(); if (g.chance(30)) PM = g.chance(50) ? 0 : ~0u; unsigned c = 0; for (int k = 0; k < r.n(); k++) c += (PM >> (k % 32)) & 1; say(fmt("mask %08x", PM));
	CHECK(fsm_count(f, pmask) == c, "%u vs %u", fsm_count(f, pmask), c); CHECK(!!fsm_has(f, pmask) == (c > 0), "has"); CHECK(!!fsm_all(f, pmask) == (c == (unsigned)r.n()), "all");
	for (int k = 0; k < r.n() && k < 6; k++) { Ref x = r; x.start = k; bool all = true, any = false; for (int t : reach(x)) { bool b = (PM >> (t % 32)) & 1; all &= b; any |= b; } int ra = fsm_reachableall(f, k, pmask), rb = fsm_reachableany(f, k, pmask); CHECK(ra == all, "reachableall from %d: %d", k, ra); CHECK(rb == any, "reachableany from %d: %d", k, rb); }
	Walk w{r.n(), -1, {}}; CHECK(fsm_walk_states(f, &w, wcb) == 1, "walk"); CHECK((int)w.seen.size() == r.n(), "visited %zu", w.seen.size()); set<int> u(w.seen.begin(), w.seen.end()); CHECK((int)u.size() == r.n(), "state visited twice");
	if (r.n()) { int st = g.range(1, r.n()); Walk v{r.n(), st, {}}; CHECK(fsm_walk_states(f, &v, wcb) == 0, "early stop"); CHECK((int)v.seen.size() == st, "visited %zu after stop at %d", v.seen.size(), st); }
	CHECK(extract(f) == r, "machine changed"); fsm_free(f);
}
static void mutate(struct fsm *f, Ref &r, Rng &g) { // one random edit applied to both
	int n = r.n(); int op = g.below(9);
	if (n == 0 || op == 0) { fsm_state_t s; CHECK(fsm_addstate(f, &s) && (int)s == n, "addstate"); r.add(); say(fmt("addstate -> %d", n)); return; }
	int a = g.below(n), b = g.below(n);
	switch (op) {
	case 1: { u8 c = (u8)(g.chance(60) ? 'a' + g.below(3) : g.below(256)); say(fmt("addedge %d -%02x-> %d", a, c, b)); CHECK(fsm_addedge_literal(f, a, b, (char)c), "addedge"); r.e[a][c].insert(b); break; }
	case 2: say(fmt("addepsilon %d -> %d", a, b)); CHECK(fsm_addedge_epsilon(f, a, b), "epsilon"); r.eps[a].insert(b); break;
	case 3: { int v = g.below(4); static const int tv[] = {1, 2, -1, 0x100}; say(fmt("setend %d %d", a, tv[v])); fsm_setend(f, a, tv[v]); if (!r.end[a]) r.end[a] = 1; break; }
	case 4: if (r.ids[a].empty()) { say(fmt("setend %d 0", a)); fsm_setend(f, a, 0); r.end[a] = 0; } break;
	case 5: if (r.end[a]) { unsigned id = g.below(20); say(fmt("endid_set %d %u", a, id)); CHECK(fsm_endid_set(f, a, id), "endid"); r.ids[a].insert(id); } break;
	case 6: say(fmt("setstart %d", a)); fsm_setstart(f, a); r.start = a; break;
	case 7: { unsigned id = g.below(9); say(fmt("eager_output_set %d %u", a, id)); CHECK(fsm_eager_output_set(f, a, id), "eager"); r.eager[a].insert(id); break; }
	case 8: say(fmt("addedge_any %d -> %d", a, b)); CHECK(fsm_addedge_any(f, a, b), "any"); for (int c = 0; c < 256; c++) r.e[a][(u8)c].insert(b); break;
	}
}
// C13
static void p13(u64 i, Rng &g) {
	GenOpt o; o.ids = true; o.eager = true; Ref r = unary(i, g, o), x = r; say("clone of " + show(r)); nontrivial(r.n() > 1);
	struct fsm *f = build(r, AL()); struct fsm *q = fsm_clone(f); CHECK(q, "errno %d", errno); CHECK(extract(q) == r, "clone differs: %s", show(extract(q)).c_str()); CHECK(extract(f) == r, "original changed");
	int k = g.below(12); say("edits to the original:"); for (int j = 0; j < k; j++) mutate(f, r, g); say("edits to the clone:"); k = g.below(12); for (int j = 0; j < k; j++) mutate(q, x, g);
	CHECK(extract(q) == x, "clone is %s, expected %s", show(extract(q)).c_str(), show(x).c_str()); CHECK(extract(f) == r, "original is %s, expected %s", show(extract(f)).c_str(), show(r).c_str());
	if (g.chance(50)) { fsm_free(f); CHECK(extract(q) == x, "clone changed by freeing the original"); fsm_free(q); } else { fsm_free(q); CHECK(extract(f) == r, "original changed by freeing the clone"); fsm_free(f); }
}
static const set<int> *KEEP; static int keepf(fsm_state_t s, void *o) { return ((const set<int> *)o)->count((int)s) > 0; }
static Ref remove_ref(const Ref &r, int s) { // swap-with-last removal
	int l = r.n() - 1; Ref q; for (int k = 0; k < l; k++) q.add(); auto m = [&](int x) { return x == l ? s : x; };
	for (int k = 0; k <= l; k++) if (k != s) { int z = m(k); q.end[z] = r.end[k]; q.ids[z] = r.ids[k]; q.eager[z] = r.eager[k]; for (int t : r.eps[k]) if (t != s) q.eps[z].insert(m(t)); for (auto &p : r.e[k]) for (int t : p.second) if (t != s) q.e[z][p.first].insert(m(t)); }
	q.start = r.start < 0 || r.start == s ? -1 : m(r.start); return q;
}
// is q equal to want up to state renumbering, given language-level and count checks? exact search for small n
static bool iso(const Ref &a, const Ref &b) {
	if (a.n() != b.n()) return false; int n = a.n(); vector<int> m(n, -1), inv(n, -1);
	auto sig = [](const Ref &r, int k) { size_t e = 0; for (auto &p : r.e[k]) e += p.second.size(); return std::make_tuple((int)r.end[k], r.ids[k], r.eager[k], r.eps[k].size(), r.e[k].size(), e, r.start == k); };
	std::function<bool(int)> go = [&](int k) -> bool {
		if (k == n) { for (int x = 0; x < n; x++) { set<int> e; for (int t : a.eps[x]) e.insert(m[t]); if (e != b.eps[m[x]]) return false; map<u8, set<int>> q; for (auto &p : a.e[x]) for (int t : p.second) q[p.first].insert(m[t]); if (q != b.e[m[x]]) return false; } return true; }
		for (int t = 0; t < n; t++) if (inv[t] < 0 && sig(a, k) == sig(b, t)) { m[k] = t; inv[t] = k; if (go(k + 1)) return true; inv[t] = -1; } return false; };
	return go(0);
}
// C14
static void p14(u64 i, Rng &g) {
	GenOpt o; o.ids = false; o.maxn = 9; Ref r = unary(i, g, o); int op = g.below(6); nontrivial(r.n() > 2);
	if (op == 0) { // removal
		struct fsm *f = build(r, AL()); say("remove states from " + show(r)); int k = g.range(1, 4);
		while (k-- && r.n()) { int s = g.below(r.n()); say(fmt("removestate %d", s)); CHECK(fsm_removestate(f, s), "errno %d", errno); Ref w = remove_ref(r, s), q = extract(f);
			if (!(q == w)) { bool ok = false; if (q.n() <= 6) ok = iso(q, w); CHECK(ok, "after removal: %s  expected (up to renumbering): %s", show(q).c_str(), show(w).c_str()); } r = q; CHECK(!!fsm_has(f, fsm_isend) == [&] { for (char e : r.end) if (e) return true; return false; }(), "end count");
			int e = g.below(3); for (int z = 0; z < e; z++) mutate(f, r, g); CHECK(extract(f) == r, "after edits: %s expected %s", show(extract(f)).c_str(), show(r).c_str()); }
		fsm_free(f);
	} else if (op == 1) { // compaction
		GenOpt o2; o2.ids = true; o2.eager = g.chance(50); if (!g.chance(20)) r = gen(g, o2); set<int> keep; unsigned pct = g.range(10, 95); for (int k = 0; k < r.n(); k++) if (g.chance(pct)) keep.insert(k); string ks; for (int k : keep) ks += fmt(" %d", k); say("compact keeping" + ks + " of " + show(r));
		struct fsm *f = build(r, AL()); size_t rem = 777; CHECK(fsm_compact_states(f, keepf, &keep, &rem), "errno %d", errno); map<int, int> m; Ref w = restrict_ref(r, keep, m), q = extract(f); CHECK(rem == r.n() - keep.size(), "removed %zu", rem); CHECK(q == w, "after compaction: %s  expected: %s", show(q).c_str(), show(w).c_str());
		for (int z = 0; z < 4; z++) mutate(f, q, g); CHECK(extract(f) == q, "after edits: %s expected %s", show(extract(f)).c_str(), show(q).c_str()); fsm_free(f);
	} else if (op == 2) { // merge two states
		if (r.n() < 2) return; int a = g.below(r.n()), b = g.below(r.n()); if (a == b) return; say(fmt("mergestates %d %d of ", a, b) + show(r));
		struct fsm *f = build(r, AL()); fsm_state_t q = 999; CHECK(fsm_mergestates(f, a, b, &q), "errno %d", errno);
		Ref w = r; auto mm = [&](int x) { return x == b ? a : x; }; w = Ref(); for (int k = 0; k < r.n(); k++) w.add(); for (int k = 0; k < r.n(); k++) { int z = mm(k); w.end[z] |= r.end[k]; for (int t : r.eps[k]) w.eps[z].insert(mm(t)); for (auto &p : r.e[k]) for (int t : p.second) w.e[z][p.first].insert(mm(t)); } w.start = r.start < 0 ? -1 : mm(r.start); w = remove_ref(w, b);
		Ref z = extract(f); CHECK(z.n() == w.n(), "%d states, expected %d", z.n(), w.n()); CHECK((int)q < z.n(), "merged state %u out of range", q);
		auto norm = [](Ref x) { for (int k = 0; k < x.n(); k++) x.eps[k].erase(k); return x; }; // an empty self-move is immaterial
		CHECK(z.n() > 7 || iso(norm(z), norm(w)), "after merging: %s  expected (up to renumbering): %s", show(z).c_str(), show(w).c_str()); CHECK((z.start >= 0) == (w.start >= 0), "start state lost"); if (!too_big(z)) lang_is(z, RV{&w}, id1, "mergestates"); fsm_free(f);
	} else if (op == 3) { // vacuum / shuffle
		GenOpt o2; o2.ids = true; o2.eager = g.chance(40); o2.maxn = 20; r = gen(g, o2); if (!r.n() || too_big(r)) return; bool v = g.chance(30); unsigned sd = (unsigned)g.next(); say(fmt(v ? "vacuum of " : "shuffle(%u) of ", sd) + show(r)); struct fsm *f = build(r, AL());
		if (v) { CHECK(fsm_vacuum(f), "errno %d", errno); Ref q = extract(f); CHECK(q == r, "vacuum changed the machine: %s", show(q).c_str()); for (int z = 0; z < 4; z++) mutate(f, q, g); CHECK(extract(f) == q, "after edits"); }
		else { CHECK(fsm_shuffle(f, sd), "errno %d", errno); Ref q = extract(f); CHECK(q.n() == r.n(), "%d states", q.n()); lang_is(q, RV{&r}, id1, "shuffle", idsum, true); if (q.n() <= 6) CHECK(iso(q, r), "shuffle is not a renumbering: %s", show(q).c_str()); }
		fsm_free(f);
	} else { // edit histories incl. bulk
		struct fsm *f = fsm_new_statealloc(AL(), g.below(5)); CHECK(f, "new"); Ref x; int k = g.range(5, 60); for (int j = 0; j < k; j++) { int z = g.below(20); if (z == 0) { unsigned c = g.below(12); say(fmt("addstate_bulk %u", c)); CHECK(fsm_addstate_bulk(f, c), "bulk"); while (c--) x.add(); } else if (z == 1 && x.n() && !x.hasids()) { int s = g.below(x.n()); bool eg = false; for (auto &q : x.eager) eg |= !q.empty(); if (eg) continue; say(fmt("removestate %d", s)); CHECK(fsm_removestate(f, s), "remove"); Ref w = remove_ref(x, s), q = extract(f); CHECK(q == w || (q.n() == w.n() && (q.n() > 6 || iso(q, w))), "after removal: %s expected %s", show(q).c_str(), show(w).c_str()); x = q; } else mutate(f, x, g); }
		Ref q = extract(f); CHECK(q == x, "after edits: %s  expected: %s", show(q).c_str(), show(x).c_str()); fsm_free(f); nontrivial(true);
	}
}
// C15
static void p15(u64 i, Rng &g) {
	if (i < 8) { // many states: numbers that do not fit a short
		static const unsigned sizes[] = {70000, 66000, 65537, 131073, 300, 65536, 257, 200000}; unsigned n = sizes[i], c = 0; struct fsm *f = fsm_new(AL()); CHECK(f, "new"); say(fmt("addstate_bulk %u", n)); CHECK(fsm_addstate_bulk(f, n), "bulk"); nontrivial(true); CHECK(fsm_countstates(f) == n, "%u states", fsm_countstates(f));
		vector<char> e(n); fsm_state_t s; CHECK(!fsm_getstart(f, &s), "a new machine has a start state");
		for (int j = 0; j < 300; j++) { unsigned k = g.chance(50) ? n - 1 - g.below(n / 2) : g.below(n); if (g.chance(30)) { say(fmt("setstart %u", k)); fsm_setstart(f, k); s = 0; CHECK(fsm_getstart(f, &s) && s == k, "start is %u", s); } else { int v = g.chance(70); if (v && g.chance(40)) v = 1 << g.below(31); say(fmt("setend %u %d", k, v)); fsm_setend(f, k, v); c += (v != 0) - e[k]; e[k] = v != 0; CHECK(!!fsm_isend(f, k) == (v != 0), "accepting status of %u", k); } CHECK(fsm_count(f, fsm_isend) == c && !!fsm_has(f, fsm_isend) == (c > 0), "count %u expected %u", fsm_count(f, fsm_isend), c); }
		for (unsigned k = 0; k < n; k++) CHECK(!!fsm_isend(f, k) == !!e[k], "accepting status of %u", k);
		fsm_setend(f, n - 1, 1); unsigned m = c + !e[n - 1]; e[n - 1] = 1; unsigned st = n - 2; fsm_setstart(f, st); struct fsm *h = fsm_clone(f); CHECK(h && fsm_getstart(h, &s) && s == st && fsm_count(h, fsm_isend) == m, "clone: start %u, %u accepting, expected %u, %u", s, h ? fsm_count(h, fsm_isend) : 0, st, m); fsm_free(h);
		if (n > 2) { say("removestate 0"); CHECK(fsm_removestate(f, 0), "remove"); m -= e[0]; CHECK(fsm_countstates(f) == n - 1 && fsm_count(f, fsm_isend) == m, "after removal: %u accepting, expected %u", fsm_count(f, fsm_isend), m); CHECK(fsm_getstart(f, &s), "start lost"); }
		fsm_clearstart(f); CHECK(!fsm_getstart(f, &s), "start not cleared"); fsm_free(f); return; }
	struct fsm *f = fsm_new(AL()); Ref r; int k = g.range(3, 60); nontrivial(true);
	for (int j = 0; j < k; j++) {
		int op = g.below(12), n = r.n();
		if (!n || op == 0) { fsm_state_t s; CHECK(fsm_addstate(f, &s) && (int)s == n, "addstate"); r.add(); say("addstate"); }
		else if (op == 1) { unsigned c = g.below(9); say(fmt("addstate_bulk %u", c)); CHECK(fsm_addstate_bulk(f, c), "bulk"); while (c--) r.add(); }
		else if (op < 6) { static const int tv[] = {0, 1, 1, 2, 3, -1, 256, 0x7fffffff, (int)0x80000000, 4, 0}; int v = tv[g.below(11)], s = g.below(n); say(fmt("setend %d %d", s, v)); fsm_setend(f, s, v); r.end[s] = v != 0; }
		else if (op == 6) { int s = g.below(n); say(fmt("setstart %d", s)); fsm_setstart(f, s); r.start = s; }
		else if (op == 7) { say("clearstart"); fsm_clearstart(f); r.start = -1; }
		else if (op == 8) { int s = g.below(n); say(fmt("removestate %d", s)); CHECK(fsm_removestate(f, s), "remove"); r = remove_ref(r, s); }
		else if (op == 9) { set<int> keep; for (int z = 0; z < n; z++) if (g.chance(70)) keep.insert(z); string ks; for (int z : keep) ks += fmt(" %d", z); say("compact keeping" + ks); CHECK(fsm_compact_states(f, keepf, &keep, nullptr), "compact"); map<int, int> m; r = restrict_ref(r, keep, m); }
		else if (op == 10) { struct fsm *c = fsm_clone(f); CHECK(c, "clone"); say("replace by clone"); fsm_free(f); f = c; }
		else { Ref b; b.add(); b.end[0] = g.chance(50); b.add(); b.end[1] = g.chance(50); struct fsm *h = build(b, AL()); struct fsm_combine_info ci; say(fmt("merge with 2-state machine, ends %d %d", b.end[0], b.end[1])); f = fsm_merge(f, h, &ci); CHECK(f, "merge"); Ref q; for (int z = 0; z < n + 2; z++) q.add(); CHECK((int)ci.base_a + n <= n + 2 && (int)ci.base_b + 2 <= n + 2 && (n == 0 || ci.base_a == 0 || ci.base_a == 2), "bases %u %u", ci.base_a, ci.base_b); for (int z = 0; z < n; z++) q.end[z + ci.base_a] = r.end[z]; for (int z = 0; z < 2; z++) q.end[z + ci.base_b] = b.end[z]; r = q; fsm_state_t ss; CHECK(!fsm_getstart(f, &ss), "merged machine has a start state"); }
		Ref q = extract(f); CHECK(q == r, "step %d: machine is %s, expected %s", j, show(q).c_str(), show(r).c_str());
		unsigned c = 0; for (char e : r.end) c += e ? 1 : 0; CHECK(fsm_count(f, fsm_isend) == c, "count %u expected %u", fsm_count(f, fsm_isend), c); CHECK(!!fsm_has(f, fsm_isend) == (c > 0), "fsm_has(isend) with %u accepting states", c);
	}
	if (r.start >= 0 && g.chance(60)) { unsigned c = 0; for (char e : r.end) c += e ? 1 : 0; say("reverse"); CHECK(fsm_reverse(f), "reverse, errno %d", errno); Ref w = extract(f); CHECK(nonempty_lang(w) == nonempty_lang(r), "reversal of a machine with %u accepting states has the wrong emptiness: %s", c, show(w).c_str()); }
	fsm_free(f);
}
// C19: chains of preserving operations
static void p19(u64 i, Rng &g) {
	GenOpt o; o.ids = true; o.nostart = false; o.maxn = 12; Ref r = unary(i, g, o); if (r.start < 0 && r.n()) r.start = 0; if (!r.n() || too_big(r, 150)) return; say("chain from " + show(r)); nontrivial(r.hasids() && nonempty_lang(r));
	struct fsm *f = build(r, AL()); Ref want = r; int k = g.range(1, 4);
	for (int j = 0; j < k; j++) {
		int op = g.below(9);
		switch (op) {
		case 0: say("clone"); { struct fsm *c = fsm_clone(f); CHECK(c, "clone"); fsm_free(f); f = c; } break;
		case 1: say("determinise"); CHECK(fsm_determinise(f), "det"); break;
		case 2: say("determinise+minimise"); CHECK(fsm_determinise(f), "det"); CHECK(fsm_minimise(f), "min"); break;
		case 3: say("remove_epsilons"); CHECK(fsm_remove_epsilons(f), "eps"); break;
		case 4: say("trim"); { if (!nonempty_lang(want)) break; CHECK(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, nullptr) >= 0, "trim"); } break;
		case 5: say("trim start"); CHECK(fsm_trim(f, FSM_TRIM_START_REACHABLE, nullptr) >= 0, "trim"); break;
		case 6: case 7: { GenOpt p; p.ids = true; p.nostart = false; p.maxn = 5; p.shared_alpha = true; Ref b = gen(g, p); if (!b.n() || too_big(b, 50)) break; fsm_state_t dummy; if (!fsm_getstart(f, &dummy)) break; bool rev = g.chance(50); say(string(rev ? "union (as second operand) with " : "union with ") + show(b)); struct fsm *h = build(b, AL()); f = rev ? fsm_union(h, f, nullptr) : fsm_union(f, h, nullptr); CHECK(f, "union"); Ref w; for (int z = 0; z < want.n() + b.n(); z++) w.add(); for (int z = 0; z < want.n(); z++) { w.e[z] = want.e[z]; w.eps[z] = want.eps[z]; w.end[z] = want.end[z]; w.ids[z] = want.ids[z]; } int base = want.n(); for (int z = 0; z < b.n(); z++) { for (auto &e : b.e[z]) for (int t : e.second) w.e[z + base][e.first].insert(t + base); for (int t : b.eps[z]) w.eps[z + base].insert(t + base); w.end[z + base] = b.end[z]; w.ids[z + base] = b.ids[z]; } int s = w.add(); w.eps[s] = {want.start, b.start + base}; w.start = s; want = w; break; }
		case 8: say("vacuum"); CHECK(fsm_vacuum(f), "vacuum"); break;
		}
		Ref q = extract(f); if (q.n() > 200) break; lang_is(q, RV{&want}, id1, fmt("after step %d", j + 1).c_str(), idsum);
	}
	fsm_free(f);
}
// C27
static void p27(u64 i, Rng &g) {
	GenOpt o; o.ids = true; o.eager = true; o.nostart = false; o.maxn = 10; Ref r = unary(i, g, o); if (r.start < 0 && r.n()) r.start = 0; if (!r.n() || too_big(r, 150)) return; if (i < 500) for (int k = 0; k < r.n(); k++) if (g.chance(60)) r.eager[k].insert(k); { auto co = coreach(r); for (int k = 0; k < r.n(); k++) if (!co.count(k)) r.eager[k].clear(); } say("outputs chain from " + show(r)); bool any = false; for (auto &e : r.eager) any |= !e.empty(); nontrivial(any && nonempty_lang(r));
	struct fsm *f = build(r, AL()); CHECK(extract(f) == r, "outputs as attached: %s", show(extract(f)).c_str());
	for (int s = 0; s < r.n(); s++) { CHECK(fsm_eager_output_count(f, s) == r.eager[s].size(), "count of state %d", s); if (r.eager[s].size() > 0) { vector<fsm_output_id_t> b(r.eager[s].size()); CHECK(!fsm_eager_output_get(f, s, b.size() - 1, b.data()), "too-small buffer accepted"); } }
	int k = g.range(1, 3); Ref want = r;
	for (int j = 0; j < k; j++) {
		int op = g.below(6);
		switch (op) {
		case 0: say("clone"); { struct fsm *c = fsm_clone(f); CHECK(c, "clone"); fsm_free(f); f = c; } break;
		case 1: say("determinise"); CHECK(fsm_determinise(f), "det"); break;
		case 2: say("determinise+minimise"); CHECK(fsm_determinise(f), "det"); CHECK(fsm_minimise(f), "min"); break;
		case 3: say("remove_epsilons"); CHECK(fsm_remove_epsilons(f), "eps"); break;
		case 4: say("trim"); { if (!nonempty_lang(want)) break; CHECK(fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, nullptr) >= 0, "trim"); } break;
		case 5: { GenOpt p; p.eager = true; p.nostart = false; p.maxn = 4; p.shared_alpha = true; Ref b = gen(g, p); { auto co = coreach(b); for (int k = 0; k < b.n(); k++) if (!co.count(k)) b.eager[k].clear(); } if (!b.n() || too_big(b, 50)) break; fsm_state_t dummy; if (!fsm_getstart(f, &dummy)) break; say("union with " + show(b)); f = fsm_union(f, build(b, AL()), nullptr); CHECK(f, "union"); Ref w; int base = want.n(); for (int z = 0; z < base + b.n(); z++) w.add(); for (int z = 0; z < base; z++) { w.e[z] = want.e[z]; w.eps[z] = want.eps[z]; w.end[z] = want.end[z]; w.ids[z] = want.ids[z]; w.eager[z] = want.eager[z]; } for (int z = 0; z < b.n(); z++) { for (auto &e : b.e[z]) for (int t : e.second) w.e[z + base][e.first].insert(t + base); for (int t : b.eps[z]) w.eps[z + base].insert(t + base); w.end[z + base] = b.end[z]; w.eager[z + base] = b.eager[z]; } int s = w.add(); w.eps[s] = {want.start, b.start + base}; w.start = s; want = w; break; }
		}
		Ref q = extract(f); if (q.n() > 200) break; lang_is(q, RV{&want}, id1, fmt("after step %d", j + 1).c_str(), nullptr, true);
	}
	{ // emission during execution
		if (fsm_determinise(f)) { Ref q = extract(f); struct E { set<unsigned> s; } e; fsm_eager_output_set_cb(f, [](fsm_output_id_t id, void *o) { ((E *)o)->s.insert(id); }, &e); for (int t = 0; t < 3; t++) { string w = word(g, q, 8); say("exec " + quote(w)); e.s.clear(); Feed fd{&w, 0, 0}; fsm_state_t en; int rc = fsm_exec(f, feed, &fd, &en, nullptr); set<unsigned> outs; bool acc = accepts(want, w, nullptr, &outs); if (q.start < 0) continue; CHECK(rc == (acc ? 1 : 0), "exec %d", rc); if (acc) CHECK(e.s == outs, "callback reported %zu ids, expected %zu", e.s.size(), outs.size()); } } }
	fsm_free(f);
}
// C34
static void p34(u64 i, Rng &g) {
	if (g.chance(50)) { GenOpt o; o.dfa = true; o.nostart = false; o.maxn = 22; Ref r = gen(g, o); if (!r.n()) return; string cs; int k = g.below(5); for (int j = 0; j < k; j++) { if (g.chance(70) && !r.e[0].empty()) { auto it = r.e[0].begin(); std::advance(it, g.below((unsigned)r.e[0].size())); cs += (char)it->first; } else cs += (char)g.below(256); } say("restrict to bytes " + quote(cs) + " of " + show(r)); nontrivial(nonempty_lang(r) && k);
		Ref w = r; for (int s = 0; s < w.n(); s++) for (auto it = w.e[s].begin(); it != w.e[s].end();) if (cs.find((char)it->first) == string::npos) it = w.e[s].erase(it); else ++it;
		bool nul = g.chance(5); struct fsm *f = fsm_intersect_charset(build(r, AL()), cs.size(), nul ? nullptr : cs.data()); CHECK(f, "errno %d", errno); Ref q = extract(f); lang_is(q, RV{nul ? &r : &w}, id1, "intersect_charset"); fsm_free(f); return; }
	GenOpt o; o.maxn = 12; Ref r = gen(g, o); if (r.n() < 1) return; struct fsm_subgraph sg; sg.start = g.below(r.n()); sg.end = g.range(sg.start + 1, r.n()); fsm_state_t x = g.range(sg.start, sg.end - 1), x0 = x, q = 9999; bool wx = g.chance(60); say(fmt("duplicate states %u..%u of ", sg.start, sg.end - 1) + show(r)); nontrivial(sg.end - sg.start > 1);
	struct fsm *f = build(r, AL()); CHECK(fsm_subgraph_duplicate(f, &sg, wx ? &x : nullptr, &q), "errno %d", errno); Ref w = r; int base = r.n(), len = sg.end - sg.start; for (int k = 0; k < len; k++) w.add(); for (int k = 0; k < len; k++) { int s = sg.start + k; w.end[base + k] = r.end[s]; for (int t : r.eps[s]) if (t >= (int)sg.start && t < (int)sg.end) w.eps[base + k].insert(t - sg.start + base); for (auto &p : r.e[s]) for (int t : p.second) if (t >= (int)sg.start && t < (int)sg.end) w.e[base + k][p.first].insert(t - sg.start + base); }
	Ref z = extract(f); CHECK(z == w, "result %s expected %s", show(z).c_str(), show(w).c_str()); CHECK((int)q == base, "start of copy %u", q); if (wx) CHECK(x == x0 - sg.start + base, "tracked state %u", x); fsm_free(f);
}
Prop ops_props[] = { {"C01", p01, 200000}, {"C02", p02, 160000}, {"C03", p03, 200000}, {"C04", p04, 120000}, {"C05", p05, 120000}, {"C06", p06, 60000}, {"C07", p07, 80000}, {"C08", p08, 60000}, {"C09", p09, 160000}, {"C10", p10, 200000}, {"C11", p11, 200000}, {"C12", p12, 120000}, {"C13", p13, 120000}, {"C14", p14, 160000}, {"C15", p15, 60000}, {"C19", p19, 60000}, {"C27", p27, 60000}, {"C34", p34, 120000}, {nullptr, nullptr, 0} };
