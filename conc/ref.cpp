#include "ref.hpp"
#include <cstdarg>
Ctx C;
string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
void say(const string &s) { C.desc += s; C.desc += "\n"; }
static string jstr(const string &s) {
	string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += c; }
	return o + "\"";
}
void fail(const string &why) { if (C.soft) { jmp_buf *j = C.soft; C.soft = nullptr; longjmp(*j, 1); } hardfail(why); }
void hardfail(const string &why) {
	printf("FAIL {\"property\":%s,\"seed\":%llu,\"index\":%llu,\"why\":%s,\"input\":%s}\n", jstr(C.prop).c_str(), (unsigned long long)C.seed,
		(unsigned long long)C.index, jstr(why).c_str(), jstr(C.desc.substr(0, 20000)).c_str());
	fflush(stdout); _exit(1);
}
string quote(const string &s) { string o = "\""; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; else o += fmt("\\x%02x", c); } return o + "\""; }

string show(const Ref &r) {
	string s = fmt("states=%d start=%d ends={", r.n(), r.start);
	for (int i = 0; i < r.n(); i++) if (r.end[i]) { s += fmt(" %d", i); if (!r.ids[i].empty()) { s += "["; for (unsigned k : r.ids[i]) s += fmt("#%u", k); s += "]"; } }
	s += " }";
	for (int i = 0; i < r.n(); i++) if (!r.eager[i].empty()) { s += fmt(" eager(%d)=", i); for (unsigned k : r.eager[i]) s += fmt("%u,", k); }
	for (int i = 0; i < r.n(); i++) {
		for (int t : r.eps[i]) s += fmt(" %d-eps->%d", i, t);
		// compress runs
		map<set<int>, vector<int>> inv;
		for (auto &p : r.e[i]) inv[p.second].push_back(p.first);
		for (auto &p : inv) {
			string l;
			auto &v = p.second;
			for (size_t k = 0; k < v.size();) { size_t j = k; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++; l += j > k ? fmt("[%02x-%02x]", v[k], v[j]) : fmt("[%02x]", v[k]); k = j + 1; }
			for (int t : p.first) s += fmt(" %d-%s->%d", i, l.c_str(), t);
		}
	}
	return s;
}

static void *c_malloc(void *o, size_t n) { auto *s = (AllocStats *)o; if (s->failat >= 0 && s->total++ == s->failat) { s->failed = true; errno = ENOMEM; return nullptr; } void *p = malloc(n); if (p) s->live++; return p; }
static void *c_calloc(void *o, size_t n, size_t z) { auto *s = (AllocStats *)o; if (s->failat >= 0 && s->total++ == s->failat) { s->failed = true; errno = ENOMEM; return nullptr; } void *p = calloc(n, z); if (p) s->live++; return p; }
static void *c_realloc(void *o, void *q, size_t n) { auto *s = (AllocStats *)o; if (s->failat >= 0 && s->total++ == s->failat) { s->failed = true; errno = ENOMEM; return nullptr; } void *p = realloc(q, n); if (p && !q) s->live++; return p; }
static void c_free(void *o, void *p) { auto *s = (AllocStats *)o; if (p) s->live--; free(p); }
const struct fsm_alloc *counting_alloc(AllocStats *st) {
	static map<AllocStats *, fsm_alloc> m;
	fsm_alloc &a = m[st]; a.free = c_free; a.calloc = c_calloc; a.malloc = c_malloc; a.realloc = c_realloc; a.opaque = st; return &a;
}

struct fsm *build(const Ref &r, const struct fsm_alloc *a) {
	struct fsm *f = fsm_new(a);
	CHECK(f != nullptr, "fsm_new");
	for (int i = 0; i < r.n(); i++) { fsm_state_t s; if (!fsm_addstate(f, &s) || (int)s != i) fail("fsm_addstate does not return consecutive states"); }
	for (int i = 0; i < r.n(); i++) {
		for (int t : r.eps[i]) if (!fsm_addedge_epsilon(f, i, t)) fail("fsm_addedge_epsilon failed");
		// full fan-out to one target is added with addedge_any
		map<int, int> cnt; for (auto &p : r.e[i]) for (int t : p.second) cnt[t]++;
		for (auto &p : cnt) if (p.second == 256) if (!fsm_addedge_any(f, i, p.first)) fail("fsm_addedge_any failed");
		for (auto &p : r.e[i]) for (int t : p.second) if (cnt[t] != 256) if (!fsm_addedge_literal(f, i, t, (char)p.first)) fail("fsm_addedge_literal failed");
		if (r.end[i]) fsm_setend(f, i, 1);
		for (unsigned id : r.ids[i]) if (!fsm_endid_set(f, i, id)) fail("fsm_endid_set failed");
		for (unsigned id : r.eager[i]) if (!fsm_eager_output_set(f, i, id)) fail("fsm_eager_output_set failed");
	}
	if (r.start >= 0) fsm_setstart(f, r.start);
	return f;
}
static int xlit(const struct fsm *, fsm_state_t a, fsm_state_t b, char c, void *o) { Ref *r = (Ref *)o; if ((int)a >= r->n() || (int)b >= r->n()) fail(fmt("edge %u->%u out of range (states=%d)", a, b, r->n())); if (!r->e[a][(u8)c].insert(b).second) fail("walk reports an edge twice"); return 1; }
static int xeps(const struct fsm *, fsm_state_t a, fsm_state_t b, void *o) { Ref *r = (Ref *)o; if ((int)a >= r->n() || (int)b >= r->n()) fail(fmt("epsilon %u->%u out of range (states=%d)", a, b, r->n())); if (!r->eps[a].insert(b).second) fail("walk reports an epsilon twice"); return 1; }
Ref extract(const struct fsm *f) {
	Ref r; unsigned n = fsm_countstates(f);
	for (unsigned i = 0; i < n; i++) r.add();
	if (fsm_walk_edges(f, &r, xlit, xeps) != 1) fail("fsm_walk_edges stopped");
	fsm_state_t s; if (fsm_getstart(f, &s)) { if (s >= n) fail("start state out of range"); r.start = (int)s; }
	for (unsigned i = 0; i < n; i++) {
		r.end[i] = fsm_isend(f, i) ? 1 : 0;
		size_t k = r.end[i] ? fsm_endid_count(f, i) : 0;
		if (k) { vector<fsm_end_id_t> b(k); if (!fsm_endid_get(f, i, k, b.data())) fail("fsm_endid_get refused a sufficient buffer"); for (size_t j = 0; j < k; j++) { if (j && b[j - 1] >= b[j]) fail("end ids not strictly ascending"); r.ids[i].insert(b[j]); } }
		k = fsm_eager_output_count(f, i);
		if (k) { vector<fsm_output_id_t> b(k); if (!fsm_eager_output_get(f, i, k, b.data())) fail("fsm_eager_output_get refused a sufficient buffer"); for (size_t j = 0; j < k; j++) { if (j && b[j - 1] >= b[j]) fail("eager output ids not strictly ascending"); r.eager[i].insert(b[j]); } }
	}
	return r;
}

vector<set<int>> closures(const Ref &r) {
	vector<set<int>> c(r.n());
	for (int i = 0; i < r.n(); i++) { vector<int> st{i}; c[i].insert(i); while (!st.empty()) { int x = st.back(); st.pop_back(); for (int t : r.eps[x]) if (c[i].insert(t).second) st.push_back(t); } }
	return c;
}
struct Fast { // bitset form
	int n, w; vector<Bits> clo; vector<vector<pair<u8, int>>> ed; const Ref *r; Bits ends;
	explicit Fast(const Ref &q) : n(q.n()), w((q.n() + 63) / 64), r(&q) {
		auto c = closures(q); clo.assign(n, Bits(w)); ends.assign(w, 0);
		for (int i = 0; i < n; i++) { for (int t : c[i]) clo[i][t / 64] |= 1ull << (t % 64); if (q.end[i]) ends[i / 64] |= 1ull << (i % 64); }
	}
	Bits init() const { Bits b(w, 0); if (r->start >= 0) b = clo[r->start]; return b; }
	Bits step(const Bits &b, u8 c) const {
		Bits o(w, 0);
		for (int k = 0; k < w; k++) for (u64 m = b[k]; m; m &= m - 1) { int i = k * 64 + __builtin_ctzll(m); auto it = r->e[i].find(c); if (it != r->e[i].end()) for (int t : it->second) for (int j = 0; j < w; j++) o[j] |= clo[t][j]; }
		return o;
	}
	template <class F> static void each(const Bits &b, F f) { for (size_t k = 0; k < b.size(); k++) for (u64 m = b[k]; m; m &= m - 1) f((int)(k * 64 + __builtin_ctzll(m))); }
};
static vector<u8> classes(const vector<const Ref *> &rs) { // one byte per class of bytes with identical behaviour everywhere
	vector<string> sig(256); // signature as state/target list
	for (size_t k = 0; k < rs.size(); k++) for (int i = 0; i < rs[k]->n(); i++) {
		for (auto &p : rs[k]->e[i]) { auto &s = sig[p.first]; for (int t : p.second) { int v[3] = {(int)k, i, t}; s.append((char *)v, sizeof v); } }
	}
	std::unordered_map<string, int> first; vector<u8> out;
	for (int c = 0; c < 256; c++) if (first.emplace(sig[c], c).second) out.push_back((u8)c);
	return out;
}
bool lockstep(const vector<const Ref *> &rs, std::function<string(const vector<View> &)> pred, string &why, string &witness, bool outputs, size_t limit) {
	vector<Fast> fs; for (auto *r : rs) fs.emplace_back(*r);
	auto cl = classes(rs);
	struct Conf { vector<Bits> b; vector<set<unsigned>> o; bool operator<(const Conf &x) const { return b != x.b ? b < x.b : o < x.o; } };
	map<Conf, int> seen; vector<Conf> q; vector<pair<int, u8>> par;
	auto fin = [&](Conf &c, const Conf *prev) { c.o.assign(rs.size(), {}); if (!outputs) return; for (size_t k = 0; k < rs.size(); k++) { if (prev) c.o[k] = prev->o[k]; Fast::each(c.b[k], [&](int i) { c.o[k].insert(rs[k]->eager[i].begin(), rs[k]->eager[i].end()); }); } };
	Conf c0; for (auto &f : fs) c0.b.push_back(f.init()); fin(c0, nullptr);
	seen[c0] = 0; q.push_back(c0); par.push_back({-1, 0});
	for (size_t h = 0; h < q.size(); h++) {
		vector<View> v(rs.size()); vector<set<unsigned>> ids(rs.size());
		for (size_t k = 0; k < rs.size(); k++) { bool acc = false, em = true; Fast::each(q[h].b[k], [&](int i) { em = false; if (rs[k]->end[i]) { acc = true; ids[k].insert(rs[k]->ids[i].begin(), rs[k]->ids[i].end()); } }); v[k] = View{acc, &ids[k], &q[h].o[k], em}; }
		string w = pred(v);
		if (!w.empty()) { why = w; witness.clear(); for (int x = (int)h; par[x].first >= 0; x = par[x].first) witness += (char)par[x].second; std::reverse(witness.begin(), witness.end()); return true; }
		for (u8 c : cl) { Conf nx; for (size_t k = 0; k < rs.size(); k++) nx.b.push_back(fs[k].step(q[h].b[k], c)); fin(nx, &q[h]); if (seen.size() >= limit) return false; if (seen.emplace(nx, (int)q.size()).second) { q.push_back(nx); par.push_back({(int)h, c}); } }
	}
	return true;
}
static string sid(const set<unsigned> &s) { string o = "{"; for (unsigned k : s) o += fmt("%u ", k); return o + "}"; }
void lang_is(const Ref &res, const vector<const Ref *> &ops, std::function<bool(const vector<bool> &)> f, const char *what, std::function<set<unsigned>(const vector<View> &)> ids, bool outputs) {
	vector<const Ref *> rs{&res}; rs.insert(rs.end(), ops.begin(), ops.end());
	string why, wit;
	lockstep(rs, [&](const vector<View> &v) -> string {
		vector<bool> a; for (size_t k = 1; k < v.size(); k++) a.push_back(v[k].acc);
		bool want = f(a);
		if (v[0].acc != want) return fmt("%s: result %s the string but should %s it", what, v[0].acc ? "accepts" : "rejects", want ? "accept" : "reject");
		if (ids && want) { vector<View> o(v.begin() + 1, v.end()); auto w = ids(o); if (w != *v[0].ids) return fmt("%s: end ids %s, expected %s", what, sid(*v[0].ids).c_str(), sid(w).c_str()); }
		if (outputs && want && *v[0].out != *v[1].out) return fmt("%s: eager outputs %s, expected %s", what, sid(*v[0].out).c_str(), sid(*v[1].out).c_str());
		return ""; }, why, wit, outputs);
	if (!why.empty()) fail(why + " for input string " + quote(wit) + "; result machine: " + show(res));
}
bool accepts(const Ref &r, const string &w, set<unsigned> *ids, set<unsigned> *outs) {
	Fast f(r); Bits b = f.init();
	auto o = [&]() { if (outs) Fast::each(b, [&](int i) { outs->insert(r.eager[i].begin(), r.eager[i].end()); }); };
	o(); for (char c : w) { b = f.step(b, (u8)c); o(); }
	bool a = false; Fast::each(b, [&](int i) { if (r.end[i]) { a = true; if (ids) ids->insert(r.ids[i].begin(), r.ids[i].end()); } });
	return a;
}
size_t subset_count(const Ref &r, size_t limit) {
	size_t cnt = 0; string a, b; vector<const Ref *> v{&r};
	bool ok = lockstep(v, [&](const vector<View> &x) -> string { if (!x[0].empty) cnt++; return ""; }, a, b, false, limit);
	return ok ? cnt : (size_t)-1;
}
set<int> reach(const Ref &r) { set<int> s; if (r.start < 0) return s; vector<int> st{r.start}; s.insert(r.start); while (!st.empty()) { int x = st.back(); st.pop_back(); for (int t : r.eps[x]) if (s.insert(t).second) st.push_back(t); for (auto &p : r.e[x]) for (int t : p.second) if (s.insert(t).second) st.push_back(t); } return s; }
set<int> coreach(const Ref &r) { set<int> s; bool ch = true; for (int i = 0; i < r.n(); i++) if (r.end[i]) s.insert(i); while (ch) { ch = false; for (int i = 0; i < r.n(); i++) if (!s.count(i)) { bool y = false; for (int t : r.eps[i]) y |= s.count(t) > 0; for (auto &p : r.e[i]) for (int t : p.second) y |= s.count(t) > 0; if (y) { s.insert(i); ch = true; } } } return s; }
size_t min_states(const Ref &d, bool) { // Moore refinement on the trim part; dead state is implicit class -1
	set<int> a = reach(d), b = coreach(d); vector<int> live; for (int x : a) if (b.count(x)) live.push_back(x);
	if (live.empty()) return 0;
	map<int, int> cls; { map<vector<unsigned>, int> m; for (int x : live) { vector<unsigned> k{(unsigned)d.end[x]}; if (d.end[x]) for (unsigned i : d.ids[x]) k.push_back(i); k.push_back(~0u); for (unsigned i : d.eager[x]) k.push_back(i); cls[x] = m.emplace(k, (int)m.size()).first->second; } }
	size_t cnt = 0;
	for (;;) {
		map<vector<int>, int> m; map<int, int> nc;
		for (int x : live) { vector<int> k{cls[x]}; for (auto &p : d.e[x]) for (int t : p.second) if (cls.count(t)) { k.push_back(p.first); k.push_back(cls[t]); } nc[x] = m.emplace(k, (int)m.size()).first->second; }
		cls = nc; if (m.size() == cnt) return cnt; cnt = m.size();
	}
}

Ref exhaustive2(u64 idx, u64 *total, bool eps) {
	// one state: start{none,0} end eps a ; two states: start{none,0,1} ends2 a4 eps4
	u64 n1 = 2 * 2 * 2 * (eps ? 2 : 1), n2 = 3 * 4 * 16 * (eps ? 16 : 1);
	if (total) *total = 1 + n1 + n2;
	Ref r; if (idx == 0) return r;
	idx -= 1;
	if (idx < n1) { r.add(); if (idx & 1) r.start = 0; idx >>= 1; r.end[0] = idx & 1; idx >>= 1; if (idx & 1) r.e[0]['a'].insert(0); idx >>= 1; if (idx & 1) r.eps[0].insert(0); return r; }
	idx = (idx - n1) % n2; r.add(); r.add();
	r.start = (int)(idx % 3) - 1; idx /= 3; for (int i = 0; i < 2; i++) { r.end[i] = idx & 1; idx >>= 1; }
	for (int i = 0; i < 4; i++) { if (idx & 1) r.e[i / 2]['a'].insert(i % 2); idx >>= 1; }
	for (int i = 0; i < 4; i++) { if (idx & 1) r.eps[i / 2].insert(i % 2); idx >>= 1; }
	return r;
}
Ref gen(Rng &g, const GenOpt &o) {
	Ref r; unsigned p = g.below(100); int n;
	if (p < 2) n = 0; else if (p < 62) n = g.range(1, 4); else if (p < 90) n = g.range(5, 9); else if (p < 98) n = g.range(10, 22); else n = g.range(60, 70);
	if (n > o.maxn) n = g.range(1, o.maxn);
	for (int i = 0; i < n; i++) r.add();
	if (!n) return r;
	static const u8 pool[] = {'a', 'b', 'c', 0, 255, 127, 128, 0x3f, 0x40, 0xbf, 0xc0, '\n', '"', '\\', '\'', '-', ']', ' ', '%', 'A'};
	vector<u8> al; int k = g.range(1, 3);
	if (o.shared_alpha || g.chance(50)) for (int i = 0; i < k; i++) al.push_back((u8)('a' + i)); else for (int i = 0; i < k; i++) al.push_back(pool[g.below(sizeof pool)]);
	unsigned deg = n > 22 ? 1 : g.range(1, 3); bool dense = n <= 9 && g.chance(25); if (dense) deg = g.range(3, 6);
	unsigned epct = o.eps && !o.dfa && g.chance(60) ? g.range(5, n > 22 ? 15 : 60) : 0;
	bool biglab = o.big_labels && g.chance(25);
	for (int i = 0; i < n; i++) {
		unsigned d = g.below(deg + 1) + (dense ? 1 : 0);
		if (n > 22 && i + 1 < n && g.chance(85)) { r.e[i][al[0]].insert(i + 1); if (d) d--; }
		for (unsigned j = 0; j < d; j++) {
			int t = g.below(n);
			if (biglab && g.chance(40)) { unsigned m = g.below(4); unsigned lo = 0, hi = 255; if (m == 1) { lo = g.below(256); hi = g.range(lo, 255); } if (m == 2) { lo = 64 * g.below(4); hi = lo + 63; } if (m == 3) { lo = 64 * g.range(1, 3) - g.range(1, 2); hi = lo + g.range(1, 3); }
				for (unsigned c = lo; c <= hi; c++) { if (o.dfa && !r.e[i][(u8)c].empty()) continue; r.e[i][(u8)c].insert(t); } }
			else { u8 c = al[g.below((unsigned)al.size())]; if (o.dfa && r.e[i].count(c)) continue; r.e[i][c].insert(t); }
		}
		if (epct && g.chance(epct)) { unsigned m = g.range(1, 2); for (unsigned j = 0; j < m; j++) r.eps[i].insert(g.below(n)); }
	}
	for (int i = 0; i < n; i++) for (auto it = r.e[i].begin(); it != r.e[i].end();) if (it->second.empty()) it = r.e[i].erase(it); else ++it;
	unsigned em = g.below(10); for (int i = 0; i < n; i++) r.end[i] = em == 0 ? 0 : em == 1 ? 1 : em < 5 ? g.chance(50) : g.chance(20);
	if (em >= 5 && em < 9) r.end[g.below(n)] = 1;
	r.start = (o.nostart && g.chance(4)) ? -1 : (int)(g.chance(60) ? 0 : g.below(n));
	if (o.ids && g.chance(75)) { unsigned m = g.range(1, 5); for (int i = 0; i < n; i++) if (r.end[i]) { unsigned c = g.chance(80) ? g.below(3) : g.below(8); for (unsigned j = 0; j < c; j++) r.ids[i].insert(g.chance(85) ? g.below(m) : g.chance(50) ? (unsigned)g.below(1000) : 0xffffffffu - g.below(2)); } }
	if (o.eager && g.chance(75)) for (int i = 0; i < n; i++) if (g.chance(30)) { unsigned c = g.range(1, 2); for (unsigned j = 0; j < c; j++) r.eager[i].insert(g.below(4)); }
	// ids that agree in their low or high bits
	if ((o.ids || o.eager) && g.chance(20)) {
		unsigned k1 = g.range(2, 31), k2 = g.range(2, 31);
		auto al = [&](set<unsigned> &s) { set<unsigned> q; for (unsigned v : s) q.insert(v == 1 ? 1u << k1 : v == 3 ? 2 + (1u << k2) : v); s = q; };
		for (int i = 0; i < n; i++) { al(r.ids[i]); al(r.eager[i]); }
	}
	return r;
}
