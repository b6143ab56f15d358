// Independent reference model: a plain NFA with explicit relations, and an
// exact language oracle (lock-step subset construction over byte classes).
// Nothing here calls libfsm except build()/extract(), which use public API.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <csetjmp>
extern "C" {
#include <fsm/fsm.h>
#include <fsm/bool.h>
#include <fsm/pred.h>
#include <fsm/walk.h>
#include <fsm/alloc.h>
#include <fsm/options.h>
#include <fsm/print.h>
#include <fsm/parser.h>
#include <fsm/vm.h>
#include <fsm/cost.h>
#include <fsm/subgraph.h>
#include <fsm/capture.h>
}
typedef unsigned char u8;
typedef uint64_t u64;
using std::string; using std::vector; using std::set; using std::map; using std::pair;

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
	bool chance(unsigned pct) { return below(100) < pct; }
	unsigned range(unsigned a, unsigned b) { return a + below(b - a + 1); }
};

// ---- case reporting -------------------------------------------------
struct Ctx {
	string prop; u64 seed; u64 index;
	string desc;             // written-out inputs of the current case
	u64 evaluations = 0, nontrivial = 0;
	std::unordered_set<u64> seen;
	vector<string> samples;
	bool nt = false;
	jmp_buf *soft = nullptr; // wrong results are not counted, only crashes
};
extern Ctx C;
[[noreturn]] void fail(const string &why);
[[noreturn]] void hardfail(const string &why);
void say(const string &s);      // add to the description of the current case
#define CHECK(c, ...) do { if (!(c)) fail(string(#c) + " is false: " + fmt(__VA_ARGS__)); } while (0)
string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---- model ----------------------------------------------------------
typedef vector<u64> Bits;
struct Ref {
	int start = -1;
	vector<map<u8, set<int>>> e;
	vector<set<int>> eps;
	vector<char> end;
	vector<set<unsigned>> ids, eager;
	int n() const { return (int)e.size(); }
	int add() { e.emplace_back(); eps.emplace_back(); end.push_back(0); ids.emplace_back(); eager.emplace_back(); return n() - 1; }
	bool operator==(const Ref &o) const { return start == o.start && e == o.e && eps == o.eps && end == o.end && ids == o.ids && eager == o.eager; }
	bool hasids() const { for (auto &i : ids) if (!i.empty()) return true; return false; }
	bool haseps() const { for (auto &i : eps) if (!i.empty()) return true; return false; }
	bool nondet() const { if (start < 0) return true; for (int i = 0; i < n(); i++) { if (!eps[i].empty()) return true; for (auto &p : e[i]) if (p.second.size() > 1) return true; } return false; }
};
string show(const Ref &r);
struct fsm *build(const Ref &r, const struct fsm_alloc *a = nullptr);
Ref extract(const struct fsm *f);

struct AllocStats { long live = 0; long total = 0; long failat = -1; bool failed = false; };
const struct fsm_alloc *counting_alloc(AllocStats *st);

// ---- language oracle ------------------------------------------------
struct View { bool acc; const set<unsigned> *ids; const set<unsigned> *out; bool empty; };
// Walk all reachable tuples of subsets; pred returns "" if fine. witness gets the string.
// Returns false if limit exceeded (undecided).
bool lockstep(const vector<const Ref *> &rs, std::function<string(const vector<View> &)> pred, string &why, string &witness, bool outputs = false, size_t limit = 20000);
// check lang(result) == f(accepts of operands); ids too if wantids
string quote(const string &s);
void lang_is(const Ref &res, const vector<const Ref *> &ops, std::function<bool(const vector<bool> &)> f, const char *what,
	std::function<set<unsigned>(const vector<View> &)> ids = nullptr, bool outputs = false);
bool accepts(const Ref &r, const string &w, set<unsigned> *ids = nullptr, set<unsigned> *outs = nullptr);
vector<set<int>> closures(const Ref &r);
size_t subset_count(const Ref &r, size_t limit); // reachable non-empty subsets
size_t min_states(const Ref &dfa, bool with_ids); // states of the minimal trim DFA
set<int> reach(const Ref &r);
set<int> coreach(const Ref &r);

// ---- generators -----------------------------------------------------
struct GenOpt { bool eps = true, ids = false, eager = false, dfa = false, nostart = true; int maxn = 70; bool shared_alpha = false; bool big_labels = true; };
Ref gen(Rng &r, const GenOpt &o);
Ref exhaustive2(u64 idx, u64 *total, bool eps); // all automata with <=2 states over one byte (+eps)
