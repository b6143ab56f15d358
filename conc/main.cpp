// conc PROP SEED SHARD NSHARDS BUDGET_S SCALE [INDEX]
#include "props.hpp"
#include <time.h>
#ifdef WITH_OPS
extern Prop ops_props[];
#endif
#ifdef WITH_ADT
extern Prop adt_props[];
#endif
#ifdef WITH_MISC
extern Prop misc_props[];
#endif
#ifdef WITH_RE
extern Prop re_props[];
#endif
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void death(void) { fflush(stdout); hardfail("the code under test crashed or a sanitizer stopped it (see stderr)"); }
static void on_abrt(int s) { hardfail(fmt("the code under test received signal %d (failed assertion, crash or endless loop)", s)); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
int main(int c, char **v) {
	if (c < 7) return 2;
	C.prop = v[1]; C.seed = strtoull(v[2], 0, 10); u64 sh = strtoull(v[3], 0, 10), ns = strtoull(v[4], 0, 10); double bud = atof(v[5]), scale = atof(v[6]);
	Prop *p = nullptr; static Prop none[] = {{nullptr, nullptr, 0}}; Prop *lists[] = { none,
#ifdef WITH_OPS
		ops_props,
#endif
#ifdef WITH_ADT
		adt_props,
#endif
#ifdef WITH_MISC
		misc_props,
#endif
#ifdef WITH_RE
		re_props,
#endif
	};
	for (auto *l : lists) for (Prop *q = l; q->id; q++) if (C.prop == q->id) p = q;
	if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
	__sanitizer_set_death_callback(death); signal(SIGABRT, on_abrt); signal(SIGALRM, on_abrt);
	double t0 = now(); u64 max = (u64)(p->cases * scale); u64 one = (u64)-1; if (c > 7) one = strtoull(v[7], 0, 10);
	for (u64 i = one != (u64)-1 ? one : sh; i < max || one != (u64)-1; i += ns) {
		C.index = i; C.desc.clear(); C.nt = false; Rng g(C.seed * 1000003 + i); alarm(120); p->run(i, g); C.evaluations++;
		u64 h = 1469598103934665603ull; for (unsigned char ch : C.desc) h = (h ^ ch) * 1099511628211ull;
		if (C.nt && C.seen.insert(h).second) { C.nontrivial++; if (C.samples.size() < 2 && i > 5000) C.samples.push_back(C.desc.substr(0, 400)); }
		if (one != (u64)-1) { printf("PASS\n%s", C.desc.c_str()); return 0; }
		if ((i / ns) % 32 == 0 && now() - t0 > bud) break;
	}
	alarm(0); printf("DONE {\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"samples\":[", (unsigned long long)C.evaluations, (unsigned long long)C.nontrivial);
	for (size_t k = 0; k < C.samples.size(); k++) { string o; for (unsigned char ch : C.samples[k]) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == '\n') o += "; "; else o += (char)ch; } printf("%s\"%s\"", k ? "," : "", o.c_str()); }
	printf("]}\n"); fflush(stdout); _exit(0);
}
