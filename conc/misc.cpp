// Memory safety over every operation (C31) and allocation failure (C26).
#include "ref.hpp"
#include "props.hpp"
#include <csetjmp>
static AllocStats AS;
static const fsm_alloc *AL() { return counting_alloc(&AS); }
static void nontrivial(bool b) { if (b) C.nt = true; }
#ifdef WITH_OPS
extern Prop ops_props[];
#endif
#ifdef WITH_ADT
extern Prop adt_props[];
#endif
// C31: any of the operations below on any input; only crashes, failed assertions and sanitizer reports count
static void p31(u64 i, Rng &g) {
	static vector<Prop> all;
	if (all.empty()) {
#ifdef WITH_OPS
		for (Prop *p = ops_props; p->id; p++) all.push_back(*p);
#endif
#ifdef WITH_ADT
		for (Prop *p = adt_props; p->id; p++) all.push_back(*p);
#endif
	}
	const Prop &p = all[g.below((unsigned)all.size())]; say(string("operations of ") + p.id); static jmp_buf jb; C.soft = &jb; if (!setjmp(jb)) p.run(g.below(4) ? 100000 + i : i, g); C.soft = nullptr;
}
// C26: one allocation fails inside one operation
static int keepodd(fsm_state_t s, void *o) { return (int)((s ^ *(unsigned *)o) % 3 != 0); }
static void p26(u64 i, Rng &g) {
	GenOpt o; o.ids = true; o.eager = g.chance(40); o.nostart = false; o.maxn = 9; int op = g.below(24); if (op == 1 || op == 12) o.dfa = true; Ref r = gen(g, o); if (!r.n()) return; if (r.start < 0) r.start = 0; if (r.n() > 6 && subset_count(r, 300) == (size_t)-1) return;
	static const char *names[] = {"determinise", "minimise", "remove_epsilons", "trim", "complete", "clone", "addstate", "addstate_bulk", "addedge", "setendid", "endid_set_bulk", "eager_output_set", "exec", "empty", "equal", "reverse", "compact_states", "removestate", "shuffle", "vacuum", "endid_set", "mergestates", "new", "countedges"};
	AS = AllocStats(); Ref r2; bool two = op == 14; if (two) { r2 = g.chance(50) ? r : gen(g, o); if (!r2.n()) return; if (r2.start < 0) r2.start = 0; if (r2.n() > 6 && subset_count(r2, 300) == (size_t)-1) return; }
	// operations named in C26_ONLY only (for debugging)
	struct fsm *f = build(r, AL()), *h = two ? build(r2, AL()) : nullptr; if (op == 1) { if (!fsm_trim(f, FSM_TRIM_START_AND_END_REACHABLE, nullptr)) {} } fsm_state_t d0; if (!fsm_getstart(f, &d0)) { fsm_free(f); if (h) fsm_free(h); return; } Ref before = extract(f); unsigned n = fsm_countstates(f);
	long k = g.chance(70) ? (long)g.below(12) : (long)g.below(120); AS.total = 0; AS.failed = false; AS.failat = k;
	say(fmt("allocation %ld fails in %s of ", k, names[op]) + show(before)); bool ok = true, keeps = false; fsm_state_t x = g.below(n), y = g.below(n); fsm_end_id_t ids[40]; for (auto &q : ids) q = g.below(60); unsigned u = g.below(3);
	switch (op) {
	case 0: ok = fsm_determinise(f); break;
	case 1: ok = fsm_minimise(f); break;
	case 2: ok = fsm_remove_epsilons(f); break;
	case 3: ok = fsm_trim(f, g.chance(50) ? FSM_TRIM_START_REACHABLE : FSM_TRIM_START_AND_END_REACHABLE, nullptr) >= 0; break;
	case 4: ok = fsm_complete(f, fsm_isany); break;
	case 5: { struct fsm *c = fsm_clone(f); ok = c != nullptr; keeps = true; if (c) { AS.failat = -1; Ref q = extract(c); CHECK(q == before, "clone made although an allocation failed: %s", show(q).c_str()); fsm_free(c); } break; }
	case 6: for (int z = 0; z < 130 && ok; z++) ok = fsm_addstate(f, &x); break;
	case 7: ok = fsm_addstate_bulk(f, g.below(300)); break;
	case 8: for (int z = 0; z < 12 && ok; z++) ok = g.chance(30) ? fsm_addedge_epsilon(f, g.below(n), g.below(n)) : g.chance(20) ? fsm_addedge_any(f, g.below(n), g.below(n)) : fsm_addedge_literal(f, g.below(n), g.below(n), (char)g.below(256)); break;
	case 9: for (int z = 0; z < 20 && ok; z++) ok = fsm_setendid(f, g.below(100)); break;
	case 10: for (int z = 0; z < 30 && ok; z++) ok = fsm_endid_set(f, x, ids[z]); break;
	case 11: for (int z = 0; z < 20 && ok; z++) ok = fsm_eager_output_set(f, g.below(n), g.below(9)); break;
	case 12: { string w; for (int z = 0; z < 5; z++) w += (char)g.below(256); const char *p = w.c_str(); fsm_state_t e; int rc = fsm_exec(f, fsm_sgetc, &p, &e, nullptr); (void)rc; keeps = true; break; }
	case 13: { int rc = fsm_empty(f); keeps = true; if (AS.failed) CHECK(rc == -1 || rc == 0 || rc == 1, "rc %d", rc); break; }
	case 14: { int rc = fsm_equal(f, h); keeps = true; ok = rc >= 0; break; }
	case 15: ok = fsm_reverse(f); break;
	case 16: ok = fsm_compact_states(f, keepodd, &u, nullptr); break;
	case 17: ok = fsm_removestate(f, x); break;
	case 18: ok = fsm_shuffle(f, (unsigned)g.below(1000)); break;
	case 19: ok = fsm_vacuum(f); break;
	case 20: ok = fsm_endid_set(f, x, 5); break;
	case 21: ok = fsm_mergestates(f, x, y, nullptr); break;
	case 22: { struct fsm *c = fsm_new(AL()); if (c) fsm_free(c); keeps = true; break; }
	case 23: (void)fsm_countedges(f); keeps = true; break;
	}
	nontrivial(AS.failed); bool hit = AS.failed; AS.failat = -1;
	if (keeps) { Ref q = extract(f); CHECK(q == before, "the machine was changed: %s", show(q).c_str()); }
	else if (ok) { Ref q = extract(f); (void)q; }
	fsm_free(f); if (h) fsm_free(h);
	CHECK(AS.live == 0, "%ld allocations are leaked by %s (%s, %s)", AS.live, names[op], hit ? "an allocation failed" : "no allocation failed", ok ? "success reported" : "failure reported");
}
Prop misc_props[] = { {"C26", p26, 200000}, {"C31", p31, 300000}, {nullptr, nullptr, 0} };
