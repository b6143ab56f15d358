#!/usr/bin/env python3-vt
"""Self-test of the VC generator: contracts that hold must be proved, contracts that do not must not be.
Each case is a C function with a contract; 'bad' cases guard against an unsound rule in the generator."""
import os, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from concurrent.futures import ProcessPoolExecutor
CASES = []


def case(name, good, c, sp): CASES.append((name, good, c, sp))


PRE = '#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <assert.h>\nstruct p { int a; unsigned b:3; unsigned c[4]; struct p *next; };\n'
case('overflow', False, 'int f(int x){ return x+1; }', 'fn f { ensures result == x + 1; }')
case('overflow-guard', True, 'int f(int x){ if (x < 100) return x+1; return 0; }', 'fn f { ensures x < 100 ==> result == x + 1; }')
case('unsigned-wrap', False, 'unsigned f(unsigned x){ return x+1; }', 'fn f { ensures result == x + 1; }')
case('unsigned-wrap-ok', True, 'unsigned f(unsigned x){ return x+1; }', 'fn f { ensures x < U32_MAX ==> result == x + 1; ensures x == U32_MAX ==> result == 0; }')
case('null-deref', False, 'int f(struct p *q){ return q->a; }', 'fn f { }')
case('deref-ok', True, 'int f(struct p *q){ return q->a; }', 'fn f { requires valid(q) && q != null; ensures result == q->a; }')
case('frame', False, 'void f(struct p *q){ q->a = 1; q->b = 1; }', 'fn f { requires valid(q); assigns q->a; }')
case('bitfield-trunc', False, 'void f(struct p *q){ q->b = 9; }', 'fn f { requires valid(q); ensures q->b == 9; assigns q->b; }')
case('bitfield-trunc-ok', True, 'void f(struct p *q){ q->b = 9; }', 'fn f { requires valid(q); ensures q->b == 1; assigns q->b; }')
case('alias', False, 'void f(int *a, int *b){ *a = 1; *b = 2; }', 'fn f { requires valid(a) && valid(b); ensures *a == 1; assigns *a, *b; }')
case('alias-ok', True, 'void f(int *a, int *b){ *a = 1; *b = 2; }', 'fn f { requires valid(a) && valid(b) && block(a) != block(b); ensures *a == 1; assigns *a, *b; }')
case('oob', False, 'int f(int *a, size_t n){ return a[n]; }', 'fn f { requires valid_n(a, n) && n > 0; }')
case('oob-field', False, 'unsigned f(struct p *q, unsigned i){ return q->c[i]; }', 'fn f { requires valid(q) && i <= 4; }')
case('oob-field-ok', True, 'unsigned f(struct p *q, unsigned i){ return q->c[i]; }', 'fn f { requires valid(q) && i < 4; ensures result == q->c[i]; }')
case('uaf', False, 'int f(void){ int *p = malloc(4); if (!p) return 0; *p = 1; free(p); return *p; }', 'fn f { }')
case('double-free', False, 'void f(int *p){ free(p); free(p); }', 'fn f { requires valid(p) && p != null && off(p) == 0; frees p; }')
case('malloc-null', False, 'int f(void){ int *p = malloc(4); *p = 1; return *p; }', 'fn f { }')
case('loop-no-inv', False, 'int f(int n){ int i = 0; while (i < n) i++; return i; }', 'fn f { requires n >= 0; ensures result == n; }')
case('loop-inv', True, 'int f(int n){ int i = 0; while (i < n) i++; return i; }', 'fn f { requires n >= 0; ensures result == n; loop 1 { invariant 0 <= i <= n; variant n - i; } }')
case('loop-bad-inv', False, 'int f(int n){ int i = 0; while (i < n) i += 2; return i; }', 'fn f { requires 0 <= n < 1000; ensures result == n; loop 1 { invariant 0 <= i <= n; } }')
case('loop-variant', False, 'int f(int n){ int i = 0; while (i < n) { if (n == 7) continue; i++; } return i; }', 'fn f { requires 0 <= n; loop 1 { invariant 0 <= i <= n; variant n - i; } }')
case('max-array', True, 'int f(int *a, int n){ int m = a[0]; for (int i = 1; i < n; i++) if (a[i] > m) m = a[i]; return m; }',
     'fn f { requires n > 0 && valid_n(a, n); ensures forall int k {: a[k] :} . 0 <= k < n ==> a[k] <= result; loop 1 { invariant 1 <= i <= n; invariant forall int k {: a[k] :} . 0 <= k < i ==> a[k] <= m; } }')
case('max-array-bad', False, 'int f(int *a, int n){ int m = a[0]; for (int i = 1; i < n - 1; i++) if (a[i] > m) m = a[i]; return m; }',
     'fn f { requires n > 0 && valid_n(a, n); ensures forall int k {: a[k] :} . 0 <= k < n ==> a[k] <= result; loop 1 { invariant 1 <= i <= n; invariant forall int k {: a[k] :} . 0 <= k < i ==> a[k] <= m; } }')
case('call-contract', False, 'int g(int x){ return x; } int f(int x){ return g(x); }', 'fn g { requires x > 0; ensures result >= 0; } fn f { ensures result == x; }')
case('call-frame', False, 'void g(int *p){ *p = 3; } int f(int *p){ *p = 1; g(p); return *p; }', 'fn g { requires valid(p); assigns *p; } fn f { requires valid(p); ensures result == 1; assigns *p; }')
case('assert', False, 'void f(int x){ assert(x != 3); }', 'fn f { }')
case('shift', False, 'int f(int x){ return 1 << x; }', 'fn f { requires 0 <= x <= 40; }')
case('div0', False, 'int f(int x){ return 5 / x; }', 'fn f { }')
case('memcpy', True, 'void f(int *a, int *b, size_t n){ memcpy(a, b, n * sizeof *a); }', 'fn f { requires valid_n(a, n) && valid_n(b, n) && block(a) != block(b) && n < 1000 && off(a) == 0 && off(b) == 0; ensures forall int k {: a[k] :} . 0 <= k < n ==> a[k] == b[k]; assigns @m.i32(block(a)); }')
case('memcpy-overlap', False, 'void f(int *a, size_t n){ memcpy(a, a + 1, n * sizeof *a); }', 'fn f { requires valid_n(a, n + 1) && 2 <= n < 1000; assigns @m.i32(block(a)); }')
case('signed-compare', False, 'int f(int a, unsigned b){ return a < b; }', 'fn f { ensures result == 1 <==> a < b; }')
case('sequence', False, 'int f(int x){ int y = x; x = 3; return y; }', 'fn f { ensures result == 3; }')
case('switch', True, 'int f(int x){ switch (x) { case 1: return 5; case 2: x = 7; default: return x; } }', 'fn f { ensures result == (if x == 1 then 5 else if x == 2 then 7 else x); }')
case('uninit', False, 'int f(int x){ int y; if (x) y = 1; return y; }', 'fn f { ensures result == 1; }')
case('loop-return-write', False, 'int f(int *p, int n){ int i; for (i = 0; i < n; i++) { if (i == 3) { *p = 7; return 1; } } return 0; }', 'fn f { requires valid(p) && n >= 0; ensures *p == old(*p); assigns *p; loop 1 { invariant 0 <= i <= n; } }')
case('loop-return-write-ok', True, 'int f(int *p, int n){ int i; for (i = 0; i < n; i++) { if (i == 3) { *p = 7; return 1; } } return 0; }', 'fn f { requires valid(p) && n >= 0; ensures result == 0 ==> *p == old(*p); ensures result == 1 ==> *p == 7; assigns *p; loop 1 { invariant 0 <= i <= n; } }')
case('loop-carried-write', False, 'int f(int *p, int n){ int i; for (i = 0; i < n; i++) { if (i == 3) { *p = 7; } } return 0; }', 'fn f { requires valid(p) && n >= 0; ensures *p == old(*p); assigns *p; loop 1 { invariant 0 <= i <= n; } }')
case('loop-row-frame', False, 'void f(struct p *q, int n){ int i; for (i = 0; i < n; i++) { q[1].a = i; } }', 'fn f { requires valid_n(q, 3) && n >= 0; assigns q[0].a; loop 1 { invariant 0 <= i <= n; } }')

case('goto-loop', True, 'int f(int n){ int i = 0; if (n < 0) return -1; again: if (i == n) return i; i++; goto again; }', 'fn f { ensures n >= 0 ==> result == n; loop 1 { invariant 0 <= i <= n; variant n - i; } }')
case('goto-loop-bad', False, 'int f(int n){ int i = 0; if (n < 0) return -1; again: if (i == n) return i; i++; goto again; }', 'fn f { ensures n >= 0 ==> result == n + 1; loop 1 { invariant 0 <= i <= n; } }')
case('goto-loop-fall', False, 'int f(int n){ int i = 0; if (n < 1 || n > 9) return 0; again: i++; if (i < n) goto again; return i; }', 'fn f { ensures n > 0 && n < 10 ==> result == 1; loop 1 { invariant 0 <= i < n; } }')
case('goto-loop-fall-ok', True, 'int f(int n){ int i = 0; if (n < 1 || n > 9) return 0; again: i++; if (i < n) goto again; return i; }', 'fn f { ensures n > 0 && n < 10 ==> result == n; loop 1 { invariant 0 <= i < n; } }')
case('goto-fwd', True, 'int f(int n){ int r = 1; if (n) goto out; r = 2; out: return r; }', 'fn f { ensures result == (if n != 0 then 1 else 2); }')

case('shadow', False, 'int f(int n){ if (n > 3 && n < 9) { int n = 1; n = 2; } return n; }', 'fn f { ensures n > 3 && n < 9 ==> result == 2; }')
case('shadow-ok', True, 'int f(int n){ if (n > 3 && n < 9) { int n = 1; n = 2; } return n; }', 'fn f { ensures result == n; }')
case('shadow-loop', True, 'int f(int n){ int i; for (i = 0; i < 3; i++) { int n = i; for (int i = 0; i < 2; i++) n = i; } return n; }', 'fn f { ensures result == n; loop 1 { invariant 0 <= i <= 3; variant 3 - i; } loop 2 { invariant 0 <= i__2 <= 2; variant 2 - i__2; } }')
case('byref', True, 'static void g(struct p **x, struct p *v){ *x = v; } void f(struct p *q, struct p *v){ g(&q->next, v); }', 'fn g { requires valid(x); ensures *x == v; assigns *x; } fn f { requires valid(q) && q != null; ensures q->next == v; assigns q->next; }')
case('byref-frame', False, 'static void g(struct p **x, struct p *v){ *x = v; } void f(struct p *q, struct p *v){ g(&q->next, v); }', 'fn g { requires valid(x); ensures *x == v; assigns *x; } fn f { requires valid(q) && q != null; }')
case('byref-null', False, 'static void g(struct p **x, struct p *v){ *x = v; } void f(struct p *q, struct p *v){ g(&q->next, v); }', 'fn g { requires valid(x); ensures *x == v; assigns *x; } fn f { ensures q->next == v; assigns q->next; }')


CB = ('struct m { int *a; int n; int k; }; int all(struct m *q, int (*p)(struct m *, int)){ int i; for (i = 0; i < q->n; i++) { if (!p(q, i)) return 0; } return 1; } '
      'int pos(struct m *q, int i){ return q->a[i] > 0; } int f(struct m *q){ return all(q, pos); } ')
CBS = ('logic int pred_val(int p, int i); fn cbp { trusted; requires 0 <= arg2 < arg1->n; ensures result == pred_val(self, arg2); } predicate ok(m *q) = valid(q) && q != null && q->n >= 0 && valid_n(q->a, q->n) && block(q->a) != block(q); '
       'fn all { callback p = cbp on q; requires ok(q) && p != null; ensures y: result == 1 ==> (forall int i {: pred_val(block(p), i) :} . 0 <= i < q->n ==> pred_val(block(p), i) != 0); ensures result == 0 || result == 1; '
       'loop 1 { invariant 0 <= i <= q->n; invariant forall int j {: pred_val(block(p), j) :} . 0 <= j < i ==> pred_val(block(p), j) != 0; } } fn pos { requires ok(q) && 0 <= i < q->n; ensures (result != 0) <==> q->a[i] > 0; } ')
case('closure-ok', True, CB, CBS + 'fn f { requires ok(q); ensures result == 1 ==> (forall int i {: q->a[i] :} . 0 <= i < q->n ==> q->a[i] > 0); }')
case('closure-wrong-claim', False, CB, CBS + 'fn f { requires ok(q); ensures result == 1 ==> (forall int i {: q->a[i] :} . 0 <= i < q->n ==> q->a[i] > 1); }')
case('closure-precondition', False, CB, CBS.replace('fn pos { requires ok(q) && 0 <= i < q->n;', 'fn pos { requires ok(q) && 0 <= i < q->n && q->k > 0;') + 'fn f { requires ok(q); }')
case('closure-other-object', False, CB.replace('p(q, i)', 'p(q + 0 * q->k + (q->k > 5), i)'), CBS + 'fn f { requires ok(q); ensures result == 1 ==> (forall int i {: q->a[i] :} . 0 <= i < q->n ==> q->a[i] > 0); }')
case('closure-vacuous', False, CB, CBS + 'fn f { requires ok(q); ensures false; }')
case('errno', True, '#include <errno.h>\nint f(int *p){ *p = 1; errno = EINVAL; return *p; }', 'fn f { requires valid(p) && p != null; ensures result == 1; assigns *p; }')
case('errno-read', False, '#include <errno.h>\nint f(void){ errno = 3; return errno; }', 'fn f { ensures result == 3; }')
LM = 'predicate pp(p *x) opaque = x->a > 0; lemma fr (p.b): forall p *x {: pp(x), old(pp(x)) :} . pp(x) <==> old(pp(x)); lemma fr2 (p.a): forall p *x {: pp(x), old(pp(x)) :} . x->a == old(x->a) ==> (pp(x) <==> old(pp(x))); '
case('two-state-ok', True, 'void f(struct p *q){ q->b = 1; }', LM + 'fn f { requires valid(q) && pp(q); ensures pp(q); use fr; assigns q->b; }')
case('two-state-lemma-bad', False, 'void f(struct p *q){ q->b = 1; }', 'predicate pp(p *x) opaque = x->a > 0; lemma fr (p.a): forall p *x {: pp(x), old(pp(x)) :} . pp(x) <==> old(pp(x)); fn f { requires valid(q); assigns q->b; }')
case('two-state-misuse', False, 'void f(struct p *q){ q->a = -1; }', LM + 'fn f { requires valid(q) && pp(q); ensures pp(q); use fr, fr2; assigns q->a; }')


def run(i):
    import cv, cfront
    name, good, c, sp = CASES[i]
    d = tempfile.mkdtemp(prefix='cvst_')
    try:
        for x in ('src', 'include', 'specs'): os.mkdir(os.path.join(d, x))
        with open(d + '/src/t.c', 'w') as f: f.write(PRE + c + '\n')
        with open(d + '/specs/t.spec', 'w') as f: f.write('source "src/t.c";\n' + sp + '\n')
        cfront.REPO = d
        cfront._cache.clear()
        cv.SPECDIR = d + '/specs'
        s = cv.Session()
        s.load('t.spec')
        bad = []
        bad += [r['kind'] + ': ' + r['name'] for r in cv.discharge(s, [], lemmas=s.lemmas, jobs=1, budget=(0.7,)) if r['status'] != 'proved']
        for k in s.funcs:
          if 'trusted' not in k['flags']: bad += [r['kind'] + ': ' + r['name'] for r in cv.discharge(s, [s.gen(k)], jobs=1, budget=(0.7,)) if r['status'] != 'proved']
        return name, good, bad, None
    except cfront.CErr as x:
        return name, good, ['extract'], str(x)
    finally: shutil.rmtree(d)


def main():
    with ProcessPoolExecutor(8) as ex: rs = list(ex.map(run, range(len(CASES))))
    n = 0
    for name, good, bad, err in rs:
        ok = (good and not bad) or (not good and bad and not err)
        n += not ok
        if not ok or '-v' in sys.argv: print('%-18s %s %s %s' % (name, 'ok' if ok else 'WRONG', bad[:3], err or ''))
    print('self-test: %d cases, %d wrong' % (len(rs), n))
    return 1 if n else 0


if __name__ == '__main__': sys.exit(main())
