"""Query construction and solver portfolio."""
import re, subprocess, os, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor

SYM = re.compile(r"[A-Za-z_$][A-Za-z0-9_.$@~!']*")

BITS_AX = '''
(declare-fun bit (Int Int) Bool)
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun bnot (Int) Int)
(declare-fun pow2 (Int) Int)
(declare-fun shl64 (Int Int) Int)
(declare-fun shr64 (Int Int) Int)
(declare-fun shl32 (Int Int) Int)
(declare-fun shr32 (Int Int) Int)
(declare-fun lsb (Int) Int)
(declare-fun popc (Int) Int)
(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k 64)) (= (lsb (pow2 k)) k)) :pattern ((pow2 k)))))
(assert (forall ((k Int)) (! (=> (and (< 0 k) (<= k 64)) (= (pow2 k) (* 2 (pow2 (- k 1))))) :pattern ((pow2 k)))))
(assert (= (pow2 0) 1))
(assert (= (pow2 64) 18446744073709551616))
(assert (forall ((a Int)) (! (=> (and (<= 0 a) (<= a 18446744073709551615)) (and (<= 0 (popc a)) (<= (popc a) 64) (= (= (popc a) 0) (= a 0)) (= (= (popc a) 64) (= a 18446744073709551615)) (=> (not (= a 18446744073709551615)) (and (<= 0 (lsb (bnot a))) (< (lsb (bnot a)) 64) (not (bit a (lsb (bnot a)))))))) :pattern ((popc a)))))
(assert (forall ((a Int) (b Int) (i Int)) (! (= (bit (band a b) i) (and (bit a i) (bit b i))) :pattern ((bit (band a b) i)))))
(assert (forall ((a Int) (b Int) (i Int)) (! (= (bit (bor a b) i) (or (bit a i) (bit b i))) :pattern ((bit (bor a b) i)))))
(assert (forall ((a Int) (b Int) (i Int)) (! (= (bit (bxor a b) i) (xor (bit a i) (bit b i))) :pattern ((bit (bxor a b) i)))))
(assert (forall ((a Int) (i Int)) (! (=> (and (<= 0 i) (< i 64)) (= (bit (bnot a) i) (not (bit a i)))) :pattern ((bit (bnot a) i)))))
(assert (forall ((a Int)) (! (=> (and (<= 0 a) (<= a 18446744073709551615)) (= (bnot a) (- 18446744073709551615 a))) :pattern ((bnot a)))))
(assert (forall ((k Int) (i Int)) (! (=> (<= 0 k) (= (bit (pow2 k) i) (= k i))) :pattern ((bit (pow2 k) i)))))
(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k 64)) (and (< 0 (pow2 k)) (<= (pow2 k) 9223372036854775808))) :pattern ((pow2 k)))))
(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k 31)) (<= (pow2 k) 1073741824)) :pattern ((pow2 k)))))
(assert (forall ((a Int) (k Int)) (! (=> (<= 0 k) (= (band a (pow2 k)) (ite (bit a k) (pow2 k) 0))) :pattern ((band a (pow2 k))))))
(assert (forall ((a Int) (k Int)) (! (=> (<= 0 k) (= (band (pow2 k) a) (ite (bit a k) (pow2 k) 0))) :pattern ((band (pow2 k) a)))))
(assert (forall ((i Int)) (! (not (bit 0 i)) :pattern ((bit 0 i)))))
(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i 64)) (bit 18446744073709551615 i)) :pattern ((bit 18446744073709551615 i)))))
(assert (forall ((a Int)) (! (=> (and (< 0 a) (<= a 18446744073709551615)) (and (<= 0 (lsb a)) (< (lsb a) 64) (bit a (lsb a)))) :pattern ((lsb a)))))
(assert (forall ((a Int) (i Int)) (! (=> (or (< i 0) (and (<= 64 i) (<= 0 a) (<= a 18446744073709551615))) (not (bit a i))) :pattern ((bit a i)))))
(assert (forall ((a Int) (k Int) (i Int)) (! (=> (and (<= 0 k) (<= 0 i) (< i 64)) (= (bit (shl64 a k) i) (and (<= k i) (bit a (- i k))))) :pattern ((bit (shl64 a k) i)))))
(assert (forall ((a Int) (k Int) (i Int)) (! (=> (and (<= 0 k) (<= 0 i)) (= (bit (shr64 a k) i) (bit a (+ i k)))) :pattern ((bit (shr64 a k) i)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (band a b)) (<= (band a b) a) (<= (band a b) b))) :pattern ((band a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= a (bor a b)) (<= b (bor a b)) (<= (bor a b) (+ a b)))) :pattern ((bor a b)))))
(assert (forall ((a Int)) (! (=> (<= 0 a) (and (= (band a 0) 0) (= (bor a 0) a))) :pattern ((band a 0)) :pattern ((bor a 0)))))
'''

PTRINT_AX = '''
(declare-fun ptr_int (Int Int) Int)
(declare-fun int_ptr (Int) Int)
(assert (= (ptr_int 0 0) 0))
(assert (= (int_ptr 0) 0))
(assert (forall ((n Int)) (! (=> (and (<= 0 n) (<= n 18446744073709551615)) (= (ptr_int (int_ptr n) 0) n)) :pattern ((int_ptr n)))))
(assert (forall ((n Int)) (! (=> (= (mod n 2) 1) (< (int_ptr n) 0)) :pattern ((int_ptr n)))))
(assert (forall ((b Int) (o Int)) (! (=> (< 0 b) (and (< 0 (ptr_int b o)) (= (mod (ptr_int b o) 2) 0))) :pattern ((ptr_int b o)))))
(assert (forall ((b Int) (o Int)) (! (and (<= 0 (ptr_int b o)) (<= (ptr_int b o) 18446744073709551615)) :pattern ((ptr_int b o)))))
'''

BASE_AX = '''
(declare-fun base (Int) Int)
(declare-fun btag (Int) Int)
(declare-fun bs ((Array Int Int) Int) Int)
(declare-fun embb (Int) Int)
(declare-fun embo (Int) Int)
(assert (forall ((b Int)) (! (=> (<= 0 b) (= (base b) b)) :pattern ((base b)))))
(assert (forall ((a (Array Int Int)) (b Int)) (! (=> (<= 0 b) (= (bs a b) (select a b))) :pattern ((bs a b)))))
'''


def symbols(t):
    return SYM.findall(t)


class Query:
    """builds self-contained SMT-LIB files for obligations of one FV"""

    def __init__(s, world, fv):
        s.w, s.fv = world, fv
        s.syms = {}

    def prelude(s, used, notes):
        out = []
        w = s.w
        need_base = bool(w.addr) and any(u.startswith('emb.') or u in ('base', 'bs') for u in used)
        if need_base or 'base' in used or 'bs' in used:
            out.append(BASE_AX)
            tag = 10
            for (S, f), k in sorted(w.addr.items()):
                tag += 1
                fn = 'emb.%s.%s' % (S, f)
                if fn not in used: continue
                from cfront import TStruct
                sz = w.sizeof(TStruct(S))
                fsz = 8
                lv = None
                out.append('(declare-fun %s (Int Int) Int)' % fn)
                out.append('(assert (forall ((b Int) (o Int)) (! (and (< ({f} b o) 0) (= (embb ({f} b o)) b) (= (embo ({f} b o)) o) (= (btag ({f} b o)) {t}) (= (base ({f} b o)) (base b))) :pattern (({f} b o)))))'.format(f=fn, t=tag))
                out.append('(assert (forall ((a (Array Int Int)) (b Int) (o Int)) (! (= (bs a ({f} b o)) (ite (and (<= 0 o) (<= (* {z} (+ o 1)) (select a b))) {fz} (- 1))) :pattern ((bs a ({f} b o))))))'.format(f=fn, z=sz, fz=w.addrsize[(S, f)]))
        if 'ptr_int' in used or 'int_ptr' in used: out.append(PTRINT_AX)
        if used & {'bit', 'band', 'bor', 'bxor', 'bnot', 'pow2', 'shl64', 'shr64', 'shl32', 'shr32', 'lsb', 'popc'}: out.append(BITS_AX)
        return out

    def symset(s, t):
        r = s.syms.get(t)
        if r is None:
            r = set(SYM.findall(t))
            s.syms[t] = r
        return r

    def build(s, facts, goal, extra_facts=(), use=()):
        """facts: list of terms; returns SMT text (unsat = proved)"""
        used = set()
        for t in facts: used |= s.symset(t)
        if goal is not None: used |= s.symset(goal)
        for t in extra_facts: used |= s.symset(t)
        w = s.w
        # close over logic definitions
        items, todo, seen = [], [u for u in used if u in w.defs], set()
        while todo:
            d = todo.pop()
            if d in seen: continue
            seen.add(d)
            dd = w.defs[d]
            for t in [dd.get('smt') or ''] + dd.get('axioms', []):
                ss = s.symset(t)
                used |= ss
                todo += [u for u in ss if u in w.defs and u not in seen]
        ax = []
        for a in w.axioms:
            if (a['trigger'] and a['trigger'] <= used) or a['name'] in use:
                ax.append(a)
                ss = s.symset(a['smt'])
                used |= ss
                todo = [u for u in ss if u in w.defs and u not in seen]
                while todo:
                    d = todo.pop()
                    if d in seen: continue
                    seen.add(d)
                    for t in [w.defs[d].get('smt') or ''] + w.defs[d].get('axioms', []):
                        s2 = s.symset(t)
                        used |= s2
                        todo += [u for u in s2 if u in w.defs and u not in seen]
        out = ['(set-logic ALL)'] if False else []
        out += s.prelude(used, s.fv.notes if s.fv else set())
        for n in w.order:
            if n in seen:
                out.append(w.defs[n]['smt'])
        for n in w.order:
            if n in seen: out += [x + ' ;opq ' + n for x in w.defs[n].get('axioms', [])]
        for a in ax: out.append('(assert %s)' % a['smt'])
        decls = s.fv.decls if s.fv else {}
        globs = []
        for u in sorted(used):
            if u in decls: out.append('(declare-const %s %s)' % (u, decls[u]))
        gl = sorted(u for u in used if u.startswith(('g.', 'str.', 'fn.')) and u in decls)
        for i, g in enumerate(gl):
            if g.startswith('fn.'): out.append('(assert (= %s %d))' % (g, 1000000 + fnid(g)))
        gl = [g for g in gl if not g.startswith('fn.')]
        if gl:
            for g in gl: out.append('(assert (and (< 0 %s) (< %s $brk)))' % (g, g) if '$brk' in used else '(assert (< 0 %s))' % g)
            if len(gl) > 1: out.append('(assert (distinct %s))' % ' '.join(gl))
            if '$alloc' in used:
                for g in gl: out.append('(assert (<= %d (select $alloc %s)))' % (s.gsize(g), g))
        for t in facts: out.append('(assert %s)' % t)
        for t in extra_facts: out.append('(assert %s)' % t)
        if goal is not None: out.append('(assert (not %s))' % goal)
        out.append('(check-sat)')
        return '\n'.join(out) + '\n'

    def gsize(s, g):
        fv = s.fv
        if g.startswith('str.'):
            for n in fv.notes:
                if n.startswith('str:' + g + ':'): return int(n.rsplit(':', 1)[1])
        n = g[2:]
        ty, init = fv.tu.globals[n]
        from cfront import TArr
        from pycparser import c_ast
        if isinstance(ty, TArr) and ty.n is None and isinstance(init, c_ast.InitList):
            return s.w.sizeof(ty.el, fv.tu) * len(init.exprs)
        return s.w.sizeof(ty, fv.tu)


def fnid(g):
    import zlib
    return zlib.crc32(g.encode()) % 900000


SOLVERS = {
    'z3new': ['z3-new', '-smt2', 'smt.random_seed=1', '-T:{t}', '{f}'],
    'z3new-noauto': ['z3-new', '-smt2', 'auto_config=false', 'smt.mbqi=false', '-T:{t}', '{f}'],
    'z3': ['z3', '-smt2', '-T:{t}', '{f}'],
    'z3-noauto': ['z3', '-smt2', 'auto_config=false', 'smt.mbqi=false', '-T:{t}', '{f}'],
    'z3new-m2': ['z3-new', '-smt2', 'auto_config=false', 'smt.mbqi=false', 'smt.arith.solver=2', '-T:{t}', '{f}'],
    'z3-case3': ['z3', '-smt2', 'auto_config=false', 'smt.mbqi=false', 'smt.case_split=3', 'smt.qi.eager_threshold=100', '-T:{t}', '{f}'],
    'cvc5': ['cvc5', '--lang=smt2.6', '--tlimit={ms}', '{f}'],
    'cvc5-rel': ['cvc5', '--lang=smt2.6', '--relational-triggers', '--no-arrays-eager-index', '--tlimit={ms}', '{f}'],
    'cvc5-nosi': ['cvc5', '--lang=smt2.6', '--full-saturate-quant', '--tlimit={ms}', '{f}'],
}
# the same solvers on weaker queries (dropping hypotheses is sound; only unsat counts):
# -sl: without the hypotheses about opaque definitions the goal does not mention; -opq: without the definitions of opaque symbols
SOLVERS['z3-sl'] = SOLVERS['z3-noauto']
SOLVERS['cvc5-sl'] = SOLVERS['cvc5-rel']
SOLVERS['z3-opq'] = SOLVERS['z3-noauto']
SOLVERS['cvc5-opq'] = SOLVERS['cvc5-rel']
ORDER = ['z3-noauto', 'cvc5-rel', 'z3new-noauto', 'cvc5', 'z3-sl', 'cvc5-sl', 'cvc5-opq', 'cvc5-nosi', 'z3-case3', 'z3new']


def weaken(path, kind):
    """path of the weaker query, or None when it would be the same"""
    out = path + '.' + kind
    lines = open(path).read().split('\n')
    ops = {l.rsplit(' ;opq ', 1)[1] for l in lines if ' ;opq ' in l}
    goal = next((l for l in reversed(lines) if l.startswith('(assert (not ')), '')
    if not ops or not goal: return None
    drop = ops - set(SYM.findall(goal)) if kind == 'sl' else set()
    res = []
    for l in lines:
        if ' ;opq ' in l and (kind == 'opq' or l.rsplit(' ;opq ', 1)[1] in drop): continue
        if drop and l is not goal and l.startswith('(assert') and not drop.isdisjoint(SYM.findall(l)): continue
        res.append(l)
    if len(res) == len(lines): return None
    tmp = out + '.%d' % os.getpid()
    with open(tmp, 'w') as f: f.write('\n'.join(res))
    os.rename(tmp, out)
    return out


def run_solver(name, path, t):
    k = name.rsplit('-', 1)[1] if '-' in name else ''
    if k in ('sl', 'opq'):
        path = weaken(path, k)
        if path is None: return 'unknown', 0.0
        r, dt = run_solver1(name, path, t)
        return ('unsat' if r == 'unsat' else r if r.startswith('error') else 'unknown'), dt
    return run_solver1(name, path, t)


def run_solver1(name, path, t):
    cmd = [a.format(t=max(1, int(t + 0.999)), ms=int(t * 1000), f=path) for a in SOLVERS[name]]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 5)
        o = p.stdout
    except subprocess.TimeoutExpired:
        o = 'timeout'
    r = o.split('\n')[0].strip() if o else 'error'
    if r not in ('sat', 'unsat', 'unknown', 'timeout'):
        if 'unsat' in o.split(): r = 'unsat'
        elif 'error' in o: r = 'error: ' + o[:300]
        else: r = 'timeout' if 'timeout' in o else 'unknown'
    if r == 'unsat' and '(error' in o: r = 'error: ' + o[:300]
    return r, time.time() - t0


def prove(text, path, budget=(3, 8, 20), order=ORDER):
    """-> (status, solver, seconds, log)   status: proved / failed"""
    with open(path, 'w') as f: f.write(text)
    log = []
    total = 0
    for t in budget:
        for sname in order:
            r, dt = run_solver(sname, path, t)
            total += dt
            log.append((sname, r, round(dt, 2)))
            if r == 'unsat': return 'proved', sname, total, log
            if r.startswith('error'): return 'error', sname, total, log
            if r == 'sat' : return 'failed', sname, total, log
        if all(l[1] == 'unknown' and not l[0].endswith(('-sl', '-opq')) and l[2] < t * 0.6 for l in log[-len(order):]): break
    return 'failed', None, total, log
