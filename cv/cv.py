"""Driver: load spec files, verify functions, discharge obligations."""
import os, sys, time, json, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cfront
from cfront import *
from se import *
from exec import FV
import spec as specmod
from spec import SpecErr
import smt

SPECDIR = os.path.join(os.path.dirname(HERE), 'specs')


class Session:
    def __init__(s):
        s.w = World()
        s.w.axioms = []
        s.w.addrsize = {}
        BASE['f'].clear()
        BASE['t'].clear()
        s.loaded = {}
        s.funcs = []      # contracts in order
        s.lemmas = []
        s.errors = []

    def load(s, name):
        """load a spec file (by basename)"""
        if name in s.loaded: return
        s.loaded[name] = True
        path = os.path.join(SPECDIR, name)
        items = specmod.parse_file(path)
        tu = None
        for it in items:
            if it[0] == 'import': s.load(it[1])
        for it in items:
            k = it[0]
            if k == 'source':
                tu = cfront.load(it[1])
                s.w.add_tu(tu)
            elif k == 'ghostsource': s.w.add_tu(cfront.TU(os.path.join(SPECDIR, it[1])))
            elif k == 'basetype': BASE['t'].add(it[1])
            elif k == 'basefield': BASE['f'].add((it[1], it[2]))
            elif k == 'addrfield':
                _, S, f, ln = it
                fs, t2 = s.w.fields(S, tu)
                ty = [x.ty for x in fs if x.name == f]
                if not ty: raise CErr('addrfield %s.%s not found' % (S, f))
                s.w.addr[(S, f)] = memkey(ty[0]) if not isinstance(ty[0], TStruct) else ty[0].tag
                s.w.addrsize[(S, f)] = t2.sizeof(ty[0])
            elif k == 'def': s.define(it, tu, name)
            elif k in ('axiom', 'lemma', 'comprehension'): s.axiom(it, tu, name)
            elif k == 'fn':
                c = it[2]
                c['tu'] = tu
                c['spec'] = name
                c['key'] = '%s:%s' % (tu.rel if tu else name, c['name'])
                ft = tu.ftypes.get(c['name']) if tu else None
                c['params'] = list(ft.names) if ft else None
                c['ptypes'] = ft.params if ft else None
                c['rtype'] = ft.ret if ft else None
                c['assigns'] = c['assigns'] or []
                s.w.contracts[c['name']] = c
                s.w.contracts[(tu.rel if tu else None, c['name'])] = c
                s.funcs.append(c)

    def lookup(s, n, tu):
        c = s.w.contracts.get((tu.rel, n))
        if c is not None: return c
        # a static function of this TU is never bound to another file's contract
        if n in tu.funcs and 'static' in (tu.funcs[n].decl.storage or []): return None
        c = s.w.contracts.get(n)
        return c

    # ---- logic definitions
    def define(s, it, tu, fname):
        _, n, rt, ps, opq, body, ln = it
        w = s.w
        d = {'params': ps, 'rt': rt, 'maps': [], 'file': fname, 'line': ln, 'body': body}
        env, binders = {}, []
        for t, p in ps:
            v, ds = spec_var(w, t, p, tu)
            env[p] = v
            binders += ds
        maps = []

        def heap(m):
            if m not in w.sorts: raise SpecErr('unknown map %s' % m)
            if m not in maps: maps.append(m)
            return 'H.' + m
        srt = {('bool', 0): 'Bool', ('iseq', 0): DEPTH1, ('set', 0): '(Array Int Bool)', ('iseq2', 0): DEPTH2}.get(rt, 'Int')
        w.defs[n] = d
        if rt == ('bool', 0): BOOLFN.add(n)
        if body is None:
            d['smt'] = '(declare-fun %s (%s) %s)' % (n, ' '.join(x[1] for x in binders), srt)
        else:
            ev = SpecEval(w, env, heap, tu=tu)
            try:
                v = ev.ev(body)
            except SpecErr as x:
                raise SpecErr('%s:%d (%s): %s' % (fname, ln, n, x))
            t = v.t if srt != 'Int' or v.k != 'bool' else ite(v.t, '1', '0')
            if v.k == 'ptr': raise SpecErr('pointer-valued logic function %s' % n)
            d['maps'] = maps
            hb = [('H.' + m, w.sorts[m]) for m in maps]
            allb = hb + binders
            if opq:
                d['smt'] = '(declare-fun %s (%s) %s)' % (n, ' '.join(x[1] for x in allb), srt)
                if allb:
                    app = '(%s %s)' % (n, ' '.join(x[0] for x in allb))
                    d['axioms'] = ['(assert (forall (%s) (! (= %s %s) :pattern (%s))))' % (' '.join('(%s %s)' % x for x in allb), app, t, app)]
                else: d['axioms'] = ['(assert (= %s %s))' % (n, t)]
            else:
                d['smt'] = '(define-fun %s (%s) %s %s)' % (n, ' '.join('(%s %s)' % x for x in allb), srt, t)
        w.order.append(n)

    def axiom(s, it, tu, fname):
        k, n, e, attrs, two, ln = it
        if k == 'comprehension':
            # forall xs . exists iseq S . forall int b . S[b] != 0 <==> P, S not in P: a set exists for every property P, so such an axiom cannot be inconsistent
            try:
                assert e[0] == 'forall'
                ex = e[3]
                assert ex[0] == 'exists' and len(ex[1]) == 1 and ex[1][0][0] in (('iseq', 0), ('iseq2', 0))
                S, ty = ex[1][0][1], ex[1][0][0]

                def strip(t): return tuple(strip(y) for y in t) if isinstance(t, (tuple, list)) else t
                def uses(t, nm): return t == nm or (isinstance(t, (tuple, list)) and any(uses(y, nm) for y in t))
                fa = ex[3]
                if fa[0] == 'call':
                    # or exists S . P(xs, S) with P(xs, S) defined in that form
                    d = s.w.defs[fa[1]]
                    assert strip(fa[2][-1])[:2] == ('id', S) and not uses(fa[2][:-1], S) and d['params'][-1][0] == ty
                    S, fa = d['params'][-1][1], d['body']
                dim = 2 if ty[0] == 'iseq2' else 1
                assert fa[0] == 'forall' and len(fa[1]) == dim and all(t == ('int', 0) for t, _ in fa[1]) and fa[3][0] == 'iff'
                assert len({x for _, x in fa[1]} | {S}) == dim + 1
                lhs = ('id', S)
                for _, x in fa[1]: lhs = ('idx', lhs, ('id', x))
                assert strip(fa[3][1])[:4] == strip(('cmp', '!=', lhs, ('num', 0)))[:4] and not uses(fa[3][2], S), strip(fa[3][1])
            except (AssertionError, IndexError) as x: raise SpecErr('%s:%d: not a comprehension: %s' % (fname, ln, x))
        two = {m + x for m in two for x in ('', '@b', '@o') if m + x in s.w.sorts} | {m for m in two}
        ind = [x[4:] for x in attrs if x.startswith('ind_')]

        def term(e, env=None):
            maps = []

            def heap(m, pre='H.'):
                if (pre, m) not in maps: maps.append((pre, m))
                return pre + m
            ev = SpecEval(s.w, env or {}, lambda m: heap(m, 'H2.' if m in two else 'H.'), old=heap, tu=tu)
            try: t = ev.b(e)
            except SpecErr as x: raise SpecErr('%s:%d (%s): %s' % (fname, ln, n, x))
            if maps:
                hb = ' '.join('(%s%s %s)' % (p, m, s.w.sorts[m]) for p, m in maps)
                if t.startswith('(forall (') :
                    # merge binders so that user patterns stay valid
                    inner = sexp_args(t)
                    t = '(forall (%s %s) %s)' % (hb, inner[0][1:-1], inner[1])
                else: t = '(forall (%s) %s)' % (hb, t)
            return t
        t = term(e)
        goals = None
        if ind:
            # induction over one integer binder: negative values, zero, and the step
            v = ind[0]
            if e[0] != 'forall' or v not in [x for _, x in e[1]]: raise SpecErr('%s:%d: induction variable' % (fname, ln))
            rest = [x for x in e[1] if x[1] != v]

            def inst(val):
                body = ('forall', rest, [], e[3]) if rest else e[3]
                return term(body, {v: I(val)})
            c = 'ind!' + v
            dc = {c: 'Int'}
            goals = [(dc, ['(< %s 0)' % c], inst(c)), ({}, [], inst('0')), (dc, ['(<= 0 %s)' % c, inst(c)], inst('(+ %s 1)' % c))]
        trig = {u for u in smt.symbols(t) if u in s.w.defs}
        a = {'name': n, 'smt': t, 'kind': k, 'trigger': trig if 'auto' in attrs else None, 'attrs': attrs, 'file': fname, 'line': ln,
             'index': len(s.w.axioms), 'goals': goals or [({}, [], t)]}
        if k == 'lemma': s.lemmas.append(a)
        s.w.axioms.append(a)

    def lemma_queries(s, a):
        """[(goal, SMT text)]: only earlier axioms and lemmas may be used"""
        class W2: pass
        W = W2()
        W.__dict__.update(s.w.__dict__)
        W.axioms = [x for x in s.w.axioms if x['index'] < a['index']]
        W.sizeof = s.w.sizeof
        out = []
        for dc, facts, goal in a['goals']:
            class FV0: pass
            fv = FV0()
            fv.decls, fv.notes = dc, set()
            q = smt.Query(W, fv)
            out.append((goal, q.build(facts, goal, use=[x for x in a['attrs'] if x != 'auto'])))
        return out

    # ---- verification of one function
    def gen(s, c, rename=None):
        tu = c['tu']
        if c['name'] not in tu.funcs: raise CErr('function %s not found in %s' % (c['name'], tu.rel))
        fv = FV(s.w, tu, c['name'], c, s.lookup, rename)
        fv.verify()
        return fv


def discharge(sess, fvs, lemmas=(), jobs=8, budget=(3, 8, 20), tmp=None, verbose=False, filt=None, keep=None):
    """prove every obligation.  -> list of result dicts"""
    own = tmp is None
    tmp = tmp or tempfile.mkdtemp(prefix='cv_')
    tasks = []
    for fv in fvs:
        q = smt.Query(sess.w, fv)
        for i, ob in enumerate(fv.obs):
            if filt and not filt(ob): continue
            tasks.append((fv, q, ob, '%s_%d' % (fv.fname, i)))
    res = []

    def one(fv, q, ob, name):
        facts = ob.facts.list() if ob.facts else []
        text = q.build(facts, ob.goal, use=(fv.c or {}).get('use', ()))
        path = os.path.join(tmp, name + '.smt2')
        st, solver, dt, log = smt.prove(text, path, budget)
        if keep and st != 'proved': shutil.copy(path, os.path.join(keep, name + '.smt2'))
        return {'func': fv.fname, 'kind': ob.kind, 'name': ob.name, 'line': ob.line, 'status': st, 'solver': solver, 'time': dt,
                'log': log, 'trace': ob.trace, 'goal': ob.goal, 'id': name, 'file': fv.tu.rel}

    def lem(a):
        rs = []
        for i, (goal, text) in enumerate(sess.lemma_queries(a)):
            st, solver, dt, log = smt.prove(text, os.path.join(tmp, 'lemma_%s_%d.smt2' % (a['name'], i)), budget)
            rs.append((st, solver, dt, log, goal, i))
            if keep and st != 'proved': os.makedirs(keep, exist_ok=True); shutil.copy(os.path.join(tmp, 'lemma_%s_%d.smt2' % (a['name'], i)), keep)
        bad = [r for r in rs if r[0] != 'proved']
        st, solver, dt, log, goal, i = (bad or rs)[0]
        return {'func': 'lemma', 'kind': 'lemma', 'name': '%s/%d' % (a['name'], i), 'line': a['line'], 'status': st, 'solver': solver, 'time': sum(r[2] for r in rs), 'log': log,
                'trace': (), 'goal': goal[:2000], 'id': 'lemma_' + a['name'], 'file': a['file']}
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(one, *t) for t in tasks] + [ex.submit(lem, a) for a in lemmas]
        for f in as_completed(fs):
            r = f.result()
            res.append(r)
            if verbose and r['status'] != 'proved':
                print('  FAIL %s %s:%d %s: %s  %s' % (r['id'], r['file'], r['line'], r['kind'], r['name'], ' > '.join(r['trace'])), flush=True)
                print('       ', r['log'][-5:], flush=True)
    if own: shutil.rmtree(tmp)
    return res


def vacuity(sess, fvs, tmp, jobs=8, t=1):
    """reachability: facts at entry and at every return path must not be contradictory.
    At least one return path of every function must be satisfiable-or-unknown."""
    out = []

    def one(fv, name, facts, i):
        q = smt.Query(sess.w, fv)
        text = q.build(facts.list() if facts else [], None, use=(fv.c or {}).get('use', ()))
        path = os.path.join(tmp, 'vac_%s_%d.smt2' % (fv.fname, i))
        with open(path, 'w') as f: f.write(text)
        r, dt = smt.run_solver('z3-noauto', path, t)
        return fv.fname, name, r
    with ThreadPoolExecutor(jobs) as ex:
        fs = []
        for fv in fvs:
            for i, (n, facts) in enumerate(fv.vac): fs.append(ex.submit(one, fv, n, facts, i))
        for f in fs: out.append(f.result())
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('funcs', nargs='*')
    ap.add_argument('-b', default='2,6')
    ap.add_argument('-k', '--keep')
    ap.add_argument('-l', '--lemmas', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--vac', action='store_true')
    a = ap.parse_intermixed_args()
    s = Session()
    s.load(a.spec)
    if a.keep: os.makedirs(a.keep, exist_ok=True)
    budget = tuple(float(x) for x in a.b.split(','))
    tot = 0
    for c in s.funcs:
        if a.funcs and c['name'] not in a.funcs: continue
        if not a.funcs and c['spec'] != a.spec: continue
        if 'trusted' in c['flags'] or 'inline' in c['flags']: continue
        t0 = time.time()
        try:
            fv = s.gen(c)
        except CErr as x:
            print('%-40s EXTRACT-FAIL %s (line %d)' % (c['name'], x, 0))
            if a.v: raise
            continue
        t1 = time.time()
        r = discharge(s, [fv], budget=budget, verbose=True, keep=a.keep)
        bad = [x for x in r if x['status'] != 'proved']
        mx = max([x['time'] for x in r] or [0])
        print('%-40s %4d obligations, %d failed   gen %.1fs prove %.1fs max %.1fs %s' % (
            c['name'], len(r), len(bad), t1 - t0, time.time() - t1, mx, ('noterm ' + str(fv.noterm)) if fv.noterm else ''), flush=True)
        if a.v:
            for x in r:
                if x['status'] == 'proved' and x['time'] > 2: print('   slow %.1f %s %s %s %s' % (x['time'], x['solver'], x['kind'], x['name'], x['line']))
        if a.vac:
            tmp = tempfile.mkdtemp()
            v = vacuity(s, [fv], tmp)
            dead = [x for x in v if x[2] == 'unsat']
            print('   vacuity: %d points, %d contradictory: %s' % (len(v), len(dead), [d[1] for d in dead]))
            shutil.rmtree(tmp)
    if a.lemmas:
        r = discharge(s, [], lemmas=[l for l in s.lemmas if l['file'] == a.spec], budget=budget, verbose=True, keep=a.keep)
        print('lemmas: %d, failed %d' % (len(r), len([x for x in r if x['status'] != 'proved'])))


if __name__ == '__main__':
    try: main()
    except (CErr, SpecErr) as x: sys.exit('%s: %s' % (type(x).__name__, x))
