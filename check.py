#!/usr/bin/env python3-vt
"""check.py PID : decide property PID on the current /repo tree.

Stage A (deciding): generate and discharge every verification condition of the
functions under contract for PID from the current sources (cv/, specs/).
Stage B (bounded stand-in, never counted as proved): drive the real code with
the concrete engine (conc/) against an independent reference model; this also
replays failed obligations as concrete failing inputs.
"""
import os, sys, json, time, tempfile, shutil, subprocess, re, traceback
from multiprocessing import Pool
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'cv'))
sys.path.insert(0, ROOT)
import claims
REPO = os.environ.get('CV_REPO', '/repo')
NCPU = 8
T0 = time.time()


def elapsed(): return time.time() - T0


# ------------------------------------------------------------------ stage A
def gen_job(arg):
    """generate the obligations of one function; writes SMT files"""
    specf, fname, tmp = arg
    import cv, smt
    from cfront import CErr
    from spec import SpecErr
    sys.setrecursionlimit(20000)
    out = {'spec': specf, 'func': fname, 'obs': [], 'vac': [], 'err': None, 'file': None, 'noterm': [], 'line': 0}
    t0 = time.time()
    try:
        s = cv.Session()
        s.load(specf)
        if fname == '@lemmas':
            for a in [l for l in s.lemmas if l['file'] == specf]:
                out['obs'] += lemma_obs(s, a, tmp)
            out['file'] = specf
        else:
            cs = [c for c in s.funcs if c['name'] == fname and c['spec'] == specf]
            if not cs: raise CErr('no contract for %s in %s' % (fname, specf))
            c = cs[0]
            fv = s.gen(c)
            out['file'] = fv.tu.rel
            out['noterm'] = [str(x) for x in (fv.noterm or [])]
            q = smt.Query(s.w, fv)
            for i, ob in enumerate(fv.obs):
                text = q.build(ob.facts.list() if ob.facts else [], ob.goal, use=(c or {}).get('use', ()))
                p = os.path.join(tmp, '%s_%d.smt2' % (fname, i))
                with open(p, 'w') as f: f.write(text)
                out['obs'].append({'func': fname, 'kind': ob.kind, 'name': ob.name, 'line': ob.line, 'trace': list(ob.trace), 'path': p, 'goal': ob.goal[:3000], 'file': fv.tu.rel})
            for i, (n, facts) in enumerate(fv.vac):
                text = q.build(facts.list() if facts else [], None, use=(c or {}).get('use', ()))
                p = os.path.join(tmp, 'vac_%s_%d.smt2' % (fname, i))
                with open(p, 'w') as f: f.write(text)
                out['vac'].append((n, p))
            out['trusted'] = sorted('%s (%s)' % (k['name'], k['spec']) for k in s.funcs if 'trusted' in k['flags'])
    except (CErr, SpecErr) as x:
        out['err'] = '%s: %s' % (type(x).__name__, x)
    except Exception as x:
        out['err'] = 'internal: ' + traceback.format_exc()[-1500:]
    out['gen_s'] = time.time() - t0
    return out


def lemma_obs(s, a, tmp):
    out = []
    for i, (goal, text) in enumerate(s.lemma_queries(a)):
        p = os.path.join(tmp, 'lemma_%s_%d.smt2' % (a['name'], i))
        with open(p, 'w') as f: f.write(text)
        out.append({'func': 'lemma', 'kind': 'lemma', 'name': '%s/%d' % (a['name'], i), 'line': a['line'], 'trace': [], 'path': p, 'goal': goal[:2000], 'file': 'specs/' + a['file']})
    return out


class Proof:
    def __init__(s, pid, plist, tmp):
        s.pid, s.tmp = pid, tmp
        s.plist = plist
        s.hints = {}
        try: s.hints = json.load(open(os.path.join(ROOT, 'specs', 'hints.json')))
        except Exception: pass
        s.obs, s.undecided, s.funcs, s.trusted = [], [], [], set()
        s.vac_bad = []
        s.solver_s = 0.0

    def generate(s):
        jobs = [(sp, f, s.tmp) for sp, fs in s.plist for f in fs]
        with Pool(NCPU) as pool: res = pool.map(gen_job, jobs, chunksize=1)
        s.vacs = []
        for r in res:
            if r['err']:
                s.undecided.append({'func': r['func'], 'spec': r['spec'], 'why': r['err']})
                continue
            if r['func'] != '@lemmas': s.funcs.append({'function': r['func'], 'file': r['file'], 'spec': 'specs/' + r['spec'], 'obligations': len(r['obs']), 'termination_not_proved_at': r['noterm']})
            cnt = {}
            for o in r['obs']:
                k = '%s|%s|%s' % (o['func'], o['kind'], o['name'])
                cnt[k] = cnt.get(k, 0) + 1
                o['key'] = '%s|%d' % (k, cnt[k])
                o['status'] = None
                s.obs.append(o)
            for n, p in r['vac']: s.vacs.append((r['func'], n, p))
            s.trusted |= set(r.get('trusted', ()))

    def attempt(s, obs, budget, deadline, use_hints=True):
        import smt

        def one(o):
            if time.time() > deadline: return
            h = s.hints.get(o['key'])
            order = list(smt.ORDER)
            text = open(o['path']).read()
            if h and use_hints:
                r, dt = smt.run_solver(h[0], o['path'], max(4, min(60, 3 * h[1] + 2)))
                o['time'] = o.get('time', 0) + dt
                if r == 'unsat':
                    o['status'], o['solver'] = 'proved', h[0]
                    return
            for t in budget:
                if time.time() > deadline: return
                st, solver, dt, log = smt.prove(text, o['path'], (t,), order)
                o['time'] = o.get('time', 0) + dt
                o['log'] = log
                if st == 'proved':
                    o['status'], o['solver'], o['last'] = 'proved', solver, log[-1][2]
                    return
                o['status'] = 'failed'
        obs = sorted(obs, key=lambda o: -(s.hints.get(o['key'], ('', 0))[1]))
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, obs))

    def open_obs(s): return [o for o in s.obs if o['status'] != 'proved']

    def vacuity(s):
        import smt

        def one(v):
            r, dt = smt.run_solver('z3-noauto', v[2], 1)
            return v, r
        with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, s.vacs))
        by = {}
        for v, r in rs: by.setdefault(v[0], []).append((v[1], r))
        s.vac_checked = len(rs)
        for f, l in by.items():
            ret = [x for x in l]
            if ret and all(x[1] == 'unsat' for x in ret): s.vac_bad.append(f)
            if any(x[1] == 'unsat' and x[0] == 'precondition satisfiable' for x in l): s.vac_bad.append(f)


# ------------------------------------------------------------------ stage B
CF = ['-std=c99', '-D_XOPEN_SOURCE=700', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w']


def libfsm_units():
    I = ['-I', REPO + '/include', '-I', REPO + '/src', '-I', REPO + '/src/libfsm']
    import glob
    u = []
    for d in ('src/adt', 'src/libfsm', 'src/libfsm/cost', 'src/libfsm/pred', 'src/libfsm/print', 'src/libfsm/vm', 'src/libfsm/walk', 'src/print'):
        for f in sorted(glob.glob('%s/%s/*.c' % (REPO, d))):
            u.append((f, I + ['-DLX_HEADER="lexer.h"'], d.replace('/', '_') + '_' + os.path.basename(f)[:-2]))
    return u


def libre_units():
    import glob
    I = ['-I', REPO + '/include', '-I', REPO + '/src', '-I', REPO + '/src/libre']
    u = []
    for f in sorted(glob.glob(REPO + '/src/libre/*.c')):
        u.append((f, I, 'libre_' + os.path.basename(f)[:-2]))
    for d in ('class', 'print'):
        for f in sorted(glob.glob('%s/src/libre/%s/*.c' % (REPO, d))):
            u.append((f, I + ['-DLF_HEADER="class.h"'], 'libre_%s_%s' % (d, os.path.basename(f)[:-2])))
    for f in sorted(glob.glob(REPO + '/src/libre/dialect/*/*.c')):
        dn = os.path.basename(os.path.dirname(f))
        x = ['-DDIALECT=' + dn, '-DLX_HEADER="lexer.h"', '-I', os.path.dirname(f)]
        if dn == 'pcre': x += ['-DPCRE_DIALECT=1']
        u.append((f, I + x, 'dialect_%s_%s' % (dn, os.path.basename(f)[:-2])))
    return u


class Conc:
    def __init__(s, pid, cl, tmp, seed):
        s.pid, s.cl, s.tmp, s.seed = pid, cl, tmp, seed
        s.err = None
        s.bin = os.path.join(tmp, 'conc')

    def build(s):
        parts = s.cl['conc']['parts']
        o = []
        lib = libfsm_units() + (libre_units() if s.cl['conc'].get('re') else [])
        jobs = []
        for f, fl, n in lib:
            out = os.path.join(s.tmp, n + '.o')
            jobs.append((['gcc'] + CF + fl + ['-c', f, '-o', out], out))
        I = ['-I', REPO + '/include', '-I', REPO + '/src', '-I', REPO + '/src/libfsm', '-I', ROOT + '/conc']
        D = ['-DWITH_' + p.upper() for p in parts]
        for p in ['ref', 'main'] + parts:
            out = os.path.join(s.tmp, 'h_%s.o' % p)
            jobs.insert(0, (['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=address', '-D_XOPEN_SOURCE=700', '-w'] + D + I + ['-c', '%s/conc/%s.cpp' % (ROOT, p), '-o', out], out))

        def cc(j):
            p = subprocess.run(j[0], capture_output=True, text=True)
            return j[1], p.returncode, p.stderr[:2000]
        with ThreadPoolExecutor(NCPU) as ex: r = list(ex.map(cc, jobs))
        bad = [x for x in r if x[1]]
        if bad:
            s.err = 'compile: ' + bad[0][2]
            return False
        p = subprocess.run(['g++', '-fsanitize=address,undefined'] + [x[0] for x in r] + ['-o', s.bin], capture_output=True, text=True)
        if p.returncode:
            s.err = 'link: ' + p.stderr[:2000]
            return False
        return True

    def run(s, cp, seed, budget, scale, index=None):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1', CONC_TMP=s.tmp)
        ps = []
        for k in range(NCPU if index is None else 1):
            cmd = [s.bin, cp, str(seed), str(k), str(NCPU), str(budget), str(scale)] + ([str(index)] if index is not None else [])
            e = open(os.path.join(s.tmp, 'err.%s.%d' % (cp, k)), 'wb')
            ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=e, env=env, cwd=s.tmp), k))
        tot = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []}
        fails = []
        for p, k in ps:
            try: o, _ = p.communicate(timeout=budget + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
            got = False
            for l in o.decode('latin-1').split('\n'):
                if l.startswith('DONE '):
                    d = json.loads(l[5:])
                    got = True
                    tot['evaluations'] += d['evaluations']
                    tot['distinct_nontrivial'] += d['distinct_nontrivial']
                    tot['samples'] += d['samples']
                elif l.startswith('FAIL '):
                    got = True
                    d = json.loads(l[5:])
                    d['stderr'] = open(os.path.join(s.tmp, 'err.%s.%d' % (cp, k)), 'rb').read()[:6000].decode('latin-1')
                    fails.append(d)
                elif l.startswith('PASS'): got = True
            if not got:
                fails.append({'property': cp, 'seed': seed, 'index': -1, 'why': 'the driver died without a report (exit %s)' % p.returncode, 'input': '',
                              'stderr': open(os.path.join(s.tmp, 'err.%s.%d' % (cp, k)), 'rb').read()[:6000].decode('latin-1')})
        fails.sort(key=lambda d: len(d['input']) if d['index'] >= 0 else 1 << 30)
        return tot, fails


def known():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    cl = claims.CLAIMS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args: tier = 'thorough'
    thorough = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='vchk_%s_' % pid)
    rc = 1
    try:
        if '--replay' in args: rc = replay(pid, cl, tmp, args[args.index('--replay') + 1])
        elif '--hints' in args: rc = make_hints(pid, cl, tmp)
        else: rc = decide(pid, cl, tmp, seed, tier, thorough)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def make_hints(pid, cl, tmp):
    pr = Proof(pid, cl.get('proof', []), tmp)
    pr.generate()
    pr.attempt(pr.obs, (1, 4, 15, 40), time.time() + 3000)
    h = pr.hints
    for o in pr.obs:
        if o['status'] == 'proved':
            if 'last' not in o and o['key'] in h: continue       # the recorded solver still decides it
            h.pop(o['key'], None)
            last = o.get('last', 0)
            if last > 0.4 or o['solver'] != 'z3-noauto': h[o['key']] = [o['solver'], round(last, 1)]
    json.dump(dict(sorted(h.items())), open(os.path.join(ROOT, 'specs', 'hints.json'), 'w'), indent=0)
    bad = pr.open_obs()
    print('%s: %d obligations, %d open, undecided %s, %.0f s' % (pid, len(pr.obs), len(bad), pr.undecided, elapsed()))
    for o in bad: print('  OPEN %s %s:%s %s %s %s' % (o['func'], o['file'], o['line'], o['kind'], o['name'], ' > '.join(o['trace'])[-200:]))
    return 0 if not bad and not pr.undecided else 1


def replay(pid, cl, tmp, path):
    d = json.load(open(path))
    c = Conc(pid, cl, tmp, d.get('seed', 1))
    if d.get('kind') != 'input':
        print('the recorded violation is a failed proof obligation; see the file')
        return 1
    if not c.build(): print(c.err); return 1
    tot, fails = c.run(d['check'], d['seed'], 60, 1, d['index'])
    print(json.dumps(fails[0] if fails else {'passes': True}, indent=1))
    return 1 if fails else 0


def decide(pid, cl, tmp, seed, tier, thorough):
    ptmp = os.path.join(tmp, 'p'); os.mkdir(ptmp)
    ctmp = os.path.join(tmp, 'c'); os.mkdir(ctmp)
    pr = Proof(pid, cl.get('proof', []), ptmp)
    cc = Conc(pid, cl, ctmp, seed) if cl.get('conc') else None
    built = True
    if pr.plist: pr.generate()
    if cc: built = cc.build()
    t_gen = elapsed()
    if pr.plist:
        pr.attempt(pr.obs, (2, 6), time.time() + (260 if not thorough else 600))
        pr.vacuity()
    t_proof = elapsed()
    ctot, cfails = [], []
    kn = [k for k in known() if k[0] == pid]
    knmsg = []
    if cc and built:
        need = pr.open_obs() or pr.undecided or pr.vac_bad
        for cp, frac in cl['conc']['props']:
            b = (cl['conc'].get('budget', 25) * frac) * (6 if thorough else 1) * (2 if need and not thorough else 1)
            t, f = cc.run(cp, seed, b, (20 if thorough else 1) * (3 if need else 1))
            ctot.append((cp, t))
            if f:
                cfails += f
                break
        for _, kid, what in kn:
            t, f = cc.run(kid, seed, 20, 1, 0)
            if f: knmsg.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    if not cfails and pr.open_obs():
        # give the solvers a longer try before reporting
        dl = T0 + (560 if not thorough else 3000)
        pr.attempt(pr.open_obs(), (8, 20) if not thorough else (8, 20, 60), dl, use_hints=False)
    open_ = pr.open_obs()
    ev = evidence(pid, cl, pr, ctot, tier, seed, open_, cfails, t_gen, t_proof, cc, built, knmsg)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rdir = os.path.join(ROOT, 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.json')
    for m in knmsg: print(m)
    rc = 0
    if cfails:
        f = cfails[0]
        json.dump({'kind': 'input', 'property': pid, 'check': f['property'], 'seed': seed, 'index': f['index'], 'why': f['why'], 'input': f['input'], 'stderr': f['stderr'],
                   'how': 'python3-vt check.py %s --replay %s' % (pid, rp), 'open_obligations': [obdesc(o) for o in open_]}, open(rp, 'w'), indent=1)
        print('failing input: %s\n%s' % (f['why'][:1500], f['input'][:3000]))
        for o in open_[:10]: print('failed obligation: ' + obdesc(o))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif open_ or pr.vac_bad:
        json.dump({'kind': 'obligation', 'property': pid, 'failed_obligations': [dict(obdesc=obdesc(o), goal=o['goal'], log=o.get('log'), trace=o['trace'], query=open(o['path']).read()[:200000]) for o in open_[:5]],
                   'more': [obdesc(o) for o in open_[5:]], 'contradictory': pr.vac_bad}, open(rp, 'w'), indent=1)
        for o in open_[:10]: print('failed obligation: ' + obdesc(o))
        for f in pr.vac_bad: print('contract is contradictory (vacuous) for: ' + f)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    ev['violations'] = 1 if rc else 0
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    n = sum(t['evaluations'] for _, t in ctot)
    print('%s: %d/%d obligations of %d functions discharged, %d bounded cases, %.0f s%s' % (pid, len(pr.obs) - len(open_), len(pr.obs), len(pr.funcs), n, elapsed(),
          '' if not pr.undecided else '; undecided contracts: ' + ', '.join('%s (%s)' % (u['func'], u['why'][:160]) for u in pr.undecided)))
    if cc and not built: print('bounded engine did not build: ' + (cc.err or '')[:600])
    return rc


def obdesc(o): return '%s (%s:%s) %s: %s%s' % (o['func'], o['file'], o['line'], o['kind'], o['name'], ('  [' + ' > '.join(o['trace'][-6:]) + ']') if o['trace'] else '')


def evidence(pid, cl, pr, ctot, tier, seed, open_, cfails, t_gen, t_proof, cc, built, knmsg):
    by = {}
    st = 0.0
    for o in pr.obs:
        st += o.get('time', 0)
        if o['status'] == 'proved': by[o['solver']] = by.get(o['solver'], 0) + 1
    cov = {'explanation': cl['explanation']}
    if pr.plist:
        cov.update({'obligations': len(pr.obs), 'discharged': len(pr.obs) - len(open_), 'checker_cmd': 'python3-vt check.py ' + pid,
                    'trusted_base': claims.TRUSTED + sorted(pr.trusted), 'functions_under_contract': pr.funcs, 'discharged_by': by, 'solver_seconds': round(st, 1),
                    'undecided_contracts': pr.undecided, 'vacuity_points': getattr(pr, 'vac_checked', 0)})
    if ctot:
        ev = sum(t['evaluations'] for _, t in ctot)
        cov.update({'evaluations': ev, 'distinct_nontrivial': sum(t['distinct_nontrivial'] for _, t in ctot), 'rule': cl['conc']['rule'] + ' (bounded stand-in; not counted as proved)',
                    'samples': sum([t['samples'] for _, t in ctot], [])[:6] or ['(none)'], 'bounded_by_check': {c: t['evaluations'] for c, t in ctot}})
    if cc and not built: cov['bounded_engine_error'] = cc.err
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': cl['level'], 'coverage': cov, 'assumptions': cl.get('assumptions', []) + claims.ASSUMPTIONS,
            'wall_s': round(elapsed(), 2), 'known_findings': knmsg}


if __name__ == '__main__':
    main()
