#!/usr/bin/env python3-vt
"""Plant and evaluate seeded changes (development tool; no check uses it).
  seed.py new FILE.py          FILE defines SEEDS = [dict(id, property, file, edits=[(old,new[,count])], demo=C text, needs, breaks)]
  seed.py verify ID...         patched build + stable tests + demo, in a private mount of a scratch copy over /repo
  seed.py check ID... [-p PID] run the property's check against the patched tree
"""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'
W = '/tmp/w/mr'
DEMO = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -g -w -D_XOPEN_SOURCE=700 %s -I include -I src -I src/libfsm -o "$t/demo" "$d/demo.c" %s || exit 1
cd "$t" && timeout 120 ./demo
'''


def mk(s):
    d = os.path.join(V, s['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(dir='/tmp/w')
    try:
        files = {}
        for e in s['edits']:
            f = e[3] if len(e) > 3 else s['file']
            t = files.get(f) or open('/repo/' + f).read()
            n = e[2] if len(e) > 2 and e[2] else 1
            assert t.count(e[0]) >= 1, (s['id'], e[0])
            assert n != 1 or t.count(e[0]) == 1, (s['id'], 'ambiguous', t.count(e[0]), e[0])
            files[f] = t.replace(e[0], e[1])
        p = ''
        for f, t in files.items():
            os.makedirs(os.path.join(tmp, 'b', os.path.dirname(f)), exist_ok=True)
            open(os.path.join(tmp, 'b', f), 'w').write(t)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-color', '/repo/' + f, os.path.join(tmp, 'b', f)], capture_output=True, text=True).stdout
            r = r.replace('a/repo/' + f, 'a/' + f).replace('b' + os.path.join(tmp, 'b', f), 'b/' + f)
            p += r
        open(d + '/patch.diff', 'w').write(p)
    finally: shutil.rmtree(tmp)
    open(d + '/demo.c', 'w').write(s['demo'])
    libs = s.get('libs', '"$OLDPWD_/build/lib/libfsm.a"')
    libs = ('build/lib/libre.a build/lib/libfsm.a' if s.get('re') else 'build/lib/libfsm.a')
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('cflags', ''), libs))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def copy(k):
    c = '%s/c%d' % (W, k)
    if not os.path.exists(c):
        os.makedirs(W, exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', c], check=True)
    else:
        subprocess.run(['rsync', '-a', '--delete', '/repo/', c + '/']) if shutil.which('rsync') else (shutil.rmtree(c), subprocess.run(['cp', '-a', '/repo', c], check=True))
    return c


def inrepo(c, cmd, timeout=1500, env=None):
    """run cmd with scratch copy c mounted on /repo"""
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (c, cmd)], capture_output=True, text=True, timeout=timeout, env=env)


def verify(i, k):
    c = copy(k)
    d = os.path.join(V, i)
    r0 = inrepo(c, 'bash %s/demo.sh' % d)
    a = subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if a.returncode: return i, 'apply: ' + a.stderr[:300]
    out = '%s/o%d.json' % (W, k)
    t = inrepo(c, 'bash /opt/vp/test.sh %s >%s.log 2>&1' % (out, out))
    try:
        base = set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) and 'passed' in json.load(open('/opt/vp/BASELINE.json')) else None
        o = json.load(open(out))
        nf = len(o['failed'])
    except Exception as x: return i, 'tests: %s' % x
    r1 = inrepo(c, 'bash %s/demo.sh' % d)
    ok = r0.returncode == 0 and r1.returncode != 0 and nf == 0 and len(o['passed']) == 749
    return i, '%s demo clean %d patched %d (%s) tests %d/%d %s' % ('OK ' if ok else 'BAD', r0.returncode, r1.returncode, (r1.stdout + r1.stderr)[-120:].replace('\n', ' '), len(o['passed']), nf, r0.stderr[-300:] if r0.returncode else '')


def check(i, pid, k):
    c = '%s/k%d' % (W, k)
    if os.path.exists(c): shutil.rmtree(c)
    os.makedirs(c)
    subprocess.run('cp -a /repo/src /repo/include /repo/share /repo/.git %s/' % c, shell=True)
    d = os.path.join(V, i)
    a = subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if a.returncode: return i, 'apply: ' + a.stderr[:300]
    v2 = '%s/v%d' % (W, k)
    if os.path.exists(v2): shutil.rmtree(v2)
    os.makedirs(v2)
    subprocess.run('cp -a /verif/cv /verif/specs /verif/conc /verif/*.py /verif/known-findings.txt %s/' % v2, shell=True)
    pid = pid or json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['python3-vt', v2 + '/check.py', pid], capture_output=True, text=True, env=dict(os.environ, CV_REPO=c))
    vl = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or l.startswith('failing input')]
    fo = [l for l in r.stdout.split('\n') if l.startswith('failed obl')][:2]
    return i, 'rc %d %s %s %s' % (r.returncode, ' '.join(x.replace(v2, '')[:160] for x in vl), fo, (r.stdout + r.stderr).strip().split('\n')[-1][:200])


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'new':
        ns = {}
        exec(open(args[0]).read(), ns)
        for s in ns['SEEDS']: mk(s)
        args = [s['id'] for s in ns['SEEDS']]
        cmd = 'verify'
    pid = None
    if '-p' in args:
        pid = args[args.index('-p') + 1]
        args = [a for a in args if a not in ('-p', pid)]
    if not args: args = sorted(os.listdir(V))
    if cmd == 'verify':
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(lambda x: verify(x[1], x[0] % 4) if False else verify(x[1], x[0]), list(enumerate(args))): print(i, r, flush=True)
        for k in range(len(args)): shutil.rmtree('%s/c%d' % (W, k), ignore_errors=True)
    elif cmd == 'check':
        for k, i in enumerate(args): print(*check(i, pid, 0), flush=True)
