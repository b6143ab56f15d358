"""Fill the generated parts of DESIGN.md: python3 tools/design.py (reads claims.py, properties.jsonl, seeded/)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import claims
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
t = []
for p in P:
    c = claims.CLAIMS.get(p['id'])
    if not c: continue
    fns = sorted({f for s, l in c['proof'] for f in l if f != '@lemmas'}); e = c['explanation']
    b = re.split(r'Bounded stand-in \(not proved\): |Bounded: |bounded: ', e)
    proved = b[0].strip().rstrip(';'); bounded = b[1].strip() if len(b) > 1 else '—'
    t.append('| %s | %s | %s (%d functions) | %s |' % (p['id'], p['title'], proved.replace('|', '/'), len(fns), bounded.replace('|', '/')))
na = ['* %s (%s): %s' % (p['id'], p['title'], claims.NA[p['id']]) for p in P if p['id'] in claims.NA]
sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
how = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d))); sd.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], how.get(d, 'check of ' + m['property'])))
s = open(R + '/DESIGN.md').read()
def fill(s, k, v):
    a, z = '<!-- %s -->' % k, '<!-- /%s -->' % k
    if '@%s@' % k in s: return s.replace('@%s@' % k, a + '\n' + v + '\n' + z if k != 'TABLE' else v + '\n' + '<!-- end of table -->')
    if k == 'TABLE': return re.sub(r'(\|----\|----------\|--------\|---------\|\n).*?\n(<!-- end of table -->)', lambda m: m.group(1) + v + '\n' + m.group(2), s, flags=re.S)
    return re.sub(re.escape(a) + '.*?' + re.escape(z), lambda m: a + '\n' + v + '\n' + z, s, flags=re.S)
for k, v in (('TABLE', '\n'.join(t)), ('NA', '\n'.join(na)), ('SEEDS', '\n'.join(sd))): s = fill(s, k, v)
open(R + '/DESIGN.md', 'w').write(s)
