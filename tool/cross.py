#!/usr/bin/env python3
"""Development aid: every harmless edit of every mutation spec, packed into a few scratch copies of the repository, against every claimed check.

cross.py [only-bin] [-s spec-prefix]: an alarm is then traced to its edit with mutate.py."""
import os, sys, glob, runpy, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
vs = []
SPEC = sys.argv.pop(sys.argv.index('-s') + 1) if '-s' in sys.argv else ''
if SPEC:
    sys.argv.remove('-s')
for p in sorted(glob.glob('/verif/tool/mut/%s*.py' % SPEC)):
    for i, m in enumerate([m for m in runpy.run_path(p)['M'] if m[2] == 'ok']):
        vs.append((i, os.path.basename(p)[:-3] + '/' + m[0], m[3]))
vs.sort()
bins = []      # ({file: text}, [names])
CAP = int(os.environ.get('CAP', '12'))


def place(b, edits, used):
    t = dict(b)
    for f, old, new in edits:
        x = t.get(f) or open('/repo/' + f).read()
        if x.count(old) < 1:
            return None
        t[f] = x.replace(old, new, 1)
    return t


for i, n, e in vs:
    fs = {(f, old[:40]) for f, old, new in e}
    for b in bins:
        if len(b[1]) >= CAP or fs & b[2]:
            continue
        t = place(b[0], e, None)
        if t is not None:
            b[0] = t
            b[1].append(n)
            b[2] |= fs
            break
    else:
        t = place({}, e, None)
        if t is None:
            print('stale', n)
            continue
        bins.append([t, [n], set(fs)])
print(len(vs), 'edits in', len(bins), 'copies', flush=True)
only = int(sys.argv[1]) if len(sys.argv) > 1 else None


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


for k, (t, names, u) in enumerate(bins):
    if only is not None and k != only:
        continue
    W = '/tmp/crossrepo'
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('_build', '.git', 'build'))
    for f, x in t.items():
        open(W + '/' + f, 'w').write(x)
    env = dict(os.environ, VP_REPO=W, VP_EVIDENCE=W + '/ev')
    r = sh(sys.executable, '/verif/lib/facts.py', env=env)
    if r.returncode:
        print('bin', k, 'does not compile', names, (r.stdout + r.stderr)[-600:], flush=True)
        continue
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda i: (i, sh(sys.executable, '/verif/check.py', i, env=env)), ids))
    bad = [(i, r) for i, r in rs if r.returncode]
    print('bin', k, 'quiet' if not bad else 'ALARM %s' % [i for i, r in bad], ' '.join(names) if bad else '', flush=True)
    for i, r in bad:
        for l in (r.stdout + r.stderr).strip().splitlines()[:3]:
            print('    ', i, l[:260], flush=True)
    shutil.rmtree(W, ignore_errors=True)
