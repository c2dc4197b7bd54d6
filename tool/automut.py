#!/usr/bin/env python3
"""Development aid: small random changes to the sources, each against every claimed check; prints the ones no check reports.

automut.py SEED COUNT [file-regex]"""
import os, sys, glob, re, random, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
seed, count = int(sys.argv[1]), int(sys.argv[2])
pat = sys.argv[3] if len(sys.argv) > 3 else '.'
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r'>=', '>'), (r'<=', '<'), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'INGRESS', 'EGRESS'), (r'EGRESS', 'INGRESS'), (r'ngress', '\0'), (r'gress', '\1'),
       (r'd_clientSocket', 'd_serverSocket'), (r'd_serverSocket', 'd_clientSocket'), (r'\.first\b', '.second'), (r'\.second\b', '.first'),
       (r'\+\+', '--'), (r' \+ ', ' - '), (r' \+= ', ' -= '), (r'!(?=[\w(])', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'Alarm', ''), (r'AlarmOnly', '')]
cands = []
for p in sorted(glob.glob('/repo/libamqpprox/amqpprox_*.cpp') + glob.glob('/repo/libamqpprox/amqpprox_*.h')):
    if not re.search(pat, p):
        continue
    ls = open(p).read().split('\n')
    com = False
    log = False
    for i, l in enumerate(ls):
        s = l.strip()
        if s.startswith('/*'):
            com = True
        c = com
        if '*/' in s:
            com = False
        if re.match(r'LOG_|BOOST_LOG', s):
            log = True
        lg = log
        if log and s.endswith(';'):
            log = False
        if c or lg or not s or s.startswith(('//', '#', '*', '"', '<<', 'template', 'namespace', 'using', 'class', 'struct')) or 'static_assert' in s:
            continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                if l[:m.start()].count('"') % 2:
                    continue
                if b == '\0':
                    n = l[:m.start() - 1] + ('egress' if l[m.start() - 1] == 'i' else 'Egress') + l[m.end():] if l[m.start() - 1] in 'iI' else None
                elif b == '\1':
                    n = l[:m.start() - 1] + ('ingress' if l[m.start() - 1] == 'e' else 'Ingress') + l[m.end():] if l[m.start() - 1] in 'eE' else None
                else:
                    n = l[:m.start()] + b + l[m.end():]
                if n is not None:
                    cands.append((p, i, n))
        if s.endswith(';') and not re.match(r'(return|break|continue|throw|auto|const|std::|typedef|case|uint|int|bool|size_t|virtual|explicit|friend|static|[A-Z]\w*(<.*>)? +[&*]?\w+|\w+::\w+ +\w+)', s) and p.endswith('.cpp') \
                and ls[i - 1].strip().endswith((';', '{', '}', ':')):
            cands.append((p, i, re.match(r'\s*', l).group() + ';'))
random.seed(seed)
random.shuffle(cands)
print(len(cands), 'candidates', flush=True)


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


W = '/tmp/autorepo%d' % seed
shutil.rmtree(W, ignore_errors=True)
shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('_build', '.git', 'build'))
done = caught = 0
for p, i, n in cands:
    if done >= count:
        break
    q = W + p[len('/repo'):]
    ls = open(p).read().split('\n')
    old = ls[i]
    ls[i] = n
    open(q, 'w').write('\n'.join(ls))
    env = dict(os.environ, VP_REPO=W, VP_EVIDENCE=W + '/ev')
    r = sh(sys.executable, '/verif/lib/facts.py', env=env)
    if r.returncode == 0:
        done += 1
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda i: (i, sh(sys.executable, '/verif/check.py', i, env=env)), ids))
        bad = [i for i, r in rs if r.returncode == 1]
        err = [i for i, r in rs if r.returncode not in (0, 1)]
        caught += bool(bad)
        if not bad or err:
            print('%s:%d %s\n   - %s\n   + %s' % (os.path.basename(p), i + 1, ('ERROR ' + str(err)) if err else '', old.strip(), n.strip()), flush=True)
    shutil.copyfile(p, q)
print('caught', caught, 'of', done, flush=True)
shutil.rmtree(W, ignore_errors=True)
