#!/usr/bin/env python3
"""Development aid: apply small edits to scratch copies of the repository and run checks on them.

mutate.py SPEC.py [name-substring]: SPEC defines M = [(name, [props], expect, [(file, old, new), ...])];
expect is 'bug' (some listed check must exit 1) or 'ok' (every listed check must exit 0)."""
import os, subprocess, sys, runpy, shutil, queue
from concurrent.futures import ThreadPoolExecutor
N = int(os.environ.get('MUT_JOBS', '6'))
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def fresh(W):
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(os.environ.get('MUT_BASE','/repo'), W, ignore=shutil.ignore_patterns('_build', '.git', 'build'))
def one(W, m):
    name, props, expect, edits = m
    saved, msg = {}, []
    try:
        for f, old, new in edits:
            p = os.path.join(W, f)
            t = open(p).read()
            saved.setdefault(p, t)
            if t.count(old) < 1:
                return False, ['!! %s: text not found in %s: %r' % (name, f, old[:60])]
            open(p, 'w').write(t.replace(old, new, 1))
        res = {}
        for pr in props:
            r = sh(sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'check.py'), pr, env=dict(os.environ, VP_REPO=W, VP_EVIDENCE=W + '/ev'))
            res[pr] = (r.returncode, (r.stdout + r.stderr).strip().splitlines())
        codes = [res[p][0] for p in props]
        good = (1 in codes) if expect == 'bug' else all(c == 0 for c in codes)
        msg.append('%s %-40s %s %s' % ('ok ' if good else 'BAD', name, expect, {p: res[p][0] for p in props}))
        for p in props:
            if not good or '-v' in sys.argv:
                msg += ['       %s %s' % (p, l[:300]) for l in res[p][1][-6:]]
        return good, msg
    finally:
        for p, t in saved.items():
            open(p, 'w').write(t)
def main():
    spec = runpy.run_path(sys.argv[1])['M']
    sub = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-v' else ''
    todo = [m for m in spec if sub in m[0]]
    q = queue.Queue()
    base = '/tmp/mutrepo-'
    ws = [base + str(i) for i in range(min(N, len(todo)))]
    for w in ws:
        fresh(w)
        q.put(w)
    def job(m):
        w = q.get()
        try:
            return one(w, m)
        finally:
            q.put(w)
    bad = 0
    with ThreadPoolExecutor(N) as ex:
        for good, msg in ex.map(job, todo):
            bad += not good
            if not good or '-v' in sys.argv:
                print('\n'.join(msg), flush=True)
    print('%d variants, bad: %d' % (len(todo), bad))
if __name__ == "__main__":
    main()
