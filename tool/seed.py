#!/usr/bin/env python3
"""Development aid: build the planted changes under seeded/ from their specification and confirm each in a scratch copy.

seed.py [-c] SPEC.py [name-substring]   SPEC defines S = [dict(id, property, needs, breaks, edits, demo[, sh])]
-c: run every check on the changed copy, not only the one of its property."""
import os, subprocess, sys, runpy, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrepo'
SH = '''#!/bin/bash
# exits 0 when the behaviour is intact; run from the repository root after a build
set -u
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -g -DNDEBUG %(flags)s -DBOOST_ALL_DYN_LINK -DBOOST_ALL_NO_LIB -Ilibamqpprox -Itests -I_build/authproto "$d/demo.cpp" %(src)s \\
  -o "$w/demo" _build/libamqpprox/liblibamqpprox.a _build/tests/libamqpprox_testapparatus.a _build/libamqpprox/liblibamqpprox.a _build/authproto/libauthproto.a \\
  -lgtest -lgmock -lprotobuf -lssl -lcrypto -lboost_system -lboost_log_setup -lboost_log -lboost_thread -lboost_filesystem -lboost_regex -lpthread || exit 99
timeout 120 "$w/demo" > "$w/out" 2>&1
rc=$?
tail -5 "$w/out"
exit $rc
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def build():
    sh('cmake', '-S', W, '-B', W + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_MODULE_PATH=/opt/vp/cmake', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON')
    return sh('ninja', '-C', W + '/_build', '-j8')
def sync():
    os.makedirs(W, exist_ok=True)
    if shutil.which('rsync'):
        sh('rsync', '-a', '--no-times', '--checksum', '--delete', '--exclude=_build', '--exclude=.git', '/repo/', W + '/')
    else:
        for d, ds, fs in os.walk('/repo'):
            ds[:] = [x for x in ds if x not in ('_build', '.git')]
            for f in fs:
                s = os.path.join(d, f); t = W + s[len('/repo'):]
                os.makedirs(os.path.dirname(t), exist_ok=True)
                if not os.path.exists(t) or open(s, 'rb').read() != open(t, 'rb').read():
                    shutil.copyfile(s, t)
    os.makedirs(W + '/_build', exist_ok=True)
    open(W + '/_build/flavour', 'w').write('conan') if not os.path.exists(W + '/_build/flavour') else None
def tests():
    r = sh(W + '/_build/bin/amqpprox_tests', '--gtest_brief=1', cwd=W)
    return r.returncode == 0 or 'FAILED' not in r.stdout, r.stdout[-600:]
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    spec = runpy.run_path(a[0])['S']
    sub = a[1] if len(a) > 1 else ''
    sync()
    for s in spec:
        if sub not in s['id']:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(s.get('sh') or SH % {'flags': s.get('flags', ''), 'src': s.get('src', '')})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sync()
        patch = ''
        ok = True
        by = {}
        for f, old, new in s['edits']:
            t = by.get(f) or open('/repo/' + f).read()
            if t.count(old) < 1:
                print('!!', s['id'], 'text not found', old[:60]); ok = False
            by[f] = t.replace(old, new, 1)
        if not ok:
            continue
        r0 = build(); 
        if r0.returncode:
            print('clean build failed', r0.stdout[-500:]); return
        d0 = sh('bash', d + '/demo.sh', cwd=W)
        for f, t in by.items():
            open('/tmp/seed.new', 'w').write(t)
            p = sh('git', 'diff', '--no-index', '--', '/repo/' + f, '/tmp/seed.new').stdout
            lines = p.splitlines(True)
            i = next(k for k, l in enumerate(lines) if l.startswith('@@'))
            patch += 'diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n' % (f, f, f, f) + ''.join(lines[i:])
            open(W + '/' + f, 'w').write(t)
        open(d + '/patch.diff', 'w').write(patch)
        ap = sh('git', '-C', '/repo', 'apply', '--check', d + '/patch.diff')
        r1 = build()
        if r1.returncode:
            print('!!', s['id'], 'does not build', r1.stdout[-1500:]); continue
        tk, to = tests()
        d1 = sh('bash', d + '/demo.sh', cwd=W)
        props = [s['property']] if '-c' not in sys.argv else [x[:-3].upper() for x in sorted(os.listdir(V + '/props')) if x[0] == 'c' and x.endswith('.py')]
        caught = []
        for p in props:
            if not os.path.exists('%s/props/%s.py' % (V, p.lower())):
                continue
            r = sh(sys.executable, V + '/check.py', p, env=dict(os.environ, VP_REPO=W))
            if r.returncode:
                caught.append('%s(%d)' % (p, r.returncode))
        good = d0.returncode == 0 and d1.returncode not in (0, 99) and tk and ap.returncode == 0
        print('%s %-28s demo clean %d changed %d, tests %s, caught by %s' % ('ok ' if good else 'BAD', s['id'], d0.returncode, d1.returncode, 'pass' if tk else 'FAIL', ', '.join(caught) or '-'))
        if not good:
            print(d0.stdout[-500:], d0.stderr[-1500:], d1.stdout[-300:], to if not tk else '', ap.stderr)
main()
