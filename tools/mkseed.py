#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo, confirms it and keeps it in seeded/.

  mkseed.py SPEC.py        make and confirm (SPEC defines id, prop, edits, needs,
                           breaks, demo [, flags, std, sanit, demo_sh])
  mkseed.py --check ID..   confirm existing ones again and run their check
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if it is broken. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"; d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/inc"; ln -s "$PWD/src" "$d/inc/sharemind"
g++ -std=%s -g %s -I"$d/inc" "$here/demo.cpp" -o "$d/demo" -lpthread || exit 2
cd "$d" && timeout 120 ./demo
'''
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def confirm(sid, runcheck=True):
    d = os.path.join(V, 'seeded', sid); meta = json.load(open(d + '/meta.json'))
    w = '/tmp/seedwt_%d' % os.getpid(); shutil.rmtree(w, ignore_errors=True)
    ok = True
    try:
        run(['cp', '-a', '/repo', w]); shutil.rmtree(w + '/_build', ignore_errors=True)
        r = run(['bash', d + '/demo.sh'], cwd=w)
        if r.returncode: print(sid, 'DEMO FAILS UNPATCHED', r.returncode, r.stdout[-1500:]); ok = False
        r = run(['git', 'apply', d + '/patch.diff'], cwd=w)
        if r.returncode: print(sid, 'DOES NOT APPLY', r.stdout); return False
        base = run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()
        r = run(['bash', d + '/demo.sh'], cwd=w)
        if r.returncode == 0: print(sid, 'DEMO PASSES PATCHED'); ok = False
        # the existing tests, built from the scratch copy
        t = w + '/_t'; run(['cp', '-a', '/opt/vp', t])
        for root, _, fs in os.walk(t):
            for f in fs:
                p = os.path.join(root, f)
                try: s = open(p).read()
                except Exception: continue
                if '/repo' in s or '/opt/vp' in s: open(p, 'w').write(s.replace('/repo', w).replace('/opt/vp', t))
        r = run(['bash', t + '/test.sh', w + '/out.json'])
        o = json.load(open(w + '/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
        names = lambda x: {(n if isinstance(n, str) else n.get('id', str(n))) for n in x}
        if len(o['failed']) or len(o['passed']) < 43: print(sid, 'TESTS', len(o['passed']), o['failed'], r.stdout[-1500:]); ok = False
        if runcheck:
            env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD='/tmp/seedbuild', VERIF_NOEVIDENCE='1', VERIF_SEED='1', VERIF_TIER='quick')
            r = run([sys.executable, V + '/run.py', meta['property']], env=env)
            caught = r.returncode == 1 and ('VIOLATION property=' + meta['property']) in r.stdout
            print(sid, meta['property'], 'caught' if caught else 'MISSED (rc %d)' % r.returncode, '' if ok else 'INVALID')
            if r.returncode not in (0, 1): print(r.stdout[-2000:])
            if caught: print('   ', [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failed' in l][:2])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return ok
def make(spec):
    g = {}; exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id']); os.makedirs(d, exist_ok=True)
    w = '/tmp/seedmk_%d' % os.getpid(); run(['git', '-C', '/repo', 'worktree', 'add', '--detach', w, 'HEAD'])
    try:
        for f, old, new in g['edits']:
            p = w + '/src/' + f; s = open(p).read(); assert s.count(old) == 1, (f, old, s.count(old)); open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(run(['git', 'diff'], cwd=w).stdout)
    finally:
        run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
    open(d + '/demo.cpp', 'w').write(g['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(g.get('demo_sh') or SH % (g.get('std', 'c++14'), g.get('flags', '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all')))
    json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return g['id']
if sys.argv[1] == '--check':
    for s in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): confirm(s)
else:
    for s in sys.argv[1:]: confirm(make(s))
