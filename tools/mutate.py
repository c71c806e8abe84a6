#!/usr/bin/env python3
"""Mutation measurement: mutate.py <ID> <header> [max] [seed] -- applies simple
operator mutations to a scratch copy of the header and reports which survive
the check. A development aid; no registered check uses it."""
import os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, hdr = sys.argv[1], sys.argv[2]
mx = int(sys.argv[3]) if len(sys.argv) > 3 else 40
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
src = open('/repo/src/' + hdr).read().split('\n')
SUB = [(r'(?<![<>=!+\-*/&|^])<(?![<=])(?= )', '<='), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\+\+', '--'), (r'--', '++'),
       (r'\b1u\b', '2u'), (r'\b1u\b', '0u'), (r'\b0u\b', '1u'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' << ', ' >> '), (r' >> ', ' << '), (r' & ', ' | '), (r' \| ', ' & '), (r' \^ ', ' | '),
       (r'if \(', 'if (!'), (r'memory_order_\w+', 'memory_order_relaxed'), (r'notify_all', 'notify_one'), (r' % ', ' / '), (r' / ', ' % '), (r' \* ', ' + ')]
muts = []
incomment = False
for i, l in enumerate(src):
    s = l.strip()
    if s.startswith('/*'): incomment = '*/' not in s; continue
    if incomment:
        if '*/' in s: incomment = False
        continue
    if s.startswith('//') or s.startswith('#') or s.startswith('*') or 'static_assert' in s or 'template' in s or 'noexcept(' in s or 'assert(' in s: continue
    for pat, rep in SUB:
        for m in re.finditer(pat, l):
            if pat == 'if \\(':
                # negate: find the matching paren
                d, j = 0, m.end() - 1
                while j < len(l):
                    if l[j] == '(': d += 1
                    if l[j] == ')':
                        d -= 1
                        if d == 0: break
                    j += 1
                if d: continue
                new = l[:m.end() - 1] + '(!' + l[m.end() - 1:j + 1] + ')' + l[j + 1:]
            else:
                new = l[:m.start()] + rep + l[m.end():]
            muts.append((i, new))
    # statement deletion
    if s.endswith(';') and not s.startswith(('return', 'using', 'typedef', 'throw', 'break', 'static', 'friend', 'auto', 'const', 'constexpr')) and '(' in s and s.count('(') == s.count(')') or re.match(r'^\s*[\w.\->\[\]]+ [-+|&^]?= .*;$', l):
        muts.append((i, re.match(r'\s*', l).group(0) + ';'))
random.Random(seed).shuffle(muts)
muts = muts[:mx]
d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
try:
    shutil.copytree('/repo/src', d + '/repo/src')
    killed = comp = 0
    surv = []
    for n, (i, new) in enumerate(muts):
        t = list(src); t[i] = new
        open(d + '/repo/src/' + hdr, 'w').write('\n'.join(t))
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build', VERIF_NOEVIDENCE='1')
        r = subprocess.run([sys.executable, V + '/run.py', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if 'compile.log' in r.stdout: comp += 1
        elif r.returncode == 1: killed += 1
        elif r.returncode == 0:
            surv.append((i + 1, src[i].strip(), new.strip()))
            print('SURVIVED %s:%d\n   %s\n   %s' % (hdr, i + 1, src[i].strip(), new.strip()), flush=True)
        else: print('??', r.returncode, r.stdout[-500:])
    print('%s %s: %d mutants, %d do not compile, %d killed, %d survived' % (pid, hdr, len(muts), comp, killed, len(surv)))
finally:
    shutil.rmtree(d)
