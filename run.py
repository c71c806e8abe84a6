#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  run.py C01                 run the check (VERIF_TIER, VERIF_SEED)
  run.py C01 --replay FILE   run one saved reproduction
  run.py --setup             build the engine
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS  # noqa: E402

ASAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:symbolize=1:max_allocation_size_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
}
MODES = {
    # compile flags, link flags, engine objects
    'asan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
             ['-fsanitize=address,undefined', '-latomic'], ['pbt']),
    'plain': (['-O2', '-D_GLIBCXX_ASSERTIONS'], ['-latomic'], ['pbt']),
    'sched': (['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-Wno-tsan'], ['-rdynamic', '-latomic', '-lpthread', '-ldl'], ['pbt', 'ctl']),
}
OBJFLAGS = {'pbt': ['-O2'], 'ctl': ['-O2', '-fno-builtin', '-fno-threadsafe-statics']}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def engine():
    """Compiles the engine objects (cached by content)."""
    out = os.path.join(BUILD, 'engine')
    os.makedirs(out, exist_ok=True)
    h = hashlib.sha1()
    for f in sorted(os.listdir(os.path.join(V, 'lib'))):
        h.update(open(os.path.join(V, 'lib', f), 'rb').read())
    h.update(repr(OBJFLAGS).encode())
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    for o, fl in OBJFLAGS.items():
        r = sh(['g++', '-std=c++17', '-g', *fl, '-c', os.path.join(V, 'lib', o + '.cpp'), '-o', os.path.join(out, o + '.o')])
        if r.returncode:
            print(r.stdout)
            print('ERROR: the engine does not compile')
            sys.exit(2)
    open(stamp, 'w').write(h.hexdigest())
    return out


def includes(pid):
    """Include tree: the library's headers as <sharemind/...>, plus the shims
    for the headers of SharemindCHeaders, which are not available here."""
    d = os.path.join(BUILD, pid, 'include', 'sharemind')
    shutil.rmtree(os.path.join(BUILD, pid, 'include'), ignore_errors=True)
    for base in (os.path.join(REPO, 'src'), os.path.join(V, 'shim', 'sharemind')):
        for root, _, files in os.walk(base):
            rel = os.path.relpath(root, base)
            os.makedirs(os.path.join(d, rel), exist_ok=True)
            for f in files:
                t = os.path.join(d, rel, f)
                if not os.path.lexists(t):
                    os.symlink(os.path.join(root, f), t)
    return os.path.dirname(d)


def build(pid, part, eng, inc):
    name = part['name']
    odir = os.path.join(BUILD, pid)
    src = os.path.join(V, 'checks', part['src'])
    if part.get('gen'):
        src = os.path.join(odir, name + '.gen.cpp')
        tier = os.environ.get('VERIF_TIER', 'quick')
        r = sh([sys.executable, os.path.join(V, 'checks', part['gen']), src, os.environ.get('VERIF_SEED', '1'), tier, str(part.get('chunk', 0))])
        if r.returncode:
            return None, 'generator failed:\n' + r.stdout
    cf, lf, objs = MODES[part['mode']]
    exe = os.path.join(odir, name)
    cmd = ['g++', '-std=' + part.get('std', 'c++14'), '-g1', *part.get('warn', ['-w']), *cf, *part.get('cflags', []), '-I', inc, '-I', os.path.join(V, 'lib'), '-I', os.path.join(V, 'checks'), '-c', src, '-o', exe + '.o']
    r = sh(cmd)
    if r.returncode:
        return None, ' '.join(cmd) + '\n' + r.stdout
    r = sh(['g++', exe + '.o', *[os.path.join(eng, o + '.o') for o in objs], *lf, *part.get('lflags', []), '-o', exe])
    if r.returncode:
        return None, r.stdout
    return exe, ''


def known(pid):
    out = []
    f = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) part=(\S+) probe=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    if sys.argv[1] == '--setup':
        engine()
        return 0
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, pid), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(BUILD if os.environ.get('VERIF_NOEVIDENCE') else V, 'replays')
    os.makedirs(rdir, exist_ok=True)
    eng = engine()
    inc = includes(pid)
    env = dict(os.environ, **ASAN_ENV)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], parts=[]),
              assumptions=spec['assumptions'], wall_s=0, violations=0)
    bad = None
    knownL = known(pid)

    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        txt = open(sys.argv[3]).read()
        prop = re.search(r'^prop (\S+)', txt, re.M)
        if not prop:
            print('a compile-time reproduction: the file is the compiler output')
            return 1
        for part in spec['parts']:
            if re.search(r'^# part %s$' % re.escape(part['name']), txt, re.M):
                exe, log = build(pid, part, eng, inc)
                if not exe:
                    print(log)
                    return 1
                r = subprocess.run([exe, '--replay', sys.argv[3]], env=env)
                return r.returncode
        print('unknown part')
        return 2

    exes = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = {p['name']: ex.submit(build, pid, p, eng, inc) for p in spec['parts']}
        for p in spec['parts']:
            exe, log = futs[p['name']].result()
            if not exe:
                if ' error: ' not in log and 'generator failed' not in log or 'generator failed' in log or 'virtual memory' in log or 'No space left' in log:
                    print(log[-4000:])
                    print('ERROR: cannot build part', p['name'])
                    return 2
                rp = os.path.join(rdir, '%s-%s-compile.log' % (pid, p['name']))
                open(rp, 'w').write('# part %s\n# The library\'s headers or a well-formed use of its public interface no longer compile:\n' % p['name'] + log)
                print(log[:3000])
                bad = bad or rp
            exes[p['name']] = exe
    tb = time.time() - t0
    if not bad:
        for part in spec['parts']:
            name = part['name']
            out = os.path.join(BUILD, pid, name + '.json')
            rp = os.path.join(rdir, '%s-%s.replay' % (pid, name))
            for f in (out, rp):
                if os.path.exists(f):
                    os.unlink(f)
            for kpart, probe, text in knownL:
                if kpart == name:
                    r = sh([exes[name], '--only', probe, '--seed', str(seed)], env=env)
                    if r.returncode == 1:
                        print('KNOWN-FINDING: property=%s %s' % (pid, text))
            cap = part.get('cap', {}).get(tier) or (max(60, 600 / len(spec['parts'])) if tier == 'quick' else max(120, 2400 / len(spec['parts'])))
            cmd = [exes[name], '--seed', str(seed), '--tier', tier, '--out', out, '--replay-out', rp, '--max-seconds', str(cap), '--scale', str(part['scale'] if tier == 'quick' else 1)]
            for kpart, probe, _ in knownL:
                if kpart == name:
                    cmd += ['--skip', probe]
            r = sh(cmd, env=env)
            sys.stdout.write(''.join('[%s] %s\n' % (name, l) for l in r.stdout.splitlines()[:80]))
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print('ERROR: part %s ended with %d' % (name, r.returncode))
                return 2
            j = json.load(open(out))
            c = ev['coverage']
            c['evaluations'] += j['evaluations']
            c['distinct_nontrivial'] += j['distinct_nontrivial']
            c['rule'] += (' || ' if c['rule'] else '') + j['rule']
            c['samples'] += [dict(part=name, **x) for x in j['samples']]
            c['parts'].append(dict(part=name, mode=part['mode'], checks=j['parts'], timed_out=j['timed_out'], unreproducible=j['unreproducible'], wall_s=j['wall_s']))
            if r.returncode == 1:
                with open(rp, 'a') as f:
                    f.write('# part %s\n' % name)
                bad = rp
                break
    ev['wall_s'] = round(time.time() - t0, 3)
    ev['coverage']['build_s'] = round(tb, 3)
    ev['violations'] = 1 if bad else 0
    if not ev['coverage']['samples']:
        ev['coverage']['samples'] = ['none: the run stopped at a violation before samples were taken' if bad else 'none']
    if not os.environ.get('VERIF_NOEVIDENCE'):
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, bad))
        return 1
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
