"""The checks: property id -> parts (one harness program each) and assumptions."""
COMMON = ['the compiler, the C++ standard library and the sanitizers are correct',
          'case counts are fixed per tier; nothing is claimed beyond the explored cases']
SCHED = ['interleavings are sequentially consistent at the granularity of synchronization operations; weaker memory effects are covered only by the happens-before race detection']
CHECKS = {}

def check(pid, *parts, assumptions=()):
    ps = []
    for p in parts:
        if isinstance(p, str):
            src, mode = p.split(':')
            p = dict(src=src, mode=mode)
        p.setdefault('name', p['src'].rsplit('.', 1)[0])
        ps.append(p)
    a = list(COMMON)
    if any(p['mode'] == 'sched' for p in ps):
        a += SCHED
    CHECKS[pid] = dict(parts=ps, assumptions=a + list(assumptions))

check('C01', 'c01.cpp:asan')
check('C02', 'c02.cpp:sched')
check('C03', 'c03.cpp:asan')
check('C04', 'c04.cpp:asan', 'c04s.cpp:sched')
check('C05', 'c05.cpp:asan')
check('C06', 'c06.cpp:sched')
check('C07', 'c07.cpp:sched')
check('C08', 'c08.cpp:asan', 'c08s.cpp:sched')
check('C09', 'c09.cpp:asan', 'c09s.cpp:sched')
check('C10', 'c10.cpp:asan')
check('C11', 'c11.cpp:asan')
check('C12', *[dict(src='c12.cpp', name='c12_%d' % b, mode='asan', cflags=['-DBLOCK=%d' % b]) for b in (8, 16, 32, 64)])
check('C13', 'c13.cpp:asan')
check('C14', 'c14.cpp:asan')
check('C15', 'c15.cpp:asan')
check('C16', 'c16.cpp:asan')
check('C17', 'c17.cpp:asan')
check('C18', 'c18.cpp:asan')
check('C19', 'c19.cpp:asan', 'c19s.cpp:sched')
check('C20', 'c20.cpp:asan', 'c20e.cpp:asan', dict(src='c20e.cpp', name='c20e_posix', mode='asan', cflags=['-U_GNU_SOURCE', '-D_XOPEN_SOURCE=700']))
check('C21', 'c21.cpp:asan')
check('C22', 'c22.cpp:asan', 'c22s.cpp:sched')
check('C23', 'c23.cpp:sched')
check('C24', 'c24.cpp:asan', dict(src='c24.cpp', name='c24_17', mode='asan', std='c++17'))
check('C25', 'c25.cpp:asan')
check('C26', 'c26.cpp:asan', dict(src='c26.cpp', name='c26_17', mode='asan', std='c++17'))
check('C27', 'c27.cpp:asan', dict(src='c27g', name='c27g', mode='asan', gen='gen27.py', cflags=['-O0']))
check('C28', dict(src='c28g', name='c28g', mode='asan', gen='gen28.py', cflags=['-O0'], warn=[]))
check('C29', 'c29.cpp:asan', dict(src='c29g', name='c29g', mode='asan', gen='gen29.py', cflags=['-O0'], std='c++17'))
check('C30', 'c30.cpp:asan')
check('C31', 'c31.cpp:asan', dict(src='c31.cpp', name='c31_17', mode='asan', std='c++17'))
check('C32', 'c32.cpp:asan', dict(src='c32.cpp', name='c32_17', mode='asan', std='c++17'), dict(src='c32g', name='c32g', mode='asan', gen='gen32.py', cflags=['-O0']))
check('C33', 'c33.cpp:asan', 'c33s.cpp:sched')
check('C34', 'c34.cpp:asan', 'c34s.cpp:sched')
check('C35', 'c35.cpp:asan', dict(src='c35n.cpp', name='c35n', mode='asan', lflags=['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc']), dict(src='c35g', name='c35g', mode='asan', gen='gen35.py', cflags=['-O0']))
check('C36', 'c36.cpp:asan')
check('C37', 'c37.cpp:asan')
check('C38', dict(src='c38.cpp', name='c38', mode='asan', lflags=['-Wl,--wrap=gettimeofday']))

# How many times the written number of cases the quick tier runs, for parts which are fast.
QUICK_SCALE = dict(c07=2, c11=4, c12_8=2, c13=1.5, c14=2, c16=10, c17=10, c18=6, c19=10, c19s=4, c20=10, c20e=20, c20e_posix=20, c21=30, c22=15, c22s=15, c23=8, c24=1.5, c24_17=1.5, c25=2,
                   c26=2, c26_17=2, c27=8, c29=10, c32=2, c32_17=2, c33=5, c34=5, c35=2, c35n=5, c36=3, c37=4, c38=10)
for _c in CHECKS.values():
    for _p in _c['parts']:
        _p['scale'] = QUICK_SCALE.get(_p['name'], 1)
