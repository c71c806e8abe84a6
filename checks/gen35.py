"""Generates the literals of C35 with the values and types they must have."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 7919 + 35)
N = 600 if tier == 'quick' else 4000
T = []
for b in (8, 16, 32, 64):
    for k, n in (('', ''), ('Fast', '_fast'), ('Least', '_least')):
        T.append((f'Int{k}{b}', f'int{k}{b}', f'std::int{n}{b}_t', True, b, k)); T.append((f'Uint{k}{b}', f'uint{k}{b}', f'std::uint{n}{b}_t', False, b, k))
for n in ('Max', 'Ptr'): T.append((f'Int{n}', f'int{n}', f'std::int{n.lower()}_t', True, 64, '')); T.append((f'Uint{n}', f'uint{n}', f'std::uint{n.lower()}_t', False, 64, ''))
T.append(('Sizet', 'sizeT', 'std::size_t', False, 64, ''))
def width(t): return {('Fast', 16): 64, ('Fast', 32): 64}.get((t[5], t[4]), t[4]) # the ABI's fast types, checked below
def spell(v):
    base = rnd.choice([8, 10, 16]); d = ''
    w = v
    while w: g = '0123456789abcdef'[w % base]; d = (g.upper() if rnd.random() < .5 else g) + d; w //= base
    if base == 10: return d if d else spell(v)
    z = '0' * rnd.choice([0, 0, 0, 1, 2, 5, 17, 40])
    if base == 16: return rnd.choice(['0x', '0X']) + z + (d or '0')
    return '0' + z + d
cases = []
for k in range(N):
    t = T[k % len(T)]; w = width(t); mx = (1 << (w - 1 if t[3] else w)) - 1
    v = rnd.choice([rnd.getrandbits(rnd.randint(1, w)), mx - rnd.randint(0, 2), mx + rnd.randint(0, 3), rnd.getrandbits(rnd.randint(1, 140)), 10 ** rnd.randint(0, 45), 16 ** rnd.randint(0, 30) * rnd.randint(1, 15), 8 ** rnd.randint(0, 40), 0, 1, rnd.randint(0, 300)])
    s = spell(v); over = v > mx; chars = ', '.join(f"'{x}'" for x in s)
    cases.append((f'sm::IntegerLiterals::{t[0]}Literal<{chars}>::overflow == {"true" if over else "false"}', over))
    if not over:
        cases.append((f'sm::IntegerLiterals::{t[0]}Literal<{chars}>::value == {v}u && sm::IntegerLiterals::{t[0]}Literal<{chars}>::valid', v > 9))
        for suffix in ([t[1]] + ([t[1] + '_overflow'] if t[3] else [t[1] + '_no_overflow'])): cases.append((f'std::is_same<decltype({s}_{suffix}), {t[2]}>::value && {s}_{suffix} == {v}u', v > 9))
    elif t[3]: m = v % (1 << w); cases.append((f'{s}_{t[1]}_overflow == static_cast<{t[2]}>({m}u)', True))
    else: cases.append((f'std::is_same<decltype({s}_{t[1]}), {t[2]}>::value && {s}_{t[1]} == {v % (1 << w)}u', True))
L = ['#include <sharemind/CstddefLiterals.h>\n#include <sharemind/CstdintLiterals.h>\n#include <type_traits>\n#include "pbt.h"\nusing namespace sharemind; namespace sm = sharemind;\nstatic_assert(sizeof(std::int_fast16_t) == 8 && sizeof(std::int_fast32_t) == 8 && sizeof(std::size_t) == 8 && sizeof(std::intptr_t) == 8 && sizeof(std::intmax_t) == 8, "another ABI");\nnamespace {\nstruct Case { char const * text; bool holds, nontrivial; };\nCase const cases[] = {']
for e, nt in cases: L.append('{"%s", (%s), %s},' % (e, e, 'true' if nt else 'false'))
L.append('};')
L.append('PBT_PROP(literals, %d, %d, "a value of at least two digits or an overflow") { size_t const i = c.draw(%d); Case const & x = cases[i]; c.trace("%%s", x.text); if (!x.holds) pbt::fail("does not hold: %%s", x.text); if (x.nontrivial) c.nontrivial(); }' % (len(cases) * 10, len(cases) * 10, len(cases) - 1))
L.append('}')
open(out, 'w').write('\n'.join(L) + '\n')
