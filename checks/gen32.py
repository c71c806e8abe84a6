"""Generates the programs of C32: random iterator and range classes with known
operations, and what every iterator and range concept has to say about them."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 9043 + 32)
N = 160 if tier == 'quick' else 700
cases, decls = [], []
def tf(b): return 'true' if b else 'false'
def models(term, b, nt=True): cases.append((f'sm::Models<sm::{term}>::value == {tf(b)}', nt))
def odd(good, *bad): # usually the good one
    global nth
    if single is not None: # just one oddity
        nth += 1
        return bad[turn % len(bad)] if nth - 1 == single else good
    return good if rnd.random() < strict else rnd.choice([good, *bad])
strict, single, nth = .9, None, 0
CMP = ['<', '<=', '>', '>=']
TRUTHS = [('bool', True), ('int', True), ('void', False), ('ExplicitBool', False)]
iters = [] # name, what it models
class Caps: pass
def iterator(k):
    global strict, single, nth, turn
    turn = k // 44 + seed; strict = rnd.choice([.75, .93, .97])
    single, nth = ((k // 2) % 22 if k % 2 else None), 0
    I = f'I{k}'; c = Caps(); c.name = I; V = rnd.choice(['int', 'double', 'Cls'] + ['Fixed', 'Const'] * (single is None)); c.value = V
    R = rnd.choice(['V &'] * 5 + (['V const &'] * 3 + ['V', 'Proxy<V>', 'Out<V>', 'NonConv'] if single is None else [])).replace('V', V)
    if R == V: pass
    traits = {'iterator_category': 'std::input_iterator_tag', 'value_type': V, 'difference_type': 'std::ptrdiff_t', 'pointer': f'{V} *', 'reference': R}
    if single is None and rnd.random() < .04: del traits[rnd.choice(list(traits))]
    diff = rnd.choice(['std::ptrdiff_t', 'std::ptrdiff_t', 'int'])
    if 'difference_type' in traits: traits['difference_type'] = diff
    c.diff = diff
    tr = len(traits) == 5
    cc, ca, dt = odd(1, 0), odd(1, 0), odd(1, 1, 0)
    own = rnd.choice([None, None, 'ok', 'deleted' if strict < .9 else 'ok'])
    deref = odd(R, f'{V} &', V, 'Wrong') # the type of *t
    dc = single is not None or rnd.random() < .9  # operator*() const
    inc = odd(f'{I} &', I, 'void', f'{I} const &'); dec = odd(f'{I} &', I, 'void', None) if single is not None or rnd.random() < .7 else None
    conv_ = lambda: f'Conv<{I}, {rnd.choice([R, R, V, V + " const &"])}>' # converts to the iterator, but is dereferenced in its own way
    pinc = odd(I, conv_(), f'{I} const &', conv_(), 'Post', 'void', None); pdec = odd(I, f'Conv<{I}, Wrong>', f'{I} const &', conv_(), 'Post', None)
    dflt = odd(1, 0)
    eq, ne = odd(('bool', True), *TRUTHS, None), odd(('bool', True), *TRUTHS, None); eqc, nec = single is not None or rnd.random() < .96, single is not None or rnd.random() < .96
    x = f'struct {I} {{ ' + ' '.join(f'using {a} = {b};' for a, b in traits.items())
    x += f' {I}(){"" if dflt else " = delete"}; {I}({I} const &){"" if cc else " = delete"}; {I} & operator=({I} const &){"" if ca else " = delete"}; ~{I}(){"" if dt else " = delete"};'
    x += f' {deref} operator*(){" const" if dc else ""}; {inc} operator++();'
    if pinc: x += f' {pinc if pinc != "Post" else f"Post<{R}>"} operator++(int);'
    if dec: x += f' {dec} operator--();'
    if pdec: x += f' {pdec if pdec != "Post" else f"Post<{R}>"} operator--(int);'
    if eq: x += f' {eq[0]} operator==({I} const &){" const" if eqc else ""};'
    if ne: x += f' {ne[0]} operator!=({I} const &){" const" if nec else ""};'
    ra = single is not None or rnd.random() < .7
    if ra:
        sub = odd(R, f'{V} const &', 'Wrong', None); pe = odd(f'{I} &', I, None); me = odd(f'{I} &', I, None); pl = odd(I, f'{I} &', None); npl = odd(I, None); mi = odd(I, f'{I} &', None); df = odd(diff, 'long long' if diff != 'long long' else 'short', None)
        if sub == 'void': pass
        if sub: x += f' {sub} operator[]({diff});'
        if pe: x += f' {pe} operator+=({diff});'
        if me: x += f' {me} operator-=({diff});'
        if pl: x += f' {pl} operator+({diff});'
        if mi: x += f' {mi} operator-({diff});'
        if df: x += f' {df} operator-({I} const &) const;'
        rel = {}
        for op in CMP:
            rel[op] = odd(('bool', True), *TRUTHS, None)
            if rel[op]: x += f' {rel[op][0]} operator{op}({I} const &) const;'
    x += ' };'
    if own: x += f' void swap({I} &, {I} &){" = delete" if own == "deleted" else ""};'
    if ra and npl: x += f' {I} operator+({diff}, {I} const &);'
    decls.append(x)
    cc_, sw = cc and dt, own == 'ok' or (own is None and cc and ca and dt)
    it = tr and cc_ and ca and dt and sw and deref == R and inc == f'{I} &'
    conv = lambda X: X in (f'{V} &', f'{V} const &', V, f'Proxy<{V}>', f'Out<{V}>') # converts to the value type
    writable = lambda X: (X == f'{V} &' and V != 'Fixed') or X == f'Out<{V}>' or (X == V and V in ('Cls', 'Const')) or (X == f'{V} const &' and V == 'Const')
    # the type of *t++
    if pinc == I: pd = deref if dt else None # a temporary has to be destroyed
    elif pinc == f'{I} const &': pd = deref if dc else None
    elif pinc and pinc.startswith('Conv'): pd = pinc[len(f'Conv<{I}, '):-1]
    elif pinc == 'Post': pd = R
    else: pd = None
    if pdec == I: md = deref if dt else None
    elif pdec == f'{I} const &': md = deref if dc else None
    elif pdec and pdec.startswith('Conv'): md = pdec[len(f'Conv<{I}, '):-1]
    elif pdec == 'Post': md = R
    else: md = None
    eqok = bool(eq and eq[1] and eqc); neok = bool(ne and ne[1] and nec)
    c.iterator = it
    c.input = it and eqok and neok and conv(deref) and pd is not None and conv(pd)
    isI = lambda X: X in (I, f'{I} const &') or bool(X) and X.startswith('Conv'); same = isI(pinc)
    c.output = it and same and writable(deref) and pd is not None and writable(pd)
    c.forward = c.input and dflt and same and pd == R and (R == f'{V} &' or (R == f'{V} const &' and not c.output))
    c.bidirectional = c.forward and dec == f'{I} &' and isI(pdec) and md == R
    c.random = c.bidirectional and ra and all(rel[o] and rel[o][1] for o in CMP) and sub is not None and (sub == R or (sub == f'{V} &' and R == f'{V} const &')) and pe == f'{I} &' and me == f'{I} &' and pl == I and npl == I and mi == I and df == diff
    c.eq = eqok; c.ne = neok; c.copy = cc_ and ca
    c.names = dict(Iterator=c.iterator, InputIterator=c.input, OutputIterator=c.output, ForwardIterator=c.forward, BidirectionalIterator=c.bidirectional, RandomAccessIterator=c.random)
    c.traits = tr; c.usable = cc_ and dt
    for n, b in c.names.items():
        models(f'{n}({I})', b); other = {'int': 'double', 'double': 'Cls', 'Cls': 'int', 'Fixed': 'Cls', 'Const': 'int'}[V]
        models(f'{n}To({I}, {V})', b); models(f'{n}To({I}, {other})', False, b)
    if R in (f'{V} &', f'{V} const &'): models(f'ValueSwappable({I})', it and ((R == f'{V} &' and V != 'Fixed') or V == 'Const'))
    if tr and it: cases.append((f'std::is_same<sm::IteratorValueTypeT<{I}>, {V}>::value && std::is_same<sm::IteratorDifferenceTypeT<{I}>, {diff}>::value && std::is_same<sm::IteratorReferenceT<{I}>, {R}>::value && std::is_same<sm::IteratorPointerT<{I}>, {V} *>::value && std::is_same<sm::IteratorCategoryT<{I}>, std::input_iterator_tag>::value', True))
    iters.append(c)
for k in range(N): iterator(k)
def builtin(name, value, inp, outp, fw, bi, ra, diff='std::ptrdiff_t'):
    c = Caps(); c.name, c.value, c.diff = name, value, diff; c.iterator = True; c.input, c.output, c.forward, c.bidirectional, c.random = inp, outp, fw, bi, ra; c.eq = c.ne = inp; c.copy = c.usable = c.traits = True
    c.names = dict(Iterator=True, InputIterator=inp, OutputIterator=outp, ForwardIterator=fw, BidirectionalIterator=bi, RandomAccessIterator=ra)
    for n, b in c.names.items(): models(f'{n}({name})', b); models(f'{n}To({name}, {value})', b); models(f'{n}To({name}, Unrelated)', False)
    return c
T, F = True, False
known = [builtin('int *', 'int', T, T, T, T, T), builtin('Cls const *', 'Cls', T, F, T, T, T), builtin('std::vector<int>::iterator', 'int', T, T, T, T, T), builtin('std::list<double>::iterator', 'double', T, T, T, T, F), builtin('std::set<int>::iterator', 'int', T, F, T, T, F), builtin('std::forward_list<int>::const_iterator', 'int', T, F, T, F, F), builtin('std::reverse_iterator<int *>', 'int', T, T, T, T, T), builtin('std::deque<Cls>::iterator', 'Cls', T, T, T, T, T), builtin('std::istream_iterator<int>', 'int', T, F, T, F, F), builtin('std::istreambuf_iterator<char>', 'char', T, F, F, F, F)]
for t in ('int', 'Cls', 'std::string', 'void', 'int &', 'int()'):
    for n in ('Iterator', 'InputIterator', 'OutputIterator', 'ForwardIterator', 'BidirectionalIterator', 'RandomAccessIterator'):
        if t not in ('void', 'int()', 'int &'): models(f'{n}({t})', False); models(f'{n}To({t}, int)', False)
SIZES = [('std::size_t', True), ('int', True), ('unsigned char', True), ('std::string', False), ('void', False), ('ImplicitInt', True)]
good = [c for c in iters if c.input]; anyIter = [c for c in iters if c.usable]
def direction(k, tag):
    """An iterator and its sentinel: (iterator, sentinel type, is a range, bounded)"""
    c = rnd.choice(known + good + [rnd.choice(anyIter)] * 3) if rnd.random() < .9 else None
    if c is None: return None
    how = rnd.choice(['same', 'same', 'sentinel', 'sentinel', 'other'])
    if how == 'same': return c, c.name, c.iterator and c.copy and c.eq and c.ne, True
    if how == 'other': return c, 'Unrelated', False, False
    S = f'S{k}{tag}'; ok = True; x = f'struct {S} {{ {S}({S} const &)'
    if rnd.random() < .05: x += ' = delete'; ok = False
    x += f'; {S} & operator=({S} const &)'
    if rnd.random() < .05: x += ' = delete'; ok = False
    x += '; };'
    for op in ('==', '!='):
        for a, b in ((f'{c.name} const &', f'{S} const &'), (f'{S} const &', f'{c.name} const &')):
            r, rok = rnd.choice(TRUTHS) if rnd.random() < .08 else ('bool', True)
            if rnd.random() < .05: ok = False
            else: x += f' {r} operator{op}({a}, {b});'; ok = ok and rok
    decls.append(x)
    return c, S, c.iterator and ok, False
RANGES = ['Range', 'BoundedRange', 'SizedRange', 'InputRange', 'OutputRange', 'ForwardRange', 'BidirectionalRange', 'RandomAccessRange', 'ConstantTimeMeasurableRange']
def judge(d, size, term, rev, convDiff=True):
    r = 'Reversed' if rev else ''
    nm = lambda n: n.replace('Range', r + 'Range')
    if d is None:
        want = dict.fromkeys(RANGES, False); val = None
    else:
        c, s, isr, bounded = d; val = c.value
        sized = isr and size and c.traits; b = isr and bounded
        i = isr and c.input; f = i and c.forward; bi = f and c.bidirectional; ra = bi and c.random
        want = dict(Range=isr, BoundedRange=b, SizedRange=sized, InputRange=i, OutputRange=isr and c.output, ForwardRange=f, BidirectionalRange=bi, RandomAccessRange=ra, ConstantTimeMeasurableRange=(b and ra) or sized)
    for n, b in want.items():
        models(f'{nm(n)}({term})', b)
        if val: models(f'{nm(n)}To({term}, {val})', b); models(f'{nm(n)}To({term}, Unrelated)', False, b)
for k in range(N * 2):
    d = direction(k, 'f'); e = direction(k, 'r') if rnd.random() < .7 else None
    Q = f'R{k}'; x = f'struct {Q} {{'; const = rnd.random() < .75; sz = rnd.choice(SIZES + [None] * 4); szc = rnd.random() < .9
    cq = ' const' if const else ''
    if d: x += f' {d[0].name} begin(){cq}; {d[1]} end(){cq};'
    if e: x += f' {e[0].name} rbegin(){cq}; {e[1]} rend(){cq};'
    if sz: x += f' {sz[0]} size(){" const" if szc else ""};'
    decls.append(x + ' };'); size = bool(sz and sz[1] and szc)
    for q, reachable in (('', True), (' &', True), (' const &', const)):
        if rnd.random() < .6: judge(d if reachable else None, size, Q + q, False); judge(e if reachable else None, size, Q + q, True)
    if d and d[1] != 'Unrelated': cases.append((f'std::is_same<sm::RangeIteratorT<{Q}>, {d[0].name}>::value && std::is_same<sm::RangeSentinelT<{Q} &>, {d[1]}>::value', True))
    if e: cases.append((f'std::is_same<sm::ReversedRangeIteratorT<{Q}>, {e[0].name}>::value && std::is_same<sm::ReversedRangeSentinelT<{Q} &>, {e[1]}>::value', True))
for t, v, kinds in (('std::vector<int>', 'int', 'BSIOFDR'), ('std::vector<int> const &', 'int', 'BSIFDR'), ('std::list<int> &', 'int', 'BSIOFD'), ('std::set<int>', 'int', 'BSIFD'), ('std::string', 'char', 'BSIOFDR'), ('int (&)[5]', 'int', 'BSIOFDR'), ('char const (&)[3]', 'char', 'BSIFDR'), ('std::map<int, int> const &', 'std::pair<int const, int>', 'BSIFD'), ('std::map<int, int>', 'std::pair<int const, int>', 'BSIFD')):
    code = dict(BoundedRange='B', SizedRange='S', InputRange='I', OutputRange='O', ForwardRange='F', BidirectionalRange='D', RandomAccessRange='R')
    for n, ch in code.items():
        models(f'{n}({t})', ch in kinds); models(f'{n.replace("Range", "ReversedRange")}({t})', ch in kinds); models(f'{n}To({t}, {v})', ch in kinds); models(f'{n.replace("Range", "ReversedRange")}To({t}, {v})', ch in kinds)
    models(f'ConstantTimeMeasurableRange({t})', True); models(f'ConstantTimeMeasurableReversedRange({t})', True); models(f'Range({t})', True)
for ch in 'BSIOFDR':
    n = dict(B='BoundedRange', S='SizedRange', I='InputRange', O='OutputRange', F='ForwardRange', D='BidirectionalRange', R='RandomAccessRange')[ch]
    models(f'{n}(std::forward_list<int>)', ch in 'BIOF'); models(f'{n.replace("Range", "ReversedRange")}(std::forward_list<int>)', False); models(f'{n}(int)', False)
models('ConstantTimeMeasurableRange(std::forward_list<int>)', False)
L = [''.join(f'#include <{h}>\n' for h in 'sharemind/Iterator.h sharemind/Range.h sharemind/ReversedRange.h deque forward_list iterator list map set string type_traits utility vector'.split()), '''#include "pbt.h"
namespace sm = sharemind;
struct Cls { int a; }; struct Fixed { int const a; }; struct Const { int a; Const const & operator=(Const const &) const; Const & operator=(Const const &); Const(Const const &); }; struct Unrelated {}; struct NonConv {}; struct Wrong {}; struct ExplicitBool { explicit operator bool() const; }; struct ImplicitInt { operator int() const; };
template <typename V> struct Proxy { operator V() const; Proxy & operator=(V const &) = delete; };
template <typename V> struct Out { operator V() const; Out & operator=(V const &); };
template <typename I, typename R> struct Conv { R operator*() const; operator I const &() const; };
template <typename R> struct Post { R operator*() const; };
namespace {''', *decls]
L.append('struct Case { char const * text; bool holds, nontrivial; };\nCase const cases[] = {')
for e, nt in cases: L.append(f'{{"{e}", ({e}), {tf(nt)}}},')
L.append('};')
L.append('PBT_PROP(iteratorAndRangeConcepts, %d, %d, "concepts of generated classes") { size_t const i = c.draw(%d); Case const & x = cases[i]; c.trace("%%s", x.text); if (!x.holds) pbt::fail("does not hold: %%s", x.text); if (x.nontrivial) c.nontrivial(); }' % (len(cases) * 12, len(cases) * 12, len(cases) - 1))
L.append('}')
open(out, 'w').write('\n'.join(L) + '\n')
