"""Generates the programs of C29: random classes with known abilities, and what
every detection trait and concept has to say about them."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 7121 + 29)
N = 90 if tier == 'quick' else 400
cases, decls = [], []
def tf(b): return 'true' if b else 'false'
def case(expr, nt=True): cases.append((expr, nt))
def truth(expr, b, nt=True): case(f'({expr}) == {tf(b)}', nt)
leaves = []  # concept terms with their truth
def models(term, b, nt=True):
    leaves.append((term, b)); truth(f'sm::Models<{term}>::value', b, nt)
def formula(d):
    if d == 0 or rnd.random() < .15: return rnd.choice(leaves)
    k = rnd.choice(['Not', 'All', 'Any', 'None'])
    if k == 'Not': t, b = formula(d - 1); return f'sm::Not({t})', not b
    xs = [formula(d - 1) for _ in range(rnd.choice([0, 1, 2, 2, 3, 4]))]; v = [b for _, b in xs]
    return f'sm::{k}({", ".join(t for t, _ in xs)})', {'All': all(v), 'Any': any(v), 'None': not any(v)}[k]
VALS = ['int', 'double', 'void', 'A', 'A &', 'int *', 'std::string', 'char const *']
CONV = {('int', 'double'), ('double', 'int'), ('char const *', 'std::string'), ('A &', 'A')} | {(x, x) for x in VALS}
CMP = [('Equality', '=='), ('Inequality', '!='), ('LessThan', '<'), ('LessOrEqual', '<='), ('GreaterThan', '>'), ('GreaterOrEqual', '>=')]
RETS = [('bool', True), ('int', True), ('void', False), ('ExplicitBool', False), ('ImplicitBool', True), ('void *', True), ('A', False)]
hier = []
for k in range(N):
    # detection
    ty = rnd.choice(VALS + [None]); fn = rnd.choice(VALS + [None, None]); fc = rnd.random() < .5; D = f'D{k}'
    decls.append(f'struct {D} {{ {f"using type = {ty};" if ty else ""} {f"{fn} fn(){" const" if fc else ""};" if fn else ""} }};')
    for op, arg, r in (('TypeOf', D, ty), ('TypeOf', D + ' const', ty), ('TypeOf', D + ' &', None), ('FnOf', D, fn), ('FnOf', D + ' const', fn if fc else None), ('FnOf', D + ' &', fn), ('FnOf', 'int', None), ('PtrOf', D + ' *', f'{D} &'), ('PtrOf', D, None)):
        truth(f'sm::IsDetected<{op}, {arg}>::value', r is not None)
        case(f'std::is_same<sm::DetectedOrT<Dflt, {op}, {arg}>, {r or "Dflt"}>::value && std::is_same<sm::DetectedT<{op}, {arg}>, {r or "sm::NoneSuch"}>::value && std::is_same<typename sm::DetectedOr<Dflt, {op}, {arg}>::Type, {r or "Dflt"}>::value && sm::DetectedOr<Dflt, {op}, {arg}>::ValueType::value == {tf(r)}')
        if r is None: x = f'sm::DetectedT<{op}, {arg}>'; case(f'!std::is_default_constructible<{x}>::value && !std::is_copy_constructible<{x}>::value && !std::is_copy_assignable<{x}>::value && !std::is_destructible<{x}>::value')
        e = rnd.choice(VALS); truth(f'sm::IsDetectedExact<{e}, {op}, {arg}>::value', r == e)
        if r in VALS or r is None: e = rnd.choice(VALS); truth(f'sm::IsDetectedConvertible<{e}, {op}, {arg}>::value', (r, e) in CONV)
    a, b = rnd.choice(['int', 'A', 'char const *', 'std::string']), rnd.choice(['int', 'A', 'std::string'])
    s = {('int', 'int'): 'int', ('char const *', 'int'): 'char const *', ('char const *', 'std::string'): 'std::string', ('std::string', 'std::string'): 'std::string'}.get((a, b))
    case(f'std::is_same<sm::DetectedOrT<Dflt, PlusOf, {a}, {b}>, {s or "Dflt"}>::value && sm::IsDetected<PlusOf, {a}, {b}>::value == {tf(s)}'); case(f'std::is_same<sm::Void_t<{a}, {b}>, void>::value && std::is_same<typename sm::Void<{a}, {b}>::type, void>::value')
    # special members
    S = f'S{k}'; kind = {m: rnd.choice(['n', 'n', 't', 't', 'd']) for m in ('dc', 'cc', 'mc', 'ca', 'ma', 'ic')}; kind['dt'] = rnd.choice('nnnntd')
    for m in ('mc', 'ma'):
        if rnd.random() < .2: kind[m] = 'absent'
    def sm_(m, decl): return '' if kind[m] == 'absent' else decl + {'n': ' noexcept;', 't': ' noexcept(false);', 'd': ' = delete;'}[kind[m]]
    decls.append(f'struct {S} {{ {sm_("dc", S + "()")} {sm_("cc", f"{S}({S} const &)")} {sm_("mc", f"{S}({S} &&)")} {sm_("ca", f"{S} & operator=({S} const &)")} {sm_("ma", f"{S} & operator=({S} &&)")} {sm_("ic", f"explicit {S}(Ic, int)")} {sm_("dt", f"~{S}()")} }};')
    eff = dict(kind); eff['mc'] = kind['cc'] if kind['mc'] == 'absent' else kind['mc']; eff['ma'] = kind['ca'] if kind['ma'] == 'absent' else kind['ma']
    dt = kind['dt'] != 'd'
    for n, m, ctor in (('DefaultConstructible', 'dc', 1), ('CopyConstructible', 'cc', 1), ('MoveConstructible', 'mc', 1), ('CopyAssignable', 'ca', 0), ('MoveAssignable', 'ma', 0)):
        ok = eff[m] != 'd' and (dt or not ctor)
        models(f'sm::{n}({S})', ok); models(f'sm::Nothrow{n}({S})', ok and eff[m] == 'n' and (kind['dt'] == 'n' or not ctor))
    models(f'sm::Destructible({S})', dt)
    ok = kind['ic'] != 'd' and dt
    models(f'sm::Constructible({S}, Ic, int)', ok); models(f'sm::NothrowConstructible({S}, Ic, int)', ok and kind['ic'] == 'n' and kind['dt'] == 'n'); models(f'sm::Constructible({S}, int)', False); models(f'sm::Constructible({S}, Ic, A)', False)
    models(f'sm::Constructible({S}, {S} const &)', eff['cc'] != 'd' and dt); models(f'sm::Constructible({S}, {S})', eff['mc'] != 'd' and dt); models(f'sm::NothrowConstructible({S}, {S})', eff['mc'] == 'n' and kind['dt'] == 'n')
    models(f'sm::CopyConstructible({S} &)', True); models(f'sm::DefaultConstructible({S} &)', False); models(f'sm::MoveAssignable({S} &)', eff['ca'] != 'd') # an lvalue reference is assigned from an lvalue
    # swapping
    W = f'W{k}'; own = rnd.choice([None, None, 'n', 't', 'd', 'value']); other = rnd.choice([None, 'one', 'both', 'both-t']); mv = rnd.choice(['n', 't', 'd'])
    x = f'struct V{k} {{}}; struct {W} {{ {W}(); {W}({W} &&){ {"n": " noexcept", "t": "", "d": " = delete"}[mv]}; {W} & operator=({W} &&){ {"n": " noexcept", "t": "", "d": " = delete"}[mv]}; }};'
    if own: x += {'n': f'void swap({W} &, {W} &) noexcept;', 't': f'void swap({W} &, {W} &);', 'd': f'void swap({W} &, {W} &) = delete;', 'value': f'void swap({W} &&, {W} &&) noexcept; void swap({W} &, {W} &);'}[own]
    if other: x += f'void swap({W} &, V{k} &) noexcept;' + {'one': '', 'both': f'void swap(V{k} &, {W} &) noexcept;', 'both-t': f'void swap(V{k} &, {W} &);'}[other]
    decls.append(x)
    sw = own != 'd' and (own is not None or mv != 'd'); nsw = sw and (own == 'n' or (own is None and mv == 'n'))
    truth(f'sm::IsSwappable<{W}>::value', sw); truth(f'sm::IsNothrowSwappable<{W}>::value', nsw); models(f'sm::Swappable({W})', sw); models(f'sm::Swappable({W} &)', sw); models(f'sm::Swappable({W}, {W})', sw)
    models(f'sm::Swappable({W} const &)', False); truth(f'sm::IsSwappable<{W} const>::value', False)
    truth(f'sm::IsSwappableWith<{W} &, V{k} &>::value', other in ('both', 'both-t')); truth(f'sm::IsSwappableWith<V{k} &, {W} &>::value', other in ('both', 'both-t')); truth(f'sm::IsNothrowSwappableWith<{W} &, V{k} &>::value', other == 'both'); truth(f'sm::IsNothrowSwappableWith<V{k} &, {W} &>::value', other == 'both')
    models(f'sm::Swappable({W}, V{k})', other in ('both', 'both-t')); models(f'sm::Swappable(V{k}, {W})', other in ('both', 'both-t'))
    truth(f'sm::IsSwappableWith<{W}, {W}>::value', own == 'value'); truth(f'sm::IsNothrowSwappableWith<{W}, {W}>::value', own == 'value')
    truth(f'sm::IsSwappable<{W}[{rnd.randint(1, 5)}]>::value', sw); truth(f'sm::IsNothrowSwappable<{W}[3]>::value', nsw)
    t = rnd.choice([W, f'V{k}', 'int', 'int const', 'void', 'void const', 'int &', 'int &&', 'int(char)', 'int(char) const', 'int() &', 'int[]', 'int[2][3]', 'std::string', 'std::unique_ptr<int>', S, 'A const *'])
    u = rnd.choice([t, t, f'{W} &', f'V{k} &', 'int &', 'void', 'int(&)[3]', f'{S} &', f'V{k}'])
    case(f'sm::IsSwappable<{t}>::value == std::is_swappable<{t}>::value && sm::IsNothrowSwappable<{t}>::value == std::is_nothrow_swappable<{t}>::value')
    case(f'sm::IsSwappableWith<{t}, {u}>::value == std::is_swappable_with<{t}, {u}>::value && sm::IsNothrowSwappableWith<{t}, {u}>::value == std::is_nothrow_swappable_with<{t}, {u}>::value')
    # comparing
    X = f'X{k}'; x = f'struct {X} {{ '; free = ''; want = {}
    for n, op in CMP:
        how = rnd.choice(['none', 'member const', 'member', 'free', 'free lvalue', 'free value', 'left', 'right', 'four', 'four']); r, rok = rnd.choice(RETS if rnd.random() < .5 else RETS[:1]); acc = False; accC = None; mix = (False, False)
        if how == 'member const': x += f'{r} operator{op}({X} const &) const; '; acc = True
        elif how == 'member': x += f'{r} operator{op}({X} const &); '
        elif how == 'free': free += f'{r} operator{op}({X} const &, {X} const &); '; acc = True
        elif how == 'free lvalue': free += f'{r} operator{op}({X} &, {X} &); '
        elif how == 'four': # one for each constness of the operands, of which one at most does not do
            bad = rnd.choice([None, 0, 1, 2, 3]); acc, accC = bad is None, bad != 3
            for i, (a, b) in enumerate((('', ''), ('', ' const'), (' const', ''), (' const', ' const'))): free += f'{"void" if i == bad and k % 2 else r} operator{op}({X}{a} &, {X}{b} &){" = delete" if i == bad and not k % 2 else ""}; '
        elif how == 'free value': free += f'{r} operator{op}({X}, {X}); '; acc = True
        elif how == 'left': free += f'{r} operator{op}({X} const &, int); '; mix = (True, False)
        elif how == 'right': free += f'{r} operator{op}(int, {X} const &); '; mix = (False, True)
        want[n] = (acc and rok, mix[0] and rok, mix[1] and rok, (acc if accC is None else accC) and rok)
    decls.append(x + '}; ' + free)
    for n, op in CMP:
        s, l, r, sc = want[n]
        models(f'sm::{n}Comparable({X})', s); models(f'sm::{n}Comparable({X}, {X})', s); models(f'sm::{n}Comparable({X}, int)', l); models(f'sm::{n}Comparable(int, {X})', r); models(f'sm::{n}Comparable({X} const &)', sc)
        models(f'sm::{n}Comparable(int, double)', True, False); models(f'sm::{n}Comparable(int *, int)', False, False)
    # a hierarchy of classes
    H = f'H{k}'; par = rnd.randrange(k) if k and rnd.random() < .8 else None; anc = ({par} | hier[par]) if par is not None else set(); hier.append(anc)
    decls.append(f'struct {H}{f": H{par}" if par is not None else ""} {{}};')
    for _ in range(4):
        i, j = rnd.randrange(k + 1), rnd.randrange(k + 1); hi, hj = f'H{i}', f'H{j}'; d = j == i or j in hier[i] # i derives from j
        models(f'sm::BaseOf({hj}, {hi})', d); models(f'sm::DerivedFrom({hi}, {hj})', d); models(f'sm::BaseOf({hi}, {hj})', i == j or i in hier[j]); models(f'sm::Same({hi}, {hj})', i == j); models(f'sm::Same({hi}, {hi} &)', False)
        models(f'sm::ConvertibleTo({hi}, {hj})', d); models(f'sm::ConvertibleTo({hi} &, {hj} &)', d); models(f'sm::ConvertibleTo({hi} *, {hj} const *)', d); models(f'sm::ConvertibleTo({hi} const &, {hj} &)', False); models(f'sm::ConvertibleTo({hi} const *, {hj} *)', False)
        q = rnd.choice(['', 'const', '&', 'const &', '&&']); models(f'sm::DecaysTo({hi} {q}, {hj})', i == j); models(f'sm::DecaysTo({hi} (&)[4], {hj} *)', i == j); models(f'sm::DecaysTo({hi}, {hj} const &)', False)
    # calling
    F = f'F{k}'; ps = [rnd.choice(['int', 'double', 'int const &', 'int &', 'A', 'std::string']) for _ in range(rnd.randint(0, 4))]; r, rok = rnd.choice(RETS); c = rnd.random() < .5
    decls.append(f'struct {F} {{ {r} operator()({", ".join(ps)}){" const" if c else ""}; }};')
    for _ in range(5):
        av = [rnd.choice({'int': ['int', 'int &', 'double'], 'double': ['int', 'double &'], 'int const &': ['int', 'int const &', 'double'], 'int &': ['int &'], 'A': ['A', 'A &', 'A const &'], 'std::string': ['std::string', 'char const *']}[p]) for p in ps]; ok = True
        if rnd.random() < .4:
            m = rnd.randrange(3)
            if m == 0: av.append(rnd.choice(['int', 'A'])); ok = False
            elif m == 1 and av: av.pop(); ok = False
            elif av:
                i = rnd.randrange(len(av)); av[i] = {'int &': rnd.choice(['int', 'int const &']), 'A': 'int'}.get(ps[i], 'A'); ok = False
        sub = rnd.choice([F, F + ' &', F + ' const &', f'{r} (*)({", ".join(ps)})', f'{r} (&)({", ".join(ps)})']); good = ok and (c or not sub.endswith('const &'))
        al = ''.join(', ' + q for q in av)
        models(f'sm::Callable({sub}{al})', good); models(f'sm::Predicate({sub}{al})', good and rok)
        if 0 < len(av) < 4: models(f'sm::{ {1: "Unary", 2: "Binary", 3: "Trinary"}[len(av)]}Predicate({sub}{al})', good and rok)
        models(f'sm::Callable({S}{al})', False, False)
    # hashing
    Q = f'Q{k}'; key = rnd.choice(['int', 'A', 'std::string', H]); p = rnd.choice(['{} const &', '{}', '{} &', '{} &&', '{} const']); r = rnd.choice(['std::size_t'] * 4 + ['int', 'void', 'std::size_t const &']); c = rnd.random() < .75; cp = rnd.random() < .85
    more = ''; others = True
    for sig, on in ((p.format(key) + ')', c), (key + ' &) const', c and p == '{} const &'), (key + ' &&) const', c and p == '{} const &')): # overloads that some of the calls prefer
        if on and rnd.random() < .3 and (not more or ') const' in more): r2 = rnd.choice(['std::size_t'] * 3 + ['int']); more += f'{r2} operator()({sig}; '; others &= r2 == 'std::size_t'
    if not more and c and p == '{} const &' and rnd.random() < .3: r2 = rnd.choice(['std::size_t', 'int']); more = f'std::size_t operator()({key} &); {r2} operator()({key} &) const; '; others = r2 == 'std::size_t'
    decls.append(f'struct {Q} {{ {more}{r} operator()({p.format(key)}){" const" if c else ""}; {Q}({Q} const &){"" if cp else " = delete"}; }};')
    good = others and p in ('{} const &', '{}', '{} const') and r == 'std::size_t' and c and cp
    models(f'sm::Hash({Q}, {key})', good); models(f'sm::Hash({Q} &, {key})', False); models(f'sm::Hash({Q}, Unrelated)', False); models(f'sm::Hash(std::hash<{rnd.choice(["int", "std::string", "char *"])}>, A)', False); models(f'sm::Hash(std::size_t (*)({key} const &), {key})', True)
    if key == 'std::string': models('sm::Hash(std::hash<std::string>, std::string)', True)
    # nullable pointers
    Z = f'Z{k}'; have = {f: rnd.random() < .93 for f in ('eq', 'ne', 'dc', 'cc', 'ca', 'bool', 'eqn', 'neq', 'nen', 'nne', 'an')}
    x = f'struct {Z} {{ struct Ref {{ operator {Z} &() const; }}; {Z}(){"" if have["dc"] else " = delete"}; {Z}({Z} const &){"" if have["cc"] else " = delete"}; {Z} & operator=({Z} const &){"" if have["ca"] else " = delete"}; '
    ar = rnd.choice([Z + ' &'] * 6 + ['void', Z + ' const &', Z, 'int', 'Ref', 'Ref']); x += f'{ar} operator=(std::nullptr_t){"" if have["an"] else " = delete"}; '
    if have['bool']: x += f'{rnd.choice(["explicit ", ""])}operator bool() const; ' 
    x += '}; '
    for f, l, op, r in (('eq', f'{Z} const &', '==', f'{Z} const &'), ('ne', f'{Z} const &', '!=', f'{Z} const &'), ('eqn', f'{Z} const &', '==', 'std::nullptr_t'), ('neq', 'std::nullptr_t', '==', f'{Z} const &'), ('nen', f'{Z} const &', '!=', 'std::nullptr_t'), ('nne', 'std::nullptr_t', '!=', f'{Z} const &')): x += f'bool operator{op}({l}, {r}){"" if have[f] else " = delete"}; '
    decls.append(x); models(f'sm::NullablePointer({Z})', all(have.values()) and ar == Z + ' &')
    t = rnd.choice(['int', 'A', 'double', 'long', 'std::string', 'bool', 'std::size_t', 'signed char', 'unsigned', 'int &', 'E']); i, s, u = t in ('int', 'long', 'bool', 'std::size_t', 'signed char', 'unsigned'), t in ('int', 'double', 'long', 'signed char'), t in ('bool', 'std::size_t', 'unsigned')
    for n, b in (('Integral', i), ('Signed', s), ('Unsigned', u), ('SignedIntegral', i and s), ('UnsignedIntegral', i and u)): models(f'sm::{n}({t})', b)
    decls.append(f'struct G{k} {{ SHAREMIND_ENUMCONSTANT({(g := rnd.choice([("unsigned char", 8), ("unsigned", 32), ("unsigned long", 64)]))[0]}, value, {(v := rnd.choice([0, 1, 2 ** g[1] - 1, rnd.randrange(2 ** g[1])]))}u); }};')
    case(f'G{k}::value == {v}u && sizeof(G{k}::value) == {g[1] // 8}')
for t, b in (('int *', True), ('A const *', True), ('int (*)(char)', True), ('std::shared_ptr<A>', True), ('std::nullptr_t', True), ('std::unique_ptr<A>', False), ('int', False), ('A', False), ('std::string', False), ('int &', False)): models(f'sm::NullablePointer({t})', b)
for k in range(N * 30):
    t, b = formula(rnd.choice([1, 2, 2, 3, 4]))
    truth(f'sm::Models<{t}>::value', b)
    xs = [formula(rnd.randint(0, 2)) for _ in range(rnd.randint(0, 4))]; v = all(b for _, b in xs)
    truth(f'sm::Models<{", ".join(t for t, _ in xs)}>::value', v, len(xs) > 1)
    if k < N * 3:
        decls.append(f'template <typename T, SHAREMIND_REQUIRES_CONCEPTS({", ".join(["sm::Same(T, int)"] + [t for t, _ in xs])})> std::true_type req{k}(T); template <typename T, SHAREMIND_REQUIRES_CONCEPTS(sm::Not(sm::All({", ".join(["sm::Same(T, int)"] + [t for t, _ in xs])})))> std::false_type req{k}(T);')
        decls.append(f'std::false_type reqR{k}(...); template <typename T> SHAREMIND_REQUIRE_CONCEPTS_R(std::true_type, {", ".join(["sm::Same(T, int)"] + [t for t, _ in xs])}) reqR{k}(T);')
        truth(f'decltype(req{k}(0))::value', v); truth(f'decltype(req{k}(0l))::value', False); truth(f'decltype(reqR{k}(0))::value', v); truth(f'decltype(reqR{k}(0l))::value', False)
HEAD = ''.join(f'#include <sharemind/{h}.h>\n' for h in 'Concepts Detected EnumConstant IsSwappable Void'.split())
L = [HEAD, '''#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include "pbt.h"
namespace sm = sharemind;
struct A { int a; }; enum class E { e }; struct Ic {}; struct Dflt; struct Unrelated { Unrelated(Ic); };
struct ExplicitBool { explicit operator bool() const; }; struct ImplicitBool { operator bool() const; };
template <typename T> using TypeOf = typename T::type;
template <typename T> using FnOf = decltype(std::declval<T>().fn());
template <typename T> using PtrOf = decltype(*std::declval<T>());
template <typename T, typename U> using PlusOf = decltype(std::declval<T>() + std::declval<U>());
namespace {''', *decls]
L.append('struct Case { char const * text; bool holds, nontrivial; };\nCase const cases[] = {')
for e, nt in cases: L.append(f'{{"{e}", ({e}), {tf(nt)}}},')
L.append('};')
L.append('PBT_PROP(detectionAndConcepts, %d, %d, "generated classes or formulas") { size_t const i = c.draw(%d); Case const & x = cases[i]; c.trace("%%s", x.text); if (!x.holds) pbt::fail("does not hold: %%s", x.text); if (x.nontrivial) c.nontrivial(); }' % (len(cases) * 12, len(cases) * 12, len(cases) - 1))
L.append('}')
open(out, 'w').write('\n'.join(L) + '\n')
