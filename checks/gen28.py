"""Generates the type-level programs of C28: random lists of types and values,
with the result of every operation computed on ordinary Python lists."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 6151 + 28)
N = 300 if tier == 'quick' else 1500      # lists per operation
TYPES = ['int', 'char', 'A', 'B', 'int const', 'int &', 'void', 'Inc', 'int *', 'int(char)', 'int[3]', 'std::tuple<int>', 'L1<>', 'int &&', 'int volatile', 'int const volatile', 'A const', 'char const', 'int const &', 'int const *']
SIZED = ['char', 'int', 'short', 'A', 'B', 'double', 'long double', 'int *', 'S3', 'S17', 'S1000']
VT = {'int': [0, 1, -1, 7, 2, 3, -2147483647], 'bool': ['true', 'false'], 'char': ["'a'", "'b'", "'z'"], 'unsigned long': ['0ul', '1ul', '18446744073709551615ul', '5ul'], 'E': ['E::x', 'E::y', 'E::z']}
LISTS = ['L1', 'L2', 'std::tuple', 'sm::TemplateTypeList']
cases = []
def case(expr, nontrivial=True): cases.append((expr, nontrivial))
def same(a, b, nt=True): case(f'std::is_same<{a}, {b}>::value', nt)
def tl(maxn=8, pool=TYPES): return [rnd.choice(pool) for _ in range(rnd.randint(9, 45) if maxn == 8 and rnd.random() < .04 else rnd.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8][:maxn + 3]))]
def dup(maxn=8): # lists with few distinct types
    p = rnd.sample(TYPES if rnd.random() < .6 else ['int', 'int const', 'int volatile', 'int const volatile', 'int &', 'int &&', 'int const &'], rnd.randint(1, 3)); return tl(maxn, p)
def lst(t, xs): return f'{t}<{", ".join(map(str, xs))}>'
def args(first, xs): return ', '.join([*map(str, first), *map(str, xs)])
TTL = 'sm::TemplateTypeList'
npred = 0; preds = []
def pred():
    s = set(rnd.sample(range(len(TYPES)), rnd.randint(0, len(TYPES)))); m = sum(1 << i for i in s); k = len(preds)
    preds.append(f'template <typename T> struct P{k}: std::integral_constant<bool, ({m}u >> Ix<T>::value) & 1u> {{}};')
    return f'P{k}', lambda t: TYPES.index(t) in s
def vlist(ty=None, maxn=7):
    ty = ty or rnd.choice(list(VT)); return ty, [rnd.choice(VT[ty]) for _ in range(rnd.randint(9, 45) if maxn == 7 and rnd.random() < .04 else rnd.randint(0, maxn))]
vtm = {'int': 'VI', 'bool': 'VB', 'char': 'VC', 'unsigned long': 'VU', 'E': 'VE'}
def vpred(ty):
    vals = VT[ty]; s = set(rnd.sample(range(len(vals)), rnd.randint(0, len(vals)))); k = len(preds)
    e = ' || '.join(f'v == {vals[i]}' for i in s) or 'false'
    preds.append(f'template <{ty} v> struct P{k}: std::integral_constant<bool, ({e})> {{}};')
    return f'P{k}', lambda v: vals.index(v) in s
for _ in range(N):
    # booleans
    b = [rnd.random() < rnd.choice([.1, .5, .9, 1, 0]) for _ in range(rnd.randint(0, 90 if rnd.random() < .1 else 9))]; bs = ', '.join('true' if x else 'false' for x in b)
    for n, v in (('All', all(b)), ('Any', any(b)), ('None', not any(b))):
        case(f'sm::Template{n}<{bs}>::value == {str(v).lower()} && std::is_base_of<std::{str(v).lower()}_type, sm::Template{n}<{bs}>>::value', len(b) > 1)
    # appending and prepending
    t, x, y = rnd.choice(LISTS), tl(), tl()
    same(f'sm::TemplateAppendTypes_t<{args([lst(t, x)], y)}>', lst(t, x + y), x and y)
    same(f'typename sm::TemplatePrependTypes<{args([lst(t, x)], y)}>::type', lst(t, y + x), x and y)
    ty, v = vlist(); _, w = vlist(ty)
    same(f'sm::TemplateAppend_t<{args([ty, lst(vtm[ty], v)], w)}>', lst(vtm[ty], v + w), v and w)
    same(f'sm::TemplatePrepend_t<{args([ty, lst(vtm[ty], v)], w)}>', lst(vtm[ty], w + v), v and w)
    same(f'typename sm::TemplatePrepend<{args([ty, f"sm::TemplateList<{args([ty], v)}>"], w)}>::type', f'sm::TemplateList<{args([ty], w + v)}>', v and w)
    # conditional appending
    p, f = pred(); z = tl(6)
    same(f'sm::TemplateCondAppendType_t<{args([p, lst(t, x)], z)}>', lst(t, x + [q for q in z if f(q)]), len(z) > 1)
    same(f'sm::TemplateInverseCondAppendType_t<{args([p, lst(t, x)], z)}>', lst(t, x + [q for q in z if not f(q)]), len(z) > 1)
    # filters
    y = tl()
    same(f'sm::TemplateFilterTypes_t<{args([p], y)}>', lst(TTL, [q for q in y if f(q)]), len(y) > 1)
    same(f'sm::TemplateInverseTypeFilter_t<{args([p], y)}>', lst(TTL, [q for q in y if not f(q)]), len(y) > 1)
    ty, v = vlist(); p, f = vpred(ty); _, w = vlist(ty, 5); V = vtm[ty]
    same(f'sm::TemplateFilter_t<{args([ty, p], v)}>', f'sm::TemplateList<{args([ty], [q for q in v if f(q)])}>', len(v) > 1)
    same(f'sm::TemplateInverseFilter_t<{args([ty, p], v)}>', f'sm::TemplateList<{args([ty], [q for q in v if not f(q)])}>', len(v) > 1)
    same(f'sm::TemplateCondAppend_t<{args([ty, p, lst(V, v)], w)}>', lst(V, v + [q for q in w if f(q)]), len(w) > 1)
    same(f'sm::TemplateInverseCondAppend_t<{args([ty, p, lst(V, v)], w)}>', lst(V, v + [q for q in w if not f(q)]), len(w) > 1)
    # positions
    x = tl() or ['A']; n = len(x)
    same(f'sm::TemplateFirstType<{args([], x)}>', x[0], n > 1); same(f'sm::TemplateLastType<{args([], x)}>', x[-1], n > 1)
    x = tl(); n = len(x); s = rnd.randint(0, n); k = rnd.randint(0, n - s)
    same(f'sm::TemplateSubTypes_t<{args([f"{s}u", f"{k}u"], x)}>', lst(TTL, x[s:s + k]), n > 1)
    same(f'sm::TemplatePrefixTypes_t<{args([f"{k}u"], x)}>', lst(TTL, x[:k]), n > 1)
    same(f'typename sm::TemplateSuffixTypes<{args([f"{k}u"], x)}>::type', lst(TTL, x[n - k:]), n > 1)
    if n:
        i = rnd.randrange(n); same(f'sm::TemplateGetTypeParam_t<{args([f"{i}u"], x)}>', x[i], n > 1); same(f'{TTL}<{args([], x)}>::type<{i}>', x[i], n > 1)
    case(f'{TTL}<{args([], x)}>::size() == {n} && std::is_same<{TTL}<{args([], x)}>::AsTuple, std::tuple<{args([], x)}>>::value', n > 1)
    ty, v = vlist()
    if v:
        i = rnd.randrange(len(v)); case(f'sm::TemplateGetParam<{args([ty, f"{i}u"], v)}>::value == {v[i]} && std::is_same<sm::TemplateGetParam_t<{args([ty, f"{i}u"], v)}>, std::integral_constant<{ty}, {v[i]}>>::value', len(v) > 1)
    same(f'sm::TemplateCopyParams_t<{ty}, {lst(vtm[ty], v)}, {vtm[ty]}2>', lst(vtm[ty] + '2', v), len(v) > 1)
    case(f'sm::TemplateList<{args([ty], v)}>::size() == {len(v)} && std::is_same<sm::TemplateList<{args([ty], v)}>::type, sm::TemplateList<{args([ty], v)}>>::value', len(v) > 1)
    # common prefixes
    m = rnd.choice([0, 1, 2, 2, 2, 3, 4]); base = dup(); ls = []
    for _ in range(m):
        c = base[:rnd.randint(0, len(base))] + (dup(3) if rnd.random() < .6 else []); ls.append(c)
    if ls:
        pre = []
        for q in zip(*ls):
            if len(set(q)) > 1: break
            pre.append(q[0])
    else: pre = []
    same(f'sm::TemplateCommonPrefixTypes_t<{", ".join(lst(rnd.choice(LISTS), q) for q in ls)}>', lst(TTL, pre), m > 1 and pre)
    # counting
    x = dup(); q = rnd.choice(x + [rnd.choice(TYPES)])
    case(f'sm::TemplateCountTypes<{args([q], x)}>::value == {x.count(q)} && sm::TemplateCountTypes_v<{args([q], x)}> == {x.count(q)}', len(x) > 1)
    case(f'sm::TemplateContainsType<{args([q], x)}>::value == {str(q in x).lower()} && sm::TemplateContainsType_v<{args([q], x)}> == {str(q in x).lower()}', len(x) > 1)
    x = tl(8, SIZED); e = ' + '.join(['0'] + [f'sizeof({q})' for q in x])
    case(f'sm::SizeOfTypes<{args([], x)}>::value == {e} && sm::sizeOfTypes<{args([], x)}>() == {e}', len(x) > 1)
    # instantiation
    ls = [tl(4) for _ in range(rnd.randint(0, 4))]
    same(f'sm::TemplateInstantiateWithTypeParams_t<{args([rnd.choice(["L2"])], [lst(rnd.choice(LISTS), q) for q in ls])}>', lst('L2', sum(ls, [])), len(ls) > 1)
    # cv
    def cv(t): return rnd.choice(['', 'const', 'volatile', 'const volatile'])
    b1, b2 = rnd.choice(['int', 'A', 'void', 'int *', 'int[2]', 'Inc']), rnd.choice(['char', 'B', 'void', 'char *', 'char[4]', 'Inc']); c1, c2 = cv(b1), cv(b2)
    b1x = b1 if b1 not in ('int[2]',) else 'Arr'; b2x = b2 if b2 != 'char[4]' else 'Arr'
    has = lambda c, w: w in c.split()
    def q(b, cst, vol): return f'{b}{" const" if cst else ""}{" volatile" if vol else ""}'
    To, From = f'{b1x} {c1}', f'{b2x} {c2}'; C1, V1, C2, V2 = has(c1, 'const'), has(c1, 'volatile'), has(c2, 'const'), has(c2, 'volatile')
    for name, ec, ev in (('CopyConst', C2, V1), ('CopyVolatile', C1, V2), ('CopyCv', C2, V2), ('OrConst', C1 or C2, V1), ('OrVolatile', C1, V1 or V2), ('OrCv', C1 or C2, V1 or V2)):
        same(f'sm::{name}_t<{To}, {From}>', q(b1x, ec, ev)); same(f'typename sm::{name}<{To}, {From}>::type', q(b1x, ec, ev))
    r1, r2 = rnd.choice(['&', '&&']), rnd.choice(['&', '&&', ''])
    same(f'sm::CopyCv_t<{b1x if b1 != "void" else "int"} {c1} {r1}, {From}>', f'{b1x if b1 != "void" else "int"} {c1} {r1}') # references have no qualifiers of their own
    same(f'sm::RemoveCvrefT<{b1x if b1 != "void" else "int"} {c1} {r2}>', b1x if b1 != 'void' else 'int')
    same(f'typename sm::RemoveCvref<{b1x if b1 != "void" else "int"} {c1}>::type', b1x if b1 != 'void' else 'int')
    # wrappers
    w = rnd.choice(['int', 'A', 'std::string', 'int const', 'A const'])
    same(f'sm::StripReferenceWrapper_t<std::reference_wrapper<{w}>>', f'{w} &'); same(f'sm::StripReferenceWrapper_t<{w}>', w)
    k = rnd.choice(['', 'const', '&', 'const &', '&&'])
    same(f'sm::StripAndDecay_t<std::reference_wrapper<{w}> {k}>', f'{w} &'); same(f'sm::StripAndDecay_t<Id<{w}> {k}>', f'std::decay_t<Id<{w}> {k}>')
    same(f'sm::StripAndDecay_t<char const (&)[{rnd.randint(1, 9)}]>', 'char const *'); same(f'sm::StripAndDecay_t<int (&)(char)>', 'int (*)(char)')
    x = tl(6, ['int', 'A', 'char'])
    case(f'sm::DecayTupleSize<std::tuple<{args([], x)}> {k}>::value == {len(x)}', len(x) > 1)
    t = rnd.choice(TYPES + ['int(char) const', 'int() &', 'void const volatile', 'int[]', 'int(&)[3]'])
    case(f'sm::IsReferenceable<{t}>::value == {"false" if t.startswith("void") or t in ("int(char) const", "int() &") else "true"}')
    same(f'sm::TypeIdentityT<{t}>', t); same(f'typename sm::TypeIdentity<{t}>::type', t)
    for n, v in (('AlwaysTrue', 'true'), ('AlwaysFalse', 'false')):
        case(f'sm::{n}Type<{args([], tl())}>::value == {v} && sm::{n}TypePred<{rnd.choice(TYPES)}>::value == {v} && sm::{n}<int, {rnd.randint(-5, 5)}, 4>::value == {v} && sm::{n}Pred<char, {rnd.choice(VT["char"])}>::value == {v}')
    # functions
    R = rnd.choice(['void', 'int', 'A', 'int &', 'A const &', 'std::string']); a = [rnd.choice(['int', 'A', 'B &', 'int const &', 'char *', 'std::string', 'A &&', 'int (*)(char)']) for _ in range(rnd.randint(0, 5) if rnd.random() < .9 else rnd.randint(6, 24))]; sig = f'({", ".join(a)})'
    if rnd.random() < .5:
        F = rnd.choice([f'{R}{sig}', f'{R}(*){sig}', f'{R}(&){sig}', f'{R}(&&){sig}']); ea = a
    else:
        c = cv(0); F = f'{R}(C::*){sig} {c}'; F = rnd.choice([F, f'Id<{F}> &', f'Id<{F}> &&']); ea = [f'C {c} *'] + a
    case(f'std::is_same<sm::FunctionTraits<{F}>::return_type, {R}>::value && sm::FunctionTraits<{F}>::arity() == {len(ea)} && std::is_same<sm::FunctionTraits<{F}>::arguments, {TTL}<{args([], ea)}>>::value' + ''.join(f' && std::is_same<sm::FunctionTraits<{F}>::argument<{i}>, {q}>::value' for i, q in enumerate(ea)), len(ea) > 1)
    c = rnd.choice(['', 'const']); k = len(preds); preds.append(f'struct Fn{k} {{ {R} operator(){sig} {c}; }};')
    F = f'Fn{k} ' + rnd.choice(['', '&', '&&', 'const &', '']); ea = [f'Fn{k} {c} *'] + a
    case(f'std::is_same<sm::FunctionTraits<{F}>::return_type, {R}>::value && std::is_same<sm::FunctionTraits<{F}>::arguments, {TTL}<{args([], ea)}>>::value && sm::FunctionTraits<{F}>::arity() == {len(ea)}', len(a) > 1)
HEAD = ''.join(f'#include <sharemind/{h}.h>\n' for h in 'AlwaysFalse AlwaysFalsePred AlwaysFalseType AlwaysFalseTypePred AlwaysTrue AlwaysTruePred AlwaysTrueType AlwaysTrueTypePred CopyConst CopyCv CopyVolatile DecayTupleSize FunctionTraits IsReferenceable RemoveCvref SizeOfTypes StripAndDecay StripReferenceWrapper TemplateAll TemplateAny TemplateAppend TemplateAppendTypes TemplateCommonPrefixTypes TemplateCondAppend TemplateCondAppendType TemplateContainsType TemplateCopyParams TemplateCountTypes TemplateFilter TemplateFilterTypes TemplateFirstType TemplateGetParam TemplateGetTypeParam TemplateInstantiateWithTypeParams TemplateInverseCondAppend TemplateInverseCondAppendType TemplateInverseFilter TemplateInverseTypeFilter TemplateLastType TemplateList TemplateNone TemplatePrefixTypes TemplatePrepend TemplatePrependTypes TemplateSubTypes TemplateSuffixTypes TemplateTypeList TypeIdentity'.split())
L = [HEAD, '''#include <functional>
#include <string>
#include <tuple>
#include "pbt.h"
namespace {
namespace sm = sharemind;
struct A { int a; }; struct B { char c[5]; }; struct Inc; struct C; struct S3 { char c[3]; }; struct S17 { char c[17]; }; struct S1000 { char c[1000]; }; enum class E { x, y, z }; using Arr = int[2];
template <typename T> using Id = T;
template <typename ...> struct L1; template <typename ...> struct L2;
template <int ...> struct VI; template <bool ...> struct VB; template <char ...> struct VC; template <unsigned long ...> struct VU; template <E ...> struct VE; template <int ...> struct VI2; template <bool ...> struct VB2; template <char ...> struct VC2; template <unsigned long ...> struct VU2; template <E ...> struct VE2;
template <typename> struct Ix;''']
for i, t in enumerate(TYPES): L.append(f'template <> struct Ix<{t}> {{ static constexpr unsigned value = {i}; }};')
L += preds
L.append('struct Case { char const * text; bool holds, nontrivial; };')
L.append('Case const cases[] = {')
for e, nt in cases: L.append(f'{{"{e}", ({e}), {"true" if nt else "false"}}},')
L.append('};')
L.append('PBT_PROP(typeLists, %d, %d, "lists of at least two elements, or qualified types") { size_t const i = c.draw(%d); Case const & x = cases[i]; c.trace("%%s", x.text); if (!x.holds) pbt::fail("does not hold: %%s", x.text); if (x.nontrivial) c.nontrivial(); }' % (len(cases) * 12, len(cases) * 12, len(cases) - 1))
L.append('}')
open(out, 'w').write('\n'.join(L) + '\n')
