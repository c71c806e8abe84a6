"""Generates the tuple programs of C27: random tuple shapes for applyTuples and
random argument lists for makeNoNullTuple, one property case per program."""
import random, sys
out, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
rnd = random.Random(seed * 7919 + 27)
NA, NN = (120, 100) if tier == 'quick' else (400, 350)
VALS = ['int', 'char', 'long', 'double', 'std::string', 'c27::Big', 'std::unique_ptr<int>']
L = ['#include "c27.h"', 'namespace c27 { int cells[16]; }', 'namespace {', 'using namespace c27;']

def apply_case(k):
    body, args, total = [], [], 0
    nt = rnd.choice([1, 1, 2, 2, 3, 4])
    for t in range(nt):
        kind = rnd.choice(['tuple', 'tuple', 'tuple', 'pair', 'array'])
        if kind == 'array':
            n = rnd.randint(1, 4); ty = rnd.choice(['int', 'std::string', 'std::unique_ptr<int>'])
            body.append(f'std::array<{ty}, {n}> t{t}{{{{{", ".join(f"Val<{ty}>::make((int)c.draw(99))" for _ in range(n))}}}}};')
        else:
            n = 2 if kind == 'pair' else rnd.choice([1, 1, 2, 3, 4, 5])
            tys, ini = [], []
            for i in range(n):
                v = rnd.choice(VALS); q = rnd.choice(['', '', '', 'const', '&', 'const &', '&&'])
                if q in ('', 'const'):
                    tys.append(f'{v} {q}'); ini.append(f'Val<{v}>::make((int)c.draw(99))')
                else:
                    body.append(f'{v} e{t}_{i} = Val<{v}>::make((int)c.draw(99));')
                    tys.append(f'{v} {q}'); ini.append(f'std::move(e{t}_{i})' if q == '&&' else f'e{t}_{i}')
            body.append(f'std::{kind}<{", ".join(tys)}> t{t}{{{", ".join(ini)}}};')
        total += n
        cat = rnd.choice(['t%d', 'std::move(t%d)', 'static_cast<decltype(t%d) const &>(t%d)', 'static_cast<decltype(t%d) const &&>(t%d)'])
        if cat.endswith('&&>(t%d)') and kind == 'pair':
            cat = 't%d'
        args.append(cat % ((t,) * cat.count('%d')))
    L.append(f'void apply{k}(pbt::Ctx & c) {{ c.trace("applyTuples program {k}"); {" ".join(body)} applied(c, {", ".join(args)}); }}')

def null_case(k):
    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]); body, args, types, orig, checks, gets = [], [], [], [], [], []
    for i in range(n):
        kind = rnd.choice(['null', 'null', 'nullvar', 'nullconst', 'val', 'val', 'lval', 'clval', 'ref', 'cref', 'zero', 'ptr', 'arr', 'fn', 'conv', 'uptr'])
        j = len(types)
        if kind in ('null', 'nullvar', 'nullconst'):
            orig.append('std::nullptr_t')
            if kind == 'null': args.append('nullptr')
            else:
                body.append(f'std::nullptr_t {"const " if kind == "nullconst" else ""}n{i} = nullptr;'); args.append(f'n{i}' if rnd.random() < .7 else f'std::move(n{i})')
            continue
        v = rnd.choice(VALS[:6])
        if kind in ('val', 'lval', 'clval', 'ref', 'cref'):
            body.append(f'int const x{i} = (int)c.draw(99); {"const " if kind == "clval" else ""}{v} v{i} = Val<{v}>::make(x{i});')
        if kind == 'val':
            types.append(v); args.append(f'std::move(v{i})'); checks.append(f'CHECK(same(std::get<{j}>(t), Val<{v}>::make(x{i})));')
        elif kind in ('lval', 'clval'):
            types.append(v); args.append(f'v{i}'); checks.append(f'CHECK(same(std::get<{j}>(t), Val<{v}>::make(x{i}))); CHECK(same<{v}>(v{i}, Val<{v}>::make(x{i}))); CHECK((void const *)&std::get<{j}>(t) != &v{i});')
        elif kind in ('ref', 'cref'):
            types.append(f'{v} {"const " if kind == "cref" else ""}&'); args.append(f'std::{kind}(v{i})'); checks.append(f'CHECK(&std::get<{j}>(t) == &v{i});')
        elif kind == 'zero':
            types.append('int'); args.append('0'); checks.append(f'CHECK_EQ(std::get<{j}>(t), 0);')
        elif kind == 'ptr':
            types.append('int *'); args.append('static_cast<int *>(nullptr)' if rnd.random() < .5 else f'cells + {i}'); checks.append(f'CHECK(std::get<{j}>(t) == {args[-1]});')
        elif kind == 'arr':
            types.append('char const *'); body.append(f'static char const a{i}[] = "text";'); args.append(f'a{i}'); checks.append(f'CHECK(std::get<{j}>(t) == a{i});')
        elif kind == 'fn':
            types.append('int (*)(int)'); args.append('fn'); checks.append(f'CHECK(std::get<{j}>(t) == &fn);')
        elif kind == 'conv':
            types.append('Convertible'); args.append('Convertible{}')
        else:
            types.append('std::unique_ptr<int>'); body.append(f'int const x{i} = (int)c.draw(99); auto u{i} = std::make_unique<int>(x{i}); int * const p{i} = u{i}.get();'); args.append(f'std::move(u{i})'); checks.append(f'CHECK(std::get<{j}>(t).get() == p{i} && *p{i} == x{i} && !u{i});')
        orig.append(types[-1])
        if kind != 'uptr':
            i0 = len(orig) - 1
            gets.append(f'CHECK((sharemind::noNullGet<{i0}, ORIG>(t) == std::get<{j}>(t)));')
    L.append(f'''void nulls{k}(pbt::Ctx & c) {{ c.trace("makeNoNullTuple program {k}"); {" ".join(body)} auto t = sharemind::makeNoNullTuple({", ".join(args)}); using E = std::tuple<{", ".join(types)}>; static_assert(std::is_same<decltype(t), E>::value, "type"); static_assert(std::is_same<sharemind::NoNullTuple_t<{", ".join(orig)}>, E>::value && std::is_same<typename sharemind::NoNullTuple<{", ".join(orig)}>::type, E>::value, "type"); using ORIG = std::tuple<{", ".join(orig)}>; {" ".join(checks)} {" ".join(gets)} {"c.nontrivial();" if len(types) >= 2 and len(types) < n else ""} }}''')

L.append('int fn(int x) { return x; }')
for k in range(NA): apply_case(k)
for k in range(NN): null_case(k)
L.append('void (*const applies[])(pbt::Ctx &) = {' + ', '.join(f'apply{k}' for k in range(NA)) + '};')
L.append('void (*const nulls[])(pbt::Ctx &) = {' + ', '.join(f'nulls{k}' for k in range(NN)) + '};')
L.append('PBT_PROP(applyTuples, 40000, 200000, "a program with at least three elements in all tuples") { applies[c.draw(%d)](c); }' % (NA - 1))
L.append('PBT_PROP(noNullTuple, 40000, 200000, "a program with both nulls and at least two other arguments") { nulls[c.draw(%d)](c); }' % (NN - 1))
L.append('constexpr auto k = sharemind::makeNoNullTuple(1, nullptr, 2l, nullptr); static_assert(std::get<0>(k) == 1 && std::get<1>(k) == 2l && std::tuple_size<decltype(k)>::value == 2 && sharemind::noNullGet<2, std::tuple<int, std::nullptr_t, long>>(k) == 2l, "constant expressions");')
L.append('}')
L.append('static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;')
open(out, 'w').write('\n'.join(L) + '\n')
