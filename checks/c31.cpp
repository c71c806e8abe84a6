// C31: optionals of many kinds of value types against a plain model, with
// every construction, copy, move, assignment, swap and comparison of the value
// able to throw, in storage which held arbitrary bytes before.
#include <sharemind/Optional.h>
#include <bits/enable_special_members.h>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <new>
#include <set>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;
using pbt::Ctx;
struct Boom {};
long throwIn = -1;
void tick() { if (throwIn >= 0 && throwIn-- == 0) throw Boom(); }
std::set<void const *> live;
constexpr int MOVED = -7;

struct Src { int v; explicit Src(int x) : v(x) {} Src(Src const & o) : v(o.v) { tick(); } Src(Src && o) : v((tick(), o.v)) { o.v = MOVED; } Src & operator=(Src const &) = default; };
struct Exp { int v; };

struct Reg { // registered objects
    Reg() { if (!live.insert(this).second) pbt::fail("an object was constructed over a live one"); }
    Reg(Reg const & o) : Reg() { o.ok(); }
    Reg & operator=(Reg const & o) { ok(); o.ok(); return *this; }
    ~Reg() { if (!live.erase(this)) pbt::fail("an object was destroyed which was not alive"); }
    void ok() const { if (!live.count(this)) pbt::fail("access to an object that is not alive"); }
};
template <bool nothrowMove> struct Core {
    int v; std::string heap; Reg r;
    void ok() const { r.ok(); }
    explicit Core(int x) : v((tick(), x)), heap("a string on the heap, not a short one") {}
    Core(std::initializer_list<int> l, int x) : v((tick(), x)) { for (int i : l) v += i; }
    Core(Src const & s) : v((tick(), s.v)) {}
    Core(Src && s) : v((tick(), s.v)) { s.v = MOVED; }
    explicit Core(Exp const & s) : v((tick(), s.v)) {}
    Core(Core const & o) : v((o.ok(), tick(), o.v)), heap(o.heap), r(o.r) {}
    Core(Core && o) noexcept(nothrowMove) : v((o.ok(), nothrowMove ? void() : tick(), o.v)), r(o.r) { heap.swap(o.heap); o.v = MOVED; }
    Core & operator=(Core const & o) { ok(); o.ok(); tick(); v = o.v; heap = o.heap; return *this; }
    Core & operator=(Core && o) noexcept(nothrowMove) { ok(); o.ok(); if (!nothrowMove) tick(); heap.swap(o.heap); v = o.v; o.v = MOVED; return *this; }
    Core & operator=(Src const & o) { ok(); tick(); v = o.v; return *this; }
    Core & operator=(Src && o) { ok(); tick(); v = o.v; o.v = MOVED; return *this; }
};
enum { CC = 1, CA = 2, MC = 4, MA = 8, ADL = 16, NTM = 32 };
template <int F> struct Val : Core<bool(F & NTM)>, std::_Enable_copy_move<bool(F & CC), bool(F & CA), bool(F & MC), bool(F & MA), Val<F>> {
    using C = Core<bool(F & NTM)>; using C::C;
    Val(Val const &) = default; Val(Val &&) = default; Val & operator=(Val const &) = default; Val & operator=(Val &&) = default;
    Val & operator=(Src const & s) { C::operator=(s); return *this; } Val & operator=(Src && s) { C::operator=(std::move(s)); return *this; }
    static int movedFrom(int) { return MOVED; }
};
long swaps = 0;
template <int F, typename = std::enable_if_t<bool(F & ADL)>> void swap(Val<F> & a, Val<F> & b) { a.ok(); b.ok(); tick(); ++swaps; std::swap(a.v, b.v); a.heap.swap(b.heap); }
struct CopyOnly : Reg { int v; explicit CopyOnly(int x) : v((tick(), x)) {} CopyOnly(Src const & s) : v((tick(), s.v)) {} explicit CopyOnly(Exp const & s) : v((tick(), s.v)) {}
    CopyOnly(CopyOnly const & o) : Reg(o), v((tick(), o.v)) {} CopyOnly & operator=(CopyOnly const & o) { ok(); o.ok(); tick(); v = o.v; return *this; } static int movedFrom(int x) { return x; } };
struct TrivDtor { int v; void ok() const {} explicit TrivDtor(int x) : v((tick(), x)) {} TrivDtor(Src const & s) : v((tick(), s.v)) {} explicit TrivDtor(Exp const & s) : v(s.v) {}
    TrivDtor(TrivDtor const & o) : v((tick(), o.v)) {} TrivDtor(TrivDtor && o) : v((tick(), o.v)) { o.v = MOVED; } TrivDtor & operator=(TrivDtor const & o) { tick(); v = o.v; return *this; } TrivDtor & operator=(TrivDtor && o) { tick(); v = o.v; o.v = MOVED; return *this; } static int movedFrom(int) { return MOVED; } };
struct TrivCopy { int v; void ok() const {} explicit TrivCopy(int x) : v(x) {} TrivCopy(Src const & s) : v(s.v) {} explicit TrivCopy(Exp const & s) : v(s.v) {}
    TrivCopy(TrivCopy const &) = default; TrivCopy(TrivCopy && o) : v((tick(), o.v)) { o.v = MOVED; } TrivCopy & operator=(TrivCopy const &) = default; TrivCopy & operator=(TrivCopy && o) { tick(); v = o.v; o.v = MOVED; return *this; } static int movedFrom(int) { return MOVED; } };
struct TrivMove { int v; void ok() const {} explicit TrivMove(int x) : v(x) {} TrivMove(Src const & s) : v(s.v) {} explicit TrivMove(Exp const & s) : v(s.v) {}
    TrivMove(TrivMove const & o) : v((tick(), o.v)) {} TrivMove(TrivMove &&) = default; TrivMove & operator=(TrivMove const & o) { tick(); v = o.v; return *this; } TrivMove & operator=(TrivMove &&) = default; static int movedFrom(int x) { return x; } };
struct Plain { int v; void ok() const {} constexpr explicit Plain(int x) : v(x) {} Plain(Src const & s) : v(s.v) {} explicit Plain(Exp const & s) : v(s.v) {} static int movedFrom(int x) { return x; } };
struct alignas(64) Odd : Core<false> { using Core<false>::Core; Odd(Odd const &) = default; Odd(Odd &&) = default; Odd & operator=(Odd const &) = default; Odd & operator=(Odd &&) = default; using Core<false>::operator=;
    static void * operator new(std::size_t) = delete; void operator&() const = delete; static int movedFrom(int) { return MOVED; }
    void ok() const { Core<false>::ok(); CHECKM(reinterpret_cast<uintptr_t>(this) % 64 == 0, "a value is not aligned"); } };
template <typename T> struct IsVal : std::false_type {}; template <int F> struct IsVal<Val<F>> : std::true_type { enum { flags = F }; };
template <typename T> using Bare = std::remove_cv_t<T>;
template <typename T> constexpr bool hasIl = std::is_base_of<Core<false>, T>::value || std::is_base_of<Core<true>, T>::value;

struct Cmp { bool less, equal; };
template <typename X> int num(X const & x) { x.ok(); return x.v; } int num(Src const & s) { return s.v; } int num(int v) { return v; }
#define OPS(op) template <typename A, typename B> auto operator op(A const & a, B const & b) -> std::enable_if_t<std::is_class<A>::value && std::is_class<B>::value, decltype(num(a) op num(b))> { tick(); return num(a) op num(b); }
OPS(==) OPS(!=) OPS(<) OPS(<=) OPS(>) OPS(>=)
#undef OPS

struct Mod { bool has; int v; bool operator==(Mod const & o) const { return has == o.has && (!has || v == o.v); } };
template <typename T> struct Run {
    using O = sm::Optional<T>; using B = Bare<T>; enum { N = 3 };
    static constexpr bool cc = std::is_copy_constructible<T>::value, mc = std::is_move_constructible<T>::value, ca = cc && std::is_copy_assignable<T>::value, ma = mc && std::is_move_assignable<T>::value, sw = mc && sm::IsSwappable<T>::value, srcAssign = std::is_assignable<T &, Src const &>::value;
    struct Slot { alignas(O) unsigned char bytes[sizeof(O)]; O & o() { return *reinterpret_cast<O *>(bytes); } };
    Ctx & c; Slot s[N]; bool up[N] = {}; Mod m[N]; size_t thrown = 0, swapsOf[3] = {0, 0, 0}, assigns[4] = {}, moves = 0; 
    explicit Run(Ctx & c_) : c(c_) { throwIn = -1; live.clear(); swaps = 0; }
    ~Run() { throwIn = -1; if (!std::uncaught_exception()) for (int k = 0; k < N; ++k) if (up[k]) s[k].o().~O(); }
    void garbage(int k) { unsigned char const x = (unsigned char)c.pick({0, 255, 1, 2, 0x5a}); std::memset(s[k].bytes, x, sizeof(s[k].bytes)); }
    template <typename F> bool run(F f) { if (c.chance(1, 4)) throwIn = (long)c.draw(3); bool ok = true; try { f(); } catch (Boom const &) { ok = false; } throwIn = -1; if (!ok) { ++thrown; c.trace("... threw"); } return ok; }
    void verify(int k) { O & o = s[k].o(); O const & q = o; CHECKM(q.hasValue() == m[k].has, "optional %d %s a value", k, q.hasValue() ? "has" : "lacks"); CHECK_EQ((bool)q, m[k].has); CHECK_EQ((bool)o, m[k].has);
        if (m[k].has) { o->ok(); CHECKM(q->v == m[k].v, "optional %d holds %d, expected %d", k, q->v, m[k].v); CHECK(std::addressof(*o) == std::addressof(*q) && o.operator->() == std::addressof(*o) && q.operator->() == std::addressof(*q)); T && r = *std::move(o); T const && cr = *std::move(q); CHECK(std::addressof(r) == std::addressof(*q) && std::addressof(cr) == std::addressof(*q)); auto const a = reinterpret_cast<uintptr_t>(std::addressof(r)), b = reinterpret_cast<uintptr_t>(s[k].bytes); CHECK(a >= b && a + sizeof(T) <= b + sizeof(O) && a % alignof(T) == 0); }
        nulls(q, m[k].has); }
    void nulls(O const & q, bool h) { auto const n = sm::nullOption; CHECK_EQ(q == n, !h); CHECK_EQ(n == q, !h); CHECK_EQ(q != n, h); CHECK_EQ(n != q, h); CHECK_EQ(q < n, false); CHECK_EQ(n < q, h); CHECK_EQ(q <= n, !h); CHECK_EQ(n <= q, true); CHECK_EQ(q > n, h); CHECK_EQ(n > q, false); CHECK_EQ(q >= n, true); CHECK_EQ(n >= q, !h); }
    void verifyAll() { size_t n = 0; for (int k = 0; k < N; ++k) { verify(k); n += m[k].has; } if (std::is_base_of<Reg, T>::value || hasIl<B>) CHECKM(live.size() == n, "%zu values are alive, but %zu optionals have values", live.size(), n); }
    void drop(int k) { if (up[k]) { s[k].o().~O(); up[k] = false; } }
    template <typename Opt, typename G> void fromOther(int k, int how, int v, G construct) {
        // Convert from an optional of another type.
        Opt e; if (how & 1) e.emplace(v);
        bool const ok = run([&] { construct(e); }); throwIn = -1;
        CHECK_EQ(e.hasValue(), bool(how & 1)); (void)k; (void)ok;
    }
    void construct(int k, int v) {
        drop(k); garbage(k); void * const at = s[k].bytes; int const how = (int)c.draw(15); int j = (int)c.draw(N - 1); if (j == k || !up[j]) j = -1; Mod r{true, v}; bool ok = true; c.trace("construct optional %d, way %d, from %d, value %d", k, how, j, v);
        switch (how) {
        case 0: ok = run([&] { ::new (at) O; }); r.has = false; break;
        case 1: ok = run([&] { ::new (at) O(sm::nullOption); }); r.has = false; break;
        case 2: case 3: ok = run([&] { ::new (at) O(sm::inPlace, v); }); break;
        case 4: case 5: case 15: if (j >= 0) { if constexpr (cc) { r = m[j]; ok = run([&] { ::new (at) O(static_cast<O const &>(s[j].o())); }); break; } } ok = run([&] { ::new (at) O(sm::inPlace, v); }); break;
        case 6: case 7: if (j >= 0) { if constexpr (mc) { r = m[j]; ok = run([&] { ::new (at) O(std::move(s[j].o())); }); if (ok && r.has) { ++moves; m[j].v = std::is_const<T>::value ? m[j].v : B::movedFrom(m[j].v); } break; } } ok = run([&] { ::new (at) O(); }); r.has = false; break;
        case 8: { B const b(v); if constexpr (cc) ok = run([&] { ::new (at) O(b); }); else ok = run([&] { ::new (at) O(sm::inPlace, v); }); break; }
        case 9: { B b(v); if constexpr (mc) { ok = run([&] { ::new (at) O(std::move(b)); }); if (ok) CHECK_EQ(b.v, B::movedFrom(v)); } else ok = run([&] { ::new (at) O(sm::inPlace, v); }); break; }
        case 10: { Src x(v); if (c.coin()) { ok = run([&] { ::new (at) O(x); }); CHECK_EQ(x.v, v); } else ok = run([&] { ::new (at) O(Src(v)); }); break; }
        case 11: { sm::Optional<Src> x; r.has = c.coin(); if (r.has) x.emplace(v); ok = run([&] { ::new (at) O(static_cast<sm::Optional<Src> const &>(x)); }); CHECK_EQ(x.hasValue(), r.has); if (r.has) CHECK_EQ(x->v, v); c.label("conversion from optional"); break; }
        case 12: { sm::Optional<Src> x; r.has = c.coin(); if (r.has) x.emplace(v); ok = run([&] { ::new (at) O(std::move(x)); }); CHECK_EQ(x.hasValue(), r.has); if (r.has) CHECK_EQ(x->v, ok && hasIl<B> ? MOVED : v); break; }
        case 13: { sm::Optional<Exp> x; r.has = c.coin(); if (r.has) x = Exp{v}; if (c.coin()) ok = run([&] { ::new (at) O(static_cast<sm::Optional<Exp> const &>(x)); }); else ok = run([&] { ::new (at) O(std::move(x)); }); CHECK_EQ(x.hasValue(), r.has); break; }
        case 14: if constexpr (mc) { if constexpr (hasIl<B>) { if (c.coin()) { ok = run([&] { ::new (at) O(sm::makeOptional<T>({1, 2, 3}, v)); }); r.v = v + 6; break; } } ok = run([&] { ::new (at) O(sm::makeOptional<T>(v)); }); } else { ok = run([&] { ::new (at) O(sm::inPlace, v); }); } break;
        }
        if (!ok) { garbage(k); ::new (at) O; r.has = false; } up[k] = true; m[k] = r;
    }
    void assign(int k, int v) {
        O & o = s[k].o(); Mod const old = m[k]; Mod r{true, v}; int const how = (int)c.draw(9); int const j = (int)c.draw(N - 1); bool ok = true; c.trace("assign optional %d, way %d, from %d, value %d", k, how, j, v);
        auto note = [&] { ++assigns[2 * old.has + r.has]; };
        switch (how) {
        case 0: { O & x = (o = sm::nullOption); CHECK(std::addressof(x) == &o); r.has = false; break; }
        case 1: case 2: if constexpr (ca) { r = m[j]; ok = run([&] { O & x = (o = static_cast<O const &>(s[j].o())); CHECK(std::addressof(x) == &o); }); if (k == j) c.label("self-assignment"); break; } return;
        case 3: case 4: if constexpr (ma) { if (k == j) return; r = m[j]; ok = run([&] { O & x = (o = std::move(s[j].o())); CHECK(std::addressof(x) == &o); }); if (ok && r.has) { ++moves; m[j].v = B::movedFrom(m[j].v); } break; } return;
        case 5: if constexpr (cc && ma) { B const b(v); ok = run([&] { o = b; }); break; } return;
        case 6: if constexpr (ma) { B b(v); ok = run([&] { o = std::move(b); }); break; } return;
        case 7: if constexpr (ma) { Src b(v); ok = run([&] { o = b; }); break; } return;
        case 8: if constexpr (srcAssign) { sm::Optional<Src> x; r.has = c.coin(); if (r.has) x.emplace(v); ok = run([&] { O & y = (o = static_cast<sm::Optional<Src> const &>(x)); CHECK(std::addressof(y) == &o); }); CHECK_EQ(x.hasValue(), r.has); if (r.has) CHECK_EQ(x->v, v); c.label("assignment from another optional"); break; } return;
        case 9: if constexpr (srcAssign) { sm::Optional<Src> x; r.has = c.coin(); if (r.has) x.emplace(v); ok = run([&] { o = std::move(x); }); CHECK_EQ(x.hasValue(), r.has); break; } return;
        }
        if (ok) { note(); m[k] = r; } else if (how <= 4 || how >= 8) m[k] = old; else m[k] = old; // each step throws before it changes anything
    }
    void emplace(int k, int v) {
        O & o = s[k].o(); bool const il = hasIl<B> && c.coin(); c.trace("emplace %d in optional %d%s", v, k, il ? " with a list" : ""); bool ok;
        if constexpr (hasIl<B>) { if (il) { ok = run([&] { T & x = o.emplace({1, 2}, v - 3); CHECK(std::addressof(x) == std::addressof(*o)); }); m[k] = {ok, v}; return; } }
        ok = run([&] { T & x = o.emplace(v); CHECK(std::addressof(x) == std::addressof(*o)); }); m[k] = {ok, v};
    }
    void doSwap(int k) { if constexpr (sw) {
        int j = (int)c.draw(N - 2); if (j >= k) ++j; O & a = s[k].o(), & b = s[j].o(); int const how = (int)c.draw(2); long const before = swaps; c.trace("swap optionals %d and %d, way %d", k, j, how); int const both = m[k].has + m[j].has;
        bool const ok = run([&] { if (how == 0) a.swap(b); else if (how == 1) swap(a, b); else { using std::swap; swap(a, b); } });
        if (ok) { std::swap(m[k], m[j]); ++swapsOf[both]; if (IsVal<T>::value && both == 2) CHECKM(swaps == before + adl(std::integral_constant<bool, IsVal<T>::value>()), "the swap of the value type was not used"); }
        else if (both == 2 && !adl(std::integral_constant<bool, IsVal<T>::value>())) { m[k].v = a->v; m[j].v = b->v; }
    } }
    static int adl(std::true_type) { return bool(IsVal<T>::flags & ADL); } static int adl(std::false_type) { return 0; }
    void observe(int k, int v) {
        O & o = s[k].o(); O const & q = o; Mod const e = m[k]; int const how = (int)c.draw(5); int got = 0; bool ok = true, movedOut = false; c.trace("value of optional %d or %d, way %d", k, v, how);
        switch (how) {
        case 0: if constexpr (cc) { B const d(v); ok = run([&] { got = q.valueOr(d).v; }); break; } return;
        case 1: if constexpr (cc) { ok = run([&] { got = q.valueOr(Src(v)).v; }); break; } return;
        case 2: if constexpr (cc) { ok = run([&] { got = q.valueOrConstruct(v).v; }); break; } return;
        case 3: if constexpr (mc) { movedOut = true; ok = run([&] { got = std::move(o).valueOrConstruct(v).v; }); break; } return;
        case 4: if constexpr (mc) { movedOut = true; B d(v); ok = run([&] { got = std::move(o).valueOr(std::move(d)).v; }); break; } return;
        default: if constexpr (cc) { B const d(v); ok = run([&] { got = o.valueOr(d).v; }); break; } return;
        }
        if (movedOut && e.has && ok && !std::is_const<T>::value) m[k].v = B::movedFrom(e.v);
        // A value may be moved out before a later move throws.
        if (!ok && movedOut && e.has) m[k].v = o->v;
        if (ok) CHECKM(got == (e.has ? e.v : v), "got %d, expected %d", got, e.has ? e.v : v);
    }
    static int ord(Mod const & a, Mod const & b) { return !a.has || !b.has ? (int)a.has - (int)b.has : a.v < b.v ? -1 : a.v > b.v; }
    template <typename A, typename X> void six(A const & a, X const & b, int const o) { bool r[6]; for (bool & x : r) x = false; if (!run([&] { r[0] = a == b; r[1] = a != b; r[2] = a < b; r[3] = a <= b; r[4] = a > b; r[5] = a >= b; })) return; CHECK_EQ(r[0], o == 0); CHECK_EQ(r[1], o != 0); CHECK_EQ(r[2], o < 0); CHECK_EQ(r[3], o <= 0); CHECK_EQ(r[4], o > 0); CHECK_EQ(r[5], o >= 0); }
    void compare(int k, int v) {
        O const & q = s[k].o(); int const j = (int)c.draw(N - 1); c.trace("compare optional %d to %d and to %d", k, j, v);
        six(q, s[j].o(), ord(m[k], m[j])); B const b(v); Src const x(v); Mod const mv{true, v};
        six(q, b, ord(m[k], mv)); six(b, q, ord(mv, m[k])); six(q, x, ord(m[k], mv)); six(x, q, ord(mv, m[k]));
        sm::Optional<Src> ox; Mod mo{c.coin(), v}; if (mo.has) ox.emplace(v); six(q, ox, ord(m[k], mo)); six(ox, q, ord(mo, m[k])); if constexpr (!std::is_const<T>::value) { sm::Optional<B> ob; if (mo.has) ob.emplace(v); six(ob, q, ord(mo, m[k])); }
    }
    void go(size_t n) {
        for (int k = 0; k < N; ++k) construct(k, (int)c.draw(3));
        verifyAll();
        for (size_t i = 0; i < n; ++i) { int const k = (int)c.draw(N - 1), v = (int)c.draw(3);
            switch (c.weighted({4, 5, 2, 1, 3, 2, 2})) { case 0: construct(k, v); break; case 1: assign(k, v); break; case 2: emplace(k, v); break; case 3: c.trace("reset optional %d", k); s[k].o().reset(); m[k].has = false; break; case 4: doSwap(k); break; case 5: observe(k, v); break; default: compare(k, v); }
            verifyAll(); }
        for (int k = 0; k < N; ++k) drop(k); CHECKM(live.empty(), "%zu values outlive their optionals", live.size());
        if (thrown) c.label("exceptions"); if (swapsOf[1]) c.label("swaps of one value"); if (swapsOf[2]) c.label("swaps of two values"); if (moves) c.label("moves");
        c.nontrivial(n >= 8 && (assigns[1] + assigns[2] + assigns[3] + moves + thrown) > 1);
    }
};
template <typename T> void go(Ctx & c, char const * name) { c.label(name); c.trace("values: %s", name); Run<T>(c).go(c.length(60, 20)); }

PBT_PROP(histories, 250000, 4000000, "at least eight operations including two of assignments between filled and empty optionals, moves and exceptions") {
    switch (c.draw(15)) {
    case 0: go<Val<CC | CA | MC | MA>>(c, "copyable"); break;
    case 1: go<Val<CC | CA | MC | MA | NTM>>(c, "non-throwing moves"); break;
    case 2: go<Val<CC | CA | MC | MA | ADL>>(c, "own swap"); break;
    case 3: go<Val<MC | MA>>(c, "move only"); break;
    case 4: go<Val<CC | MC>>(c, "not assignable"); break;
    case 5: go<Val<CC | MC | ADL>>(c, "not assignable, own swap"); break;
    case 6: go<Val<MC>>(c, "move constructible only"); break;
    case 7: go<Val<0>>(c, "immovable"); break;
    case 8: go<CopyOnly>(c, "no moves"); break;
    case 9: go<TrivDtor>(c, "trivially destructible"); break;
    case 10: go<TrivCopy>(c, "trivially copyable, not movable"); break;
    case 11: go<TrivMove>(c, "trivially movable, not copyable"); break;
    case 12: go<Plain>(c, "trivial"); break;
    case 13: go<Val<CC | CA | MC | MA> const>(c, "const"); break;
    case 14: go<Odd>(c, "over-aligned, own operators new and &"); break;
    default: go<Plain const>(c, "const trivial"); break;
    }
}

// Built-in value types, where converting constructors compete.
template <typename T> void scalar(Ctx & c, T a, T b, bool h) {
    using O = sm::Optional<T>; O const full(a), braces{a}, in(sm::inPlace, a), made = sm::makeOptional(a), none, null(sm::nullOption); O const conv = a;
    for (O const * p : {&full, &braces, &in, &made, &conv}) { CHECK(p->hasValue()); CHECKM(**p == a, "the optional holds another value than it was made of"); }
    CHECK(!none && !null); O x(h ? full : none); CHECK_EQ((bool)x, h); CHECK(x == (h ? full : none)); x = b; CHECK(x && *x == b); CHECK(x == b && !(x != b)); O y(std::move(x)); CHECK(y && *y == b); CHECK(y.valueOr(a) == b && none.valueOr(a) == a && O().valueOr(b) == b); CHECK(none.valueOrConstruct(b) == b && none.valueOrConstruct() == T());
    CHECK(*O(a) == a); CHECK_EQ(full < b, a < b); CHECK_EQ(b >= full, b >= a); CHECK_EQ(full == O(b), a == b); y.reset(); O z(b); using std::swap; swap(z, y); CHECK(!z && *y == b); c.nontrivial(!(a == b));
}
PBT_PROP(scalars, 20000, 200000, "different values") {
    uint64_t const x = c.bits(64), y = c.coin() ? c.bits(64) : x; bool const h = c.coin(); int const t = (int)c.draw(6); c.trace("values %llu and %llu, kind %d, %d", (unsigned long long)x, (unsigned long long)y, t, h);
    switch (t) {
    case 0: scalar<bool>(c, x & 1, y & 1, h); break; case 1: scalar<int>(c, (int)x, (int)y, h); break; case 2: scalar<double>(c, (double)x, (double)y, h); break; case 3: scalar<std::string>(c, std::to_string(x), std::to_string(y), h); break; case 4: scalar<unsigned char>(c, (unsigned char)x, (unsigned char)y, h); break;
    case 5: { int a = 0, b = 0; scalar<int *>(c, x & 1 ? &a : nullptr, y & 1 ? &a : nullptr, h); (void)b; break; }
    default: { // widening and narrowing conversions between optionals
        sm::Optional<int> i; sm::Optional<long long> const l(h ? sm::Optional<long long>((long long)(int)x) : sm::Optional<long long>()); sm::Optional<int> const j(l); CHECK_EQ(j.hasValue(), h); if (h) CHECK_EQ(*j, (int)x); i = (int)y; i = l; CHECK_EQ(i.hasValue(), h); if (h) CHECK_EQ(*i, (int)x); i = sm::Optional<short>(); CHECK(!i); CHECK(i == sm::nullOption); CHECK_EQ(l == j, true); CHECK_EQ(l < j || l > j, false); sm::Optional<bool> const e(true), f(false); CHECK(e && *e); CHECK(f && !*f); CHECK(f < e); c.nontrivial(h); }
    }
}
// Which constructor may throw does not decide whether an exception gets out of the other one.
template <bool NA, bool NL> struct Some { int v; Some(int x) noexcept(NA) : v(x) { hit(x); } Some(std::initializer_list<int> l, int x) noexcept(NL) : v(x + (int)l.size()) { hit(x); } void hit(int x) { if (x < 0) throw x; } };
template <bool NA, bool NL> void emplaceNoexcept(Ctx & c) {
    using O = sm::Optional<Some<NA, NL>>; O o; if (c.coin()) o.emplace(1); bool list = c.coin(), fail = c.coin(); if (list ? NL : NA) fail = false; int const v = 1 + (int)c.draw(9); bool threw = false;
    CHECK(NA || !noexcept(o.emplace(1))); CHECK((NL || !noexcept(o.emplace(std::declval<std::initializer_list<int> &>(), 1))));
    try { if (list) o.emplace({1, 2}, fail ? -v : v); else o.emplace(fail ? -v : v); } catch (int e) { threw = true; CHECK_EQ(e, -v); }
    CHECK_EQ(threw, fail); CHECK_EQ(o.hasValue(), !fail); if (!fail) CHECK_EQ(o->v, v + (list ? 2 : 0)); c.trace("noexcept %d %d, list %d, throws %d", NA, NL, list, fail); c.nontrivial(fail);
    threw = false; try { if (list) O const p(sm::inPlace, std::initializer_list<int>{1, 2}, fail ? -v : v); else O const p(sm::inPlace, fail ? -v : v); } catch (int) { threw = true; } CHECK_EQ(threw, fail);
    threw = false; try { if (list) (void)sm::makeOptional<Some<NA, NL>>({1, 2}, fail ? -v : v); else (void)sm::makeOptional<Some<NA, NL>>(fail ? -v : v); } catch (int) { threw = true; } CHECK_EQ(threw, fail);
}
PBT_PROP(emplace_throws, 2000, 20000, "the constructor throws") { switch (c.draw(3)) { case 0: emplaceNoexcept<false, false>(c); break; case 1: emplaceNoexcept<true, false>(c); break; case 2: emplaceNoexcept<false, true>(c); break; default: emplaceNoexcept<true, true>(c); } }
// Every operator compares with the operator of the values, also where the order is partial.
PBT_PROP(partial, 4000, 40000, "the values are not ordered") {
    double const nan = std::numeric_limits<double>::quiet_NaN(), vals[] = {nan, 0.0, -0.0, 1.0, std::numeric_limits<double>::infinity()}; int const i = (int)c.draw(5), j = (int)c.draw(5); c.trace("values %d and %d", i, j);
    sm::Optional<double> const a(i < 5 ? sm::Optional<double>(vals[i]) : sm::Optional<double>()), b(j < 5 ? sm::Optional<double>(vals[j]) : sm::Optional<double>()); sm::Optional<float> const f(j < 5 ? sm::Optional<float>((float)vals[j]) : sm::Optional<float>());
#define P(OP, NN, NV, VN) do { bool const w = i < 5 && j < 5 ? vals[i] OP vals[j] : i < 5 ? VN : j < 5 ? NV : NN; CHECK_EQ((a OP b), w); CHECK_EQ((a OP f), w); if (j < 5) CHECK_EQ((a OP vals[j]), w); if (i < 5) CHECK_EQ((vals[i] OP b), w); } while (0)
    P(==, true, false, false); P(!=, false, true, true); P(<, false, true, false); P(<=, true, true, false); P(>, false, false, true); P(>=, true, false, true);
#undef P
    c.nontrivial(i == 0 || j == 0);
}
// Values which can only be moved, converted from one optional to another.
struct Lower { int v; virtual ~Lower() {} explicit Lower(int x) : v(x) {} }; struct Higher : Lower { using Lower::Lower; };
PBT_PROP(moved_across, 2000, 20000, "a value is moved") {
    bool const from = c.coin(), to = c.coin(), shared = c.coin(); int const how = (int)c.draw(1); c.trace("%d to %d, %d, %d", from, to, shared, how);
    if (shared) {
        std::shared_ptr<Higher> const keep(new Higher(3)); sm::Optional<std::shared_ptr<Higher>> s; if (from) s.emplace(keep); sm::Optional<std::shared_ptr<Lower>> d; if (to) d.emplace(new Lower(4)); if (how) d = std::move(s); else { sm::Optional<std::shared_ptr<Lower>> e(std::move(s)); d = std::move(e); CHECK_EQ((bool)e, from); if (from) CHECK(!*e); }
        CHECK_EQ((bool)d, from); CHECK_EQ((bool)s, from); if (from) { CHECK(d->get() == keep.get()); CHECKM(!*s, "the value was copied"); CHECK_EQ(keep.use_count(), 2); }
    } else {
        sm::Optional<std::unique_ptr<Higher>> s; if (from) s.emplace(new Higher(3)); sm::Optional<std::unique_ptr<Lower>> d; if (to) d.emplace(new Lower(4)); if (how) d = std::move(s); else { sm::Optional<std::unique_ptr<Lower>> e(std::move(s)); d = std::move(e); }
        CHECK_EQ((bool)d, from); CHECK_EQ((bool)s, from); if (from) { CHECK_EQ((*d)->v, 3); CHECK(!*s); }
    }
    c.nontrivial(from);
}
PBT_PROP(makers, 2000, 20000, "all") {
    size_t const n = c.draw(5); char const ch = (char)('a' + c.draw(25)); auto const s = sm::makeOptional<std::string>(n, ch); CHECK(s && *s == std::string(n, ch)); auto const l = sm::makeOptional<std::vector<int>>({1, (int)n}); CHECK(l && *l == (std::vector<int>{1, (int)n})); auto m = sm::makeOptional<std::unique_ptr<int>>(new int((int)n)); CHECK_EQ(**m, (int)n); auto p = std::move(m).valueOr(nullptr); CHECK_EQ(*p, (int)n); CHECK(m && !*m); int arr[3] = {1, 2, 3}; auto const a = sm::makeOptional(arr); static_assert(std::is_same<decltype(a), sm::Optional<int *> const>::value, ""); CHECK(*a == arr); sm::Optional<std::string> q("abc"); q.emplace({'x', ch}); CHECK(*q == (std::string{'x', ch})); q.emplace(n, ch); CHECK_EQ(q->size(), n);
    sm::Optional<sm::Optional<int>> const oo(sm::inPlace, sm::Optional<int>()), o1(sm::inPlace, sm::Optional<int>((int)n)), o0; CHECK(oo.hasValue() && !oo->hasValue() && !o0.hasValue() && **o1 == (int)n); c.nontrivial(true); c.trace("%zu %c", n, ch);
    // What may be converted implicitly and what may throw.
    using OC = sm::Optional<Val<CC | CA | MC | MA>>; using ON = sm::Optional<Val<MC | MA | NTM>>;
    CHECK((std::is_convertible<sm::Optional<Src>, OC>::value && !std::is_convertible<sm::Optional<Exp>, OC>::value && std::is_constructible<OC, sm::Optional<Exp>>::value && std::is_convertible<Src, OC>::value && !std::is_convertible<int, OC>::value && std::is_constructible<OC, int>::value));
    CHECK((!std::is_constructible<OC, std::string>::value && !std::is_constructible<OC, sm::Optional<std::string>>::value && !std::is_assignable<OC &, sm::Optional<std::string>>::value));
    CHECK((!std::is_nothrow_move_constructible<OC>::value && std::is_nothrow_move_constructible<ON>::value && !std::is_copy_constructible<ON>::value && !std::is_copy_assignable<ON>::value && std::is_nothrow_move_assignable<ON>::value));
    CHECK((!std::is_convertible<sm::Optional<int>, bool>::value && std::is_nothrow_constructible<OC, sm::NullOption>::value));
    constexpr sm::Optional<int> k(7), kn; static_assert(k.hasValue() && *k == 7 && !kn && kn.valueOr(3) == 3 && k.valueOr(3) == 7 && k == 7 && kn < k && kn == sm::nullOption, "");
}
} // namespace
