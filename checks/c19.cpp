// C19: strong types against their underlying values, flag sets against bits.
#include <sharemind/AtomicFlags.h>
#include <sharemind/EnumToUnderlying.h>
#include <sharemind/Flags.h>
#include <sharemind/MaybeEnumToUnderlying.h>
#include <sharemind/StrongType.h>
#include <cmath>
#include <sstream>
#include <unordered_set>
#include "pbt.h"

namespace {
namespace sm = sharemind;
struct Tag {}; struct Tag2 {}; struct Tag3 {};
template <typename T> using Rhs = sm::StrongType<T, Tag2>;
template <typename T, typename ... Ms> using Arith = sm::StrongType<T, Tag, sm::StrongTypeHashable, sm::StrongTypeFullyComparable, sm::StrongTypeAddAssignable, sm::StrongTypeSubAssignable, sm::StrongTypeMulAssignable, sm::StrongTypeDivAssignable, sm::StrongTypeIncrementable, sm::StrongTypeDecrementable, sm::StrongTypeStreamable, sm::StrongTypeStreamableTo<std::wostream>, sm::StrongTypeSwappable, Ms...>;
template <typename T> using Int = Arith<T, sm::StrongTypeModAssignable, sm::StrongTypeXorAssignable, sm::StrongTypeAndAssignable, sm::StrongTypeOrAssignable, sm::StrongTypeAddAssignableWith<short>, sm::StrongTypeSubAssignableWith<short>, sm::StrongTypeMulAssignableWith<Rhs<short>>, sm::StrongTypeDivAssignableWith<Rhs<short>>, sm::StrongTypeModAssignableWith<short>, sm::StrongTypeXorAssignableWith<Rhs<short>>, sm::StrongTypeAndAssignableWith<short>, sm::StrongTypeOrAssignableWith<Rhs<short>>>;

template <typename T> T gen(pbt::Ctx & c, std::true_type) { return (T)c.range<int64_t>(std::is_signed<T>::value ? -100 : 0, 100) / (T)8; }
template <typename T> T gen(pbt::Ctx & c, std::false_type) { if (std::is_same<T, bool>::value) return (T)c.coin(); if (std::is_unsigned<T>::value && c.coin()) return (T)c.bits(8 * sizeof(T)); return (T)c.range<int64_t>(std::is_signed<T>::value ? -100 : 0, 100); }
template <typename T> T gen(pbt::Ctx & c) { return gen<T>(c, std::is_floating_point<T>()); }
template <typename S> typename S::ValueType val(S const & s) { return s.get(); }

template <typename S, typename T> void comparisons(S const & a, S const & b, T x, T y) { CHECK_EQ(a == b, x == y); CHECK_EQ(a != b, x != y); CHECK_EQ(a < b, x < y); CHECK_EQ(a <= b, x <= y); CHECK_EQ(a > b, x > y); CHECK_EQ(a >= b, x >= y); CHECK_EQ(a.hash(), std::hash<T>()(x)); CHECK_EQ(std::hash<S>()(b), std::hash<T>()(y)); }
#define ASSIGN(op, guard) { if (!(guard)) break; S & r = (a[i] op a[j]); CHECK(&r == &a[i]); m[i] op m[j]; break; }
template <typename S, typename T> bool arithOp(pbt::Ctx & c, S (&a)[3], T (&m)[3], unsigned op, size_t i, size_t j) {
    bool const wide = std::is_unsigned<T>::value || sizeof(T) < sizeof(int) || (std::abs((double)m[i]) < 10000 && std::abs((double)m[j]) < 10000); // no signed overflow
    switch (op) {
    case 0: ASSIGN(+=, wide) case 1: ASSIGN(-=, wide) case 2: ASSIGN(*=, (wide && !(sizeof(T) == 2 && m[i] > 30000))) case 3: ASSIGN(/=, m[j] != T(0))
    case 4: if (wide) { S & r = ++a[i]; CHECK(&r == &a[i]); ++m[i]; } break;
    case 5: if (wide) { S & r = --a[i]; CHECK(&r == &a[i]); --m[i]; } break;
    case 6: if (wide) { S const r = a[i]++; CHECK(val(r) == m[i]); m[i]++; } break;
    case 7: if (wide) { S const r = a[i]--; CHECK(val(r) == m[i]); m[i]--; } break;
    case 8: { swap(a[i], a[j]); static_assert(noexcept(swap(a[i], a[j])), ""); std::swap(m[i], m[j]); break; }
    case 9: a[i] = a[j]; m[i] = m[j]; break;
    case 10: { T const v = gen<T>(c); a[i].get() = v; m[i] = v; break; }
    case 11: { T const v = gen<T>(c); a[i] = S(v); m[i] = v; break; }
    case 12: { std::ostringstream p, q; std::ostream & r = (p << a[i]); CHECK(&r == &p); q << m[i]; CHECK(p.str() == q.str()); std::wostringstream wp, wq; wp << a[j]; wq << m[j]; CHECK(wp.str() == wq.str()); break; }
    default: return false;
    }
    return true;
}
template <typename S, typename T> void intOp(pbt::Ctx & c, S (&a)[3], T (&m)[3], unsigned op, size_t i, size_t j) {
    short const s = (short)c.range<int>(-50, 50); Rhs<short> const r(s);
    bool const wide = std::is_unsigned<T>::value || sizeof(T) < sizeof(int) || (std::abs((double)m[i]) < 10000 && std::abs((double)m[j]) < 10000);
    switch (op) {
    case 13: ASSIGN(%=, m[j] != T(0)) case 14: ASSIGN(^=, true) case 15: ASSIGN(&=, true) case 16: ASSIGN(|=, true)
    case 17: if (wide) { S & q = (a[i] += s); CHECK(&q == &a[i]); m[i] += s; } break;
    case 18: if (wide) { S & q = (a[i] -= s); CHECK(&q == &a[i]); m[i] -= s; } break;
    case 19: if (wide) { S & q = (a[i] *= r); CHECK(&q == &a[i]); m[i] *= s; } break;
    case 20: if (s) { S & q = (a[i] /= r); CHECK(&q == &a[i]); m[i] /= s; } break;
    case 21: if (s) { S & q = (a[i] %= s); CHECK(&q == &a[i]); m[i] %= s; } break;
    case 22: { S & q = (a[i] ^= r); CHECK(&q == &a[i]); m[i] ^= s; break; }
    case 23: { S & q = (a[i] &= s); CHECK(&q == &a[i]); m[i] &= s; break; }
    default: { S & q = (a[i] |= r); CHECK(&q == &a[i]); m[i] |= s; } }
    CHECK(val(r) == s);
}
template <template <typename> class St, typename T, bool integral> void arith(pbt::Ctx & c);
template <typename S, typename T, typename F> void history(pbt::Ctx & c, unsigned nops, F && f) {
    T m[3] = {gen<T>(c), gen<T>(c), gen<T>(c)}; T const v0 = m[0]; T v1 = m[1]; S a[3] = {S(v0), S(std::move(v1)), S(m[2])}; size_t n = 0, changes = 0;
    while (c.more(n, 12, 60)) { ++n; size_t const i = c.draw(2), j = c.draw(2); unsigned const op = (unsigned)c.draw(nops); c.trace("op %u (%zu, %zu)", op, i, j); T const before = m[i]; f(a, m, op, i, j); changes += !(before == m[i]); for (size_t k = 0; k < 3; ++k) if (!(val(a[k]) == m[k])) pbt::fail("value %zu differs after operation %u: got %g, expected %g", k, op, (double)val(a[k]), (double)m[k]); comparisons(a[i], a[j], m[i], m[j]); S const copy(a[i]); CHECK(copy == a[i]); }
    if (n >= 3 && changes >= 2) c.nontrivial();
}
template <typename T> void ints(pbt::Ctx & c) { using S = Int<T>; static_assert(sizeof(S) == sizeof(T) && !std::is_convertible<T, S>::value && !std::is_convertible<S, T>::value && !std::is_convertible<S, Rhs<T>>::value, "strong"); history<S, T>(c, 24, [&](S (&a)[3], T (&m)[3], unsigned op, size_t i, size_t j) { if (!arithOp(c, a, m, op, i, j)) intOp(c, a, m, op, i, j); }); }
template <typename T> void floats(pbt::Ctx & c) { using S = Arith<T>; history<S, T>(c, 12, [&](S (&a)[3], T (&m)[3], unsigned op, size_t i, size_t j) { T x[3] = {m[0], m[1], m[2]}; arithOp(c, a, m, op, i, j); if (m[i] != m[i] || std::abs((double)m[i]) > 1e30) { m[i] = x[i]; a[i].get() = x[i]; } }); }
void pointers(pbt::Ctx & c) {
    static int arr[64]; using S = sm::StrongType<int *, Tag3, sm::StrongTypeHashable, sm::StrongTypeFullyComparable, sm::StrongTypeAddAssignableWith<ptrdiff_t>, sm::StrongTypeSubAssignableWith<ptrdiff_t>, sm::StrongTypeIncrementable, sm::StrongTypeDecrementable, sm::StrongTypeSwappable>;
    int * m[2] = {arr + c.draw(63), arr + c.draw(63)}; S a[2] = {S(m[0]), S(m[1])}; size_t n = 0;
    while (c.more(n, 10, 40)) { ++n; size_t const i = c.draw(1); unsigned const op = (unsigned)c.draw(6); ptrdiff_t const d = c.range<ptrdiff_t>(arr - m[i], arr + 64 - m[i]); switch (op) { case 0: { S & r = (a[i] += d); CHECK(&r == &a[i]); m[i] += d; break; } case 1: { S & r = (a[i] -= -d); CHECK(&r == &a[i]); m[i] += d; break; } case 2: if (m[i] < arr + 64) { ++a[i]; ++m[i]; } break; case 3: if (m[i] > arr) { --a[i]; --m[i]; } break; case 4: if (m[i] < arr + 64) { CHECK(val(a[i]++) == m[i]++); } break; case 5: if (m[i] > arr) { CHECK(val(a[i]--) == m[i]--); } break; default: swap(a[0], a[1]); std::swap(m[0], m[1]); } CHECK(val(a[0]) == m[0]); CHECK(val(a[1]) == m[1]); comparisons(a[0], a[1], m[0], m[1]); }
    if (n >= 3) c.nontrivial();
}
static_assert(sm::IsStrongType<Int<int>>::value && !sm::IsStrongType<int>::value && sm::IsStrongTypeOf<Int<int>, int>::value && !sm::IsStrongTypeOf<Int<int>, long>::value && !sm::IsStrongTypeOf<int, int>::value, "");
constexpr sm::StrongType<int, Tag, sm::StrongTypeFullyComparable> k4(4), k5(5);
static_assert(k4 == k4 && k4 != k5 && k4 < k5 && k4 <= k5 && k5 > k4 && k5 >= k4 && k4.get() == 4, "constant expressions");
struct SortOnly {}; using Sortable = sm::StrongType<int, SortOnly, sm::StrongTypeSortComparable>;

enum E8 : uint8_t { A8 = 1, B8 = 0x80, C8 = 0x7e }; enum E16 : int16_t { A16 = 1, B16 = -2 }; enum E64 : uint64_t { A64 = 1, B64 = 1ull << 63 };
enum class Scoped : signed char { X = -3, Y = 7 };
template <typename E, typename U> void flags(pbt::Ctx & c) {
    using F = sm::Flags<E>; using AF = sm::AtomicFlags<E>; U m = (U)c.bits(8 * sizeof(U)); F f(m); U am = (U)c.bits(8 * sizeof(U)); AF a(am); F of; of = (U)0; U om = 0; size_t n = 0; static_assert(sizeof(F) == sizeof(U), "");
    auto const self = [&](F & r) { CHECK(&r == &f); };
    while (c.more(n, 12, 60)) {
        ++n; U const x = c.chance(1, 4) ? (U)((U)1 << c.draw(8 * sizeof(U) - 1)) : c.chance(1, 6) ? m : c.chance(1, 6) ? am : (U)c.bits(8 * sizeof(U)); unsigned const op = (unsigned)c.draw(29); c.trace("op %u with %llx", op, (unsigned long long)x);
        auto const eq = [](F const & r, U want) { CHECK((U)r == want); };
        switch (op) {
        case 0: self(f = x); m = x; break; case 1: self(f &= x); m = (U)(m & x); break; case 2: self(f |= x); m = (U)(m | x); break; case 3: self(f ^= x); m = (U)(m ^ x); break;
        case 4: eq(f & x, (U)(m & x)); eq(f | x, (U)(m | x)); eq(f ^ x, (U)(m ^ x)); break;
        case 5: self(f.store(x)); m = x; break; case 6: eq(f.exchange(x), m); m = x; break; case 7: self(f.setFlags()); m = (U)~(U)0; break; case 8: self(f.setFlags(x)); m = (U)(m | x); break; case 9: self(f.unsetFlags()); m = 0; break; case 10: self(f.unsetFlags(x)); m = (U)(m & ~x); break; case 11: self(f.toggleFlags()); m = (U)~m; break; case 12: self(f.toggleFlags(x)); m = (U)(m ^ x); break;
        case 13: of = f; om = m; break; case 14: self(f = of); m = om; break; case 15: { F g(f); g.toggleFlags(); eq(g, (U)~m); break; }
        case 16: a.store(x); am = x; break; case 17: eq(a.exchange(x), am); am = x; break; case 18: eq(a.fetchSetFlags(), am); am = (U)~(U)0; break; case 19: eq(a.fetchSetFlags(x), am); am = (U)(am | x); break; case 20: eq(a.fetchUnsetFlags(), am); am = 0; break; case 21: eq(a.fetchUnsetFlags(x), am); am = (U)(am & ~x); break; case 22: eq(a.fetchToggleFlags(x), am); am = (U)(am ^ x); break; case 23: a.setFlags(); am = (U)~(U)0; break; case 24: a.unsetFlags(); am = 0; break;
        default: { // compare and exchange
            U const e = c.coin() ? am : (U)c.bits(8 * sizeof(U)); U u = e; F g(e); bool r; bool const flags = c.coin(), order = c.coin(), weak = op >= 28; auto const s = std::memory_order_acq_rel, l = std::memory_order_acquire; U got;
            auto attempt = [&] { u = e; g = e; r = weak ? (flags ? (order ? a.compareExchangeWeak(g, x, s, l) : a.compareExchangeWeak(g, x)) : (order ? a.compareExchangeWeak(u, x, s, l) : a.compareExchangeWeak(u, x))) : (flags ? (order ? a.compareExchangeStrong(g, x, s, l) : a.compareExchangeStrong(g, x)) : (order ? a.compareExchangeStrong(u, x, s, l) : a.compareExchangeStrong(u, x))); got = flags ? (U)g : u; };
            attempt(); for (int k = 0; weak && e == am && !r && k < 1000; ++k) attempt(); CHECK_EQ(r, e == am); CHECK(got == (r ? e : am)); if (r) am = x; } }
        F const & cf = f; AF const & ca = a; U const y = (U)c.bits(8 * sizeof(U));
        CHECK(cf.load() == m); CHECK((U)cf == m); CHECK_EQ(cf.hasAnyOf(x), (m & x) != 0); CHECK_EQ(cf.hasAllOf(x), (m & x) == x); CHECK_EQ(cf.hasNoneOf(x), (m & x) == 0); CHECK(of.load() == om);
        CHECK(ca.load().load() == am); CHECK_EQ(ca.hasAnyOf(x), (am & x) != 0); CHECK_EQ(ca.hasAllOf(x), (am & x) == x); CHECK_EQ(ca.hasNoneOf(x), (am & x) == 0); CHECK_EQ(ca.has(y, x), (am & x) == y); CHECK_EQ(ca.has((U)(am & x), x), true); CHECK(cf.hasAllOf(m)); CHECK(ca.hasAllOf(am, std::memory_order_relaxed));
    }
    if (n >= 3) c.nontrivial();
}
template <typename E> void enums(E e, long long want) { E const ce = e; CHECK_EQ((long long)sm::enumToUnderlying(e), want); CHECK_EQ((long long)sm::maybeEnumToUnderlying(e), want); CHECK_EQ((long long)sm::maybeEnumToUnderlying(ce), want); CHECK_EQ((long long)sm::maybeEnumToUnderlying(E(e)), want); static_assert(std::is_same<decltype(sm::enumToUnderlying(e)), typename std::underlying_type<E>::type>::value && std::is_same<decltype(sm::maybeEnumToUnderlying(ce)), typename std::underlying_type<E>::type>::value, ""); }
}
PBT_PROP(strong, 150000, 4000000, "at least three operations and two changes") {
    static void (* const fs[])(pbt::Ctx &) = {ints<int>, ints<unsigned>, ints<signed char>, ints<unsigned char>, ints<short>, ints<unsigned short>, ints<long>, ints<unsigned long>, floats<double>, floats<float>, pointers}; fs[c.draw(10)](c);
    int const x = (int)c.draw(5), y = (int)c.draw(5); CHECK_EQ(Sortable(x) < Sortable(y), x < y);
}
PBT_PROP(flags, 100000, 3000000, "at least three operations") { static void (* const fs[])(pbt::Ctx &) = {flags<E8, uint8_t>, flags<E16, int16_t>, flags<E64, uint64_t>, flags<unsigned, unsigned>, flags<int, int>, flags<uint8_t, uint8_t>}; fs[c.draw(5)](c); }
PBT_PROP(enums, 20000, 200000, "every case") {
    uint8_t const a = (uint8_t)c.bits(8); enums((E8)a, a); int16_t const b = (int16_t)c.bits(16); enums((E16)b, b); signed char const d = (signed char)c.bits(8); enums((Scoped)d, d); uint64_t const e = c.draw(1ull << 40); enums((E64)e, (long long)e); long const i = (long)c.bits(64); CHECK_EQ(sm::maybeEnumToUnderlying(i), i); double const f = (double)a / 4; CHECK(sm::maybeEnumToUnderlying(f) == f); static_assert(std::is_same<decltype(sm::maybeEnumToUnderlying(i)), long>::value, ""); c.nontrivial(); }
