// C16: integer helpers against 128-bit arithmetic.
#include <sharemind/IntegralComparisons.h>
#include <sharemind/IsPowerOfTwo.h>
#include <sharemind/Max.h>
#include <sharemind/Min.h>
#include <sharemind/SignedToUnsigned.h>
#include <sharemind/ToSigned.h>
#include <sharemind/ToUnsigned.h>
#include <algorithm>
#include <limits>
#include <tuple>
#include "pbt.h"

namespace {
namespace sm = sharemind;
__extension__ typedef __int128 I;
template <typename T> I wide(T v) { return (I)v; }
template <typename T> T gen(pbt::Ctx & c) {
    using L = std::numeric_limits<T>; if (std::is_same<T, bool>::value) return (T)c.coin();
    switch (c.draw(4)) { case 0: return (T)(wide(L::max()) - (I)c.draw(2)); case 1: return (T)(wide(L::min()) + (I)c.draw(2)); case 2: return (T)((I)c.draw(4) - (std::is_signed<T>::value ? 2 : 0)); case 3: return (T)c.bits(sizeof(T) * 8); default: return (T)c.bits(1 + (unsigned)c.draw(sizeof(T) * 8 - 1)); }
}
// A value of B that may be related to the value a of another type:
template <typename B, typename A> B genNear(pbt::Ctx & c, A a) { if (std::is_same<B, bool>::value || c.coin()) return gen<B>(c); return (B)((uint64_t)a + c.draw(2) - 1); }
struct Stats { bool mixed = false, high = false; };
template <typename A, typename B> void pair(pbt::Ctx & c) {
    A const a = gen<A>(c); B const b = genNear<B>(c, a); I const x = wide(a), y = wide(b);
    c.trace("%s%llu (%zu bytes %s), %s%llu (%zu bytes %s)", x < 0 ? "-" : "", (unsigned long long)(x < 0 ? -x : x), sizeof(A), std::is_signed<A>::value ? "signed" : "unsigned", y < 0 ? "-" : "", (unsigned long long)(y < 0 ? -y : y), sizeof(B), std::is_signed<B>::value ? "signed" : "unsigned");
    CHECK_EQ(sm::integralLess(a, b), x < y); CHECK_EQ(sm::integralLessThan(a, b), x < y); CHECK_EQ(sm::integralLessEqual(a, b), x <= y); CHECK_EQ(sm::integralEqual(a, b), x == y); CHECK_EQ(sm::integralNotEqual(a, b), x != y); CHECK_EQ(sm::integralGreaterEqual(a, b), x >= y); CHECK_EQ(sm::integralGreater(a, b), x > y); CHECK_EQ(sm::integralGreaterThan(a, b), x > y);
    CHECK_EQ(sm::integralLess(b, a), y < x); CHECK_EQ(sm::integralGreaterEqual(b, a), y >= x);
    if (std::is_signed<A>::value != std::is_signed<B>::value) c.label("mixed signedness"); if (x < 0 || y < 0) c.label("negative"); if (x == y) c.label("equal"); if (sizeof(A) != sizeof(B)) c.label("mixed width");
    if (x < 0 || y < 0 || x > std::numeric_limits<int>::max() || y > std::numeric_limits<int>::max()) c.nontrivial();
}
template <typename T, bool = std::is_same<T, bool>::value> struct Sign { static void check(T) {} };
template <typename T> struct Sign<T, false> {
    using U = typename std::make_unsigned<T>::type; using S = typename std::make_signed<T>::type;
    static void s2u(T v, std::true_type) { I const m = (I)1 << (8 * sizeof(T)); U const u = sm::signedToUnsigned(v); CHECK(wide(u) == ((wide(v) % m) + m) % m); }
    static void s2u(T, std::false_type) {}
    static void check(T v) {
        I const m = (I)1 << (8 * sizeof(T)), r = ((wide(v) % m) + m) % m; // v modulo 2^bits
        auto const u = sm::toUnsigned(v); auto const s = sm::toSigned(v); static_assert(sizeof(u) == sizeof(T) && sizeof(s) == sizeof(T) && std::is_unsigned<typename std::decay<decltype(u)>::type>::value && std::is_signed<typename std::decay<decltype(s)>::type>::value, "");
        CHECK(wide(u) == r); CHECK(wide(s) == (r >= m / 2 ? r - m : r)); CHECK(sm::toSigned(u) == (S)s); s2u(v, std::is_signed<T>());
        T w(v); CHECK(wide(sm::toUnsigned(w)) == r); CHECK(wide(sm::toSigned(w)) == (r >= m / 2 ? r - m : r));
    }
};
template <typename T> void single(pbt::Ctx & c) {
    T v = gen<T>(c); if (c.chance(1, 4)) v = (T)((uint64_t)1 << c.draw(8 * sizeof(T) - 1)); I const x = wide(v); c.trace("%s%llu", x < 0 ? "-" : "", (unsigned long long)(x < 0 ? -x : x));
    CHECK_EQ(sm::integralPositive(v), x > 0); CHECK_EQ(sm::integralNegative(v), x < 0); CHECK_EQ(sm::integralNonNegative(v), x >= 0); CHECK_EQ(sm::integralNonPositive(v), x <= 0); CHECK_EQ(sm::integralZero(v), x == 0); CHECK_EQ(sm::integralNonZero(v), x != 0);
    bool p2 = false; for (int i = 0; i < 64; ++i) p2 |= x == (I)1 << i; CHECK_EQ(sm::isPowerOfTwo(v), p2); if (p2) c.label("power of two");
    Sign<T>::check(v);
    T const w = c.coin() ? gen<T>(c) : v, z = gen<T>(c); T const q = gen<T>(c), r = gen<T>(c); I const y = wide(w), u = wide(z);
    CHECK(wide(sm::min(v, w)) == (x < y ? x : y)); CHECK(wide(sm::max(v, w)) == (x > y ? x : y)); CHECK(wide(sm::min(v)) == x); CHECK(wide(sm::max(v)) == x);
    CHECK(wide(sm::min(v, w, z)) == std::min(x, std::min(y, u))); CHECK(wide(sm::max(v, w, z)) == std::max(x, std::max(y, u)));
    CHECK(wide(sm::min(v, w, z, q, r)) == std::min({x, y, u, wide(q), wide(r)})); CHECK(wide(sm::max(v, w, z, q, r)) == std::max({x, y, u, wide(q), wide(r)})); CHECK(wide(sm::max(T(v), w, T(z), q)) == std::max({x, y, u, wide(q)})); CHECK(wide(sm::min(T(v), w, T(z), q)) == std::min({x, y, u, wide(q)}));
    if (x < 0 || x > 127) c.nontrivial();
}
using Types = std::tuple<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t, bool>;
constexpr size_t N = std::tuple_size<Types>::value;
template <size_t ... Is> void dispatchPair(pbt::Ctx & c, std::index_sequence<Is...>) { static void (* const fs[])(pbt::Ctx &) = {pair<typename std::tuple_element<Is / N, Types>::type, typename std::tuple_element<Is % N, Types>::type>...}; fs[c.draw(sizeof...(Is) - 1)](c); }
template <size_t ... Is> void dispatchSingle(pbt::Ctx & c, std::index_sequence<Is...>) { static void (* const fs[])(pbt::Ctx &) = {single<typename std::tuple_element<Is, Types>::type>...}; fs[c.draw(sizeof...(Is) - 1)](c); }
static_assert(sm::integralLess(-1, 1u) && !sm::integralLess(1u, -1) && sm::isPowerOfTwo(8) && sm::min(3, 2, 5) == 2 && sm::max(3, 2, 5) == 5 && sm::toUnsigned(-1) == ~0u && sm::toSigned(~0u) == -1, "usable in constant expressions");
// All pairs of 8-bit values:
template <typename A, typename B> void exhaustive() {
    for (int i = std::numeric_limits<A>::min(); i <= std::numeric_limits<A>::max(); ++i) for (int j = std::numeric_limits<B>::min(); j <= std::numeric_limits<B>::max(); ++j) { A const a = (A)i; B const b = (B)j;
        if (sm::integralLess(a, b) != (i < j) || sm::integralLessEqual(a, b) != (i <= j) || sm::integralEqual(a, b) != (i == j) || sm::integralNotEqual(a, b) != (i != j) || sm::integralGreaterEqual(a, b) != (i >= j) || sm::integralGreater(a, b) != (i > j)) pbt::fail("comparison of %d and %d", i, j);
        if (std::is_same<A, B>::value && (sm::min(a, (A)b) != std::min(i, j) || sm::max(a, (A)b) != std::max(i, j))) pbt::fail("minimum or maximum of %d and %d", i, j); }
}
}
PBT_PROP(pairs, 600000, 20000000, "a negative operand or one beyond int") { dispatchPair(c, std::make_index_sequence<N * N>()); }
PBT_PROP(singles, 400000, 10000000, "negative or above 127") { dispatchSingle(c, std::make_index_sequence<N>()); }
PBT_PROP(exhaustive, 1, 1, "every case") { exhaustive<signed char, signed char>(); exhaustive<signed char, unsigned char>(); exhaustive<unsigned char, signed char>(); exhaustive<unsigned char, unsigned char>(); exhaustive<char, unsigned char>(); c.nontrivial(); }
