// C29, running part: pointer arithmetic over objects and void, copying, and
// assertReturn.
#include <sharemind/AssertReturn.h>
#include <sharemind/PotentiallyVoidTypeInfo.h>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "pbt.h"
namespace {
namespace sm = sharemind;
using pbt::Ctx;
struct Odd { char c[7]; bool operator==(Odd const & o) const { return !std::memcmp(c, o.c, 7); } };
template <typename T> T value(Ctx & c);
template <> unsigned char value(Ctx & c) { return (unsigned char)c.draw(255); }
template <> int value(Ctx & c) { return (int)c.bits(32); }
template <> long double value(Ctx & c) { return (long double)c.draw(1000000); }
template <> std::string value(Ctx & c) { return std::string(c.length(40, 12), (char)('a' + c.draw(25))); }
template <> Odd value(Ctx & c) { Odd o; for (char & x : o.c) x = (char)c.draw(255); return o; }

template <typename P, typename D> void walk(P * base, unsigned char const * bytes, size_t unit, size_t n, Ctx & c) {
    size_t const i = c.draw(n), j = c.draw(n);
    auto at = [&](P * p) { return (size_t)((unsigned char const volatile *)p - bytes); };
    P * const a = sm::ptrAdd(base, (D)i), * const b = sm::ptrAdd<P, D>(base, (D)j);
    c.trace("i=%zu j=%zu", i, j);
    CHECK_EQ(at(a), i * unit); CHECK_EQ(at(b), j * unit);
    CHECK_EQ((long long)sm::ptrDist(a, b), (long long)j - (long long)i);
    CHECK_EQ((long long)sm::ptrDist(b, a), (long long)i - (long long)j);
    size_t const k = c.draw(j);
    CHECK_EQ(at(sm::ptrSub(b, (D)k)), (j - k) * unit); CHECK_EQ(at(sm::ptrSub(sm::ptrAdd(a, (D)0), (D)i)), (size_t)0);
    if (std::is_signed<D>::value) { CHECK_EQ(at(sm::ptrAdd(b, (D)-(long long)k)), (j - k) * unit); CHECK_EQ(at(sm::ptrSub(a, (D)((long long)i - (long long)j))), j * unit); }
    CHECK((std::is_same<decltype(sm::ptrAdd(base, (D)0)), P *>::value && std::is_same<decltype(sm::ptrSub(base, (D)0)), P *>::value));
    if (i != j && k) c.nontrivial();
}
template <typename P, typename A> void typeInfo(size_t unit) {
    CHECK_EQ(sm::sizeOf<P>(), unit);
    CHECK((std::is_same<sm::AllocType<P>, A>::value));
}
template <typename T> void pointers(Ctx & c) {
    size_t const n = c.length(24, 8); std::unique_ptr<T[]> a(new T[n]()); auto const bytes = (unsigned char const *)a.get();
    switch (c.draw(3)) {
        case 0: walk<T, size_t>(a.get(), bytes, sizeof(T), n, c); break;
        case 1: walk<T const, int>(a.get(), bytes, sizeof(T), n, c); break;
        case 2: walk<T volatile, long long>(a.get(), bytes, sizeof(T), n, c); break;
        case 3: walk<T const volatile, unsigned char>(a.get(), bytes, sizeof(T), n, c); break;
    }
    switch (c.draw(3)) {
        case 0: walk<void, size_t>(a.get(), bytes, 1, n * sizeof(T), c); break;
        case 1: walk<void const, int>(a.get(), bytes, 1, n * sizeof(T), c); break;
        case 2: walk<void volatile, long>(a.get(), bytes, 1, n * sizeof(T), c); break;
        case 3: walk<void const volatile, long long>(a.get(), bytes, 1, n * sizeof(T), c); break;
    }
    typeInfo<T, T>(sizeof(T)); typeInfo<T const, T>(sizeof(T));
    typeInfo<void, unsigned char>(1); typeInfo<void const, unsigned char>(1);
}
PBT_PROP(pointerArithmetic, 40000, 400000, "two different positions and a non-zero step back") {
    switch (c.draw(3)) { case 0: return pointers<unsigned char>(c); case 1: return pointers<int>(c); case 2: return pointers<Odd>(c); default: return pointers<std::string>(c); }
}
template <typename T> void copies(Ctx & c) {
    size_t const n = c.length(40, 10), m = c.draw(n), from = c.draw(n - m), to = c.draw(n - m);
    std::vector<T> a, b; for (size_t i = 0; i < n; ++i) { a.push_back(value<T>(c)); b.push_back(value<T>(c)); }
    auto const a0 = a; auto e = b; for (size_t i = 0; i < m; ++i) e[to + i] = a[from + i];
    if (m) { sm::copy<T>(&a[from], &b[to], m); c.nontrivial(); } else sm::copy<T>(a.data(), b.data(), 0);
    CHECK(a == a0); CHECK(b == e);
}
PBT_PROP(copying, 20000, 200000, "some elements copied") {
    switch (c.draw(3)) { case 0: return copies<int>(c); case 1: return copies<std::string>(c); case 2: return copies<Odd>(c); default: break; }
    size_t const n = c.length(60, 20) + 1, m = c.draw(n), from = c.draw(n - m), to = c.draw(n - m);
    std::vector<unsigned char> a, b; for (size_t i = 0; i < n; ++i) { a.push_back((unsigned char)c.draw(255)); b.push_back((unsigned char)c.draw(255)); }
    auto e = b; std::copy(a.begin() + from, a.begin() + from + m, e.begin() + to); void const * s = a.data() + from; void * d = b.data() + to;
    sm::copy<void>(s, d, m); CHECK(b == e); if (m) c.nontrivial();
}
struct Val { std::unique_ptr<int> p; int moved = 0; explicit operator bool() const { return (bool)p; } };
PBT_PROP(assertReturns, 4000, 40000, "true values") {
    int const x = (int)c.range(1, 1 << 30); Val v{std::unique_ptr<int>(new int(x))}; auto const * raw = v.p.get(); Val const & cv = v;
    CHECK(&sm::assertReturn(v) == &v && &sm::assertReturn(cv) == &v && *v.p == x);
    CHECK((std::is_same<decltype(sm::assertReturn(v)), Val &>::value && std::is_same<decltype(sm::assertReturn(cv)), Val const &>::value && std::is_same<decltype(sm::assertReturn(std::move(v))), Val &&>::value));
    Val w(sm::assertReturn(std::move(v))); CHECK(w.p.get() == raw && !v.p && *w.p == x);
    int y = x; CHECK(&sm::assertReturn(y) == &y && y == x); CHECK_EQ(sm::assertReturn(x + 0), x); c.nontrivial();
}
}
