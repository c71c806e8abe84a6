// C26: aligned storage and allocator against an account of live blocks and
// against containers with the default allocator; uninitialized arrays against
// a vector of the values placed into them.
#include <cerrno>
#include <cstdlib>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <stdlib.h>
#include "newfail.h"
#include "pbt.h"
static long memalignCountdown = -1; static bool memalignFailed = false; static int const poison = 0;
static int failing_posix_memalign(void ** p, size_t a, size_t n) {
    if (memalignCountdown >= 0 && memalignCountdown-- == 0) { memalignFailed = true; return ENOMEM; }
    return posix_memalign(p, a, n);
}
#define posix_memalign failing_posix_memalign
#include <sharemind/AlignedAllocator.h>
#undef posix_memalign
#include <sharemind/UninitializedDynamicArray.h>

namespace {
namespace sm = sharemind;
#if __cplusplus >= 201703
constexpr bool overAligned = true; // new-expressions honour every alignment
#else
constexpr bool overAligned = false;
#endif

// --- raw storage ---
struct Block { unsigned char * p; size_t n; unsigned char fill; };
template <size_t A> void * alloc(size_t n, bool nothrow, bool & threw) {
    static_assert(noexcept(sm::allocateAlignedStorage<A>(n, std::nothrow)), "");
    threw = false; if (nothrow) return sm::allocateAlignedStorage<A>(n, std::nothrow);
    try { return sm::allocateAlignedStorage<A>(n); } catch (std::bad_alloc const &) { threw = true; return nullptr; }
}
using AllocFn = void * (*)(size_t, bool, bool &);
struct AL { size_t a; AllocFn f; };
AL const aligns[] = {{1, alloc<1>}, {2, alloc<2>}, {4, alloc<4>}, {8, alloc<8>}, {16, alloc<16>}, {32, alloc<32>}, {64, alloc<64>}, {128, alloc<128>}, {512, alloc<512>}, {4096, alloc<4096>}, {65536, alloc<65536>}};
void verify(std::vector<Block> const & v) { for (auto const & b : v) for (size_t i = 0; i < b.n; ++i) if (b.p[i] != b.fill) pbt::fail("byte %zu of a block of %zu bytes was overwritten", i, b.n); }
PBT_PROP(storage, 15000, 200000, "at least five blocks of three alignments live at once, and one freed meanwhile") {
    std::vector<Block> v; size_t n = 0, freed = 0; unsigned used = 0; unsigned char next = 1; size_t most = 0;
    while (c.more(n, 20, 60)) {
        ++n;
        switch (c.weighted({6, 2, 1})) {
        case 0: { size_t const ai = c.draw(10), sz = c.coin() ? c.draw(40) : c.bits(13); bool const nt = c.coin(), inject = c.chance(1, 10); bool threw; c.trace("allocate %zu bytes aligned to %zu", sz, aligns[ai].a);
                  memalignFailed = false; if (inject) memalignCountdown = 0; void * const p = aligns[ai].f(sz, nt, threw); memalignCountdown = -1;
                  if (memalignFailed) { CHECK(!p); CHECK_EQ(threw, !nt); c.label("injected failure"); break; }
                  CHECKM(p, "allocating %zu bytes aligned to %zu failed", sz, aligns[ai].a); CHECK(!threw); CHECKM((uintptr_t)p % aligns[ai].a == 0, "%p is not aligned to %zu", p, aligns[ai].a);
                  memset(p, next, sz); v.push_back({(unsigned char *)p, sz, next}); next = next == 255 ? 1 : next + 1; used |= 1u << ai; most = std::max(most, v.size()); break; }
        case 1: if (!v.empty()) { size_t const i = c.draw(v.size() - 1); c.trace("free"); verify({v[i]}); sm::freeAlignedStorage(v[i].p); v.erase(v.begin() + i); ++freed; } else sm::freeAlignedStorage(nullptr); break;
        default: { size_t const ai = c.draw(10); bool threw; bool const nt = c.coin(); size_t const sz = c.pick({SIZE_MAX, SIZE_MAX / 2, SIZE_MAX - 63, SIZE_MAX - 4096, (size_t)1 << 60}); c.trace("impossible allocation"); CHECK(!aligns[ai].f(sz, nt, threw)); CHECK_EQ(threw, !nt); } }
        verify(v);
    }
    if (most >= 5 && freed && __builtin_popcount(used) >= 3) c.nontrivial();
    for (auto const & b : v) sm::freeAlignedStorage(b.p);
}

// --- classes with aligned allocation ---
template <size_t A> struct Cls { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(A) pbt::Tracked t; char c[A / 8 + 3]; explicit Cls(int v = 0) : t(v) {} };
template <size_t A> struct Bare { SHAREMIND_ALIGNEDALLOCATION_MEMBERS(A) char c[A / 8 + 3]; }; // arrays of it begin where their storage does
template <size_t A> void bare(pbt::Ctx & c) {
    using B = Bare<A>; std::vector<B *> ps; size_t const n = 1 + c.draw(4);
    for (size_t i = 0; i < n; ++i) { B * const p = c.coin() ? new B[1 + c.draw(9)] : new (std::nothrow) B[1 + c.draw(9)]; CHECK(p); CHECKM((uintptr_t)p % A == 0, "an array is not aligned to %zu", A); p->c[0] = 1; ps.push_back(p); }
    for (B * p : ps) delete[] p;
    B * const s = c.coin() ? new B : new (std::nothrow) B; CHECKM(s && (uintptr_t)s % A == 0, "an object is not aligned to %zu", A); delete s;
}
template <size_t A> void cls(pbt::Ctx & c) {
    bare<A>(c);
    using C = Cls<A>; long const live0 = pbt::Tracked::live; std::vector<std::pair<C *, int>> v; std::vector<std::pair<C *, size_t>> arrays; size_t n = 0, thrown = 0, made = 0;
    while (c.more(n, 12, 40)) {
        ++n; unsigned const op = (unsigned)c.draw(5); bool const inject = c.chance(1, 8), boom = c.chance(1, 8); memalignFailed = false; bool failed = false; if (inject && op < 4) memalignCountdown = 0; if (boom && op < 4) pbt::Tracked::throwAt = (long)c.draw(2); int const val = (int)n; size_t const cnt = c.draw(5); C * p = nullptr;
        try { switch (op) {
        case 0: p = new C(val); break;
        case 1: p = new (std::nothrow) C(val); break;
        case 2: p = new C[cnt]; break;
        case 3: p = new (std::nothrow) C[cnt]; break;
        case 4: if (!v.empty()) { size_t const i = c.draw(v.size() - 1); CHECK_EQ(v[i].first->t.v, v[i].second); delete v[i].first; v.erase(v.begin() + i); } break;
        default: if (!arrays.empty()) { size_t const i = c.draw(arrays.size() - 1); delete[] arrays[i].first; arrays.erase(arrays.begin() + i); } }
        } catch (std::bad_alloc const &) { failed = true; CHECK(memalignFailed && (op == 0 || op == 2)); } catch (pbt::Tracked::Boom const &) { failed = true; ++thrown; c.label("constructor threw"); } // the storage is released again
        memalignCountdown = -1; pbt::Tracked::throwAt = -1;
        if (op < 4 && !failed) { if (!p) CHECK(memalignFailed && (op & 1)); else { CHECK(!memalignFailed); ++made; if (op < 2) { CHECKM((uintptr_t)p % A == 0, "not aligned to %zu", A); p->c[sizeof(p->c) - 1] = 1; v.emplace_back(p, val); } else arrays.emplace_back(p, cnt); } }
        long live = live0 + (long)v.size(); for (auto const & a : arrays) live += (long)a.second; CHECK_EQ(pbt::Tracked::live, live);
    }
    if (made >= 3) c.nontrivial();
    for (auto const & x : v) delete x.first; for (auto const & x : arrays) delete[] x.first; CHECK_EQ(pbt::Tracked::live, live0);
}
PBT_PROP(classes, 8000, 100000, "at least three successful allocations") { switch (c.draw(4)) { case 0: cls<8>(c); break; case 1: cls<16>(c); break; case 2: cls<64>(c); break; case 3: cls<2>(c); break; default: cls<1024>(c); } }

// --- containers ---
template <typename T> T make(int v) { return T(v); }
template <size_t A, size_t N> struct alignas(A) Al { unsigned char b[N]; Al(int v = 0) { memset(b, v, N); CHECKM((uintptr_t)this % A == 0, "an object is not aligned to %zu", A); } bool operator==(Al const & o) const { return !memcmp(b, o.b, N); } bool operator<(Al const & o) const { return memcmp(b, o.b, N) < 0; } };
template <typename T> using AA = sm::AlignedAllocator<T>;
// Runs f on the container under test, possibly failing an allocation, in which
// case the container must be unchanged (the operations used give that guarantee):
struct Faulty { pbt::Ctx & c; bool on; explicit Faulty(pbt::Ctx & c_) : c(c_), on(c.chance(1, 10)) { memalignFailed = false; if (on) memalignCountdown = 0; }
    template <typename F> bool operator()(F && f) { try { f(); } catch (std::bad_alloc const &) { memalignCountdown = -1; CHECK(memalignFailed); c.label("container allocation failed"); return false; } memalignCountdown = -1; return true; } };
template <typename T> void containers(pbt::Ctx & c) {
    std::vector<T, AA<T>> a, a2; std::vector<int> b, b2; std::list<T, AA<T>> l; std::list<int> lm; std::map<int, T, std::less<int>, AA<std::pair<int const, T>>> m; std::map<int, int> mm; std::deque<T, AA<T>> d; std::deque<int> dm; size_t n = 0; unsigned kinds = 0; auto const same = [](T const & t, int v) { return t == make<T>(v); };
    while (c.more(n, 25, 80)) {
        ++n; int const v = (int)c.draw(100); unsigned const op = (unsigned)c.draw(13); c.trace("op %u", op); kinds |= 1u << op; Faulty f(c);
        switch (op) {
        case 0: if (f([&] { a.push_back(make<T>(v)); })) b.push_back(v); break;
        case 1: if (!b.empty()) { a.erase(a.begin() + v % b.size()); b.erase(b.begin() + v % b.size()); } break;
        case 2: if (f([&] { a.reserve((size_t)v); })) b.reserve((size_t)v); break;
        case 3: a.swap(a2); b.swap(b2); break;
        case 4: a2 = std::move(a); b2 = std::move(b); a.clear(); b.clear(); break;
        case 5: if (f([&] { std::vector<T, AA<T>> x(a); a2.swap(x); })) b2 = b; break;
        case 6: if (f([&] { l.push_front(make<T>(v)); })) lm.push_front(v); break;
        case 7: if (!lm.empty()) { l.pop_back(); lm.pop_back(); } break;
        case 8: if (f([&] { m.emplace(v, make<T>(v)); })) mm.emplace(v, v); break;
        case 9: m.erase(v); mm.erase(v); break;
        case 10: if (f([&] { d.push_back(make<T>(v)); })) dm.push_back(v); break;
        case 11: if (!dm.empty()) { d.pop_front(); dm.pop_front(); } break;
        case 12: { bool failed = false; try { a.reserve(a.max_size()); } catch (std::bad_alloc const &) { failed = true; } catch (std::length_error const &) { failed = true; } CHECK(failed); break; }
        default: if (f([&] { auto p = std::allocate_shared<T>(AA<char>(), make<T>(v)); CHECK(*p == make<T>(v)); CHECK((uintptr_t)p.get() % alignof(T) == 0); })) {} }
        memalignCountdown = -1;
        CHECK(a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), same)); CHECK(a2.size() == b2.size() && std::equal(a2.begin(), a2.end(), b2.begin(), same)); CHECK(l.size() == lm.size() && std::equal(l.begin(), l.end(), lm.begin(), same)); CHECK(d.size() == dm.size() && std::equal(d.begin(), d.end(), dm.begin(), same));
        CHECK(m.size() == mm.size()); { auto i = mm.begin(); for (auto const & x : m) { CHECK(x.first == i->first && same(x.second, i->second)); ++i; } }
        if (!a.empty()) CHECKM((uintptr_t)a.data() % alignof(T) == 0, "vector storage not aligned to %zu", alignof(T)); for (auto const & x : m) CHECK((uintptr_t)&x % alignof(std::pair<int const, T>) == 0);
    }
    if (__builtin_popcount(kinds) >= 5) c.nontrivial();
    AA<T> x; AA<int> const y(x); AA<T> z(y), w(std::move(z)); CHECK(x == y && !(x != y) && w == x);
    // Requests that cannot be satisfied, including products which do not fit:
    size_t huge = c.pick<size_t>({SIZE_MAX, SIZE_MAX / sizeof(T), SIZE_MAX / sizeof(T) + 1, SIZE_MAX / sizeof(T) + 2, SIZE_MAX / 2 + 1, (SIZE_MAX >> 1) / sizeof(T) + 1}); if (sizeof(T) == 1) huge = SIZE_MAX; bool failed = false; try { T * p = x.allocate(huge); x.deallocate(p, huge); } catch (std::bad_alloc const &) { failed = true; } CHECKM(failed, "allocating %zu objects of %zu bytes did not fail", huge, sizeof(T));
    T * p = x.allocate(3); CHECK((uintptr_t)p % alignof(T) == 0); memset((void *)p, 7, 3 * sizeof(T)); x.deallocate(p, 3);
}
PBT_PROP(allocator, 10000, 150000, "at least five kinds of operations") {
    switch (c.draw(9)) { case 0: containers<char>(c); break; case 1: containers<short>(c); break; case 2: containers<int>(c); break; case 3: containers<double>(c); break; case 4: containers<Al<1, 3>>(c); break; case 5: containers<Al<2, 6>>(c); break; case 6: containers<Al<16, 48>>(c); break; case 7: containers<Al<64, 64>>(c); break; case 8: containers<Al<256, 3>>(c); break; default: containers<long double>(c); }
}

// --- uninitialized arrays ---
template <typename T> struct Elem { static T make(int v) { return T(v); } static bool is(T const & t, int v) { return t == T(v); } };
template <> struct Elem<std::string> { static std::string make(int v) { return std::string((size_t)v % 40, (char)('a' + v % 26)); } static bool is(std::string const & t, int v) { return t == make(v); } };
template <> struct Elem<pbt::Tracked> { static pbt::Tracked make(int v) { return pbt::Tracked(v); } static bool is(pbt::Tracked const & t, int v) { t.ok(); return t.v == v; } };
template <typename T> struct Arr {
    using U = sm::UninitializedDynamicArray<T>; U a; std::vector<int> m; // m[i] < 0: not constructed
    Arr() {} Arr(Arr && o) noexcept : a(std::move(o.a)), m(std::move(o.m)) { o.m.clear(); }
    explicit Arr(size_t n) : a(n), m(n, -1) {}
    void clear() { for (size_t i = 0; i < m.size(); ++i) if (m[i] >= 0) a[i].~T(); m.assign(m.size(), -1); }
    void verify() {
        U & u = a; U const & cu = a; size_t const n = m.size(); CHECK_EQ(u.size(), n); CHECK_EQ(u.empty(), n == 0); CHECK(u.end() - u.begin() == (ptrdiff_t)n && cu.end() - cu.begin() == (ptrdiff_t)n && cu.cend() - cu.cbegin() == (ptrdiff_t)n);
        CHECK(u.begin() == u.data() && cu.begin() == u.begin() && cu.cbegin() == u.begin() && cu.data() == u.data());
        static_assert(std::is_same<decltype(u.begin()), T *>::value && std::is_same<decltype(cu.begin()), T const *>::value && std::is_same<decltype(cu[0]), T const &>::value, "");
        for (size_t i = 0; i < n; ++i) { T * p = u.data() + i; CHECK(&u[i] == p && &cu[i] == p && u.data(i) == p && cu.data(i) == p); CHECKM((uintptr_t)p % alignof(T) == 0, "element %zu is not aligned", i); if (m[i] >= 0) CHECKM(Elem<T>::is(cu[i], m[i]), "element %zu of %zu changed", i, n); }
    }
};
template <typename T> void arrays(pbt::Ctx & c) {
    long const live0 = pbt::Tracked::live; { using A = Arr<T>; std::vector<std::unique_ptr<A>> v; size_t n = 0, put = 0, moves = 0; v.emplace_back(new A());
    while (c.more(n, 25, 80)) {
        ++n; A & x = *v[c.draw(v.size() - 1)]; A & y = *v[c.draw(v.size() - 1)];
        switch (c.weighted({3, 8, 2, 3, 3, 3, 1})) {
        case 0: { size_t const sz = c.draw(1) ? c.draw(12) : c.draw(200); c.trace("array of %zu", sz); newfail::At at(c.chance(1, 8) ? (long)c.draw(2) : -1); try { std::unique_ptr<A> p(new A(sz)); v.push_back(std::move(p)); } catch (std::bad_alloc const &) { c.label("allocation failed"); } break; }
        case 1: for (size_t k = c.draw(5); k-- && !x.m.empty();) { size_t const i = c.draw(x.m.size() - 1); int const val = (int)c.draw(100); if (x.m[i] < 0) new (c.coin() ? (void *)x.a.data(i) : (void *)&x.a[i]) T(Elem<T>::make(val)); else x.a[i] = Elem<T>::make(val); x.m[i] = val; ++put; } break;
        case 2: if (!x.m.empty()) { size_t const i = c.draw(x.m.size() - 1); if (x.m[i] >= 0) { x.a.data(i)->~T(); x.m[i] = -1; } } break;
        case 3: { c.trace("move construct"); v.emplace_back(new A(std::move(x))); moves += !v.back()->m.empty(); x.verify(); break; }
        case 4: if (&x != &y) { c.trace("move assign %zu elements over %zu", y.m.size(), x.m.size()); x.clear(); auto & r = (x.a = std::move(y.a)); CHECK(&r == &x.a); moves += !y.m.empty(); x.m = std::move(y.m); y.m.clear(); } break;
        case 5: { c.trace("swap"); using std::swap; swap(x.a, y.a); if (&x != &y) { swap(x.m, y.m); ++moves; } break; }
        default: { size_t huge = c.pick<size_t>({SIZE_MAX, SIZE_MAX / sizeof(T), SIZE_MAX / sizeof(T) + 1, SIZE_MAX / sizeof(T) + 2, SIZE_MAX / 2, (size_t)1 << 59}); if (sizeof(T) == 1) huge = SIZE_MAX; bool failed = false; try { A z(0); typename A::U u(huge); CHECK(u.size() == huge); } catch (std::bad_alloc const &) { failed = true; } CHECK(failed); } }
        for (auto & p : v) p->verify(); // the storages are disjoint: nothing changes but what was assigned
    }
    if (put >= 3 && moves) c.nontrivial();
    for (auto & p : v) p->clear(); } CHECK_EQ(pbt::Tracked::live, live0);
}
PBT_PROP(uninitialized, 10000, 150000, "at least three elements constructed, and a non-empty array moved or swapped") {
    switch (c.draw(overAligned ? 6 : 5)) { case 0: arrays<char>(c); break; case 1: arrays<std::string>(c); break; case 2: arrays<pbt::Tracked>(c); break; case 3: arrays<double>(c); break; case 4: arrays<Al<1, 3>>(c); break; case 5: arrays<Al<16, 16>>(c); break; default: arrays<Al<64, 96>>(c); }
}
}
static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;
