// C27: views of memory references against the memory itself.
#include <sharemind/ReferenceVector.h>
#include <array>
#include <cstring>
#include <numeric>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;
struct Ref { void * pData; std::size_t size; int other; };
struct CRef { void const * pData; std::size_t size; };
struct Three { unsigned char b[3]; bool operator==(Three const & o) const { return !memcmp(b, o.b, 3); } };
struct Wide { long a, b; bool operator==(Wide const & o) const { return a == o.a && b == o.b; } };
template <typename T> T gen(pbt::Ctx & c) { T t; for (size_t i = 0; i < sizeof(T); ++i) reinterpret_cast<unsigned char *>(&t)[i] = (unsigned char)c.draw(255); return t; }
template <> bool gen<bool>(pbt::Ctx & c) { return c.coin(); }
struct Gen { // counts and fills
    pbt::Rng r; unsigned calls = 0; void * from = nullptr; size_t bytes = 0;
    template <typename T> void fillBlock(T * b, T * e) { ++calls; from = b; bytes = (size_t)((char *)e - (char *)b); for (char * p = (char *)b; p != (char *)e; ++p) *p = (char)r.next(); }
    void fillBytes(void * p, size_t n) { ++calls; for (size_t i = 0; i < n; ++i) ((char *)p)[i] = mode == 0 ? 0 : mode == 1 ? -1 : (char)r.next(); } int mode = 2;
};
template <typename T> void randomized(pbt::Ctx & c, sm::RefVec<T> & v, T * mem, size_t n) { Gen g; g.r = pbt::Rng(c.draw(1000)); v.randomize(g); CHECK_EQ(g.calls, n ? 1u : 0u); if (n) { CHECK(g.from == mem); CHECK_EQ(g.bytes, n * sizeof(T)); } }
template <> void randomized<bool>(pbt::Ctx & c, sm::RefVec<bool> & v, bool * mem, size_t n) {
    Gen g, h; g.mode = h.mode = (int)c.draw(2); g.r = h.r = pbt::Rng(c.draw(1000)); memset((void *)mem, 1, n); v.randomize(g); sm::BitVec<> b(n); b.randomize(h);
    for (size_t i = 0; i < n; ++i) { unsigned char const byte = ((unsigned char *)mem)[i]; CHECK(byte < 2); CHECK_EQ((bool)byte, (bool)b[i]); if (g.mode < 2) CHECK_EQ((int)byte, g.mode); }
}
template <typename T> void views(pbt::Ctx & c) {
    size_t const n = c.chance(1, 30) ? c.draw(600) : c.length(60, 12), extra = c.draw(sizeof(T) - 1); std::vector<T> model; for (size_t i = 0; i < n; ++i) model.push_back(gen<T>(c));
    std::vector<T> ex(model.begin(), model.end()); // the exact memory, so that the sanitizer sees the first byte beyond it
    size_t const bytes = n * sizeof(T) + extra; T * const mem = static_cast<T *>(::operator new(bytes)); if (n) for (size_t i = 0; i < n; ++i) mem[i] = model[i]; memset((char *)mem + n * sizeof(T), 0x5a, extra);
    Ref ref{mem, bytes, 3}; CRef cref{mem, bytes}; sm::RefVec<T> v(ref); sm::RefVec<T> const cv(v), w(static_cast<Ref const &>(ref)); sm::CRefVec<T> k(cref), k2(ref), k3(v), k4(cv), k5(k); size_t steps = 0, writes = 0;
    c.trace("%zu elements of %zu bytes, %zu bytes beyond", n, sizeof(T), extra);
    static_assert(std::is_same<decltype(v[0]), T &>::value && std::is_same<decltype(cv[0]), T const &>::value && std::is_same<decltype(k[0]), T const &>::value && std::is_same<decltype(v.begin()), T *>::value && std::is_same<decltype(cv.begin()), T const *>::value && std::is_same<decltype(k.end()), T const *>::value && std::is_same<typename sm::RefVec<T>::value_type, T>::value, "types");
    do {
        switch (c.draw(3)) {
        case 0: if (n) { size_t const i = c.draw(n - 1); T const x = gen<T>(c); v[i] = x; model[i] = x; ++writes; } break;
        case 1: { size_t i = 0; T const x = gen<T>(c); size_t const from = c.draw(n); for (auto & e : v) if (i++ >= from) { e = x; model[i - 1] = x; ++writes; } CHECK_EQ(i, n); break; }
        case 2: if (n) { size_t const i = c.draw(n - 1); T const x = gen<T>(c); mem[i] = x; model[i] = x; ++writes; } break;
        default: randomized<T>(c, v, mem, n); for (size_t i = 0; i < n; ++i) model[i] = mem[i]; ++writes; }
        auto const check = [&](auto & u) { CHECKM(u.size() == n, "%zu elements", u.size()); CHECK_EQ(u.empty(), n == 0); CHECK((void const *)u.begin() == mem && u.end() - u.begin() == (ptrdiff_t)n); size_t i = 0; for (auto const & e : u) { CHECK(&e == mem + i && &u[i] == mem + i); CHECKM(e == model[i], "element %zu", i); ++i; } CHECK_EQ(i, n); };
        check(v); check(cv); check(w); check(k); check(k2); check(k3); check(k4); check(k5); { sm::RefVec<T> tmp(v); check(tmp); sm::CRefVec<T> ct(tmp); check(ct); }
        for (size_t i = 0; i < extra; ++i) CHECKM(((unsigned char *)mem)[n * sizeof(T) + i] == 0x5a, "byte %zu beyond the elements changed", i);
    } while (c.more(steps++, 6, 20));
    if (n >= 2 && writes >= 2) c.nontrivial();
    ::operator delete(mem);
}
PBT_PROP(refVectors, 80000, 300000, "at least two elements and two writes") {
    switch (c.draw(6)) { case 0: views<unsigned char>(c); break; case 1: views<bool>(c); break; case 2: views<short>(c); break; case 3: views<uint64_t>(c); break; case 4: views<Three>(c); break; case 5: views<Wide>(c); break; default: views<int>(c); }
}
}
static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;

// Elements at positions and in amounts which no small type can count.
PBT_PROP(largeViews, 30, 600, "more than 65536 elements") {
    size_t const n = c.pick<size_t>({250, 256, 300, 65535, 65536, 65537, 70000, 100000}), extra = c.draw(3); std::vector<int> mem(n + 1); std::iota(mem.begin(), mem.end(), 1);
    Ref ref{mem.data(), n * sizeof(int) + extra, 0}; sm::RefVec<int> v(ref); sm::RefVec<int> const cv(v); sm::CRefVec<int> const k(v); CHECK_EQ(v.size(), n); CHECK_EQ(cv.size(), n); CHECK_EQ(k.size(), n); CHECK(!v.empty() && !k.empty());
    for (size_t i = 0; i < n; ++i) { CHECK(&v[i] == &mem[i]); CHECK(&cv[i] == &mem[i]); CHECK(&k[i] == &mem[i]); }
    size_t i = 0; for (auto & x : v) { CHECK(&x == &mem[i]); x = (int)i++ * 2; } CHECK_EQ(i, n); CHECK_EQ(mem[n], (int)n + 1); i = 0; for (auto const & x : k) CHECK_EQ(x, (int)i++ * 2);
    if (n > 65536) c.nontrivial();
}
