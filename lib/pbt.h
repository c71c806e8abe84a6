// Property-based testing engine used by every check.
//
// A case is a finite sequence of choices (bounded integers). The random driver
// records them as they are drawn; a failing case is shrunk by deleting and
// reducing choices, and the replay file is that choice sequence. Every case is
// run in a forked worker, so that an assertion failure, a sanitizer report, a
// crash or a hang of the code under test is an observed failure of that case.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace pbt {

struct Rng {
    uint64_t s[4];
    static uint64_t mix(uint64_t & x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 0) { for (auto & v : s) v = mix(seed); }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t const r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : (n ? (unsigned __int128)(next()) * n >> 64 : 0); }
};

[[noreturn]] void fail(char const * fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void failMsg(std::string const & m);

// The source of choices of the running case. Thread-compatible only; the
// schedule-controlled harnesses draw only while holding the baton.
class Ctx {
public:
    // Uniform in [0, bound] (inclusive). 0 is the simplest choice.
    uint64_t draw(uint64_t bound) {
        return record(bound, replaying() ? 0 : (bound == UINT64_MAX ? rng_.next() : rng_.below(bound + 1)));
    }
    // Uniform in [lo, hi]; shrinks towards lo.
    template <typename T> T range(T lo, T hi) {
        return static_cast<T>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    }
    bool coin() { return draw(1); }
    // true with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) {
        return record(1, replaying() ? 0 : (rng_.below(den) < num));
    }
    // Geometric-like length in [0,max] with the given mean.
    uint64_t length(uint64_t max, uint64_t mean) {
        uint64_t v = 0;
        if (!replaying()) { while (v < max && rng_.below(mean * scale_ + 1) != 0) ++v; }
        return record(max, v);
    }
    // Index by weights; shrinks to index 0.
    unsigned weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0; for (auto x : w) tot += x;
        unsigned idx = 0;
        if (!replaying()) {
            uint64_t r = rng_.below(tot);
            for (auto x : w) { if (r < x) break; r -= x; ++idx; }
        }
        return static_cast<unsigned>(record(w.size() - 1, idx));
    }
    template <typename T> T const & pick(std::vector<T> const & v) { return v[draw(v.size() - 1)]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // Boundary-biased integer of the given number of bits (1..64).
    uint64_t bits(unsigned n) {
        uint64_t const mask = n >= 64 ? UINT64_MAX : ((uint64_t(1) << n) - 1);
        uint64_t v = 0;
        if (!replaying()) {
            switch (rng_.below(8)) {
            case 0: v = rng_.below(4); break;
            case 1: v = mask - rng_.below(4); break;
            case 2: v = (uint64_t(1) << rng_.below(n)) + rng_.below(3) - 1; break;
            case 3: { unsigned a = rng_.below(n), b = rng_.below(n); // run of ones
                      if (a > b) std::swap(a, b);
                      v = (b - a >= 63 ? UINT64_MAX : ((uint64_t(1) << (b - a + 1)) - 1)) << a; break; }
            case 4: v = rng_.next() >> rng_.below(64); break;
            case 5: v = ~(rng_.next() >> rng_.below(64)); break;
            case 6: { v = 0; for (int i = 0; i < 8; ++i) { static uint8_t const b[] = {0, 0xff, 0x80, 0x7f, 0x01, 0xfe}; v = v << 8 | b[rng_.below(6)]; } break; }
            default: v = rng_.next();
            }
            v &= mask;
        }
        return record(mask, v);
    }
    // Whether another element follows (for generated lists); shrinks to no.
    bool more(size_t sofar, size_t mean, size_t max) {
        if (sofar >= max) return false;
        return record(1, replaying() ? 0 : (rng_.below(mean * scale_ + 1) != 0));
    }

    // --- reporting ---
    void nontrivial(bool v = true) { if (v) nontrivial_ = true; }
    void label(char const * name) ;
    bool tracing() const { return tracing_; }
    void trace(char const * fmt, ...) __attribute__((format(printf, 2, 3)));

    // engine internals
    bool replaying() const { return replay_ != nullptr; }
    uint64_t record(uint64_t bound, uint64_t v);
    Rng rng_{0};
    unsigned scale_ = 1; // one case in 64 is a long one, see length() and more()
    std::vector<uint64_t> const * replay_ = nullptr;
    size_t pos_ = 0;
    uint64_t hash_ = 0;
    bool nontrivial_ = false;
    bool tracing_ = false;
};

Ctx & ctx(); // the running case

struct Prop {
    char const * name;
    uint64_t quick, thorough; // numbers of cases
    void (*fn)(Ctx &);
    char const * rule;
};
struct Reg { Reg(Prop p); };

#define PBT_PROP(NAME, QUICK, THOROUGH, RULE) \
    static void NAME(pbt::Ctx & c); \
    static pbt::Reg reg_##NAME{pbt::Prop{#NAME, QUICK, THOROUGH, &NAME, RULE}}; \
    static void NAME(pbt::Ctx & c)

// Options a harness may set at static-initialization time.
struct Options {
    double hangSeconds = 20.0;   // wall limit of one case
    bool checkLeaks = false;     // every case must free what it allocated
};
extern Options options;

#define CHECK(cond) \
    do { if (!(cond)) pbt::fail("check failed at %s:%d: %s", __FILE__, __LINE__, #cond); } while (0)
#define CHECKM(cond, ...) \
    do { if (!(cond)) { char b_[1024]; snprintf(b_, sizeof b_, __VA_ARGS__); \
        pbt::fail("check failed at %s:%d: %s: %s", __FILE__, __LINE__, #cond, b_); } } while (0)
template <typename A, typename B>
void checkEq(A const & a, B const & b, char const * what, char const * file, int line) {
    if (!(a == b))
        fail("check failed at %s:%d: %s: got %lld (0x%llx), expected %lld (0x%llx)", file, line, what,
             (long long)a, (unsigned long long)a, (long long)b, (unsigned long long)b);
}
#define CHECK_EQ(a, b) pbt::checkEq((a), (b), #a " == " #b, __FILE__, __LINE__)

// An object whose constructions and destructions are accounted for.
struct Tracked {
    static long live, constructed;
    static long throwAt; // construct/copy number at which to throw, -1: never
    static void tick();
    struct Boom {};
    int v; uint32_t magic;
    explicit Tracked(int v_ = 0) : v(v_) { tick(); init(); }
    Tracked(Tracked const & o) : v((o.ok(), o.v)) { tick(); init(); }
    Tracked(Tracked && o) noexcept : v((o.ok(), o.v)) { o.v = -1; init(); }
    Tracked & operator=(Tracked const & o) { ok(); o.ok(); tick(); v = o.v; return *this; }
    Tracked & operator=(Tracked && o) noexcept { ok(); o.ok(); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~Tracked() { ok(); magic = 0xdeadbeef; --live; }
    void ok() const { if (magic != 0x600dcafe) fail("access to an object that is not alive"); }
    bool operator==(Tracked const & o) const { ok(); o.ok(); return v == o.v; }
    bool operator!=(Tracked const & o) const { return !(*this == o); }
    bool operator<(Tracked const & o) const { ok(); o.ok(); return v < o.v; }
    bool operator<=(Tracked const & o) const { ok(); o.ok(); return v <= o.v; }
    bool operator>(Tracked const & o) const { ok(); o.ok(); return v > o.v; }
    bool operator>=(Tracked const & o) const { ok(); o.ok(); return v >= o.v; }
private:
    void init() { magic = 0x600dcafe; ++live; ++constructed; }
};

int runMain(int argc, char ** argv);

} // namespace pbt
