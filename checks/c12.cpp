// C12: uint_t<N, B> against a reference bignum.
#include <sharemind/uint_t.h>
#include <algorithm>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"

#ifndef BLOCK
#define BLOCK 8
#endif

namespace {
using sharemind::uint128_t;
// Reference: little-endian 32-bit digits of a number below 2^n.
struct Big {
    unsigned n; std::vector<uint32_t> d;
    explicit Big(unsigned n_) : n(n_), d((n_ + 31) / 32) {}
    Big & mask() { if (n % 32) d.back() &= (uint32_t(1) << n % 32) - 1; return *this; }
    bool bit(unsigned i) const { return i < n && (d[i / 32] >> i % 32 & 1); }
    void set(unsigned i, bool b) { if (i < n) { d[i / 32] &= ~(uint32_t(1) << i % 32); d[i / 32] |= (uint32_t)b << i % 32; } }
    bool zero() const { for (auto x : d) if (x) return false; return true; }
    static Big of(unsigned n, unsigned __int128 v) { Big r(n); for (size_t i = 0; i < r.d.size() && i < 4; ++i) r.d[i] = (uint32_t)(v >> 32 * i); return r.mask(); }
    unsigned __int128 low() const { unsigned __int128 v = 0; for (size_t i = 0; i < d.size() && i < 4; ++i) v |= (unsigned __int128)d[i] << 32 * i; return v; }
    Big resize(unsigned m) const { Big r(m); for (size_t i = 0; i < r.d.size() && i < d.size(); ++i) r.d[i] = d[i]; return r.mask(); }
    int cmp(Big const & o) const { for (size_t i = d.size(); i-- > 0;) if (d[i] != o.d[i]) return d[i] < o.d[i] ? -1 : 1; return 0; }
    std::string hex() const { std::string s; char b[10]; for (size_t i = d.size(); i-- > 0;) { snprintf(b, sizeof b, "%08x", d[i]); s += b; } return s; }
};
Big operator+(Big a, Big const & b) { uint64_t c = 0; for (size_t i = 0; i < a.d.size(); ++i) { c += (uint64_t)a.d[i] + b.d[i]; a.d[i] = (uint32_t)c; c >>= 32; } return a.mask(); }
Big operator~(Big a) { for (auto & x : a.d) x = ~x; return a.mask(); }
Big operator-(Big const & a, Big const & b) { return a + ~b + Big::of(a.n, 1); }
Big operator*(Big const & a, Big const & b) { Big r(a.n); for (size_t i = 0; i < a.d.size(); ++i) { uint64_t c = 0; for (size_t j = 0; i + j < a.d.size(); ++j) { c += (uint64_t)a.d[i] * b.d[j] + r.d[i + j]; r.d[i + j] = (uint32_t)c; c >>= 32; } } return r.mask(); }
Big operator&(Big a, Big const & b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] &= b.d[i]; return a; }
Big operator|(Big a, Big const & b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] |= b.d[i]; return a; }
Big operator^(Big a, Big const & b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] ^= b.d[i]; return a; }
Big operator<<(Big const & a, unsigned s) { Big r(a.n); for (unsigned i = s; i < a.n; ++i) r.set(i, a.bit(i - s)); return r; }
Big operator>>(Big const & a, unsigned s) { Big r(a.n); for (unsigned i = 0; i + s < a.n; ++i) r.set(i, a.bit(i + s)); return r; }
uint32_t divSmall(Big & a, uint32_t by) { uint64_t r = 0; for (size_t i = a.d.size(); i-- > 0;) { r = r << 32 | a.d[i]; a.d[i] = (uint32_t)(r / by); r %= by; } return (uint32_t)r; }
std::string str(Big v, unsigned base, bool up) { if (v.zero()) return "0"; std::string s; char const * const t = up ? "0123456789ABCDEF" : "0123456789abcdef"; while (!v.zero()) { uint32_t const d = divSmall(v, base); s.push_back(t[d]); } return std::string(s.rbegin(), s.rend()); }

Big gen(pbt::Ctx & c, unsigned n) {
    Big r(n);
    switch (c.draw(5)) {
    case 0: r = Big::of(n, c.bits(64)); break;
    case 1: r.set((unsigned)c.draw(n - 1), true); if (c.coin()) r = r - Big::of(n, 1); break;
    case 2: for (auto & x : r.d) x = (uint32_t)c.bits(32); r.mask(); break;
    case 3: for (auto & x : r.d) x = (uint32_t)c.draw(UINT32_MAX); r.mask(); break;
    case 4: r = ~Big::of(n, c.bits(64)); break;
    default: for (auto & x : r.d) x = c.coin() ? UINT32_MAX : c.coin() ? 0 : (uint32_t)c.bits(32); r.mask();
    }
    return r;
}
#define SAME(expr, exp) same((expr), (exp), #expr)

template <unsigned N, typename B> struct T {
    using U = sharemind::uint_t<N, B>;
    static constexpr unsigned W = 8 * sizeof(B);
    pbt::Ctx & c; Big x{N}, y{N};
    explicit T(pbt::Ctx & c_) : c(c_) {}
    static U mk(Big const & v) { U r; for (unsigned i = 0; i < N; ++i) if (v.bit(i)) r.block(i / W) |= (B)((B)1 << i % W); return r; }
    static Big un(U const & v) {
        size_t const total = U::num_of_blocks * W; Big r((unsigned)total);
        for (unsigned i = 0; i < total; ++i) r.set(i, v.block(i / W) >> i % W & 1);
        for (unsigned i = N; i < total; ++i) if (r.bit(i)) pbt::fail("bit %u beyond the width %u is set (block width %u)", i, N, W);
        return r.resize(N);
    }
    void same(U const & got, Big const & exp, char const * what) { Big g = un(got); if (g.cmp(exp)) pbt::fail("width %u, block width %u, x %s, y %s: %s: got %s, expected %s", N, W, x.hex().c_str(), y.hex().c_str(), what, g.hex().c_str(), exp.hex().c_str()); }
    template <typename I> void conv() {
        I const t = (I)c.bits(std::is_same<I, bool>::value ? 1 : 8 * sizeof(I)); Big e = Big::of(N, (unsigned __int128)t); if (t < (I)1 && t != (I)0) for (unsigned i = 128; i < N; ++i) e.set(i, true); // modulo 2^N
        U a(t); SAME(a, e); U b = t; SAME(b, e); U d(mk(x)); U & r = (d = t); CHECK(&r == &d); SAME(d, e); I tt = t; U f(tt); SAME(f, e); d = tt; SAME(d, e);
        SAME(mk(x) + U(t), x + e); SAME(mk(x) + t, x + e); SAME(t - mk(x), e - x); CHECK_EQ(mk(x) < t, x.cmp(e) < 0); CHECK_EQ(t == mk(x), x.cmp(e) == 0);
    }
    template <unsigned M, typename C> void widen() { // to and from another width
        using V = sharemind::uint_t<M, C>; U a(mk(x)); V b(a); T<M, C> o(c); o.x = x.resize(M); o.same(b, x.resize(M), "conversion from another uint_t"); U back(b); SAME(back, x.resize(M).resize(N)); V asn; asn = a; o.same(asn, x.resize(M), "assignment from another uint_t");
    }
    template <unsigned M, typename C> typename std::enable_if<(M < N)>::type demoteTo() { T<M, C> o(c); o.x = x.resize(M); o.same(sharemind::demote_integer<sharemind::uint_t<M, C>>(mk(x)), x.resize(M), "demotion to a narrower uint_t"); }
    template <unsigned M, typename C> typename std::enable_if<(M >= N)>::type demoteTo() {}
    void demote128(std::true_type) { uint128_t r = sharemind::demote_integer<uint128_t>(mk(x)); CHECK_EQ(r.lower(), (uint64_t)x.low()); CHECK_EQ(r.upper(), (uint64_t)(x.low() >> 64)); }
    void demote128(std::false_type) {}
    template <typename I> void fromWider(std::true_type) { I v = (I)c.bits(8 * sizeof(I)); U const r(sharemind::demote_integer<U>(v)); SAME(r, Big::of(N, v)); }
    template <typename I> void fromWider(std::false_type) {}

    void run() {
        x = gen(c, N); y = gen(c, N); if (c.chance(1, 6)) { y = x; if (c.coin()) y = y + Big::of(N, 1); else if (c.coin()) y = y - Big::of(N, 1); }
        c.trace("width %u block %u x %s y %s", N, W, x.hex().c_str(), y.hex().c_str());
        U const a = mk(x), b = mk(y); U t;
        Big const one = Big::of(N, 1);
        switch (c.draw(4)) {
        case 0: { // arithmetic
            SAME(a + b, x + y); SAME(a - b, x - y); SAME(a * b, x * y); SAME(a & b, x & y); SAME(a | b, x | y); SAME(a ^ b, x ^ y); SAME(~a, ~x); SAME(-a, Big(N) - x);
            CHECK_EQ(!a, x.zero()); int const k = x.cmp(y); CHECK_EQ(a == b, k == 0); CHECK_EQ(a != b, k != 0); CHECK_EQ(a < b, k < 0); CHECK_EQ(a <= b, k <= 0); CHECK_EQ(a > b, k > 0); CHECK_EQ(a >= b, k >= 0);
#define COMP(OP, E) { t = a; U & r = (t OP b); CHECK(&r == &t); SAME(t, E); }
            COMP(+=, x + y) COMP(-=, x - y) COMP(*=, x * y) COMP(&=, x & y) COMP(|=, x | y) COMP(^=, x ^ y)
            t = a; t += t; SAME(t, x + x); t = a; t *= t; SAME(t, x * x); t = a; t -= t; SAME(t, Big(N));
            { t = a; U & r = ++t; CHECK(&r == &t); SAME(t, x + one); t = a; SAME(t++, x); SAME(t, x + one); t = a; U & q = --t; CHECK(&q == &t); SAME(t, x - one); t = a; SAME(t--, x); SAME(t, x - one); }
            { U cp(a); SAME(cp, x); U mv(std::move(cp)); SAME(mv, x); U & q = (t = mv); CHECK(&q == &t); SAME(t, x); U lv(mv); SAME(lv, x); t = U(b); SAME(t, y); t = t; SAME(t, y); U z; SAME(z, Big(N)); }
            break; }
        case 1: { // shifts and bits
            unsigned const s = c.coin() ? (unsigned)c.draw(N - 1) : (unsigned)std::min<uint64_t>(N - 1, W * c.draw(N / W));
            c.trace("shift %u", s);
            SAME(a << (std::uint64_t)s, x << s); SAME(a >> (std::uint64_t)s, x >> s); SAME(a << (int)s, x << s); SAME(a >> s, x >> s);
            { t = a; U & r = (t <<= (std::uint64_t)s); CHECK(&r == &t); SAME(t, x << s); t = a; U & q = (t >>= s); CHECK(&q == &t); SAME(t, x >> s); }
            if (N >= 32 || s < (1u << N)) { U const sh = s; SAME(a << sh, x << s); SAME(a >> sh, x >> s); t = a; t <<= sh; SAME(t, x << s); t = a; t >>= sh; SAME(t, x >> s); }
            unsigned const i = (unsigned)c.draw(N - 1), j = (unsigned)c.draw(N - 1); bool const v = c.coin(); Big e(x);
            CHECK_EQ(a[i], x.bit(i)); t = a; CHECK_EQ((bool)t[i], x.bit(i)); CHECK_EQ(~t[i], !x.bit(i));
            switch (c.draw(6)) {
            case 0: t[i] = v; e.set(i, v); break;
            case 1: t[i] = t[j]; e.set(i, x.bit(j)); break;
            case 2: t[i].flip(); e.set(i, !x.bit(i)); break;
            case 3: t[i] |= v; e.set(i, x.bit(i) | v); break;
            case 4: t[i] &= v; e.set(i, x.bit(i) & v); break;
            case 5: t[i] ^= v; e.set(i, x.bit(i) ^ v); break;
            default: t[i] -= v; e.set(i, x.bit(i) && !v);
            }
            SAME(t, e);
            break; }
        case 2: { // division: quotient * divisor + remainder = dividend, remainder < divisor
            Big d = c.coin() ? y : y >> (unsigned)c.draw(N - 1); U const dd = mk(d);
            if (d.zero()) { for (int k = 0; k < 3; ++k) { bool thrown = false; try { if (k == 0) (void)(a / dd); else if (k == 1) (void)(a % dd); else (void)divMod(a, dd); } catch (typename U::division_by_zero_error const &) { thrown = true; } CHECK(thrown); } c.label("division by zero"); break; }
            U const q(a / dd), r(a % dd); auto const qr = divMod(a, dd); CHECK(qr.quot == q); CHECK(qr.rem == r);
            Big const bq = un(q), br = un(r); y = d;
            CHECKM(br.cmp(d) < 0, "width %u block %u: %s mod %s = %s", N, W, x.hex().c_str(), d.hex().c_str(), br.hex().c_str());
            Big const wide = bq.resize(2 * N) * d.resize(2 * N) + br.resize(2 * N);
            CHECKM(wide.cmp(x.resize(2 * N)) == 0, "width %u block %u: %s / %s = %s rem %s", N, W, x.hex().c_str(), d.hex().c_str(), bq.hex().c_str(), br.hex().c_str());
            t = a; t /= dd; SAME(t, bq); t = a; t %= dd; SAME(t, br);
            break; }
        case 3: { // output
            Big v = x >> (c.coin() ? (unsigned)c.draw(N - 1) : 0); unsigned const k = (unsigned)c.draw(2); bool const up = c.coin(), pos = c.chance(1, 8);
            std::ostringstream o; o << (k == 0 ? std::dec : k == 1 ? std::oct : std::hex); if (up) o << std::uppercase; if (pos) o << std::showpos;
            o << "<" << mk(v) << ">"; std::string const s = o.str(), e = str(v, k == 0 ? 10 : k == 1 ? 8 : 16, up);
            CHECKM(s == "<" + e + ">" || (pos && s == "<+" + e + ">"), "width %u block %u: got %s, expected %s", N, W, s.c_str(), e.c_str());
            break; }
        default: { // conversions
            switch (c.draw(9)) { case 0: conv<bool>(); break; case 1: conv<uint8_t>(); break; case 2: conv<uint16_t>(); break; case 3: conv<uint32_t>(); break; case 4: conv<unsigned long>(); break; case 5: conv<unsigned long long>(); break; case 6: conv<int>(); break; case 7: conv<long>(); break; case 8: conv<signed char>(); break; default: conv<short>(); }
            { unsigned __int128 v = y.low(); uint128_t w((uint64_t)(v >> 64), (uint64_t)v); U f(w); SAME(f, Big::of(N, v)); t = w; SAME(t, Big::of(N, v)); U g = w; SAME(g, Big::of(N, v)); }
            widen<N + 1, B>(); widen<64, uint64_t>(); widen<37, uint8_t>(); widen<150, uint16_t>(); widen<200, uint32_t>();
            CHECK_EQ(sharemind::demote_integer<bool>(mk(x)), !x.zero());
            demoteTo<1, uint8_t>(); demoteTo<7, uint8_t>(); demoteTo<24, uint16_t>(); demoteTo<64, uint64_t>(); demoteTo<65, uint8_t>(); demoteTo<130, uint64_t>();
            demote128(std::integral_constant<bool, (N > 128)>());
            dem<uint8_t>(); dem<uint16_t>(); dem<uint32_t>(); dem<uint64_t>();
            fromWider<uint8_t>(std::integral_constant<bool, (N < 8)>()); fromWider<uint16_t>(std::integral_constant<bool, (N < 16)>()); fromWider<uint32_t>(std::integral_constant<bool, (N < 32)>()); fromWider<uint64_t>(std::integral_constant<bool, (N < 64)>());
            { // from a generator of blocks
                Big e(N); auto g = [&](B * p, B * q) { CHECK_EQ((size_t)(q - p), (size_t)+U::num_of_blocks); for (unsigned k = 0; p != q; ++p, ++k) { *p = (B)c.bits(W); for (unsigned i = 0; i < W; ++i) e.set(k * W + i, *p >> i & 1); } }; U r(g); SAME(r, e); }
            }
        }
        c.nontrivial(!x.zero() && !y.zero() && (N % W != 0 || U::num_of_blocks > 1));
    }
    template <typename I> void dem() { demI<I>(std::integral_constant<bool, (sizeof(I) * 8 < N)>()); }
    template <typename I> void demI(std::true_type) { CHECKM(sharemind::demote_integer<I>(mk(x)) == (I)x.low(), "width %u, block width %u, x %s, to %zu bits", N, W, x.hex().c_str(), sizeof(I) * 8); }
    template <typename I> void demI(std::false_type) {}
};

template <typename B, unsigned ... Ns> void pickWidth(pbt::Ctx & c, unsigned which) {
    void (*fns[])(pbt::Ctx &) = {[](pbt::Ctx & cc) { T<Ns, B>(cc).run(); }...};
    fns[which](c);
}
template <typename B, unsigned ... Ns> void go(pbt::Ctx & c) { pickWidth<B, Ns...>(c, (unsigned)c.draw(sizeof...(Ns) - 1)); }
}

#if BLOCK <= 16
#define QUICK 300000
#else
#define QUICK 60000
#endif
PBT_PROP(operations, QUICK, 3000000, "every operation on boundary-biased operands at a random width of this block type against a reference bignum; non-trivial if both operands are non-zero and the width is not exactly one block") {
#if BLOCK == 8
    go<uint8_t, 1, 3, 4, 5, 7, 8, 9, 13, 16, 31, 64, 129>(c);
#elif BLOCK == 16
    go<uint16_t, 1, 2, 15, 16, 17, 32, 33, 63, 64, 100, 128, 200>(c);
#elif BLOCK == 32
    go<uint32_t, 3, 8, 31, 32, 33, 64, 65, 96, 127, 160, 255, 800>(c);
#else
    go<uint64_t, 1, 4, 10, 63, 64, 65, 127, 128, 129, 192, 256, 300, 900>(c);
#endif
}
