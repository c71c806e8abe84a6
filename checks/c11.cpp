// C11: uint128_t against unsigned __int128.
#include <sharemind/uint128_t.h>
#include <sharemind/uint_t.h>
#include <sstream>
#include <string>
#include "pbt.h"

namespace {
using sharemind::uint128_t;
using u128 = unsigned __int128;
u128 un(uint128_t x) { return (u128)x.upper() << 64 | x.lower(); }
uint128_t mk(u128 v) { return uint128_t((uint64_t)(v >> 64), (uint64_t)v); }
u128 gen(pbt::Ctx & c) {
    switch (c.draw(3)) {
    case 0: return (u128)c.bits(64);
    case 1: { u128 v = (u128)1 << c.draw(127); return v - c.draw(1); }
    case 2: return (u128)c.bits(64) << 64 | c.bits(64);
    default: return ~(u128)c.bits(64);
    }
}
std::string hex(u128 v) { char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
void same(uint128_t got, u128 exp, char const * what, u128 x, u128 y) {
    if (un(got) != exp) pbt::fail("%s of %s and %s: got %s, expected %s", what, hex(x).c_str(), hex(y).c_str(), hex(un(got)).c_str(), hex(exp).c_str());
}
#define SAME(expr, exp) same((expr), (exp), #expr, x, y)
std::string str(u128 v, unsigned base, bool up) { if (!v) return "0"; std::string s; char const * const t = up ? "0123456789ABCDEF" : "0123456789abcdef"; while (v) { unsigned const d = (unsigned)(v % base); s.insert(s.begin(), t[d]); v /= base; } return s; }

template <typename T> void conv(pbt::Ctx & c, u128 x) {
    T const t = (T)c.bits(std::is_same<T, bool>::value ? 1 : 8 * sizeof(T)); u128 const y = (u128)t;
    uint128_t a(t); SAME(a, (u128)t); uint128_t b = t; SAME(b, (u128)t); uint128_t d(mk(x)); uint128_t & r = (d = t); CHECK(&r == &d); SAME(d, (u128)t);
    SAME(mk(x) + t, x + y); SAME(t + mk(x), x + y); SAME(mk(x) - t, x - y); SAME(mk(x) * t, x * y); SAME(mk(x) & t, x & y); SAME(mk(x) | t, x | y); SAME(mk(x) ^ t, x ^ y); if (y) { SAME(mk(x) / t, x / y); SAME(mk(x) % t, x % y); }
    CHECK_EQ(mk(x) < t, x < y); CHECK_EQ(t < mk(x), y < x); CHECK_EQ(mk(x) == t, x == y); CHECK_EQ(a == t, true);
}
template <typename T> void demote(u128 x) { CHECK_EQ((unsigned long long)sharemind::demote_integer<T>(mk(x)), (unsigned long long)(T)x); }
}

PBT_PROP(arithmetic, 600000, 40000000, "all operators on boundary-biased operand pairs against the compiler's 128-bit type; non-trivial if both operands exceed 64 bits or their sum or product carries into the upper half") {
    u128 const x = gen(c); u128 y = gen(c); if (c.chance(1, 6)) y = x + c.draw(2) - 1;
    c.trace("x %s, y %s", hex(x).c_str(), hex(y).c_str());
    uint128_t const a = mk(x), b = mk(y);
    CHECK_EQ(a.upper(), (uint64_t)(x >> 64)); CHECK_EQ(a.lower(), (uint64_t)x);
    SAME(a + b, x + y); SAME(a - b, x - y); SAME(a * b, x * y); SAME(a & b, x & y); SAME(a | b, x | y); SAME(a ^ b, x ^ y); SAME(~a, ~x); SAME(-a, -x);
    CHECK_EQ(!a, x == 0); CHECK_EQ(a == b, x == y); CHECK_EQ(a != b, x != y); CHECK_EQ(a < b, x < y); CHECK_EQ(a <= b, x <= y); CHECK_EQ(a > b, x > y); CHECK_EQ(a >= b, x >= y); CHECK(a == a && !(a != a) && !(a < a) && a <= a);
    unsigned const s = (unsigned)c.draw(127); SAME(a << s, x << s); SAME(a >> s, x >> s);
    uint128_t t;
#define COMP(OP) { t = a; uint128_t & r = (t OP b); CHECK(&r == &t); u128 e = x; e OP y; SAME(t, e); }
    COMP(+=) COMP(-=) COMP(*=) COMP(&=) COMP(|=) COMP(^=)
    { t = a; uint128_t & r = (t <<= s); CHECK(&r == &t); SAME(t, x << s); t = a; uint128_t & q = (t >>= s); CHECK(&q == &t); SAME(t, x >> s); }
    { t = a; t += t; SAME(t, x + x); t = a; t *= t; SAME(t, x * x); t = a; t -= t; SAME(t, (u128)0); }
    { t = a; uint128_t & r = ++t; CHECK(&r == &t); SAME(t, x + 1); t = a; SAME(t++, x); SAME(t, x + 1); t = a; uint128_t & q = --t; CHECK(&q == &t); SAME(t, x - 1); t = a; SAME(t--, x); SAME(t, x - 1); }
    if (c.chance(1, 3)) { // division
        u128 d = c.coin() ? y : y >> c.draw(127);
        uint128_t const dd = mk(d);
        if (!d) { for (int k = 0; k < 2; ++k) { bool thrown = false; try { (void)(k ? a % dd : a / dd); } catch (uint128_t::division_by_zero_error const &) { thrown = true; } CHECK(thrown); } t = a; try { t /= dd; } catch (std::runtime_error const &) {} SAME(t, x); c.label("division by zero"); }
        else { SAME(a / dd, x / d); SAME(a % dd, x % d); t = a; t /= dd; SAME(t, x / d); t = a; t %= dd; SAME(t, x % d); }
    }
    { // double-width products
        uint64_t const p = (uint64_t)x, q = (uint64_t)y; auto r = sharemind::multHiLo<uint64_t>(p, q); u128 const e = (u128)p * q; CHECK_EQ(r.hi, (uint64_t)(e >> 64)); CHECK_EQ(r.lo, (uint64_t)e);
        auto r32 = sharemind::multHiLo<uint32_t>((uint32_t)p, (uint32_t)q); uint64_t const e32 = (uint64_t)(uint32_t)p * (uint32_t)q; CHECK_EQ(r32.hi, (uint32_t)(e32 >> 32)); CHECK_EQ(r32.lo, (uint32_t)e32);
        auto r16 = sharemind::multHiLo<uint16_t>((uint16_t)p, (uint16_t)q); uint32_t const e16 = (uint32_t)(uint16_t)p * (uint16_t)q; CHECK_EQ(r16.hi, (uint16_t)(e16 >> 16)); CHECK_EQ(r16.lo, (uint16_t)e16);
        auto r8 = sharemind::multHiLo<uint8_t>((uint8_t)p, (uint8_t)q); unsigned const e8 = (unsigned)(uint8_t)p * (uint8_t)q; CHECK_EQ(r8.hi, (uint8_t)(e8 >> 8)); CHECK_EQ(r8.lo, (uint8_t)e8);
    }
    c.nontrivial((x >> 64 && y >> 64) || (uint64_t)x + (uint64_t)y < (uint64_t)x);
}

PBT_PROP(conversions, 200000, 8000000, "construction, assignment and mixed operations from every integer type (negative values included) and demotion to every unsigned type; non-trivial if the value exceeds 64 bits") {
    u128 const x = gen(c); c.trace("x %s", hex(x).c_str());
    switch (c.draw(10)) {
    case 0: conv<bool>(c, x); break; case 1: conv<uint8_t>(c, x); break; case 2: conv<uint16_t>(c, x); break; case 3: conv<uint32_t>(c, x); break; case 4: conv<unsigned long>(c, x); break; case 5: conv<unsigned long long>(c, x); break;
    case 6: conv<int>(c, x); break; case 7: conv<long>(c, x); break; case 8: conv<int8_t>(c, x); break; case 9: conv<char>(c, x); break; default: conv<short>(c, x);
    }
    CHECK_EQ(sharemind::demote_integer<bool>(mk(x)), x != 0);
    demote<uint8_t>(x); demote<uint16_t>(x); demote<uint32_t>(x); demote<uint64_t>(x);
    uint64_t const v = (uint64_t)x;
    CHECK_EQ(sharemind::demote_integer<uint32_t>(v), (uint32_t)v); CHECK_EQ(sharemind::demote_integer<uint8_t>(v), (uint8_t)v); CHECK_EQ(sharemind::demote_integer<bool>(v), v != 0); CHECK_EQ(sharemind::demote_integer<bool>((uint8_t)v), (uint8_t)v != 0); CHECK_EQ(sharemind::demote_integer<uint8_t>((uint16_t)v), (uint8_t)v); CHECK_EQ(sharemind::demote_integer<int8_t>((int64_t)v), (int8_t)v); CHECK_EQ(sharemind::demote_integer<uint16_t>((int32_t)v), (uint16_t)v);
    c.nontrivial(x >> 64 != 0);
}

PBT_PROP(output, 100000, 4000000, "stream output under each base and case; non-trivial if the value exceeds 64 bits") {
    u128 const x = gen(c) >> c.draw(3) * 32; unsigned const b = (unsigned)c.draw(2); bool const up = c.coin(), pos = c.chance(1, 8);
    std::ostringstream o; o << (b == 0 ? std::dec : b == 1 ? std::oct : std::hex); if (up) o << std::uppercase; if (pos) o << std::showpos;
    o << "<" << mk(x) << ">"; std::string s = o.str();
    c.trace("x %s base %u upper %d pos %d: %s", hex(x).c_str(), b, up, pos, s.c_str());
    std::string const e = str(x, b == 0 ? 10 : b == 1 ? 8 : 16, up); CHECKM(s == "<" + e + ">" || (pos && s == "<+" + e + ">"), "got %s, expected %s", s.c_str(), e.c_str());
    c.nontrivial(x >> 64 != 0);
}
