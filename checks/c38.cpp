// C38: the microsecond clock over a system clock which returns generated times
// and fails when told to, against 128-bit arithmetic.
#include <sharemind/MicrosecondTime.h>
#include <cerrno>
#include <cstring>
#include <memory>
#include <string>
#include <sys/time.h>
#include <type_traits>
#include <vector>
#include "pbt.h"

namespace {
struct Reading { bool fails; time_t sec; suseconds_t usec; };
std::vector<Reading> script; size_t taken = 0; bool scripted = false;
}
extern "C" int __real_gettimeofday(struct timeval *, void *);
extern "C" int __wrap_gettimeofday(struct timeval * tv, void * tz) {
    if (!scripted) return __real_gettimeofday(tv, tz);
    if (tz || !tv || taken >= script.size()) { ++taken; errno = EINVAL; return -1; }
    Reading const & r = script[taken++];
    if (r.fails) { errno = EFAULT; return -1; }
    tv->tv_sec = r.sec; tv->tv_usec = r.usec; return 0;
}
namespace {
namespace sm = sharemind;
static_assert(std::is_same<sm::UsTime, uint_fast64_t>::value && noexcept(sm::getUsTime()) && noexcept(sm::getUsTime(1u)), "");
struct Big { std::string s; int copies; Big(std::string s_) : s(std::move(s_)), copies(0) {} Big(Big const & b) : s(b.s), copies(b.copies + 1) {} };
struct Base { int a; virtual ~Base() {} Base(int a_) : a(a_) {} }; struct Derived : Base { int b; Derived(int a_, int b_) : Base(a_), b(b_) {} };
enum class E { A, B };
struct Scripted { Scripted() { taken = 0; scripted = true; } ~Scripted() { scripted = false; script.clear(); } };

PBT_PROP(readings, 200000, 20000000, "a time of more than 2^32 microseconds, or a failure") {
    Scripted const guard; script.clear(); size_t const n = 1 + c.length(8, 3); bool nt = false;
    for (size_t i = 0; i < n; ++i) {
        Reading r; r.fails = c.chance(1, 4); int64_t const top = (int64_t)(UINT64_MAX / 1000000u) - 1;
        switch (c.draw(4)) { case 0: r.sec = (time_t)c.draw(5); break; case 1: r.sec = (time_t)c.bits(31); break; case 2: r.sec = (time_t)(((uint64_t)1 << c.draw(43)) - c.draw(1)); break; case 3: r.sec = (time_t)(top - (int64_t)c.draw(5)); break; default: r.sec = (time_t)(1600000000u + c.bits(28)); }
        switch (c.draw(3)) { case 0: r.usec = 0; break; case 1: r.usec = 999999 - (suseconds_t)c.draw(2); break; case 2: r.usec = (suseconds_t)c.draw(999999); break; default: r.usec = (suseconds_t)c.draw(3); }
        if (!r.fails && r.sec > 4294) nt = true; nt |= r.fails; c.trace("%lld.%06lld%s", (long long)r.sec, (long long)r.usec, r.fails ? " fails" : ""); script.push_back(r);
    }
    for (size_t i = 0; i < n; ++i) {
        Reading const r = script[i]; unsigned __int128 const want = (unsigned __int128)(uint64_t)r.sec * 1000000u + (uint64_t)r.usec;
        uint64_t const fall = c.coin() ? c.bits(64) : c.draw(2); unsigned const how = (unsigned)c.draw(6); uint64_t got = 0; bool threw = false;
        switch (how) {
        case 0: got = sm::getUsTime(); if (r.fails) CHECK_EQ(got, 0u); break;
        case 1: got = sm::getUsTime(fall); if (r.fails) CHECK_EQ(got, fall); break;
        case 2: try { got = sm::getUsTimeOrThrow(fall); } catch (uint64_t const e) { threw = true; CHECK_EQ(e, fall); } break;
        case 3: { Big const b(std::string((size_t)c.draw(40), 'x')); try { got = sm::getUsTimeOrThrow(b); } catch (Big const & e) { threw = true; CHECK(e.s == b.s); CHECK(&e != &b); } break; }
        case 4: try { got = sm::getUsTimeOrThrow(Derived(3, 4)); } catch (Derived const & e) { threw = true; CHECK(e.a == 3 && e.b == 4); } break;
        case 5: { Derived const d(5, 6); Base const & base = d; try { got = sm::getUsTimeOrThrow(std::ref(base)); } catch (std::reference_wrapper<Base const> const & e) { threw = true; CHECK(&e.get() == &base); } break; }
        default: try { got = sm::getUsTimeOrThrow(E::B); } catch (E const e) { threw = true; CHECK(e == E::B); }
        }
        CHECKM(taken == i + 1, "reading %zu called the system %zu times altogether", i, taken);
        CHECKM(threw == (r.fails && how > 1), "reading %zu: thrown %d, failing %d", i, (int)threw, (int)r.fails);
        if (!r.fails) CHECKM((unsigned __int128)got == want, "reading %zu: got %llu for %lld.%06lld", i, (unsigned long long)got, (long long)r.sec, (long long)r.usec);
    }
    c.nontrivial(nt);
}
PBT_PROP(reality, 20000, 500000, "every reading") {
    timeval a, b; __real_gettimeofday(&a, nullptr); uint64_t const got = c.coin() ? sm::getUsTime() : sm::getUsTimeOrThrow(1); __real_gettimeofday(&b, nullptr);
    uint64_t const x = (uint64_t)a.tv_sec * 1000000u + (uint64_t)a.tv_usec, y = (uint64_t)b.tv_sec * 1000000u + (uint64_t)b.tv_usec;
    if (x <= y) CHECKM(got >= x && got <= y, "%llu is not between %llu and %llu", (unsigned long long)got, (unsigned long long)x, (unsigned long long)y);
    c.nontrivial();
}
} // namespace
