// C19: concurrent histories of atomic flags are linearizable.
#include <sharemind/AtomicFlags.h>
#include <set>
#include <thread>
#include "ctl.h"

namespace {
namespace sm = sharemind;
struct Op { unsigned kind; uint8_t x, e; uint8_t result; bool ok; uint64_t from, to; };
// The specification: whether the operation may give its result in state s; changes s.
bool apply(Op const & o, uint8_t & s) {
    uint8_t const old = s;
    switch (o.kind) {
    case 0: return o.result == s;
    case 1: s = o.x; return true;
    case 2: s = o.x; return o.result == old;
    case 3: s = 0xff; return true;
    case 4: s = 0xff; return o.result == old;
    case 5: s |= o.x; return o.result == old;
    case 6: s = 0; return true;
    case 7: s = 0; return o.result == old;
    case 8: s = (uint8_t)(s & ~o.x); return o.result == old;
    case 9: s ^= o.x; return o.result == old;
    case 10: if (o.ok) { s = o.x; return old == o.e; } return old != o.e && o.result == old;
    case 11: if (o.ok) { s = o.x; return old == o.e; } return o.result == old; // may fail spuriously
    case 12: return o.ok == ((s & o.x) != 0);
    case 13: return o.ok == ((s & o.x) == o.x);
    case 14: return o.ok == ((s & o.x) == 0);
    default: return o.ok == ((s & o.x) == o.e);
    }
}
using H = std::vector<std::vector<Op>>;
bool linearizable(H const & h, std::vector<size_t> pos, uint8_t s, uint8_t last, std::set<std::pair<std::vector<size_t>, uint8_t>> & seen) {
    if (!seen.insert({pos, s}).second) return false;
    bool done = true; uint64_t firstEnd = UINT64_MAX; for (size_t t = 0; t < h.size(); ++t) if (pos[t] < h[t].size()) { done = false; firstEnd = std::min(firstEnd, h[t][pos[t]].to); }
    if (done) return s == last;
    for (size_t t = 0; t < h.size(); ++t) { if (pos[t] >= h[t].size() || h[t][pos[t]].from > firstEnd) continue; uint8_t n = s; if (!apply(h[t][pos[t]], n)) continue; auto p = pos; ++p[t]; if (linearizable(h, std::move(p), n, last, seen)) return true; }
    return false;
}
}
PBT_PROP(linearizable, 60000, 2000000, "at least two threads with two operations each and a preemption") {
    size_t const threads = 2 + c.draw(1); H h(threads); uint8_t const init = (uint8_t)c.bits(8); size_t total = 0;
    for (auto & t : h) { size_t const n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) { Op o{}; o.kind = (unsigned)c.draw(15); o.x = (uint8_t)(c.coin() ? 1u << c.draw(3) : c.bits(4)); o.e = (uint8_t)(c.coin() ? init : c.bits(4)); t.push_back(o); ++total; } }
    c.trace("%zu threads, initially %x", threads, init); for (size_t t = 0; t < threads; ++t) for (auto & o : h[t]) c.trace("thread %zu: op %u %x %x", t, o.kind, o.x, o.e);
    uint8_t last = 0; uint64_t clock = 0; std::vector<uint64_t *> stamps; bool const retry = c.coin();
    auto const tick = [&clock] { sched::Quiet q; return ++clock; };
    sched::run(c, [&] {
        sm::AtomicFlags<uint8_t> a(init); std::vector<std::thread> ts;
        for (size_t t = 0; t < threads; ++t) ts.emplace_back([&, t] {
            for (auto & o : h[t]) {
                o.from = tick(); sm::Flags<uint8_t> r((uint8_t)0); sm::Flags<uint8_t> e(o.e); uint8_t u = o.e;
                switch (o.kind) {
                case 0: r = a.load(); break; case 1: a.store(o.x); break; case 2: r = a.exchange(o.x); break; case 3: a.setFlags(); break; case 4: r = a.fetchSetFlags(); break; case 5: r = a.fetchSetFlags(o.x); break; case 6: a.unsetFlags(); break; case 7: r = a.fetchUnsetFlags(); break; case 8: r = a.fetchUnsetFlags(o.x); break; case 9: r = a.fetchToggleFlags(o.x); break;
                case 10: if (retry) { o.ok = a.compareExchangeStrong(e, o.x); r = e; } else { o.ok = a.compareExchangeStrong(u, o.x); r = u; } break;
                case 11: if (retry) { o.ok = a.compareExchangeWeak(e, o.x); r = e; } else { o.ok = a.compareExchangeWeak(u, o.x, std::memory_order_seq_cst, std::memory_order_acquire); r = u; } break;
                case 12: o.ok = a.hasAnyOf(o.x); break; case 13: o.ok = a.hasAllOf(o.x); break; case 14: o.ok = a.hasNoneOf(o.x); break; default: o.ok = a.has(o.e, o.x);
                }
                o.result = r.load(); o.to = tick();
            }
        });
        for (auto & t : ts) t.join();
        last = a.load();
    });
    std::set<std::pair<std::vector<size_t>, uint8_t>> seen;
    if (!linearizable(h, std::vector<size_t>(threads, 0), init, last, seen)) { for (size_t t = 0; t < threads; ++t) for (auto & o : h[t]) c.trace("thread %zu: op %u %x %x -> %x %d [%llu, %llu]", t, o.kind, o.x, o.e, o.result, o.ok, (unsigned long long)o.from, (unsigned long long)o.to); pbt::fail("no order of the operations explains their results (final state %x)", last); }
    size_t multi = 0; for (auto & t : h) multi += t.size() >= 2; if (multi >= 2 && sched::switches() > 0) c.nontrivial();
}
PBT_PROP(publishes, 20000, 500000, "a preemption") { // what one thread wrote before setting a flag is visible to the one that sees it
    unsigned const how = (unsigned)c.draw(4), see = (unsigned)c.draw(4); c.trace("set by %u, seen by %u", how, see);
    sched::run(c, [&] {
        sm::AtomicFlags<uint8_t> a((uint8_t)2); int data = 0;
        std::thread t([&] { data = 42; switch (how) { case 0: a.store(3); break; case 1: a.exchange(3); break; case 2: a.setFlags(); break; case 3: a.fetchSetFlags(1); break; default: a.fetchToggleFlags(1); } });
        for (;;) { bool s; switch (see) { case 0: s = a.hasAnyOf(1); break; case 1: s = a.hasAllOf(1); break; case 2: s = !a.hasNoneOf(1); break; case 3: s = a.load() & 1; break; default: s = a.fetchSetFlags(4) & 1; } if (s) break; sched::yield(); }
        CHECK(data == 42); t.join();
    });
    if (sched::switches() > 0) c.nontrivial();
}
