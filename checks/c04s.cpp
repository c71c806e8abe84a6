// C04, concurrent part: identifiers handed out to several threads.
#include <sharemind/IdentifierPool.h>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
struct Shared { int inUse[256]; }; // oracle bookkeeping, only touched under Quiet
}

PBT_PROP(threads, 40000, 3000000, "2-3 threads reserve, move, release and destroy holders of one 8-bit pool, optionally nearly exhausted; non-trivial if at least two preemptions happened") {
    unsigned const nt = 2 + (unsigned)c.draw(1);
    unsigned const prefill = c.chance(1, 4) ? 256 - (unsigned)c.draw(3) : (unsigned)c.draw(3);
    int const freeBefore = 256 - (int)prefill;
    struct Op { unsigned kind, a, b; };
    std::vector<std::vector<Op>> prog(nt);
    for (auto & p : prog) { size_t n = 1 + c.draw(5); for (size_t i = 0; i < n; ++i) p.push_back(Op{c.weighted({4, 2, 2, 2}), (unsigned)c.draw(1), (unsigned)c.draw(1)}); }
    bool const poolFirst = c.coin();
    for (size_t t = 0; t < nt; ++t) { c.trace("thread %zu:", t); for (auto & o : prog[t]) c.trace("  %s %u %u", o.kind == 0 ? "reserve" : o.kind == 1 ? "release" : o.kind == 2 ? "move" : "destroy", o.a, o.b); }
    c.trace("prefill %u", prefill);
    Shared sh{}; int nUsed = 0;
    sched::run(c, [&] {
        using Pool = sharemind::IdentifierPool<uint8_t>;
        using H = Pool::IdHolder;
        std::unique_ptr<Pool> pool(new Pool());
        std::vector<H> pre;
        pre.reserve(256);
        for (unsigned i = 0; i < prefill; ++i) { pre.push_back(pool->reserve()); sched::Quiet q; ++sh.inUse[pre.back().id()]; ++nUsed; }
        auto take = [&](uint8_t id) { sched::Quiet q; ++nUsed; if (sh.inUse[id]++) pbt::fail("identifier %d handed out while in use", id); };
        auto give = [&](uint8_t id) { sched::Quiet q; --nUsed; if (--sh.inUse[id] != 0) pbt::fail("identifier %d was not in use", id); };
        auto body = [&](size_t t) {
            H slot[2]; bool held[2] = {false, false};
            auto drop = [&](unsigned i) { if (held[i]) { CHECK(slot[i].valid()); give(slot[i].id()); held[i] = false; } };
            for (auto & o : prog[t]) {
                switch (o.kind) {
                case 0: {
                    try {
                        H h(pool->reserve());
                        uint8_t const id = h.id();
                        take(id);
                        drop(o.a); slot[o.a] = std::move(h); held[o.a] = true;
                        CHECK(slot[o.a].valid()); CHECK(slot[o.a].id() == id);
                    } catch (Pool::ReserveException const &) {
                        sched::Quiet q;
                        // even with every thread holding its most, the pool could not be full
                        if (freeBefore > 3 * 3) pbt::fail("spurious exhaustion");
                    }
                    break; }
                case 1: drop(o.a); slot[o.a].release(); CHECK(!slot[o.a].valid()); break;
                case 2: if (o.a != o.b) { drop(o.a); slot[o.a] = std::move(slot[o.b]); held[o.a] = held[o.b]; held[o.b] = false; CHECK(!slot[o.b].valid()); CHECK(slot[o.a].valid() == held[o.a]); } break;
                default: { drop(o.a); H tmp(std::move(slot[o.a])); break; }
                }
            }
            drop(0); drop(1);
        };
        std::vector<std::thread> ts;
        for (size_t t = 1; t < nt; ++t) ts.emplace_back(body, t);
        body(0);
        for (auto & t : ts) t.join();
        // everything released by the threads is available again
        std::vector<H> rest;
        rest.reserve(256);
        for (int i = 0; i < freeBefore; ++i) { rest.push_back(pool->reserve()); take(rest.back().id()); }
        try { H h(pool->reserve()); pbt::fail("a full pool gave out identifier %d", h.id()); } catch (Pool::ReserveException const &) {}
        if (poolFirst) pool.reset();
        pre.clear(); rest.clear();
    });
    c.nontrivial(sched::switches() >= 2);
}
