// C08, concurrent part.
#include <sharemind/SharedResourceMap.h>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
struct Refused {};
struct Live { int n[3]; int created[3]; };
Live * L = nullptr;
struct Val {
    int key, payload;
    explicit Val(int k) : key(k), payload(k * 10) { sched::Quiet q; ++L->created[k]; if (++L->n[k] > 1) pbt::fail("two live objects for key %d", k); }
    ~Val() { payload = -1; sched::Quiet q; --L->n[key]; }
};
struct Op { unsigned kind, key, slot; };
}

PBT_PROP(threads, 250000, 5000000, "2-3 threads request, release, visit, measure and wait for emptiness on 1-2 keys, also destroying the map under their feet; non-trivial if at least two preemptions happened") {
    unsigned const nt = 2 + c.draw(1), keys = 1 + c.draw(1); bool const waiter = c.chance(1, 3), early = c.chance(1, 4);
    static char const * const nm[] = {"request", "release", "visit", "size", "request, construction throws", "copy", "visit and release"};
    std::vector<std::vector<Op>> prog(nt);
    for (unsigned t = 0; t < nt; ++t) { c.trace("thread %u:", t); size_t n = 1 + c.draw(4); for (size_t i = 0; i < n; ++i) { Op o{c.weighted({6, 4, 2, 1, 1, 1, 1}), (unsigned)c.draw(keys - 1), (unsigned)c.draw(1)}; prog[t].push_back(o); c.trace("  %s key %u slot %u", nm[o.kind], o.key, o.slot); } }
    if (waiter) c.trace("main waits for emptiness"); if (early) c.trace("users outlive the map");
    Live lv{}; L = &lv;
    sched::run(c, [&] {
        using Map = sharemind::SharedResourceMap<unsigned, Val>;
        std::unique_ptr<Map> map(new Map());
        std::vector<std::shared_ptr<Val>> leftovers(nt);
        auto body = [&](unsigned t) {
            std::shared_ptr<Val> slot[2];
            auto chk = [](std::shared_ptr<Val> const & p, unsigned key) { CHECK(p != nullptr); CHECK_EQ(p->key, (int)key); CHECK_EQ(p->payload, (int)key * 10); };
            for (auto & o : prog[t]) switch (o.kind) {
            case 0: {
                auto p(map->getResource(o.key, [](unsigned k) { return new Val((int)k); }));
                chk(p, o.key);
                for (auto & s : slot) if (s && s->key == (int)o.key) CHECK(s == p); // the very object while one is held
                slot[o.slot] = std::move(p);
                break; }
            case 1: slot[o.slot].reset(); break;
            case 2: { unsigned last = 0; bool first = true; map->forEach([&](unsigned k, std::shared_ptr<Val> p) { chk(p, k); CHECK(first || k != last); first = false; last = k; for (auto & s : slot) if (s && s->key == (int)k) CHECK(s == p); }); break; }
            case 6: { // a visitor which gives up its own references, and perhaps throws
                try { map->forEach([&](unsigned k, std::shared_ptr<Val> p) { chk(p, k); for (auto & s : slot) if (s && s->key == (int)k) s.reset(); p.reset(); if (o.slot) throw Refused{}; }); CHECK(!o.slot || (!slot[0] && !slot[1])); }
                catch (Refused) { CHECK(o.slot); }
                break; }
            case 3: { size_t const n = map->size(); CHECK(n <= keys); bool const e = map->empty(); if (slot[0] || slot[1]) { CHECK(n > 0); CHECK(!e); } break; }
            case 4: try { auto p(map->getResource(o.key, [](unsigned) -> Val * { throw Refused{}; })); chk(p, o.key); } catch (Refused) { for (auto & s : slot) CHECK(!s || s->key != (int)o.key); } break;
            default: slot[o.slot] = slot[1 - o.slot];
            }
            if (early) leftovers[t] = slot[0] ? slot[0] : slot[1];
        };
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < nt; ++t) ts.emplace_back(body, t);
        if (waiter && !early) map->waitForEmpty(); // returns: everybody releases everything in the end
        for (auto & t : ts) t.join();
        if (early) {
            // the last users race with the destruction of the map
            std::vector<std::thread> us;
            for (unsigned t = 1; t < nt; ++t) us.emplace_back([&, t] { auto p(std::move(leftovers[t])); if (p) CHECK_EQ(p->payload, p->key * 10); p.reset(); });
            map.reset();
            if (leftovers[0]) CHECK_EQ(leftovers[0]->payload, leftovers[0]->key * 10);
            leftovers[0].reset();
            for (auto & t : us) t.join();
        } else {
            map->waitForEmpty();
            CHECK(map->empty()); CHECK_EQ(map->size(), 0u);
            map->forEach([](unsigned, std::shared_ptr<Val>) { pbt::fail("an empty map has an element"); });
        }
        sched::Quiet q;
        for (int n : lv.n) if (n) pbt::fail("%d object(s) alive after the last user released it", n);
    });
    L = nullptr;
    c.nontrivial(sched::switches() >= 2);
}

PBT_PROP(emptiness, 60000, 1500000, "1-2 threads wait for emptiness while others share and release the last users of 1-3 objects; non-trivial if at least two preemptions happened") {
    unsigned const nk = 1 + c.draw(2), nw = 1 + c.draw(1), nt = 1 + c.draw(1); unsigned owner[3], copies[3];
    for (unsigned k = 0; k < nk; ++k) { owner[k] = c.draw(nt - 1); copies[k] = c.draw(2); c.trace("key %u: released by thread %u, %u", k, owner[k], copies[k]); } if (nw > 1) c.trace("two waiters");
    Live lv{}; L = &lv;
    sched::run(c, [&] {
        sharemind::SharedResourceMap<unsigned, Val> map; std::vector<std::shared_ptr<Val>> held(nk);
        for (unsigned k = 0; k < nk; ++k) held[k] = map.getResource(k, [](unsigned k) { return new Val((int)k); });
        std::vector<std::thread> ts;
        for (unsigned w = 0; w < nw; ++w) ts.emplace_back([&] { map.waitForEmpty(); { sched::Quiet q; for (int n : lv.n) if (n) pbt::fail("waiting for emptiness ended with a live object"); } CHECK(map.empty()); });
        for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            for (unsigned k = 0; k < nk; ++k) if (owner[k] == t) {
                std::shared_ptr<Val> p;
                if (copies[k] == 1) p = map.getResource(k, [](unsigned) -> Val * { pbt::fail("a live object was constructed again"); });
                if (copies[k] == 2) p = held[k];
                held[k].reset();
            }
        });
        for (auto & t : ts) t.join();
        CHECK_EQ(map.size(), 0u);
    });
    L = nullptr;
    c.nontrivial(sched::switches() >= 2);
}
