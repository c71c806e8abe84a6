// C08, sequential part: shared resource map against a model of live objects.
#include <sharemind/SharedResourceMap.h>
#include <map>
#include <string>
#include <vector>
#include "pbt.h"
#include "newfail.h"

namespace {
using pbt::Tracked;
struct Refused {};
struct Val : Tracked {
    int key, serial; std::string extra;
    static std::map<int, int> * livePerKey;
    static int nextSerial;
    Val() : Val(-1) {}
    explicit Val(int k, std::string e = "") : Tracked(k), key(k), serial(++nextSerial), extra(std::move(e)) { if (livePerKey && ++(*livePerKey)[k] > 1 && k >= 0) pbt::fail("two live objects for key %d", k); }
    Val(Val const &) = delete;
    ~Val() { if (livePerKey) --(*livePerKey)[key]; }
};
std::map<int, int> * Val::livePerKey = nullptr;
int Val::nextSerial = 0;

template <typename K> struct Mk;
template <> struct Mk<int> { static int mk(int i) { return i; } static int un(int k) { return k; } };
template <> struct Mk<std::string> { static std::string mk(int i) { return "resource with a long name " + std::to_string(i); } static int un(std::string const & s) { return std::stoi(s.substr(26)); } };

template <typename K> struct Tester {
    using Map = sharemind::SharedResourceMap<K, Val>;
    pbt::Ctx & c;
    std::unique_ptr<Map> map{new Map()};
    std::map<int, int> perKey; // live objects per key
    struct Live { int serial; Val * addr; std::vector<std::shared_ptr<Val>> users; };
    std::map<int, Live> live;         // in the map
    std::vector<Live> orphans;        // objects that outlived the map
    bool threw = false, reused = false, recreated = false; std::map<int, int> created;
    bool const big; // now and then there are many keys at once
    explicit Tester(pbt::Ctx & c_) : c(c_), big(c_.chance(1, 150)) { Val::livePerKey = &perKey; Val::nextSerial = 0; }
    ~Tester() { Val::livePerKey = nullptr; }

    void check() {
        long n = 0;
        for (auto & o : orphans) { ++n; o.addr->ok(); CHECK_EQ(o.addr->serial, o.serial); for (auto & u : o.users) CHECK(u.get() == o.addr); }
        for (auto & l : live) { ++n; l.second.addr->ok(); CHECK_EQ(l.second.addr->serial, l.second.serial); for (auto & u : l.second.users) { CHECK(u.get() == l.second.addr); CHECK_EQ(u.use_count(), (long)l.second.users.size()); } }
        CHECK_EQ(Val::live, n);
        if (!map) return;
        CHECK_EQ(map->size(), live.size()); CHECK_EQ(map->empty(), live.empty());
        if (live.empty()) map->waitForEmpty();
        if (c.chance(1, 4)) {
            std::map<int, Val *> seen; bool const keep = c.chance(1, 4); std::vector<std::shared_ptr<Val>> kept;
            map->forEach([&](K const & k, std::shared_ptr<Val> p) { CHECK(seen.emplace(Mk<K>::un(k), p.get()).second); if (keep) kept.push_back(std::move(p)); });
            CHECK_EQ(seen.size(), live.size());
            for (auto & l : live) CHECK(seen.at(l.first) == l.second.addr);
        }
    }
    void request() {
        int const k = (int)c.draw(big ? 99 : 4); bool const have = live.count(k); unsigned const how = c.draw(7); long const fail = c.chance(1, 10) ? (long)c.draw(6) : -1;
        std::shared_ptr<Val> p; bool failed = false, called = false;
        K key(Mk<K>::mk(k)); K const ckey(key);
        c.trace("request %d how %u%s", k, how, fail >= 0 ? " (allocation failure)" : "");
        try {
            newfail::countdown = fail;
            switch (how) {
            case 0: p = map->getResource(key, [&](K const & kk) { called = true; CHECK(kk == ckey); return new Val(k); }); break;
            case 1: p = map->getResource(ckey, [&](K const & kk) { called = true; CHECK(kk == ckey); return std::unique_ptr<Val>(new Val(k)); }); break;
            case 2: p = map->getResource(std::move(key), [&](K const & kk) { called = true; CHECK(kk == ckey); return std::make_shared<Val>(k); }); break;
            case 3: p = map->getResource(key, [&](K const &, int a, std::string const & s) { called = true; return std::make_shared<Val>(a, s); }, k, std::string("some extra argument text")); break;
            case 4: { auto const ctor = [&](K const &) -> Val * { called = true; throw Refused{}; }; p = map->getResource(key, ctor); break; }
            case 5: { auto ctor = [&, u = std::unique_ptr<int>(new int(k))](K const &) mutable { called = true; CHECK_EQ(*u, k); return new Val(*u); }; p = map->getResource(ckey, std::move(ctor)); break; }
            case 6: p = map->getResource(ckey, [&](K const &) { called = true; return std::shared_ptr<Val>(new Val(k), [](Val * v) { delete v; }); }); break;
            default: if (have) p = map->getResource(key); else p = map->getResource(key, [&](K const &) { called = true; return new Val(k); });
            }
        } catch (Refused) { failed = true; CHECK(how == 4); } catch (std::bad_alloc const &) { failed = true; CHECK(fail >= 0); }
        newfail::countdown = -1;
        if (failed) { threw = true; CHECK(!(have && how == 4 && fail < 0)); CHECK(!p); c.trace("  failed"); return; }
        CHECK(p != nullptr);
        if (have) { CHECK(!called); CHECK(p.get() == live[k].addr); reused = true; }
        else {
            if (how != 7) CHECK(called);
            CHECK(how != 4); CHECK_EQ(p->serial, Val::nextSerial); live[k] = Live{p->serial, p.get(), {}};
            if (how == 3) CHECK(p->extra == "some extra argument text");
            if (++created[k] > 1) recreated = true;
        }
        live[k].users.push_back(std::move(p));
    }
    void run() {
        for (size_t n = 0; c.more(n, big ? 200 : 25, big ? 600 : 200); ++n) {
            switch (c.weighted({6 + (big ? 20u : 0), 4, 2, 2, 1, 1})) {
            case 0: if (map) request(); break;
            case 1: { // release one user
                if (live.empty() && orphans.empty()) break;
                size_t i = c.draw(live.size() + orphans.size() - 1);
                if (i < live.size()) { auto it = live.begin(); std::advance(it, i); c.trace("release a user of %d", it->first);
                    if (it->second.users.size() == 1) { auto p = std::move(it->second.users.back()); live.erase(it); p.reset(); } else it->second.users.pop_back(); }
                else { i -= live.size(); c.trace("release a user of an orphan"); orphans[i].users.pop_back(); if (orphans[i].users.empty()) orphans.erase(orphans.begin() + i); }
                break; }
            case 2: { // copy a user
                if (live.empty()) break;
                auto it = live.begin(); std::advance(it, c.draw(live.size() - 1));
                if (it->second.users.size() < 5) it->second.users.push_back(it->second.users[0]);
                break; }
            case 3: { // release every user of a key
                if (live.empty()) break;
                auto it = live.begin(); std::advance(it, c.draw(live.size() - 1)); c.trace("release all of %d", it->first);
                auto l = std::move(it->second); live.erase(it); l.users.clear();
                break; }
            case 4: if (map && c.chance(1, 8)) { c.trace("destroy the map"); map.reset(); for (auto & l : live) { orphans.push_back(std::move(l.second)); perKey[l.first] = 0; } live.clear(); } break;
            default: if (map) { // a visitor that throws
                size_t vis = 0, stopAt = c.draw(3);
                try { map->forEach([&](K const &, std::shared_ptr<Val>) { if (vis++ == stopAt) throw Refused{}; }); CHECK_EQ(vis, live.size()); }
                catch (Refused) { CHECK(stopAt < live.size()); CHECK_EQ(vis, stopAt + 1); }
                }
            }
            check();
        }
        if (c.coin()) { c.trace("destroy the map"); map.reset(); for (auto & l : live) orphans.push_back(std::move(l.second)); live.clear(); check(); }
        while (!live.empty()) { auto l = std::move(live.begin()->second); live.erase(live.begin()); l.users.clear(); check(); }
        while (!orphans.empty()) { c.trace("release all users of an orphan"); orphans.pop_back(); check(); }
        CHECK_EQ(Val::live, 0);
        map.reset();
        if (threw) c.label("construction failed"); if (recreated) c.label("recreated");
        c.nontrivial(reused && recreated);
    }
};

// Default-constructed resources
struct Def { static long live; int v = 7; Def() { ++live; } ~Def() { --live; } Def(Def const &) = delete; };
long Def::live = 0;
}

static bool init = (pbt::options.checkLeaks = true, pbt::options.hangSeconds = 5, true);

PBT_PROP(history, 100000, 4000000, "random requests (all constructor forms, throwing, failing allocations), releases, visits and map destruction; non-trivial if a live object was shared and an object was created again after its death") {
    Val::live = 0; Val::throwAt = -1;
    if (c.coin()) Tester<int>(c).run(); else Tester<std::string>(c).run();
}
PBT_PROP(defaults, 10000, 300000, "default-constructed resources; non-trivial if at least two users shared one") {
    sharemind::SharedResourceMap<int, Def> m;
    std::map<int, std::vector<std::shared_ptr<Def>>> u; bool shared = false;
    for (size_t n = 0; c.more(n, 12, 60); ++n) {
        int const k = (int)c.draw(2);
        if (c.chance(2, 3)) { auto p = m.getResource(k); CHECK(p && p->v == 7); if (!u[k].empty()) { CHECK(p == u[k][0]); shared = true; } u[k].push_back(p); }
        else if (!u[k].empty()) u[k].pop_back();
        size_t n2 = 0; for (auto & x : u) n2 += !x.second.empty();
        CHECK_EQ(m.size(), n2); CHECK_EQ(Def::live, (long)n2); CHECK_EQ(m.empty(), n2 == 0);
    }
    u.clear(); CHECK_EQ(Def::live, 0); CHECK(m.empty());
    c.nontrivial(shared);
}

PBT_PROP(large, 12, 300, "more than 255 resources are alive") {
    size_t const n = c.pick<size_t>({100, 255, 256, 257, 65535, 65536, 65700}), drop = c.draw(n); c.trace("%zu keys, %zu released", n, drop);
    sharemind::SharedResourceMap<size_t, size_t> map; std::vector<std::shared_ptr<size_t>> v;
    for (size_t i = 0; i < n; ++i) { v.push_back(map.getResource(i, [](size_t k) { return std::make_shared<size_t>(k * 7); })); CHECK_EQ(map.size(), i + 1); CHECK(!map.empty()); }
    for (size_t i = 0; i < n; ++i) CHECK(map.getResource(i) == v[i]);
    for (size_t i = 0; i < drop; ++i) { v[i].reset(); CHECK_EQ(map.size(), n - i - 1); CHECK_EQ(map.empty(), i + 1 == n); }
    size_t seen = 0; map.forEach([&](size_t k, std::shared_ptr<size_t> p) { CHECK(k >= drop && k < n && p == v[k]); CHECK_EQ(*p, k * 7); ++seen; }); CHECK_EQ(seen, n - drop);
    v.clear(); map.waitForEmpty(); CHECK(map.empty()); if (n > 255) c.nontrivial();
}
