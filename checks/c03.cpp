// C03: the LRU cache against a model of its strong and demoted entries.
#include <sharemind/LRU.h>
#include <list>
#include <map>
#include <string>
#include "pbt.h"
#include "newfail.h"

namespace {

// A key whose copies may throw and whose hashes collide.
struct Key {
    int v; std::shared_ptr<int> own; // detects dangling key references (ASan)
    static long throwAt, live;
    explicit Key(int v_) : v(v_), own(std::make_shared<int>(v_)) { ++live; }
    ~Key() { --live; }
    Key(Key const & o) : v((o.check(), o.v)) { if (throwAt >= 0 && throwAt-- == 0) throw pbt::Tracked::Boom{}; own = std::make_shared<int>(v); ++live; }
    Key(Key && o) noexcept : v(o.v), own(std::move(o.own)) { ++live; }
    Key & operator=(Key const &) = default;
    void check() const { CHECK(own && *own == v); }
    bool operator==(Key const & o) const { check(); o.check(); return v == o.v; }
};
long Key::throwAt = -1, Key::live = 0;

}
namespace std { template <> struct hash<Key> { size_t operator()(Key const & k) const noexcept { k.check(); return size_t(k.v % 3); } }; }
namespace {

template <typename K> struct Mk;
template <> struct Mk<int> { static int mk(int i) { return i; } };
template <> struct Mk<std::string> { static std::string mk(int i) { return "a fairly long key " + std::to_string(i); } };
template <> struct Mk<Key> { static Key mk(int i) { return Key(i); } };

struct Val : pbt::Tracked { using Tracked::Tracked; };

template <typename K> struct Tester {
    pbt::Ctx & c; size_t limit; int nkeys;
    std::unique_ptr<sharemind::LRU<K, Val>> lru;
    std::list<int> order;               // strong keys, most recent first
    std::map<int, int> strong, weak;    // key -> object id
    std::map<int, std::vector<std::shared_ptr<Val>>> ext; // object id -> external owners
    std::map<int, Val *> addr;
    int nextObj = 1; bool evicted = false, promoted = false, replaced = false;

    Tester(pbt::Ctx & c_, size_t l, int nk) : c(c_), limit(l), nkeys(nk), lru(new sharemind::LRU<K, Val>(l)) {}

    bool alive(int obj) const {
        if (!obj) return false;
        auto it = ext.find(obj);
        if (it != ext.end() && !it->second.empty()) return true;
        for (auto & kv : strong) if (kv.second == obj) return true;
        return false;
    }
    void settle() { // demote over-limit entries, forget the dead
        while (order.size() > limit) {
            int k = order.back(); order.pop_back();
            weak[k] = strong[k]; strong.erase(k); evicted = true;
        }
        forget();
    }
    void forget() { for (auto it = weak.begin(); it != weak.end();) if (alive(it->second)) ++it; else it = weak.erase(it); }
    void check() {
        // exactly the objects held by the cache or externally are alive
        long n = 0;
        for (auto & a : addr) {
            if (!alive(a.first)) continue;
            ++n; a.second->ok(); CHECK_EQ(a.second->v, a.first);
        }
        CHECK_EQ(Val::live, n);
        // and the cache holds exactly one share per strong entry
        for (auto & e : ext) if (!e.second.empty()) {
            long s = 0; for (auto & kv : strong) if (kv.second == e.first) ++s;
            CHECK_EQ(e.second[0].use_count(), (long)e.second.size() + s);
        }
    }
    void insert() {
        int const k = (int)c.draw(nkeys - 1);
        int obj; std::shared_ptr<Val> p;
        bool keep = c.coin();
        if (c.chance(1, 12)) { obj = 0; keep = false; c.label("null"); } // a null pointer is a value, too, but findable only as nothing
        else if (!ext.empty() && c.chance(1, 4)) { // an object already known outside
            std::vector<int> l; for (auto & e : ext) l.push_back(e.first);
            obj = c.pick(l); p = ext[obj][0]; keep = keep && ext[obj].size() < 3;
        } else { obj = nextObj++; p = c.coin() ? std::make_shared<Val>(obj) : std::shared_ptr<Val>(new Val(obj)); addr[obj] = p.get(); }
        if (keep) ext[obj].push_back(p);
        bool const present = strong.count(k) || weak.count(k);
        bool const failing = c.chance(1, 12);
        bool failed = false;
        K key(Mk<K>::mk(k));
        long const at = (long)c.draw(3), kat = c.chance(1, 2) ? (long)c.draw(1) : -1;
        try {
            if (failing) { Key::throwAt = kat; newfail::countdown = at; }
            lru->insert(std::move(key), std::move(p));
        } catch (std::bad_alloc const &) { failed = true; } catch (pbt::Tracked::Boom) { failed = true; }
        newfail::countdown = -1; Key::throwAt = -1;
        c.trace("insert(%d, obj %d)%s%s", k, obj, keep ? " kept outside" : "", failed ? " FAILED" : "");
        CHECK(!failed || failing);
        if (failed) { c.label("insert failed"); p.reset(); forget(); return; } // the cache is as before
        if (present) { replaced = true; order.remove(k); strong.erase(k); weak.erase(k); }
        order.push_front(k); strong[k] = obj;
        settle();
        // an insertion leaves no bookkeeping of dead entries behind
        if (std::is_same<K, Key>::value) CHECK(Key::live <= 1 + 2 * long(strong.size() + weak.size()));
    }
    void get() {
        int const k = (int)c.draw(nkeys); // one key is never inserted
        K const key(Mk<K>::mk(k));
        std::shared_ptr<Val> p;
        switch (c.draw(2)) {
        case 0: p = lru->get(key); break;
        case 1: { K k2(Mk<K>::mk(k)); p = lru->get(k2); CHECK(k2 == key); break; }
        default: p = lru->get(Mk<K>::mk(k));
        }
        c.trace("get(%d) -> %d", k, p ? p->v : -1);
        int want = 0;
        if (strong.count(k)) { want = strong[k]; order.remove(k); order.push_front(k); }
        else if (weak.count(k) && weak[k]) { want = weak[k]; weak.erase(k); strong[k] = want; order.push_front(k); promoted = true; }
        if (!want) { CHECK(!p); return; }
        CHECK(p != nullptr); CHECK(p.get() == addr[want]); CHECK_EQ(p->v, want);
        if (c.coin()) { ext[want].push_back(std::move(p)); settle(); }
        else { ext[want].push_back(p); settle(); ext[want].pop_back(); if (ext[want].empty()) ext.erase(want); p.reset(); forget(); }
    }
    void drop() {
        if (ext.empty()) return;
        std::vector<int> l; for (auto & e : ext) l.push_back(e.first);
        int const o = c.pick(l);
        c.trace("drop an outside owner of obj %d", o);
        ext[o].pop_back(); if (ext[o].empty()) ext.erase(o);
        forget();
    }
    void run(bool big) {
        unsigned const w = big ? (unsigned)c.draw(4) : 4;
        for (size_t n = 0; c.more(n, big ? 400 : 30, big ? 1500 : 300); ++n) {
            switch (c.weighted({6 + (big ? 6u : 0), 5, w, 1})) {
            case 0: insert(); break;
            case 1: get(); break;
            case 2: drop(); break;
            default: if (c.chance(1, 4)) { c.trace("clear"); lru->clear(); order.clear(); strong.clear(); weak.clear(); }
            }
            check();
        }
        // every key's fate
        if (c.coin()) for (int k = 0; k < nkeys; ++k) {
            int const want = strong.count(k) ? strong[k] : weak.count(k) ? weak[k] : 0; bool const in = want; if (strong.count(k)) { order.remove(k); order.push_front(k); }
            auto p = lru->get(Mk<K>::mk(k));
            CHECK_EQ(p != nullptr, in);
            if (in) {
                CHECK(p.get() == addr[want]);
                order.remove(k); weak.erase(k); strong[k] = want; order.push_front(k);
                ext[want].push_back(p); settle(); ext[want].pop_back(); if (ext[want].empty()) ext.erase(want); p.reset(); forget();
            }
            check();
        }
        if (c.coin()) ext.clear(), forget();
        check();
        lru.reset(); order.clear(); strong.clear(); weak.clear();
        check();
        ext.clear();
        CHECK_EQ(Val::live, 0); CHECK_EQ(Key::live, 0);
        if (evicted) c.label("evicted"); if (promoted) c.label("promoted back"); if (replaced) c.label("replaced");
        c.nontrivial(evicted && (promoted || replaced));
    }
};
}

static bool init = (pbt::options.checkLeaks = true);

PBT_PROP(history, 250000, 6000000, "random history of insert/get/clear/external release over a few keys; non-trivial if entries were pushed out of the limit and an entry was replaced or promoted back") {
    Val::live = 0; Key::live = 0; Val::throwAt = -1; Key::throwAt = -1;
    bool const big = c.chance(1, 150); // now and then a large cache with a long history
    size_t const limit = big ? 1 + c.draw(80) : 1 + c.weighted({5, 5, 4, 3, 2, 1});
    int const nk = 1 + (int)c.draw(big ? limit * 2 + 40 : limit + 4);
    c.trace("limit %zu, %d keys", limit, nk);
    switch (c.draw(2)) {
    case 0: Tester<int>(c, limit, nk).run(big); break;
    case 1: Tester<std::string>(c, limit, nk).run(big); break;
    default: Tester<Key>(c, limit, nk).run(big);
    }
}

// Caches of sizes which no small type can count.
PBT_PROP(large, 12, 300, "the cache overflows and an old entry was used again") {
    size_t const limit = c.pick<size_t>({200, 255, 256, 257, 300, 65535, 65536, 65600}), extra = c.draw(300), touched = c.draw(limit - 1); c.trace("limit %zu, %zu more entries, entry %zu used before", limit, extra, touched);
    sharemind::LRU<size_t, size_t> lru(limit);
    for (size_t i = 0; i < limit; ++i) lru.insert(i, std::make_shared<size_t>(i * 3));
    { auto const p = lru.get(touched); CHECK(p && *p == touched * 3); }
    for (size_t i = limit; i < limit + extra; ++i) lru.insert(i, std::make_shared<size_t>(i * 3));
    std::vector<size_t> age; for (size_t i = 0; i < limit; ++i) if (i != touched) age.push_back(i); // the order of leaving
    age.push_back(touched); for (size_t i = limit; i < limit + extra; ++i) age.push_back(i);
    std::vector<bool> gone(limit + extra); for (size_t i = 0; i < extra; ++i) gone[age[i]] = true;
    for (size_t i = 0; i < limit + extra; ++i) { auto const p = lru.get(i); CHECKM(!p == gone[i], "entry %zu is %s", i, p ? "still there" : "gone"); if (p) CHECK_EQ(*p, i * 3); }
    if (extra) c.nontrivial();
}
