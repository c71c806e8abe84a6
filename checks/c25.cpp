// C25: intrusive sets of shared items against a map, with an account of the
// owners of every item.
#include <sharemind/IntrusiveUnorderedSharedItemSet.h>
#include <map>
#include <memory>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind; namespace bi = boost::intrusive;

struct Boom {};
long throwIn = -1; // key operations until one throws, -1: never
void keyOp() { if (throwIn >= 0 && throwIn-- == 0) throw Boom(); }
std::vector<int> died;
unsigned hashMod = 1;
struct Item: sm::IntrusiveUnorderedSharedItemSetItemBase<Item> {
    int id, key; pbt::Tracked t;
    Item(int id_, int key_) : id(id_), key(key_), t(key_) {}
    Item(Item const & o, int id_) : sm::IntrusiveUnorderedSharedItemSetItemBase<Item>(o), id(id_), key(o.key), t(o.t) {}
    Item & operator=(Item const & o) { sm::IntrusiveUnorderedSharedItemSetItemBase<Item>::operator=(o); t = o.t; return *this; } // keeps its identity; the keys are equal
    ~Item() noexcept override { t.ok(); ++died[(size_t)id]; }
};
bool operator==(Item const & a, Item const & b) { a.t.ok(); b.t.ok(); keyOp(); return a.key == b.key; }
std::size_t hash_value(Item const & i) { i.t.ok(); keyOp(); return (unsigned)i.key % hashMod; }
struct KeyHash { std::size_t operator()(int k) const { keyOp(); return (unsigned)k % hashMod; } };
struct KeyEq { bool operator()(int k, Item const & i) const { keyOp(); i.t.ok(); return k == i.key; } bool operator()(Item const & i, int k) const { return (*this)(k, i); } };
struct ItemHash { std::size_t operator()(Item const & i) const { return hash_value(i); } };

struct Ref { int id; std::shared_ptr<Item> p; };
template <typename Set> struct Run {
    pbt::Ctx & c; std::unique_ptr<Set> s[2]; std::map<int, int> m[2]; std::vector<Ref> h; std::vector<Item *> items; size_t refused = 0, removed = 0, ops = 0, thrown = 0, onlySet = 0, buckets;
    explicit Run(pbt::Ctx & c_) : c(c_) { died.clear(); hashMod = (unsigned)c.pick({1, 2, 7, 1000000}); buckets = (size_t)c.pick({1, 2, 16, 128}); for (auto & x : s) x = fresh(); }
    std::unique_ptr<Set> fresh() { return c.coin() ? std::make_unique<Set>(buckets) : std::make_unique<Set>(); }
    int in(int id) const { for (int k = 0; k < 2; ++k) { auto it = m[k].find(items[id] ? keyOf[id] : -1); if (it != m[k].end() && it->second == id) return k; } return -1; }
    std::vector<int> keyOf;
    long owners(int id) const { long n = 0; for (auto const & x : h) n += x.id == id; return n + (in(id) >= 0); }
    void verify() {
        for (size_t i = 0; i < items.size(); ++i) CHECKM(died[i] == (owners((int)i) ? 0 : 1), "item %zu with %ld owners was destroyed %d times", i, owners((int)i), died[i]);
        for (auto const & x : h) CHECKM(x.p.use_count() == owners(x.id), "item %d has %ld owners, expected %ld", x.id, x.p.use_count(), owners(x.id));
        for (int k = 0; k < 2; ++k) {
            Set & q = *s[k]; Set const & cq = q; CHECK_EQ(q.size(), m[k].size()); CHECK_EQ(q.empty(), m[k].empty());
            std::map<int, int> seen; for (auto & i : q) { CHECK(seen.emplace(i.key, i.id).second); CHECK(&*q.iteratorTo(i) == &i); CHECK(Set::retrieveSharedPtr(i).get() == &i); CHECK_EQ(Set::retrieveSharedPtr(i).use_count(), owners(i.id) + 1); }
            CHECK(seen == m[k]); size_t n = 0; for (auto it = cq.begin(); it != cq.end(); ++it) { ++n; CHECK(&*cq.iteratorTo(*it) == &*it); CHECK(Set::retrieveSharedPtr(it).get() == &*it); } CHECK_EQ(n, seen.size()); n = 0; for (auto it = q.cbegin(); it != q.cend(); ++it) ++n; CHECK_EQ(n, seen.size());
            for (int key = 0; key < 12; ++key) { auto e = m[k].find(key); auto * f = q.find(key, KeyHash(), KeyEq()); auto const * cf = cq.find(key, KeyHash(), KeyEq()); CHECK(f == cf); CHECK(f == (e == m[k].end() ? nullptr : items[e->second])); }
        }
        for (auto const & x : h) if (in(x.id) < 0) CHECKM(!Set::retrieveSharedPtr(item(x.p)), "item %d which is not in a set owns itself", x.id);
    }
    static typename Set::ValueType & item(std::shared_ptr<Item> const & p) { return static_cast<typename Set::ValueType &>(*p); }
    static std::shared_ptr<typename Set::ValueType> ptr(std::shared_ptr<Item> const & p) { return std::static_pointer_cast<typename Set::ValueType>(p); }
    int pickHandle() { return h.empty() ? -1 : (int)c.draw(h.size() - 1); }
    // An iterator to some element:
    typename Set::Iterator some(int k) { auto it = s[k]->begin(); for (size_t n = c.draw(s[k]->size() - 1); n--;) ++it; return it; }
    template <typename F> bool maybeThrowing(F && f) { // whether f was completed
        if (c.chance(1, 6)) throwIn = (long)c.draw(3);
        try { f(); } catch (Boom const &) { throwIn = -1; ++thrown; c.trace("... threw"); return false; }
        throwIn = -1; return true;
    }
    void step() {
        int const k = (int)c.draw(1); Set & q = *s[k]; auto & mk = m[k]; ++ops;
        switch (c.weighted({4, 8, 3, 2, 2, 2, 2, 2, 3, 2, 1, 1})) {
        case 0: { int const id = (int)items.size(), key = (int)c.draw(11); c.trace("item %d of key %d", id, key); died.push_back(0); auto p = std::make_shared<typename Set::ValueType>(id, key); items.push_back(p.get()); keyOf.push_back(key); h.push_back({id, std::move(p)}); break; }
        case 1: { int const i = pickHandle(); if (i < 0) break; int const id = h[i].id, at = in(id); if (at >= 0 && at != k) break; // it can be in one set only
                  bool const give = c.coin() && h.size() > 0; c.trace("insert %d into %d%s", id, k, give ? " (giving up the own pointer)" : ""); auto p = ptr(h[i].p); Item * const raw = p.get(); auto const e = mk.find(keyOf[id]);
                  std::pair<typename Set::Iterator, bool> r; if (give) h.erase(h.begin() + i);
                  if (maybeThrowing([&] { r = q.insert(std::move(p)); })) { CHECK_EQ(r.second, e == mk.end()); CHECK(&*r.first == (e == mk.end() ? raw : items[e->second])); refused += !r.second; if (r.second) { mk.emplace(keyOf[id], id); onlySet += owners(id) == 1; } }
                  p.reset(); break; }
        case 2: { if (mk.empty()) break; auto it = some(k); int const id = it->id; c.trace("erase iterator at %d", id); if (c.coin()) q.erase(it); else q.erase(typename Set::ConstIterator(it)); mk.erase(keyOf[id]); ++removed; break; }
        case 3: { if (mk.empty()) break; auto it = some(k); int const id = it->id; size_t n = 0; c.trace("erase reference to %d", id); if (maybeThrowing([&] { n = q.erase(static_cast<typename Set::ValueType const &>(*it)); })) { CHECK_EQ(n, 1u); mk.erase(keyOf[id]); ++removed; } break; }
        case 4: { int const i = pickHandle(); if (i < 0) break; int const key = keyOf[h[i].id]; size_t n = 0; c.trace("erase what equals %d", h[i].id); if (maybeThrowing([&] { n = q.erase(static_cast<typename Set::ValueType const &>(item(h[i].p))); })) { CHECK_EQ(n, mk.count(key)); removed += n; mk.erase(key); } break; }
        case 5: { if (mk.empty()) break; auto it = some(k); int const id = it->id; Item * raw = &*it; c.trace("take iterator at %d", id); auto p = q.take(it); CHECK(p.get() == raw); mk.erase(keyOf[id]); ++removed; h.push_back({id, std::move(p)}); break; }
        case 6: { if (mk.empty()) break; auto it = some(k); int const id = it->id; auto & r = *it; c.trace("take reference to %d", id); std::shared_ptr<Item> p; if (maybeThrowing([&] { p = q.take(r); })) { CHECK(p.get() == &r); mk.erase(keyOf[id]); ++removed; h.push_back({id, std::move(p)}); } break; }
        case 7: { if (mk.empty()) break; auto it = some(k); int const id = it->id; auto p = c.coin() ? Set::retrieveSharedPtr(it) : Set::retrieveSharedPtr(*it); CHECK(p.get() == &*it); h.push_back({id, std::move(p)}); break; }
        case 8: { int const i = pickHandle(); if (i < 0) break; c.trace("drop a pointer to %d", h[i].id); h.erase(h.begin() + i); break; }
        case 9: { int const i = pickHandle(), j = pickHandle(); if (i < 0) break; int const a = h[i].id, b = h[j].id;
                  if (keyOf[a] == keyOf[b]) { c.trace("assign %d to %d", a, b); item(h[j].p) = item(h[i].p); } // whether in a set or not
                  else { int const id = (int)items.size(); c.trace("copy %d to %d", a, id); died.push_back(0); auto p = std::make_shared<typename Set::ValueType>(static_cast<Item const &>(*h[i].p), id); items.push_back(p.get()); keyOf.push_back(keyOf[a]); h.push_back({id, std::move(p)}); }
                  break; }
        case 10: { c.trace("destroy set %d", k); removed += mk.size(); mk.clear(); s[k].reset(); s[k] = fresh(); break; }
        default: { c.trace("erase everything of odd ids"); for (auto it = q.begin(); it != q.end();) { auto const e = it++; if (e->id & 1) { mk.erase(e->key); ++removed; q.erase(e); } } }
        }
        verify();
    }
};
template <typename Set> void history(pbt::Ctx & c) {
    long const live0 = pbt::Tracked::live; { Run<Set> r(c); size_t n = 0; while (c.more(n, 30, 120)) { ++n; r.step(); }
    if (r.refused && r.removed >= 2 && r.onlySet) c.nontrivial(); if (r.thrown) c.label("a key operation threw");
    if (c.coin()) { r.h.clear(); r.verify(); } for (int k = 0; k < 2; ++k) { r.m[k].clear(); r.s[k].reset(); r.s[k] = r.fresh(); r.verify(); } r.h.clear(); r.verify(); }
    CHECK_EQ(pbt::Tracked::live, live0);
}
PBT_PROP(itemSets, 40000, 600000, "a refused duplicate, removals, and items owned by a set only") {
    switch (c.draw(4)) {
    case 0: history<sm::IntrusiveUnorderedSharedItemSet<Item>>(c); break;
    case 1: history<sm::IntrusiveUnorderedSharedItemSet<Item, bi::hash<ItemHash>, bi::compare_hash<true>>>(c); break;
    case 2: history<sm::IntrusiveUnorderedSharedItemSet<Item, bi::constant_time_size<false>, bi::power_2_buckets<false>>>(c); break;
    case 3: history<sm::IntrusiveUnorderedSharedItemSet<Item, bi::hash<ItemHash>>>(c); break;
    default: history<sm::IntrusiveUnorderedSharedItemSet<Item, bi::equal<std::equal_to<Item>>, bi::hash<ItemHash>>>(c); }
}
PBT_PROP(largeSets, 12, 300, "more than 255 items") {
    throwIn = -1; size_t const n = c.pick<size_t>({100, 255, 256, 257, 65535, 65536, 65700}), drop = c.draw(n); died.assign(n, 0); hashMod = 1000000; c.trace("%zu items, %zu erased", n, drop);
    { sm::IntrusiveUnorderedSharedItemSet<Item> s(4096); for (size_t i = 0; i < n; ++i) { CHECK(s.insert(std::make_shared<Item>((int)i, (int)i)).second); CHECK_EQ(s.size(), i + 1); }
    for (size_t i = 0; i < drop; ++i) { auto * p = s.find((int)i, KeyHash(), KeyEq()); CHECK(p && p->id == (int)i); s.erase(s.iteratorTo(*p)); CHECK_EQ(died[i], 1); CHECK_EQ(s.size(), n - i - 1); }
    size_t seen = 0; for (auto & x : s) { CHECK((size_t)x.id >= drop); ++seen; } CHECK_EQ(seen, n - drop); for (size_t i = 0; i < n; ++i) CHECK_EQ(died[i], i < drop); }
    for (size_t i = 0; i < n; ++i) CHECK_EQ(died[i], 1);
    if (n > 255) c.nontrivial();
}
}
static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;
