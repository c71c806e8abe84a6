// C30: unordered maps against std::map for every history and lookup form, and
// string hashing over all string forms.
#include <sharemind/SimpleUnorderedStringMap.h>
#include <sharemind/StringHashTablePredicate.h>
#include <sharemind/UnorderedMap.h>
#include <boost/range/iterator_range.hpp>
#include <forward_list>
#include <list>
#include <map>
#include <array>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "newfail.h"
#include "pbt.h"

namespace {
namespace sm = sharemind;
using pbt::Ctx; using pbt::Tracked;
struct Boom {};
long throwIn = -1;
void keyOp() { if (throwIn >= 0 && throwIn-- == 0) throw Boom(); }
struct Key { int id; Tracked t; explicit Key(int i) : id(i), t(i) {} };
bool plainEq = true; // whether the map may compare keys by ==
bool operator==(Key const & a, Key const & b) { if (!plainEq) pbt::fail("keys are compared by ==, not by the predicate of the map"); a.t.ok(); b.t.ok(); return a.id == b.id; }
struct Other { int id; };   // hashable like the key
struct NoHash { int id; };  // comparable only
std::set<int> tags; // of the predicates which were given to a map in use
struct Eq { using is_transparent = void; int tag = 0;
    void known() const { if (!tags.empty() && !tags.count(tag)) pbt::fail("keys are compared by a predicate which was never given to the map"); }
    bool operator()(Key const & a, Key const & b) const { known(); keyOp(); a.t.ok(); b.t.ok(); return a.id == b.id; }
    bool operator()(Key const & a, Other const & b) const { known(); keyOp(); a.t.ok(); return a.id == b.id; }
    bool operator()(Key const & a, NoHash const & b) const { known(); keyOp(); a.t.ok(); return a.id == b.id; } };
struct Hash { unsigned mod = 1000000; using transparent_key_equal = Eq;
    std::size_t operator()(Key const & k) const { keyOp(); k.t.ok(); return (unsigned)k.id % mod; }
    std::size_t operator()(Other const & k) const { keyOp(); return (unsigned)k.id % mod; } };
struct PlainHash { unsigned mod = 1000000; std::size_t operator()(Key const & k) const { keyOp(); k.t.ok(); return (unsigned)k.id % mod; } };
std::map<int, long> inUse; // allocator to bytes
enum : unsigned { Copy = 1, Move = 2, Swap = 4, Select = 8 }; // what propagates the allocator
template <typename T, unsigned prop> struct Alloc {
    using value_type = T; using pointer = T *; using const_pointer = T const *; using reference = T &; using const_reference = T const &; using size_type = size_t; using difference_type = ptrdiff_t;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (prop & Copy) != 0>; using propagate_on_container_move_assignment = std::integral_constant<bool, (prop & Move) != 0>; using propagate_on_container_swap = std::integral_constant<bool, (prop & Swap) != 0>; using is_always_equal = std::false_type;
    template <typename U> struct rebind { using other = Alloc<U, prop>; };
    int id; explicit Alloc(int i = 0) : id(i) {} template <typename U> Alloc(Alloc<U, prop> const & o) : id(o.id) {}
    T * allocate(size_t n) { long & used = inUse[id]; auto * p = (T *)::operator new(n * sizeof(T)); used += (long)(n * sizeof(T)); return p; }
    void deallocate(T * p, size_t n) { inUse[id] -= (long)(n * sizeof(T)); ::operator delete(p); }
    Alloc select_on_container_copy_construction() const { return Alloc(prop & Select ? id : id + 100); }
};
template <typename A, typename B, unsigned p> bool operator==(Alloc<A, p> const & a, Alloc<B, p> const & b) { return a.id == b.id; }
template <typename A, typename B, unsigned p> bool operator!=(Alloc<A, p> const & a, Alloc<B, p> const & b) { return a.id != b.id; }
struct NoAllocId {};
struct HashPred { int id; unsigned mod; std::size_t hash() const { return (unsigned)id % mod; } bool operator()(Key const & k) const { return k.id == id; } };

template <typename M> struct Run {
    using V = typename M::value_type; using A = typename M::allocator_type; enum { transparent = std::is_same<typename M::hasher, Hash>::value };
    struct Ent { int v; void const * at; };
    Ctx & c; std::unique_ptr<M> s[2]; std::map<int, Ent> m[2]; unsigned mod[2]; int al[2] = {0, 0}, tag[2] = {1, 2}; float mlf[2] = {1, 1}; size_t hits = 0, removed = 0, collisions = 0, copies = 0, thrown = 0; std::vector<Key> keys;
    static typename M::hasher hasher(unsigned mod) { typename M::hasher h; h.mod = mod; return h; }
    static Eq mkEq(int t, Eq *) { Eq e; e.tag = t; return e; } template <typename E> static E mkEq(int, E *) { return {}; } static int tagOf(Eq const & e) { return e.tag; } template <typename E> static int tagOf(E const &) { return -1; }
    static typename M::key_equal eq(int t) { return mkEq(t, (typename M::key_equal *)nullptr); }
    template <unsigned p> static Alloc<V, p> mk(int id, Alloc<V, p> *) { return Alloc<V, p>(id); } static std::allocator<V> mk(int, std::allocator<V> *) { return {}; }
    template <unsigned p> static int idOf(Alloc<V, p> const & a) { return a.id; } static int idOf(std::allocator<V> const &) { return 0; }
    template <unsigned p> static unsigned prop(Alloc<V, p> *) { return p; } static unsigned prop(std::allocator<V> *) { return 16; }
    static A alloc(int id) { return mk(id, (A *)nullptr); } static unsigned prop() { return prop((A *)nullptr); } static int norm(int id) { return prop() == 16 ? 0 : id; }
    static int sel(int id) { return prop() & (Select | 16) ? id : id + 100; }
    explicit Run(Ctx & c_) : c(c_) { throwIn = -1; inUse.clear(); tags.clear(); plainEq = !std::is_same<typename M::key_equal, Eq>::value; for (int i = 0; i < 14; ++i) keys.emplace_back(i); for (int k = 0; k < 2; ++k) fresh(k); }
    unsigned newMod() { return (unsigned)c.pick({1, 3, 1000000}); }
    void fresh(int k) { m[k].clear(); mod[k] = newMod(); al[k] = norm(k); tag[k] = 1 + (int)c.draw(5); mlf[k] = 1; s[k] = std::make_unique<M>((size_t)c.pick({0, 1, 5, 64}), hasher(mod[k]), eq(tag[k]), alloc(al[k])); }
    template <typename It> int adopt(int k, It it) { m[k][it->first.id] = {it->second.v, &*it}; return 0; }
    void adoptAll(int k) { m[k].clear(); for (auto & x : *s[k]) { CHECKM(!m[k].count(x.first.id), "key %d occurs twice", x.first.id); m[k][x.first.id] = {x.second.v, &x}; } }
    // After a copy: the same values under new addresses.
    void readdress(int k) { for (auto & x : *s[k]) { auto it = m[k].find(x.first.id); CHECKM(it != m[k].end(), "unexpected key %d", x.first.id); it->second.at = &x; for (auto & o : m[!k]) CHECKM(o.second.at != &x, "the maps share the entry of key %d", x.first.id); } }
    template <typename S, typename It, typename F> void form(int k, int id, S & q, It end, char const * name, F f) {
        auto const it = f(q); auto e = m[k].find(id);
        CHECKM((it != end) == (e != m[k].end()), "lookup of %d by %s %s it in map %d", id, name, it != end ? "found" : "did not find", k);
        if (it != end) { CHECKM((void const *)&*it == e->second.at, "lookup of %d by %s found another entry (key %d)", id, name, it->first.id); CHECK_EQ(it->second.v, e->second.v); }
    }
    template <typename S, typename K> void transparentForms(int k, S & q, K const & key, char const * name, std::true_type) {
        form(k, key.id, q, q.end(), name, [&](S & x) { return x.find(key); }); CHECK_EQ(q.contains(key), m[k].count(key.id) == 1); CHECK_EQ(q.count(key), m[k].count(key.id));
        auto const r = q.equal_range(key); CHECK_EQ((size_t)std::distance(r.first, r.second), m[k].count(key.id));
    }
    template <typename S, typename K> void transparentForms(int, S &, K const &, char const *, std::false_type) {}
    template <typename S> void lookups(int k, S & q) {
        using T = std::integral_constant<bool, transparent>;
        for (int id = 0; id < 14; ++id) {
            Key const & key = keys[id]; bool const in = m[k].count(id); size_t const h = (unsigned)id % mod[k]; auto pred = [id](Key const & x) { return x.id == id; }; auto pred2 = [](Key const & x, int y) { return x.id == y; }; HashPred const hp{id, mod[k]};
            form(k, id, q, q.end(), "key", [&](S & x) { return x.find(key); });
            form(k, id, q, q.end(), "hash and key", [&](S & x) { return x.find(h, key); });
            form(k, id, q, q.end(), "hash and predicate", [&](S & x) { return x.find(h, pred); });
            form(k, id, q, q.end(), "hash, binary predicate and key", [&](S & x) { return x.find(h, pred2, id); });
            form(k, id, q, q.end(), "hashing predicate", [&](S & x) { return x.find(hp); });
            CHECK_EQ(q.contains(key), in); CHECK_EQ(q.contains(h, pred), in); CHECK_EQ(q.contains(h, pred2, id), in); CHECK_EQ(q.contains(hp), in);
            CHECK_EQ(q.count(key), (size_t)in); CHECK_EQ(q.count(h, pred), (size_t)in); CHECK_EQ(q.count(h, pred2, id), (size_t)in); CHECK_EQ(q.count(hp), (size_t)in);
            CHECK_EQ(q.contains(h + 1, pred), false); // under another hash
            auto const r = q.equal_range(key); CHECK_EQ((size_t)std::distance(r.first, r.second), (size_t)in); if (in) CHECK((void const *)&*r.first == m[k][id].at);
            auto const r2 = q.equal_range(h, pred); CHECK_EQ((size_t)std::distance(r2.first, r2.second), (size_t)in); CHECK(r2.first == r.first);
            auto const r3 = q.equal_range(hp); CHECK(r3 == r); auto const r4 = q.equal_range(h, pred2, id); CHECK(r4 == r);
            transparentForms(k, q, Other{id}, "hashable other key", T()); transparentForms(k, q, NoHash{id}, "unhashable other key", T());
            if (in) { auto & at = q.at(key); CHECK_EQ(at.v, m[k][id].v); } else { bool t = false; try { q.at(key); } catch (std::out_of_range const &) { t = true; } CHECK(t); }
            size_t const b = q.bucket(key); CHECK(b < q.bucket_count()); CHECK_EQ(q.hash_bucket(h), b);
            size_t n = 0, mine = 0; for (auto i = q.begin(b); i != q.end(b); ++i) { ++n; mine += i->first.id == id; } CHECK_EQ(n, q.bucket_size(b)); CHECK_EQ(mine, (size_t)in);
            if (in) CHECK_EQ(q.bucket(q.find(key)), b);
        }
    }
    void verify() {
        CHECK_EQ(throwIn, -1L); tags = {tag[0], tag[1]};
        for (int k = 0; k < 2; ++k) {
            M & q = *s[k]; M const & cq = q; auto const & e = m[k];
            CHECK_EQ(q.size(), e.size()); CHECK_EQ(q.empty(), e.empty()); CHECK(q.size() <= q.max_size() && q.bucket_count() <= q.max_bucket_count()); CHECK_EQ(q.hash_function().mod, mod[k]); CHECK(q.key_eq()(keys[3], keys[3]) && !q.key_eq()(keys[3], keys[4])); CHECK_EQ(idOf(q.get_allocator()), al[k]); if (tagOf(q.key_eq()) != -1) CHECKM(tagOf(q.key_eq()) == tag[k], "map %d has the predicate %d, expected %d", k, tagOf(q.key_eq()), tag[k]); CHECK(q.max_load_factor() == mlf[k]);
            std::set<int> seen; for (auto & x : q) { auto i = e.find(x.first.id); CHECKM(i != e.end(), "unexpected key %d in map %d", x.first.id, k); CHECKM(seen.insert(x.first.id).second, "key %d occurs twice in map %d", x.first.id, k); CHECKM(x.second.v == i->second.v, "key %d maps to %d, expected %d", x.first.id, x.second.v, i->second.v); CHECKM(&x == i->second.at, "the entry of key %d moved", x.first.id); }
            CHECK_EQ(seen.size(), e.size()); auto ci = cq.begin(); for (auto & x : q) { CHECK(&*ci == &x); ++ci; } CHECK(ci == cq.end() && ci == q.cend()); ci = q.cbegin(); for (auto & x : cq) { CHECK(&*ci == &x); ++ci; }
            if (cq.bucket_count()) CHECK(cq.load_factor() <= cq.max_load_factor() * 1.0001f);
            size_t total = 0; for (size_t b = 0; b < cq.bucket_count(); ++b) { total += cq.bucket_size(b); size_t n = 0; for (auto i = q.cbegin(b); i != q.cend(b); ++i) ++n; for (auto i = q.begin(b); i != q.end(b); ++i) { CHECK(e.at(i->first.id).at == (void const *)&*i); ++n; } CHECK_EQ(n, 2 * q.bucket_size(b)); } CHECK_EQ(total, e.size());
        }
        bool equal = m[0].size() == m[1].size(); for (auto & x : m[0]) equal = equal && m[1].count(x.first) && m[1][x.first].v == x.second.v;
        bool const was = plainEq; plainEq = true; CHECK_EQ(*s[0] == *s[1], equal); CHECK_EQ(*s[1] != *s[0], !equal); CHECK(*s[0] == *s[0]); plainEq = was;
        int const k = (int)c.draw(1); if (c.coin()) lookups(k, *s[k]); else lookups(k, static_cast<M const &>(*s[k]));
    }
    template <typename F> bool maybeThrowing(F && f) {
        if (c.chance(1, 6)) switch (c.draw(2)) { case 0: throwIn = (long)c.draw(4); break; case 1: Tracked::throwAt = (long)c.draw(6); break; default: newfail::countdown = (long)c.draw(4); }
        bool ok = true; try { f(); } catch (Boom const &) { ok = false; } catch (Tracked::Boom const &) { ok = false; } catch (std::bad_alloc const &) { ok = false; }
        throwIn = -1; Tracked::throwAt = -1; newfail::countdown = -1; if (!ok) { ++thrown; c.trace("... threw"); } return ok;
    }
    typename M::iterator some(int k) { auto it = s[k]->begin(); for (size_t n = c.draw(s[k]->size() - 1); n--;) ++it; return it; }
    typename M::const_iterator hint(int k) { auto it = static_cast<M const &>(*s[k]).begin(); for (size_t n = c.draw(s[k]->size()); n--;) ++it; return it; }
    void inserted(int k, int id, int v, bool assign, typename M::iterator it, int flag) {
        bool const had = m[k].count(id); if (flag >= 0) CHECKM(flag == !had, "insertion of %d reported %d", id, flag); hits += had; CHECK_EQ(it->first.id, id);
        if (!had) { for (auto & x : m[k]) collisions += (unsigned)x.first % mod[k] == (unsigned)id % mod[k]; m[k][id] = {v, &*it}; } else { CHECK(&*it == m[k][id].at); if (assign) m[k][id].v = v; }
        CHECK_EQ(it->second.v, m[k][id].v);
    }
    size_t eraseOther(M & q, int id, bool h, std::true_type) { return h ? q.erase(Other{id}) : q.erase(NoHash{id}); }
    size_t eraseOther(M & q, int id, bool, std::false_type) { return q.erase(keys[id]); }
    std::vector<V> values(size_t max) { std::vector<V> r; size_t n = c.length(max, 3); for (size_t i = 0; i < n; ++i) r.emplace_back(Key((int)c.draw(13)), Tracked((int)c.draw(99))); return r; }
    void insertAll(int k, std::vector<V> const & v) { for (auto & x : v) m[k].emplace(x.first.id, Ent{x.second.v, nullptr}); }
    template <typename F> void withList(std::vector<V> & v, F f) { while (v.size() > 4) v.pop_back(); switch (v.size()) { case 0: f(std::initializer_list<V>{}); break; case 1: f(std::initializer_list<V>{v[0]}); break; case 2: f(std::initializer_list<V>{v[0], v[1]}); break; case 3: f(std::initializer_list<V>{v[0], v[1], v[2]}); break; default: f(std::initializer_list<V>{v[0], v[1], v[2], v[3]}); } }
    void step() {
        int const k = (int)c.draw(1), o = !k; M & q = *s[k]; auto & mk = m[k]; int const id = (int)c.draw(13), v = (int)c.draw(99);
        switch (c.weighted({10, 4, 4, 3, 3, 3, 2, 1, 4, 3, 1, 2, 3, 2})) {
        case 0: { int const how = (int)c.draw(9); c.trace("map %d: insert %d -> %d (%d)", k, id, v, how); std::pair<typename M::iterator, bool> r; int flag = 1; V const val{Key(id), Tracked(v)}; V tmp(val); std::pair<Key, Tracked> p(val.first, val.second); auto h = hint(k);
            if (maybeThrowing([&] { switch (how) {
                case 0: r = q.emplace(Key(id), Tracked(v)); break; case 1: r = q.emplace(val); break; case 2: r = q.emplace(std::piecewise_construct, std::forward_as_tuple(id), std::forward_as_tuple(v)); break;
                case 3: r.first = q.emplace_hint(h, Key(id), Tracked(v)); flag = -1; break; case 4: r = q.insert(val); break; case 5: r = q.insert(std::move(tmp)); break; case 6: r = q.insert(std::move(p)); break;
                case 7: r.first = q.insert(h, val); flag = -1; break; case 8: r.first = q.insert(h, std::move(p)); flag = -1; break; default: r.first = q.insert(h, std::move(tmp)); flag = -1; break; } }))
                inserted(k, id, v, false, r.first, flag < 0 ? -1 : r.second);
            break; }
        case 1: { auto vs = values(6); bool const range = c.coin(); c.trace("map %d: insert a %s of %zu", k, range ? "range" : "list", vs.size()); bool ok;
            if (range) ok = maybeThrowing([&] { q.insert(vs.begin(), vs.end()); }); else ok = maybeThrowing([&] { withList(vs, [&](std::initializer_list<V> l) { q.insert(l); }); });
            auto const before = mk; insertAll(k, vs); if (ok) { for (auto & x : q) { CHECKM(mk.count(x.first.id), "unexpected key %d", x.first.id); auto & e = mk[x.first.id]; if (!e.at) e.at = &x; } } else { auto const all = mk; adoptAll(k); for (auto & x : before) CHECK(mk.count(x.first) && mk[x.first].at == x.second.at && mk[x.first].v == x.second.v); for (auto & x : mk) CHECK(all.count(x.first) && all.at(x.first).v == x.second.v); }
            break; }
        case 2: { int const how = (int)c.draw(3); c.trace("map %d: insert or assign %d -> %d (%d)", k, id, v, how); std::pair<typename M::iterator, bool> r; Key key(id); auto h = hint(k); Tracked val(v); bool const mv = c.coin();
            if (maybeThrowing([&] { switch (how) { case 0: r = mv ? q.insert_or_assign(keys[id], std::move(val)) : q.insert_or_assign(keys[id], val); break; case 1: r = q.insert_or_assign(std::move(key), val); break; case 2: r.first = q.insert_or_assign(h, keys[id], val); break; default: r.first = q.insert_or_assign(h, std::move(key), val); } })) inserted(k, id, v, true, r.first, how < 2 ? r.second : -1);
            break; }
        case 3: { bool const mv = c.coin(), assign = c.coin(); c.trace("map %d: [%d]%s", k, id, assign ? " = " : ""); bool const had = mk.count(id); Tracked * r = nullptr; Key key(id); if (maybeThrowing([&] { r = mv ? &q[std::move(key)] : &q[keys[id]]; })) { if (!had) { auto it = q.find(keys[id]); CHECK(it != q.end()); mk[id] = {0, &*it}; } hits += had; CHECK_EQ(r->v, mk[id].v); CHECK((void const *)r == &((V const *)mk[id].at)->second); if (assign) { *r = Tracked(v); mk[id].v = v; } } break; }
        case 4: { int const how = (int)c.draw(2); c.trace("map %d: erase %d (%d)", k, id, how); size_t r = 0; if (maybeThrowing([&] { if (how) r = eraseOther(q, id, how == 1, std::integral_constant<bool, transparent>()); else { auto it = c.coin() ? q.find(keys[id]) : q.end(); r = it != q.end() ? q.erase(it->first) : q.erase(keys[id]); } })) { CHECK_EQ(r, mk.erase(id)); removed += r; } break; }
        case 5: { if (mk.empty()) break; auto it = some(k); c.trace("map %d: erase iterator at %d", k, it->first.id); auto next = std::next(it); bool const end = next == q.end(); void const * n = end ? nullptr : (void const *)&*next; mk.erase(it->first.id); auto r = c.coin() ? q.erase(it) : q.erase(typename M::const_iterator(it)); CHECK((r == q.end()) == end); if (!end) CHECK((void const *)&*r == n); ++removed; break; }
        case 6: { size_t const n = c.draw(q.size()), a = c.draw(n); auto f = std::next(static_cast<M const &>(q).begin(), (long)a), l = std::next(static_cast<M const &>(q).begin(), (long)n); c.trace("map %d: erase from %zu to %zu", k, a, n); for (auto i = f; i != l; ++i) mk.erase(i->first.id); void const * e = l == q.cend() ? nullptr : (void const *)&*l; auto r = q.erase(f, l); CHECK(e ? (void const *)&*r == e : r == q.end()); removed += n - a; break; }
        case 7: c.trace("map %d: clear", k); q.clear(); mk.clear(); break;
        case 8: { int const how = (int)c.draw(7); c.trace("map %d: copied or moved from the other (%d)", k, how); bool ok = true; auto nm = m[o]; int na = al[k]; M & src = *s[o]; M const & csrc = src; bool moved = false; std::unique_ptr<M> r; int const a2 = norm(c.coin() ? 5 : k);
            switch (how) {
            case 0: ok = maybeThrowing([&] { r.reset(new M(csrc)); }); na = sel(al[o]); break;
            case 1: ok = maybeThrowing([&] { r.reset(new M(csrc, alloc(a2))); }); na = a2; break;
            case 2: case 3: { auto const hasher0 = mod[k]; ok = maybeThrowing([&] { CHECK(&(q = csrc) == &q); }); if (!ok) mod[k] = hasher0; if (prop() & Copy) na = al[o]; break; }
            case 4: r.reset(new M(std::move(src))); na = al[o]; moved = true; break;
            case 5: r.reset(new M(std::move(src), alloc(a2))); na = a2; moved = true; break;
            case 6: CHECK(&(q = std::move(src)) == &q); if (prop() & Move) na = al[o]; moved = true; break;
            default: { auto & self = q; if (c.coin()) q = static_cast<M const &>(self); ok = false; break; } }
            if (ok) { if (r) s[k] = std::move(r); mod[k] = mod[o]; tag[k] = tag[o]; mlf[k] = mlf[o]; mk = nm; al[k] = na; if (moved) { mlf[o] = s[o]->max_load_factor(); s[o]->clear(); m[o].clear(); verifyAddresses(k); if (c.coin()) fresh(o); } else { ++copies; readdress(k); } }
            break; }
        case 9: c.trace("swap"); q.swap(*s[o]); std::swap(m[0], m[1]); std::swap(mod[0], mod[1]); std::swap(tag[0], tag[1]); std::swap(mlf[0], mlf[1]); if (prop() & Swap) std::swap(al[0], al[1]); break;
        case 10: { auto vs = values(6); c.trace("map %d: assign a list", k); bool const ok = maybeThrowing([&] { withList(vs, [&](std::initializer_list<V> l) { CHECK(&(q = l) == &q); }); }); if (ok) { mk.clear(); insertAll(k, vs); for (auto & x : q) mk.at(x.first.id).at = &x; ++copies; } break; }
        case 11: { size_t const n = c.draw(200); int const how = (int)c.draw(2); c.trace("map %d: rehash (%d) %zu", k, how, n); if (how == 0) { q.rehash(n); CHECK(q.bucket_count() >= n); } else if (how == 1) { q.reserve(n); CHECK((float)q.bucket_count() * q.max_load_factor() >= (float)n * .999f); } else { float const f = (float)c.range(1, 40) / 10; q.max_load_factor(f); mlf[k] = f; CHECK(q.max_load_factor() == f); q.rehash(0); } break; }
        case 12: { if (mk.empty()) break; auto it = some(k); int const w = it->first.id; c.trace("map %d: %d becomes %d", k, w, v); switch (c.draw(3)) { case 0: it->second = Tracked(v); break; case 1: q.at(keys[w]) = Tracked(v); break; case 2: for (auto i = q.begin(q.bucket(keys[w])); i != q.end(q.bucket(keys[w])); ++i) if (i->first.id == w) i->second = Tracked(v); break; default: q.equal_range(keys[w]).first->second = Tracked(v); } mk[w].v = v; break; }
        default: { int const how = (int)c.draw(5); auto vs = values(6); c.trace("map %d: constructed anew (%d)", k, how); size_t const n = c.draw(40); unsigned nmod = newMod(); int na = norm(c.coin() ? 6 : 0), ntag = how == 0 || how == 2 ? 1 + (int)c.draw(5) : 0; tags.insert(ntag); std::unique_ptr<M> r;
            bool const ok = maybeThrowing([&] { switch (how) {
                case 0: withList(vs, [&](std::initializer_list<V> l) { r.reset(new M(l, n, hasher(nmod), eq(ntag), alloc(na))); }); break; case 1: withList(vs, [&](std::initializer_list<V> l) { r.reset(new M(l, n, hasher(nmod), alloc(na))); }); break;
                case 2: r.reset(new M(vs.begin(), vs.end(), n, hasher(nmod), eq(ntag), alloc(na))); break; case 3: r.reset(new M(vs.begin(), vs.end(), n, hasher(nmod), alloc(na))); break;
                case 4: nmod = 1000000; withList(vs, [&](std::initializer_list<V> l) { r.reset(new M(l, n, alloc(na))); }); break;
                default: nmod = 1000000; if (c.coin()) { na = norm(0); r.reset(new M(vs.begin(), vs.end())); } else r.reset(new M(vs.begin(), vs.end(), n, alloc(na))); break; } });
            if (ok) { s[k] = std::move(r); mk.clear(); mod[k] = nmod; al[k] = na; tag[k] = ntag; mlf[k] = 1; insertAll(k, vs); for (auto & x : *s[k]) { CHECK(mk.count(x.first.id)); mk.at(x.first.id).at = &x; } } }
        }
        verify();
    }
    void verifyAddresses(int k) { for (auto & x : *s[k]) CHECKM(m[k].count(x.first.id) && m[k][x.first.id].at == &x, "moving the map moved the entry of %d", x.first.id); }
};
template <typename M> void history(Ctx & c) {
    { Run<M> r(c); size_t n = 0; r.verify(); while (c.more(n, 25, 100)) { ++n; r.step(); } if (r.hits && r.removed && r.collisions && r.copies) c.nontrivial(); if (r.thrown) c.label("an operation threw"); }
    for (auto & x : inUse) CHECKM(x.second == 0, "%ld bytes of allocator %d not returned", x.second, x.first);
    inUse.clear(); tags.clear(); plainEq = true;
}
// Every entry is in the memory of the allocator of the map it was put into.
template <unsigned prop> void arena(Ctx & c) {
    using V = std::pair<Key const, Tracked>; using M = sm::UnorderedMap<Key, Tracked, Hash, Eq, Alloc<V, prop>>; inUse.clear(); tags.clear(); throwIn = -1; plainEq = true;
    {
        M a(1, Hash(), Eq(), Alloc<V, prop>(1)), b(1, Hash(), Eq(), Alloc<V, prop>(2)); int const na = (int)c.draw(3), nb = (int)c.draw(3), how = (int)c.draw(8); for (int i = 0; i < na; ++i) a.emplace(Key(i), Tracked(i)); for (int i = 0; i < nb; ++i) b.emplace(Key(i), Tracked(i)); c.trace("%d and %d entries, %d", na, nb, how);
        auto uses = [&](int id, bool want) { CHECKM((inUse[id] > 0) == want, "%ld bytes of allocator %d are in use (%d and %d entries, case %d)", inUse[id], id, na, nb, how); };
        uses(1, na); uses(2, nb);
        switch (how) {
        case 0: a = b; uses(1, !(prop & Copy) && nb); uses(2, nb); if (!(prop & Copy)) { b.clear(); uses(2, false); uses(1, nb); } break;
        case 1: { M const d(b, Alloc<V, prop>(3)); uses(3, nb); b.clear(); uses(2, false); uses(3, nb); break; }
        case 2: { M const d(b); int const id = prop & Select ? 2 : 102; uses(id, nb); b.clear(); uses(id, nb); uses(2, (prop & Select) && nb); break; }
        case 3: { long const before = inUse[1]; a[Key(7)] = Tracked(1); CHECK(inUse[1] > before); a.erase(Key(7)); CHECK_EQ(inUse[1], before); break; }
        case 4: { Key const k(7); long const before = inUse[1]; a.insert_or_assign(k, Tracked(1)); CHECK(inUse[1] > before); long const more = inUse[1]; a.insert_or_assign(Key(8), Tracked(1)); CHECK(inUse[1] > more); break; }
        case 5: a = {V(Key(5), Tracked(5))}; uses(1, true); a.clear(); uses(1, false); uses(2, nb); break;
        case 6: { a = std::move(b); a.clear(); b.clear(); a[Key(1)]; uses(1, !(prop & Move)); uses(2, prop & Move); a.clear(); b[Key(1)]; uses(1, false); uses(2, true); break; }
        case 7: { a.swap(b); uses(1, na); uses(2, nb); a.clear(); b.clear(); uses(1, false); uses(2, false); a[Key(1)]; uses(1, !(prop & Swap)); uses(2, prop & Swap); a.clear(); b[Key(1)]; uses(1, prop & Swap); uses(2, !(prop & Swap)); break; }
        default: { M const d({V(Key(5), Tracked(5))}, 3, Hash(), Alloc<V, prop>(4)); uses(4, true); M e(3, Hash(), Alloc<V, prop>(6)), f(3, Alloc<V, prop>(7)), g{Alloc<V, prop>(8)}; e[Key(1)]; f[Key(1)]; g[Key(1)]; uses(6, true); uses(7, true); uses(8, true); break; }
        }
        if (na && nb) c.nontrivial();
    }
    for (auto & x : inUse) CHECKM(x.second == 0, "%ld bytes of allocator %d not returned", x.second, x.first);
    inUse.clear();
}
PBT_PROP(arenas, 4000, 40000, "two maps with entries") { switch (c.draw(3)) { case 0: return arena<Copy | Select>(c); case 1: return arena<Move | Swap>(c); case 2: return arena<Copy | Swap>(c); default: return arena<Move | Select>(c); } }
PBT_PROP(maps, 20000, 400000, "a present key inserted, keys removed, hashes colliding, and a map copied") {
    switch (c.draw(3)) {
    case 0: return history<sm::UnorderedMap<Key, Tracked, Hash>>(c);
    case 1: return history<sm::UnorderedMap<Key, Tracked, PlainHash, Eq, Alloc<std::pair<Key const, Tracked>, Copy | Select>>>(c);
    case 2: return history<sm::UnorderedMap<Key, Tracked, Hash, Eq, Alloc<std::pair<Key const, Tracked>, Move | Swap>>>(c);
    default: return history<sm::UnorderedMap<Key, Tracked, PlainHash, std::equal_to<Key>>>(c); }
}

// Keys and values which can only be moved
struct MKey { std::unique_ptr<int> p; explicit MKey(int i) : p(new int(i)) {} int id() const { if (!p) pbt::fail("a key was read after it was moved away"); return *p; } bool operator==(MKey const & o) const { return id() == o.id(); } };
struct MHash { std::size_t operator()(MKey const & k) const { return (unsigned)k.id() % 5; } };
struct MVal { std::unique_ptr<int> p; MVal() {} explicit MVal(int i) : p(new int(i)) {} int v() const { return p ? *p : -1; } };
// Keys and values which count their copies
struct CKey { int id; int * copies; CKey(int i, int * n) : id(i), copies(n) {} CKey(CKey const & o) : id(o.id), copies(o.copies) { ++*copies; } CKey(CKey && o) noexcept : id(o.id), copies(o.copies) { o.id = -1; } CKey & operator=(CKey const & o) { id = o.id; copies = o.copies; ++*copies; return *this; } CKey & operator=(CKey && o) noexcept { id = o.id; copies = o.copies; o.id = -1; return *this; } bool operator==(CKey const & o) const { CHECKM(id >= 0 && o.id >= 0, "a key was read after it was moved away"); return id == o.id; } };
struct CHash { std::size_t operator()(CKey const & k) const { CHECKM(k.id >= 0, "a key was hashed after it was moved away"); return (unsigned)k.id % 5; } };
PBT_PROP(moves, 8000, 100000, "entries replaced, and entries added, by rvalues") {
    size_t n = 0, added = 0, replaced = 0;
    if (c.coin()) {
        using M = sm::UnorderedMap<MKey, MVal, MHash>; M m; std::map<int, int> e;
        while (c.more(n, 12, 40)) { ++n; int const id = (int)c.draw(12), v = (int)c.draw(1000); bool const had = e.count(id); auto h = c.coin() ? m.cend() : m.cbegin(); int const how = (int)c.draw(6); c.trace("%d: %d -> %d", how, id, v); typename M::iterator it; int fresh = -1; MKey key(id); MVal val(v); bool const assigns = how >= 4;
            switch (how) {
            case 0: { auto r = m.emplace(std::move(key), std::move(val)); it = r.first; fresh = r.second; break; }
            case 1: it = m.emplace_hint(h, std::move(key), std::move(val)); break;
            case 2: { auto r = m.insert(std::pair<MKey, MVal>(std::move(key), std::move(val))); it = r.first; fresh = r.second; break; }
            case 3: it = m.insert(h, std::pair<MKey, MVal>(std::move(key), std::move(val))); break;
            case 4: { auto r = m.insert_or_assign(std::move(key), std::move(val)); it = r.first; fresh = r.second; break; }
            case 5: it = m.insert_or_assign(h, std::move(key), std::move(val)); break;
            default: { MVal & x = m[std::move(key)]; if (!had) CHECK_EQ(x.v(), -1); else CHECK_EQ(x.v(), e[id]); x = std::move(val); it = m.find(MKey(id)); CHECK(it != m.end() && &it->second == &x); break; }
            }
            if (fresh >= 0) CHECK_EQ((int)fresh, (int)!had); if (!had || assigns) e[id] = v; (had ? replaced : added) += 1;
            CHECK(it != m.end()); CHECK_EQ(it->first.id(), id); CHECK_EQ(it->second.v(), e[id]);
            if (c.chance(1, 5)) { CHECK_EQ(m.erase(MKey(id)), (size_t)1); e.erase(id); }
            if (c.chance(1, 10)) { M o(std::move(m)); m = std::move(o); }
            CHECK_EQ(m.size(), e.size()); for (auto const & x : m) { CHECK(e.count(x.first.id())); CHECK_EQ(x.second.v(), e[x.first.id()]); }
        }
    } else {
        using M = sm::UnorderedMap<CKey, CKey, CHash>; M m; std::map<int, int> e; int kc = 0, vc = 0;
        while (c.more(n, 12, 40)) { ++n; int const id = (int)c.draw(12), v = (int)c.draw(1000); bool const had = e.count(id), kmv = c.coin(), vmv = c.coin(); auto h = c.coin() ? m.cend() : m.cbegin(); int const how = (int)c.draw(1); c.trace("insert_or_assign%s %d -> %d%s%s", how ? " (hint)" : "", id, v, kmv ? " moving the key" : "", vmv ? " moving the value" : ""); CKey key(id, &kc), val(v, &vc); kc = vc = 0; int fresh = -1; typename M::iterator it;
            auto call = [&](auto && k, auto && x) { if (how) it = m.insert_or_assign(h, std::forward<decltype(k)>(k), std::forward<decltype(x)>(x)); else { auto r = m.insert_or_assign(std::forward<decltype(k)>(k), std::forward<decltype(x)>(x)); it = r.first; fresh = r.second; } };
            if (kmv && vmv) call(std::move(key), std::move(val)); else if (kmv) call(std::move(key), val); else if (vmv) call(static_cast<CKey const &>(key), std::move(val)); else call(static_cast<CKey const &>(key), static_cast<CKey const &>(val));
            if (fresh >= 0) CHECK_EQ((int)fresh, (int)!had); e[id] = v; (had ? replaced : added) += 1;
            CHECK_EQ(it->first.id, id); CHECK_EQ(it->second.id, v);
            // A key which is already there is not taken, and nothing given as an lvalue is taken:
            if (had || !kmv) CHECKM(key.id == id, "the key given was taken although it was %s", had ? "already there" : "not given as an rvalue");
            if (!vmv) CHECKM(val.id == v, "the value given as an lvalue was taken");
            // And nothing given as an rvalue is copied:
            if (kmv || had) CHECKM(kc == 0, "the key given as an rvalue was copied"); if (vmv) CHECKM(vc == 0, "the value given as an rvalue was copied");
            if (c.chance(1, 5)) { CHECK_EQ(m.erase(CKey(id, &kc)), (size_t)1); e.erase(id); }
            CHECK_EQ(m.size(), e.size()); for (auto const & x : m) { CHECK(e.count(x.first.id)); CHECK_EQ(x.second.id, e[x.first.id]); }
        }
    }
    if (replaced && added > 1) c.nontrivial();
}

// Strings

std::string str(Ctx & c, size_t max) { std::string s; size_t const n = c.length(max, 4); static char const abc[] = {'a', 'b', 'c', '\0', '\x80', '\xff', '\n'}; for (size_t i = 0; i < n; ++i) s += abc[c.weighted({8, 8, 2, 1, 1, 1, 1})]; return s; }
struct InputOnly { std::string const & s; struct It { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = char const *; using reference = char const &; char const * p; char const & operator*() const { return *p; } It & operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; } bool operator==(It const & o) const { return p == o.p; } bool operator!=(It const & o) const { return p != o.p; } }; It begin() const { return {s.data()}; } It end() const { return {s.data() + s.size()}; } };
// Calls f with every form of the given characters.
template <typename F> void forms(std::string const & s, F f) {
    f(s, "std::string"); std::string copy(s); f(copy, "std::string lvalue");
    if (s.find('\0') == std::string::npos) { f(s.c_str(), "C string"); char * const p = &copy[0]; f(p, "pointer to characters"); }
    std::vector<char> const v(s.begin(), s.end()); f(v, "vector"); std::list<char> const l(s.begin(), s.end()); f(l, "list"); std::forward_list<char> fl(s.begin(), s.end()); f(fl, "forward list");
    f(boost::make_iterator_range(s.begin(), s.end()), "range"); f(boost::make_iterator_range(s.data(), s.data() + s.size()), "pointer range"); f(InputOnly{s}, "input range");
}
PBT_PROP(stringHashing, 30000, 500000, "different strings, or at least two characters") {
    static size_t const hashes[] = {0, 1, 5, ~(size_t)0}; size_t const pickedHash = c.draw(4), given = pickedHash < 4 ? hashes[pickedHash] : (size_t)c.bits(64);
    std::string const a = str(c, 40); std::string b = c.chance(1, 3) ? a : str(c, 40); if (c.chance(1, 4)) b = a + '\0' + b; c.trace("%zu and %zu characters", a.size(), b.size());
    sm::StringHasher const h{}; sm::StringHasher::transparent_key_equal const eq{}; size_t const ha = h(a);
    forms(a, [&](auto const & x, char const * name) { CHECKM(h(x) == ha, "the hash of a %s differs", name); });
    if (!a.empty()) { auto d = a; size_t const i = c.draw(a.size() - 1); d[i] = (char)(d[i] ^ (1 + c.draw(254))); CHECKM(h(d) != ha, "character %zu of %zu does not matter", i, a.size()); CHECKM(h(d.begin(), d.end()) != ha, "character %zu of %zu does not matter", i, a.size()); }
    CHECK_EQ(h(a.begin(), a.end()), ha); CHECK_EQ(h(a.data(), a.data() + a.size()), ha);
    forms(b, [&](auto const & x, char const * name) { CHECKM(eq(a, x) == (a == b), "comparison to a %s gives %d", name, (int)eq(a, x)); CHECKM(eq(x, a) == (a == b), "comparison of a %s gives %d", name, (int)eq(x, a)); });
    forms(b, [&](auto const & x, char const * name) { auto const p = sm::getOrCreateTemporaryStringHashTablePredicate(x); CHECKM(p.hash() == h(b), "hash of the predicate of a %s", name); CHECKM(p(a) == (a == b) && p(b), "predicate of a %s", name); auto const p2 = sm::getOrCreateTemporaryStringHashTablePredicate(x, given); CHECK_EQ(p2.hash(), given); CHECK_EQ(p2(a), a == b); auto & p3 = sm::getOrCreateTemporaryStringHashTablePredicate(p); CHECK(&p3 == &p); });
    if (a != b || a.size() > 1) c.nontrivial();
}
PBT_PROP(stringMaps, 20000, 300000, "at least three keys, and keys removed") {
    sm::SimpleUnorderedStringMap<int> m; auto const & cm = m; std::map<std::string, int> e; std::vector<std::string> pool; size_t const np = 2 + c.draw(6); for (size_t i = 0; i < np; ++i) pool.push_back(str(c, 6)); size_t n = 0, removed = 0, most = 0; sm::StringHasher const h{};
    while (c.more(n, 14, 40)) { ++n; std::string const & s = pool[c.draw(np - 1)]; int const v = (int)c.draw(99);
        switch (c.weighted({5, 2, 3, 1})) {
        case 0: { auto r = m.emplace(s, v); CHECK_EQ(r.second, e.emplace(s, v).second); CHECK_EQ(r.first->second, e[s]); break; }
        case 1: m[s] = v; e[s] = v; break;
        case 2: { size_t const want = e.count(s); int which = (int)c.draw(9); size_t did = 0; bool done = false; forms(s, [&](auto const & x, char const *) { if (which-- == 0) { did = m.erase(x); done = true; } }); if (done) { CHECK_EQ(did, want); e.erase(s); removed += did; } break; }
        default: { sm::SimpleUnorderedStringMap<int> o(m); CHECK(o == m); o["x"] = 1; o.clear(); sm::SimpleUnorderedStringMap<int> p; p = m; CHECK(p == m); for (auto & x : p) ++x.second; } }
        most = std::max(most, e.size()); CHECK_EQ(m.size(), e.size()); for (auto & x : m) CHECK(e.count(x.first) && e[x.first] == x.second);
        for (auto & t : pool) { bool const in = e.count(t);
            forms(t, [&](auto const & x, char const * name) { CHECKM((m.find(x) != m.end()) == in && (cm.find(x) != cm.end()) == in, "lookup by %s", name); CHECKM(m.contains(x) == in && cm.count(x) == in, "count by %s", name); CHECKM((m.find(h(t), x) != m.end()) == in, "lookup by hash and %s", name);
                auto const p = sm::getOrCreateTemporaryStringHashTablePredicate(x); CHECKM((m.find(p) != m.end()) == in && (cm.find(p) != cm.end()) == in && m.contains(p) == in && cm.count(p) == in, "lookup by predicate of %s", name); if (in) CHECK(m.find(x) == m.find(t) && m.find(x)->second == e[t] && m.find(p) == m.find(t)); });
            bool t2 = false; try { CHECK_EQ(m.at(t), e.at(t)); } catch (std::out_of_range const &) { t2 = true; } CHECK_EQ(t2, !in); }
    }
    if (most >= 3 && removed) c.nontrivial();
}
// Maps with more entries, buckets and equal hashes than small types can count.
struct OneHash { size_t mod = 0; size_t operator()(size_t x) const { return mod ? x % mod : x; } };
PBT_PROP(large, 10, 200, "entries removed from a map of more than 255 entries") {
    bool const same = c.coin(); size_t const n = same ? c.pick<size_t>({200, 256, 300, 700}) : c.pick<size_t>({255, 256, 257, 300, 65535, 65536, 65600, 66000}), gap = 2 + c.draw(5);
    c.trace("%zu entries%s, every %zu-th removed", n, same ? " of equal hashes" : "", gap);
    sm::UnorderedMap<size_t, size_t, OneHash> m(c.draw(3), OneHash{same ? 1u : 0u}); if (c.coin()) m.reserve(n);
    for (size_t i = 0; i < n; ++i) { CHECK(m.emplace(i, i * 5).second); }
    CHECK_EQ(m.size(), n); CHECK(m.bucket_count() * (double)m.max_load_factor() >= (double)n * 0.999);
    size_t seen = 0, left = 0; for (auto & x : m) { CHECK_EQ(x.second, x.first * 5); ++seen; } CHECK_EQ(seen, n);
    for (size_t i = 0; i < n; ++i) { CHECK(!m.emplace(i, 0u).second); auto const it = m.find(i); CHECK(it != m.end() && it->second == i * 5); }
    CHECK(m.find(n) == m.end());
    for (size_t i = 0; i < n; i += gap) CHECK_EQ(m.erase(i), 1u);
    for (size_t i = 0; i < n; ++i) { bool const in = i % gap != 0; left += in; CHECK_EQ(m.count(i), in ? 1u : 0u); }
    CHECK_EQ(m.size(), left); auto const copy(m); CHECK_EQ(copy.size(), left); CHECK(copy == m); CHECK_EQ((size_t)std::distance(copy.begin(), copy.end()), left);
    size_t b = 0; for (size_t i = 0; i < m.bucket_count(); ++i) b += m.bucket_size(i); CHECK_EQ(b, left);
    m.clear(); CHECK(m.empty()); CHECK_EQ(m.size(), 0u); if (n > 255) c.nontrivial();
}
PBT_PROP(rawHashing, 10000, 100000, "at least two bytes") {
    std::string a = str(c, 30), b = c.coin() ? a : str(c, 30); std::string const a2(a.c_str(), a.size()); size_t const seed = (size_t)c.bits(64);
    CHECK_EQ(sm::hashRawData(a.data(), a.size()), sm::hashRawData(a2.data(), a2.size())); CHECK_EQ(sm::hashRawData(a.data(), a.size()), sm::hashCombineRawData(0u, a.data(), a.size()));
    CHECK_EQ(sm::hashCombineRawData(seed, a.data(), a.size(), b.data(), b.size()), sm::hashCombineRawData(sm::hashCombineRawData(seed, a.data(), a.size()), b.data(), b.size()));
    CHECK_EQ(sm::hashRawData(a.data(), a.size(), b.data(), b.size()), sm::hashCombineRawData(sm::hashRawData(a.data(), a.size()), b.data(), b.size()));
    // Every byte counts:
    if (!a.empty()) { auto d = a; size_t const i = c.draw(a.size() - 1); d[i] = (char)(d[i] ^ (1 + c.draw(254))); CHECKM(sm::hashRawData(a.data(), a.size()) != sm::hashRawData(d.data(), d.size()), "byte %zu of %zu does not matter", i, a.size()); }
    long const x = (long)c.bits(64), y = c.coin() ? x : (long)c.bits(64); CHECK_EQ(sm::RawHasher()(x), sm::hashRawData(&x, sizeof(x))); CHECK_EQ(sm::RawHasherT<long>()(x), sm::RawHasher()(x)); if (x == y) CHECK_EQ(sm::RawHasher()(y), sm::RawHasher()(x));
    { auto raw = [&](auto z) { unsigned char * const q = reinterpret_cast<unsigned char *>(&z); for (size_t i = 0; i < sizeof z; ++i) q[i] = (unsigned char)c.draw(255); auto const same = z; size_t const h = sm::hashRawData(&z, sizeof z); CHECK_EQ(sm::RawHasher()(z), h); CHECK_EQ(sm::RawHasherT<decltype(z)>()(z), h); CHECK_EQ(sm::RawHasher()(same), h); size_t const at = (size_t)c.draw(sizeof z - 1); q[at] = (unsigned char)(q[at] ^ (1 + c.draw(254))); CHECKM(sm::RawHasher()(z) != h && sm::RawHasherT<decltype(z)>()(z) != h, "byte %zu of %zu does not matter", at, sizeof z); };
      switch (c.draw(4)) { case 0: raw(short()); break; case 1: raw(std::array<unsigned char, 3>()); break; case 2: raw(std::array<int, 10>()); break; case 3: raw('c'); break; default: raw(std::array<unsigned char, 300>()); } }
    struct H { size_t v; size_t hash() const noexcept { return v; } } const o{seed}; CHECK_EQ(sm::HashMemberCaller()(o), seed); CHECK_EQ(sm::HashMemberCallerT<H>()(o), seed);
    if (a.size() > 1) c.nontrivial();
}
}
static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;
