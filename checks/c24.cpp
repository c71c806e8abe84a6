// C24: pointers obtained from an object itself or from a shared tuple against
// an explicit account of owners; scope exits against an explicit action log.
#include <sharemind/EnableSharedFromThis.h>
#include <sharemind/GlobalDeleter.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/SharedTupleElementPointers.h>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;

// --- shared from this ---
std::vector<int> died; // number of destructions by object
struct Other { virtual ~Other() {} long o = 17; long other2 = 18; };
struct Elem { int e[3]; };
struct Base: Other, sm::EnableSharedFromThis<Base> {
    int const id; int data; Elem elems; pbt::Tracked t;
    explicit Base(int id_) : id(id_), data(id_ * 10), elems{{id_, id_ + 1, id_ + 2}}, t(id_) { pre(); }
    Base(Base const & b, int id_) : Other(b), sm::EnableSharedFromThis<Base>(b), id(id_), data(id_ * 10), elems{{id_, id_ + 1, id_ + 2}}, t(id_) { pre(); }
    // Nobody owns it during construction and nobody can own it again during destruction:
    void pre() { CHECK(!weakFromThis().lock()); CHECK(!weakFromThis(&data).lock()); CHECK(!static_cast<Base const *>(this)->weakFromThis().lock()); CHECK(throws()); }
    bool throws() {
        unsigned n = 0;
        try { (void)sharedFromThis(); } catch (std::bad_weak_ptr const &) { ++n; }
        try { (void)static_cast<Base const *>(this)->sharedFromThis(); } catch (std::bad_weak_ptr const &) { ++n; }
        try { (void)sharedFromThis(&data); } catch (std::bad_weak_ptr const &) { ++n; }
        try { (void)static_cast<Base const *>(this)->sharedFromThis(&data); } catch (std::bad_weak_ptr const &) { ++n; }
        return n == 4;
    }
    ~Base() override { t.ok(); pre(); CHECK(!static_cast<Base const *>(this)->weakFromThis(&elems).lock()); ++died[id]; }
};
struct Derived: virtual Base { std::string s; long arr[4] = {1, 2, 3, 4}; explicit Derived(int i) : Base(i), s("derived") {} };
struct Second { char pad[3]; virtual ~Second() {} };
struct Multi: Second, Derived { int last = 5; explicit Multi(int i) : Base(i), Derived(i) {} };

struct Handle { int obj; void const * addr; std::shared_ptr<void const> p; };
struct Weak { int obj; void const * addr; std::weak_ptr<void const> w; };
struct World {
    pbt::Ctx & c; std::vector<Base *> objs; std::vector<bool> owned; std::vector<Handle> h; std::vector<Weak> w; size_t obtained = 0, deaths = 0, locks = 0;
    explicit World(pbt::Ctx & c_) : c(c_) { died.clear(); }
    long owners(int o) const { long n = 0; for (auto const & x : h) n += x.obj == o; return n; }
    template <typename T> void keep(int o, void const * addr, std::shared_ptr<T> && p) { CHECKM((void const *)p.get() == addr, "pointer %p to object %d, expected %p", (void const *)p.get(), o, addr); h.push_back({o, addr, std::move(p)}); ++obtained; }
    template <typename T> void keepWeak(int o, void const * addr, std::weak_ptr<T> && p) { CHECK(!p.expired()); CHECK((void const *)p.lock().get() == addr); w.push_back({o, addr, std::move(p)}); ++obtained; }
    void verify() {
        for (size_t o = 0; o < objs.size(); ++o) { long const n = owners((int)o); CHECKM(died[o] == (n ? 0 : 1), "object %zu with %ld owners was destroyed %d times", o, n, died[o]); }
        for (auto const & x : h) { CHECK(x.p.get() == x.addr); CHECK_EQ(x.p.use_count(), owners(x.obj)); }
        for (auto const & x : w) CHECK_EQ(x.w.expired(), owners(x.obj) == 0);
    }
    void create() {
        int const id = (int)objs.size(); died.push_back(0);
        switch (c.draw(5)) {
        case 0: { auto p = std::make_shared<Base>(id); objs.push_back(p.get()); keep(id, p.get(), std::move(p)); break; }
        case 1: { auto p = std::make_shared<Multi>(id); objs.push_back(p.get()); keep(id, p.get(), std::move(p)); break; }
        case 2: { std::shared_ptr<Derived> p(new Derived(id)); objs.push_back(p.get()); keep(id, p.get(), std::move(p)); break; }
        case 3: { std::unique_ptr<Base> u(new Multi(id)); std::shared_ptr<Base> p(std::move(u)); objs.push_back(p.get()); keep(id, p.get(), std::move(p)); break; }
        case 4: { Multi * m = new Multi(id); std::shared_ptr<Base const> p(m); objs.push_back(m); keep(id, static_cast<Base const *>(m), std::move(p)); break; }
        default: { Base * alive = pickAlive(); auto p = alive ? std::make_shared<Base>(*alive, id) : std::make_shared<Base>(id); objs.push_back(p.get()); keep(id, p.get(), std::move(p)); } // a copy is another object
        }
        c.trace("create %d", id);
    }
    Base * pickAlive() { if (objs.empty()) return nullptr; size_t const o = c.draw(objs.size() - 1); return owners((int)o) ? objs[o] : nullptr; }
    void obtain() {
        Base * b = pickAlive(); if (!b) return; Base const * cb = b; int const o = b->id; Multi * m = dynamic_cast<Multi *>(b); Derived * d = dynamic_cast<Derived *>(b); unsigned const f = (unsigned)c.draw(14);
        c.trace("obtain form %u of %d", f, o);
        switch (f) {
        case 0: keep(o, b, b->sharedFromThis()); break;
        case 1: { auto p = cb->sharedFromThis(); static_assert(std::is_same<decltype(p), std::shared_ptr<Base const>>::value, ""); keep(o, b, std::move(p)); break; }
        case 2: { auto p = b->sharedFromThis(&b->data); static_assert(std::is_same<decltype(p), std::shared_ptr<int>>::value, ""); CHECK_EQ(*p, o * 10); keep(o, &b->data, std::move(p)); break; }
        case 3: { auto p = cb->sharedFromThis(&cb->data); static_assert(std::is_same<decltype(p), std::shared_ptr<int const>>::value, ""); keep(o, &b->data, std::move(p)); break; }
        case 4: { size_t const i = c.draw(2); auto p = b->sharedFromThis(b->elems.e + i); CHECK_EQ(*p, o + (int)i); keep(o, b->elems.e + i, std::move(p)); break; }
        case 5: keep(o, static_cast<Other *>(b), b->sharedFromThis(static_cast<Other *>(b))); break;
        case 6: { auto p = b->weakFromThis(); static_assert(noexcept(b->weakFromThis()) && std::is_same<decltype(p), std::weak_ptr<Base>>::value, ""); keepWeak(o, b, std::move(p)); break; }
        case 7: { auto p = cb->weakFromThis(); static_assert(noexcept(cb->weakFromThis()) && std::is_same<decltype(p), std::weak_ptr<Base const>>::value, ""); keepWeak(o, b, std::move(p)); break; }
        case 8: { auto p = b->weakFromThis(&b->elems); static_assert(noexcept(b->weakFromThis(&b->elems)) && std::is_same<decltype(p), std::weak_ptr<Elem>>::value, ""); keepWeak(o, &b->elems, std::move(p)); break; }
        case 9: { auto p = cb->weakFromThis(&cb->t); static_assert(std::is_same<decltype(p), std::weak_ptr<pbt::Tracked const>>::value, ""); keepWeak(o, &b->t, std::move(p)); break; }
        case 10: if (d) { size_t const i = c.draw(3); auto p = d->sharedFromThis(d->arr + i); CHECK_EQ(*p, (long)i + 1); keep(o, d->arr + i, std::move(p)); } break;
        case 11: if (m) keep(o, static_cast<Second *>(m), m->sharedFromThis(static_cast<Second *>(m))); break;
        case 12: if (m) keepWeak(o, &m->last, static_cast<Multi const *>(m)->weakFromThis(&m->last)); break;
        case 13: if (c.coin()) { if (c.coin()) keepWeak(o, (int *)nullptr, b->weakFromThis((int *)nullptr)); else keepWeak(o, (long const *)nullptr, cb->weakFromThis((long const *)nullptr)); } else if (c.coin()) keep(o, (int *)nullptr, b->sharedFromThis((int *)nullptr)); else keep(o, (long const *)nullptr, cb->sharedFromThis((long const *)nullptr)); break; // owns the object even so
        default: { static int const elsewhere = 3; keep(o, &elsewhere, cb->sharedFromThis(&elsewhere)); } // owns the object, points anywhere
        }
    }
};
PBT_PROP(sharedFromThis, 30000, 500000, "pointers obtained from at least two objects in at least two forms, with a destruction and a locked weak pointer") {
    long const live0 = pbt::Tracked::live; { World q(c); size_t n = 0;
    if (c.chance(1, 4)) { died.assign(1, 0); { Derived d(0); CHECK(d.throws()); CHECK(!d.weakFromThis().lock()); CHECK(!d.weakFromThis(&d.s).lock()); CHECK(!static_cast<Derived const &>(d).weakFromThis(&d.s).lock()); } CHECK_EQ(died[0], 1); died.clear(); }
    while (c.more(n, 25, 100)) {
        ++n;
        switch (c.weighted({3, 8, 3, 6, 3})) {
        case 0: q.create(); break;
        case 1: q.obtain(); break;
        case 2: if (!q.h.empty()) { Handle x = q.h[c.draw(q.h.size() - 1)]; q.h.push_back(std::move(x)); } break;
        case 3: if (!q.h.empty()) { size_t const i = c.draw(q.h.size() - 1); int const o = q.h[i].obj; c.trace("release a pointer to %d", o); { std::shared_ptr<void const> p(std::move(q.h[i].p)); q.h.erase(q.h.begin() + i); } q.deaths += q.owners(o) == 0; } break;
        default: if (!q.w.empty()) { Weak const & x = q.w[c.draw(q.w.size() - 1)]; auto p = x.w.lock(); CHECK_EQ(p.use_count() != 0, q.owners(x.obj) != 0); if (p) { CHECK(p.get() == x.addr); ++q.locks; q.h.push_back({x.obj, x.addr, std::move(p)}); } }
        }
        q.verify();
    }
    if (q.obtained > 4 && q.objs.size() > 1 && q.deaths && q.locks) c.nontrivial();
    while (!q.h.empty()) { q.h.pop_back(); q.verify(); } }
    CHECK_EQ(pbt::Tracked::live, live0);
}

// --- shared tuples ---
using Tr = pbt::Tracked;
struct TW { // one tuple and the pointers into it
    pbt::Ctx & c; std::weak_ptr<void> owner; std::vector<std::pair<std::shared_ptr<void const>, void const *>> h; size_t forms = 0;
    template <typename T> void put(std::shared_ptr<T> p, T * addr) { CHECK(p.get() == addr); h.emplace_back(std::move(p), addr); }
};
template <typename T> void bump(T & v) { ++v; } void bump(std::string & v) { v += "x"; } void bump(Tr & t) { ++t.v; } void bump(std::unique_ptr<int> & p) { ++*p; } void bump(int const &) {} void bump(std::tuple<int, Tr> & t) { ++std::get<0>(t); }
template <size_t I, typename Tp> void one(TW & w, std::shared_ptr<Tp> const & t) {
    auto p = sm::makeSharedTupleElementPtr<I>(t); static_assert(std::is_same<decltype(p), std::shared_ptr<typename std::tuple_element<I, Tp>::type>>::value && noexcept(sm::makeSharedTupleElementPtr<I>(t)), "");
    bump(*p); CHECK(!(std::owner_less<>()(p, t)) && !(std::owner_less<>()(t, p))); w.put(std::move(p), &std::get<I>(*t));
}
template <size_t ... Is, typename Tp, typename P, size_t ... Ks> void some2(TW & w, std::shared_ptr<Tp> const & t, P & p, std::index_sequence<Ks...>) { int x[] = {0, (w.put(std::get<Ks>(p), &std::get<Is>(*t)), 0)...}; (void)x; }
template <size_t ... Is, typename Tp> void some(TW & w, std::shared_ptr<Tp> const & t) {
    auto p = sm::makeSharedTupleElementPtrs<Is...>(t); static_assert(std::is_same<decltype(p), std::tuple<std::shared_ptr<typename std::tuple_element<Is, Tp>::type>...>>::value && noexcept(sm::makeSharedTupleElementPtrs<Is...>(t)), "");
    some2<Is...>(w, t, p, std::index_sequence_for<typename std::tuple_element<Is, Tp>::type...>());
}
template <typename Tp, size_t ... Is> void all(TW & w, std::shared_ptr<Tp> const & t, std::index_sequence<Is...>) {
    auto p = sm::makeAllSharedTupleElementPtrs(t); static_assert(std::is_same<decltype(p), std::tuple<std::shared_ptr<typename std::tuple_element<Is, Tp>::type>...>>::value && noexcept(sm::makeAllSharedTupleElementPtrs(t)), "");
    int x[] = {0, (w.put(std::get<Is>(p), &std::get<Is>(*t)), 0)...}; (void)x;
}
template <typename Tp, size_t I = 0, bool = (I < std::tuple_size<Tp>::value)> struct Nth { static void go(TW & w, std::shared_ptr<Tp> const & t, size_t i) { if (i == I) one<I>(w, t); else Nth<Tp, I + 1>::go(w, t, i); } };
template <typename Tp, size_t I> struct Nth<Tp, I, false> { static void go(TW &, std::shared_ptr<Tp> const &, size_t) {} };
template <typename Tp, size_t ... Rot, typename ... A> void tuples(pbt::Ctx & c, A && ... args) {
    long const live0 = Tr::live; constexpr size_t N = std::tuple_size<Tp>::value; TW w{c}; size_t n = 0, live = 0; bool early = false;
    auto t = std::make_shared<Tp>(std::forward<A>(args)...); live = (size_t)Tr::live; w.owner = t;
    while (c.more(n, 10, 30)) {
        ++n;
        switch (c.weighted({3, 2, 2, 5, 1})) {
        case 0: if (t && N) { size_t const i = c.draw(N - 1); c.trace("pointer to element %zu", i); Nth<Tp>::go(w, t, i); w.forms |= 1; } break;
        case 1: if (t) { c.trace("pointers to chosen elements"); some<Rot...>(w, t); some<>(w, t); w.forms |= 2; } break;
        case 2: if (t) { c.trace("pointers to all elements"); all(w, t, std::make_index_sequence<N>()); w.forms |= 4; } break;
        case 3: if (!w.h.empty()) { size_t const i = c.draw(w.h.size() - 1); w.h.erase(w.h.begin() + i); } break;
        default: if (t && !w.h.empty()) { c.trace("drop the tuple pointer"); early = true; t.reset(); } }
        long const owners = (long)w.h.size() + (t ? 1 : 0); CHECK_EQ(w.owner.use_count(), owners);
        CHECK_EQ(Tr::live, owners ? (long)live : live0);
        for (auto const & x : w.h) CHECK(x.first.get() == x.second);
    }
    if (early && w.forms > 1) c.nontrivial();
    while (!w.h.empty()) { CHECK_EQ(Tr::live, (long)live); w.h.pop_back(); } t.reset(); CHECK(w.owner.expired()); CHECK_EQ(Tr::live, live0);
}
PBT_PROP(sharedTuples, 30000, 500000, "pointers of at least two forms, elements outliving the pointer to the tuple") {
    switch (c.draw(6)) {
    case 0: tuples<std::tuple<Tr>, 0, 0>(c, Tr(1)); break;
    case 1: tuples<std::tuple<Tr, int>, 1>(c, Tr(1), 2); break;
    case 2: tuples<std::tuple<int, int, Tr>, 2, 0>(c, 3, 4, Tr(1)); break;
    case 3: tuples<std::tuple<std::string, Tr, char, Tr, double>, 3, 1, 3, 0>(c, "s", Tr(1), 'c', Tr(2), 1.5); break;
    case 4: tuples<std::tuple<std::unique_ptr<int>, int const, Tr>, 1, 0>(c, std::unique_ptr<int>(new int(5)), 7, Tr(3)); break;
    case 5: tuples<std::tuple<std::tuple<int, Tr>, char, char, char, Tr, long, Tr, short>, 7, 5, 0, 6, 4>(c, std::tuple<int, Tr>(1, Tr(0)), 'a', 'b', 'c', Tr(1), 9l, Tr(2), (short)3); break;
    default: { auto t = std::make_shared<std::tuple<>>(); auto p = sm::makeAllSharedTupleElementPtrs(t); static_assert(std::is_same<decltype(p), std::tuple<>>::value, ""); CHECK_EQ(t.use_count(), 1); }
    }
}

// --- scope exits ---
struct Thrown { int v; }; struct FromAction { int v; };
struct Scopes {
    pbt::Ctx & c; std::vector<int> log, expected; int next = 0; unsigned depth = 0; size_t ways = 0, budget = 25, acted = 0; bool copied = false;
    // Every scope object appends its number when it acts:
    void act(int id) { log.push_back(id); ++acted; }
    void pushed(int id) { open.push_back(id); }
    std::vector<int> open; // numbers of the actions still to be run, innermost last
    struct Scope { Scopes & s; size_t const base; explicit Scope(Scopes & s_) : s(s_), base(s_.open.size()) { ++s.depth; } ~Scope() { --s.depth; while (s.open.size() > base) { s.expected.push_back(s.open.back()); s.open.pop_back(); } } };
    template <typename S> void tryCopy(S const & s, int id, std::true_type) { S copy(s); copied = true; c.trace("copy of %d", id); } // must not act for its source
    template <typename S> void tryCopy(S const &, int, std::false_type) {}
    template <typename S> void tryAssign(S & a, S const & b, std::true_type) { a = b; }
    template <typename S> void tryAssign(S &, S const &, std::false_type) {}
    sm::ScopeExit made(int id) { return sm::ScopeExit([this, id] { act(id); }); }
    static void fn(Scopes * s, int id) { s->act(id); }
    // Some way of making scope exits, then something else, then some way out:
    int body() {
        Scope scope(*this); int const id = next++; unsigned const form = (unsigned)c.draw(5), out = (unsigned)c.draw(6); c.trace("scope %d form %u way out %u", id, form, out); ways |= 1u << out;
        switch (form) {
        case 0: { pushed(id); SHAREMIND_SCOPE_EXIT(this->act(id)); return leave(out, id); }
        case 1: { pushed(id); sm::ScopeExit const e([this, id] { act(id); }); int const r = leave(out, id); tryCopy(e, id, std::is_copy_constructible<sm::ScopeExit>()); return r; }
        case 2: { pushed(id); sm::ScopeExit const e(std::bind(&Scopes::fn, this, id)); return leave(out, id); }
        case 3: { int const id2 = next++, id3 = next++; pushed(id); pushed(id2); pushed(id3); SHAREMIND_SCOPE_EXIT(this->act(id));
                  SHAREMIND_SCOPE_EXIT({ if (id2) this->act(id2); });
                  SHAREMIND_SCOPE_EXIT(int x = id3, y = 0; this->act(x + y)); return leave(out, id); }
        case 4: { // both keep their own actions
                  int const id2 = next++; pushed(id); pushed(id2); sm::ScopeExit a([this, id] { act(id); }); sm::ScopeExit b([this, id2] { act(id2); }); tryAssign(a, b, std::is_copy_assignable<sm::ScopeExit>()); return leave(out, id); }
        default: { // handed over: the new owner acts at the end of its scope
                  bool const inner = c.coin(); pushed(id);
                  auto e = sm::makeScopeExit([this, id] { act(id); });
                  if (!inner) { int const id2 = next++; pushed(id2); sm::ScopeExit before([this, id2] { act(id2); }); auto f(std::move(e)); open.pop_back(); open.pop_back(); open.push_back(id2); open.push_back(id); return leave(out, id); }
                  { auto f(std::move(e)); open.pop_back(); expected.push_back(id); }
                  CHECK(log == expected); return leave(out, id); }
        }
    }
    int inner(int id) { if (budget && depth < 6 && c.coin()) { --budget; return body(); } return id; }
    int leave(unsigned out, int id) {
        switch (out) {
        case 0: return inner(id);
        case 1: for (int i = 0; i < 3; ++i) { int const k = next++; { Scope s(*this); pushed(k); SHAREMIND_SCOPE_EXIT(this->act(k)); inner(k); if (i == 1) break; if (i == 0) continue; } } return id;
        case 2: throw Thrown{id};
        case 3: { try { Scope s(*this); int const k = next++; pushed(k); SHAREMIND_SCOPE_EXIT(this->act(k)); inner(k); throw Thrown{k}; } catch (Thrown const &) {} CHECK(log == expected); return id; }
        case 4: { { Scope s(*this); int const k = next++; pushed(k); SHAREMIND_SCOPE_EXIT(this->act(k)); if (c.coin()) goto end; inner(k); } end: return id; }
        case 5: { int const k = next++; bool caught = false; // the action may throw, which leaves the scope with that exception
                  try { Scope s(*this); pushed(k); SHAREMIND_SCOPE_EXIT(this->act(k); throw FromAction{k}); } catch (FromAction const & e) { caught = e.v == k; } CHECK(caught); return inner(id); }
        default: { auto f = [&]() -> int { Scope s(*this); int const k = next++; pushed(k); SHAREMIND_SCOPE_EXIT(this->act(k)); return inner(k); }; f(); return id; }
        }
    }
};
PBT_PROP(scopeExit, 20000, 300000, "at least four actions over at least two ways out of scopes") {
    Scopes s{c}; size_t n = 0;
    do { try { s.body(); } catch (Thrown const &) {} CHECK(s.open.empty());
         CHECKM(s.log == s.expected, "%zu actions run, %zu expected (or in another order)", s.log.size(), s.expected.size()); } while (c.more(n++, 2, 8));
    if (s.acted >= 4 && __builtin_popcountll(s.ways) >= 2) c.nontrivial();
}

// --- global deleter ---
struct Plain { long a[3]; };
struct Own { static int deleted; int v; static void operator delete(void *) { ++deleted; } };
int Own::deleted = 0;
PBT_PROP(globalDeleter, 2000, 20000, "at least two blocks released") { // leaks, double and mismatched frees are seen by the sanitizer
    std::vector<std::unique_ptr<void, sm::GlobalDeleter>> v; size_t n = 0, released = 0; static_assert(sizeof(std::unique_ptr<void, sm::GlobalDeleter>) == sizeof(void *), "");
    while (c.more(n, 10, 40)) {
        ++n;
        switch (c.draw(4)) {
        case 0: { size_t const sz = c.draw(200); void * p = ::operator new(sz); memset(p, 1, sz); v.emplace_back(p); break; }
        case 1: { std::unique_ptr<Plain, sm::GlobalDeleter::type> p(new (::operator new(sizeof(Plain))) Plain{}); v.emplace_back(std::move(p)); break; }
        case 2: if (!v.empty()) { v.erase(v.begin() + c.draw(v.size() - 1)); ++released; } break;
        case 3: { std::unique_ptr<Own, sm::GlobalDeleter> p(new Own{3}); p.reset(); CHECK_EQ(Own::deleted, 0); ++released; break; } // not the deallocation function of the class
        default: { std::shared_ptr<void> p(::operator new(8), sm::GlobalDeleter()); sm::GlobalDeleter d, e(d), f(std::move(e)); d = f; d(nullptr); d(::operator new(1)); ++released; } }
    }
    if (released >= 2) c.nontrivial();
}
}
static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;
