// C06: futures under every interleaving of fulfilling and observing threads.
#include <sharemind/Future.h>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
using namespace sharemind;

struct V { int a; std::shared_ptr<int> own; explicit V(int x) : a(x), own(std::make_shared<int>(x)) {} };
struct Exc { int a; };
struct Box { int v; }; // written without synchronization by the fulfilling thread

template <typename T> struct Tr;
template <> struct Tr<V> {
    static void set(Promise<V> & p, int v, int how) { switch (how) { case 0: p.setValue(V(v)); break; case 1: { V const x(v); p.setValue(x); break; } default: p.emplaceValue(v); } }
    static int take(Future<V> & f) { V x(f.takeValue()); CHECK(x.own && *x.own == x.a); return x.a; }
};
template <> struct Tr<void> {
    static void set(Promise<void> & p, int, int how) { if (how) p.setReady(); else p.setValue(); }
    static int take(Future<void> & f) { f.takeValue(); return 0; }
};
enum How { SetValue, SetExc, Abandon, Destroy };
char const * const howName[] = {"set a value", "set an exception", "abandon", "destroy"};
// outcome encoding: value v >= 0, -1 broken, -2 exception
template <typename T> int outcome(Future<T> & f) {
    try { return Tr<T>::take(f); } catch (Exc const & e) { CHECK_EQ(e.a, 77); return -2; } catch (BrokenPromiseException const &) { return -1; }
}
template <typename T> int expected(int how, int v) { return how == SetValue ? (std::is_void<T>::value ? 0 : v) : how == SetExc ? -2 : -1; }

template <typename T> void fulfil(std::unique_ptr<Promise<T>> & p, int how, int v) {
    switch (how) {
    case SetValue: Tr<T>::set(*p, v, v % 3); break;
    case SetExc: if (v & 1) p->setException(Exc{77}); else p->setException(std::make_exception_ptr(Exc{77})); break;
    case Abandon: p->abandon(); break;
    default: p.reset();
    }
}

// what an observer does with a future before its last operation
struct Obs { unsigned op; unsigned d; };
template <typename T> void observe(Future<T> const & f, std::vector<Obs> const & ops, Box const & b) {
    bool seen = false;
    auto ready = [&] { seen = true; CHECK_EQ(b.v, 42); };
    for (auto & o : ops) {
        switch (o.op) {
        case 0: { bool const r = f.isReady(); CHECK(r || !seen); if (r) ready(); break; }
        case 1: { uint64_t const t0 = sched::now(); bool const r = f.waitFor(std::chrono::microseconds(o.d)); CHECK(r || !seen); if (r) ready(); else CHECK(sched::now() >= t0 + o.d * 1000); break; }
        case 2: { auto const tp = std::chrono::steady_clock::now() + std::chrono::microseconds(o.d); bool const r = f.waitUntil(tp); CHECK(r || !seen); if (r) ready(); else CHECK(std::chrono::steady_clock::now() >= tp); break; }
        case 3: { auto const tp = std::chrono::system_clock::now() + std::chrono::microseconds(o.d); bool const r = f.waitUntil(tp); CHECK(r || !seen); if (r) ready(); else CHECK(std::chrono::system_clock::now() >= tp); break; }
        case 4: f.wait(); ready(); CHECK(f.isReady()); break;
        default: sched::yield();
        }
    }
}
std::vector<Obs> genOps(pbt::Ctx & c, size_t mx, bool allowWait) {
    std::vector<Obs> v; size_t n = c.draw(mx);
    for (size_t i = 0; i < n; ++i) { Obs o{c.weighted({3, 2, 1, 1, allowWait ? 2u : 0u, 1}), c.pick<unsigned>({0, 1, 5, 40})}; v.push_back(o); c.trace("    %s %u", o.op == 0 ? "poll" : o.op == 1 ? "waitFor" : o.op == 2 ? "waitUntil" : o.op == 3 ? "waitUntil(system)" : o.op == 4 ? "wait" : "yield", o.d); }
    return v;
}

// Several threads wait on one future, then it is taken.
template <typename T> void waiters(pbt::Ctx & c) {
    int const how = (int)c.draw(3), val = (int)c.draw(5); unsigned const nw = 1 + c.draw(2), delay = c.draw(3), early = c.draw(2);
    c.trace("%u waiters, the promise will: %s", nw, howName[how]);
    std::vector<std::vector<Obs>> ops;
    for (unsigned i = 0; i < nw; ++i) { c.trace("  waiter"); ops.push_back(genOps(c, 3, true)); }
    sched::run(c, [&] {
        Box b{0};
        std::unique_ptr<Promise<T>> p(new Promise<T>());
        Future<T> f(p->takeFuture());
        if (early == 1) p.reset(new Promise<T>(std::move(*p)));
        std::vector<std::thread> ts;
        ts.emplace_back([&] { for (unsigned i = 0; i < delay; ++i) sched::yield(); b.v = 42; fulfil(p, how, val); });
        for (unsigned i = 0; i < nw; ++i) ts.emplace_back([&, i] { observe<T>(f, ops[i], b); f.wait(); CHECK_EQ(b.v, 42); CHECK(f.isReady()); });
        for (unsigned i = 1; i <= nw; ++i) ts[i].join();
        CHECK(f.isReady()); CHECK_EQ(b.v, 42);
        int const o = outcome(f);
        CHECK_EQ(o, expected<T>(how, val));
        ts[0].join();
    });
}

enum CK { CVal, CThrow, CEcho, CFut, CVoid };
char const * const ckName[] = {"returns a value", "throws", "echoes", "returns another future", "returns nothing"};

// Attaches continuation i to a future of any type, giving a Future<V>.
struct Attach {
    std::vector<int> const & ks; std::function<void(size_t, int)> rr; std::shared_ptr<Future<V>> f2;
    template <typename X> Future<V> go(Future<X> && g, size_t i) {
        auto const * r = &rr; auto ff2 = f2;
        std::unique_ptr<int> guard(new int(1));
        switch (ks[i]) {
        case CFut: return g.then([i, r, ff2](Future<X> x) -> Future<V> { (*r)(i, outcome(x)); return std::move(*ff2); });
        case CVoid: return g.then([i, r](Future<X> x) { (*r)(i, outcome(x)); }).then([](Future<void> x) { x.takeValue(); return V(0); });
        case CEcho: return g.then([i, r](Future<X> x) -> V { int const o = outcome(x); (*r)(i, o); if (o == -2) throw Exc{77}; if (o == -1) throw BrokenPromiseException(); return V(o); });
        case CThrow: return g.then([i, r, u = std::move(guard)](Future<X> x) -> V { (*r)(i, outcome(x)); throw Exc{*u + 76}; });
        default: return g.then([i, r](Future<X> && x) { CHECK(x.isReady()); (*r)(i, outcome(x)); return V(100 + (int)i); });
        }
    }
};

// One thread fulfils, another observes and takes, drops or attaches a chain
// whose result a third one takes.
template <typename T> void chains(pbt::Ctx & c) {
    int const how = (int)c.draw(3), val = (int)c.draw(5), how2 = (int)c.draw(3), val2 = (int)c.draw(5); unsigned const delay = c.draw(3);
    std::vector<int> ks; { size_t n = c.weighted({2, 4, 3, 1}); for (size_t i = 0; i < n; ++i) ks.push_back((int)c.draw(4)); }
    // at most one continuation returns the second promise's future
    bool fut = false; for (auto & k : ks) if (k == CFut) { if (fut) k = CVal; fut = true; }
    bool const take = ks.empty() ? c.coin() : !c.chance(1, 5), third = c.coin(), thirdAttaches = c.coin();
    bool const secondEarly = c.coin(); // the second promise is fulfilled by the first thread before the first one
    c.trace("promise will: %s; chain of %zu, result %s%s", howName[how], ks.size(), take ? "taken" : "dropped", third ? " by a third thread" : "");
    for (int k : ks) c.trace("  then: %s", ckName[k]);
    c.trace("  observer");
    auto const ops = genOps(c, 2, true);
    auto const ops3 = genOps(c, 2, true);
    // expected outcomes along the chain; a continuation's function takes its input
    std::vector<int> in, out; bool visible2 = false; (void)visible2;
    int cur = expected<T>(how, val);
    for (size_t i = 0; i < ks.size(); ++i) {
        in.push_back(cur);
        switch (ks[i]) {
        case CVal: cur = 100 + (int)i; break;
        case CThrow: cur = -2; break;
        case CEcho: break;
        case CFut: cur = expected<V>(how2, val2); break;
        default: cur = 0; // void is turned into V(0)
        }
        out.push_back(cur);
    }
    int const last = cur;
    std::vector<int> runs(ks.size(), 0);
    sched::run(c, [&] {
        Box b{0}, b2{0};
        std::unique_ptr<Promise<T>> p(new Promise<T>());
        std::unique_ptr<Promise<V>> p2(new Promise<V>());
        Future<T> f(p->takeFuture());
        auto f2(std::make_shared<Future<V>>(p2->takeFuture()));
        std::vector<std::thread> ts;
        if (fut && !secondEarly) ts.emplace_back([&] { b2.v = 42; fulfil(p2, how2, val2); });
        ts.emplace_back([&] {
            if (!fut || secondEarly) { b2.v = 42; fulfil(p2, how2, val2); }
            for (unsigned i = 0; i < delay; ++i) sched::yield();
            b.v = 42; fulfil(p, how, val);
        });
        auto ran = [&](size_t i, int got) { CHECK_EQ(b.v, 42); sched::Quiet q; if (runs[i]++) pbt::fail("continuation %zu ran twice", i); for (size_t j = 0; j < i; ++j) CHECK_EQ(runs[j], 1); CHECK_EQ(got, in[i]); };
        Attach at{ks, ran, f2};
        Future<V> result; bool has = false;
        std::thread obs([&] {
            observe<T>(f, ops, b);
            Future<T> g; if (val & 1) std::swap(g, f); else g = std::move(f);
            if (ks.empty()) { if (take) { int const o = outcome(g); CHECK_EQ(o, expected<T>(how, val)); CHECK_EQ(b.v, 42); } return; }
            size_t const upto = third && thirdAttaches ? 1 : ks.size();
            Future<V> r(at.go(std::move(g), 0));
            CHECK(!g.isValid());
            for (size_t i = 1; i < upto; ++i) r = at.go(std::move(r), i);
            if (!third && take) { observe<V>(r, ops3, b); int const o = outcome(r); CHECK_EQ(o, last); CHECK_EQ(b.v, 42); }
            else { result = std::move(r); has = true; }
        });
        if (third) {
            obs.join();
            if (has) {
                std::thread th([&] {
                    Future<V> r(std::move(result));
                    if (thirdAttaches) for (size_t i = 1; i < ks.size(); ++i) r = at.go(std::move(r), i);
                    if (take) { observe<V>(r, ops3, b); int const o = outcome(r); CHECK_EQ(o, last); CHECK_EQ(b.v, 42); if (fut) {} }
                });
                th.join();
            }
        } else obs.join();
        for (auto & t : ts) t.join();
        { sched::Quiet q; for (size_t i = 0; i < ks.size(); ++i) CHECKM(runs[i] == 1, "continuation %zu ran %d times", i, runs[i]); }
    });
    if (!ks.empty()) c.label("continuation attached concurrently");
    if (fut) c.label("continuation returned a future");
}

// A packaged task run, abandoned or moved in another thread.
template <typename R> struct Ret { static R mk(int v); };
template <> V Ret<V>::mk(int v) { return V(v); }
template <> void Ret<void>::mk(int) {}
template <typename R> void tasks(pbt::Ctx & c) {
    unsigned const mode = c.draw(2), chain = c.draw(1); int const val = (int)c.draw(5);
    c.trace("packaged task is %s%s", mode == 0 ? "run" : mode == 1 ? "run and throws" : "destroyed", chain ? ", continuation attached" : "");
    auto const ops = genOps(c, 3, true);
    int const exp = mode == 0 ? (std::is_void<R>::value ? 0 : val) : mode == 1 ? -2 : -1;
    int runs = 0, cruns = 0;
    sched::run(c, [&] {
        Box b{0};
        PackagedTask<R(int)> t([&](int v) -> R { { sched::Quiet q; ++runs; } if (mode == 1) throw Exc{77}; return Ret<R>::mk(v); });
        Future<R> f(t.takeFuture());
        std::thread th([&] { PackagedTask<R(int)> u(std::move(t)); b.v = 42; if (mode < 2) u(val); });
        observe<R>(f, ops, b);
        if (chain) {
            auto g(f.then([&](Future<R> x) { CHECK_EQ(b.v, 42); int const o = outcome(x); sched::Quiet q; ++cruns; CHECK_EQ(o, exp); return 7; }));
            if (val & 1) th.join();
            CHECK_EQ(g.takeValue(), 7); CHECK_EQ(b.v, 42);
        } else { int const o = outcome(f); CHECK_EQ(o, exp); CHECK_EQ(b.v, 42); }
        if (th.joinable()) th.join();
    });
    CHECK_EQ(runs, mode < 2 ? 1 : 0); CHECK_EQ(cruns, (int)chain);
}
}

PBT_PROP(wait, 120000, 5000000, "one fulfilling and 1-3 waiting threads on one future; non-trivial if at least one preemption happened") {
    if (c.coin()) waiters<V>(c); else waiters<void>(c);
    c.nontrivial(sched::switches() >= 1);
}
PBT_PROP(continuations, 150000, 6000000, "a fulfilling, an observing/attaching and a result-taking thread over a chain of 0-3 continuations; non-trivial if at least one preemption happened") {
    if (c.coin()) chains<V>(c); else chains<void>(c);
    c.nontrivial(sched::switches() >= 1);
}
PBT_PROP(packaged, 40000, 1500000, "a packaged task run, throwing or destroyed in another thread; non-trivial if at least one preemption happened") {
    if (c.coin()) tasks<V>(c); else tasks<void>(c);
    c.nontrivial(sched::switches() >= 1);
}

// A waiter on its own waits for its time, no less and no more, or not at all.
PBT_PROP(timeout, 4000, 100000, "the future is not ready and the time is not zero") {
    unsigned const kind = (unsigned)c.draw(2), isSet = (unsigned)c.draw(3); uint64_t const us = c.pick<uint64_t>({0, 1, 300, 1000, 65536, 3000000, 5000000000ull}); c.trace("%s for %llu us, %s", kind ? "waitUntil" : "waitFor", (unsigned long long)us, isSet == 0 ? "set" : isSet == 1 ? "failed" : "pending");
    sched::run(c, [&] {
        sharemind::Promise<int> p; auto f(p.takeFuture()); if (isSet == 0) p.setValue(7); else if (isSet == 1) p.setException(std::make_exception_ptr(3));
        for (int k = 0; k < 2; ++k) {
            auto const d = std::chrono::microseconds(us); auto const t0 = sched::now();
            bool const r = kind == 0 ? f.waitFor(d) : kind == 1 ? f.waitUntil(std::chrono::steady_clock::now() + d) : f.waitUntil(std::chrono::system_clock::now() + d);
            auto const took = sched::now() - t0;
            CHECK_EQ(r, isSet < 2); CHECK_EQ(f.isReady(), isSet < 2);
            if (!r && took < us * 1000) pbt::fail("gives up %llu ns early", (unsigned long long)(us * 1000 - took));
            if (took > (r ? 0 : us * 1000) + 1000000) pbt::fail("waits %llu ns for %llu us", (unsigned long long)took, (unsigned long long)us);
        }
        if (isSet >= 2) p.setValue(1);
    });
    if (isSet >= 2 && us) c.nontrivial();
}
