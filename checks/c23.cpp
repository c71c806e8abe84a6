// C23: latches, simple waits, stop requests and threads started later, under
// controlled schedules with virtual time. Data passed through a primitive is
// plain memory, so that a missing ordering is reported as a race.
#include <sharemind/Durations.h>
#include <sharemind/Latch.h>
#include <sharemind/NoStartThread.h>
#include <sharemind/SimpleWait.h>
#include <sharemind/Spinwait.h>
#include <sharemind/Stoppable.h>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
namespace sm = sharemind;
template <typename T, typename F> T quiet(F && f) { sched::Quiet q; return f(); }
#define COUNT(...) { sched::Quiet q_; __VA_ARGS__; }

template <typename Counter> void latch(pbt::Ctx & c) {
    unsigned const n = 1 + (unsigned)c.draw(3), nt = 1 + (unsigned)c.draw(3), nw = (unsigned)c.draw(2); unsigned kind[5]; for (auto & k : kind) k = (unsigned)c.draw(2); unsigned share[4] = {}; for (unsigned i = 0; i < n; ++i) ++share[c.draw(nt - 1)];
    bool const deleteAtOnce = c.coin(); unsigned begun = 0, lasts = 0, waited = 0, andWaits = 0; bool blocked = false;
    sched::run(c, [&] {
        auto * l = new sm::Latch<Counter>((Counter)n); int data[4] = {}; std::vector<std::thread> ts;
        auto released = [&] { unsigned b; COUNT(b = begun) if (b < n) pbt::fail("a waiter was let through after %u of %u countdowns", b, n); for (unsigned j = 0; j < nt; ++j) if (data[j] != (int)share[j]) pbt::fail("a waiter does not see what was done before a countdown"); COUNT(++waited) };
        if (l->isReady()) pbt::fail("ready at once");
        for (unsigned i = 0; i < nt; ++i) ts.emplace_back([&, i] { // share[i] countdowns, the last one perhaps waiting
            for (unsigned k = 0; k < share[i]; ++k) {
                ++data[i]; COUNT(++begun)
                if (k + 1 == share[i] && kind[i] == 0 && !deleteAtOnce) { COUNT(++andWaits) l->countDownAndWait(); released(); if (!l->isReady()) pbt::fail("not ready after waiting"); }
                else { bool const last = l->countDown(); if (last) COUNT(++lasts) }
            }
        });
        for (unsigned i = 0; i < nw && !deleteAtOnce; ++i) ts.emplace_back([&, i] {
            if (kind[i] == 1) { while (!l->isReady()) { COUNT(blocked = true) sched::yield(); } } else l->wait();
            released(); if (!l->isReady()) pbt::fail("not ready any more"); l->wait();
        });
        if (deleteAtOnce) { if (kind[4]) l->wait(); else while (!l->isReady()) sched::yield(); released(); delete l; } // nobody touches it any more
        for (auto & t : ts) t.join();
        if (!deleteAtOnce) { if (!l->isReady()) pbt::fail("not ready after %u countdowns", n); l->wait(); delete l; }
    });
    CHECK_EQ(begun, n); CHECKM(andWaits ? lasts <= 1 : lasts == 1, "%u countdowns were told to be the last", lasts); if (deleteAtOnce) CHECK_EQ(waited, 1u);
    if (n >= 2 && (nw || andWaits || deleteAtOnce)) c.nontrivial(); if (deleteAtOnce) c.label("deleted when ready");
}
struct Stop {}; struct Other { int v; }; struct MoveOnly { std::unique_ptr<int> p; };
}
PBT_PROP(latch_, 8000, 250000, "at least two countdowns and a waiter") { if (c.coin()) latch<unsigned>(c); else if (c.coin()) latch<unsigned char>(c); else latch<unsigned long long>(c); }

PBT_PROP(simple_wait, 8000, 250000, "a waiter that may be stopped, or two waiters") {
    unsigned const nw = 1 + (unsigned)c.draw(2); unsigned kind[3]; for (auto & k : kind) k = (unsigned)c.draw(2); bool const notify = c.chance(3, 4), stop = !notify || c.coin(), twice = c.coin(), deleteAtOnce = notify && nw == 1 && kind[0] == 0 && !twice && c.coin(); uint64_t const pause = c.pick({(uint64_t)0, (uint64_t)3000000, (uint64_t)50000000}); bool notified = false, stopAsked = false; unsigned stopped = 0, done = 0;
    for (unsigned i = 0; i < nw; ++i) if (!notify && kind[i] == 0) kind[i] = 1;
    bool told = false; unsigned in = 0; sched::Config cfg; // once notified, nobody lets time pass in the wait
    cfg.idle = [&](uint64_t) { if (told && in) pbt::fail("a waiter sleeps on although it was notified"); };
    sched::run(c, [&] {
        auto * w = new sm::SimpleWait(); sm::Stoppable s; int data = 0, mine[3] = {}; std::vector<std::thread> ts;
        auto test = [&] { try { s.throwIfStopRequested<Stop>(); } catch (...) { bool b; COUNT(b = stopAsked) if (!b) pbt::fail("stopped without being asked to"); throw; } };
        for (unsigned i = 0; i < nw; ++i) ts.emplace_back([&, i] {
            try {
                struct In { unsigned & n; explicit In(unsigned & n_) : n(n_) { COUNT(++n) } ~In() { COUNT(--n) } }; std::unique_ptr<In> entered(new In(in));
                if (kind[i] == 0) w->wait(); else if (kind[i] == 1) w->waitOrStop(test); else w->waitOrStop(sm::Stoppable::TestActor<Stop>(s), std::chrono::milliseconds(1));
                entered.reset(); bool b; COUNT(b = notified) if (!b) pbt::fail("returned without being notified"); if (data != 7) pbt::fail("what was done before notifying is not seen"); mine[i] = 1;
                if (deleteAtOnce) { delete w; } else { w->wait(); w->waitOrStop([] { pbt::fail("waits after being notified"); }); } COUNT(++done)
            } catch (Stop const &) { if (kind[i] == 0) pbt::fail("stopped"); COUNT(++stopped) }
        });
        if (pause) std::this_thread::sleep_for(std::chrono::nanoseconds(pause));
        std::thread stopper; if (stop) stopper = std::thread([&] { COUNT(stopAsked = true) s.stop(); });
        if (notify) { data = 7; COUNT(notified = true) w->notifyReady(); COUNT(told = true) if (twice) w->notifyReady(); }
        for (auto & t : ts) t.join(); if (stop) stopper.join(); if (!deleteAtOnce) delete w;
    }, cfg);
    CHECK_EQ(done + stopped, nw); if (!stop) CHECK_EQ(stopped, 0u); if (!notify) CHECK_EQ(stopped, nw); bool may = false; for (unsigned i = 0; i < nw; ++i) may = may || kind[i]; if (may || nw > 1) c.nontrivial(); if (stopped) c.label("stopped"); if (done) c.label("notified");
}

// What every checker of a stop test sees, in any use of the interface.
struct Derived : sm::Stoppable { template <typename E> using Actor = CustomTestActor<Derived, E>; };
struct Own { int asked = 0; bool yes = false; template <typename E> void throwIfStopRequested() { ++asked; if (yes) throw E(); } };
PBT_PROP(stop_requests, 4000, 100000, "the request is made while another thread is checking") {
    unsigned const n = 1 + (unsigned)c.draw(2); unsigned kind[3]; for (auto & k : kind) k = (unsigned)c.draw(6); unsigned const before = (unsigned)c.draw(4); bool asked = false; unsigned early = 0;
    sched::run(c, [&] {
        Derived s; sm::Stoppable & base = s; std::vector<std::thread> ts;
        for (unsigned i = 0; i < n; ++i) ts.emplace_back([&, i] {
            sm::Stoppable::TestActor<Stop> const a(base); Derived::Actor<Stop> const d(s); Other const o{(int)i};
            auto test = [&] { // true if a stop was seen
                switch (kind[i]) {
                case 0: return base.stopRequested();
                case 1: try { base.throwIfStopRequested<Stop>(); return false; } catch (Stop const &) { return true; }
                case 2: try { base.throwIfStopRequested(Other{42}); return false; } catch (Other const & e) { if (e.v != 42) pbt::fail("another exception"); return true; }
                case 3: try { base.throwIfStopRequested(o); return false; } catch (Other const & e) { if (e.v != (int)i || &e == &o) pbt::fail("another exception"); return true; }
                case 5: { MoveOnly m{std::unique_ptr<int>(new int((int)i + 5))}; try { base.throwIfStopRequested(std::move(m)); if (!m.p || *m.p != (int)i + 5) pbt::fail("the exception was consumed without being thrown"); return false; } catch (MoveOnly const & e) { if (!e.p || *e.p != (int)i + 5) pbt::fail("another exception"); return true; } }
                case 4: try { a(); return false; } catch (Stop const &) { return true; }
                default: try { d(); return false; } catch (Stop const &) { return true; } }
            };
            for (;;) { bool const r = test(); if (r) { bool b; COUNT(b = asked) if (!b) pbt::fail("a stop that was not requested"); break; } COUNT(++early) sm::spinWait(); sched::yield(); }
            for (int k = 0; k < 3; ++k) { if (!test()) pbt::fail("the request is gone"); sched::point(); } // for good
        });
        for (unsigned i = 0; i < before; ++i) sched::yield();
        COUNT(asked = true) s.stop(); for (auto & t : ts) t.join();
        s.reset(); if (s.stopRequested()) pbt::fail("requested after the reset"); s.throwIfStopRequested<Stop>(); s.stop(); if (!s.stopRequested()) pbt::fail("not requested again");
        Own w; sm::Stoppable::CustomTestActor<Own, Other> const x(w); x(); w.yes = true; bool threw = false; try { x(); } catch (Other const &) { threw = true; } if (!threw || w.asked != 2) pbt::fail("the custom test is not consulted");
    });
    if (early) c.nontrivial();
}

PBT_PROP(no_start, 6000, 150000, "the body is to run") {
    unsigned const setup = (unsigned)c.draw(3), end = (unsigned)c.draw(3); bool const start = c.coin(), other = c.coin(); bool started = false; int runs = 0; bool const body = setup != 3;
    sched::run(c, [&] {
        int in = 0, out = 0; auto probe = std::make_shared<int>(5); std::weak_ptr<int> watch = probe;
        auto f = [&, probe]() noexcept { bool b; COUNT(b = started; ++runs) if (!b) pbt::fail("the body runs before being started"); if (in != 3 || *probe != 5) pbt::fail("what was done before starting is not seen"); out = 4; sched::point(); };
        {
            std::unique_ptr<sm::NoStartThread> t(setup == 0 ? new sm::NoStartThread(f) : setup == 1 ? new sm::NoStartThread([]() noexcept { pbt::fail("a replaced function is run"); }) : new sm::NoStartThread());
            sched::yield(); if (setup == 1) { auto g = [&]() noexcept { f(); }; t->setFunction(g); } if (setup == 2) t->setFunction(f);
            probe.reset(); in = 3; if (!t->joinable()) pbt::fail("not joinable");
            auto go = [&] { COUNT(started = true) t->start(); };
            if (start) { if (other) std::thread(go).join(); else go(); }
            if (start && end == 0) { t->join(); if (t->joinable()) pbt::fail("joinable after joining"); } else if (end <= 1) { t->stop(); if (t->joinable()) pbt::fail("joinable after stopping"); if (end == 1) t->stop(); }
            if (end <= 1 && out != (start && body ? 4 : 0)) pbt::fail("the body did not run when it should have");
        }
        if (out != (start && body ? 4 : 0)) pbt::fail("the body did not run as it should have");
    });
    CHECK_EQ(runs, start && body ? 1 : 0); c.nontrivial(start && body); c.label(start ? "started" : "never started");
}

// Latches for any number of countdowns that the counter can hold.
template <typename Counter> void manyCountdowns(pbt::Ctx & c, uint64_t max) {
    uint64_t const n = c.coin() ? 1 + c.draw(max - 1 < 70000 ? max - 1 : 70000) : c.pick({(uint64_t)1, max < 256 ? max : (uint64_t)256, max < 257 ? max : (uint64_t)257, max < 65536 ? max : (uint64_t)65536, max < 65537 ? max : (uint64_t)65537});
    sm::Latch<Counter> l((Counter)n); c.trace("%llu countdowns", (unsigned long long)n); bool const wait = c.coin();
    for (uint64_t i = 1; i <= n; ++i) {
        if (i + 3 > n || i % 256 < 2) CHECKM(!l.isReady(), "ready after %llu of %llu countdowns", (unsigned long long)i - 1, (unsigned long long)n);
        if (i == n && wait) l.countDownAndWait(); else { bool const last = l.countDown(); CHECKM(last == (i == n), "countdown %llu of %llu says %d", (unsigned long long)i, (unsigned long long)n, last); }
    }
    CHECK(l.isReady()); l.wait(); CHECK(l.isReady()); if (n > 200) c.nontrivial();
}
PBT_PROP(latch_counts, 300, 20000, "more than 200 countdowns") { switch (c.draw(3)) { case 0: manyCountdowns<unsigned char>(c, 255); break; case 1: manyCountdowns<unsigned short>(c, 65535); break; case 2: manyCountdowns<unsigned long long>(c, ~0ull); break; default: manyCountdowns<unsigned>(c, ~0u); } }

// Latches of any size their counter can hold.
template <typename Counter> void largeLatch(pbt::Ctx & c, uint64_t const n) {
    sm::Latch<Counter> l((Counter)n); uint64_t const steps = std::min<uint64_t>(n, 70000); c.trace("a latch of %llu", (unsigned long long)n);
    for (uint64_t i = 1; i <= steps; ++i) { bool const last = l.countDown(); CHECK_EQ(last, i == n); if (i < 8 || i + 8 > steps || i % 256 < 2) CHECK_EQ(l.isReady(), i == n); }
    if (steps == n) l.wait();
    if (n > 255) c.nontrivial();
}
PBT_PROP(large_latch, 60, 1500, "more than 255 countdowns") {
    switch (c.draw(3)) {
    case 0: largeLatch<unsigned char>(c, 1 + c.draw(254)); break;
    case 1: largeLatch<unsigned short>(c, c.pick<uint64_t>({255, 256, 257, 65535}) - c.draw(1)); break;
    case 2: largeLatch<unsigned>(c, c.pick<uint64_t>({255, 256, 257, 65535, 65536, 65537, 0xffffffffu}) - c.draw(1)); break;
    default: largeLatch<unsigned long long>(c, c.pick<uint64_t>({256, 257, 65536, 65537, 0x100000000u, 0x100000001u, 0x100000100u, ~uint64_t(0)}) - c.draw(1)); }
}
