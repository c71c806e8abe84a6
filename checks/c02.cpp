// C02: one producer, one consumer, all interleavings under the controlled scheduler.
#include <condition_variable>
#include <limits>
#include <memory>
#include <mutex>
#include <sharemind/CircBufferSCSP.h>
#include <thread>
#include "ctl.h"

namespace {
struct OtherMutex { std::mutex m; void lock() { m.lock(); } void unlock() { m.unlock(); } bool try_lock() { return m.try_lock(); } };
struct Stop {};

template <typename Locking> void spsc(pbt::Ctx & c) {
    size_t const unit = c.chance(1, 10) ? 2 + c.draw(c.coin() ? 100 : 5000) : 1, cap = (1 + c.draw(3)) * unit + c.draw(unit - 1), total = (1 + c.draw(9)) * unit; // usually small, sometimes in larger pieces
    unsigned const pmodes = c.draw(63), cmodes = c.draw(63);
    unsigned plan[32], cplan[32];
    for (auto & p : plan) p = c.draw(255);
    for (auto & p : cplan) p = c.draw(255);
    bool const stopConsumer = c.chance(1, 4), stopProducer = !stopConsumer && c.chance(1, 5);
    c.trace("capacity %zu, %zu elements%s", cap, total, stopConsumer ? ", consumer stopped at the end" : stopProducer ? ", producer stopped" : "");
    bool waited = false;
    sched::run(c, [&] {
        sharemind::CircBufferSCSP<int, Locking> b(cap);
        std::atomic<bool> stop{false};
        auto const stopTest = [&stop] { if (stop.load(std::memory_order_acquire)) throw Stop{}; };
        size_t consumedTotal = 0;
        std::thread producer([&] {
            size_t sent = 0, it = 0;
            try {
                for (;;) {
                    if (sent >= total && !stopProducer) break;
                    unsigned const p = plan[it++ % 32];
                    size_t const left = stopProducer ? 1000 * unit : total - sent;
                    // wait for space
                    size_t space;
                    switch (stopProducer ? 1 : (p & 3)) {
                    case 0: space = b.waitSpaceAvailable(); CHECK(space > 0); break;
                    case 1: space = b.waitSpaceAvailable(stopTest, std::chrono::milliseconds(3)); CHECK(space > 0); break;
                    case 2: while (!(space = b.spaceAvailable())) sched::yield(); break;
                    default: while (b.full()) sched::yield(); space = b.spaceAvailable(); CHECK(space > 0);
                    }
                    CHECK(space <= cap);
                    size_t const want = std::min<size_t>(left, (1 + (p >> 2) % 4) * unit);
                    size_t done = 0;
                    switch ((p >> 4) % 3) {
                    case 0: {
                        std::vector<int> dv(want); int * const d = dv.data(); for (size_t i = 0; i < want; ++i) d[i] = int(sent + i + 1);
                        done = b.write(d, want);
                        CHECK(done >= std::min(want, space)); CHECK(done <= want);
                        break; }
                    case 1: {
                        size_t ube = 0; size_t const s = b.spaceAvailable(ube);
                        CHECK(s >= space); CHECK(ube > 0);
                        done = std::min(want, ube);
                        for (size_t i = 0; i < done; ++i) b.arrayStart()[b.writeOffset() + i] = int(sent + i + 1);
                        b.haveWritten(done);
                        break; }
                    default: {
                        size_t n0 = sent, lim = want;
                        done = b.write([&n0, &lim](int * q, size_t n) noexcept -> size_t {
                            size_t const k = std::min(n, lim);
                            for (size_t i = 0; i < k; ++i) q[i] = int(n0 + i + 1);
                            n0 += k; lim -= k; return k; });
                        CHECK(done >= 1);
                    } }
                    sent += done;
                }
            } catch (Stop) { CHECK(stop.load()); }
        });
        std::thread consumer([&] {
            size_t got = 0, it = 0;
            try {
                for (;;) {
                    if (got >= total && !stopConsumer) break;
                    unsigned const p = cplan[it++ % 32];
                    size_t avail;
                    switch (stopConsumer ? 1 : (p & 3)) {
                    case 0: avail = b.waitDataAvailable(); CHECK(avail > 0); break;
                    case 1: avail = b.waitDataAvailable(stopTest, std::chrono::milliseconds(3)); CHECK(avail > 0); break;
                    case 2: while (!(avail = b.dataAvailable())) sched::yield(); break;
                    default: while (b.empty()) sched::yield(); avail = b.dataAvailable(); CHECK(avail > 0);
                    }
                    CHECK(avail <= cap);
                    size_t const want = (1 + (p >> 2) % 4) * unit;
                    size_t done = 0;
                    switch ((p >> 4) % 3) {
                    case 0: {
                        std::vector<int> dv(want, -1); int * const d = dv.data();
                        done = b.read(d, want);
                        CHECK(done >= std::min(want, avail)); CHECK(done <= want);
                        for (size_t i = 0; i < done; ++i) CHECK_EQ(d[i], int(got + i + 1));
                        break; }
                    case 1: {
                        size_t ube = 0; size_t const s = b.dataAvailable(ube);
                        CHECK(s >= avail); CHECK(ube > 0);
                        done = std::min(want, ube);
                        for (size_t i = 0; i < done; ++i) CHECK_EQ(b.arrayStart()[b.readOffset() + i], int(got + i + 1));
                        b.haveRead(done);
                        break; }
                    default: {
                        size_t n0 = got, lim = want;
                        done = b.read([&n0, &lim](int const * q, size_t n) noexcept -> size_t {
                            size_t const k = std::min(n, lim);
                            for (size_t i = 0; i < k; ++i) CHECK_EQ(q[i], int(n0 + i + 1));
                            n0 += k; lim -= k; return k; });
                        CHECK(done >= 1);
                    } }
                    got += done;
                    CHECK(stopProducer || got <= total);
                }
            } catch (Stop) { CHECK(stop.load()); CHECK(stopConsumer); }
            consumedTotal = got;
        });
        if (stopProducer) { consumer.join(); stop.store(true, std::memory_order_release); producer.join(); }
        else { producer.join(); if (stopConsumer) { stop.store(true, std::memory_order_release); } consumer.join(); }
        if (!stopConsumer && !stopProducer) { CHECK_EQ(consumedTotal, total); CHECK(b.empty()); CHECK_EQ(b.spaceAvailable(), cap); }
        if (stopConsumer) CHECK_EQ(consumedTotal + b.dataAvailable(), total);
    });
    (void)waited; (void)pmodes; (void)cmodes;
    if (sched::switches() > 0) c.label("preempted");
    if (total > cap) c.label("more elements than capacity");
    c.nontrivial(sched::switches() > 0 && total > cap);
}

// A side which waits must return, without time passing, on the *first* progress of the other side, since that may be all
// the progress there ever is: here the other side acts once and then itself waits until the first one has returned.
template <typename Locking> void pausing(pbt::Ctx & c) {
    size_t const cap = 1 + c.draw(4);
    unsigned const rounds = 1 + c.draw(4);
    unsigned plan[8];
    for (auto & p : plan) p = c.draw(1023);
    unsigned partial = 0;
    bool acted = false, cameBack = true, timed = false; // written and read in the run only under Quiet
    sched::Config cfg;
    // Every thread is blocked and time is about to pass: nobody may then be sleeping through what it waits for.
    cfg.idle = [&](uint64_t) { if (acted && !cameBack) pbt::fail("the waiter sleeps on although the other side has acted"); };
    sched::run(c, [&] {
        sharemind::CircBufferSCSP<int, Locking> b(cap);
        int w = 0, r = 0;
        std::mutex m;
        std::condition_variable cv;
        for (unsigned k = 0; k < rounds; ++k) {
            unsigned const p = plan[k];
            // Moves both positions on, so that rounds start at any offset:
            for (size_t i = (p >> 7) % (cap + 1); i; --i) {
                if (b.full()) { int x; CHECK_EQ(b.read(&x, 1), size_t(1)); CHECK_EQ(x, ++r); }
                ++w; CHECK_EQ(b.write(&w, 1), size_t(1));
            }
            bool const spaceRound = p & 1, released0 = p & 2;
            if (spaceRound) { while (!b.full()) { ++w; CHECK_EQ(b.write(&w, 1), size_t(1)); } }
            else { while (!b.empty()) { int x; CHECK_EQ(b.read(&x, 1), size_t(1)); CHECK_EQ(x, ++r); } }
            size_t const amount = 1 + (p >> 2) % cap;
            unsigned const mode = (p >> 5) % 3;
            if (amount < cap) ++partial;
            bool returned = false; bool const withStop = (p >> 9) & 1;
            { QUIET; acted = cameBack = false; timed |= withStop; }
            std::thread waiter([&] {
                if (withStop) {
                    auto const never = [] { sched::point(); };
                    auto const loop = std::chrono::milliseconds(1 + (p >> 4) % 40);
                    auto const s = spaceRound ? b.waitSpaceAvailable(never, loop) : b.waitDataAvailable(never, loop);
                    CHECK(s > 0); CHECK(s <= amount);
                } else if (spaceRound) { auto const s = b.waitSpaceAvailable(); CHECK(s > 0); CHECK(s <= amount); }
                else { auto const s = b.waitDataAvailable(); CHECK(s > 0); CHECK(s <= amount); }
                { QUIET; cameBack = true; }
                std::lock_guard<std::mutex> const g(m);
                returned = true; cv.notify_all();
            });
            std::thread actor([&] {
                if (released0) sched::yield();
                size_t done = 0;
                int d[5] = {};
                if (spaceRound) {
                    switch (mode) {
                    case 0: done = b.read(d, amount); break;
                    case 1: { size_t ube = 0; b.dataAvailable(ube); done = std::min(amount, ube); for (size_t i = 0; i < done; ++i) d[i] = b.arrayStart()[b.readOffset() + i]; b.haveRead(done); break; }
                    default: { size_t lim = amount, n = 0; done = b.read([&](int const * q, size_t s) noexcept -> size_t { size_t const t = std::min(s, lim); for (size_t i = 0; i < t; ++i) d[n++] = q[i]; lim -= t; return t; }); }
                    }
                    CHECK(done > 0); CHECK(done <= amount);
                    for (size_t i = 0; i < done; ++i) CHECK_EQ(d[i], ++r);
                } else {
                    int const w0 = w;
                    for (size_t i = 0; i < amount; ++i) d[i] = w0 + int(i) + 1;
                    switch (mode) {
                    case 0: done = b.write(d, amount); break;
                    case 1: { size_t ube = 0; b.spaceAvailable(ube); done = std::min(amount, ube); for (size_t i = 0; i < done; ++i) b.arrayStart()[b.writeOffset() + i] = d[i]; b.haveWritten(done); break; }
                    default: { size_t lim = amount, n = 0; done = b.write([&](int * q, size_t s) noexcept -> size_t { size_t const t = std::min(s, lim); for (size_t i = 0; i < t; ++i) q[i] = d[n++]; lim -= t; return t; }); }
                    }
                    CHECK(done > 0); CHECK(done <= amount);
                    w += int(done);
                }
                { QUIET; acted = true; }
                std::unique_lock<std::mutex> g(m);
                while (!returned) cv.wait(g);
            });
            waiter.join(); actor.join();
        }
        while (!b.empty()) { int x; CHECK_EQ(b.read(&x, 1), size_t(1)); CHECK_EQ(x, ++r); }
        CHECK_EQ(r, w);
    }, cfg);
    if (timed) c.label("waited with a stop test");
    if (partial) c.label("the other side made partial progress only");
    if (sched::switches() > 0) c.label("preempted");
    c.nontrivial(partial && sched::switches() > 0);
}
} // namespace

PBT_PROP(schedules, 400000, 12000000, "random schedule of a producer and a consumer with random waiting and transfer modes; non-trivial if the scheduler preempted at least once and the buffer had to be reused") {
    if (c.chance(1, 5)) spsc<sharemind::CircBufferScspLocking<OtherMutex>>(c); else spsc<sharemind::CircBufferScspLocking<>>(c);
}

PBT_PROP(pausing_peer, 150000, 4000000, "random rounds in which one side waits (with or without a stop test that never holds) and the other acts exactly once, then pauses until the wait has returned; non-trivial if the progress was partial and the scheduler preempted at least once") {
    if (c.chance(1, 5)) pausing<sharemind::CircBufferScspLocking<OtherMutex>>(c); else pausing<sharemind::CircBufferScspLocking<>>(c);
}
