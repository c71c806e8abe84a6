// C34, schedules: the producers' queue and the ticket lock.
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>
#include <sharemind/Spinwait.h>
#include <sharemind/TicketSpinLock.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
namespace sm = sharemind;
// Moving leaves nothing behind and plain fields show missing ordering as races.
struct Item {
    int who = -1, seq = -1; std::unique_ptr<int> heap; long pad[3] = {};
    Item() {} Item(int w, int s) : who(w), seq(s), heap(new int(w * 1000 + s)) { for (auto & p : pad) p = w * 1000 + s; }
    Item(Item && m) noexcept { *this = std::move(m); }
    Item & operator=(Item && m) noexcept { who = m.who; seq = m.seq; heap = std::move(m.heap); for (int i = 0; i < 3; ++i) pad[i] = m.pad[i]; m.who = m.seq = -1; return *this; }
    void check() const { if (who < 0) pbt::fail("an item without data was popped"); if (!heap || *heap != who * 1000 + seq) pbt::fail("the popped data is not the data pushed"); for (long p : pad) if (p != who * 1000 + seq) pbt::fail("the popped data is not the data pushed"); }
};
using Q = sm::MpscWaitFreeSemiIntrusiveQueue<Item>; using Node = Q::Node;
struct Push { uint64_t start = 0, end = 0; long popped = -1; };
}

PBT_PROP(queue, 100000, 3000000, "two pushes overlap, or a pop overlaps a push") {
    unsigned const np = 1 + (unsigned)c.draw(2); std::vector<std::vector<unsigned>> prog(np); long total = 0;
    for (unsigned p = 0; p < np; ++p) { size_t const n = 1 + c.draw(4); for (size_t i = 0; i < n; ++i) prog[p].push_back((unsigned)c.draw(3)); total += (long)n; c.trace("producer %u: %zu pushes", p, n); }
    unsigned const style = (unsigned)c.draw(3), leave = c.chance(1, 3) ? (unsigned)c.draw((uint64_t)total) : 0; bool const selfPush = c.chance(1, 4);
    std::vector<std::vector<Push>> ev(np + 1); for (unsigned p = 0; p < np; ++p) ev[p].resize(prog[p].size()); ev[np].resize(2); bool overlap = false; unsigned inFlight = 0; long popped = 0, returned = 0;
    sched::run(c, [&] {
        std::unique_ptr<Q> q(new Q()); std::vector<std::unique_ptr<Node>> spare; std::mutex spareMutex;
        auto push = [&](unsigned p, size_t i, std::unique_ptr<Node> node) {
            { sched::Quiet z; ev[p][i].start = sched::steps(); if (inFlight++) overlap = true; }
            q->push(std::move(node));
            { sched::Quiet z; ev[p][i].end = sched::steps(); --inFlight; ++returned; }
        };
        auto producer = [&](unsigned p) {
            for (size_t i = 0; i < prog[p].size(); ++i) {
                std::unique_ptr<Node> node;
                if (prog[p][i] == 1) { std::lock_guard<std::mutex> g(spareMutex); if (!spare.empty()) { node = std::move(spare.back()); spare.pop_back(); } } // nodes are used again
                if (node) node->data = Item((int)p, (int)i); else node.reset(new Node((int)p, (int)i));
                if ((uintptr_t)node.get() % alignof(Node)) pbt::fail("a node is not aligned");
                push(p, i, std::move(node));
                if (prog[p][i] == 2) sched::yield();
            }
        };
        std::vector<std::thread> ts; for (unsigned p = 0; p < np; ++p) ts.emplace_back(producer, p);
        unsigned own = selfPush ? 2 : 0; long const want = total + own - leave; if (leave) own = 0;
        while (popped < (leave ? total - (long)leave : want)) {
            if (own && sched::draw(2) == 0) { --own; push(np, 1 - own, std::unique_ptr<Node>(new Node((int)np, (int)(1 - own)))); continue; }
            bool mustHave; { sched::Quiet z; mustHave = inFlight == 0 && returned > popped; if (inFlight) overlap = true; }
            if (style == 1) { bool const e = q->empty(); if (e && mustHave) pbt::fail("the queue is empty although items were pushed"); if (e) { sched::yield(); continue; } mustHave = true; }
            else if (style == 2) { bool const e = q->empty(); if (!e) mustHave = true; }
            auto n = q->pop();
            if (!n) { if (mustHave) pbt::fail("nothing was popped although there is an item"); sched::yield(); continue; }
            n->data.check();
            { sched::Quiet z; Item & x = n->data; if (x.who > (int)np || x.seq >= (int)ev[x.who].size()) pbt::fail("an unknown item"); Push & e = ev[x.who][x.seq]; if (e.popped >= 0) pbt::fail("an item was popped twice"); if (!e.start) pbt::fail("an item was popped before it was pushed"); e.popped = popped++; }
            if (style != 3) { n->data = Item(); std::lock_guard<std::mutex> g(spareMutex); spare.push_back(std::move(n)); }
        }
        if (!leave) { bool const e = q->empty(); if (!e || q->pop()) pbt::fail("more items came out than went in"); }
        for (auto & t : ts) t.join();
        if (leave && !q->pop()) pbt::fail("items were lost");
        q.reset();
    });
    // Order: an item whose push returned before another push began comes out first.
    for (auto & a : ev) for (auto & x : a) for (auto & b : ev) for (auto & y : b) if (x.start && y.start && x.end < y.start && y.popped >= 0) CHECKM(x.popped >= 0 && x.popped < y.popped, "an item overtook one which was pushed before it");
    if (overlap) c.nontrivial(); if (leave) c.label("destroyed with items left");
}

PBT_PROP(lock, 50000, 1500000, "a thread waits for the lock while another holds it") {
    unsigned const nt = 2 + (unsigned)c.draw(2); std::vector<unsigned> rounds(nt); for (auto & r : rounds) r = 1 + (unsigned)c.draw(4); unsigned const style = (unsigned)c.draw(2); bool contended = false; int inside = 0; unsigned total = 0; for (unsigned r : rounds) total += r;
    size_t const used = c.chance(1, 500) ? c.pick<size_t>({250, 254, 255, 256, 300}) : c.chance(1, 4000) ? c.pick<size_t>({65530, 65534, 65600}) : 0; sched::Config cfg; cfg.maxSteps += used * 50;
    sched::run(c, [&] {
        std::unique_ptr<sm::TicketSpinLock> lock(new sm::TicketSpinLock()); unsigned long plain[2] = {0, 0}; int waiting = 0;
        for (size_t i = 0; i < used; ++i) { lock->lock(); lock->unlock(); } // has been in use for a while
        auto body = [&](unsigned t) {
            for (unsigned r = 0; r < rounds[t]; ++r) {
                { sched::Quiet z; ++waiting; if (inside) contended = true; }
                if (style == 0) lock->lock(); std::unique_lock<sm::TicketSpinLock> g; if (style) g = std::unique_lock<sm::TicketSpinLock>(*lock);
                { sched::Quiet z; --waiting; if (inside++) pbt::fail("two threads are inside the lock"); }
                unsigned long const a = plain[0], b = plain[1]; if (a != b) pbt::fail("a holder does not see all of the last holder's work"); plain[0] = a + 1; sched::point(); if (style == 2) sched::yield(); plain[1] = b + 1;
                { sched::Quiet z; --inside; }
                if (style == 0) lock->unlock(); else g.unlock();
            }
        };
        std::vector<std::thread> ts; for (unsigned t = 1; t < nt; ++t) ts.emplace_back(body, t); body(0); for (auto & t : ts) t.join();
        lock->lock(); if (plain[0] != total) pbt::fail("an update was lost"); lock->unlock();
    }, cfg);
    if (contended) c.nontrivial();
}

// A thread which waits is admitted before every thread which arrives later.
PBT_PROP(fairness, 20000, 600000, "at least two threads wait") {
    unsigned const nt = 1 + (unsigned)c.draw(3), before = (unsigned)c.draw(3); bool const late = c.coin();
    std::vector<int> order;
    sched::run(c, [&] {
        std::unique_ptr<sm::TicketSpinLock> lock(new sm::TicketSpinLock()); for (unsigned i = 0; i < before; ++i) { lock->lock(); lock->unlock(); }
        lock->lock(); std::vector<std::thread> ts; std::atomic<int> id{-1};
        for (unsigned t = 0; t < nt; ++t) {
            id.store(-1, std::memory_order_relaxed);
            ts.emplace_back([&, t] { id.store(sched::self(), std::memory_order_relaxed); lock->lock(); { sched::Quiet q; order.push_back((int)t); } sched::point(); lock->unlock(); if (late) { lock->lock(); { sched::Quiet q; order.push_back(100 + (int)t); } lock->unlock(); } });
            while (id.load(std::memory_order_relaxed) < 0) sched::yield();
            int const who = id.load(std::memory_order_relaxed); uint64_t const s = sched::stepsOf(who);
            while (sched::stepsOf(who) < s + 40) sched::yield(); // it is waiting by now
        }
        { sched::Quiet q; if (!order.empty()) pbt::fail("a thread entered a locked lock"); }
        lock->unlock(); for (auto & t : ts) t.join();
    });
    CHECK(order.size() == nt * (late ? 2 : 1)); for (unsigned t = 0; t < nt; ++t) CHECKM(order[t] == (int)t, "a waiting thread was overtaken"); // all wait before anyone comes again
    if (nt > 1) c.nontrivial();
}

// The lock serves condition variables, and can go once the last holder has let go.
PBT_PROP(condition, 10000, 300000, "a thread waits for a condition which another makes true") {
    unsigned const n = 1 + (unsigned)c.draw(2); bool const handover = c.coin();
    sched::run(c, [&] {
        struct S { sm::TicketSpinLock m; std::condition_variable_any cv; unsigned value = 0; }; std::unique_ptr<S> s(new S()); std::vector<std::thread> ts;
        for (unsigned i = 0; i < n; ++i) ts.emplace_back([&, i] { std::unique_lock<sm::TicketSpinLock> l(s->m); s->cv.wait(l, [&] { return s->value % (n + 1) == i + 1; }); ++s->value; s->cv.notify_all(); });
        { std::lock_guard<sm::TicketSpinLock> g(s->m); s->value = 1; s->cv.notify_all(); }
        { std::unique_lock<sm::TicketSpinLock> l(s->m); s->cv.wait(l, [&] { return s->value == n + 1; }); }
        for (auto & t : ts) t.join(); s.reset();
        if (handover) { // the object may go as soon as the last unlock can be seen
            struct O { sm::TicketSpinLock m; bool done = false; }; O * const o = new O(); std::thread t([&] { o->m.lock(); o->done = true; o->m.unlock(); });
            for (;;) { o->m.lock(); bool const d = o->done; o->m.unlock(); if (d) break; sched::yield(); } delete o; t.join();
        }
        sm::spinWait();
    });
    c.nontrivial();
}
