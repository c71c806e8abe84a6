// C33, schedules: thread pools and strands.
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/Strand.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
namespace sm = sharemind;
using Pool = sm::ThreadPool; using Task = Pool::Task;

// What the harness itself uses to wait for tasks: orders nothing but the waiter after the tasks.
struct Done {
    std::mutex m; std::condition_variable cv; long n = 0;
    void add() { std::lock_guard<std::mutex> g(m); ++n; cv.notify_all(); }
    void wait(long k) { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return n >= k; }); }
};
// Oracle bookkeeping, only touched under Quiet.
struct Log { struct Run { int who, seq, thread; uint64_t step; }; std::vector<Run> runs; std::vector<int> count; int inside = 0; bool closed = false; unsigned most = 0; };
struct Enter { Log & l; Enter(Log & l, int id, int who, int seq) : l(l) { sched::Quiet q; if (l.closed) pbt::fail("a task runs after the pool or strand was stopped and joined"); if (++l.count[id] > 1) pbt::fail("task %d runs twice", id); l.runs.push_back({who, seq, sched::self(), sched::steps()}); if (++l.inside > (int)l.most) l.most = l.inside; } ~Enter() { sched::Quiet q; --l.inside; } };
// Closure state that must be intact when the task runs, whoever made it.
struct Payload { std::unique_ptr<int> p; explicit Payload(int v) : p(new int(v)) {} Payload(Payload && m) : p(std::move(m.p)) {} Payload(Payload const & o) : p(new int(*o.p)) {} };
enum Kind { Simple, Full, Reusable, Nested };
}

PBT_PROP(pool, 60000, 1500000, "two tasks are inside at once, or the pool stops with tasks left") {
    unsigned const workers = 1 + (unsigned)c.draw(2), nsub = 1 + (unsigned)c.draw(1); bool const early = c.chance(1, 3), joinFirst = c.coin(); unsigned const stopBy = (unsigned)c.draw(5);
    std::vector<std::vector<unsigned>> prog(nsub); std::vector<std::vector<unsigned>> reps(nsub);
    for (unsigned s = 0; s < nsub; ++s) { size_t const n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) { prog[s].push_back((unsigned)c.draw(3)); reps[s].push_back((unsigned)c.draw(2)); } }
    for (unsigned s = 0; s < nsub; ++s) for (size_t i = 0; i < prog[s].size(); ++i) c.trace("submitter %u: %s task, repeated %u times", s, (char const *[]){"simple", "full", "reusable", "nested"}[prog[s][i]], reps[s][i]);
    c.trace("%u workers, %s", workers, early ? "stopped at any time" : "stopped when done");
    long total = 0; std::vector<std::vector<int>> first(nsub); // ids of the runs of each task
    for (unsigned s = 0; s < nsub; ++s) for (size_t i = 0; i < prog[s].size(); ++i) { first[s].push_back((int)total); total += prog[s][i] == Simple ? 1 : 1 + reps[s][i]; }
    Log log; log.count.assign(total, 0); bool left = false;
    sched::run(c, [&] {
        Done done; std::vector<std::unique_ptr<Pool::ReusableTask>> reusable(32);
        {
            std::unique_ptr<sm::SimpleThreadPool> pool(new sm::SimpleThreadPool(workers)); Pool * const p = pool.get();
            auto body = [&](unsigned s) {
                for (size_t i = 0; i < prog[s].size(); ++i) {
                    int const id = first[s][i]; unsigned const n = reps[s][i]; Payload pay(id);
                    switch (prog[s][i]) {
                    case Simple: p->submit(Pool::createSimpleTask([&, pay, id, s, i] { Enter e(log, id, (int)s, (int)i); if (*pay.p != id) pbt::fail("the task lost its data"); sched::point(); done.add(); })); break;
                    case Full: { unsigned k = 0; p->submit(Pool::createTask([&, p, pay, id, s, i, n, k](Task && self) mutable { { Enter e(log, id + (int)k, (int)s, k ? 1000 : (int)i); if (*pay.p != id) pbt::fail("the task lost its data"); sched::point(); } Done & d = done; if (k++ < n) { p->submit(std::move(self)); d.add(); } else d.add(); })); break; }
                    case Reusable: {
                        auto k = std::make_shared<unsigned>(0); auto * slot = &reusable[s * 8 + i];
                        auto * const r = new Pool::ReusableTask([&, p, pay, id, s, i, n, k, slot] { unsigned const x = (*k)++; { Enter e(log, id + (int)x, (int)s, x ? 1000 : (int)i); if (*pay.p != id) pbt::fail("the task lost its data"); if (!**slot) pbt::fail("the reusable task is not back when it runs"); sched::point(); } Done & d = done; if (x < n) p->submit(std::move(**slot)); d.add(); });
                        slot->reset(r); p->submit(std::move(**slot)); if (*r && false) {} break; }
                    default: p->submit(Pool::createSimpleTask([&, p, pay, id, s, i, n] {
                        { Enter e(log, id, (int)s, (int)i); if (*pay.p != id) pbt::fail("the task lost its data"); }
                        Done & d = done; for (unsigned k = 1; k <= n; ++k) { int const child = id + (int)k; p->submit(Pool::createSimpleTask([&log, &d, child, s] { Enter e(log, child, (int)s, 1000); sched::point(); d.add(); })); }
                        d.add(); }));
                    }
                }
            };
            std::vector<std::thread> ts; for (unsigned s = 1; s < nsub; ++s) ts.emplace_back(body, s);
            std::thread stopper; if (early) stopper = std::thread([&] { for (unsigned k = 0; k < stopBy; ++k) sched::point(); p->notifyStop(); if (!p->stopNotified()) pbt::fail("stop is not noticed"); });
            body(0); for (auto & t : ts) t.join();
            if (early) stopper.join(); else { done.wait(total); if (p->stopNotified()) pbt::fail("the pool stopped by itself"); }
            switch (stopBy) { case 0: break; case 1: pool->stopAndJoin(); break; case 2: p->notifyStop(); pool->join(); break; case 3: pool->stopAndJoin(); pool->stopAndJoin(); break;
            default: { // both return, with no task running
                auto idle = [&] { sched::Quiet q; if (log.inside) pbt::fail("a task is running after the pool was joined"); };
                std::thread other([&] { if (stopBy == 4) pool->stopAndJoin(); else { p->notifyStop(); pool->join(); } idle(); }); pool->stopAndJoin(); idle(); other.join(); } }
            if (stopBy) { sched::Quiet q; if (log.inside) pbt::fail("a task is running after the pool was joined"); log.closed = true; }
            if (joinFirst && stopBy) { if (!p->stopNotified()) pbt::fail("stop is not noticed"); p->submit(Pool::createSimpleTask([] { pbt::fail("a stopped pool runs a task"); })); }
            pool.reset();
            { sched::Quiet q; if (log.inside) pbt::fail("a task is running after the pool was destroyed"); log.closed = true; }
        }
    });
    long ran = 0; for (int x : log.count) ran += x;
    if (!early) CHECK(ran == total); else left = ran < total;
    // One worker starts the tasks of a thread in the order in which it submitted them.
    if (workers == 1) for (unsigned s = 0; s < nsub; ++s) { int last = -1; for (auto & r : log.runs) if (r.who == (int)s && r.seq < 1000) { CHECK(r.seq > last); last = r.seq; } }
    // What was left was submitted last.
    if (early) for (unsigned s = 0; s < nsub; ++s) { bool gone = false; for (size_t i = 0; i < prog[s].size(); ++i) { if (!log.count[first[s][i]]) gone = true; else CHECKM(!gone, "a task was skipped"); } }
    if (log.most > 1) c.label("parallel"); if (left) c.label("tasks discarded"); if (log.most > 1 || left) c.nontrivial();
}

PBT_PROP(participants, 60000, 1500000, "tasks are run by at least two participants, or one participant leaves before the end") {
    unsigned const np = 1 + (unsigned)c.draw(2), n = (unsigned)c.draw(5); bool const early = c.chance(1, 3), throwing = c.chance(1, 4); unsigned kinds[3], waits[3]; for (auto & k : kinds) k = (unsigned)c.draw(5); for (auto & w : waits) w = (unsigned)c.pick<unsigned>({0u, 1u, 50u, 2000u}); if (!early) kinds[0] = 0; // someone stays until the end
    for (unsigned i = 0; i < np; ++i) c.trace("participant %u: %s, %u us", i, (char const *[]){"participate", "participateOnce", "participateFor", "participateOnceFor", "participateUntil", "participateOnceUntil"}[kinds[i]], waits[i]);
    c.trace("%u tasks%s%s", n, early ? ", stopped at any time" : "", throwing ? ", some throw" : "");
    Log log; log.count.assign(n, 0); bool left = false;
    sched::run(c, [&] {
        Done done;
        {
            std::unique_ptr<sm::ParticipatoryThreadPool> pool(new sm::ParticipatoryThreadPool()); auto * const p = pool.get(); std::atomic<bool> stopping{false}; Done in;
            auto body = [&](unsigned i) {
                auto const d = std::chrono::microseconds(waits[i]); auto const mine = [&] { sched::Quiet q; int x = 0; for (auto & r : log.runs) x += r.thread == sched::self(); return x; };
                auto const start = std::chrono::steady_clock::now(); auto const until = start + d; bool once = kinds[i] & 1;
                auto late = [&] { return std::chrono::steady_clock::now() >= until; };
                bool again = true; in.add();
                while (again) {
                    again = false; int const before = mine(); bool thrown = false;
                    auto const status = [&](Pool::Status s) { int const k = mine() - before; switch (s) { case Pool::Ok: if (!once) pbt::fail("Ok from a participation without an end"); if (k != 1) pbt::fail("ran %d tasks", k); break; case Pool::Timeout: if (!late()) pbt::fail("times out early"); if (once && k) pbt::fail("times out after running a task"); break; default: if (!stopping.load()) pbt::fail("reports a stop which was not requested"); if (once && k) pbt::fail("ran a task and reports a stop"); } };
                    try {
                        switch (kinds[i]) {
                        case 0: p->participate(); if (!stopping.load()) pbt::fail("participation ended by itself"); break;
                        case 1: { bool const r = p->participateOnce(); int const k = mine() - before; if (k != (r ? 1 : 0)) pbt::fail("ran %d tasks and returned %d", k, r); if (!r && !stopping.load()) pbt::fail("participation ended by itself"); break; }
                        case 2: status(p->participateFor(d)); break;
                        case 3: status(p->participateOnceFor(d)); break;
                        case 4: status(p->participateUntil(until)); break;
                        default: status(p->participateOnceUntil(std::chrono::system_clock::now() + d)); if (false) late(); break;
                        }
                    } catch (std::logic_error const &) { thrown = true; if (mine() - before < 1) pbt::fail("an exception out of nowhere"); }
                    if (thrown) again = true;
                }
                if (!stopping.load(std::memory_order_relaxed)) { sched::Quiet q; left = true; }
            };
            std::vector<std::thread> ts; for (unsigned i = 0; i < np; ++i) ts.emplace_back(body, i);
            auto make = [&](unsigned i) { bool const bad = throwing && i % 2; return Pool::createSimpleTask([&, i, bad] { { Enter e(log, (int)i, 0, (int)i); sched::point(); } done.add(); if (bad) throw std::logic_error("task"); }); };
            // A thread may only be given to a participation which has not ended: n tasks all run as participant 0 stays.
            for (unsigned i = 0; i < n; ++i) p->submit(make(i));
            if (!early) done.wait(n);
            in.wait(np); // participations are not entered after the pool is gone
            if (early) for (unsigned k = 0; k < waits[2]; k += 100) sched::point();
            // Timed participants return by themselves.
            if (!early) for (unsigned i = 0; i < np; ++i) if (kinds[i] >= 2) ts[i].join();
            stopping.store(true); p->notifyStop(); p->join();
            for (auto & t : ts) if (t.joinable()) t.join();
            { sched::Quiet q; if (log.inside) pbt::fail("a task is running after the pool was joined"); log.closed = true; }
            if (p->participateOnce()) pbt::fail("a stopped pool runs a task"); if (p->participateOnceFor(std::chrono::seconds(1)) != Pool::StopNotified) pbt::fail("a stopped pool does not say so"); if (p->participateFor(std::chrono::seconds(1)) != Pool::StopNotified) pbt::fail("a stopped pool does not say so"); p->participate();
            pool.reset();
        }
    });
    long ran = 0; for (int x : log.count) ran += x; if (!early) CHECK(ran == n);
    if (np == 1) { int last = -1; for (auto & r : log.runs) { CHECK(r.seq > last); last = r.seq; } }
    std::vector<int> who; for (auto & r : log.runs) { bool known = false; for (int w : who) known |= w == r.thread; if (!known) who.push_back(r.thread); }
    if (who.size() > 1) c.label("shared"); if (who.size() > 1 || left) c.nontrivial();
}

// The pool waits for the participations which are under way when it is destroyed.
PBT_PROP(leaving, 20000, 400000, "the pool is destroyed while a participation is under way") {
    unsigned const np = 1 + (unsigned)c.draw(2), n = (unsigned)c.draw(3), pause = (unsigned)c.draw(40), joiners = c.coin() ? 0 : 1 + (unsigned)c.draw(2), joinHow = (unsigned)c.draw(7); bool under = false; unsigned kinds[3]; for (auto & k : kinds) k = (unsigned)c.draw(4); c.trace("%u participants (kinds %u %u %u), %u more tasks, %u threads join", np, kinds[0], kinds[1], kinds[2], n, joiners);
    sched::run(c, [&] {
        std::unique_ptr<sm::ParticipatoryThreadPool> pool(new sm::ParticipatoryThreadPool()); auto * const p = pool.get(); std::atomic<unsigned> entered{0}; std::atomic<int> inside{0}, running{0}; std::vector<std::thread> ts;
        // A task run by every participant shows that it is inside.
        for (unsigned i = 0; i < np; ++i) ts.emplace_back([&, i] { inside.fetch_add(1); switch (kinds[i]) { case 0: p->participate(); break; case 3: case 4: { Pool::Status st; do st = kinds[i] == 3 ? p->participateOnceFor(std::chrono::hours(1)) : p->participateOnceUntil(std::chrono::steady_clock::now() + std::chrono::hours(1)); while (st == Pool::Timeout); if (st != Pool::Ok) pbt::fail("the participation ended by itself"); break; } default: for (;;) { auto const end = std::chrono::steady_clock::now() + std::chrono::milliseconds(5); auto const st = kinds[i] == 1 ? p->participateFor(std::chrono::milliseconds(5)) : p->participateUntil(end); if (st == Pool::StopNotified || (st == Pool::Timeout && entered.load() >= np)) break; if (st != Pool::Timeout || std::chrono::steady_clock::now() < end) pbt::fail("the participation ended by itself"); } } inside.fetch_sub(1); });
        // np tasks which wait for one another are run by np participants
        for (unsigned i = 0; i < np; ++i) p->submit(Pool::createSimpleTask([&] { running.fetch_add(1); entered.fetch_add(1); while (entered.load() < np) sched::yield(); sched::point(); running.fetch_sub(1); }));
        while (entered.load() < np) sched::yield();
        for (unsigned i = 0; i < n; ++i) p->submit(Pool::createSimpleTask([] { sched::point(); }));
        for (unsigned i = 0; i < pause; ++i) sched::point();
        { sched::Quiet q; under = inside.load() > 0; }
        std::vector<std::thread> js; for (unsigned i = 0; i < joiners; ++i) js.emplace_back([&, i] { if (joinHow & (1u << i)) p->join(); else p->stopAndJoin(); }); // all of them return
        if (joiners) { p->notifyStop(); for (auto & t : js) t.join(); if (running.load()) pbt::fail("a task is running after the pool was joined"); }
        pool.reset(); if (running.load()) pbt::fail("a task is running after the pool was destroyed"); for (auto & t : ts) t.join();
    });
    if (under) c.nontrivial();
}

PBT_PROP(creation, 1500, 30000, "a thread of the pool cannot be started") {
    unsigned const workers = (unsigned)c.draw(3), n = (unsigned)c.draw(2); long const fail = (long)c.draw(3) ; bool thrown = false; int ran = 0;
    sched::run(c, [&] {
        sched::failCreate(fail); Done done;
        try { sm::SimpleThreadPool pool(workers); if (fail < (long)workers) pbt::fail("the error was lost"); sched::failCreate(-1); for (unsigned i = 0; i < n; ++i) pool.submit(Pool::createSimpleTask([&] { { sched::Quiet q; ++ran; } done.add(); })); if (workers) done.wait(n); }
        catch (std::system_error const &) { thrown = true; if (fail >= (long)workers) pbt::fail("a spurious error"); }
    });
    if (!thrown) CHECK(ran == (workers ? (int)n : 0)); if (thrown) c.nontrivial();
}

PBT_PROP(strands, 60000, 1500000, "two threads submit to one strand and the strand switches threads, or it stops with tasks left") {
    unsigned const workers = 1 + (unsigned)c.draw(1), nstr = 1 + (unsigned)c.draw(1), nsub = 1 + (unsigned)c.draw(1); bool const early = c.chance(1, 3); unsigned const how = (unsigned)c.draw(4);
    struct Op { unsigned strand, kind, reps; }; std::vector<std::vector<Op>> prog(nsub); long total = 0; std::vector<std::vector<int>> first(nsub);
    for (unsigned s = 0; s < nsub; ++s) { size_t const n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) { Op o{(unsigned)c.draw(nstr - 1), (unsigned)c.draw(4), (unsigned)c.draw(2)}; first[s].push_back((int)total); total += o.kind == Simple ? 1 : 1 + o.reps; prog[s].push_back(o); c.trace("submitter %u: %s task to strand %u, repeated %u times", s, (char const *[]){"simple", "full", "reusable", "nested", "cross"}[o.kind], o.strand, o.reps); } }
    c.trace("%u workers, %u strands, %s", workers, nstr, early ? "stopped at any time" : "stopped when done");
    struct S { Log log; std::vector<int> plain; }; // plain: written by the strand's tasks without any protection
    std::vector<S> st(nstr); for (auto & s : st) { s.log.count.assign(total, 0); s.plain.reserve(64); }
    sched::run(c, [&] {
        Done done; std::vector<std::unique_ptr<Pool::ReusableTask>> reusable(32);
        {
            auto pool = std::make_shared<sm::SimpleThreadPool>(workers); std::vector<std::unique_ptr<sm::Strand>> strands; for (unsigned i = 0; i < nstr; ++i) strands.emplace_back(new sm::Strand(pool));
            auto work = [&](unsigned x, int id, int who, int seq) { S & s = st[x]; Enter e(s.log, id, who, seq); if (s.log.inside > 1) pbt::fail("tasks of one strand overlap"); size_t const n = s.plain.size(); sched::point(); s.plain.push_back(id); if (s.plain.size() != n + 1) pbt::fail("tasks of one strand overlap"); };
            auto body = [&](unsigned s) {
                for (size_t i = 0; i < prog[s].size(); ++i) {
                    Op const o = prog[s][i]; int const id = first[s][i]; unsigned const x = o.strand, y = (x + 1) % nstr; sm::Strand * const a = strands[x].get(), * const b = strands[y].get(); unsigned const n = o.reps;
                    switch (o.kind) {
                    case Simple: a->submit(Pool::createSimpleTask([&, x, id, s, i] { work(x, id, (int)s, (int)i); done.add(); })); break;
                    case Full: { unsigned k = 0; a->submit(Pool::createTask([&, a, x, id, s, i, n, k](Task && self) mutable { work(x, id + (int)k, (int)s, k ? 1000 : (int)i); Done & d = done; if (k++ < n) a->submit(std::move(self)); d.add(); })); break; }
                    case Reusable: {
                        auto k = std::make_shared<unsigned>(0); auto * slot = &reusable[s * 8 + i];
                        slot->reset(new Pool::ReusableTask([&, a, x, id, s, i, n, k, slot] { unsigned const r = (*k)++; work(x, id + (int)r, (int)s, r ? 1000 : (int)i); Done & d = done; if (r < n) a->submit(std::move(**slot)); d.add(); }));
                        a->submit(std::move(**slot)); break; }
                    case Nested: a->submit(Pool::createSimpleTask([&, a, x, id, s, i, n] { work(x, id, (int)s, (int)i); for (unsigned k = 1; k <= n; ++k) { int const child = id + (int)k; a->submit(Pool::createSimpleTask([&, x, child, s, k] { work(x, child, (int)s, 1000); done.add(); })); } done.add(); })); break;
                    default: a->submit(Pool::createSimpleTask([&, b, x, y, id, s, i, n] { work(x, id, (int)s, (int)i); for (unsigned k = 1; k <= n; ++k) { int const child = id + (int)k; b->submit(Pool::createSimpleTask([&, y, child, s] { work(y, child, (int)s, 1000); done.add(); })); } done.add(); })); break;
                    }
                }
            };
            std::vector<std::thread> ts; for (unsigned s = 1; s < nsub; ++s) ts.emplace_back(body, s);
            body(0); for (auto & t : ts) t.join();
            if (!early) done.wait(total);
            for (unsigned i = 0; i < nstr; ++i) {
                if (how == 1) { auto p = strands[i]->stopAndJoin(); if (p != pool) pbt::fail("the pool is not given back"); if (strands[i]->stopAndJoin()) pbt::fail("the pool is given back twice"); }
                if (how == 2) { auto p = strands[i]->stopAndMaybeJoin(); if (p != pool) pbt::fail("the pool is not given back"); }
                if (how == 4) { // several threads stop it at once: all return, and one of them is given the pool
                    std::atomic<int> given{0}; auto stop = [&] { auto p = strands[i]->stopAndJoin(); if (p) { if (p != pool) pbt::fail("the pool is not given back"); given.fetch_add(1); } sched::Quiet q; if (st[i].log.inside) pbt::fail("a task is running after the strand was joined"); };
                    std::thread t1(stop); std::thread t2; if (workers == 1) t2 = std::thread(stop); stop(); t1.join(); if (t2.joinable()) t2.join();
                    if (given.load() != 1) pbt::fail("the pool is given back %d times", given.load()); }
                if (how == 1 || how == 2 || how == 4) { sched::Quiet q; if (st[i].log.inside) pbt::fail("a task is running after the strand was joined"); st[i].log.closed = true; }
                if (how != 3 && nstr == 1) { strands[i].reset(); sched::Quiet q; if (st[i].log.inside) pbt::fail("a task is running after the strand was destroyed"); st[i].log.closed = true; }
            }
            if (nstr > 1 && how != 1 && how != 2 && how != 4) for (auto & x : strands) x->stopAndJoin(); // tasks submit to the other strand
            strands.clear();
            pool.reset();
        }
    });
    long ran = 0; bool moved = false; for (auto & s : st) { for (int x : s.log.count) ran += x; for (size_t i = 1; i < s.log.runs.size(); ++i) moved |= s.log.runs[i].thread != s.log.runs[i - 1].thread; CHECK(s.log.most <= 1); CHECK(s.plain.size() == s.log.runs.size()); }
    if (!early) CHECK(ran == total);
    // Each thread's tasks run in the order of submission.
    for (auto & s : st) for (unsigned w = 0; w < nsub; ++w) { int last = -1; for (auto & r : s.log.runs) if (r.who == (int)w && r.seq < 1000) { CHECK(r.seq > last); last = r.seq; } }
    for (unsigned w = 0; w < nsub; ++w) for (unsigned x = 0; x < nstr; ++x) { bool gone = false; for (size_t i = 0; i < prog[w].size(); ++i) if (prog[w][i].strand == x) { if (!st[x].log.count[first[w][i]]) gone = true; else CHECKM(!gone, "a task was skipped"); } }
    if (moved) c.label("strand moved between threads"); if (ran < total) c.label("tasks discarded"); if ((nsub > 1 && moved) || ran < total) c.nontrivial();
}

// Strand order over several submitting threads: a submission which began after another returned runs after it.
PBT_PROP(order, 20000, 400000, "the submissions of two threads are ordered by an event") {
    unsigned const workers = 1 + (unsigned)c.draw(2), rounds = 1 + (unsigned)c.draw(2); bool const onPool = workers == 1 && c.coin();
    std::vector<int> ran; ran.reserve(16);
    sched::run(c, [&] {
        Done done; auto pool = std::make_shared<sm::SimpleThreadPool>(workers); std::unique_ptr<sm::Strand> strand(new sm::Strand(pool)); std::atomic<unsigned> turn{0};
        auto submit = [&](unsigned id) { auto t = Pool::createSimpleTask([&, id] { ran.push_back((int)id); done.add(); }); if (onPool) pool->submit(std::move(t)); else strand->submit(std::move(t)); };
        // relaxed: only the queue itself orders the tasks
        std::thread other([&] { for (unsigned r = 0; r < rounds; ++r) { while (turn.load(std::memory_order_relaxed) != 2 * r + 1) sched::yield(); submit(2 * r + 1); turn.store(2 * r + 2, std::memory_order_relaxed); } });
        for (unsigned r = 0; r < rounds; ++r) { while (turn.load(std::memory_order_relaxed) != 2 * r) sched::yield(); submit(2 * r); turn.store(2 * r + 1, std::memory_order_relaxed); }
        other.join(); done.wait(2 * rounds); strand.reset(); pool->stopAndJoin(); pool.reset();
    });
    CHECK(ran.size() == 2 * rounds); for (size_t i = 0; i < ran.size(); ++i) CHECK(ran[i] == (int)i); c.nontrivial();
}

PBT_PROP(stopInside, 20000, 400000, "a strand is stopped by one of its tasks while further tasks wait") {
    unsigned const workers = 1 + (unsigned)c.draw(1), before = (unsigned)c.draw(2), after = (unsigned)c.draw(2); bool const joiner = c.coin(), twice = c.coin(), other = c.coin(); int ran = 0; bool waiting = false;
    sched::run(c, [&] {
        auto pool = std::make_shared<sm::SimpleThreadPool>(workers); Done done; std::unique_ptr<sm::Strand> strand(new sm::Strand(pool)); sm::Strand * const s = strand.get(); sm::Strand outer(pool); bool stopped = false; std::shared_ptr<Pool> kept;
        for (unsigned i = 0; i < before; ++i) s->submit(Pool::createSimpleTask([&] { sched::Quiet q; ++ran; }));
        s->submit(Pool::createSimpleTask([&, s] {
            if (other && twice) {} // stopping from inside never waits for itself
            kept = s->stopAndMaybeJoin(); if (twice && s->stopAndMaybeJoin()) pbt::fail("the pool is given back twice");
            stopped = true; sched::point(); done.add(); }));
        for (unsigned i = 0; i < after; ++i) s->submit(Pool::createSimpleTask([&] { if (stopped) pbt::fail("a task runs after its strand was stopped"); pbt::fail("a task overtook the one which stops the strand"); }));
        done.wait(1); { sched::Quiet q; waiting = after > 0; if (ran != (int)before) pbt::fail("tasks were lost"); }
        if (kept != pool) pbt::fail("the pool is not given back");
        kept.reset();
        if (joiner) { std::thread t([&] { if (s->stopAndJoin()) pbt::fail("the pool is given back twice"); }); if (s->stopAndMaybeJoin()) pbt::fail("the pool is given back twice"); t.join(); }
        s->submit(Pool::createSimpleTask([] { pbt::fail("a stopped strand runs a task"); }));
        // a task of another strand may wait for this one if a thread is free for it
        if (other && workers > 1) { outer.submit(Pool::createSimpleTask([&] { if (s->stopAndMaybeJoin()) pbt::fail("the pool is given back twice"); done.add(); })); done.wait(2); }
        strand.reset(); outer.stopAndJoin(); pool->stopAndJoin(); pool.reset();
    });
    if (waiting) c.nontrivial();
}

// A participant on its own: nothing but its own time passes, so that it neither leaves early nor stays longer.
PBT_PROP(timeout, 4000, 100000, "tasks are waiting when a timed participation begins") {
    unsigned const n = (unsigned)c.draw(4), kind = (unsigned)c.draw(3); bool const system = c.coin(); uint64_t const us = c.pick<uint64_t>({0, 1, 300, 1000, 65536, 3000000, 5000000000ull}); unsigned const again = 1 + (unsigned)c.draw(2); unsigned long ran = 0;
    c.trace("%u tasks, %s for %llu us%s, %u times", n, (char const *[]){"participateFor", "participateOnceFor", "participateUntil", "participateOnceUntil"}[kind], (unsigned long long)us, system ? " (system clock)" : "", again);
    sched::run(c, [&] {
        sm::ParticipatoryThreadPool pool; for (unsigned i = 0; i < n; ++i) pool.submit(Pool::createSimpleTask([&] { ++ran; }));
        unsigned long left = n;
        for (unsigned k = 0; k < again; ++k) {
            auto const d = std::chrono::microseconds(us); auto const before = ran; auto const t0 = sched::now(); Pool::Status s;
            switch (kind) { case 0: s = pool.participateFor(d); break; case 1: s = pool.participateOnceFor(d); break; case 2: s = system ? pool.participateUntil(std::chrono::system_clock::now() + d) : pool.participateUntil(std::chrono::steady_clock::now() + d); break; default: s = system ? pool.participateOnceUntil(std::chrono::system_clock::now() + d) : pool.participateOnceUntil(std::chrono::steady_clock::now() + d); }
            auto const took = sched::now() - t0; bool const once = kind & 1; unsigned long const expect = once ? (left ? 1 : 0) : left;
            if (ran - before != expect) pbt::fail("ran %lu tasks instead of %lu", ran - before, expect);
            if (s != (once && expect ? Pool::Ok : Pool::Timeout)) pbt::fail("status %d", (int)s);
            if (s == Pool::Timeout && took < us * 1000) pbt::fail("times out %llu ns early", (unsigned long long)(us * 1000 - took));
            if (took > (s == Pool::Timeout ? us * 1000 : 0) + 1000000) pbt::fail("stays %llu ns for %llu us", (unsigned long long)took, (unsigned long long)us);
            left -= expect;
        }
    });
    if (n) c.nontrivial();
}
