// C07: the timeouts thread under virtual time and every interleaving.
#include <chrono>
#include <memory>
#include <sharemind/TimeoutsThread.h>
#include <vector>
#include "ctl.h"

namespace {
using sharemind::TimeoutsThread;
using Clock = TimeoutsThread::Clock;
using Task = TimeoutsThread::Task;
using ns = std::chrono::nanoseconds;

struct Rec { // one scheduling of a task
    int64_t due;             // ns relative to the start (lower bound for relative tasks)
    int64_t dueMax = INT64_MAX; // upper bound, known once added
    uint64_t added = 0;      // event number at which addTask returned, 0: not yet
    int64_t addedAt = 0;     // virtual time at which addTask returned
    uint64_t calledSeq = 0;  // event number at which addTask was called
    bool run = false;
    bool never = false;      // due further away than the history waits for (the scheduler may let any time pass)
};

struct Kind { unsigned repeat; int64_t period; int child; bool stops; unsigned delay; };

struct Env {
    TimeoutsThread * tt = nullptr;
    Clock::time_point t0;
    std::vector<std::unique_ptr<Rec>> recs;
    uint64_t seq = 0, prevEnd = 0, stopSeq = 0; unsigned afterStop = 0, done = 0, alive = 0, started = 0;
    bool running = false, stopped = false; int outOfOrderPossible = 0;
    std::mutex m; std::condition_variable cv; unsigned finished = 0; // instrumented, used by the main thread to wait

    uint64_t base = 0;
    int64_t vt() const { return int64_t(sched::now()) - int64_t(base); } // virtual time since t0
    void begin(Rec * r) {
        sched::Quiet q;
        int64_t const now = vt();
        ++seq; if (!r->never) ++started;
        if (running) pbt::fail("two tasks run at the same time");
        running = true;
        if (r->run) pbt::fail("a task ran twice for one scheduling");
        r->run = true;
        if (now < r->due) pbt::fail("a task due at %lld ran at %lld", (long long)r->due, (long long)now);
        if (stopSeq && ++afterStop > 1) pbt::fail("a task started after stopping");
        // The task was picked after the previous one ended and after it was due:
        uint64_t const pickedAfter = std::max(prevEnd, r->calledSeq);
        for (auto & o : recs)
            if (o.get() != r && !o->run && o->added && o->dueMax < r->due && (o->added < pickedAfter || o->addedAt < r->due))
                pbt::fail("the task due at %lld ran before the pending task due at %lld", (long long)r->due, (long long)o->due);
    }
    // nothing can run and time is about to pass
    void idle(int64_t next) {
        if (stopSeq || !tt) return;
        for (auto & o : recs) if (!o->run && o->added && o->dueMax != INT64_MAX && next - o->dueMax > slept)
            pbt::fail("every thread sleeps until %lld though a task is due at %lld", (long long)next, (long long)o->dueMax);
    }
    static int64_t const slept = 20000000; // tolerated: timers of coarse resolution
    void end() { sched::Quiet q; prevEnd = ++seq; running = false; }
    void finish() { std::lock_guard<std::mutex> g(m); ++finished; cv.notify_all(); }
    // every scheduling goes through here
    void add(std::unique_ptr<Task> t, Rec * r, unsigned how);
};
struct Token { Env & e; explicit Token(Env & e_) : e(e_) { sched::Quiet q; ++e.alive; } Token(Token const &) = delete; ~Token() { sched::Quiet q; --e.alive; } };

Rec * newRec(Env & e, int64_t due) { sched::Quiet q; e.recs.emplace_back(new Rec()); e.recs.back()->due = due; return e.recs.back().get(); }
void Env::add(std::unique_ptr<Task> t, Rec * r, unsigned how) {
    if (r->never) { // r->due: how far away
        { sched::Quiet q; r->calledSeq = ++seq; }
        ns const far(r->due);
        if (how == 2) tt->addTimeoutTask(far, std::move(t));
        else { auto const now(Clock::now()); tt->addTask(Clock::time_point::max() - now < far ? Clock::time_point::max() : now + far, std::move(t)); }
        sched::Quiet q; r->added = ++seq; r->addedAt = vt();
        return;
    }
    int64_t slack = 0; bool relative = false;
    { sched::Quiet q; r->calledSeq = ++seq; }
    if (how == 0) { tt->addTask(t0 + ns(r->due), std::move(t)); }
    else if (how == 1) { auto const tp(t0 + ns(r->due)); tt->addTask(tp, std::move(t)); }
    else { int64_t now; { sched::Quiet q; now = vt(); } ns const d(r->due - now); tt->addTimeoutTask(d, std::move(t)); slack = d.count(); relative = true; } // becomes due at r->due or a little later
    { sched::Quiet q; r->added = ++seq; r->addedAt = vt(); r->dueMax = relative ? vt() + slack : r->due; }
}

struct Plan { unsigned kind; int64_t off; unsigned how, repeat, delayBefore; int64_t sleep; bool stops, childOf; };
}

static void go(pbt::Ctx & c) {
    static int64_t const farOffs[] = {INT64_MAX, INT64_MAX - 1, INT64_MAX - 1000000, 4000000000000000000ll, 1000000000000000000ll};
    static int64_t const offs[] = {0, 1000, 2000, 50000, 1000000, 60000000000ll, -1, -1000000, -100ll * 3600 * 1000000000ll};
    unsigned const nthreads = 1 + c.draw(1);
    std::vector<std::vector<Plan>> plans(nthreads);
    unsigned total = 0;
    for (auto & pl : plans) {
        size_t n = c.draw(4);
        for (size_t i = 0; i < n; ++i) {
            Plan p{};
            p.kind = c.weighted({8, 4, 2, 2, 1}); // one-shot, reusable, sleep, yield, a task far away
            if (p.kind == 4) { p.sleep = farOffs[c.draw(4)]; p.how = c.draw(2); c.trace("thread %zu: one-shot task off %lld%s", size_t(&pl - &plans[0]), (long long)p.sleep, p.how == 2 ? " (relative)" : ""); pl.push_back(p); continue; }
            p.off = offs[c.weighted({3, 3, 2, 4, 3, 2, 1, 1, 1})]; if (c.coin()) p.off += (int64_t)c.draw(3000);
            p.how = c.draw(2); p.repeat = p.kind == 1 ? c.draw(2) : 0; p.sleep = offs[c.draw(4)] + (int64_t)c.draw(2000); p.childOf = p.kind == 0 && c.chance(1, 6);
            pl.push_back(p);
            if (p.kind == 0) total += 1 + p.childOf; else if (p.kind == 1) total += 1 + p.repeat;
            c.trace("thread %zu: %s off %lld%s repeat %u", size_t(&pl - &plans[0]), p.kind == 0 ? "one-shot task" : p.kind == 1 ? "reusable task" : p.kind == 2 ? "sleep" : "yield", (long long)(p.kind == 2 ? p.sleep : p.off), p.how == 2 ? " (relative)" : "", p.repeat);
        }
    }
    // ending: wait for everything / stop at once / stop after a sleep / destroy / a task stops
    unsigned const ending = c.weighted({4, 2, 2, 2, 2});
    int64_t const endSleep = offs[c.draw(4)] + (int64_t)c.draw(3000); bool const lateAdd = c.chance(1, 4);
    c.trace("then %s", ending == 0 ? "wait for all tasks" : ending == 1 ? "stop" : ending == 2 ? "sleep and stop" : ending == 3 ? "destroy" : "a task stops the thread");
    unsigned alive = 0; Env * env = nullptr; sched::Config cfg; cfg.idle = [&](uint64_t next) { if (env) env->idle(int64_t(next) - int64_t(env->base)); };
    sched::run(c, [&] {
        Env e;
        std::unique_ptr<TimeoutsThread> tt(new TimeoutsThread());
        e.tt = tt.get();
        e.t0 = Clock::now(); e.base = sched::now(); env = &e;
        auto now = [&] { return e.vt(); };
        auto stop = [&] { tt->stop(); sched::Quiet q; e.stopSeq = ++e.seq; e.afterStop = 0; };
        auto oneShot = [&](Rec * r, bool hasChild, int64_t child) {
            auto tok = std::make_shared<Token>(e);
            return TimeoutsThread::createOneShotTask([&e, r, tok, hasChild, child]() noexcept {
                e.begin(r);
                if (hasChild) {
                    Rec * cr = newRec(e, child);
                    e.add(TimeoutsThread::createOneShotTask([&e, cr, tok]() noexcept { e.begin(cr); e.end(); e.finish(); }), cr, 0);
                }
                e.end();
                if (!r->never) e.finish();
            });
        };
        auto exec = [&](std::vector<Plan> const & pl) {
            for (auto const & p : pl) {
                int64_t const n = now();
                switch (p.kind) {
                case 0: { Rec * r = newRec(e, n + p.off); auto t(oneShot(r, p.childOf, n + p.off + 500)); e.add(std::move(t), r, p.how); break; }
                case 1: {
                    Rec * r = newRec(e, n + p.off); auto tok = std::make_shared<Token>(e);
                    auto f = [&e, r, tok, left = p.repeat](std::unique_ptr<Task> && self) mutable noexcept {
                        e.begin(r);
                        if (!self) pbt::fail("a reusable task was not handed itself");
                        bool again = left-- > 0;
                        if (again) {
                            r = newRec(e, e.vt() + 700);
                            e.add(std::move(self), r, 1); // the closure stays alive: only this thread can run it
                        }
                        e.end();
                        e.finish();
                    };
                    e.add(TimeoutsThread::createReusableTask(std::move(f)), r, p.how);
                    break; }
                case 2: std::this_thread::sleep_for(ns(p.sleep)); break;
                case 4: { Rec * r = newRec(e, p.sleep); r->never = true; auto t(oneShot(r, false, 0)); e.add(std::move(t), r, p.how); break; }
                default: sched::yield();
                }
            }
        };
        std::thread other;
        if (nthreads > 1) other = std::thread([&] { exec(plans[1]); });
        exec(plans[0]);
        switch (ending) {
        case 0: {
            if (other.joinable()) other.join();
            { std::unique_lock<std::mutex> l(e.m); e.cv.wait(l, [&] { return e.finished >= total; }); }
            sched::Quiet q;
            if (e.started != total) pbt::fail("%u runs of %u scheduled", e.started, total);
            for (auto & r : e.recs) if (!r->run && !r->never) pbt::fail("a task did not run");
            break; }
        case 1: if (other.joinable() && (endSleep & 1)) other.join(); stop(); break;
        case 2: if (endSleep > 0) std::this_thread::sleep_for(ns(endSleep)); stop(); if (c.tracing()) {} break;
        case 3: if (other.joinable()) other.join(); break;
        default: {
            if (other.joinable()) other.join();
            Rec * r = newRec(e, now() + endSleep);
            e.add(TimeoutsThread::createOneShotTask([&e, r, &stop]() noexcept { e.begin(r); stop(); { sched::Quiet q; e.afterStop = 1; } e.end(); std::lock_guard<std::mutex> g(e.m); e.stopped = true; e.cv.notify_all(); }), r, 0);
            std::unique_lock<std::mutex> l(e.m);
            e.cv.wait(l, [&] { return e.stopped; });
        } }
        if (other.joinable()) other.join();
        if (lateAdd && ending != 0) { // may be discarded, must be destroyed
            Rec * r = newRec(e, now());
            e.add(oneShot(r, false, 0), r, 0);
        }
        if ((endSleep & 2) && ending != 3) { stop(); }
        env = nullptr;
        tt.reset(); // must return
        sched::Quiet q;
        alive = e.alive;
        if (e.running) pbt::fail("a task was still running after destruction");
        e.recs.clear();
    }, cfg);
    CHECKM(alive == 0, "%u task objects outlived the thread object", alive);
    c.nontrivial(total >= 2);
}

PBT_PROP(history, 150000, 5000000, "1-2 threads schedule up to 8 one-shot/reusable/nested tasks with past, equal, future and unreachably distant due times, then wait for all, stop, or destroy; non-trivial if at least two task runs were scheduled") { go(c); }
