// C33, histories: one thread drives a pool against a queue model; long queues.
#include <sharemind/ParticipatoryThreadPool.h>
#include <sharemind/SimpleThreadPool.h>
#include <sharemind/Strand.h>
#include <deque>
#include <memory>
#include <pthread.h>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind; using Pool = sm::ThreadPool; using Task = Pool::Task; using PP = sm::ParticipatoryThreadPool;
struct Boom { int id; };
}

PBT_PROP(model, 40000, 2000000, "at least three tasks run and one of them resubmits itself or throws") {
    std::unique_ptr<PP> pool(new PP()); std::deque<int> model; std::vector<int> ran, want; std::vector<std::shared_ptr<int>> data; bool stopped = false, special = false; int next = 0; size_t live = 0;
    std::vector<std::unique_ptr<Pool::ReusableTask>> reusable; std::vector<int> modes;
    // mode 0: simple, 1: full and dropped, 2: full and resubmitted once, 3: throws, 4: reusable, 5: submits another, 6: function object passed as an lvalue
    struct Fn { std::vector<int> * ran; int id; std::shared_ptr<int> d; void operator()() { ran->push_back(id); } };
    auto submit = [&](auto & self, unsigned mode) -> void {
        int const id = next++; auto d = std::make_shared<int>(id); data.push_back(d); modes.push_back((int)mode); PP * const p = pool.get(); auto * r = &ran;
        switch (mode) {
        case 0: p->submit(Pool::createSimpleTask([r, id, d] { r->push_back(id); })); break;
        case 1: p->submit(Pool::createTask([r, id, d](Task && t) { CHECK(t); r->push_back(id); Task mine(std::move(t)); CHECK(mine); })); break;
        case 2: { bool first = true; p->submit(Pool::createTask([r, id, d, p, first](Task && t) mutable { r->push_back(id); if (first) { first = false; p->submit(std::move(t)); } })); break; }
        case 3: p->submit(Pool::createSimpleTask([r, id, d] { r->push_back(id); throw Boom{id}; })); break;
        case 4: { auto n = std::make_shared<int>(0); size_t const slot = reusable.size(); auto * rs = &reusable; reusable.emplace_back(); reusable[slot].reset(new Pool::ReusableTask([r, id, d, p, n, rs, slot] { r->push_back(id); if (++*n < 2) p->submit(std::move(*(*rs)[slot])); })); p->submit(std::move(*reusable[slot])); break; }
        case 5: { int const child = next++; data.push_back(std::make_shared<int>(child)); modes.push_back(0); auto d2 = data.back(); p->submit(Pool::createSimpleTask([r, id, d, p, child, d2] { r->push_back(id); p->submit(Pool::createSimpleTask([r, child, d2] { r->push_back(child); })); })); break; }
        default: { Fn f{r, id, d}; p->submit(Pool::createSimpleTask(f)); CHECK(f.d == d); }
        }
        model.push_back(id); (void)self; (void)live;
    };
    std::vector<bool> again; int thrown = -1;
    auto runOne = [&]() { int const id = model.front(); model.pop_front(); want.push_back(id); again.resize(next); int const m = modes[id]; thrown = -1; if (m == 2 || m == 4) { if (!again[id]) { again[id] = true; model.push_back(id); special = true; } } else if (m == 3) { thrown = id; special = true; } else if (m == 5 && !again[id]) { again[id] = true; model.push_back(id + 1); } };
    size_t ops = 0;
    while (c.more(ops++, 12, 60)) {
        unsigned const k = c.weighted({8, 3, 3, 2, 2, 1, 1});
        if (k == 0) { unsigned const m = (unsigned)c.draw(6); c.trace("submit mode %u", m); submit(submit, m); }
        else if (k == 1) {
            if (!stopped && model.empty()) continue; // would wait
            c.trace("participateOnce"); if (stopped) { CHECK(!pool->participateOnce()); continue; }
            runOne(); int t = -1; bool r = true; try { r = pool->participateOnce(); } catch (Boom const & b) { t = b.id; } CHECK(r); CHECK(t == thrown);
        } else if (k == 2 || k == 3) {
            c.trace("%s", k == 2 ? "participateOnceFor" : "participateOnceUntil"); bool const some = !model.empty() && !stopped; if (some) runOne(); int t = -1; Pool::Status s = some ? Pool::Ok : stopped ? Pool::StopNotified : Pool::Timeout, got = s;
            try { got = k == 2 ? pool->participateOnceFor(std::chrono::nanoseconds(0)) : pool->participateOnceUntil(std::chrono::system_clock::now() - std::chrono::hours(1)); } catch (Boom const & b) { t = b.id; }
            CHECK(got == s); CHECK(t == (some ? thrown : -1));
        } else if (k == 4) {
            c.trace("participateFor"); if (stopped) { CHECK(pool->participateFor(std::chrono::nanoseconds(0)) == Pool::StopNotified); continue; }
            bool threw = false; while (!model.empty()) { runOne(); if (thrown >= 0) { threw = true; break; } } int t = -1; Pool::Status s = Pool::Timeout; try { s = pool->participateUntil(std::chrono::steady_clock::now()); } catch (Boom const & b) { t = b.id; }
            CHECK(s == Pool::Timeout); CHECK(t == (threw ? thrown : -1));
        } else if (k == 5) { if (!c.chance(1, 3)) continue; c.trace("notifyStop"); pool->notifyStop(); stopped = true; CHECK(pool->stopNotified()); }
        else { CHECK(pool->stopNotified() == stopped); if (stopped) { c.trace("join"); pool->join(); pool->participate(); } }
        CHECK(ran == want);
    }
    CHECK(ran == want);
    // Destroying the pool destroys the tasks which are left without running them.
    pool.reset(); CHECK(ran == want); reusable.clear();
    for (auto & d : data) CHECK(d.use_count() == 1);
    if (want.size() >= 3 && special) c.nontrivial();
}

// Deep recursion shows on a small stack, whatever the compiler made of it.
template <typename F> void onSmallStack(F f) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024); pthread_t t;
    if (pthread_create(&t, &a, [](void * p) -> void * { (*static_cast<F *>(p))(); return nullptr; }, &f)) pbt::fail("no thread");
    pthread_join(t, nullptr); pthread_attr_destroy(&a);
}
PBT_PROP(longQueues, 120, 3000, "more than 30000 tasks are left when the pool or strand is destroyed") {
    size_t const n = c.coin() ? c.draw(200) : 30001 + c.draw(20000); unsigned const how = (unsigned)c.draw(3); size_t ran = 0; auto d = std::make_shared<int>(0); c.trace("%zu tasks, %s", n, (char const *[]){"pool", "strand", "pool, half run", "simple pool"}[how]);
    auto const task = [&] { return Pool::createSimpleTask([&ran, d] { ++ran; }); };
    if (how == 1) {
        auto pool = std::make_shared<PP>(); std::unique_ptr<sm::Strand> s(new sm::Strand(pool)); sm::Strand * const sp = s.get(); std::shared_ptr<Pool> kept;
        s->submit(Pool::createSimpleTask([&kept, sp] { kept = sp->stopAndMaybeJoin(); }));
        for (size_t i = 0; i < n; ++i) s->submit(task());
        CHECK(pool->participateOnce()); CHECK(kept == pool); CHECK(ran == 0); CHECK(pool->participateOnceFor(std::chrono::nanoseconds(0)) == Pool::Timeout);
        onSmallStack([&] { s.reset(); }); CHECK(ran == 0); CHECK(d.use_count() == 1);
    } else if (how == 3) {
        std::unique_ptr<sm::SimpleThreadPool> pool(new sm::SimpleThreadPool(1)); pool->stopAndJoin(); for (size_t i = 0; i < n; ++i) pool->submit(task());
        onSmallStack([&] { pool.reset(); }); CHECK(ran == 0); CHECK(d.use_count() == 1);
    } else {
        std::unique_ptr<PP> pool(new PP()); for (size_t i = 0; i < n; ++i) pool->submit(task()); if (how == 2) for (size_t i = 0; i < n / 4; ++i) CHECK(pool->participateOnce());
        onSmallStack([&] { pool.reset(); }); CHECK(ran == (how == 2 ? n / 4 : 0)); CHECK(d.use_count() == 1);
    }
    if (n > 30000) c.nontrivial();
}

// As many tasks as there are threads can wait for one another.
PBT_PROP(together, 40, 800, "more than 255 threads") {
    size_t const n = c.chance(1, 8) ? 250 + c.draw(60) : 1 + c.draw(11); bool const strands = c.coin(); c.trace("%zu threads%s", n, strands ? ", each task in a strand of its own" : "");
    std::mutex m; std::condition_variable cv; size_t in = 0, met = 0;
    auto const task = [&] { return Pool::createSimpleTask([&] { std::unique_lock<std::mutex> l(m); ++in; cv.notify_all(); if (cv.wait_for(l, std::chrono::seconds(60), [&] { return in >= n; })) ++met; }); };
    {
        auto pool = std::make_shared<sm::SimpleThreadPool>(n); std::vector<std::unique_ptr<sm::Strand>> ss;
        for (size_t i = 0; i < n; ++i) { if (strands) { ss.emplace_back(new sm::Strand(pool)); ss.back()->submit(task()); } else pool->submit(task()); }
        { std::unique_lock<std::mutex> l(m); if (!cv.wait_for(l, std::chrono::seconds(50), [&] { return in >= n; })) pbt::fail("only %zu of %zu tasks are run at once", in, n); }
        ss.clear(); pool->stopAndJoin();
    }
    CHECK(met == n); if (n > 255) c.nontrivial();
}
