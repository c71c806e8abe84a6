// C22, schedules: removing descriptors and freeing their handlers after the end
// of the loop iteration, stop requests and notifications from several threads.
// The real epoll is used; a wait of the loop polls it and lets others run.
#include <sharemind/EventLoop.h>
#include <sharemind/SingleThreadEventLoop.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <set>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
namespace sm = sharemind; using L = sm::EventLoop;
// What the kernel orders: everything before a control or write call is seen by a later wait or read. Nothing else is ordered by it.
std::atomic<unsigned> kernel{0};
void publish() { kernel.fetch_add(1, std::memory_order_release); }
void observe() { (void)kernel.load(std::memory_order_acquire); }
bool active = false, timeouts = false; std::set<int> * openFds = nullptr; long waits = 0; int failAfter = -1, failWith = 0; // the wait which fails, and how
void track(int fd) { sched::Quiet q; if (openFds) openFds->insert(fd); }
}
extern "C" int close(int fd) { bool bad = false; if (active) { publish(); sched::Quiet q; bad = !openFds->erase(fd); } if (bad) pbt::fail("descriptor %d is closed twice", fd); return (int)syscall(SYS_close, fd); }
extern "C" int epoll_create1(int flags) { int const r = (int)syscall(SYS_epoll_create1, flags); if (active && r >= 0) track(r); return r; }
extern "C" int pipe2(int * fds, int flags) { int const r = (int)syscall(SYS_pipe2, fds, flags); if (active && r == 0) { track(fds[0]); track(fds[1]); } return r; }
extern "C" int epoll_ctl(int ep, int op, int fd, epoll_event * e) __THROW { if (active) publish(); return (int)syscall(SYS_epoll_ctl, ep, op, fd, e); }
extern "C" ssize_t write(int fd, void const * p, size_t n) { if (active && n == 1) { sched::point(); bool bad; { sched::Quiet q; bad = openFds && !openFds->count(fd); } if (bad) pbt::fail("writing to the closed descriptor %d", fd); publish(); } return syscall(SYS_write, fd, p, n); }
extern "C" ssize_t read(int fd, void * p, size_t n) { if (!active) return syscall(SYS_read, fd, p, n); sched::point(); ssize_t const r = syscall(SYS_read, fd, p, n); observe(); return r; }
extern "C" int epoll_wait(int ep, epoll_event * events, int max, int timeout) {
    if (!active) return (int)syscall(SYS_epoll_wait, ep, events, max, timeout);
    if (failAfter >= 0 && failAfter-- == 0) { sched::point(); observe(); errno = failWith; return -1; }
    for (;;) {
        sched::point(); int const r = (int)syscall(SYS_epoll_wait, ep, events, max, 0); if (r != 0) { observe(); return r; }
        if (timeouts && timeout >= 0 && sched::draw(3) == 0) { observe(); return 0; }
        sched::yield();
    }
}
namespace {
int event(unsigned v) { int const fd = ::eventfd(v, EFD_NONBLOCK | EFD_CLOEXEC); if (fd < 0) pbt::fail("no descriptors left"); return fd; }
void signal(int fd) { publish(); uint64_t one = 1; (void)syscall(SYS_write, fd, &one, 8); }
struct Begin { std::set<int> s; Begin(pbt::Ctx & c) { timeouts = c.chance(1, 3); openFds = new std::set<int>(); active = true; } ~Begin() { active = false; bool const leak = !openFds->empty(); delete openFds; openFds = nullptr; if (leak) pbt::fail("a descriptor of the loop leaked"); } };
struct Handler : L::EventHandler { // its fields are plain: only the loop's own ordering protects them
    int calls = 0; bool inside = false; std::atomic<int> * seen; explicit Handler(std::atomic<int> * s) : seen(s) {}
    void handleEvents(L::EventSet) noexcept override { inside = true; sched::point(); ++calls; inside = false; seen->fetch_add(1, std::memory_order_relaxed); }
};
}

PBT_PROP(removal, 4000, 150000, "a handler runs while its descriptor is being removed, or the threads switch at least ten times") {
    Begin b(c); unsigned const nw = 1 + (unsigned)c.draw(1), rounds = 1 + (unsigned)c.draw(1); bool const early = c.coin(), stopper = c.chance(1, 3); bool overlap = false; unsigned kinds[4]; for (auto & k : kinds) k = (unsigned)c.draw(3);
    sched::run(c, [&] {
        L loop; std::thread runner([&] { loop.run(); }); std::vector<std::thread> ws; std::atomic<bool> stopping{false};
        for (unsigned i = 0; i < nw; ++i) ws.emplace_back([&, i] {
            for (unsigned r = 0; r < rounds; ++r) {
                unsigned const k = kinds[(i * 2 + r) % 4]; int const fd = event(0); std::atomic<int> seen{0}; std::unique_ptr<Handler> h(new Handler(&seen));
                if (!loop.insert(fd, EPOLLIN, *h)) pbt::fail("insert failed");
                if (k != 3) signal(fd);
                if (k == 0 && !early) while (!seen.load(std::memory_order_relaxed) && !stopping.load()) sched::yield(); // is delivered
                if (k == 2) { loop.modify(fd, EPOLLIN, *h); }
                if (!loop.remove(fd)) pbt::fail("remove failed");
                if ((i + r) % 2) loop.spinUntilLoopIterationEnd(); else loop.yieldUntilLoopIterationEnd();
                if (h->inside) pbt::fail("the handler is still running");
                if (h->calls > (k == 3 ? 0 : k == 2 ? 2 : 1)) pbt::fail("the handler ran %d times for one arming", h->calls);
                bool const called = h->calls; if (called) { sched::Quiet q; overlap = true; }
                h.reset(); publish(); syscall(SYS_close, fd);
            }
        });
        if (stopper) { stopping.store(true); if (early) loop.stopAsync(); else loop.stop(); }
        for (auto & t : ws) t.join();
        loop.stop(); runner.join();
    });
    if (overlap || sched::switches() >= 10) c.nontrivial(); if (stopper) c.label("stopped meanwhile");
}
PBT_PROP(stopping, 3000, 100000, "two threads stop or wait at the same time") {
    Begin b(c); unsigned const n = 1 + (unsigned)c.draw(2); unsigned what[3]; for (auto & w : what) w = (unsigned)c.draw(3); bool const running = c.coin(), again = c.coin();
    sched::run(c, [&] {
        std::unique_ptr<L> loop(new L()); int progress = 0; std::thread runner; std::atomic<int> seen{0}; int const fd = event(1);
        struct Rearm : L::EventHandler { L & l; int fd; int & p; Rearm(L & l_, int f, int & p_) : l(l_), fd(f), p(p_) {} void handleEvents(L::EventSet) noexcept override { ++p; sched::yield(); try { l.modify(fd, EPOLLIN, *this); } catch (...) { pbt::fail("modify failed"); } } } h(*loop, fd, progress); // always something to do
        loop->insert(fd, EPOLLIN, h);
        if (running) runner = std::thread([&] { loop->run(); });
        std::vector<std::thread> ts; for (unsigned i = 0; i < n; ++i) ts.emplace_back([&, i] { switch (what[i]) { case 0: loop->stop(); { sched::Quiet q; } break; case 1: loop->stopAsync(); break; case 2: loop->spinUntilLoopIterationEnd(); break; default: loop->yieldUntilLoopIterationEnd(); } });
        for (auto & t : ts) t.join(); // all return whether or not the loop runs
        bool stopped = false; for (unsigned i = 0; i < n; ++i) stopped = stopped || what[i] < 2;
        if (!stopped || again) loop->stop();
        if (running) runner.join();
        int const before = progress; if (again) { loop->run(); if (progress > before + 1) pbt::fail("a stopped loop goes on"); }
        loop.reset(); syscall(SYS_close, fd);
    });
    if (n >= 2) c.nontrivial(); c.label(running ? "running" : "not running");
}
PBT_PROP(own_thread, 3000, 60000, "the loop delivers something, fails or is destroyed at once") {
    Begin b(c); bool const handlerToo = c.coin(), wait = c.coin(); int delivered = 0; static int const errors[] = {EINTR, EAGAIN, EBADF, EINVAL, EFAULT, ENOMEM};
    bool const fails = c.chance(1, 2); int const at = (int)c.draw(2), error = errors[c.draw(5)]; bool const hard = fails && error != EINTR && error != EAGAIN; bool const retire = c.coin();
    c.trace("%s, %s, wait %d %s with %d", handlerToo ? "a handler of exceptions" : "no handler", wait ? "awaited" : "not awaited", at, fails ? "fails" : "does not fail", error);
    sched::run(c, [&] {
        failAfter = fails ? at : -1; failWith = error;
        std::atomic<int> seen{0}; int const fd = event(0); Handler h(&seen); int exceptions = 0, reported = 0; std::atomic<bool> over{false};
        auto use = [&](sm::SingleThreadEventLoop & l) {
            l.insert(fd, EPOLLIN, h); signal(fd);
            if (wait) while (!seen.load(std::memory_order_relaxed) && !over.load(std::memory_order_acquire) && !(hard && !handlerToo)) sched::yield();
            if (retire) { l.remove(fd); l.yieldUntilLoopIterationEnd(); } // returns even when the loop has failed
        };
        if (handlerToo) {
            sm::SingleThreadEventLoop l([&]() noexcept {
                ++exceptions;
                try { throw; } catch (L::EpollWaitException const & e) { try { std::rethrow_if_nested(e); } catch (sm::ErrnoException const & x) { reported = x.errorNumber(); } } catch (...) {}
                over.store(true, std::memory_order_release); });
            use(l);
        } else { sm::SingleThreadEventLoop l; use(l); }
        bool const failed = hard && failAfter < 0; failAfter = -1;
        if (h.inside || h.calls > 1 || (wait && h.calls != 1 && !(hard && (failed || !handlerToo)))) pbt::fail("%d calls", h.calls); // the destructor waits for the thread
        if (handlerToo && exceptions != (failed ? 1 : 0)) pbt::fail("the handler of exceptions was called %d times, the loop %s", exceptions, failed ? "failed" : "did not fail");
        if (exceptions && reported != error) pbt::fail("reported %d, expected %d", reported, error);
        delivered = h.calls; syscall(SYS_close, fd);
    });
    c.nontrivial(); c.label(delivered ? "delivered" : "destroyed before delivery"); if (hard) c.label("waiting fails");
}

PBT_PROP(destroyed, 2500, 60000, "the loop is destroyed while it runs") {
    Begin b(c); bool const first = c.coin(), notify = c.coin(); unsigned const spins = (unsigned)c.draw(6); bool ran = false;
    sched::run(c, [&] {
        std::atomic<int> seen{0}; int const fd = event(1); std::unique_ptr<Handler> h(new Handler(&seen)); std::unique_ptr<L> loop(new L()); L & l = *loop; std::atomic<bool> done{false};
        loop->insert(fd, EPOLLIN, *h);
        std::thread runner([&l, &done] { l.run(); done.store(true, std::memory_order_relaxed); });
        while (!seen.load(std::memory_order_relaxed)) sched::yield(); // it certainly runs
        for (unsigned i = 0; i < spins; ++i) { sched::yield(); if (notify && i == 2) l.yieldUntilLoopIterationEnd(); }
        if (first) l.stopAsync();
        { bool const d = done.load(std::memory_order_relaxed); sched::Quiet q; ran = !d; }
        loop.reset(); // returns only after run() is through with the loop
        if (h->inside || h->calls != 1) pbt::fail("the handler is still in use");
        h.reset(); runner.join(); publish(); syscall(SYS_close, fd);
    });
    if (ran) c.nontrivial(); if (first) c.label("stopped before");
}
