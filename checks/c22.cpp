// C22, one thread: histories of descriptors, readiness, registrations, injected
// faults and stop requests. At every wait of the loop the expected deliveries
// are computed by poll(2) from the registrations the history made.
#include <sharemind/EventLoop.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind; using L = sm::EventLoop; using Set = L::EventSet;
struct Expected { int fd, handler; Set events; bool optional, delivered; };
struct World {
    bool active = false; std::set<int> open; std::deque<int> ctlErrors, waitErrors, readErrors; int createError = 0, pipeError = 0; size_t ctlCalls = 0, waits = 0; int pipeRead = -1, pipeWrite = -1;
    std::map<int, uint64_t> data; // of each registered descriptor, as given to the kernel
    void (*before)() = nullptr; void (*after)(epoll_event const *, int, int) = nullptr;
} w;
int pop(std::deque<int> & q) { if (q.empty()) return 0; int const e = q.front(); q.pop_front(); return e; }
void track(int fd) { CHECK(w.open.insert(fd).second); }
}
extern "C" int close(int fd) { if (w.active) { if (!w.open.erase(fd)) pbt::fail("descriptor %d is closed twice", fd); w.data.erase(fd); } return (int)syscall(SYS_close, fd); }
extern "C" int epoll_create1(int flags) { if (w.active && w.createError) { errno = w.createError; return -1; } int const r = (int)syscall(SYS_epoll_create1, flags); if (w.active && r >= 0) { CHECK(flags & EPOLL_CLOEXEC); track(r); } return r; }
extern "C" int pipe2(int * fds, int flags) { if (w.active && w.pipeError) { int const e = w.pipeError; if (e == EINTR) w.pipeError = 0; errno = e; return -1; } int const r = (int)syscall(SYS_pipe2, fds, flags); if (w.active && r == 0) { CHECKM((flags & O_CLOEXEC) && (flags & O_NONBLOCK), "the loop's own descriptors are to be close-on-exec and not to block"); track(fds[0]); track(fds[1]); w.pipeRead = fds[0]; w.pipeWrite = fds[1]; } return r; }
extern "C" int epoll_ctl(int ep, int op, int fd, epoll_event * e) __THROW { if (w.active) { ++w.ctlCalls; if (int const err = pop(w.ctlErrors)) { errno = err; return -1; } } int const r = (int)syscall(SYS_epoll_ctl, ep, op, fd, e); if (w.active && r == 0) { if (op == EPOLL_CTL_DEL) w.data.erase(fd); else w.data[fd] = e->data.u64; } return r; }
extern "C" int epoll_wait(int ep, epoll_event * events, int max, int timeout) {
    if (!w.active) return (int)syscall(SYS_epoll_wait, ep, events, max, timeout);
    if (int const e = pop(w.waitErrors)) { errno = e; return -1; }
    ++w.waits; if (w.before) w.before(); int const r = (int)syscall(SYS_epoll_wait, ep, events, max, 0); if (w.after) w.after(events, r, max); return r;
}
extern "C" ssize_t read(int fd, void * p, size_t n) { if (w.active && fd == w.pipeRead) if (int const e = pop(w.readErrors)) { errno = e; return -1; } return syscall(SYS_read, fd, p, n); }

namespace {
struct Reg { bool armed; Set mask; int handler; };
struct Fd { int fd, peer; int kind; bool peerOpen; };
struct History;
History * H;
struct History {
    pbt::Ctx & c; std::unique_ptr<L> loop; std::vector<Fd> fds; std::map<int, Reg> regs; std::vector<std::unique_ptr<L::EventHandler>> handlers; std::vector<Expected> expected; std::vector<int> owned;
    bool stopped = false, big = false, burst = false, running = false, optionalAll = false; size_t budget, deliveries = 0, waitsAfterStop = 0, rearms = 0; int driver = -1; std::set<int> calledNow;
    History(pbt::Ctx & c_, size_t n) : c(c_), budget(n) {}
    static Set poll1(int fd) { pollfd p{fd, (short)(POLLIN | POLLPRI | POLLOUT | POLLRDHUP), 0}; int const r = ::poll(&p, 1, 0); return r > 0 ? (Set)(unsigned short)p.revents : 0u; }
    void settle() { // everything that was expected in the last batch has been delivered
        for (auto const & e : expected) CHECKM(e.delivered || e.optional, "the handler %d of descriptor %d was not called for events %x", e.handler, e.fd, e.events);
        expected.clear();
    }
    void before() {
        settle(); if (stopped) { ++waitsAfterStop; CHECKM(waitsAfterStop < 8, "the loop does not return after a stop request"); }
        for (auto const & r : regs) { if (!r.second.armed) continue; Set const ev = poll1(r.first) & (r.second.mask | EPOLLERR | EPOLLHUP); if (ev) expected.push_back({r.first, r.second.handler, ev, false, false}); }
    }
    void after(epoll_event const * ev, int n, int max) {
        if (n < 0) pbt::fail("epoll_wait failed");
        size_t const pipe = (poll1(w.pipeRead) & (EPOLLIN | EPOLLHUP)) ? 1 : 0; // the loop's own pipe
        if (expected.size() + pipe > (size_t)max) { // not all fit: the kernel's choice is found by the registration data
            std::set<uint64_t> got; for (int i = 0; i < n; ++i) { uint64_t const u = ev[i].data.u64; got.insert(u); } std::vector<Expected> now; for (auto const & e : expected) if (got.count(w.data[e.fd])) now.push_back(e); expected = now;
        }
        for (auto & e : expected) { regs[e.fd].armed = false; if (e.handler < 0) e.delivered = true; }
    }
    void deliver(int h, Set events, bool known) {
        CHECKM(running, "handler %d is called outside of the loop", h); ++deliveries;
        for (auto & e : expected) if (e.handler == h && !e.delivered && (!known || e.events == events)) { e.delivered = true; return; }
        for (auto & e : expected) if (e.handler == h && !e.delivered) pbt::fail("handler %d got events %x, expected %x of descriptor %d", h, events, e.events, e.fd);
        pbt::fail("handler %d is called for events %x that it was not to be called for", h, events);
    }
    int handler(int fixed = -1) { // a handler of either kind
        int const h = (int)handlers.size(); (void)fixed;
        if (c.coin()) { struct Own : L::EventHandler { int h; explicit Own(int h_) : h(h_) {} void handleEvents(Set e) noexcept override { H->deliver(h, e, true); H->act(h); } }; handlers.emplace_back(new Own(h)); }
        else if (c.coin()) handlers.push_back(L::createHandler([h](Set e) noexcept { H->deliver(h, e, true); H->act(h); }));
        else if (c.chance(1, 3)) { struct Named { int h; void operator()(Set e) noexcept { H->deliver(h, e, true); H->act(h); } }; std::unique_ptr<Named> f(new Named{h}); handlers.push_back(L::createHandler(*f)); f->h = -1; } // does not outlive the call
        else if (c.chance(1, 3)) { auto f = [h]() noexcept { H->deliver(h, 0, false); H->act(h); }; handlers.push_back(L::createSimpleHandler(f)); }
        else handlers.push_back(L::createSimpleHandler([h]() noexcept { H->deliver(h, 0, false); H->act(h); }));
        return h;
    }
    void registered(int fd, bool armed, Set mask, int h) { regs[fd] = {armed, mask, h}; }
    void forget(int fd) { for (auto & e : expected) if (e.fd == fd) e.optional = true; }
    Set mask() { switch (c.draw(6)) { case 0: return L::ALL_INPUT_EVENTS; case 1: return L::ALL_OUTPUT_EVENTS; case 2: return L::INPUT_DATA_EVENTS; case 3: return L::ALL_EVENTS; case 4: return L::ALL_HUP_EVENTS; case 5: return 0; default: return EPOLLIN; } }
    void create() {
        if (fds.size() > 7) return;
        int p[2]; int const kind = (int)c.draw(3);
        switch (kind) {
        case 0: CHECK(syscall(SYS_pipe2, p, O_NONBLOCK | O_CLOEXEC) == 0); fds.push_back({p[0], p[1], 0, true}); break;
        case 1: CHECK(syscall(SYS_pipe2, p, O_NONBLOCK | O_CLOEXEC) == 0); fds.push_back({p[1], p[0], 1, true}); break;
        case 2: p[0] = ::eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC); CHECK(p[0] >= 0); fds.push_back({p[0], -1, 2, false}); break;
        default: CHECK(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p) == 0); fds.push_back({p[0], p[1], 3, true}); }
    }
    int existing() { return big || c.coin() || handlers.size() < 2 ? handler() : 1 + (int)c.draw(handlers.size() - 2); } // handler 0 is the driver's
    // Runs f, which calls epoll_ctl with generated faults; returns whether it threw as it must.
    template <typename F> bool faulty(int expectedErrno, F && f) {
        size_t n = 0; while (c.chance(1, 6) && n < 4) { ++n; w.ctlErrors.push_back(c.coin() ? EINTR : EAGAIN); }
        int hard = 0; if (c.chance(1, 12)) { static int const es[] = {ENOMEM, ENOSPC, EINVAL, EPERM, EBADF, ELOOP}; hard = es[c.draw(5)]; w.ctlErrors.push_back(hard); }
        int const want = hard ? hard : expectedErrno; bool threw = false;
        try { f(); CHECKM(!want, "the failure %d was not reported", want); }
        catch (L::EpollCtlException const & e) { threw = true; int got = 0; try { std::rethrow_if_nested(e); } catch (sm::ErrnoException const & x) { got = x.errorNumber(); } CHECKM(want == got, "reported %d, expected %d", got, want); }
        CHECKM(w.ctlErrors.empty(), "the call was not repeated"); return threw;
    }
    void act(int h) { // what the history does while the loop runs
        bool const isDriver = h == 0; if (isDriver) { loop->modify(driver, EPOLLIN, *handlers[0]); registered(driver, true, EPOLLIN, 0); }
        size_t const n = isDriver ? 1 + c.draw(3) : c.chance(1, 3) ? 1 : 0;
        for (size_t i = 0; i < n; ++i) { if (!budget) { if (!stopped) { stopped = true; loop->stopAsync(); } return; } --budget; op(); }
    }
    void op() {
        unsigned const k = c.weighted({4, 4, 3, 2, 2, 2, 3, 8, 2, 1, 1, 1}); if ((fds.empty() && k && k < 9) || (big && (k == 3 || k == 4))) return; Fd * const f = fds.empty() ? nullptr : &fds[c.draw(fds.size() - 1)]; bool const in = f && regs.count(f->fd);
        switch (k) {
        case 0: create(); break;
        case 1: { Set const m = mask(); int const h = existing(); bool r = false; if (!faulty(0, [&] { r = loop->insert(f->fd, m, *handlers[h]); })) { CHECKM(r == !in, "insert returned %d", r); if (r) registered(f->fd, true, m, h); } break; }
        case 2: { Set const m = mask(); int const h = existing(); bool r = false; if (!faulty(0, [&] { r = loop->insertOrModify(f->fd, m, *handlers[h]); })) { CHECKM(r == !in, "insertOrModify returned %d", r); registered(f->fd, true, m, h); if (in) ++rearms; } break; }
        case 3: { if (c.coin()) { if (!faulty(in ? EEXIST : 0, [&] { loop->insertDisabled(f->fd); })) registered(f->fd, true, 0, -1); } else { bool r = false; if (!faulty(0, [&] { r = loop->insertDisabledOrDisable(f->fd); })) { CHECKM(r == !in, "insertDisabledOrDisable returned %d", r); forget(f->fd); registered(f->fd, true, 0, -1); } } break; }
        case 4: if (!faulty(in ? 0 : ENOENT, [&] { loop->disable(f->fd); })) { forget(f->fd); registered(f->fd, true, 0, -1); } break;
        case 5: { bool r = false; if (!faulty(0, [&] { r = loop->remove(f->fd); })) { CHECKM(r == in, "remove returned %d", r); forget(f->fd); regs.erase(f->fd); } break; }
        case 6: { Set const m = mask(); int const h = existing(); if (!faulty(in ? 0 : ENOENT, [&] { loop->modify(f->fd, m, *handlers[h]); })) { registered(f->fd, true, m, h); ++rearms; } break; }
        case 7: { char buf[70000]; uint64_t one = 1; memset(buf, 1, sizeof buf); switch (f->kind) { // readiness
            case 0: if (c.coin()) { if (f->peerOpen) (void)syscall(SYS_write, f->peer, buf, 1); } else (void)syscall(SYS_read, f->fd, buf, sizeof buf); break;
            case 1: if (c.coin()) (void)syscall(SYS_write, f->fd, buf, f->peerOpen ? sizeof buf : 0); else if (f->peerOpen) (void)syscall(SYS_read, f->peer, buf, sizeof buf); break;
            case 2: if (c.coin()) (void)syscall(SYS_write, f->fd, &one, 8); else (void)syscall(SYS_read, f->fd, &one, 8); break;
            default: if (f->peerOpen) { if (c.coin()) (void)::send(f->peer, "x", 1, c.coin() ? MSG_OOB | MSG_NOSIGNAL : MSG_NOSIGNAL); else (void)syscall(SYS_shutdown, f->peer, SHUT_WR); } else (void)syscall(SYS_read, f->fd, buf, sizeof buf); } break; }
        case 8: if (f->peerOpen) { syscall(SYS_close, f->peer); f->peerOpen = false; } break; // hang up
        case 9: w.waitErrors.push_back(c.chance(1, 4) ? EBADF : EINTR); break;
        case 10: { static size_t const sizes[] = {1, 2, 1535, 1536, 1537, 3071, 3072, 5000}; size_t const n = sizes[c.draw(7)]; std::string const s(n, '\0'); if (!stopped) (void)syscall(SYS_write, w.pipeWrite, s.data(), n); while (c.chance(1, 4)) w.readErrors.push_back(EINTR); c.label("notified"); break; } // as n waiting threads do
        default: if (c.chance(1, 6)) { stopped = true; loop->stopAsync(); c.label("stopped early"); } else if (big && !burst) { burst = true; c.label("more events than fit"); for (int i = 0; i < 150; ++i) { int const e = ::eventfd(1, EFD_NONBLOCK | EFD_CLOEXEC); CHECK(e >= 0); fds.push_back({e, -1, 2, false}); int const h = handler(); CHECK(loop->insert(e, EPOLLIN, *handlers[h])); registered(e, true, EPOLLIN, h); } } }
    }
    void run() {
        for (unsigned guard = 0; ; ++guard) {
            CHECK(guard < 200); running = true;
            try { loop->run(); running = false; CHECKM(stopped, "the loop returned without a stop request"); settle(); return; }
            catch (L::EpollWaitException const & e) { running = false; int got = 0; try { std::rethrow_if_nested(e); } catch (sm::ErrnoException const & x) { got = x.errorNumber(); } CHECK_EQ(got, EBADF); settle(); c.label("waiting failed"); }
        }
    }
};
struct Closer { History & h; ~Closer() { w.before = nullptr; w.after = nullptr; for (auto & f : h.fds) { syscall(SYS_close, f.fd); if (f.peerOpen) syscall(SYS_close, f.peer); } if (h.driver >= 0) syscall(SYS_close, h.driver); } };
}

PBT_PROP(history, 3000, 120000, "at least five deliveries and one re-arming") {
    w = World(); w.active = true; History h(c, 8 + c.draw(60)); h.big = c.chance(1, 30); H = &h; h.loop.reset(new L());
    {
        Closer closer{h}; h.driver = ::eventfd(1, EFD_NONBLOCK | EFD_CLOEXEC); CHECK(h.driver >= 0); struct Driver : L::EventHandler { void handleEvents(Set e) noexcept override { H->deliver(0, e, true); H->act(0); } }; h.handlers.emplace_back(new Driver());
        if (c.chance(1, 10)) { h.stopped = true; h.loop->stopAsync(); c.label("stopped before running"); } else while (h.budget && c.more(h.budget, 1, 100)) { --h.budget; h.op(); }
        CHECK(h.loop->insert(h.driver, EPOLLIN, *h.handlers[0])); h.registered(h.driver, true, EPOLLIN, 0);
        w.before = [] { H->before(); }; w.after = [](epoll_event const * e, int n, int m) { H->after(e, n, m); };
        h.run(); h.waitsAfterStop = 0; if (c.coin()) h.run(); // stopped for good
        if (c.coin()) h.loop->stop();
        size_t const d = h.deliveries; h.loop->spinUntilLoopIterationEnd(); h.loop->yieldUntilLoopIterationEnd(); CHECK_EQ(h.deliveries, d);
        if (d >= 5 && h.rearms) c.nontrivial();
        h.loop.reset();
    }
    w.active = false; CHECKM(w.open.empty(), "%zu descriptors of the loop leaked", w.open.size());
}
PBT_PROP(creation, 600, 5000, "a step of creating the loop fails") {
    w = World(); w.active = true; unsigned const at = (unsigned)c.draw(4); int const e = c.coin() ? EMFILE : ENOMEM; bool failed = false;
    if (at == 1) w.createError = e; if (at == 2) w.pipeError = e; if (at == 3) w.ctlErrors.push_back(e); if (at == 4) { w.pipeError = EINTR; w.ctlErrors.push_back(EINTR); }
    auto nested = [](std::exception const & x) { try { std::rethrow_if_nested(x); } catch (sm::ErrnoException const & n) { return n.errorNumber(); } return 0; };
    try { L l; if (c.coin()) l.stopAsync(); if (c.coin()) l.stop(); if (c.coin()) l.stop(); } catch (L::EpollCreateException const & x) { failed = true; CHECK(at == 1 && nested(x) == e); } catch (L::PipeCreateException const & x) { failed = true; CHECK(at == 2 && nested(x) == e); } catch (L::EpollCtlException const & x) { failed = true; CHECK(at == 3 && nested(x) == e); }
    CHECK_EQ(failed, at >= 1 && at <= 3); w.active = false; CHECKM(w.open.empty(), "%zu descriptors leaked", w.open.size()); c.nontrivial(failed);
}

// The sets of events mean what they are called, in whichever way they are combined.
PBT_PROP(sets, 2000, 20000, "two sets are combined") {
    struct Named { char const * name; Set got, want; };
    static Set const in = EPOLLIN | EPOLLPRI, out = EPOLLOUT, err = EPOLLERR, hup = EPOLLHUP, rd = EPOLLRDHUP;
    static Named const all[] = {
        {"COMMON_ERROR", L::COMMON_ERROR_EVENTS, err}, {"INPUT_ERROR", L::INPUT_ERROR_EVENTS, err}, {"OUTPUT_ERROR", L::OUTPUT_ERROR_EVENTS, err}, {"ALL_ERROR", L::ALL_ERROR_EVENTS, err},
        {"COMMON_HUP", L::COMMON_HUP_EVENTS, hup}, {"INPUT_HUP", L::INPUT_HUP_EVENTS, hup | rd}, {"OUTPUT_HUP", L::OUTPUT_HUP_EVENTS, hup}, {"ALL_HUP", L::ALL_HUP_EVENTS, hup | rd},
        {"COMMON_FATAL", L::COMMON_FATAL_EVENTS, err | hup}, {"INPUT_FATAL", L::INPUT_FATAL_EVENTS, err | hup | rd}, {"OUTPUT_FATAL", L::OUTPUT_FATAL_EVENTS, err | hup}, {"ALL_FATAL", L::ALL_FATAL_EVENTS, err | hup | rd},
        {"COMMON_DATA", L::COMMON_DATA_EVENTS, 0}, {"INPUT_DATA", L::INPUT_DATA_EVENTS, in}, {"OUTPUT_DATA", L::OUTPUT_DATA_EVENTS, out}, {"ALL_DATA", L::ALL_DATA_EVENTS, in | out},
        {"ALL_INPUT", L::ALL_INPUT_EVENTS, in | err | hup | rd}, {"ALL_OUTPUT", L::ALL_OUTPUT_EVENTS, out | err | hup}, {"ALL", L::ALL_EVENTS, in | out | err | hup | rd}};
    Set got = 0, want = 0; size_t n = 0; do { Named const & e = all[c.draw(sizeof all / sizeof *all - 1)]; c.trace("%s", e.name); got |= e.got; want |= e.want; ++n; CHECKM(got == want, "%s gives %x and not %x", e.name, got, want); } while (c.more(n, 2, 6));
    if (n > 1) c.nontrivial();
}
