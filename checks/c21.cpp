// C21: descriptor owners against a table of open descriptors (every close()
// and fcntl() of the code under test is observed, and may be made to fail);
// the retrying helper against scripts of results.
#include <sharemind/FileDescriptor.h>
#include <sharemind/Posix.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;
struct World {
    bool active = false; std::map<int, int> open; /* descriptor -> identity */ int nextId = 0; std::vector<int> closedIds;
    std::vector<int> fcntlErrors; size_t fcntlCalls = 0; bool closeInterrupted = false; std::vector<int> commands;
} w;
int add(int fd) { CHECKM(fd >= 0, "the sandbox has no descriptors left"); CHECK(!w.open.count(fd)); w.open[fd] = w.nextId; return w.nextId++; }
int fresh() { int const fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); add(fd); return fd; }
}
extern "C" int close(int fd) {
    if (!w.active) return (int)syscall(SYS_close, fd);
    if (fd < 0) { errno = EBADF; return -1; }
    auto const it = w.open.find(fd);
    if (it == w.open.end()) pbt::fail("descriptor %d is closed but not open: closed twice or never owned", fd);
    w.closedIds.push_back(it->second); w.open.erase(it); syscall(SYS_close, fd);
    if (w.closeInterrupted) { errno = EINTR; return -1; } // the descriptor is gone nevertheless
    return 0;
}
extern "C" int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long const arg = va_arg(ap, long); va_end(ap);
    if (w.active) {
        ++w.fcntlCalls; w.commands.push_back(cmd);
        if (!w.fcntlErrors.empty()) { int const e = w.fcntlErrors.front(); w.fcntlErrors.erase(w.fcntlErrors.begin()); if (e) { errno = e; return -1; } }
    }
    bool const noArg = cmd == F_GETFD || cmd == F_GETFL;
    int const r = (int)syscall(SYS_fcntl, fd, cmd, noArg ? 0l : (long)(int)arg);
    if (w.active && r >= 0 && (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD)) add(r);
    return r;
}
namespace {
struct Active { Active() { static int const zero = (int)syscall(SYS_close, 0); (void)zero; /* so that 0 is a descriptor like any other */ w = World(); w.active = true; } ~Active() { w.active = false; } };
SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(sm::Exception, Get, "getting failed"); SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(sm::Exception, Set, "setting failed");
int nestedErrno(std::exception const & e) { try { std::rethrow_if_nested(e); } catch (sm::ErrnoException const & n) { try { std::rethrow_if_nested(n); } catch (...) { return -2; } return n.errorNumber(); } catch (...) { return -3; } return -1; }
std::vector<int> retries(pbt::Ctx & c) { std::vector<int> v; while (c.more(v.size(), 1, 5)) v.push_back(c.coin() ? EINTR : EAGAIN); return v; }
int const hardErrors[] = {EMFILE, EBADF, EINVAL, EPERM, EIO, ENOMEM, ENFILE, 1000};
int anyError(pbt::Ctx & c) { if (c.coin()) return hardErrors[c.draw(7)]; int const e = 1 + (int)c.draw(132); return e == EINTR || e == EAGAIN ? EBADF : e; } // any but those that ask for a repetition
}

PBT_PROP(ownership, 4000, 200000, "at least two owners, a transfer or duplicate and a descriptor closed by a non-destructor operation") {
    static_assert(!std::is_copy_constructible<sm::FileDescriptor>::value && !std::is_copy_assignable<sm::FileDescriptor>::value && std::is_nothrow_move_constructible<sm::FileDescriptor>::value && std::is_nothrow_move_assignable<sm::FileDescriptor>::value, "one owner");
    size_t transfers = 0, closes = 0, n = 0;
    {
        Active act; std::vector<std::unique_ptr<sm::FileDescriptor>> o; std::vector<int> own; std::vector<int> loose; // own[i]: the descriptor that owner i has
        auto gone = [&](int fd, size_t before) { if (fd < 0) { CHECK_EQ(w.closedIds.size(), before); } else { ++closes; CHECK_EQ(w.closedIds.size(), before + 1); CHECKM(!w.open.count(fd), "descriptor %d is still open", fd); } };
        while (c.more(n, 14, 80)) {
            ++n; size_t const before = w.closedIds.size(); unsigned const op = c.weighted({4, 2, 2, 2, 2, 2, 2, 3, 2, 1}); size_t const i = o.empty() ? 0 : c.draw(o.size() - 1), j = o.empty() ? 0 : c.draw(o.size() - 1); w.closeInterrupted = c.chance(1, 5); errno = 0; bool destroyed = false;
            if (o.empty() && op) continue;
            switch (op) {
            case 0: { if (o.size() > 6) break; int const fd = c.chance(1, 4) ? -1 : fresh(); if (fd == -1 && c.coin()) o.emplace_back(new sm::FileDescriptor()); else o.emplace_back(new sm::FileDescriptor(fd)); own.push_back(fd); gone(-1, before); break; }
            case 1: { if (o.size() > 6) break; o.emplace_back(new sm::FileDescriptor(std::move(*o[i]))); own.push_back(own[i]); own[i] = -1; ++transfers; gone(-1, before); break; }
            case 2: { sm::FileDescriptor & r = (*o[i] = std::move(*o[j])); CHECK(&r == o[i].get()); if (i != j) { int const old = own[i]; own[i] = own[j]; own[j] = -1; gone(old, before); ++transfers; } else gone(-1, before); break; }
            case 3: { int const fd = c.chance(1, 4) ? -1 : c.chance(1, 4) ? own[i] : fresh(); int const old = own[i]; o[i]->reset(fd); gone(old == fd ? -1 : old, before); own[i] = fd; break; }
            case 4: { int const fd = o[i]->release(); CHECK_EQ(fd, own[i]); if (fd >= 0) { loose.push_back(fd); ++transfers; } own[i] = -1; gone(-1, before); break; }
            case 5: { o[i]->close(); gone(own[i], before); own[i] = -1; break; }
            case 6: { o.erase(o.begin() + i); int const fd = own[i]; own.erase(own.begin() + i); gone(fd, before); destroyed = true; break; }
            case 7: { // duplicate, the call being interrupted or failing
                auto script = retries(c); size_t const tries = script.size(); int hard = 0; if (c.chance(1, 4)) script.push_back(hard = anyError(c)); w.fcntlErrors = script; w.fcntlCalls = 0; size_t const opened = w.open.size();
                int const expected = hard ? hard : own[i] < 0 ? EBADF : 0;
                try { sm::FileDescriptor const & src = *o[i]; sm::FileDescriptor d(src.duplicate()); CHECKM(!expected, "duplicating must fail with %d", expected); CHECK(d.valid()); CHECK(d.nativeHandle() != own[i]); CHECK_EQ(w.open.size(), opened + 1); CHECK(w.open.count(d.nativeHandle())); CHECKM(syscall(SYS_fcntl, d.nativeHandle(), F_GETFD, 0) & FD_CLOEXEC, "not close-on-exec"); ++transfers; int const fd = d.nativeHandle(); if (o.size() < 7) { o.emplace_back(new sm::FileDescriptor(std::move(d))); own.push_back(fd); } }
                catch (sm::Exception const & e) { CHECKM(expected && nestedErrno(e) == expected, "failed with %d (%s), expected %d", nestedErrno(e), e.what(), expected); CHECK_EQ(w.open.size(), opened); }
                CHECKM(w.fcntlCalls == tries + 1, "%zu calls for %zu interruptions", w.fcntlCalls, tries); w.fcntlErrors.clear(); if (tries) c.label("interrupted"); break; }
            case 8: { if (loose.empty()) break; size_t const k = c.draw(loose.size() - 1); int const old = own[i]; if (c.coin()) { *o[i] = sm::FileDescriptor(loose[k]); } else o[i]->reset(loose[k]); own[i] = loose[k]; loose.erase(loose.begin() + k); gone(old, before); ++transfers; break; }
            default: { // through a container, as any movable type
                std::vector<sm::FileDescriptor> v; for (auto & p : o) v.push_back(std::move(*p)); if (v.size() > 1) std::swap(v[0], v[1]); if (v.size() > 1) std::swap(own[0], own[1]); for (size_t k = 0; k < v.size(); ++k) *o[k] = std::move(v[k]); gone(-1, before); ++transfers; }
            }
            if (!destroyed) for (size_t k = 0; k < o.size(); ++k) { CHECKM(o[k]->nativeHandle() == own[k], "owner %zu has descriptor %d, expected %d", k, o[k]->nativeHandle(), own[k]); CHECK_EQ(o[k]->valid(), own[k] >= 0); if (own[k] >= 0) CHECKM(w.open.count(own[k]), "descriptor %d of a live owner is closed", own[k]); }
        }
        if (o.size() + closes >= 2 && transfers && closes) c.nontrivial();
        o.clear(); CHECKM(w.open.size() == loose.size(), "%zu descriptors leaked", w.open.size() - loose.size()); for (int fd : loose) { CHECK(w.open.count(fd)); syscall(SYS_close, fd); w.open.erase(fd); }
        std::map<int, int> times; for (int id : w.closedIds) CHECK(++times[id] == 1);
    }
}

// A call with a script of results; each is a value and, for failures, an errno.
template <typename T, typename Ok> void loop(pbt::Ctx & c, std::vector<T> const & good, std::vector<T> const & bad, Ok ok) {
    struct Step { T v; int e; }; std::vector<Step> script; for (int e : retries(c)) script.push_back({c.pick(bad), e}); size_t const tries = script.size(); bool const fails = c.chance(1, 3); int const e = anyError(c); script.push_back({c.pick(fails ? bad : good), fails ? e : c.coin() ? 0 : EINTR}); // errno is meaningless after a success
    script.push_back({c.pick(good), 0}); size_t calls = 0; int cell = 7; long const arg = (long)c.bits(32);
    auto f = [&](int * p, long a, int const & r) { CHECK(p == &cell && a == arg && &r == &cell); CHECKM(calls < tries + 1, "called again after its outcome is known"); auto const & s = script[calls++]; errno = s.e; return s.v; };
    try { auto const r = sm::syscallLoop<Set>(f, ok, &cell, arg, static_cast<int const &>(cell)); static_assert(std::is_same<typename std::remove_const<decltype(r)>::type, T>::value, ""); CHECKM(!fails, "a failure with %d was not reported", e); CHECKM(r == script[tries].v, "the result was changed"); }
    catch (Set const & x) { CHECK(x.what() == std::string("setting failed")); CHECKM(fails && nestedErrno(x) == e, "reported %d, expected %d", nestedErrno(x), fails ? e : 0); }
    CHECKM(calls == tries + 1, "%zu calls for %zu interruptions", calls, tries); if (tries) c.nontrivial(); if (fails) c.label("fails");
}
PBT_PROP(retrying, 8000, 300000, "the call is interrupted at least once") {
    static char buf[4];
    switch (c.draw(3)) {
    case 0: loop<int>(c, {0}, {-1, 1, -2}, [](int r) { return r == 0; }); break;
    case 1: loop<ssize_t>(c, {0, 1, 1l << 40, 5}, {-1}, [](ssize_t r) noexcept { return r != -1; }); break;
    case 2: loop<void *>(c, {buf, buf + 1}, {nullptr, (void *)-1}, [](void * p) { return p && p != (void *)-1; }); break;
    default: loop<unsigned char>(c, {1, 255}, {0}, [](unsigned char r) -> bool { return r; }); }
}
PBT_PROP(flags, 3000, 80000, "flags are added while calls are interrupted or fail") {
    Active act; int const fd = fresh(); bool const fl = c.coin(); static int const all[] = {O_NONBLOCK, O_APPEND, O_NONBLOCK | O_APPEND, O_ASYNC * 0};
    int have = fl ? all[c.draw(3)] : (int)c.draw(1), want = fl ? all[c.draw(3)] : (int)c.draw(1); syscall(SYS_fcntl, fd, fl ? F_SETFL : F_SETFD, have); int const before = (int)syscall(SYS_fcntl, fd, fl ? F_GETFL : F_GETFD, 0);
    auto a = retries(c), b = retries(c); int const fail = (int)c.weighted({3, 1, 1}); int const e = anyError(c); std::vector<int> s = a; s.push_back(fail == 1 ? e : 0); if (fail != 1) { s.insert(s.end(), b.begin(), b.end()); s.push_back(fail == 2 ? e : 0); } w.fcntlErrors = s; w.commands.clear(); size_t const total = s.size(); bool const same = c.coin(); bool skipped = false; // a call which would change nothing need not be made
    try { if (fl) { if (same) sm::fcntlAddFl<Set>(fd, want); else sm::fcntlAddFl<Get, Set>(fd, want); } else { if (same) sm::fcntlAddFd<Set>(fd, want); else sm::fcntlAddFd<Get, Set>(fd, want); } skipped = fail != 1 && (before & want) == want && w.commands.size() == a.size() + 1; CHECKM(!fail || skipped, "a failure of call %d was not reported", fail); }
    catch (Get const & x) { CHECK(fail == 1 && !same); CHECK_EQ(nestedErrno(x), e); }
    catch (Set const & x) { CHECK(fail && (same || fail == 2)); CHECK_EQ(nestedErrno(x), e); }
    CHECKM(skipped || (w.fcntlErrors.empty() && w.commands.size() == total), "%zu calls, expected %zu", w.commands.size(), total);
    w.fcntlErrors.clear(); int const after = (int)syscall(SYS_fcntl, fd, fl ? F_GETFL : F_GETFD, 0); CHECKM(after == (fail && !skipped ? before : before | want), "flags %x, expected %x", after, fail ? before : before | want);
    syscall(SYS_close, fd); if (total > 2 || fail) c.nontrivial();
}
