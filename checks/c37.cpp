// C37: the assertion macros at a table of call sites, run in forked children
// (or in place when they have to let the program go on), against what the
// generated value or exception chain makes of them.
#include <sharemind/TestAssert.h>
#include <csignal>
#include <cstring>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "pbt.h"

namespace {

struct Virt : virtual std::exception { std::string m; explicit Virt(std::string s) : m(std::move(s)) {} char const * what() const noexcept override { return m.c_str(); } };
struct Hold : std::nested_exception, std::logic_error { explicit Hold(std::string const & s) : std::logic_error(s) {} };
struct Odd : std::nested_exception { int x = 0; };
enum Kind { Runtime, VirtK, BadAlloc, HoldK, LastStd = HoldK, Int, OddK, Kinds };
struct Link { unsigned kind; std::string text; bool nest; };
[[noreturn]] void plain(Link const & l) { switch (l.kind) { case Runtime: throw std::runtime_error(l.text); case VirtK: throw Virt(l.text); case BadAlloc: throw std::bad_alloc(); case HoldK: throw Hold(l.text); case Int: throw 5; default: throw Odd(); } }
[[noreturn]] void nesting(Link const & l) { switch (l.kind) { case Runtime: std::throw_with_nested(std::runtime_error(l.text)); case VirtK: std::throw_with_nested(Virt(l.text)); case BadAlloc: std::throw_with_nested(std::bad_alloc()); default: plain(l); } }
[[noreturn]] void raise(std::vector<Link> const & ls, size_t i) {
    if (i + 1 < ls.size()) { try { raise(ls, i + 1); } catch (...) { if (ls[i].nest) nesting(ls[i]); plain(ls[i]); } }
    if (ls[i].nest) nesting(ls[i]); // nothing to nest
    plain(ls[i]);
}
bool isStd(unsigned k) { return k <= LastStd; }
std::string whatOf(Link const & l) { return l.kind == BadAlloc ? std::string(std::bad_alloc().what()) : l.text; }

// What the checked expressions get at. Every look counts.
struct Env {
    std::vector<Link> const * chain; int x; int looks = 0; int * elsewhere = nullptr;
    int operator()() { ++looks; if (elsewhere) ++*elsewhere; if (chain) raise(*chain, 0); return x; }
};
enum Macro { Assert, Throws, NoThrow, Unreachable };
struct Site { Macro macro; void (* f)(Env &); bool (* holds)(int); char const * text; int line; char const * file; };
struct Truth { int x; explicit operator bool() const { return x != 4; } };
struct Refuses { int x; bool operator!() const { return x > 6; } explicit operator bool() const { return x <= 6; } };
template <typename A, typename B> struct Two { static int of(int x) { return x; } };
constexpr int d = 7, s = 3, n = 2;
#define A(cond, ...) Site{Assert, [](Env & v) { (void)v; SHAREMIND_TESTASSERT(__VA_ARGS__); }, [](int x) -> bool { (void)x; return cond; }, #__VA_ARGS__, __LINE__, __FILE__}
#define T(...) Site{Throws, [](Env & v) { SHAREMIND_TEST_THROWS(__VA_ARGS__); }, [](int) { return false; }, #__VA_ARGS__, __LINE__, __FILE__}
#define N(...) Site{NoThrow, [](Env & v) { SHAREMIND_TEST_DOES_NOT_THROW(__VA_ARGS__); }, [](int) { return true; }, #__VA_ARGS__, __LINE__, __FILE__}
// (Names of files are like that, sometimes.)
#line 69 "c%d37%s.cpp"
Site const sites[] = {
    A(x, v()),
    A(x == 0, !v()),
    A(x > 3, v() > 3),
    A(x % 2 == 0, v() % 2 == 0),
    A(x %d == 1, v() %d == 1),
    A(x %s, v() %s),
    A(x %n != 0, v() %n != 0),
    A((x % 3, x & 1), (Two<int, long>::of(v()) % 3, v.x & 1)),
    A((x & 1), Two<int, char>::of(v()) & 1),
    A(x != 5, ([&] { if (int const y = v()) return y != 5; return true; }())),
    A(x != 2 || x == 2, "100%s" && (v() || true)),
    A(x != 4, Truth{v()}),
    A(x <= 6, Refuses{v()}),
    A(x, (void *)(v() ? &v : nullptr)),
    A(true, Truth{v()} || true),
    T(v()),
    T(int const y = v(); (void)(y %d)),
    T(std::string const t("%s%n"); v(), v.x = (int)t.size()),
    N(v()),
    N(int const y = v(); (void)(y %s)),
    N(if (v() %n) v.x = 1),
    Site{Unreachable, [](Env &) { SHAREMIND_TEST_UNREACHABLE; }, [](int) { return false; }, "unreachable", __LINE__, __FILE__},
};
#line 76 "c37.cpp"
#undef A
#undef T
#undef N
size_t const numSites = sizeof sites / sizeof *sites;

// Looks taken in a child.
int & shared() { static int & r = *(int *)::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return r; }
struct Died { int status; std::string out; };
template <typename F> Died inChild(F && f) {
    int fd[2]; if (::pipe(fd)) pbt::fail("pipe");
    std::fflush(nullptr);
    pid_t const pid = ::fork(); if (pid < 0) { ::close(fd[0]); ::close(fd[1]); pbt::fail("fork"); }
    if (!pid) { ::dup2(fd[1], 2); ::close(fd[0]); ::close(fd[1]); ::signal(SIGABRT, SIG_DFL); ::alarm(20); f(); ::_exit(77); }
    ::close(fd[1]); Died r; char b[4096]; ssize_t k; while ((k = ::read(fd[0], b, sizeof b)) > 0) r.out.append(b, (size_t)k); ::close(fd[0]);
    while (::waitpid(pid, &r.status, 0) < 0) {}
    return r;
}
std::vector<Link> chain(pbt::Ctx & c) {
    std::vector<Link> ls; size_t const k = 1 + c.length(7, 3);
    for (size_t i = 0; i < k; ++i) {
        Link l; l.kind = c.chance(1, 8) ? (unsigned)c.range((int)Int, (int)Kinds - 1) : (unsigned)c.draw(LastStd); l.nest = !c.chance(1, 8) && l.kind < HoldK;
        size_t const len = c.length(20, 4); for (size_t j = 0; j < len; ++j) l.text += c.pick({'a', 'b', ' ', '[', ']', '%', 's', 'n', '\n', '1', '\xc3'});
        ls.push_back(l); c.trace("%zu: kind %u%s '%s'", i, l.kind, l.nest ? " nesting" : "", l.text.c_str());
    }
    return ls;
}

std::string wanted(pbt::Ctx & c, std::vector<Link> ls, bool handling) {
    // The innermost nests whatever is being handled around.
    if (handling && (ls.back().nest || ls.back().kind == HoldK)) ls.push_back(Link{Runtime, "something else", false});
    size_t k = 0; while (isStd(ls[k].kind) && (ls[k].nest || ls[k].kind == HoldK) && k + 1 < ls.size()) ++k; ++k;
    std::string want; for (size_t i = 0; i < k; ++i) want += "[" + std::to_string(i + 1) + "/" + std::to_string(k) + "] " + (isStd(ls[i].kind) ? whatOf(ls[i]) : "<UNKNOWN NON-STANDARD EXCEPTION>") + "\n";
    if (k > 1) c.nontrivial();
    return want;
}

// Does the program go on, or stop and say why?
void one(pbt::Ctx & c, bool stops) {
    Site const & site = sites[c.draw(numSites - 1)]; int const x = (int)c.draw(8); bool const throws = site.macro != Unreachable && c.coin();
    bool const ok = site.macro == Unreachable ? false : throws ? site.macro == Throws : site.holds(x);
    if (ok == stops) return;
    std::vector<Link> ls; if (throws) ls = chain(c); c.trace("%s of `%s' with %d%s", site.macro == Assert ? "assertion" : site.macro == Throws ? "throws" : site.macro == NoThrow ? "does not throw" : "unreachable", site.text, x, throws ? ", throwing" : "");
    if (ok) {
        // In place, with whatever is handled at the time left alone.
        Env v{throws ? &ls : nullptr, x};
        if (c.coin()) site.f(v);
        else { bool after = false; try { throw 11; } catch (...) { auto const before = std::current_exception(); site.f(v); CHECK(std::current_exception() == before); after = true; } CHECK(after); }
        CHECKM(v.looks == 1, "the expression was evaluated %d times", v.looks); CHECK(!std::current_exception());
        c.nontrivial(); return;
    }
    bool const handling = c.coin();
    shared() = 0;
    Died const r = inChild([&] { Env v{throws ? &ls : nullptr, x, 0, &shared()}; if (handling) { try { throw std::runtime_error("something else"); } catch (...) { site.f(v); } } else site.f(v); });
    CHECKM(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT, "the program went on or ended otherwise (status %d): %s", r.status, r.out.c_str());
    if (site.macro != Unreachable) CHECKM(shared() == 1, "the expression was evaluated %d times", shared());
    // Where it was and what was expected:
    std::string const where = std::string(site.file) + ":" + std::to_string(site.line) + ":";
    CHECKM(r.out.compare(0, where.size(), where) == 0, "the report does not start with %s: %s", where.c_str(), r.out.c_str());
    size_t const eol = r.out.find('\n'); CHECKM(eol != r.out.npos, "%s", r.out.c_str());
    if (site.macro != Unreachable) CHECKM(r.out.substr(0, eol).find(std::string("`") + site.text + "'") != r.out.npos, "the report does not have the expression %s: %s", site.text, r.out.c_str());
    // And the exceptions, when that was why:
    std::string want; if (throws) want = wanted(c, ls, handling);
    else c.nontrivial();
    CHECKM(r.out.substr(eol + 1) == want, "after the first line, expected:\n%sbut got:\n%s", want.c_str(), r.out.substr(eol + 1).c_str());
}
PBT_PROP(stops, 3000, 40000, "a failing check, or one failing by a chain of at least two exceptions") { one(c, true); }
PBT_PROP(goesOn, 60000, 600000, "a check which holds") { one(c, false); }
// The printer alone: nothing being handled, or something.
PBT_PROP(printer, 600, 8000, "a chain of at least two exceptions") {
    bool const active = !c.chance(1, 8); std::vector<Link> ls; if (active) ls = chain(c);
    Died const r = inChild([&] { if (active) { try { raise(ls, 0); } catch (...) { SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; } } else SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; ::_exit(5); });
    CHECKM(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 5, "printing ended the program (status %d): %s", r.status, r.out.c_str());
    size_t lines = 0; for (char const ch : r.out) lines += ch == '\n'; CHECK(lines);
    if (!active) { CHECKM(r.out == "<NO EXCEPTION>\n", "%s", r.out.c_str()); return; }
    std::string const want = wanted(c, ls, false);
    CHECKM(r.out == want, "expected:\n%sbut got:\n%s", want.c_str(), r.out.c_str());
}
} // namespace
