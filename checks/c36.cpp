// C36: the verbose exception printer against the generated chain it is given;
// the verbose handlers in forked children; the handler scopes against a stack
// of what was installed before each.
#include <sharemind/DebugVerboseHandlers.h>
#include <csignal>
#include <cstring>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;

struct Derived : std::runtime_error { using std::runtime_error::runtime_error; };
struct Virt : virtual std::exception { std::string m; explicit Virt(std::string s) : m(std::move(s)) {} char const * what() const noexcept override { return m.c_str(); } };
struct Pad { long pad[3] = {1, 2, 3}; virtual ~Pad() {} };
struct Second : Pad, std::exception { std::string m; explicit Second(std::string s) : m(std::move(s)) {} char const * what() const noexcept override { return m.c_str(); } };
// holders: nested exceptions by their own declaration
struct HoldFirst : std::nested_exception, std::logic_error { explicit HoldFirst(std::string const & s) : std::logic_error(s) {} };
struct HoldLast : Virt, virtual std::nested_exception { explicit HoldLast(std::string const & s) : Virt(s) {} };
// these do not say they are exceptions
struct Odd { int x; };
struct OddHolder : std::nested_exception { int x = 0; };
struct Hidden : private std::runtime_error { explicit Hidden(std::string const & s) : std::runtime_error(s) {} };
struct Twice1 : std::runtime_error { using std::runtime_error::runtime_error; }; struct Twice2 : std::runtime_error { using std::runtime_error::runtime_error; };
struct Ambiguous : Twice1, Twice2 { explicit Ambiguous(std::string const & s) : Twice1(s), Twice2(s) {} };

enum Kind { Runtime, DerivedK, VirtK, SecondK, BadAlloc, HoldFirstK, HoldLastK, LastStd = HoldLastK, Int, OddK, OddHolderK, HiddenK, AmbiguousK, Pointer, Kinds };
struct Link { unsigned kind; std::string text; bool nest; };
// one plain throw; holders take whatever is being handled as their cause
[[noreturn]] void plain(Link const & l) {
    switch (l.kind) {
    case Runtime: throw std::runtime_error(l.text); case DerivedK: throw Derived(l.text); case VirtK: throw Virt(l.text); case SecondK: throw Second(l.text); case BadAlloc: throw std::bad_alloc();
    case HoldFirstK: throw HoldFirst(l.text); case HoldLastK: throw HoldLast(l.text); case Int: throw 5; case OddK: throw Odd{1}; case OddHolderK: throw OddHolder(); case HiddenK: throw Hidden(l.text); case AmbiguousK: throw Ambiguous(l.text); default: throw "text"; }
}
[[noreturn]] void nesting(Link const & l) {
    switch (l.kind) {
    case Runtime: std::throw_with_nested(std::runtime_error(l.text)); case DerivedK: std::throw_with_nested(Derived(l.text)); case VirtK: std::throw_with_nested(Virt(l.text)); case SecondK: std::throw_with_nested(Second(l.text)); case BadAlloc: std::throw_with_nested(std::bad_alloc());
    case OddK: std::throw_with_nested(Odd{1}); case HiddenK: std::throw_with_nested(Hidden(l.text)); case AmbiguousK: std::throw_with_nested(Ambiguous(l.text)); default: plain(l); }
}
[[noreturn]] void raise(std::vector<Link> const & ls, size_t i) {
    if (i + 1 < ls.size()) { try { raise(ls, i + 1); } catch (...) { if (ls[i].nest) nesting(ls[i]); plain(ls[i]); } }
    if (ls[i].nest) nesting(ls[i]); // nothing to nest
    plain(ls[i]);
}
bool isStd(unsigned k) { return k <= LastStd; }
bool links(Link const & l) { return l.nest || l.kind == HoldFirstK || l.kind == HoldLastK; }
template <typename T> std::string ty(bool nested) { if (!nested) return typeid(T).name(); try { std::throw_with_nested(T("x")); } catch (T const & e) { return typeid(e).name(); } }
std::string typeName(Link const & l) {
    switch (l.kind) {
    case Runtime: return ty<std::runtime_error>(l.nest); case DerivedK: return ty<Derived>(l.nest); case VirtK: return ty<Virt>(l.nest); case SecondK: return ty<Second>(l.nest);
    case BadAlloc: { if (!l.nest) return typeid(std::bad_alloc).name(); try { std::throw_with_nested(std::bad_alloc()); } catch (std::exception const & e) { return typeid(e).name(); } }
    case HoldFirstK: return typeid(HoldFirst).name(); case HoldLastK: return typeid(HoldLast).name(); case Int: return typeid(int).name(); case OddK: if (l.nest) { try { std::throw_with_nested(Odd{1}); } catch (std::nested_exception const & e) { return typeid(e).name(); } } return typeid(Odd).name();
    case OddHolderK: return typeid(OddHolder).name(); case HiddenK: if (l.nest) { try { std::throw_with_nested(Hidden("x")); } catch (std::nested_exception const & e) { return typeid(e).name(); } } return typeid(Hidden).name();
    case AmbiguousK: if (l.nest) { try { std::throw_with_nested(Ambiguous("x")); } catch (std::nested_exception const & e) { return typeid(e).name(); } } return typeid(Ambiguous).name();
    default: return typeid(char const *).name(); }
}
std::string whatOf(Link const & l) { return l.kind == BadAlloc ? std::string(std::bad_alloc().what()) : l.text; }
std::vector<Link> chain(pbt::Ctx & c, size_t max) {
    std::vector<Link> ls; size_t const n = 1 + (c.chance(1, 80) ? c.draw(60) : c.length(max - 1, 3)) + (max > 10 && c.chance(1, 4000) ? 500 + c.draw(1000) : 0), wide = c.chance(1, 60) ? 1 + c.draw(3000) : 0;
    for (size_t i = 0; i < n; ++i) {
        Link l; l.kind = c.chance(1, 8) ? (unsigned)c.range((int)Int, (int)Kinds - 1) : (unsigned)c.draw(LastStd); l.nest = !c.chance(1, 8) && l.kind != HoldFirstK && l.kind != HoldLastK && l.kind != Int && l.kind != Pointer && l.kind != OddHolderK;
        size_t const k = wide && c.chance(1, 4) ? wide : c.length(20, 4); for (size_t j = 0; j < k; ++j) l.text += c.pick({'a', 'b', ' ', ':', '%', '\n', '0', '\xc3'});
        ls.push_back(l); c.trace("%zu: kind %u%s '%s'", i, l.kind, l.nest ? " nesting" : "", l.text.c_str());
    }
    return ls;
}
// the exceptions from the outermost one inwards; true where an exception is not a standard one (it cannot be looked into)
struct Expected { struct Line { std::string type, what; bool std; }; std::vector<Line> lines; };
Expected expected(std::vector<Link> const & ls) {
    Expected e;
    for (Link const & l : ls) { e.lines.push_back({typeName(l), whatOf(l), isStd(l.kind)}); if (!isStd(l.kind) || !links(l)) break; }
    return e;
}
void verify(std::string const & out, Expected const & e) {
    size_t pos = 0;
    for (size_t i = 0; i < e.lines.size(); ++i) {
        std::string const head = std::to_string(i + 1) + ": [" + e.lines[i].type + "]", want = head + (e.lines[i].std ? " " + e.lines[i].what : std::string()) + "\n";
        CHECKM(out.compare(pos, want.size(), want) == 0, "line %zu is not '%s' in:\n%s", i + 1, want.c_str(), out.c_str()); pos += want.size();
    }
    // after something that is no standard exception the printer says it cannot go on
    if (e.lines.back().std) CHECKM(pos == out.size(), "more than the chain: %s", out.c_str() + pos);
    else { CHECKM(pos < out.size(), "nothing says the chain may go on"); CHECKM(out.find(": [", pos) == out.npos, "an exception that cannot be known: %s", out.c_str() + pos); }
}
std::exception_ptr make(std::vector<Link> const & ls) { try { raise(ls, 0); } catch (...) { return std::current_exception(); } }

PBT_PROP(print, 30000, 300000, "a chain of at least two exceptions") {
    auto const ls = chain(c, 12); Expected const e = expected(ls); std::exception_ptr p = make(ls);
    std::ostringstream o; sm::verbosePrintException(p, o); verify(o.str(), e);
    CHECK(!std::current_exception());
    if (c.coin()) { std::ostringstream o2; sm::verbosePrintException(std::move(p), o2); CHECK(o2.str() == o.str()); }
    else if (c.coin()) { try { std::rethrow_exception(p); } catch (...) { std::ostringstream o2; sm::verbosePrintException(std::current_exception(), o2); CHECK(o2.str() == o.str()); CHECK(std::current_exception() == p); } }
    else { struct Restore { std::streambuf * b; ~Restore() { std::cerr.rdbuf(b); } }; std::ostringstream o2; { Restore r{std::cerr.rdbuf(o2.rdbuf())}; sm::verbosePrintException(p); } CHECK(o2.str() == o.str()); }
    if (e.lines.size() > 1) c.nontrivial();
}

// --- in a child process ---
struct Died { int status; std::string out; };
template <typename F> Died inChild(F && f) {
    int fd[2]; if (::pipe(fd)) pbt::fail("pipe");
    std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
    pid_t const pid = ::fork(); if (pid < 0) { ::close(fd[0]); ::close(fd[1]); pbt::fail("fork"); }
    if (!pid) { ::dup2(fd[1], 2); ::close(fd[0]); ::close(fd[1]); ::signal(SIGABRT, SIG_DFL); ::alarm(20); f(); ::_exit(77); }
    ::close(fd[1]); Died d; char b[4096]; ssize_t n; while ((n = ::read(fd[0], b, sizeof b)) > 0) d.out.append(b, (size_t)n); ::close(fd[0]);
    while (::waitpid(pid, &d.status, 0) < 0) {}
    return d;
}
void leave(std::vector<Link> const * ls) noexcept { if (ls) raise(*ls, 0); std::terminate(); }
PBT_PROP(handlers, 60, 1500, "an active chain of at least two exceptions") {
    bool const active = !c.chance(1, 5), unexpectedly = c.coin(), scoped = c.coin(), nestedScope = scoped && c.coin();
    std::vector<Link> ls; if (active) ls = chain(c, 6); c.trace("%s by %s, %s", active ? "with exception" : "without", unexpectedly ? "unexpected" : "terminate", scoped ? "scoped" : "enabled for good");
    Died const d = inChild([&] {
        std::unique_ptr<sm::ScopedDebugVerboseHandlers> s; if (scoped) s.reset(new sm::ScopedDebugVerboseHandlers); else sm::enableDebugVerboseHandlers();
        if (nestedScope) sm::ScopedDebugVerboseHandlers inner; // must leave the outer one's handlers
        if (!unexpectedly) leave(active ? &ls : nullptr);
        if (active) try { raise(ls, 0); } catch (...) { std::unexpected(); }
        std::unexpected();
    });
    CHECKM(WIFSIGNALED(d.status) && WTERMSIG(d.status) == SIGABRT, "status %x, output:\n%s", d.status, d.out.c_str());
    char const * const name = unexpectedly ? "std::unexpected()" : "std::terminate()";
    CHECKM(d.out.compare(0, std::strlen(name), name) == 0, "begins otherwise: %s", d.out.c_str());
    size_t const nl = d.out.find('\n'); CHECKM(nl != d.out.npos, "no line: %s", d.out.c_str());
    if (!active) { CHECKM(nl + 1 == d.out.size() && d.out.find("without") < nl, "says: %s", d.out.c_str()); return; }
    CHECKM(d.out.find("without") > nl, "says: %s", d.out.c_str());
    Expected const e = expected(ls); verify(d.out.substr(nl + 1), e); if (e.lines.size() > 1) c.nontrivial();
}

// --- scopes ---
void t0() { std::abort(); } void t1() { std::_Exit(3); } void t2() { std::_Exit(4); }
struct Scopes {
    pbt::Ctx & c; unsigned budget = 30, depth = 0, made = 0, thrown = 0;
    std::terminate_handler term; std::unexpected_handler unex;
    void verify(char const * when) { CHECKM(std::get_terminate() == term, "terminate handler %s", when); CHECKM(std::get_unexpected() == unex, "unexpected handler %s", when); }
    void body() {
        verify("on entry");
        while (budget && c.more(0, 3, 1)) {
            --budget;
            switch (c.weighted({4, 2, 2, 1, 1})) {
            case 0: if (depth < 12) {
                auto const t = term; auto const u = unex; ++depth; ++made; c.trace("scope {");
                try { sm::ScopedDebugVerboseHandlers s; term = std::get_terminate(); unex = std::get_unexpected(); CHECKM(term == &sm::verboseTerminateHandler, "terminate handler not installed"); CHECKM(unex == &sm::verboseUnexpectedHandler, "unexpected handler not installed"); body(); if (c.chance(1, 5)) { ++thrown; throw 5; } } catch (int) { c.trace("left by exception"); }
                --depth; term = t; unex = u; c.trace("}"); verify("after a scope"); } break;
            case 1: { auto const f = c.pick({&t0, &t1, &t2}); std::set_terminate(f); term = f; break; }
            case 2: { auto const f = c.pick({&t0, &t1, &t2}); std::set_unexpected(f); unex = f; break; }
            case 3: sm::enableDebugVerboseHandlers(); term = &sm::verboseTerminateHandler; unex = &sm::verboseUnexpectedHandler; break;
            default: if (c.coin()) { std::set_terminate(nullptr); term = std::get_terminate(); } verify("between"); }
        }
        verify("on exit");
    }
};
PBT_PROP(scopes, 20000, 200000, "at least two scopes") {
    struct Restore { std::terminate_handler t = std::get_terminate(); std::unexpected_handler u = std::get_unexpected(); ~Restore() { std::set_terminate(t); std::set_unexpected(u); } } restore;
    Scopes s{c, 30, 0, 0, 0, restore.t, restore.u}; s.body(); if (s.made >= 2) c.nontrivial(); if (s.thrown) c.label("left by exception");
}
} // namespace
