// C20: call-stack contexts against an explicit stack per thread; exception
// chains against the list they were thrown from; exception classes.
#include <sharemind/CallStack.h>
#include <sharemind/Exception.h>
#include <sharemind/ExceptionMacros.h>
#include <sharemind/ThrowNested.h>
#include <sharemind/ThrowWithNested.h>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;

// --- call stacks ---
struct KeyBoom {};
struct Key { int k; static bool boom; Key(int v) : k(v) { if (boom) { boom = false; throw KeyBoom(); } } bool operator==(int o) const { return k == o; } bool operator==(Key const & o) const { return k == o.k; } };
bool Key::boom = false;
struct NoDefault { int v; explicit NoDefault(int v_) : v(v_) {} };
// A value looks at the stack while it is constructed and destroyed: the context is listed neither yet nor any more.
struct Value; using S1 = sm::CallStack<Key, Value>;
struct ValueBoom {};
struct Value {
    std::string s; static thread_local bool boom; static thread_local void const * expectTop; static thread_local unsigned watched;
    Value() { born(); } Value(char const * v) : s(v) { born(); } Value(std::string const & v) : s(v) { born(); } Value(std::string && v) : s(std::move(v)) { born(); }
    Value(Value const &) = delete; Value & operator=(Value const &) = delete; Value & operator=(std::string const & v) { s = v; return *this; }
    void born(); ~Value();
    bool operator==(std::string const & o) const { return s == o; }
}; // Which of key and value may throw does not matter to the other one.
struct QuietKey { int k; QuietKey(int v) noexcept : k(v) {} bool operator==(int o) const { return k == o; } }; using S4 = sm::CallStack<QuietKey, Value>; struct QuietValue { int v = 0; QuietValue() noexcept {} QuietValue(int x) noexcept : v(x) {} }; using S5 = sm::CallStack<Key, QuietValue>;
using S2 = sm::CallStack<std::string, void>; using S3 = sm::CallStack<int *, NoDefault>;
thread_local bool Value::boom = false; thread_local void const * Value::expectTop = nullptr; thread_local unsigned Value::watched = 0;
void Value::born() { CHECKM((void const *)S1::top() == expectTop || !watched, "the stack has changed before the context exists"); if (boom) { boom = false; throw ValueBoom(); } }
Value::~Value() { if (watched) CHECKM((void const *)S1::top() == expectTop, "the stack still has the context being destroyed"); }
struct Watch { explicit Watch() { Value::expectTop = S1::top(); Value::watched = 1; } ~Watch() { Value::watched = 0; } };
struct Entry1 { S1::Context * c; int k; std::string v; };
struct Model { std::vector<Entry1> a; std::vector<std::pair<S2::Context *, std::string>> b; std::vector<std::pair<S3::Context *, int>> d; };
int cells[4];
struct Unwind { unsigned levels; };
struct Run {
    pbt::Ctx & c; Model m; size_t scopes = 0, walks = 0, unwound = 0, threads = 0, failed = 0, budget; unsigned depth = 0, maxDepth = 0;
    Run(pbt::Ctx & c_, size_t budget_) : c(c_), budget(budget_) {}
    void verify() {
        ++walks; auto p = S1::top();
        for (size_t i = m.a.size(); i--; p = p->next()) { CHECKM(p == m.a[i].c, "context %zu of %zu", i, m.a.size()); CHECK_EQ(p->key().k, m.a[i].k); CHECK_EQ(static_cast<S1::Context const *>(p)->key().k, m.a[i].k); CHECK(p->value() == m.a[i].v); CHECK(static_cast<S1::Context const *>(p)->value() == m.a[i].v); }
        CHECKM(!p, "%zu contexts and one more", m.a.size());
        auto q = S2::top(); for (size_t i = m.b.size(); i--; q = q->next()) { CHECK(q == m.b[i].first); CHECK(q->key() == m.b[i].second); } CHECK(!q);
        auto r = S3::top(); for (size_t i = m.d.size(); i--; r = r->next()) { CHECK(r == m.d[i].first); CHECK_EQ(r->value().v, m.d[i].second); } CHECK(!r);
        for (int k = 0; k < 5; ++k) {
            S1::Context * e = nullptr; for (auto const & x : m.a) if (x.k == k) e = x.c; // the innermost one
            CHECKM(S1::contains(k) == e, "contains(%d)", k);
            CHECK(S1::contains(Key(k)) == e);
            std::string const s(1, (char)('a' + k)); S2::Context * f = nullptr; for (auto const & x : m.b) if (x.second == s) f = x.first;
            CHECK(S2::contains(s) == f);
            char const z[2] = {(char)('a' + k), 0}; CHECK(S2::contains(z) == f);
        }
        for (int i = 0; i < 4; ++i) { S3::Context * f = nullptr; for (auto const & x : m.d) if (x.first->key() == &cells[i]) f = x.first; CHECK(S3::contains(&cells[i]) == f); }
    }
    template <typename F> void scoped(F && f) { ++depth; maxDepth = std::max(maxDepth, depth); ++scopes; struct Restore { Run & r; size_t a, b, d; ~Restore() { r.m.a.resize(a); r.m.b.resize(b); r.m.d.resize(d); --r.depth; } } restore{*this, m.a.size(), m.b.size(), m.d.size()}; f(); }
    void body() {
        verify();
        while (budget && c.more(0, 4, 1)) {
            --budget;
            unsigned const op = c.weighted({4, 4, 2, 2, 2, 2, 1, 1, 1});
            switch (op) {
            case 0: case 1: case 2: case 6:
                if (depth > 40) break;
                try {
                    scoped([&] {
                        if (op == 0) { int const k = (int)c.draw(4); S1::Context x(k); m.a.push_back({&x, k, ""}); body(); }
                        else if (op == 1) { int const k = (int)c.draw(4); std::string v(c.draw(30), 'v'); S1::Context x(Key(k), v); m.a.push_back({&x, k, v}); body(); }
                        else if (op == 2) { std::string const k(1, (char)('a' + c.draw(4))); S2::Context x(k); m.b.push_back({&x, k}); body(); }
                        else { int const i = (int)c.draw(3), v = (int)c.draw(99); S3::Context x(&cells[i], NoDefault(v)); m.d.push_back({&x, v}); body(); }
                    });
                } catch (Unwind & u) { ++unwound; verify(); if (u.levels) { --u.levels; throw; } }
                verify(); break;
            case 3: if (!m.a.empty()) { // the value of a live context can be changed
                size_t const i = c.draw(m.a.size() - 1); std::string v(c.draw(5), 'w'); m.a[i].c->value() = v; m.a[i].v = v; verify(); }
                break;
            case 4: if (depth) { unsigned const l = (unsigned)c.draw(3); throw Unwind{std::min(l, depth - 1)}; } break;
            case 5: { // a context which cannot be constructed is not listed
                bool threw = false; unsigned const how = (unsigned)c.draw(9); Watch const w;
                try {
                    if (how == 0) { Key::boom = true; S1::Context x((int)c.draw(4), "x"); }
                    else if (how == 1) { Value::boom = true; S1::Context x((int)c.draw(4), "x"); }
                    else if (how == 2) { Value::boom = true; S1::Context x((int)c.draw(4)); }
                    else if (how == 3) { Value::boom = true; std::string v("value"); S1::Context x(Key((int)c.draw(4)), v); }
                    else if (how == 4) { Value::boom = true; std::unique_ptr<S1::Context> x(new S1::Context((int)c.draw(4), std::string("y"))); }
                    else if (how == 6) { Value::boom = true; S4::Context x((int)c.draw(4)); }
                    else if (how == 7) { Value::boom = true; S4::Context x((int)c.draw(4), "x"); }
                    else if (how == 8) { Key::boom = true; S5::Context x((int)c.draw(4)); }
                    else if (how == 9) { Key::boom = true; S5::Context x((int)c.draw(4), 3); }
                    else { { S1::Context x((int)c.draw(4), "x"); CHECK(S1::top() == &x); } throw ValueBoom(); }
                } catch (KeyBoom &) { threw = true; } catch (ValueBoom &) { threw = true; }
                CHECK(threw); CHECK(!S4::top() && !S5::top()); ++failed; verify(); break; }
            case 7: { // another thread has its own contexts
                ++threads; Run other(c, std::min<size_t>(budget, 8)); budget -= other.budget; std::string err;
                std::thread([&] { CHECK(!S1::top() && !S2::top() && !S3::top()); other.body(); CHECK(!S1::top() && !S2::top() && !S3::top()); }).join();
                scopes += other.scopes; unwound += other.unwound; verify(); break; }
            default: { // two scopes on the heap, left in order
                std::unique_ptr<S1::Context> x(new S1::Context(1)), y(new S1::Context(2, "y")); m.a.push_back({x.get(), 1, ""}); m.a.push_back({y.get(), 2, "y"}); verify(); y.reset(); m.a.pop_back(); verify(); x.reset(); m.a.pop_back(); verify(); }
            }
        }
    }
};

// --- exception chains ---
SHAREMIND_DECLARE_EXCEPTION_NOINLINE(std::exception, Plain);
SHAREMIND_DEFINE_EXCEPTION_NOINLINE(std::exception, , Plain);
SHAREMIND_DECLARE_EXCEPTION_CONST_MSG_NOINLINE(Plain, Fixed);
SHAREMIND_DEFINE_EXCEPTION_CONST_MSG_NOINLINE(Plain, , Fixed, "a fixed message");
SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(Plain, Text);
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(Plain, , Text);
struct Holder { SHAREMIND_DETAIL_DEFINE_EXCEPTION(sm::Exception, In); SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(In, InFixed, "inner fixed"); SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(In, InText); SHAREMIND_DECLARE_EXCEPTION_CONST_STDSTRING_NOINLINE(In, OutText); };
SHAREMIND_DEFINE_EXCEPTION_CONST_STDSTRING_NOINLINE(Holder::In, Holder::, OutText);
struct Num : std::exception { int n; std::string s; explicit Num(int n_) : n(n_), s("number " + std::to_string(n_)) {} char const * what() const noexcept override { return s.c_str(); } };

enum Kind { KText, KFixed, KNum, KErrno, NKINDS };
struct Item { Kind kind; int n; std::string text() const { return "text " + std::to_string(n); } };
template <Kind> struct Make;
template <> struct Make<KText> { using T = Text; static T make(Item const & i) { return T(i.text()); } static bool is(std::exception const & e, Item const & i) { return dynamic_cast<T const *>(&e) && e.what() == i.text(); } };
template <> struct Make<KFixed> { using T = Fixed; static T make(Item const &) { return T(); } static bool is(std::exception const & e, Item const &) { return dynamic_cast<T const *>(&e) && e.what() == std::string("a fixed message"); } };
template <> struct Make<KNum> { using T = Num; static T make(Item const & i) { return T(i.n); } static bool is(std::exception const & e, Item const & i) { auto const p = dynamic_cast<T const *>(&e); return p && p->n == i.n && e.what() == "number " + std::to_string(i.n); } };
template <> struct Make<KErrno> { using T = sm::ErrnoException; static T make(Item const & i) { return T(i.n % 130 + 1); } static bool is(std::exception const & e, Item const & i) { auto const p = dynamic_cast<T const *>(&e); return p && p->errorNumber() == i.n % 130 + 1 && std::string(e.what()) == strerror(i.n % 130 + 1); } };
bool matches(std::exception const & e, Item const & i) { switch (i.kind) { case KText: return Make<KText>::is(e, i); case KFixed: return Make<KFixed>::is(e, i); case KNum: return Make<KNum>::is(e, i); default: return Make<KErrno>::is(e, i); } }
// Calls f with the exceptions of the list as arguments; each argument is an lvalue, a const lvalue or an rvalue.
template <typename F, typename ... As> [[noreturn]] void call(std::vector<Item> const &, size_t, unsigned, std::integral_constant<unsigned, 0>, F const & f, As && ... as) { f(std::forward<As>(as)...); abort(); }
template <unsigned N, typename F, typename ... As> [[noreturn]] void call(std::vector<Item> const & l, size_t at, unsigned mode, std::integral_constant<unsigned, N>, F const & f, As && ... as);
template <Kind K, unsigned N, typename F, typename ... As> [[noreturn]] void add(std::vector<Item> const & l, size_t at, unsigned mode, F const & f, As && ... as) {
    auto e = Make<K>::make(l[at]);
    using Next = std::integral_constant<unsigned, N - 1>;
    if (mode == 0 || (mode == 2 && at % 2)) call(l, at + 1, mode, Next(), f, std::forward<As>(as)..., std::move(e));
    auto const & ce = e; call(l, at + 1, mode, Next(), f, std::forward<As>(as)..., ce);
}
template <unsigned N, typename F, typename ... As> [[noreturn]] void call(std::vector<Item> const & l, size_t at, unsigned mode, std::integral_constant<unsigned, N>, F const & f, As && ... as) {
    if (at == l.size()) { f(std::forward<As>(as)...); abort(); }
    switch (l[at].kind) { case KText: add<KText, N>(l, at, mode, f, std::forward<As>(as)...); case KFixed: add<KFixed, N>(l, at, mode, f, std::forward<As>(as)...); case KNum: add<KNum, N>(l, at, mode, f, std::forward<As>(as)...); default: add<KErrno, N>(l, at, mode, f, std::forward<As>(as)...); }
}
struct Nested { template <typename ... As> [[noreturn]] void operator()(As && ... as) const { sm::throwNested(std::forward<As>(as)...); } [[noreturn]] void operator()() const { abort(); } };
struct With { template <typename ... As> [[noreturn]] void operator()(As && ... as) const { sm::throwWithNested(std::forward<As>(as)...); } };
std::vector<Item> items(pbt::Ctx & c, size_t n) { std::vector<Item> l(n); for (auto & i : l) i = {(Kind)c.draw(NKINDS - 1), (int)c.draw(999)}; return l; }
// The chain of the exception, outermost first, must be the list from the back.
void chain(std::exception const & e, std::vector<Item> const & l, size_t left) {
    CHECKM(left > 0, "the chain is longer than the %zu exceptions given", l.size());
    CHECKM(matches(e, l[left - 1]), "exception %zu of %zu is of type %s with message '%s'", left - 1, l.size(), typeid(e).name(), e.what());
    bool nested = false;
    try { std::rethrow_if_nested(e); } catch (std::exception const & in) { nested = true; chain(in, l, left - 1); }
    CHECKM(nested == (left > 1), "the chain has %zu of %zu exceptions", l.size() - left + 1, l.size());
}
} // namespace

PBT_PROP(contexts, 1500, 60000, "at least six scopes in at most 60 operations, with three nested or one left by an exception") { Run r(c, 60); try { r.body(); } catch (Unwind &) { pbt::fail("unwound too far"); } CHECK(!S1::top() && !S2::top() && !S3::top()); if (r.scopes >= 6 && (r.maxDepth >= 3 || r.unwound)) c.nontrivial(); if (r.unwound) c.label("left by an exception"); if (r.threads) c.label("several threads"); if (r.failed) c.label("a context could not be constructed"); }

// Long stacks: the recursion of a real program is not bounded by forty levels.
struct Deep {
    std::vector<std::pair<S1::Context *, int>> live; size_t depth, leave; int odd;
    void look() { for (int k : {7, odd, 9}) { S1::Context * e = nullptr; for (auto const & x : live) if (x.second == k) e = x.first; CHECKM(S1::contains(k) == e, "contains(%d) %zu levels deep", k, live.size()); } }
    void go(size_t at) {
        if (at == depth) { size_t n = live.size(); for (auto p = S1::top(); p; p = p->next()) { CHECK(n > 0); --n; CHECKM(p == live[n].first, "context %zu of %zu", n, live.size()); CHECK_EQ(p->key().k, live[n].second); } CHECK_EQ(n, 0u); look(); if (leave) throw Unwind{0}; return; }
        int const k = at == 0 ? odd : 7; { S1::Context x(k); live.emplace_back(&x, k); struct Pop { Deep & d; ~Pop() { d.live.pop_back(); } }; { Pop pop{*this}; if (at % 37 == 0) look(); go(at + 1); CHECK(S1::top() == &x); } } look();
    }
};
PBT_PROP(deepContexts, 60, 1500, "at least 100 contexts at once") {
    if (c.coin()) { // without values
        std::vector<std::unique_ptr<S2::Context>> live; std::vector<std::string> keys; size_t const n = 1 + c.draw(600), odd = c.draw(n - 1); c.trace("%zu levels without values, the odd one at %zu", n, odd); if (n >= 100) c.nontrivial();
        for (size_t i = 0; i < n; ++i) { keys.push_back(i == odd ? "odd" : i % 2 ? "same" : std::string(30, 's')); live.emplace_back(new S2::Context(keys.back())); }
        for (;;) {
            size_t k = live.size(); for (auto p = S2::top(); p; p = p->next()) { CHECK(k > 0); --k; CHECKM(p == live[k].get(), "context %zu of %zu", k, live.size()); CHECK(p->key() == keys[k]); } CHECK_EQ(k, 0u);
            CHECK(S2::contains("odd") == (live.size() > odd ? live[odd].get() : nullptr)); CHECK(S2::contains("none") == nullptr); { S2::Context * e = nullptr; for (size_t i = 0; i < live.size(); ++i) if (keys[i] == "same") e = live[i].get(); CHECK(S2::contains(std::string("same")) == e); }
            if (live.empty()) return;
            for (size_t g = 1 + c.draw(n / 3 + 1); g && !live.empty(); --g) { live.pop_back(); keys.pop_back(); }
        }
    }
    Deep d; d.depth = 1 + c.draw(600); d.leave = c.coin(); d.odd = (int)c.draw(20) + 10; c.trace("%zu levels", d.depth); bool left = false; try { d.go(0); } catch (Unwind &) { left = true; } CHECK(left == !!d.leave); CHECK(!S1::top()); if (d.depth >= 100) c.nontrivial();
}

// Two threads entering and leaving scopes alternately, switching at generated points.
PBT_PROP(interleaved, 300, 5000, "both threads have contexts at the same time") {
    struct Sync { std::mutex m; std::condition_variable cv; int turn = 0; bool done[2] = {}; } s; std::vector<unsigned> ops; size_t n = 0; while (c.more(n, 12, 40)) { ++n; ops.push_back((unsigned)c.draw(5)); } // op % 2: thread; op / 2: enter, leave, look
    size_t size[2] = {}; bool both = false; size_t pos = 0;
    auto work = [&](int me) {
        std::vector<std::unique_ptr<S1::Context>> mine; std::unique_lock<std::mutex> lock(s.m);
        for (;;) {
            s.cv.wait(lock, [&] { return pos >= ops.size() || (int)(ops[pos] % 2) == me; });
            if (pos >= ops.size()) break;
            switch (ops[pos] / 2) { case 0: mine.emplace_back(new S1::Context((int)pos, std::to_string(me))); break; case 1: if (!mine.empty()) mine.pop_back(); break; default:; }
            auto p = S1::top(); for (size_t i = mine.size(); i--; p = p->next()) { CHECK(p == mine[i].get()); CHECK(p->value() == std::to_string(me)); } CHECK(!p);
            size[me] = mine.size(); both = both || (size[0] && size[1]); ++pos; s.cv.notify_all();
        }
        while (!mine.empty()) mine.pop_back();
        CHECK(!S1::top());
    };
    std::thread a(work, 0), b(work, 1); a.join(); b.join(); CHECK(!S1::top()); c.nontrivial(both);
}

PBT_PROP(nesting, 4000, 100000, "a chain of at least two exceptions") {
    auto l = items(c, 1 + c.draw(2)); unsigned const mode = (unsigned)c.draw(2); using Max = std::integral_constant<unsigned, 3>;
    if (c.coin()) { // a list of its own
        try { call(l, 0, mode, Max(), Nested()); } catch (std::exception const & e) { chain(e, l, l.size()); }
    } else { // on top of the exception being handled
        auto outer = items(c, 1 + c.draw(2)); std::vector<Item> all = outer; size_t const k = c.draw(l.size()); l.resize(k); all.insert(all.end(), l.begin(), l.end()); c.label(k ? "added to the handled exception" : "rethrown");
        std::exception const * before = nullptr;
        try { try { call(outer, 0, mode, Max(), Nested()); } catch (std::exception const & e) { before = &e; call(l, 0, mode, Max(), With()); } }
        catch (std::exception const & e) { chain(e, all, all.size()); if (!k) CHECKM(before == &e, "rethrowing copies the exception"); }
        l = all;
    }
    if (l.size() >= 2) c.nontrivial();
}

// What is thrown is a copy of an lvalue, which keeps its value, and made of an rvalue, which may not be copyable.
struct Marked : std::exception { int n; bool gone = false; explicit Marked(int n_) : n(n_) {} Marked(Marked const & o) : n(o.n), gone(o.gone) {} Marked(Marked && o) noexcept : n(o.n), gone(o.gone) { o.gone = true; } };
template <int> struct Tagged : Marked { using Marked::Marked; };
struct OnlyMoved : std::exception { int n; explicit OnlyMoved(int n_) : n(n_) {} OnlyMoved(OnlyMoved && o) noexcept : n(o.n) { o.n = -1; } OnlyMoved & operator=(OnlyMoved &&) = delete; };
template <typename E> void link(std::exception const & e, int n, int & left) { auto const p = dynamic_cast<E const *>(&e); CHECKM(p, "exception is of type %s", typeid(e).name()); CHECK_EQ(p->n, n); --left; }
PBT_PROP(arguments, 300, 8000, "a chain of at least two exceptions") {
    int const n[3] = {(int)c.draw(999), (int)c.draw(999), (int)c.draw(999)}; Tagged<0> a(n[0]); Tagged<1> b(n[1]); Tagged<2> const d(n[2]); int const how = (int)c.draw(7); c.trace("way %d", how); bool caught = false; int left = 0;
    auto in = [&](std::exception const & e) -> std::exception_ptr { auto const p = dynamic_cast<std::nested_exception const *>(&e); return p ? p->nested_ptr() : nullptr; };
    auto keep = [&] { CHECK(!a.gone && !b.gone && !d.gone); CHECK(a.n == n[0] && b.n == n[1] && d.n == n[2]); };
    try {
        switch (how) {
        case 0: sm::throwNested(a); case 1: sm::throwNested(a, b); case 2: sm::throwNested(a, b, d); case 3: sm::throwWithNested(a); case 4: sm::throwWithNested(a, b); case 5: sm::throwWithNested(a, b, d);
        case 6: sm::throwNested(OnlyMoved(n[0])); default: sm::throwNested(OnlyMoved(n[0]), b, d);
        }
    } catch (std::exception const & e) {
        caught = true; keep(); std::exception_ptr p;
        switch (how) {
        case 0: case 3: left = 1; link<Tagged<0>>(e, n[0], left); break;
        case 1: case 4: left = 2; link<Tagged<1>>(e, n[1], left); break;
        case 6: left = 1; link<OnlyMoved>(e, n[0], left); break;
        default: left = 3; link<Tagged<2>>(e, n[2], left);
        }
        for (p = in(e); p; ) { try { std::rethrow_exception(p); } catch (std::exception const & x) { if (left == 2) link<Tagged<1>>(x, n[1], left); else if (how == 7) link<OnlyMoved>(x, n[0], left); else link<Tagged<0>>(x, n[0], left); p = in(x); } }
    }
    CHECK(caught); CHECK_EQ(left, 0); keep(); c.nontrivial(how != 0 && how != 3 && how != 6);
}

template <typename E> void keeps(pbt::Ctx & c, std::string const & text, E e, std::string const & otherText, E other) {
    (void)c; CHECK(e.what() == text); E copy(e); E moved(std::move(copy)); CHECK(moved.what() == text); CHECK(e.what() == text);
    bool caught = false; try { throw e; } catch (E const & x) { caught = true; CHECK(x.what() == text); auto p = std::current_exception(); e = other; CHECK(e.what() == otherText); CHECK(x.what() == text); try { std::rethrow_exception(p); } catch (std::exception const & y) { CHECK(y.what() == text); } } CHECK(caught);
    E & r = (moved = moved); CHECK(&r == &moved); CHECK(moved.what() == text); E const & cr = other; moved = cr; CHECK(moved.what() == otherText); CHECK(other.what() == otherText);
    static_assert(std::is_nothrow_copy_constructible<E>::value && std::is_nothrow_copy_assignable<E>::value && std::is_nothrow_destructible<E>::value, "exceptions can be copied while being thrown");
}
PBT_PROP(classes, 1500, 40000, "the messages of the two exceptions differ") {
    auto str = [&c] { std::string s; size_t const n = c.length(40, 8); for (size_t i = 0; i < n; ++i) s += (char)c.range(1, 127); return s; };
    std::string const a = str(), b = str(); if (a != b) c.nontrivial();
    switch (c.draw(5)) {
    case 0: keeps(c, a, Text(a), b, Text(b)); break;
    case 1: { auto p = std::make_shared<std::string const>(a); { Text t(p); keeps(c, a, t, b, Text(std::make_shared<std::string const>(b))); } CHECK_EQ(p.use_count(), 1); break; }
    case 2: keeps(c, a, Holder::InText(a), b, Holder::InText(b)); break;
    case 3: keeps(c, a, Holder::OutText(a), b, Holder::OutText(b)); break;
    case 4: keeps(c, "a fixed message", Fixed(), "a fixed message", Fixed()); keeps(c, "inner fixed", Holder::InFixed(), "inner fixed", Holder::InFixed()); static_assert(std::is_base_of<Plain, Fixed>::value && std::is_base_of<sm::Exception, Holder::InText>::value && std::is_base_of<std::exception, sm::Exception>::value, ""); break;
    default: {
        int const x = c.coin() ? (int)c.draw(140) : (int)c.bits(32), y = c.coin() ? (int)c.draw(140) : (int)c.bits(32); char p[1024], q[1024];
        std::string const sx = strerror_r(x, p, sizeof p), sy = strerror_r(y, q, sizeof q); sm::ErrnoException e(x), f(y); CHECK_EQ(e.errorNumber(), x); CHECK_EQ(f.errorNumber(), y);
        keeps(c, sx, e, sy, f); sm::ErrnoException g(e); CHECK_EQ(g.errorNumber(), x); g = f; CHECK_EQ(g.errorNumber(), y); CHECK(g.what() == sy); g = sm::ErrnoException(x); CHECK_EQ(g.errorNumber(), x); CHECK(g.what() == sx); } }
}
