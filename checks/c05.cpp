// C05: promises, futures, packaged tasks and continuations against a model of
// channels with one outcome each.
#include <sharemind/Future.h>
#include <string>
#include <vector>
#include "pbt.h"

namespace {
using namespace sharemind;
using pbt::Tracked;

using Boom = Tracked::Boom;
struct Exc { int id; std::shared_ptr<int> own; explicit Exc(int i) : id(i), own(std::make_shared<int>(i)) {} };
struct ThrowArg {};
// A value whose copies and moves throw if it is armed.
struct Val : Tracked {
    bool armed = false;
    explicit Val(int v) : Tracked(v) {}
    Val(int v, ThrowArg) : Tracked(v) { throw Boom{}; }
    Val(Val const & o) : Tracked((o.arm(), o)) {}
    Val(Val && o) : Tracked(static_cast<Tracked &&>((o.arm(), o))) {}
    void arm() const { ok(); if (armed) throw Boom{}; }
};
using Ptr = std::unique_ptr<Val>; // move-only

enum St { Pending, Value, Exception, Broken, Boomed };
struct Outcome { St st = Pending; int v = 0; };
bool operator==(Outcome const & a, Outcome const & b) { return a.st == b.st && (a.st == Broken || a.st == Boomed || a.st == Pending || a.v == b.v); }
char const * const stName[] = {"pending", "value", "exception", "broken", "boom"};

template <typename T> struct Tr;
template <> struct Tr<Val> { enum { code = 0 }; static Val mk(int v) { return Val(v); } static int of(Val const & x) { x.ok(); return x.v; } };
template <> struct Tr<Ptr> { enum { code = 1 }; static Ptr mk(int v) { return Ptr(new Val(v)); } static int of(Ptr const & x) { CHECK(x != nullptr); x->ok(); return x->v; } };
template <> struct Tr<void> { enum { code = 2 }; };

enum Kind { RetVal, Echo, Throw, RetArmed, FReady, FExc, FBroken, FInvalid, FEcho, NKINDS };
char const * const kindName[] = {"returns a value", "echoes its input", "throws", "returns a value that cannot be moved", "returns a ready future", "returns an exceptional future", "returns a broken future", "returns an invalid future", "returns its input future"};
struct Chan { int type; Outcome o; int cont = -1; };
struct Cont { int kind, arg, source, target; bool takes; };

template <typename T> void fulfilTake(Future<T> & f, Outcome & o) { o.v = Tr<T>::of(f.takeValue()); }
template <> void fulfilTake(Future<void> & f, Outcome & o) { f.takeValue(); o.v = 0; }
template <typename T> Outcome take(Future<T> & f) {
    Outcome o;
    try { fulfilTake(f, o); o.st = Value; }
    catch (Exc const & e) { CHECK_EQ(*e.own, e.id); o.st = Exception; o.v = e.id; }
    catch (BrokenPromiseException const & e) { CHECK(std::string(e.what()) == "Promise broken!"); o.st = Broken; }
    catch (Boom const &) { o.st = Boomed; }
    CHECK(!f.isValid());
    return o;
}
template <typename T> struct PS { Promise<T> p; int ch; bool valid, hasFut; };
template <typename T> struct FS { Future<T> f; int ch; }; // ch -1: invalid

struct Tester;
template <typename From, typename To> struct Fn { Tester * t; int cont; Tracked cap; To operator()(Future<From> f); };
template <typename From, typename To> struct FnF { Tester * t; int cont; Tracked cap; Future<To> operator()(Future<From> && f) ; };
template <typename R> struct TaskFn { Tester * t; int arg; int kind; Tracked cap; R operator()(int a, std::string const & s); };

template <typename T> struct Store { std::vector<std::unique_ptr<PS<T>>> ps; std::vector<std::unique_ptr<FS<T>>> fs; };
template <typename R> struct TS { PackagedTask<R(int, std::string)> t; int ch; bool valid, hasFut, hasFn; int kind, arg; };

struct Tester {
    pbt::Ctx & c;
    std::vector<Chan> chans;
    std::vector<Cont> conts;
    std::vector<int> log, want; // continuations run / expected to have run, in order
    Store<Val> sv; Store<Ptr> sp; Store<void> s0;
    std::vector<std::unique_ptr<TS<Val>>> tv; std::vector<std::unique_ptr<TS<void>>> t0;
    int next = 1; bool early = false, late = false, chain = false, exc = false, unwrapped = false;
    int taskRuns = 0, wantTaskRuns = 0, gotArg = 0;
    explicit Tester(pbt::Ctx & c_) : c(c_) {}
    Store<Val> & st(Val *) { return sv; } Store<Ptr> & st(Ptr *) { return sp; } Store<void> & st(void *) { return s0; }
    std::vector<std::unique_ptr<TS<Val>>> & ts(Val *) { return tv; } std::vector<std::unique_ptr<TS<void>>> & ts(void *) { return t0; }

    int chan(int type) { chans.push_back(Chan{type, {}, -1}); return (int)chans.size() - 1; }
    int fresh() { return next++; }

    // --- model ---
    Outcome result(Cont const & k, Outcome in) const {
        bool const targetVoid = chans[k.target].type == 2;
        Outcome o;
        switch (k.kind) {
        case RetVal: case FReady: o.st = Value; o.v = targetVoid ? 0 : k.arg; break;
        case Echo: o = in; if (in.st == Value) o.v = targetVoid ? 0 : k.arg; break;
        case Throw: case FExc: o.st = Exception; o.v = k.arg; break;
        case RetArmed: o.st = chans[k.target].type == 0 ? Boomed : Value; o.v = targetVoid ? 0 : k.arg; break;
        case FBroken: case FInvalid: o.st = Broken; break;
        case FEcho: o = in; break;
        }
        return o;
    }
    void resolve(int ch, Outcome o) {
        CHECK(chans[ch].o.st == Pending && o.st != Pending);
        chans[ch].o = o;
        if (o.st != Value) exc = true;
        if (chans[ch].cont >= 0) runCont(chans[ch].cont);
    }
    void runCont(int k) {
        want.push_back(k);
        Outcome o = result(conts[k], chans[conts[k].source].o);
        if (conts[k].kind >= FReady) unwrapped = true;
        resolve(conts[k].target, o);
    }
    void verify() {
        CHECKM(log == want, "%zu continuations ran, %zu expected, or in another order", log.size(), want.size());
        CHECK_EQ(taskRuns, wantTaskRuns);
        all<Val>(); all<Ptr>(); all<void>();
        allT<Val>(); allT<void>();
    }
    template <typename T> void all() {
        for (auto & p : st((T *)0).ps) { CHECK_EQ(p->p.isValid(), p->valid); CHECK_EQ(p->p.hasFuture(), p->hasFut); }
        for (auto & f : st((T *)0).fs) { CHECK_EQ(f->f.isValid(), f->ch >= 0); if (f->ch >= 0) CHECK_EQ(f->f.isReady(), chans[f->ch].o.st != Pending); }
    }
    template <typename R> void allT() { for (auto & t : ts((R *)0)) CHECK_EQ(t->t.isValid(), t->valid); }

    // --- operations ---
    template <typename T> PS<T> * anyP() { auto & v = st((T *)0).ps; return v.empty() ? nullptr : v[c.draw(v.size() - 1)].get(); }
    template <typename T> FS<T> * anyF() { auto & v = st((T *)0).fs; return v.empty() ? nullptr : v[c.draw(v.size() - 1)].get(); }
    template <typename T> void addF(Future<T> && f, int ch) { st((T *)0).fs.emplace_back(new FS<T>{std::move(f), ch}); }

    void setV(PS<Val> & p) {
        int const v = fresh(); Outcome o; o.st = Value; o.v = v;
        switch (c.draw(4)) {
        case 0: { Val const x(v); done(p, o, "setValue(copy)"); p.p.setValue(x); CHECK_EQ(x.v, v); break; }
        case 1: { Val x(v); done(p, o, "setValue(move)"); p.p.setValue(std::move(x)); CHECK_EQ(x.v, -1); break; }
        case 2: done(p, o, "emplaceValue"); p.p.emplaceValue(v); break;
        case 3: { // the value cannot be made: the promise is as before
            Val x(v); x.armed = true;
            c.trace("promise of %d: setValue of a value that cannot be copied", p.ch);
            try { if (c.coin()) p.p.setValue(x); else p.p.setValue(std::move(x)); pbt::fail("setValue swallowed an exception"); } catch (Boom const &) {}
            CHECK_EQ(x.v, v);
            break; }
        default:
            c.trace("promise of %d: emplaceValue that throws", p.ch);
            try { p.p.emplaceValue(v, ThrowArg{}); pbt::fail("emplaceValue swallowed an exception"); } catch (Boom const &) {}
        }
    }
    void setV(PS<Ptr> & p) {
        int const v = fresh(); Outcome o; o.st = Value; o.v = v;
        if (c.coin()) { Ptr x(new Val(v)); done(p, o, "setValue(move)"); p.p.setValue(std::move(x)); CHECK(!x); }
        else { done(p, o, "emplaceValue"); p.p.emplaceValue(new Val(v)); }
    }
    void setV(PS<void> & p) { Outcome o; o.st = Value; done(p, o, "setReady"); if (c.coin()) p.p.setValue(); else p.p.setReady(); }
    template <typename T> void done(PS<T> & p, Outcome o, char const * how) {
        c.trace("promise of %d: %s -> %s %d", p.ch, how, stName[o.st], o.v);
        p.valid = false;
        resolve(p.ch, o);
    }
    template <typename T> void breakP(PS<T> & p) { if (p.valid) { Outcome o; o.st = Broken; done(p, o, "broken"); } }

    template <typename T> void opPromise() {
        auto & v = st((T *)0).ps;
        unsigned const op = c.weighted({5, 5, 6, 3, 2, 2, 1, 2, 1});
        if (op == 0) { v.emplace_back(new PS<T>{Promise<T>(), chan(Tr<T>::code), true, true}); c.trace("new promise of channel %d (type %d)", v.back()->ch, (int)Tr<T>::code); return; }
        if (v.empty()) return;
        size_t const i = c.draw(v.size() - 1);
        PS<T> & p = *v[i];
        switch (op) {
        case 1: if (p.hasFut) { c.trace("take future of %d", p.ch); addF(p.p.takeFuture(), p.ch); p.hasFut = false; } break;
        case 2: if (p.valid) setV(p); break;
        case 3: if (p.valid) {
            Outcome o; o.st = Exception; o.v = fresh(); done(p, o, "setException");
            Exc e(o.v);
            switch (c.draw(3)) {
            case 0: p.p.setException(std::make_exception_ptr(e)); break;
            case 1: { std::exception_ptr const ep(std::make_exception_ptr(e)); p.p.setException(ep); CHECK(ep != nullptr); break; }
            case 2: p.p.setException(e); CHECK(e.own != nullptr); break;
            default: p.p.setException(std::move(e));
            } } break;
        case 4: if (p.valid) { Outcome o; o.st = Broken; done(p, o, "abandon"); p.p.abandon(); } break;
        case 5: { c.trace("destroy promise of %d", p.ch); breakP(p); v.erase(v.begin() + i); break; }
        case 6: { c.trace("move promise of %d", p.ch); std::unique_ptr<PS<T>> n(new PS<T>{Promise<T>(std::move(p.p)), p.ch, p.valid, p.hasFut}); CHECK(!p.p.isValid()); CHECK(!p.p.hasFuture()); v[i] = std::move(n); break; }
        case 7: { PS<T> & q = *anyP<T>(); if (&p == &q) break;
            c.trace("assign promise of %d over promise of %d", q.ch, p.ch);
            breakP(p);
            p.p = std::move(q.p); p.ch = q.ch; p.valid = q.valid; p.hasFut = q.hasFut; q.valid = q.hasFut = false; break; }
        default: { PS<T> & q = *anyP<T>(); c.trace("swap promises %d, %d", p.ch, q.ch); if (c.coin()) p.p.swap(q.p); else std::swap(p.p, q.p);
            std::swap(p.ch, q.ch); std::swap(p.valid, q.valid); std::swap(p.hasFut, q.hasFut); }
        }
    }
    template <typename T> void opReady() { // ready-made futures
        int const ch = chan(Tr<T>::code); Outcome o;
        int const v = fresh();
        switch (c.draw(3)) {
        case 0: o.st = Value; o.v = Tr<T>::code == 2 ? 0 : v; addF(mkReady((T *)0, v), ch); break;
        case 1: { o.st = Exception; o.v = v; std::exception_ptr e(std::make_exception_ptr(Exc(v))); if (c.coin()) addF(makeExceptionalFuture<T>(e), ch); else addF(makeExceptionalFuture<T>(std::move(e)), ch); break; }
        case 2: { o.st = Exception; o.v = v; Exc e(v); if (c.coin()) { addF(makeExceptionalFuture<T>(e), ch); CHECK(e.own != nullptr); } else addF(makeExceptionalFuture<T>(Exc(v)), ch); break; }
        default: o.st = Broken; addF(makeBrokenFuture<T>(), ch);
        }
        c.trace("ready-made future of channel %d (type %d): %s %d", ch, (int)Tr<T>::code, stName[o.st], o.v);
        resolve(ch, o);
    }
    Future<Val> mkReady(Val *, int v) {
        switch (c.draw(2)) { case 0: return makeReadyFuture(Val(v)); case 1: { Val const x(v); auto f(makeReadyFuture(x)); CHECK_EQ(x.v, v); return f; } default: { Val x(v); auto f(makeReadyFuture(x)); CHECK_EQ(x.v, v); return f; } }
    }
    Future<Ptr> mkReady(Ptr *, int v) { return makeReadyFuture(Ptr(new Val(v))); }
    Future<void> mkReady(void *, int) { return makeReadyFuture(); }

    template <typename From, typename To> void attach(FS<From> & f, int kind) {
        int const k = (int)conts.size(), target = chan(Tr<To>::code), src = f.ch;
        conts.push_back(Cont{kind, fresh(), src, target, c.coin()});
        bool const isLate = chans[src].o.st != Pending;
        (isLate ? late : early) = true;
        for (auto & x : conts) if (x.target == src) chain = true;
        c.trace("future of %d: then #%d which %s and %s its input -> channel %d (type %d)", src, k, kindName[kind], conts[k].takes ? "takes" : "does not take", target, (int)Tr<To>::code);
        chans[src].cont = k; f.ch = -1;
        if (isLate) runCont(k);
        if (kind < FReady) { Fn<From, To> fn{this, k, Tracked(k)}; if (c.coin()) addF<To>(f.f.then(fn), target); else addF<To>(f.f.then(std::move(fn)), target); }
        else { FnF<From, To> fn{this, k, Tracked(k)}; if (c.coin()) addF<To>(f.f.then(fn), target); else addF<To>(f.f.then(std::move(fn)), target); }
        CHECK(!f.f.isValid());
    }
    template <typename T> void opFuture() {
        auto & v = st((T *)0).fs;
        if (v.empty()) return;
        size_t const i = c.draw(v.size() - 1);
        FS<T> & f = *v[i];
        bool const ready = f.ch >= 0 && chans[f.ch].o.st != Pending;
        switch (c.weighted({4, 8, 2, 2, 2, 1, 2})) {
        case 0: if (ready) { Outcome const w = chans[f.ch].o, g = take(f.f); c.trace("take %d", f.ch); CHECKM(g == w, "channel %d delivered %s %d, expected %s %d", f.ch, stName[g.st], g.v, stName[w.st], w.v); f.ch = -1; } break;
        case 1: if (f.ch >= 0) {
            int kind = (int)c.draw(NKINDS - 1);
            switch (c.draw(2)) {
            case 0: if (kind == FEcho && Tr<T>::code != 0) kind = FReady; attach<T, Val>(f, kind); break;
            case 1: if (kind == FEcho && Tr<T>::code != 1) kind = FReady; attach<T, Ptr>(f, kind); break;
            default: if (kind == FEcho && Tr<T>::code != 2) kind = FReady; attach<T, void>(f, kind);
            } } break;
        case 2: if (f.ch >= 0) {
            c.trace("wait on %d", f.ch);
            if (ready) f.f.wait();
            CHECK_EQ(f.f.waitFor(std::chrono::microseconds(0)), ready);
            CHECK_EQ(f.f.waitUntil(std::chrono::steady_clock::now()), ready);
            CHECK_EQ(f.f.waitUntil(std::chrono::system_clock::now() - std::chrono::hours(1)), ready);
            if (ready) { CHECK(f.f.waitFor(std::chrono::hours(1))); CHECK(f.f.waitUntil(std::chrono::steady_clock::now() + std::chrono::hours(1))); }
            } break;
        case 3: c.trace("drop future of %d", f.ch); v.erase(v.begin() + i); break;
        case 4: { c.trace("move future of %d", f.ch); std::unique_ptr<FS<T>> n(new FS<T>{Future<T>(std::move(f.f)), f.ch}); CHECK(!f.f.isValid()); v[i] = std::move(n); break; }
        case 5: { FS<T> & g = *anyF<T>(); if (&f == &g) break; c.trace("assign future of %d over %d", g.ch, f.ch); f.f = std::move(g.f); f.ch = g.ch; g.ch = -1; CHECK(!g.f.isValid()); break; }
        default: { FS<T> & g = *anyF<T>(); c.trace("swap futures %d, %d", f.ch, g.ch); if (c.coin()) f.f.swap(g.f); else std::swap(f.f, g.f); std::swap(f.ch, g.ch); }
        }
    }
    template <typename R> void opTask() {
        auto & v = ts((R *)0);
        unsigned const op = c.weighted({4, 3, 6, 2, 2, 2, 1});
        if (op == 0) {
            int const ch = chan(Tr<R>::code), kind = (int)c.weighted({3, 1, 1});
            int const arg = fresh();
            TaskFn<R> fn{this, arg, kind, Tracked(arg)};
            c.trace("new task of channel %d", ch);
            switch (c.draw(2)) {
            case 0: v.emplace_back(new TS<R>{PackagedTask<R(int, std::string)>(fn), ch, true, true, true, kind, arg}); break;
            case 1: v.emplace_back(new TS<R>{PackagedTask<R(int, std::string)>(std::move(fn)), ch, true, true, true, kind, arg}); break;
            default: v.emplace_back(new TS<R>{PackagedTask<R(int, std::string)>(), ch, false, false, false, kind, arg});
            }
            return;
        }
        if (v.empty()) return;
        size_t const i = c.draw(v.size() - 1);
        TS<R> & t = *v[i];
        auto breakT = [&](TS<R> & x) { if (x.valid) { Outcome o; o.st = Broken; x.valid = false; resolve(x.ch, o); } };
        switch (op) {
        case 1: if (t.hasFut) { c.trace("task future %d", t.ch); addF(t.t.takeFuture(), t.ch); t.hasFut = false; } break;
        case 2: if (t.valid) {
            Outcome o;
            o.st = t.kind == 0 ? Value : t.kind == 1 ? Exception : Tr<R>::code == 0 ? Boomed : Value;
            o.v = o.st == Value && Tr<R>::code == 2 ? 0 : t.arg;
            c.trace("run task %d", t.ch);
            t.valid = false; ++wantTaskRuns;
            gotArg = 0;
            resolve(t.ch, o);
            std::string s("a string argument of some length");
            int const a = (int)c.draw(1000);
            if (c.coin()) t.t(a, s); else t.t(static_cast<short>(a), "a string argument of some length");
            CHECK_EQ(gotArg, a);
            } break;
        case 3: c.trace("destroy task %d", t.ch); breakT(t); v.erase(v.begin() + i); break;
        case 4: { c.trace("move task %d", t.ch); std::unique_ptr<TS<R>> n(new TS<R>{std::move(t.t), t.ch, t.valid, t.hasFut, t.hasFn, t.kind, t.arg}); CHECK(!t.t.isValid()); v[i] = std::move(n); break; }
        case 5: { TS<R> & u = *v[c.draw(v.size() - 1)]; if (&t == &u) break;
            c.trace("assign task %d over %d", u.ch, t.ch);
            breakT(t);
            t.t = std::move(u.t); t.ch = u.ch; t.valid = u.valid; t.hasFut = u.hasFut; t.hasFn = u.hasFn; t.kind = u.kind; t.arg = u.arg; u.valid = u.hasFut = u.hasFn = false; break; }
        default: if (t.hasFn) {
            if (c.coin()) { // a fresh outcome for the same callable
                c.trace("reset task %d", t.ch);
                breakT(t);
                t.ch = chan(Tr<R>::code); t.valid = t.hasFut = true;
                t.t.reset();
            } else { TS<R> & u = *v[c.draw(v.size() - 1)]; c.trace("swap tasks %d %d", t.ch, u.ch); if (c.coin()) t.t.swap(u.t); else std::swap(t.t, u.t);
                std::swap(t.ch, u.ch); std::swap(t.valid, u.valid); std::swap(t.hasFut, u.hasFut); std::swap(t.hasFn, u.hasFn); std::swap(t.kind, u.kind); std::swap(t.arg, u.arg); }
            }
        }
    }
    void run() {
        for (size_t n = 0; c.more(n, 60, 300); ++n) {
            switch (c.weighted({4, 3, 3, 4, 3, 3, 1, 1, 1, 2, 2})) {
            case 0: opPromise<Val>(); break; case 1: opPromise<Ptr>(); break; case 2: opPromise<void>(); break;
            case 3: opFuture<Val>(); break; case 4: opFuture<Ptr>(); break; case 5: opFuture<void>(); break;
            case 6: opReady<Val>(); break; case 7: opReady<Ptr>(); break; case 8: opReady<void>(); break;
            case 9: opTask<Val>(); break; default: opTask<void>();
            }
            verify();
        }
        // resolve everything that is still pending, then every future delivers
        bool const fulfil = c.coin();
        endP<Val>(fulfil); endP<Ptr>(fulfil); endP<void>(fulfil); endT<Val>(); endT<void>();
        for (auto & x : chans) if (x.cont >= 0) CHECK(x.o.st != Pending);
        verify();
        endF<Val>(); endF<Ptr>(); endF<void>();
        CHECK_EQ(Tracked::live, 0);
        if (early) c.label("early continuation"); if (late) c.label("late continuation"); if (chain) c.label("chain"); if (exc) c.label("exception"); if (unwrapped) c.label("unwrapped");
        c.nontrivial(early && late && chain);
    }
    template <typename T> void endP(bool fulfil) { auto & v = st((T *)0).ps; while (!v.empty()) { if (fulfil && v.back()->valid) { setV(*v.back()); verify(); } c.trace("destroy promise of %d", v.back()->ch); breakP(*v.back()); v.pop_back(); verify(); } }
    template <typename R> void endT() { auto & v = ts((R *)0); while (!v.empty()) { auto & x = *v.back(); c.trace("destroy task %d", x.ch); if (x.valid) { Outcome o; o.st = Broken; x.valid = false; resolve(x.ch, o); } v.pop_back(); verify(); } }
    template <typename T> void endF() { auto & v = st((T *)0).fs; while (!v.empty()) { auto & f = *v.back(); if (f.ch >= 0 && c.coin()) { Outcome const g = take(f.f), w = chans[f.ch].o; CHECKM(g == w, "channel %d delivered %s %d, expected %s %d", f.ch, stName[g.st], g.v, stName[w.st], w.v); } v.pop_back(); } }

    template <typename From> Outcome enter(int k, Future<From> & f, Tracked const & cap) { // a continuation starts
        cap.ok(); CHECK_EQ(cap.v, k);
        log.push_back(k);
        CHECK(log.size() <= want.size() && want[log.size() - 1] == k);
        Cont const & ct = conts[k];
        CHECK(f.isValid()); CHECK(f.isReady()); f.wait();
        Outcome const w = chans[ct.source].o;
        if (!(ct.takes || ct.kind == Echo) || ct.kind == FEcho) return w;
        Outcome g;
        Future<From> copy; std::swap(copy, f);
        g = take(copy);
        CHECKM(g == w, "continuation #%d received %s %d, expected %s %d", k, stName[g.st], g.v, stName[w.st], w.v);
        return g;
    }
    static void raise(Outcome o) {
        if (o.st == Exception) throw Exc(o.v);
        if (o.st == Broken) throw BrokenPromiseException();
        if (o.st == Boomed) throw Boom{};
    }
};
template <typename T> struct Make { static T armed(int v) { return Tr<T>::mk(v); } static T mk(int v) { return Tr<T>::mk(v); } };
template <> struct Make<void> { static void armed(int) {} static void mk(int) {} };
template <> struct Make<Val> { static Val armed(int v) { struct H { Val x; }; return mkArmed(v); } static Val mk(int v) { return Val(v); }
    static Val mkArmed(int v) { struct A : Val { A(int v_) : Val(v_) { armed = true; } }; return ArmedMaker(v); }
    struct ArmedMaker { int v; explicit ArmedMaker(int x) : v(x) {} operator Val() const; }; };
struct ArmTag {};
Make<Val>::ArmedMaker::operator Val() const { Val x(v); x.armed = true; return x; } // named return value: no move

template <typename From, typename To> To Fn<From, To>::operator()(Future<From> f) {
    Cont const ct = t->conts[cont];
    Outcome const in = t->enter(cont, f, cap);
    switch (ct.kind) {
    case Throw: throw Exc(ct.arg);
    case RetArmed: return Make<To>::armed(ct.arg);
    case Echo: Tester::raise(in); break;
    default:;
    }
    return Make<To>::mk(ct.arg);
}
template <typename A, typename B> struct Same { static B go(A &&) { abort(); } };
template <typename A> struct Same<A, A> { static A go(A && a) { return std::move(a); } };
template <typename From, typename To> Future<To> FnF<From, To>::operator()(Future<From> && f) {
    Cont const ct = t->conts[cont];
    t->enter(cont, f, cap);
    switch (ct.kind) {
    case FReady: return t->mkReady((To *)0, ct.arg);
    case FExc: return makeExceptionalFuture<To>(Exc(ct.arg));
    case FBroken: return makeBrokenFuture<To>();
    case FEcho: return Same<Future<From>, Future<To>>::go(std::move(f));
    default: return Future<To>();
    }
}
template <typename R> R TaskFn<R>::operator()(int a, std::string const & s) {
    cap.ok(); CHECK_EQ(cap.v, arg);
    CHECK(s == "a string argument of some length");
    ++t->taskRuns; t->gotArg = a;
    if (kind == 1) throw Exc(arg);
    if (kind == 2) return Make<R>::armed(arg);
    return Make<R>::mk(arg);
}
}

static bool init = (pbt::options.checkLeaks = true);

PBT_PROP(history, 150000, 5000000, "random history over promises, futures, ready-made futures, packaged tasks and continuations of three value types (copyable/throwing, move-only, void); non-trivial if continuations were attached both before and after the outcome and at least one to another continuation's future") {
    Tracked::live = 0; Tracked::throwAt = -1;
    Tester t(c);
    t.run();
}
