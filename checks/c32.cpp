// C32: ranges of every kind, over iterators which notice every step past the
// end, against plain sequences.
#include <sharemind/Range.h>
#include <sharemind/ReversedRange.h>
#include <sharemind/ReversionWrapper.h>
#include <sharemind/Size.h>
#include <array>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;
using pbt::Ctx;
using Seq = std::vector<int>;

struct Val { int v; };
long compared = 0;
bool operator==(Val a, Val b) { ++compared; return a.v == b.v; } bool operator!=(Val a, Val b) { return !(a == b); }
bool operator==(Val a, int b) { ++compared; return a.v == b; } bool operator==(int a, Val b) { ++compared; return a == b.v; }
bool operator!=(Val a, int b) { return !(a == b); } bool operator!=(int a, Val b) { return !(a == b); }
int num(int x) { return x; } int num(Val x) { return x.v; }

// Ranges of every iterator category, bounded by an iterator or by a sentinel,
// with and without a size.
template <typename V> struct Data { std::vector<V> v; size_t pos = 0, maxRead = 0; bool handedOut = false; };
using In = std::input_iterator_tag; using Fw = std::forward_iterator_tag; using Bi = std::bidirectional_iterator_tag; using Ra = std::random_access_iterator_tag;
struct End { void const * of; };
template <typename V, typename Cat> struct It {
    using iterator_category = Cat; using value_type = V; using difference_type = std::ptrdiff_t; using pointer = V *; using reference = V &;
    static constexpr bool input = std::is_same<Cat, std::input_iterator_tag>::value;
    Data<V> * d = nullptr; size_t i = 0;
    size_t n() const { return d->v.size(); }
    void live() const { if (!d) pbt::fail("a singular iterator was used"); if (input && i != n() && i != d->pos) pbt::fail("a copy of an input iterator was used after another one moved on"); }
    V & operator*() const { live(); if (i >= n()) pbt::fail("an iterator past the last element was dereferenced"); if (i + 1 > d->maxRead) d->maxRead = i + 1; return d->v[i]; }
    V * operator->() const { return &**this; }
    It & operator++() { live(); if (i >= n()) pbt::fail("an iterator was moved past the end"); ++i; if (input) d->pos = i; return *this; } It operator++(int) { It r(*this); ++*this; return r; }
    #define IF(T) template <typename C = Cat, std::enable_if_t<std::is_base_of<T, C>::value, int> = 0>
    IF(Bi) It & operator--() { live(); if (!i) pbt::fail("an iterator was moved before the first element"); --i; return *this; } IF(Bi) It operator--(int) { It r(*this); --*this; return r; }
    IF(Ra) It & operator+=(std::ptrdiff_t k) { live(); i += (size_t)k; if (i > n()) pbt::fail("an iterator was moved outside its range"); return *this; } IF(Ra) It & operator-=(std::ptrdiff_t k) { return *this += -k; }
    IF(Ra) V & operator[](std::ptrdiff_t k) const { return *(*this + k); }
    #undef IF
    friend bool operator==(It const & a, It const & b) { a.live(); b.live(); if (a.d != b.d) pbt::fail("iterators of different ranges were compared"); return a.i == b.i; } friend bool operator!=(It const & a, It const & b) { return !(a == b); }
    friend bool operator==(It const & a, End e) { a.live(); if (e.of != a.d) pbt::fail("the end of another range was compared"); return a.i == a.n(); } friend bool operator!=(It const & a, End e) { return !(a == e); } friend bool operator==(End e, It const & a) { return a == e; } friend bool operator!=(End e, It const & a) { return !(a == e); }
};
#define RAF template <typename V, typename C, std::enable_if_t<std::is_base_of<Ra, C>::value, int> = 0>
RAF It<V, C> operator+(It<V, C> a, std::ptrdiff_t k) { return a += k; } RAF It<V, C> operator+(std::ptrdiff_t k, It<V, C> a) { return a += k; } RAF It<V, C> operator-(It<V, C> a, std::ptrdiff_t k) { return a -= k; }
RAF std::ptrdiff_t operator-(It<V, C> const & a, It<V, C> const & b) { if (a.d != b.d) pbt::fail("iterators of different ranges were subtracted"); return (std::ptrdiff_t)a.i - (std::ptrdiff_t)b.i; }
RAF bool operator<(It<V, C> const & a, It<V, C> const & b) { return b - a > 0; } RAF bool operator>(It<V, C> const & a, It<V, C> const & b) { return b < a; } RAF bool operator<=(It<V, C> const & a, It<V, C> const & b) { return !(b < a); } RAF bool operator>=(It<V, C> const & a, It<V, C> const & b) { return !(a < b); }
#undef RAF
template <typename V, typename Cat, bool bounded> struct RBase {
    using I = It<V, Cat>; mutable Data<V> d;
    explicit RBase(Seq const & s) { for (int x : s) d.v.push_back(V{x}); }
    I begin() const { if (I::input && d.handedOut) pbt::fail("a single-pass range was begun twice"); d.handedOut = true; I i; i.d = &d; return i; }
    template <bool b = bounded, std::enable_if_t<b, int> = 0> I end() const { I i; i.d = &d; i.i = d.v.size(); return i; }
    template <bool b = bounded, std::enable_if_t<!b, int> = 0> End end() const { return End{&d}; }
    Seq seq() const { Seq r; for (auto & x : d.v) r.push_back(num(x)); return r; }
};
template <typename V, typename Cat, bool bounded, typename Size = void> struct R : RBase<V, Cat, bounded> { using RBase<V, Cat, bounded>::RBase; Size size() const { return (Size)this->d.v.size(); } };
template <typename V, typename Cat, bool bounded> struct R<V, Cat, bounded, void> : RBase<V, Cat, bounded> { using RBase<V, Cat, bounded>::RBase; };

template <typename F, typename X> void two(Ctx & c, F && f, X & x) { if (c.coin()) f(x); else f(static_cast<X const &>(x)); }
template <typename F, size_t n> void array(Seq const & s, Ctx & c, F && f) { int a[n]; for (size_t i = 0; i < n; ++i) a[i] = s[i]; two(c, f, a); }
enum { KINDS = 27 };
// Calls f with a range of the given kind which has exactly the given elements.
template <typename F> void withRange(Ctx & c, int kind, Seq const & s, F && f) {
    switch (kind) {
    case 0: { R<int, In, true> r(s); f(r); break; }
    case 1: { R<Val, In, false> r(s); f(r); break; }
    case 2: { R<int, In, false, size_t> r(s); f(r); break; }
    case 3: { R<Val, In, true, int> r(s); f(r); break; }
    case 4: { R<int, Fw, true> r(s); two(c, f, r); break; }
    case 5: { R<int, Fw, false> r(s); two(c, f, r); break; }
    case 6: { if (s.size() > 255) { R<Val, Fw, false, unsigned short> r(s); if (s.size() < 65536) two(c, f, r); else { R<Val, Fw, false, unsigned> q(s); two(c, f, q); } break; } R<Val, Fw, false, unsigned char> r(s); two(c, f, r); break; }
    case 7: { R<int, Bi, true> r(s); two(c, f, r); break; }
    case 8: { if (s.size() > 127) { R<Val, Bi, true, int> r(s); two(c, f, r); break; } R<Val, Bi, true, signed char> r(s); two(c, f, r); break; }
    case 9: { R<int, Ra, true> r(s); two(c, f, r); break; }
    case 10: { R<int, Ra, false> r(s); two(c, f, r); break; }
    case 11: { if (s.size() > 65535) { R<Val, Ra, true> r(s); two(c, f, r); break; } R<Val, Ra, true, unsigned short> r(s); two(c, f, r); break; }
    case 12: { R<int, Ra, false, long long> r(s); two(c, f, r); break; }
    case 13: { std::vector<int> r(s); two(c, f, r); break; }
    case 14: { std::list<int> r(s.begin(), s.end()); two(c, f, r); break; }
    case 15: { std::forward_list<int> r(s.begin(), s.end()); two(c, f, r); break; }
    case 16: { std::deque<int> r(s.begin(), s.end()); two(c, f, r); break; }
    case 17: switch (s.size()) { case 1: array<F &, 1>(s, c, f); break; case 2: array<F &, 2>(s, c, f); break; case 3: array<F &, 3>(s, c, f); break; default: { std::vector<int> r(s); f(r); } } break;
    case 18: switch (s.size()) { case 0: f(std::initializer_list<int>{}); break; case 1: f(std::initializer_list<int>{s[0]}); break; case 2: f(std::initializer_list<int>{s[0], s[1]}); break; case 3: { std::initializer_list<int> const l{s[0], s[1], s[2]}; f(l); break; } default: { std::list<int> r(s.begin(), s.end()); f(r); } } break;
    case 19: { f(std::vector<int>(s)); break; } // an rvalue
    case 20: { if (s.size() == 3) { std::array<int, 3> r{{s[0], s[1], s[2]}}; two(c, f, r); } else { std::vector<int> r(s); f(std::move(r)); } break; }
    case 21: { std::vector<int> b(s.rbegin(), s.rend()); auto r = sm::reverseRange(b); two(c, f, r); break; }
    case 22: { std::list<int> const b(s.rbegin(), s.rend()); f(sm::reverseRange(b)); break; }
    case 23: { if (s.size() == 3) { int b[3] = {s[2], s[1], s[0]}; auto r = sm::reverseRange(b); two(c, f, r); } else { std::deque<int> b(s.rbegin(), s.rend()); f(sm::reverseRange(b)); } break; }
    case 24: { std::string r; for (int x : s) r += (char)x; two(c, f, r); break; }
    case 25: { bool bits = true; for (int x : s) bits = bits && (x == 0 || x == 1); if (bits) { std::vector<bool> r; for (int x : s) r.push_back(x); f(static_cast<std::vector<bool> const &>(r)); } else { R<int, In, false> r(s); f(r); } break; }
    case 26: { std::set<int> r(s.begin(), s.end()); if (r.size() == s.size() && std::equal(r.begin(), r.end(), s.begin())) two(c, f, r); else { std::vector<int> b(s); two(c, f, b); } break; }
    }
}
Seq sequence(Ctx & c, size_t max) { Seq s; size_t const n = c.length(max, 4);
    if (c.chance(1, 400)) { size_t const m = c.pick({100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 65535, 65536, 65537}) + n; if (m > 2000 && c.draw(30)) return s; int const k = (int)c.draw(2); for (size_t i = 0; i < m; ++i) s.push_back((int)((i * i / 7 + i * (size_t)k) % 3)); return s; } // long ones, to outgrow small counters
    for (size_t i = 0; i < n; ++i) s.push_back((int)c.draw(2)); return s; }
std::string show(Seq const & s) { if (s.size() > 100) return std::to_string(s.size()) + " elements"; std::string r = "["; for (int x : s) r += std::to_string(x) + " "; return r + "]"; }
Seq similar(Ctx & c, Seq s) { // the same sequence, one which differs in one place, or a longer or a shorter one
    switch (c.weighted({4, 2, 2, 2, 1, 1})) { case 0: break; case 1: if (!s.empty()) s[c.draw(s.size() - 1)] ^= 1; break; case 2: s.push_back((int)c.draw(2)); break; case 3: if (!s.empty()) s.pop_back(); break; case 4: if (s.size() > 256) s.resize(s.size() - 256); else if (!s.empty()) s.erase(s.begin()); break; default: return sequence(c, 8); } return s; }

template <typename T> auto itemsOf(T & t) { Seq r; auto i = std::begin(t); auto const e = std::end(t); for (; !(i == e); ++i) r.push_back(num(*i)); return r; }

template <typename A> struct Second { Ctx & c; Seq const & s, & t; A & a; template <typename B> void operator()(B && b) const { bool const r = sm::rangeEqual(std::forward<A>(a), std::forward<B>(b)); CHECKM(r == (s == t), "the ranges were reported %s", r ? "equal" : "different"); } };
struct First { Ctx & c; Seq const & s, & t; int kind; template <typename A> void operator()(A && a) const { Second<A> f{c, s, t, a}; withRange(c, kind, t, f); } };
PBT_PROP(equality, 1000000, 20000000, "two ranges of different kinds of which at least one is not empty") {
    Seq const s = sequence(c, 8), t = similar(c, s); int const k = (int)c.draw(KINDS - 1), l = (int)c.draw(KINDS - 1); c.trace("range kind %d: %s", k, show(s).c_str()); c.trace("range kind %d: %s", l, show(t).c_str());
    First f{c, s, t, l}; withRange(c, k, s, f); c.label(s == t ? "equal" : s.size() == t.size() ? "same size" : "different sizes"); c.nontrivial(k != l && !(s.empty() && t.empty()));
}

struct Measure { Ctx & c; Seq const & s;
    template <typename A, std::enable_if_t<sm::Models<sm::ConstantTimeMeasurableRange(A)>::value, int> = 0> void go(A && a) const { c.label("measurable"); auto const n = sm::measureRange(a); CHECKM((long long)n == (long long)s.size(), "the range was measured as %lld", (long long)n); }
    template <typename A, std::enable_if_t<!sm::Models<sm::ConstantTimeMeasurableRange(A)>::value, int> = 0> void go(A &&) const {}
    template <typename A, typename D = std::remove_reference_t<A>> auto sized(A && a, int) const -> decltype((void)std::declval<D const &>().size()) { CHECKM((unsigned long long)sm::size(static_cast<D const &>(a)) == s.size(), "the size was %llu", (unsigned long long)sm::size(a)); CHECK(sm::Models<sm::SizedRange(A)>::value); CHECK((std::is_same<decltype(sm::size(a)), decltype(a.size())>::value)); }
    template <typename A> auto sized(A && a, long) const -> std::enable_if_t<std::is_array<std::remove_reference_t<A>>::value> { CHECK_EQ(sm::size(a), s.size()); CHECK(sm::Models<sm::SizedRange(A)>::value); }
    template <typename A> void sized(A &&, ...) const { CHECK(!sm::Models<sm::SizedRange(A)>::value); }
    template <typename A> void operator()(A && a) const { go(a); sized(a, 0); Seq const r = itemsOf(a); CHECK(r == s); }
};
PBT_PROP(measuring, 200000, 2000000, "not empty") {
    Seq const s = sequence(c, 12); int const k = (int)c.draw(KINDS - 1); c.trace("range kind %d: %s", k, show(s).c_str()); Measure f{c, s}; withRange(c, k, s, f); c.nontrivial(!s.empty());
}

struct Rev { Ctx & c; Seq s;
    template <typename A> auto go(A & a, int) const -> decltype((void)std::rbegin(a)) {
        Seq want(s.rbegin(), s.rend()), got, got2, got3; c.label("reversible");
        for (auto && x : sm::reverseRange(a)) got.push_back(num(x)); CHECKM(got == want, "reversed: %s", show(got).c_str());
        auto const r = sm::reverseRange(a); for (auto i = std::begin(r); i != std::end(r); ++i) got2.push_back(num(*i)); CHECK(got2 == want); auto q = sm::reverseRange(static_cast<A const &>(a)); for (auto i = std::cbegin(q); i != std::cend(q); ++i) got3.push_back(num(*i)); CHECK(got3 == want);
        static_assert(std::is_same<decltype(*std::begin(r)), decltype(*std::rbegin(static_cast<A const &>(a)))>::value, "elements of a constant reversed range are constant");
        CHECK(sm::rangeEqual(r, want)); CHECK(sm::rangeEqual(want, q)); CHECK_EQ(sm::rangeEqual(r, s), s == want); Seq longer(want); longer.push_back(1); CHECK(!sm::rangeEqual(r, longer)); CHECK(!sm::rangeEqual(longer, q));
        members(a, want, 0); sizes(a, r, 0);
    }
    template <typename A, typename Q> auto sizes(A & a, Q const & r, int) const -> decltype((void)sm::size(a)) { CHECK_EQ((size_t)sm::size(r), s.size()); CHECK_EQ((size_t)sm::measureRange(r), s.size()); }
    template <typename A, typename Q> void sizes(A &, Q const &, long) const {}
    template <typename A> auto members(A & a, Seq const & want, int) const -> decltype((void)a.rbegin()) { Seq got; for (auto && x : sm::makeReversionWrapper(a)) got.push_back(num(x)); CHECKM(got == want, "reversion wrapper: %s", show(got).c_str()); Seq got2; auto const w = sm::makeReversionWrapper(static_cast<A const &>(a)); for (auto i = begin(w); i != end(w); ++i) got2.push_back(num(*i)); CHECK(got2 == want); CHECK(noexcept(sm::makeReversionWrapper(a))); }
    template <typename A> void members(A &, Seq const &, long) const {}
    template <typename A> void go(A &, long) const {}
    template <typename A> void operator()(A && a) const { go(a, 0); }
};
PBT_PROP(reversal, 200000, 2000000, "at least two elements") {
    Seq const s = sequence(c, 8); int const k = (int)c.range(13, KINDS - 1); c.trace("range kind %d: %s", k, show(s).c_str()); Rev f{c, s}; withRange(c, k, s, f);
    // Elements may be changed through a reversed range.
    Seq m(s); int x = 10; for (auto & y : sm::reverseRange(m)) y = x++; for (auto & y : sm::makeReversionWrapper(m)) y += 5; for (size_t i = 0; i < m.size(); ++i) CHECK_EQ(m[i], 10 + (int)(m.size() - 1 - i) + 5); std::map<int, int> mp; for (size_t i = 0; i < s.size(); ++i) mp[(int)i] = s[i]; int at = (int)mp.size(); for (auto & y : sm::reverseRange(mp)) { CHECK_EQ(y.first, --at); y.second = 1; } for (auto & y : mp) CHECK_EQ(y.second, 1);
    c.nontrivial(s.size() > 1);
}

// Only iterable backwards, or measurable in both directions.
template <typename Cat, bool fwd, typename Size> struct Backwards { R<int, Cat, true> r; explicit Backwards(Seq const & s) : r(Seq(s.rbegin(), s.rend())) {} It<int, Cat> rbegin() const { return r.begin(); } It<int, Cat> rend() const { return r.end(); } template <typename S = Size> S size() const { return (S)r.d.v.size(); } };
template <typename Cat> struct Backwards<Cat, false, void> { R<int, Cat, true> r; explicit Backwards(Seq const & s) : r(Seq(s.rbegin(), s.rend())) {} It<int, Cat> rbegin() const { return r.begin(); } It<int, Cat> rend() const { return r.end(); } };
template <typename Cat> struct Backwards<Cat, true, void> : R<int, Cat, true> { R<int, Cat, true> r; explicit Backwards(Seq const & s) : R<int, Cat, true>(s), r(Seq(s.rbegin(), s.rend())) {} It<int, Cat> rbegin() const { return r.begin(); } It<int, Cat> rend() const { return r.end(); } };
template <typename X> void backwards(Seq const & s, bool measurable) {
    X const x(s); Seq got; for (auto & v : sm::reverseRange(x)) got.push_back(v); CHECK(got == Seq(s.rbegin(), s.rend())); CHECK(sm::rangeEqual(sm::reverseRange(x), got)); got.push_back(1); CHECK(!sm::rangeEqual(got, sm::reverseRange(x))); (void)measurable;
}
template <typename X> auto rev(X & x, size_t n, int) -> decltype((void)x.rbegin()) { auto r = sm::reverseRange(x); CHECK_EQ((size_t)sm::measureRange(r), n); } template <typename X> void rev(X &, size_t, long) {}
template <typename X> void measured(Seq const & s) { X x(s); CHECK_EQ((size_t)sm::measureRange(x), s.size()); CHECK_EQ((size_t)sm::measureRange(static_cast<X const &>(x)), s.size()); rev(x, s.size(), 0); }
PBT_PROP(backwardsOnly, 20000, 200000, "not empty") {
    Seq const s = sequence(c, 8); int const k = (int)c.draw(7); c.trace("kind %d: %s", k, show(s).c_str());
    switch (k) { case 0: backwards<Backwards<Fw, false, void>>(s, false); break; case 1: backwards<Backwards<Bi, false, size_t>>(s, true); measured<Backwards<Bi, false, size_t>>(s); break; case 2: backwards<Backwards<Ra, false, void>>(s, true); measured<Backwards<Ra, false, void>>(s); break; case 3: backwards<Backwards<Ra, true, void>>(s, true); measured<Backwards<Ra, true, void>>(s); break; case 4: backwards<Backwards<Bi, true, void>>(s, false); break; case 5: measured<R<int, Ra, true>>(s); break; case 6: measured<Backwards<Ra, false, unsigned>>(s); break; default: measured<std::vector<int>>(s); break; }
    c.nontrivial(!s.empty());
}

template <typename C, size_t N> void literal(Ctx & c) {
    C buf[N + 1]; for (auto & x : buf) x = (C)c.draw(2); buf[N] = (C)1; C const (&a)[N] = reinterpret_cast<C const (&)[N]>(buf);
    auto r = sm::asLiteralStringRange(a); CHECK_EQ(r.size(), N - 1); CHECK(r.begin() == a && r.end() == a + (N - 1) && r.cbegin() == a && r.cend() == a + (N - 1)); CHECK_EQ(sm::size(r), N - 1); CHECK_EQ(sm::measureRange(r), N - 1);
    std::vector<C> const want(a, a + (N - 1)); CHECK(std::vector<C>(r.begin(), r.end()) == want); CHECK(sm::rangeEqual(r, want)); CHECK(sm::rangeEqual(want, r)); std::forward_list<C> l(want.begin(), want.end()); CHECK(sm::rangeEqual(l, r)); CHECK(sm::rangeEqual(r, l)); l.push_front((C)1); CHECK(!sm::rangeEqual(l, r)); CHECK(!sm::rangeEqual(r, l)); CHECK(!sm::rangeEqual(r, a)); // the array has one more element
    C other[N]; for (size_t i = 0; i < N; ++i) other[i] = a[i]; auto q = sm::asLiteralStringRange(static_cast<C const (&)[N]>(other)); CHECK(q.begin() == other); CHECK(sm::rangeEqual(q, r)); q = r; CHECK(q.begin() == a); auto const p(r); CHECK(p.begin() == a); static_assert(decltype(r)::size() == N - 1, ""); CHECK(sm::Models<sm::RandomAccessRange(decltype(r) &)>::value && sm::Models<sm::SizedRange(decltype(r))>::value);
    c.trace("string literal of %zu", N); c.nontrivial(N > 1);
}
PBT_PROP(literals, 10000, 100000, "not empty") { switch (c.draw(7)) { case 0: literal<char, 1>(c); break; case 1: literal<char, 2>(c); break; case 2: literal<char, 9>(c); break; case 3: literal<wchar_t, 3>(c); break; case 4: literal<char16_t, 5>(c); break; case 5: literal<char32_t, 1>(c); break; case 6: literal<unsigned char, 4>(c); break; default: literal<char, 40>(c); break; } }
} // namespace
