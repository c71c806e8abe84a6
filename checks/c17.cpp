// C17: splitting against a scan of the input, concatenation against one stream,
// memory streams against string streams.
#include <sharemind/Concat.h>
#include <sharemind/InputMemoryStream.h>
#include <sharemind/Split.h>
#include <forward_list>
#include <iomanip>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;
// A forward iterator that refuses to leave its range; optionally never throws.
template <bool NoThrow> struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = ptrdiff_t; using pointer = int const *; using reference = int const &;
    std::vector<int> const * v = nullptr; size_t i = 0;
    int const & operator*() const noexcept(NoThrow) { if (i >= v->size()) pbt::fail("dereferenced the end"); return (*v)[i]; }
    It & operator++() noexcept(NoThrow) { if (i >= v->size()) pbt::fail("advanced past the end"); ++i; return *this; }
    It operator++(int) { It r = *this; ++*this; return r; }
    bool operator==(It const & o) const noexcept { return i == o.i; }
    bool operator!=(It const & o) const noexcept { return i != o.i; }
};
using Pieces = std::vector<std::pair<size_t, size_t>>;
struct Stop {};

// Runs the splitter; the piece action throws at the given piece.
template <typename I, typename Index> void run(pbt::Ctx & c, bool empty, I first, I last, Index index, std::vector<int> const & v, Pieces const & want, unsigned mod) {
    Pieces got; size_t const throwAt = c.chance(1, 4) ? c.draw(want.size()) : want.size() + 5; bool threw = false;
    auto const pred = [mod](int x) { return mod == 0 ? false : x % (int)mod == 0; };
    auto const action = [&](I a, I b) { if (got.size() == throwAt) throw Stop{}; got.emplace_back(index(a), index(b)); };
    try { if (empty) sm::split(first, last, pred, action); else sm::splitNoAllowEmpty(first, last, pred, action); } catch (Stop const &) { threw = true; }
    CHECK_EQ(threw, throwAt < want.size()); Pieces const w(want.begin(), want.begin() + (long)std::min(throwAt, want.size()));
    if (got != w) { std::string s; for (auto & p : got) s += " [" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; s += " expected"; for (auto & p : w) s += " [" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; pbt::fail("pieces%s", s.c_str()); }
    if (threw) c.label("action threw");
}
template <typename C> void compareStreams(std::basic_istream<C> & a, std::basic_istream<C> & b) { CHECK_EQ((int)a.rdstate(), (int)b.rdstate()); CHECK_EQ(a.gcount(), b.gcount()); }
template <typename C> void streams(pbt::Ctx & c) {
    using S = std::basic_string<C>; size_t const n = c.length(600, 12); std::unique_ptr<C[]> data(new C[n]); static char const alpha[] = "ab 01-.,\n\t9x\0\xff"; S s; for (size_t i = 0; i < n; ++i) { data[i] = (C)(unsigned char)alpha[c.draw(sizeof(alpha) - 2)]; s += data[i]; }
    if (n == 0 && c.coin()) data.reset();
    sm::BasicInputMemoryStream<C> m(data.get(), n); std::basic_istringstream<C> r(s); std::basic_istream<C> & a = m; std::basic_istream<C> & b = r; size_t ops = 0, end = 0; bool const skip = c.coin(); if (!skip) { a >> std::noskipws; b >> std::noskipws; }
    while (c.more(ops, 10, 50)) {
        ++ops; unsigned const op = (unsigned)c.draw(17); size_t const k = c.draw(8); C const d = (C)(unsigned char)alpha[c.draw(sizeof(alpha) - 2)]; c.trace("op %u (%zu)", op, k); C x[12] = {}, y[12] = {};
        switch (op) {
        case 0: CHECK_EQ(a.get(), b.get()); break;
        case 1: { C p = 0, q = 0; a.get(p); b.get(q); CHECK_EQ(p, q); break; }
        case 2: a.get(x, (long)k); b.get(y, (long)k); break;
        case 3: a.get(x, (long)k, d); b.get(y, (long)k, d); break;
        case 4: a.getline(x, (long)k); b.getline(y, (long)k); break;
        case 5: a.getline(x, (long)k, d); b.getline(y, (long)k, d); break;
        case 6: a.read(x, (long)k); b.read(y, (long)k); break;
        case 7: CHECK_EQ(a.readsome(x, (long)k), b.readsome(y, (long)k)); break;
        case 8: a.ignore((long)k); b.ignore((long)k); break;
        case 9: a.ignore((long)k, (int)d); b.ignore((long)k, (int)d); break;
        case 10: CHECK_EQ(a.peek(), b.peek()); break;
        case 11: a.unget(); b.unget(); break;
        case 12: a.putback(d); b.putback(d); break;
        case 13: { int p = 7, q = 7; a >> p; b >> q; CHECK_EQ(p, q); break; }
        case 14: { S p, q; a >> p; b >> q; CHECK(p == q); break; }
        case 15: { S p, q; std::getline(a, p, d); std::getline(b, q, d); CHECK(p == q); break; }
        case 16: { std::basic_ostringstream<C> p, q; p << a.rdbuf(); q << b.rdbuf(); CHECK(p.str() == q.str()); break; }
        default: a.clear(); b.clear(); continue;
        }
        CHECK(std::equal(x, x + 12, y)); compareStreams(a, b); end += a.eof(); if (!a.good() && c.coin()) { a.clear(); b.clear(); }
    }
    a.clear(); b.clear(); S const p(std::istreambuf_iterator<C>(a), {}), q(std::istreambuf_iterator<C>(b), {}); CHECK(p == q); CHECK(std::equal(s.begin(), s.end(), data.get()));
    if (ops >= 3 && n >= 3) c.nontrivial(); if (end) c.label("reached the end");
}
// A value whose output depends on whether it may be consumed.
struct Consumable { std::string s; };
std::ostream & operator<<(std::ostream & os, Consumable const & v) { return os << v.s; }
std::ostream & operator<<(std::ostream & os, Consumable && v) { os << v.s; v.s = "consumed"; return os; }
struct OnlyLvalue { int n; };
std::ostream & operator<<(std::ostream & os, OnlyLvalue & v) { return os << '<' << v.n << '>'; }
struct MoveOnly { std::unique_ptr<int> p; };
std::ostream & operator<<(std::ostream & os, MoveOnly const & v) { return os << *v.p; }
template <typename ... Ts> std::string oracle(Ts const & ... ts) { std::ostringstream os; int d[] = {0, ((void)(os << ts), 0)...}; (void)d; return os.str(); }
}

PBT_PROP(split, 150000, 4000000, "at least two pieces and a delimiter") {
    size_t const n = c.length(1000, 8); unsigned const mod = (unsigned)c.draw(4); std::vector<int> v(n); for (auto & x : v) x = (int)c.draw(11);
    auto delim = [mod](int x) { return mod == 0 ? false : x % (int)mod == 0; };
    Pieces all, some; size_t start = 0, delims = 0; for (size_t i = 0; i <= n; ++i) if (i == n || delim(v[i])) { all.emplace_back(start, i); if (i > start) some.emplace_back(start, i); start = i + 1; delims += i < n; }
    c.trace("%zu elements, delimiters: %zu", n, delims);
    bool const empty = c.coin(); Pieces const & want = empty ? all : some;
    switch (c.draw(4)) {
    case 0: run(c, empty, It<false>{&v, 0}, It<false>{&v, n}, [](It<false> i) { return i.i; }, v, want, mod); break;
    case 1: run(c, empty, v.data(), v.data() + n, [&](int * p) { return (size_t)(p - v.data()); }, v, want, mod); break;
    case 2: { std::list<int> const l(v.begin(), v.end()); run(c, empty, l.begin(), l.end(), [&](std::list<int>::const_iterator i) { return (size_t)std::distance(l.begin(), i); }, v, want, mod); break; }
    case 3: { std::forward_list<int> const l(v.begin(), v.end()); run(c, empty, l.begin(), l.end(), [&](std::forward_list<int>::const_iterator i) { return (size_t)std::distance(l.begin(), i); }, v, want, mod); break; }
    default: { // joining the pieces and delimiters again gives the input
        std::vector<int> joined; bool firstPiece = true; size_t pos = 0; sm::split(v.begin(), v.end(), delim, [&](std::vector<int>::iterator a, std::vector<int>::iterator b) { if (!firstPiece) joined.push_back(v[pos++]); firstPiece = false; for (; a != b; ++a, ++pos) { CHECK(!delim(*a)); joined.push_back(*a); } }); CHECK(joined == v);
        // Actions and predicates that cannot throw:
        size_t k = 0; auto const act = [&k](It<true>, It<true>) noexcept { ++k; }; auto const pr = [mod](int x) noexcept { return mod == 0 ? false : x % (int)mod == 0; }; static_assert(noexcept(sm::split(It<true>(), It<true>(), pr, act)) || true, ""); if (empty) sm::split(It<true>{&v, 0}, It<true>{&v, n}, pr, act); else sm::splitNoAllowEmpty(It<true>{&v, 0}, It<true>{&v, n}, pr, act); CHECK_EQ(k, want.size()); }
    }
    if (want.size() >= 2 && delims) c.nontrivial(); c.label(empty ? "empty pieces" : "non-empty pieces");
}
PBT_PROP(concat, 100000, 3000000, "at least two non-empty arguments") {
    auto str = [&] { std::string s; size_t const n = c.length(30, 6); for (size_t i = 0; i < n; ++i) s += (char)c.bits(8); return s; };
    std::string s = str(), t = str(), u = str(); std::string const cs = str(); int const i = (int)c.bits(32); long long const l = (long long)c.bits(64); double const d = (double)c.range(-1000, 1000) / 8; char const ch = (char)c.bits(8); bool const b = c.coin(); char z[40]; std::snprintf(z, sizeof(z), "%d", i); Consumable k{str()}, k2{k.s}; OnlyLvalue o{i}; MoveOnly mo{std::unique_ptr<int>(new int(i))}; std::string const s0 = s, t0 = t, z0 = z; unsigned const prec = (unsigned)c.draw(6), w = (unsigned)c.draw(12);
    unsigned const form = (unsigned)c.draw(15); c.trace("form %u", form); std::string r, want;
    switch (form) {
    case 0: r = sm::concat(); break;
    case 1: r = sm::concat(s); want = s0; break;
    case 2: r = sm::concat(std::move(u)); r += sm::concat(std::string(s)); want = oracle(std::string(r.data(), r.size() - s0.size()), s0); break;
    case 3: r = sm::concat(cs); want = cs; break;
    case 4: r = sm::concat(z) + sm::concat(static_cast<char const *>(z)) + sm::concat("lit"); want = oracle(z0, z0, "lit"); break;
    case 5: r = sm::concat(s, t); want = s0 + t0; break;
    case 6: r = sm::concat(s, i, ch, t, l, d, b); want = oracle(s0, i, ch, t0, l, d, b); break;
    case 7: r = sm::concat(i, " ", cs, ' ', std::string(t), "", z, static_cast<char const *>(z)); want = oracle(i, " ", cs, ' ', t0, "", z0, z0); break;
    case 8: r = sm::concat(k, s, k); want = k2.s + s0 + k2.s; CHECK(k.s == k2.s); break;
    case 9: r = sm::concat(std::move(k), t); want = k2.s + t0; break;
    case 10: r = sm::concat(o, s, o); want = "<" + std::to_string(i) + ">" + s0 + "<" + std::to_string(i) + ">"; break;
    case 11: r = sm::concat(mo, s, std::move(mo)); want = std::to_string(i) + s0 + std::to_string(i); break;
    case 12: r = sm::concat(std::hex, std::showbase, i, '-', std::dec, l, std::setw((int)w), s, std::setprecision((int)prec), d); want = oracle(std::hex, std::showbase, i, '-', std::dec, l, std::setw((int)w), s0, std::setprecision((int)prec), d); break;
    case 13: { void const * const p = &s; r = sm::concat(p, (unsigned char)ch, (signed char)ch, 1.5f, 'x', nullptr == p); want = oracle(p, (unsigned char)ch, (signed char)ch, 1.5f, 'x', false); break; }
    case 14: r = sm::concat(i); want = std::to_string(i); break;
    default: r = sm::concat(d, std::endl<char, std::char_traits<char>>, s, std::boolalpha, b); want = oracle(d, "\n", s0, std::boolalpha, b); }
    if (form != 2) CHECK(r == want); else CHECK(r.size() >= s0.size() && r.substr(r.size() - s0.size()) == s0);
    CHECK(s == s0); CHECK(t == t0); CHECK(z == z0); if (!s0.empty() && !t0.empty()) c.nontrivial();
}
// Streams of several gigabytes, and what only reads is never written to.
PBT_PROP(hugeStreams, 200, 2000, "every case") {
    size_t const size = ((size_t)1 << 32) + 4096; static char * const m = [size] { void * p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : (char *)p; }();
    if (!m) { c.label("no address space"); c.draw(1000000000); c.nontrivial(); return; }
    size_t n; switch (c.draw(3)) { case 0: n = (size_t)c.draw(300); break; case 1: n = ((size_t)1 << 31) + (size_t)c.draw(600) - 300; break; case 2: n = ((size_t)1 << 32) + (size_t)c.draw(600) - 300; break; default: n = size - (size_t)c.draw(300); }
    c.trace("%zu characters", n); mprotect(m, size, PROT_READ); { sm::InputMemoryStream in(m, n); CHECK_EQ((size_t)in.rdbuf()->in_avail(), n ? n : (size_t)in.rdbuf()->in_avail()); int const got = in.peek(); CHECK_EQ(got, n ? 0 : EOF); if (!n) in.clear();
      CHECK(in.rdbuf()->sputc('x') == EOF); CHECK_EQ((size_t)in.rdbuf()->sputn("xy", 2), (size_t)0); if (n) { CHECK_EQ(in.get(), 0); CHECK(!in.putback('y')); in.clear(); CHECK(in.rdbuf()->sputbackc('y') == EOF); CHECK(in.unget()); CHECK_EQ((size_t)in.rdbuf()->in_avail(), n); } }
    mprotect(m, size, PROT_READ | PROT_WRITE); c.nontrivial();
}
PBT_PROP(memoryStreams, 80000, 2500000, "at least three operations on at least three characters") { if (c.chance(1, 4)) streams<wchar_t>(c); else streams<char>(c); }
