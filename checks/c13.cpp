// C13: BasicStringView against std::basic_string.
#include <sharemind/StringView.h>
#include <boost/functional/hash.hpp>
#include <sys/mman.h>
#include <cctype>
#include <iomanip>
#include <sstream>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"

namespace {
// Case-insensitive traits: the view must compare with the traits, not with ==.
struct CiTraits : std::char_traits<char> {
    static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
    static bool eq(char a, char b) { return up(a) == up(b); }
    static bool lt(char a, char b) { return (unsigned char)up(a) < (unsigned char)up(b); }
    static int compare(char const * a, char const * b, size_t n) { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
    static char const * find(char const * s, size_t n, char c) { for (; n--; ++s) if (eq(*s, c)) return s; return nullptr; }
};
size_t const kNpos = size_t(-1);
int sgn(int x) { return x < 0 ? -1 : x > 0; }

// Storage of exactly the right size, so that any access outside is caught.
template <typename C> struct Exact {
    std::unique_ptr<C[]> p; size_t n;
    explicit Exact(size_t n_) : p(new C[n_]), n(n_) {}
};
// An allocator with a state.
template <typename T> struct Stateful { using value_type = T; int id; explicit Stateful(int i = 0) : id(i) {} template <typename U> Stateful(Stateful<U> const & o) : id(o.id) {} T * allocate(size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T * p, size_t n) { std::allocator<T>().deallocate(p, n); } template <typename U> bool operator==(Stateful<U> const & o) const { return id == o.id; } template <typename U> bool operator!=(Stateful<U> const & o) const { return id != o.id; } };
// A stream buffer that accepts only so many characters.
template <typename C, typename Tr> struct Limited : std::basic_streambuf<C, Tr> {
    std::basic_string<C, Tr> got; size_t left;
    bool once; explicit Limited(size_t l, bool once_ = false) : left(l), once(once_) {} // fails once, or from then on
    typename Tr::int_type overflow(typename Tr::int_type c) override { if (!left) { if (once) { once = false; left = ~size_t(0); } return Tr::eof(); } --left; got.push_back(Tr::to_char_type(c)); return Tr::not_eof(c); }
};

template <typename C, typename Tr = std::char_traits<C>> struct Tester {
    using V = sharemind::BasicStringView<C, Tr>; using S = std::basic_string<C, Tr>;
    pbt::Ctx & c; std::vector<C> alpha; bool hit = false;
    explicit Tester(pbt::Ctx & c_) : c(c_) {
        switch (c.draw(2)) { case 0: alpha = {C('a'), C('b')}; break; case 1: alpha = {C('a'), C('A'), C('b'), C(0), C('c')}; break; default: for (unsigned i = 0; i < 6; ++i) alpha.push_back((C)c.bits(8 * sizeof(C) > 21 ? 20 : 8 * sizeof(C))); }
    }
    S gen(size_t max, size_t mean = 5) { S s; size_t n = c.length(max, mean); for (size_t i = 0; i < n; ++i) s.push_back(c.pick(alpha)); return s; }
    size_t genPos(size_t n) { switch (c.weighted({6, 2, 1})) { case 0: return c.draw(n + 1); case 1: return kNpos - c.draw(2); default: return c.draw(1) ? kNpos / 2 : n + c.draw(5); } }
    static Exact<C> exact(S const & s) { Exact<C> e(s.size()); for (size_t i = 0; i < s.size(); ++i) e.p[i] = s[i]; return e; }
    static Exact<C> exact0(S const & s) { Exact<C> e(s.size() + 1); for (size_t i = 0; i <= s.size(); ++i) e.p[i] = s.c_str()[i]; return e; }
    static S noNul(S s) { auto i = s.find(C(0)); return i == S::npos ? s : s.substr(0, i); }
    void same(V v, S const & s, char const * what) { // identical characters, not merely equal under the traits
        bool ok = v.size() == s.size() && v.length() == s.size() && v.empty() == s.empty(); for (size_t i = 0; ok && i < s.size(); ++i) ok = v[i] == s[i] && v.data()[i] == s[i]; if (!ok) pbt::fail("%s gives a wrong view (size %zu, expected %zu)", what, v.size(), s.size());
    }
#define EQ(a, b) do { auto const x_ = (a); auto const y_ = (b); if (x_ != y_) pbt::fail("%s is %zd, expected %zd (size %zu)", #a, (ssize_t)x_, (ssize_t)y_, v.size()); } while (0)
    template <typename F, typename G> void sameOrThrow(F f, G g, char const * what) {
        bool t1 = false, t2 = false; decltype(f()) r1{}; S r2;
        try { r1 = f(); } catch (std::out_of_range const &) { t1 = true; }
        try { r2 = g(); } catch (std::out_of_range const &) { t2 = true; }
        CHECKM(t1 == t2, "%s: %s, expected %s", what, t1 ? "refused" : "accepted", t2 ? "refused" : "accepted");
        if (!t1) same(r1, r2, what);
    }
    template <typename F, typename G> void sgnOrThrow(F f, G g, char const * what) {
        bool t1 = false, t2 = false; int r1 = 0, r2 = 0;
        try { r1 = f(); } catch (std::out_of_range const &) { t1 = true; }
        try { r2 = g(); } catch (std::out_of_range const &) { t2 = true; }
        CHECKM(t1 == t2, "%s: %s, expected %s", what, t1 ? "refused" : "accepted", t2 ? "refused" : "accepted");
        CHECKM(sgn(r1) == sgn(r2), "%s is %d, expected %d", what, r1, r2);
    }
    V view(S const & s, Exact<C> const & e) { if (s.empty() && c.coin()) return c.coin() ? V() : V(static_cast<C const *>(nullptr), 0); return V(e.p.get(), e.n); }

    void search() {
        S const s = gen(40, 8); Exact<C> const e = exact(s); V const v = view(s, e);
        S n = c.coin() || s.empty() ? gen(6, 2) : s.substr(c.draw(s.size() - 1), 1 + c.draw(3)); if (c.chance(1, 8)) n = s; if (c.chance(1, 8)) n = s + n;
        Exact<C> const ne = exact(n); V const nv = view(n, ne); C const ch = c.pick(alpha); size_t const p = genPos(s.size()), k = c.draw(n.size());
        S const z = noNul(n); Exact<C> const ze = exact0(z); C const * const zp = ze.p.get();
        c.trace("size %zu, needle %zu, pos %zd, count %zu", s.size(), n.size(), (ssize_t)p, k);
#define FAM(vf, sf) do { EQ(v.vf(ch), s.sf(ch)); EQ(v.vf(ch, p), s.sf(ch, p)); EQ(v.vf(nv), s.sf(n)); EQ(v.vf(nv, p), s.sf(n, p)); EQ(v.vf(ne.p.get(), p, k), s.sf(n.data(), p, k)); EQ(v.vf(ne.p.get(), p, n.size()), s.sf(n.data(), p, n.size())); EQ(v.vf(zp), s.sf(z)); EQ(v.vf(zp, p), s.sf(z, p)); } while (0)
        FAM(find, find); FAM(rfind, rfind); FAM(findFirstOf, find_first_of); FAM(findLastOf, find_last_of); FAM(findFirstNotOf, find_first_not_of); FAM(findLastNotOf, find_last_not_of);
        bool const st = s.compare(0, n.size(), n) == 0 && s.size() >= n.size(), en = s.size() >= n.size() && s.compare(s.size() - n.size(), n.size(), n) == 0;
        bool const stz = s.size() >= z.size() && s.compare(0, z.size(), z) == 0, enz = s.size() >= z.size() && s.compare(s.size() - z.size(), z.size(), z) == 0;
        EQ(v.startsWith(nv), st); EQ(v.endsWith(nv), en); EQ(v.startsWith(ne.p.get(), n.size()), st); EQ(v.endsWith(ne.p.get(), n.size()), en); EQ(v.startsWith(zp), stz); EQ(v.endsWith(zp), enz);
        EQ(v.startsWith(ch), !s.empty() && Tr::eq(s.front(), ch)); EQ(v.endsWith(ch), !s.empty() && Tr::eq(s.back(), ch));
        // trimming
        auto in = [](S const & set, C x) { return set.find(x) != S::npos; };
        auto lt = [&](S const & set) { size_t i = 0; while (i < s.size() && in(set, s[i])) ++i; return s.substr(i); };
        auto rt = [&](S x, S const & set) { while (!x.empty() && in(set, x.back())) x.pop_back(); return x; };
        S const one(1, ch);
        same(v.leftTrimmed(ch), lt(one), "leftTrimmed(c)"); same(v.rightTrimmed(ch), rt(s, one), "rightTrimmed(c)"); same(v.trimmed(ch), rt(lt(one), one), "trimmed(c)");
        same(v.leftTrimmed(nv), lt(n), "leftTrimmed(v)"); same(v.rightTrimmed(nv), rt(s, n), "rightTrimmed(v)"); same(v.trimmed(nv), rt(lt(n), n), "trimmed(v)");
        same(v.leftTrimmed(zp), lt(z), "leftTrimmed(z)"); same(v.rightTrimmed(zp), rt(s, z), "rightTrimmed(z)"); same(v.trimmed(zp), rt(lt(z), z), "trimmed(z)");
        S const nk = n.substr(0, k);
        same(v.leftTrimmed(ne.p.get(), k), lt(nk), "leftTrimmed(p, n)"); same(v.rightTrimmed(ne.p.get(), k), rt(s, nk), "rightTrimmed(p, n)"); same(v.trimmed(ne.p.get(), k), rt(lt(nk), nk), "trimmed(p, n)");
        hit = s.size() > 2 && n.size() > 0 && s.find(n) != S::npos;
    }
    void access() {
        S const s = gen(30, 8); Exact<C> const e = exact(s); V const v = view(s, e); size_t const p = genPos(s.size()), n = genPos(s.size());
        c.trace("size %zu, %zd, %zd", s.size(), (ssize_t)p, (ssize_t)n);
        same(v, s, "view"); { S t(v.begin(), v.end()), u(v.rbegin(), v.rend()), t2(v.cbegin(), v.cend()), u2(v.crbegin(), v.crend()); same(v, t, "iteration"); same(v, t2, "iteration"); CHECK(u == S(s.rbegin(), s.rend())); CHECK(u2 == u); EQ(t.size(), s.size()); }
        if (!s.empty()) { EQ(v.front(), s.front()); EQ(v.back(), s.back()); }
        { bool t = false; try { C x = v.at(p); CHECK(p < s.size()); EQ(x, s[p]); } catch (std::out_of_range const &) { t = true; } EQ(t, p >= s.size()); }
        sameOrThrow([&] { return v.substr(p); }, [&] { return s.substr(p); }, "substr(p)"); sameOrThrow([&] { return v.substr(p, n); }, [&] { return s.substr(p, n); }, "substr(p, n)");
        auto need = [&](bool ok, S r) { if (!ok) throw std::out_of_range(""); return r; };
        bool const ok = p <= s.size(); size_t const pp = ok ? p : 0;
        sameOrThrow([&] { return v.left(p); }, [&] { return need(ok, s.substr(0, pp)); }, "left"); sameOrThrow([&] { return v.right(p); }, [&] { return need(ok, s.substr(s.size() - pp)); }, "right");
        sameOrThrow([&] { return v.leftClipped(p); }, [&] { return need(ok, s.substr(pp)); }, "leftClipped"); sameOrThrow([&] { return v.rightClipped(p); }, [&] { return need(ok, s.substr(0, s.size() - pp)); }, "rightClipped");
        bool const ok2 = ok && n <= s.size() - p; sameOrThrow([&] { return v.clipped(p, n); }, [&] { return need(ok2, ok2 ? s.substr(p, s.size() - p - n) : S()); }, "clipped");
        if (ok) { V w(v); w.removePrefix(p); same(w, s.substr(p), "removePrefix"); w = v; w.removeSuffix(p); same(w, s.substr(0, s.size() - p), "removeSuffix"); }
        { S o = gen(5, 2); Exact<C> oe = exact(o); V a(v), b(oe.p.get(), oe.n); a.swap(b); same(a, o, "swap"); same(b, s, "swap"); a = b; same(a, s, "assignment"); }
        { // copy
            size_t const m = c.draw(s.size() + 2); Exact<C> d(m); bool t1 = false, t2 = false; size_t r = 0, r2 = 0; S exp(m, C('?')); for (size_t i = 0; i < m; ++i) d.p[i] = C('?');
            try { r = v.copy(d.p.get(), m, p); } catch (std::out_of_range const &) { t1 = true; }
            try { r2 = s.copy(&exp[0], m, p); } catch (std::out_of_range const &) { t2 = true; }
            EQ(t1, t2); EQ(r, r2); for (size_t i = 0; i < m; ++i) EQ(d.p[i], exp[i]);
            Exact<C> all(s.size()); EQ(v.copy(all.p.get(), s.size()), s.size()); for (size_t i = 0; i < s.size(); ++i) EQ(all.p[i], s[i]);
        }
        { S t = v.str(); EQ(t.size(), s.size()); same(v, t, "str()"); auto t2 = v.str(std::allocator<C>()); EQ(t2.size(), s.size()); { Stateful<C> const al(1 + (int)c.draw(5)); auto t3 = v.str(al); EQ(t3.size(), s.size()); same(v, S(t3.begin(), t3.end()), "str(allocator)"); EQ(t3.get_allocator().id, al.id); } V fs(s); same(fs, s, "from string"); EQ((void const *)fs.data(), (void const *)s.data()); S z = noNul(s); Exact<C> ze = exact0(z); V zv(ze.p.get()); same(zv, z, "from C string"); V nul(static_cast<C const *>(nullptr)); CHECK(nul.empty()); }
        { EQ(hash_value(v), boost::hash_range(s.begin(), s.end())); EQ(boost::hash<V>()(v), hash_value(V(s))); }
        hit = ok && !s.empty();
    }
    void compare() {
        S const s = gen(20, 5); S o; switch (c.draw(3)) { case 0: o = s; break; case 1: o = gen(20, 5); break; case 2: o = s + gen(3, 1); break; default: o = s; if (!o.empty()) o[c.draw(o.size() - 1)] = c.pick(alpha); }
        Exact<C> const e = exact(s), oe = exact(o); V const v = view(s, e), w = view(o, oe); S const z = noNul(o); Exact<C> const ze = exact0(z); C const * const zp = ze.p.get();
        size_t const p = genPos(s.size()), n = genPos(s.size()), p2 = genPos(o.size()), n2 = genPos(o.size()), k = c.draw(o.size());
        c.trace("sizes %zu, %zu; %zd %zd %zd %zd", s.size(), o.size(), (ssize_t)p, (ssize_t)n, (ssize_t)p2, (ssize_t)n2);
        EQ(sgn(v.compare(w)), sgn(s.compare(o))); EQ(sgn(v.compare(oe.p.get(), k)), sgn(s.compare(o.substr(0, k)))); EQ(sgn(v.compare(zp)), sgn(s.compare(z)));
        sgnOrThrow([&] { return v.compare(p, n, w); }, [&] { return s.compare(p, n, o); }, "compare(p, n, v)"); sgnOrThrow([&] { return v.compare(p, n, w, p2, n2); }, [&] { return s.compare(p, n, o, p2, n2); }, "compare(p, n, v, p, n)");
        sgnOrThrow([&] { return v.compare(p, n, zp); }, [&] { return s.compare(p, n, z); }, "compare(p, n, z)"); sgnOrThrow([&] { return v.compare(p, n, oe.p.get(), k); }, [&] { return s.compare(p, n, o.data(), k); }, "compare(p, n, p, k)");
#define OPS(a, b, x, y) EQ(a == b, x == y); EQ(a != b, x != y); EQ(a < b, x < y); EQ(a <= b, x <= y); EQ(a > b, x > y); EQ(a >= b, x >= y);
        OPS(v, w, s, o) OPS(v, o, s, o) OPS(s, w, s, o) OPS(v, zp, s, z) OPS(zp, v, z, s)
        { // views of the same memory: a part of the view and the view
            size_t const a = c.draw(s.size()), b = c.draw(s.size() - a), d = c.draw(s.size() - a); V const x(e.p.get() + a, b), y(e.p.get() + a, d); S const xs = s.substr(a, b), ys = s.substr(a, d); EQ(sgn(x.compare(y)), sgn(xs.compare(ys))); OPS(x, y, xs, ys) V const f(e.p.get(), e.n); EQ(sgn(f.compare(y)), sgn(s.compare(ys))); OPS(f, y, s, ys) OPS(y, f, ys, s) EQ(f.find(y), s.find(ys)); EQ(f.rfind(y), s.rfind(ys)); EQ(f.startsWith(y), s.substr(0, d) == ys); EQ(f.endsWith(y), s.substr(s.size() - d) == ys); }
        if (v == w && std::is_same<Tr, std::char_traits<C>>::value) EQ(hash_value(v), hash_value(w));
        hit = s.size() > 1 && o.size() > 1;
    }
    void output() {
        S const s = gen(20, 5); Exact<C> const e = exact(s); V const v = view(s, e); std::streamsize const w = (std::streamsize)c.draw(30); unsigned const adj = (unsigned)c.draw(3); C const fill = c.pick(alpha);
        auto prep = [&](std::basic_ostream<C, Tr> & os) { if (adj == 1) os.setf(std::ios_base::left, std::ios_base::adjustfield); if (adj == 2) os.setf(std::ios_base::right, std::ios_base::adjustfield); if (adj == 3) os.setf(std::ios_base::internal, std::ios_base::adjustfield); os.fill(fill); os.width(w); };
        c.trace("size %zu width %zd adjust %u", s.size(), (ssize_t)w, adj);
        std::basic_ostringstream<C, Tr> a, b; prep(a); prep(b); auto & r = (a << v); CHECK(&r == &a); b << s; a << v; b << s;
        { S x = a.str(), y = b.str(); same(V(x), y, "stream output"); } EQ(a.width(), b.width()); EQ(a.good(), true);
        size_t const room = c.draw(c.coin() ? s.size() + 4 : (size_t)w + 2); bool const once = c.coin(); Limited<C, Tr> la(room, once), lb(room, once); std::basic_ostream<C, Tr> oa(&la), ob(&lb); prep(oa); prep(ob); oa << v; ob << s; { S x = la.got, y = lb.got; same(V(x), y, "stream output to a stream that fails"); } EQ(oa.good(), ob.good()); EQ(oa.fail(), ob.fail()); EQ(oa.width(), ob.width());
        { std::basic_ostringstream<C, Tr> f; f.setstate(std::ios_base::failbit); f << v; CHECK(f.str().empty()); }
        hit = (size_t)std::max<std::streamsize>(w, 0) > s.size() && !s.empty();
    }
    void run(unsigned what) { switch (what) { case 0: search(); break; case 1: access(); break; case 2: compare(); break; default: output(); } c.nontrivial(hit); }
};
void dispatch(pbt::Ctx & c, unsigned what) {
    switch (c.draw(4)) { case 0: Tester<char>(c).run(what); break; case 1: Tester<char, CiTraits>(c).run(what); break; case 2: Tester<wchar_t>(c).run(what); break; case 3: Tester<char16_t>(c).run(what == 3 ? 0 : what); break; default: Tester<char32_t>(c).run(what == 3 ? 1 : what); }
}
}
PBT_PROP(search, 150000, 6000000, "every search, prefix/suffix test and trimming overload; non-trivial if the (non-empty) needle occurs in a string longer than 2") { dispatch(c, 0); }
PBT_PROP(access, 120000, 5000000, "element access, sub-views, copying, conversion, hashing; non-trivial if the position is inside a non-empty string") { dispatch(c, 1); }
PBT_PROP(compare, 120000, 5000000, "every comparison; non-trivial if both strings have at least two characters") { dispatch(c, 2); }
PBT_PROP(output, 60000, 2000000, "stream insertion, also into streams that fail midway; non-trivial if a non-empty string was padded") { dispatch(c, 3); }
// Views of several gigabytes (of zeros, but for a few marks), whose sizes and
// positions do not fit 32 bits.
PBT_PROP(huge, 400, 4000, "always") {
    using V = sharemind::StringView; size_t const size = ((size_t)1 << 33) + 4096; static char * const m = [size] { void * p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : (char *)p; }();
    if (!m) { c.label("no address space"); c.draw(1000000000); c.nontrivial(); return; }
    auto big = [&] { switch (c.draw(3)) { case 0: return (size_t)c.draw(300); case 1: return ((size_t)1 << 32) + c.draw(600) - 300; case 2: return ((size_t)1 << 31) + c.draw(600) - 300; default: return size - c.draw(300); } };
    size_t const n = big(), k = big(); V const v(m, n), w(m, k); c.trace("sizes %zu and %zu", n, k); CHECK_EQ(v.size(), n); CHECK_EQ(v.length(), n); CHECK_EQ((size_t)(v.end() - v.begin()), n); CHECK_EQ(v.empty(), n == 0); CHECK(v.data() == m); size_t const least = std::min(n, k);
    // The common part is compared only when it is short.
    if (least <= 300) { int const want = n < k ? -1 : n > k; CHECK_EQ(sgn(v.compare(w)), want); CHECK_EQ(v == w, !want); CHECK_EQ(v != w, !!want); CHECK_EQ(v < w, want < 0); CHECK_EQ(v <= w, want <= 0); CHECK_EQ(v > w, want > 0); CHECK_EQ(v >= w, want >= 0); CHECK_EQ(sgn(v.compare(m, k)), want); CHECK_EQ(v.startsWith(w), k <= n); CHECK_EQ(v.endsWith(w), k <= n); if (k > n) { CHECK_EQ(v.find(w), kNpos); CHECK_EQ(v.rfind(w), kNpos); } }
    size_t const p = big(), q = c.coin() ? kNpos - c.draw(2) : big(); bool const in = p <= n, in2 = in && q <= n - p; size_t const rest = in ? n - p : 0;
    auto is = [&](V x, size_t at, size_t len, char const * what) { CHECKM(x.data() == m + at && x.size() == len, "%s gives %zu characters at %zd, expected %zu at %zu", what, x.size(), (ssize_t)(x.data() - m), len, at); };
    #define SUB(e, ok, at, len) { bool t = false; V x; try { x = e; } catch (std::out_of_range const &) { t = true; } CHECKM(t == !(ok), "%s", t ? #e " was refused" : #e " was accepted"); if (!t) is(x, at, len, #e); }
    SUB(v.substr(p), in, p, rest) SUB(v.substr(p, q), in, p, std::min(rest, q)) SUB(v.left(p), in, 0, p) SUB(v.right(p), in, n - p, p) SUB(v.leftClipped(p), in, p, rest) SUB(v.rightClipped(p), in, 0, rest) SUB(v.clipped(p, q), in2, p, rest - q)
    #undef SUB
    { bool t = false; try { CHECK(&v.at(p) == m + p); } catch (std::out_of_range const &) { t = true; } CHECK_EQ(t, p >= n); } if (p < n) CHECK(&v[p] == m + p); if (n) { CHECK(&v.front() == m); CHECK(&v.back() == m + n - 1); }
    if (in) { V x(v); x.removePrefix(p); is(x, p, rest, "removePrefix"); x = v; x.removeSuffix(p); is(x, 0, rest, "removeSuffix"); }
    { char d[8] = {1, 1, 1, 1, 1, 1, 1, 1}; bool t = false; size_t r = 0; try { r = v.copy(d, 7, p); } catch (std::out_of_range const &) { t = true; } CHECK_EQ(t, !in); if (!t) CHECK_EQ(r, std::min<size_t>(7, rest)); for (size_t i = 0; i < 8; ++i) CHECK_EQ(d[i], t || i >= r ? 1 : 0); }
    if (n > 0) { // searches which end close to where they begin, for a mark
        size_t const at = c.chance(1, 2) ? n - 1 - c.draw(std::min<size_t>(n - 1, 200)) : std::min(n - 1, big()); size_t const before = at - c.draw(std::min<size_t>(at, 200)), after = std::min(n - 1, at + c.draw(200)); m[at] = 'x'; struct Reset { char & ch; ~Reset() { ch = 0; } } reset{m[at]};
        CHECK_EQ(v.find('x', before), at); CHECK_EQ(v.find(V("x", 1), before), at); CHECK_EQ(v.findFirstOf('x', before), at); CHECK_EQ(v.findFirstOf("xy", before), at); CHECK_EQ(v.findFirstNotOf('\0', before), at); CHECK_EQ(v.rfind('x', after), at); CHECK_EQ(v.rfind("x", after), at); CHECK_EQ(v.findLastOf('x', after), at); CHECK_EQ(v.findLastOf("yx", after), at); CHECK_EQ(v.findLastNotOf('\0', after), at); CHECK_EQ(v.findFirstNotOf('x', at), at + 1 < n ? at + 1 : kNpos); CHECK_EQ(v.findLastNotOf('x', at), at ? at - 1 : kNpos);
        if (n - at <= 300) { CHECK_EQ(v.rfind('x'), at); CHECK_EQ(v.findLastOf('x'), at); CHECK_EQ(v.findLastNotOf('\0'), at); is(v.rightTrimmed('\0'), 0, at + 1, "rightTrimmed"); } if (at <= 300) { CHECK_EQ(v.find('x'), at); CHECK_EQ(v.findFirstOf('x'), at); is(v.leftTrimmed('\0'), at, n - at, "leftTrimmed"); }
        if (in && before <= p && p <= after) { int const want = p == at ? 1 : 0; if (rest) CHECK_EQ(sgn(v.compare(p, 1, V("", 1))), want); }
    }
    c.nontrivial();
}
PBT_PROP(literals, 100, 1000, "string view literals, also with embedded NULs; always non-trivial") {
    using namespace sharemind::StringViewLiterals; c.draw(1000000000);
    auto a = "a\0b"_sv; CHECK_EQ(a.size(), 3u); CHECK(a == std::string("a\0b", 3)); CHECK((L"xyz"_sv == std::wstring(L"xyz"))); CHECK((u"q"_sv.size() == 1 && u"q"_sv[0] == u'q')); CHECK((U""_sv.empty()));
    c.nontrivial();
}
