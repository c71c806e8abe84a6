// C15: dynamically sized packed structures against the concatenation of the
// bytes of their fields.
#include <sharemind/DynamicPackedStruct.h>
#include <sharemind/DynamicPackingInfo.h>
#include <sharemind/MaybeDynamicPackedStruct.h>
#include <sharemind/MaybeDynamicPackingInfo.h>
#include "newfail.h"
#include "packing.h"

namespace {
using namespace packing;
namespace sm = sharemind;
constexpr size_t MAX = std::numeric_limits<size_t>::max();

// The model's description of a field:
template <typename F> struct Field { using T = F; static constexpr bool dynamic = false, raw = false; static constexpr size_t min = 1, max = 1, unit = sizeof(F); };
template <size_t a, size_t b> struct Field<sm::DynamicFieldPlaceholder<a, b>> { using T = unsigned char; static constexpr bool dynamic = true, raw = true; static constexpr size_t min = a, max = b, unit = 1; };
template <typename E, size_t a, size_t b> struct Field<sm::DynamicVectorFieldPlaceholder<E, a, b>> { using T = E; static constexpr bool dynamic = true, raw = false; static constexpr size_t min = a, max = b, unit = sizeof(E); };
struct Desc { bool dynamic; size_t min, max, unit; };
__extension__ typedef unsigned __int128 u128;
size_t saturated(u128 v) { return v > MAX ? MAX : (size_t)v; }

void sameAddr(void const * a, void const * b, char const * what) { if (a != b) pbt::fail("%s is off by %td", what, static_cast<char const *>(a) - static_cast<char const *>(b)); }

// Calling with n sizes:
template <size_t N> struct Call {
    template <typename F, size_t ... Is> static auto go(F && f, size_t const * s, std::index_sequence<Is...>) -> decltype(f(s[Is]...)) { return f(s[Is]...); }
    template <typename F> static auto call(F && f, size_t const * s) { return go(f, s, std::make_index_sequence<N>()); }
};

// Field access, by kind of field. Q: the structure or an adaptor over the packing info.
template <size_t I, typename F, bool dynamic, bool raw> struct Access;
template <size_t I, typename F> struct Access<I, F, false, false> { // static field
    using T = typename Field<F>::T;
    template <typename Q> static void read(Q & q, Q const & cq, unsigned char const * at, Bytes const & want) {
        unsigned char const * const b = want.data(); CHECK(same<T>(cq.template get<I>(), b)); T const v = cq.template cref<I>(); CHECK(same<T>(v, b)); T const w = q.template ref<I>(); CHECK(same<T>(w, b)); T const x = *q.template ptr<I>(); CHECK(same<T>(x, b)); T const y = *cq.template constPtr<I>(); CHECK(same<T>(y, b));
        sameAddr(q.template voidPtr<I>(), at, "voidPtr"); sameAddr(cq.template constVoidPtr<I>(), at, "constVoidPtr"); sameAddr((void const *)(void *)q.template ptr<I>(), at, "ptr"); sameAddr((void const *)cq.template constPtr<I>(), at, "constPtr");
    }
    template <typename Q> static void write(Q & q, Bytes const & v, size_t, unsigned how) { T const t = fromBytes<T>(v.data()); switch (how) { case 0: { auto && r = q.template set<I>(t); T const back = r; CHECK(same<T>(back, v.data())); break; } case 1: q.template ref<I>() = t; break; case 2: *q.template ptr<I>() = t; break; default: std::memcpy(q.template voidPtr<I>(), v.data(), v.size()); } }
};
template <size_t I, typename F> struct Access<I, F, true, false> { // vector
    using T = typename Field<F>::T;
    template <typename Q> static void read(Q & q, Q const & cq, unsigned char const * at, Bytes const & want) {
        size_t const n = want.size() / sizeof(T); auto const p = q.template ptr<I>(); auto const cp = cq.template constPtr<I>();
        for (size_t i = 0; i < n; ++i) { unsigned char const * const b = want.data() + i * sizeof(T); T const v = p[(ptrdiff_t)i], w = *(cp + (ptrdiff_t)i); CHECK(same<T>(v, b)); CHECK(same<T>(w, b)); }
        if (n) { T const v = cq.template cref<I>(), w = q.template ref<I>(); CHECK(same<T>(v, want.data())); CHECK(same<T>(w, want.data())); }
        sameAddr(q.template voidPtr<I>(), at, "voidPtr"); sameAddr(cq.template constVoidPtr<I>(), at, "constVoidPtr"); sameAddr((void const *)(void *)p, at, "ptr"); sameAddr((void const *)cp, at, "constPtr");
    }
    template <typename Q> static void write(Q & q, Bytes const & v, size_t i, unsigned how) { T const t = fromBytes<T>(v.data()); switch (how) { case 0: q.template ptr<I>()[(ptrdiff_t)i] = t; break; case 1: if (i == 0) { q.template ref<I>() = t; break; } /* fallthrough */ case 2: *(q.template ptr<I>() + (ptrdiff_t)i) = t; break; default: std::memcpy(static_cast<char *>(q.template voidPtr<I>()) + i * sizeof(T), v.data(), v.size()); } }
};
template <size_t I, typename F> struct Access<I, F, true, true> { // raw bytes
    template <typename Q> static void read(Q & q, Q const & cq, unsigned char const * at, Bytes const & want) {
        void * const p = q.template ptr<I>(); void const * const cp = cq.template constPtr<I>(); sameAddr(p, at, "ptr"); sameAddr(cp, at, "constPtr"); sameAddr(q.template voidPtr<I>(), at, "voidPtr"); sameAddr(cq.template constVoidPtr<I>(), at, "constVoidPtr"); sameBytes(cp, want, "raw field");
    }
    template <typename Q> static void write(Q & q, Bytes const & v, size_t i, unsigned how) { static_cast<unsigned char *>(how % 2 ? q.template ptr<I>() : q.template voidPtr<I>())[i] = v[0]; }
};

// The packing info's functions over a foreign buffer, as a structure:
template <typename Info> struct Adaptor {
    typename Info::AccumArrayType const & sizes; void * data; bool member;
    template <size_t I> auto get() const { return member ? sizes.template get<I>(data) : Info::template get<I>(data, sizes); }
    template <size_t I> auto set(typename Info::template ElemType<I> const & v) { return member ? sizes.template set<I>(data, v) : Info::template set<I>(data, sizes, v); }
    template <size_t I> auto cref() const { return member ? sizes.template cref<I>(data) : Info::template cref<I>(data, sizes); }
    template <size_t I> auto ref() { return member ? sizes.template ref<I>(data) : Info::template ref<I>(data, sizes); }
    template <size_t I> auto ptr() { return member ? sizes.template ptr<I>(data) : Info::template ptr<I>(data, sizes); }
    template <size_t I> auto constPtr() const { return member ? sizes.template constPtr<I>(data) : Info::template constPtr<I>(data, sizes); }
    template <size_t I> void * voidPtr() { return member ? sizes.template voidPtr<I>(data) : Info::template voidPtr<I>(data, sizes); }
    template <size_t I> void const * constVoidPtr() const { return member ? sizes.template constVoidPtr<I>(data) : Info::template constVoidPtr<I>(data, sizes); }
};

template <typename Seq, typename ... Fs> struct Driver;
template <size_t ... Is, typename ... Fs> struct Driver<std::index_sequence<Is...>, Fs...> {
    static constexpr size_t N = sizeof...(Fs);
    static constexpr size_t countDyn() { bool const d[] = {Field<Fs>::dynamic..., false}; size_t n = 0; for (size_t i = 0; i < N; ++i) n += d[i]; return n; }
    static constexpr size_t D = countDyn();
    using P = sm::DynamicPackedStruct<Fs...>; using Info = sm::DynamicPackingInfo<Fs...>; using Acc = typename Info::AccumArrayType;
    struct Model { std::vector<Bytes> f; bool moved = false; Bytes all() const { Bytes r; for (auto & b : f) r.insert(r.end(), b.begin(), b.end()); return r; } size_t offset(size_t i) const { size_t r = 0; for (size_t j = 0; j < i; ++j) r += f[j].size(); return r; } };
    static Desc desc(size_t i) { Desc const d[] = {Desc{Field<Fs>::dynamic, +Field<Fs>::min, +Field<Fs>::max, +Field<Fs>::unit}..., Desc{}}; return d[i]; }
    pbt::Ctx & c;
    explicit Driver(pbt::Ctx & c_) : c(c_) {}
    struct S { size_t v[D + 1]; };
    S genSizes() { S s{}; size_t d = 0; for (size_t i = 0; i < N; ++i) if (desc(i).dynamic) { size_t const lo = desc(i).min, hi = std::min<size_t>(desc(i).max, lo + 12); s.v[d++] = lo + (c.chance(1, 5) ? 0 : c.draw(hi - lo)); } return s; }
    Model model(S const & s) { Model m; size_t d = 0; for (size_t i = 0; i < N; ++i) m.f.emplace_back(desc(i).unit * (desc(i).dynamic ? s.v[d++] : 1)); return m; }
    static P make(S const & s) { return Call<D>::call([](auto ... n) { return P(n...); }, s.v); }
    static P * makeNew(S const & s) { return Call<D>::call([](auto ... n) { return new P(n...); }, s.v); }
    static Acc acc(S const & s) { return Call<D>::call([](auto ... n) { return Acc(n...); }, s.v); }
    template <size_t I> using Ac = Access<I, typename std::tuple_element<I, std::tuple<Fs...>>::type, Field<typename std::tuple_element<I, std::tuple<Fs...>>::type>::dynamic, Field<typename std::tuple_element<I, std::tuple<Fs...>>::type>::raw>;
    template <typename Q> static void readAll(Q & q, unsigned char const * base, Model const & m) { int d[] = {0, (Ac<Is>::read(q, q, base + m.offset(Is), m.f[Is]), 0)...}; (void)d; }
    template <size_t I> static Bytes genElem(pbt::Ctx & c) { return gen<typename Field<typename std::tuple_element<I, std::tuple<Fs...>>::type>::T>(c); }
    // One write to a random field (of a structure or an adaptor) and the model:
    template <typename Q> bool writeOne(Q & q, Model & m) {
        using W = void (*)(Q &, Bytes const &, size_t, unsigned); using G = Bytes (*)(pbt::Ctx &); static W const ws[] = {&Ac<Is>::template write<Q>...}; static G const gs[] = {genElem<Is>...};
        size_t const i = c.draw(N - 1); Bytes const v = gs[i](c); size_t const n = m.f[i].size() / v.size(); if (!n) return false;
        size_t const j = c.draw(n - 1); unsigned const how = (unsigned)c.draw(3); c.trace("field %zu[%zu] via %u := %s", i, j, how, hex(v.data(), v.size()).c_str());
        std::copy(v.begin(), v.end(), m.f[i].begin() + (long)(j * v.size())); ws[i](q, v, j, how); return true;
    }
    void check(P & p, Model const & m) {
        if (m.moved) { CHECK(p.data() == nullptr); return; }
        P const & cp = p; Bytes const all = m.all(); CHECK_EQ(cp.size(), all.size()); unsigned char const * const base = static_cast<unsigned char const *>(cp.data()); sameAddr(p.data(), base, "data"); sameAddr(cp.constData(), base, "constData");
        sameAddr(p.endVoidPtr(), base + all.size(), "endVoidPtr"); sameAddr(cp.endVoidPtr(), base + all.size(), "endVoidPtr"); sameAddr(cp.endConstVoidPtr(), base + all.size(), "endConstVoidPtr");
        size_t const offs[] = {cp.template elemOffset<Is>()..., 0}; for (size_t i = 0; i < N; ++i) if (offs[i] != m.offset(i)) pbt::fail("offset of field %zu is %zu, expected %zu", i, offs[i], m.offset(i));
        sameBytes(base, all, "structure"); readAll(p, base, m);
    }
    void sizes() { // sizes, offsets and validity, for any sizes
        u128 min = 0, max = 0; for (size_t i = 0; i < N; ++i) { min += (u128)desc(i).min * desc(i).unit; max += (u128)desc(i).max * desc(i).unit; }
        CHECK_EQ(Info::minSizeInBytes(), saturated(min)); CHECK_EQ(Info::maxSizeInBytes(), saturated(max)); CHECK_EQ(P::minSizeInBytes(), saturated(min)); CHECK_EQ(P::maxSizeInBytes(), saturated(max)); CHECK_EQ(Acc::minSizeInBytes(), saturated(min)); CHECK_EQ(Acc::maxSizeInBytes(), saturated(max));
        CHECK_EQ(Info::numFields(), +N); CHECK_EQ(P::numFields(), +N); CHECK_EQ(Acc::numFields(), +N); CHECK_EQ(Info::numDynamicFields(), +D); CHECK_EQ(P::numDynamicFields(), +D); CHECK_EQ(Acc::numDynamicFields(), +D); CHECK_EQ(Info::hasDynamicFields(), D > 0); CHECK_EQ((bool)P::hasDynamicFields(), D > 0); CHECK_EQ(Acc::hasDynamicFields(), D > 0);
        S s{}; bool valid = true; u128 total = 0; size_t d = 0;
        for (size_t i = 0; i < N; ++i) { Desc const k = desc(i); size_t n = 1; if (k.dynamic) { switch (c.draw(5)) { case 0: n = k.min; break; case 1: n = k.max; break; case 2: n = k.min - 1; break; case 3: n = k.max + 1; break; case 4: n = (size_t)c.bits(64); break; default: n = k.min + c.draw(20); } if (c.chance(1, 20)) n = MAX / k.unit + 1 - c.draw(2); s.v[d++] = n; valid = valid && n >= k.min && n <= k.max; } total += (u128)n * k.unit; }
        bool const v = Call<D>::call([](auto ... n) { return Info::validSizes(n...); }, s.v); CHECK_EQ(v, valid);
        size_t const t = Call<D>::call([](auto ... n) { return Info::sizeInBytes(n...); }, s.v); CHECK_EQ(t, saturated(total));
        if (total > MAX / 2) { c.label("too large"); if (valid) { bool refused = false; try { P p(make(s)); } catch (std::bad_alloc const &) { refused = true; } CHECK(refused); } }
        else { size_t accum[D + 1] = {}; Call<D>::call([&accum](auto ... n) { Info::populateAccumArray(accum, n...); return 0; }, s.v); Acc const a(acc(s)); CHECK_EQ(Info::sizeFromAccum(a), (size_t)total); CHECK_EQ(a.structSizeInBytes(), (size_t)total); for (size_t i = 0; i < D; ++i) CHECK_EQ(accum[i], a[i]); size_t const offs[] = {a.template elemOffset<Is>()..., 0}, offs2[] = {Info::template elemOffset<Is>(a)..., 0}; u128 o = 0; d = 0; for (size_t i = 0; i < N; ++i) { CHECK_EQ(offs[i], (size_t)o); CHECK_EQ(offs2[i], (size_t)o); o += (u128)desc(i).unit * (desc(i).dynamic ? s.v[d++] : 1); } }
        if (D && (valid || total > MAX)) c.nontrivial();
    }
    void foreign() { // packing info over a buffer of any alignment
        S const s = genSizes(); Model m = model(s); Acc const a0(acc(s)); Acc a(acc(genSizes())); a = a0; Acc const copy(a); size_t const total = m.all().size(); Buffer buf(total, c.draw(15)); Adaptor<Info> q{copy, buf.data(), c.coin()}; size_t n = 0, w = 0; while (c.more(n, 5, 30)) { ++n; w += writeOne(q, m); sameBytes(buf.data(), m.all(), "buffer"); } readAll(q, buf.data(), m);
        void * const d = buf.data(); void const * const cd = d; unsigned char const * const e = buf.data() + total; sameAddr(copy.endVoidPtr(d), e, "endVoidPtr"); sameAddr(copy.endVoidPtr(cd), e, "endVoidPtr"); sameAddr(copy.endConstVoidPtr(cd), e, "endConstVoidPtr"); sameAddr(Info::endVoidPtr(d, copy), e, "endVoidPtr"); sameAddr(Info::endVoidPtr(cd, copy), e, "endVoidPtr"); sameAddr(Info::endConstVoidPtr(cd, copy), e, "endConstVoidPtr");
        if (w >= 2) c.nontrivial();
    }
    void history() {
        std::unique_ptr<P> p[2]; Model m[2]; size_t n = 0, writes = 0, assigns = 0;
        auto fresh = [&](int k) { S const s = genSizes(); p[k].reset(makeNew(s)); m[k] = model(s); std::memset(p[k]->data(), 0, m[k].all().size()); };
        fresh(0); fresh(1);
        while (c.more(n, 10, 50)) {
            ++n; int const k = (int)c.draw(1); P & x = *p[k]; P & y = *p[1 - k]; unsigned const op = c.weighted({10, 1, 2, 2, 2, 2, 2, 1, 1});
            c.trace("%d: op %u", k, op);
            switch (op) {
            case 0: if (!m[k].moved) writes += writeOne(x, m[k]); break;
            case 1: fresh(k); break;
            case 2: { P & r = (x = static_cast<P const &>(y)); CHECK(&r == &x); m[k] = m[1 - k]; ++assigns; break; }
            case 3: { P & r = (x = std::move(y)); CHECK(&r == &x); m[k] = m[1 - k]; m[1 - k].moved = true; ++assigns; break; }
            case 4: p[k].reset(new P(static_cast<P const &>(y))); m[k] = m[1 - k]; break;
            case 5: p[k].reset(new P(y)); m[k] = m[1 - k]; break;
            case 6: p[k].reset(new P(std::move(y))); m[k] = m[1 - k]; m[1 - k].moved = true; break;
            case 7: { P const & self = x; x = self; break; }
            case 8: if (c.coin() && !m[k].moved) { auto d = x.release(); CHECK(x.data() == nullptr); if (m[k].all().size()) sameBytes(d.get(), m[k].all(), "released data"); m[k].moved = true; } else { newfail::At f(0); bool t = false; try { P z(static_cast<P const &>(x)); } catch (std::bad_alloc const &) { t = true; } CHECK_EQ(t, !m[k].moved); if (!t) { newfail::countdown = -1; break; } t = false; newfail::countdown = 0; try { y = static_cast<P const &>(x); newfail::countdown = -1; m[1 - k] = m[k]; } catch (std::bad_alloc const &) { t = true; } newfail::countdown = -1; if (t) c.label("assignment out of memory"); } break;
            }
            check(*p[0], m[0]); check(*p[1], m[1]);
            if (!m[0].moved && !m[1].moved) { bool const eq = m[0].all() == m[1].all(); CHECK_EQ(*p[0] == *p[1], eq); CHECK_EQ(*p[0] != *p[1], !eq); }
        }
        if (writes >= 2 && assigns) c.nontrivial();
    }
};
template <size_t ... Is, typename ... Fs> constexpr size_t Driver<std::index_sequence<Is...>, Fs...>::N;
template <size_t ... Is, typename ... Fs> constexpr size_t Driver<std::index_sequence<Is...>, Fs...>::D;

template <size_t a = 0, size_t b = MAX> using R = sm::DynamicFieldPlaceholder<a, b>;
template <typename T, size_t a = 0, size_t b = MAX> using A = sm::DynamicVectorFieldPlaceholder<T, a, b>;
template <typename ... Fs> struct L { using D = Driver<std::index_sequence_for<Fs...>, Fs...>; };
using Inner = sm::PackedStruct<char, int>;
using Lists = std::tuple<L<int64_t, char, R<>, char, A<int32_t>, uint16_t>, L<R<>>, L<A<double>>, L<char, A<uint16_t, 1, 3>, R<2, 9>, A<Inner, 0, 5>>, L<R<0, 4>, R<>, R<1>>, L<A<uint64_t>, uint64_t>, L<Inner, std::array<unsigned char, 3>, bool, A<Odd>, char>, L<char, int, double>, L<A<int, 2, 2>, char, R<3, 3>, short>, L<uint16_t, A<char>, uint16_t, A<uint16_t>, uint16_t, A<uint32_t>, uint16_t>>;
template <void (*... f)(pbt::Ctx &)> struct Fns;
template <typename T, size_t ... Is> void pickHistory(pbt::Ctx & c, std::index_sequence<Is...>) { size_t const n = c.draw(sizeof...(Is) - 1); int d[] = {(n == Is ? (typename std::tuple_element<Is, T>::type::D(c).history(), 0) : 0)...}; (void)d; }
template <typename T, size_t ... Is> void pickSizes(pbt::Ctx & c, std::index_sequence<Is...>) { size_t const n = c.draw(sizeof...(Is) - 1); int d[] = {(n == Is ? (typename std::tuple_element<Is, T>::type::D(c).sizes(), 0) : 0)...}; (void)d; }
template <typename T, size_t ... Is> void pickForeign(pbt::Ctx & c, std::index_sequence<Is...>) { size_t const n = c.draw(sizeof...(Is) - 1); int d[] = {(n == Is ? (typename std::tuple_element<Is, T>::type::D(c).foreign(), 0) : 0)...}; (void)d; }
using Seq = std::make_index_sequence<std::tuple_size<Lists>::value>;

// Type-level parts:
template <typename X, typename Y> constexpr bool is() { return std::is_same<X, Y>::value; }
static_assert(is<sm::MaybeDynamicPackedStruct<char, R<>>, sm::DynamicPackedStruct<char, R<>>>() && is<sm::MaybeDynamicPackedStruct<char, int>, sm::PackedStruct<char, int>>() && is<sm::MaybeDynamicPackedStruct<>, sm::PackedStruct<>>(), "");
static_assert(is<sm::MaybeDynamicPackingInfo<A<int>, char>, sm::DynamicPackingInfo<A<int>, char>>() && is<sm::MaybeDynamicPackingInfo<char, int>, sm::PackingInfo<char, int>>(), "");
static_assert(is<sm::DynamicPackingInfo<char, int, R<>, int>::StaticPrefixType, sm::PackingInfo<char, int>>() && is<sm::DynamicPackingInfo<R<>, int>::StaticPrefixType, sm::PackingInfo<>>() && is<sm::DynamicPackingInfo<char, R<>, int>::PrefixType<2>, sm::DynamicPackingInfo<char, R<>>>() && is<sm::DynamicPackingInfo<char, R<>, int>::SuffixType<2>, sm::DynamicPackingInfo<R<>, int>>(), "");
static_assert(is<sm::DynamicPackedStruct<char, A<int>, int>::SuffixType<1>, sm::DynamicPackedStruct<int>>() && is<sm::DynamicPackedStruct<char, A<int>, int>::PrefixType<2>, sm::DynamicPackedStruct<char, A<int>>>(), "");
static_assert(sm::DynamicPackingInfo<char, R<>, int, A<int>>::sizeInBytes(3u, 4u) == 24 && sm::DynamicPackingInfo<char, R<1, 3>>::validSizes(3u) && !sm::DynamicPackingInfo<char, R<1, 3>>::validSizes(4u), "");
}

PBT_PROP(histories, 200000, 5000000, "at least two writes and an assignment") { pickHistory<Lists>(c, Seq()); }
PBT_PROP(sizes, 300000, 9000000, "valid or overflowing sizes of dynamic fields") { pickSizes<Lists>(c, Seq()); }
PBT_PROP(foreign, 200000, 5000000, "at least two writes") { pickForeign<Lists>(c, Seq()); }
PBT_PROP(nothing, 1, 1, "every case") { // no fields at all
    sm::DynamicPackedStruct<> a; sm::DynamicPackedStruct<> b(a); CHECK_EQ(a.size(), (size_t)0); CHECK(a == b); CHECK(!(a != b)); b = a; CHECK_EQ(b.size(), (size_t)0); CHECK(b.endVoidPtr() == b.data()); CHECK_EQ((sm::DynamicPackingInfo<>::sizeInBytes()), (size_t)0); c.nontrivial();
}
