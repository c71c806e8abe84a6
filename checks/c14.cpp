// C14: packed structures, their accessors and unaligned pointers and references
// against the concatenation of the fields' bytes.
#include <sharemind/PackedStruct.h>
#include <sharemind/PackedStructAccessor.h>
#include <sharemind/ConstPackedStructAccessor.h>
#include <sharemind/PackingInfo.h>
#include <sharemind/UnalignedPointer.h>
#include <sharemind/UnalignedReference.h>
#include <sharemind/ConstUnalignedReference.h>
#include <sys/mman.h>
#include "packing.h"

namespace {
using namespace packing;
namespace sm = sharemind;

template <typename ... Ts> struct Sizes { static constexpr size_t n = sizeof...(Ts); static size_t size(size_t i) { size_t const s[] = {sizeof(Ts)..., 0}; return s[i]; } static size_t offset(size_t i) { size_t r = 0; for (size_t j = 0; j < i; ++j) r += size(j); return r; } static size_t total() { return offset(n); } };

template <typename A, typename B> void sameAddr(A const * a, B const * b, char const * what) { if (static_cast<void const *>(a) != static_cast<void const *>(b)) pbt::fail("%s is off by %td", what, reinterpret_cast<char const *>(a) - reinterpret_cast<char const *>(b)); }

// Reading field I of a const or mutable structure or accessor in every way.
template <size_t I, typename T, typename P> void readConst(P const & p, unsigned char const * base, Bytes const & m, size_t off) {
    unsigned char const * const b = m.data() + off;
    CHECK(same<T>(p.template get<I>(), b)); T const v = p.template cref<I>(); CHECK(same<T>(v, b));
    T const w = *p.template constPtr<I>(); CHECK(same<T>(w, b)); T const x = p.template constPtr<I>()[0]; CHECK(same<T>(x, b));
    sameAddr(p.template constVoidPtr<I>(), base + off, "constVoidPtr"); sameAddr(static_cast<void const *>(p.template constPtr<I>()), base + off, "constPtr");
    T const y = p.template ref<I>(); CHECK(same<T>(y, b)); T const z = *p.template ptr<I>(); CHECK(same<T>(z, b)); sameAddr(p.template voidPtr<I>(), base + off, "voidPtr");
}
template <size_t I, typename T, typename P> void readMutable(P & p, unsigned char const * base, Bytes const & m, size_t off) {
    unsigned char const * const b = m.data() + off;
    CHECK(same<T>(p.template get<I>(), b)); T const v = p.template ref<I>(); CHECK(same<T>(v, b)); T const w = *p.template ptr<I>(); CHECK(same<T>(w, b)); T const w2 = p.template cref<I>(); CHECK(same<T>(w2, b)); T const w3 = *p.template constPtr<I>(); CHECK(same<T>(w3, b));
    sameAddr(p.template voidPtr<I>(), base + off, "voidPtr"); sameAddr(static_cast<void *>(p.template ptr<I>()), base + off, "ptr");
    sm::UnalignedPointer<T> q(p.template ptr<I>()); sm::UnalignedReference<T> r(p.template ref<I>()); T const x = *q, y = r; CHECK(same<T>(x, b)); CHECK(same<T>(y, b));
}
template <size_t I, typename T, typename P> void write(P & p, Bytes const & v, unsigned how) {
    T const t = fromBytes<T>(v.data());
    switch (how) {
    case 0: p.template set<I>(t); break;
    case 1: p.template ref<I>() = t; break;
    case 2: *p.template ptr<I>() = t; break;
    case 3: p.template ptr<I>()[0] = t; break;
    case 4: std::memcpy(p.template voidPtr<I>(), v.data(), v.size()); break;
    default: { T tmp[1] = {t}; sm::UnalignedReference<T> const from(tmp); auto const to = p.template ref<I>(); sm::UnalignedReference<T> to2(to); if (how == 5) to2 = from; else { sm::ConstUnalignedReference<T> const cfrom(tmp); to2 = cfrom; } }
    }
}
template <typename P, typename S> void sizes(P const & p, unsigned char const * base) {
    CHECK_EQ(p.size(), S::total()); CHECK_EQ(P::staticSize(), S::total()); CHECK_EQ(P::minSizeInBytes(), S::total()); CHECK_EQ(P::maxSizeInBytes(), S::total());
    CHECK_EQ(P::numFields(), +S::n); CHECK_EQ(P::numDynamicFields(), (size_t)0); CHECK_EQ(P::hasDynamicFields(), false);
    sameAddr(p.endVoidPtr(), base + S::total(), "endVoidPtr"); sameAddr(p.endConstVoidPtr(), base + S::total(), "endConstVoidPtr"); sameAddr(p.data(), base, "data"); sameAddr(p.constData(), base, "constData");
}

template <typename Seq, typename ... Ts> struct Driver;
template <size_t ... Is, typename ... Ts> struct Driver<std::index_sequence<Is...>, Ts...> {
    using S = Sizes<Ts...>; using P = sm::PackedStruct<Ts...>; using A = sm::PackedStructAccessor<Ts...>; using C = sm::ConstPackedStructAccessor<Ts...>; using I = sm::PackingInfo<Ts...>;
    template <size_t J> using T = typename P::template ElemType<J>;
    pbt::Ctx & c;
    explicit Driver(pbt::Ctx & c_) : c(c_) {}
    template <size_t J> static Bytes genField(pbt::Ctx & c) { return gen<T<J>>(c); }
    template <typename Q> static void readAllMutable(Q & q, unsigned char const * base, Bytes const & m) { int d[] = {0, (readMutable<Is, T<Is>>(q, base, m, S::offset(Is)), 0)...}; (void)d; }
    template <typename Q> static void readAllConst(Q const & q, unsigned char const * base, Bytes const & m) { int d[] = {0, (readConst<Is, T<Is>>(q, base, m, S::offset(Is)), 0)...}; (void)d; sizes<Q, S>(q, base); }
    template <size_t J> static void info1(void * data, Bytes const & m) {
        unsigned char const * const b = m.data() + S::offset(J); unsigned char * const at = static_cast<unsigned char *>(data) + S::offset(J); void const * const cd = data;
        static_assert(std::is_same<typename I::template ElemType<J>, T<J>>::value && std::is_same<T<J>, typename A::template ElemType<J>>::value && std::is_same<T<J>, typename C::template ElemType<J>>::value, "");
        CHECK_EQ(+I::template ElemOffset<J>::value, S::offset(J)); CHECK_EQ(+P::template ElemOffset<J>::value, S::offset(J)); CHECK_EQ(+A::template ElemOffset<J>::value, S::offset(J));
        sameAddr(I::template voidPtr<J>(data), at, "PackingInfo::voidPtr"); sameAddr(I::template constVoidPtr<J>(cd), at, "PackingInfo::constVoidPtr");
        CHECK(same<T<J>>(I::template get<J>(cd), b)); T<J> const v = I::template cref<J>(cd); CHECK(same<T<J>>(v, b)); T<J> const w = I::template ref<J>(data); CHECK(same<T<J>>(w, b)); T<J> const x = *I::template ptr<J>(data); CHECK(same<T<J>>(x, b)); T<J> const y = *I::template constPtr<J>(cd); CHECK(same<T<J>>(y, b));
        CHECK_EQ(I::template PrefixType<J>::size(), S::offset(J)); CHECK_EQ(I::template SuffixType<S::n - J>::size(), S::total() - S::offset(J)); CHECK_EQ(P::template PrefixType<J>::staticSize(), S::offset(J)); CHECK_EQ(P::template SuffixType<S::n - J>::staticSize(), S::total() - S::offset(J));
    }
    static void info(void * data, Bytes const & m) {
        void const * const cd = data; CHECK_EQ(I::size(), S::total()); CHECK_EQ(I::sizeInBytes(), S::total()); CHECK_EQ(I::minSizeInBytes(), S::total()); CHECK_EQ(I::maxSizeInBytes(), S::total()); CHECK_EQ(I::numFields(), +S::n); CHECK_EQ(I::numDynamicFields(), (size_t)0); CHECK_EQ(I::hasDynamicFields(), false);
        unsigned char const * const e = static_cast<unsigned char const *>(cd) + S::total(); sameAddr(I::endVoidPtr(data), e, "end"); sameAddr(I::endVoidPtr(cd), e, "end"); sameAddr(I::endConstVoidPtr(cd), e, "end");
        int d[] = {0, (info1<Is>(data, m), 0)...}; (void)d;
    }
    template <size_t J> static void infoSet(void * data, Bytes const & v) { I::template set<J>(data, fromBytes<T<J>>(v.data())); }
    void run() {
        static_assert(sizeof(P) == I::size() && alignof(P) == 1 && std::is_trivially_copyable<P>::value, "packed");
        size_t const total = S::total(), off = c.draw(15); Buffer buf(total, off), other(total, c.draw(15));
        // The structure lives at any address, the accessors refer to another buffer:
        P * const p = new (buf.data()) P; P const & cp = *p; std::memset(p->data(), 0, total); A a(c.coin() ? A(other.data()) : p->refs()); bool const foreign = a.data() != p->data();
        Bytes m(total), o(total); size_t written = 0, shared = 0;
        using Writer = void (*)(P &, Bytes const &, unsigned); using AWriter = void (*)(A const &, Bytes const &, unsigned); using IWriter = void (*)(void *, Bytes const &); using G = Bytes (*)(pbt::Ctx &);
        Writer const pw[] = {write<Is, T<Is>, P>...}; AWriter const aw[] = {write<Is, T<Is>, A const>...}; IWriter const iw[] = {infoSet<Is>...}; G const g[] = {genField<Is>...};
        while (c.more(written, 6, 30)) {
            size_t const i = c.draw(S::n - 1); Bytes const v = g[i](c); unsigned const how = (unsigned)c.draw(6), via = (unsigned)c.draw(3); ++written;
            c.trace("field %zu (size %zu) via %u/%u := %s", i, v.size(), via, how, hex(v.data(), v.size()).c_str());
            bool const toOther = foreign && (via == 1 || via == 2); if (!toOther && foreign) ++shared;
            std::copy(v.begin(), v.end(), (toOther ? o : m).begin() + (long)S::offset(i));
            if (via == 0) pw[i](*p, v, how); else if (via == 1) aw[i](a, v, how); else if (via == 2) iw[i](a.data(), v); else { A const t = p->refs(); aw[i](t, v, how); }
            sameBytes(buf.data(), m, "structure"); sameBytes(other.data(), o, "foreign buffer");
        }
        Bytes const & am = foreign ? o : m; unsigned char const * const ab = foreign ? other.data() : buf.data();
        readAllMutable(*p, buf.data(), m); readAllConst(cp, buf.data(), m); readAllMutable(a, ab, am); A const & ca = a; readAllMutable(ca, ab, am); sizes<A, S>(a, ab); sizes<A, S>(ca, ab);
        C const k(a); readAllConst(k, ab, am); readAllConst(cp.refs(), buf.data(), m); readAllConst(cp.crefs(), buf.data(), m); C k2(buf.data()); readAllConst(k2, buf.data(), m); info(const_cast<unsigned char *>(ab), am); info(buf.data(), m);
        k2 = k; readAllConst(k2, ab, am); A a2(buf.data()); CHECK_EQ(a2 == a, m == am); CHECK_EQ(a2 != a, m != am); CHECK_EQ(k == C(buf.data()), m == am); CHECK_EQ(k != C(buf.data()), m != am); a2 = a; sameAddr(a2.data(), ab, "assigned accessor");
        sameAddr(p->dataUint8(), buf.data(), "dataUint8"); sameAddr(cp.dataUint8(), buf.data(), "dataUint8"); sameAddr(cp.constDataUint8(), buf.data(), "constDataUint8"); sameAddr(p->dataChar(), buf.data(), "dataChar"); sameAddr(cp.dataChar(), buf.data(), "dataChar"); sameAddr(cp.constDataChar(), buf.data(), "constDataChar"); sameAddr(p->dataUnsignedChar(), buf.data(), "dataUnsignedChar"); sameAddr(cp.dataUnsignedChar(), buf.data(), "dataUnsignedChar"); sameAddr(cp.constDataUnsignedChar(), buf.data(), "constDataUnsignedChar");
        P copy(cp); CHECK(copy == cp); CHECK(!(copy != cp)); sameBytes(copy.data(), m, "copy");
        size_t const x = c.draw(total - 1); unsigned char & b = copy.dataUint8()[x]; b = (unsigned char)(b ^ (1u << c.draw(7))); CHECK(copy != cp); CHECK(!(copy == cp)); sameBytes(buf.data(), m, "original of a changed copy"); copy = cp; CHECK(copy == cp);
        c.label(foreign ? "accessor over a foreign buffer" : "accessor over the structure"); if (off % 8) c.label("misaligned");
        if (written >= 2) c.nontrivial();
    }
};
template <typename ... Ts> void drive(pbt::Ctx & c) { Driver<std::index_sequence_for<Ts...>, Ts...>(c).run(); }
}

PBT_PROP(structs, 300000, 6000000, "at least two writes") {
    using Inner = sm::PackedStruct<char, int, uint64_t>;
    static void (* const fs[])(pbt::Ctx &) = {
        drive<char, int>, drive<uint8_t, uint16_t, uint32_t, uint64_t>, drive<double, char, float, bool, int16_t>, drive<Odd, char, Wide, char, Enum>, drive<char, Inner, std::array<uint16_t, 3>, short>,
        drive<uint64_t>, drive<char, char, char>, drive<bool, void *, bool, unsigned>, drive<int, int, int, int, int, int, int, int, int>, drive<std::array<unsigned char, 7>, uint32_t, std::array<unsigned char, 1>, int64_t>,
        drive<sm::PackedStruct<bool, Inner>, char, Inner> };
    fs[c.draw(sizeof(fs) / sizeof(*fs) - 1)](c);
}

namespace {
// Unaligned pointers against indices into an array of packed elements.
template <typename T> void pointers(pbt::Ctx & c) {
    using UP = sm::UnalignedPointer<T>; using CP = sm::UnalignedPointer<T const>;
    // Distances are signed, and those of random access iterators can be added back:
    CHECKM(std::is_signed<typename UP::difference_type>::value && std::is_signed<typename CP::difference_type>::value , "the distance between pointers cannot be negative");
    size_t const n = 1 + c.draw(9); Buffer buf(n * sizeof(T), c.draw(15)); Bytes m(n * sizeof(T));
    auto addr = [&](ptrdiff_t i) { return static_cast<void *>(buf.data() + i * (ptrdiff_t)sizeof(T)); };
    ptrdiff_t const N = (ptrdiff_t)n; ptrdiff_t idx[3] = {c.range<ptrdiff_t>(0, N), c.range<ptrdiff_t>(0, N), c.range<ptrdiff_t>(0, N)}; UP ps[3] = {addr(idx[0]), addr(idx[1]), addr(idx[2])}; size_t ops = 0; bool negative = false;
    auto fail = [](char const * what) { pbt::fail("%s", what); }; (void)fail;
    while (c.more(ops, 12, 60)) {
        ++ops; unsigned const k = (unsigned)c.draw(2), l = (unsigned)c.draw(2); ptrdiff_t const j = c.range<ptrdiff_t>(-idx[k], N - idx[k]); unsigned const op = (unsigned)c.draw(13); negative |= j < 0;
        c.trace("p%u (at %td), p%u, %td: op %u", k, idx[k], l, j, op);
        switch (op) {
        case 0: if (idx[k] < N) { auto & r = ++ps[k]; CHECK(&r == &ps[k]); ++idx[k]; } break;
        case 1: if (idx[k] > 0) { auto & r = --ps[k]; CHECK(&r == &ps[k]); --idx[k]; } break;
        case 2: if (idx[k] < N) { UP const r = ps[k]++; sameAddr((void *)r, addr(idx[k]), "p++"); ++idx[k]; } break;
        case 3: if (idx[k] > 0) { UP const r = ps[k]--; sameAddr((void *)r, addr(idx[k]), "p--"); --idx[k]; } break;
        case 4: { auto & r = (ps[k] += j); CHECK(&r == &ps[k]); idx[k] += j; break; }
        case 5: { auto & r = (ps[k] -= -j); CHECK(&r == &ps[k]); idx[k] += j; break; }
        case 6: sameAddr((void *)(ps[k] + j), addr(idx[k] + j), "p + n"); sameAddr((void *)(j + ps[k]), addr(idx[k] + j), "n + p"); sameAddr((void *)(ps[k] - (-j)), addr(idx[k] + j), "p - n"); if (j >= 0) { sameAddr((void *)(ps[k] + (size_t)j), addr(idx[k] + j), "p + n (unsigned)"); sameAddr((void *)(ps[k] - (size_t)(idx[k])), addr(0), "p - n (unsigned)"); } break;
        case 7: case 8: { // write through
            if (idx[k] + j >= N) break;
            Bytes const v = gen<T>(c); T const t = fromBytes<T>(v.data()); std::copy(v.begin(), v.end(), m.begin() + (idx[k] + j) * (ptrdiff_t)sizeof(T)); if (op == 7) ps[k][j] = t; else *(ps[k] + j) = t; break; }
        case 9: if (idx[k] < N && idx[l] < N) { *ps[k] = *ps[l]; std::memmove(m.data() + idx[k] * (ptrdiff_t)sizeof(T), m.data() + idx[l] * (ptrdiff_t)sizeof(T), sizeof(T)); } break;
        case 10: ps[k] = ps[l]; idx[k] = idx[l]; break;
        case 11: { UP const t(ps[k]); CP const t2(ps[k]); CHECK(t == ps[k]); CHECK(t2 == ps[k]); CHECK(ps[k] == t2); CHECK_EQ(t2 - ps[l], idx[k] - idx[l]); CHECK_EQ(ps[l] - t2, idx[l] - idx[k]); CHECK_EQ(t2 < ps[l], idx[k] < idx[l]); CHECK_EQ(t2 >= ps[l], idx[k] >= idx[l]); break; }
        case 12: CHECK_EQ(static_cast<bool>(ps[k]), true); CHECK_EQ(static_cast<bool>(UP(nullptr)), false); CHECK_EQ(!ps[k], false); break;
        default: { UP t(ps[k]); UP u(std::move(t)); std::swap(u, ps[l]); sameAddr((void *)u, addr(idx[l]), "swapped"); idx[l] = idx[k]; }
        }
        for (int x = 0; x < 3; ++x) { sameAddr((void *)ps[x], addr(idx[x]), "pointer"); if (idx[x] < N) { T const v = *ps[x], w = ps[x][0], y = *CP(ps[x]); unsigned char const * const b = m.data() + idx[x] * (ptrdiff_t)sizeof(T); CHECK(same<T>(v, b)); CHECK(same<T>(w, b)); CHECK(same<T>(y, b)); } if (idx[x] > 0) { T const v = ps[x][-1]; CHECK(same<T>(v, m.data() + (idx[x] - 1) * (ptrdiff_t)sizeof(T))); } }
        UP const & a = ps[k], & b = ps[l]; ptrdiff_t const i = idx[k], h = idx[l];
        CHECK_EQ(a - b, i - h); CHECK_EQ(a == b, i == h); CHECK_EQ(a != b, i != h); CHECK_EQ(a < b, i < h); CHECK_EQ(a <= b, i <= h); CHECK_EQ(a > b, i > h); CHECK_EQ(a >= b, i >= h);
        sameBytes(buf.data(), m, "array");
    }
    if (ops >= 3 && n >= 2 && negative) c.nontrivial();
}
// Assigning values of other types through a reference converts like an assignment.
template <typename T, typename U> void convert(pbt::Ctx & c) {
    Buffer buf(sizeof(T) + 8, c.draw(15)); std::memset(buf.data(), 0x5a, buf.size); Bytes m(buf.size, 0x5a); U u = (U)c.range<int>(-100, 100); T want = (T)u; std::memcpy(m.data() + 4, &want, sizeof(T));
    sm::UnalignedReference<T> r(buf.data() + 4); switch (c.draw(3)) { case 0: r = u; break; case 1: r = static_cast<U const &>(u); break; case 2: r = std::move(u); break; default: { U arr[1] = {u}; sm::UnalignedReference<U> const s(arr); r = static_cast<U>(s); } }
    sameBytes(buf.data(), m, "assignment of another type"); c.nontrivial();
}
}
namespace {
// Distances which do not fit 32 bits, in elements or in bytes.
template <typename T> void far(pbt::Ctx & c) {
    using UP = sm::UnalignedPointer<T>; size_t const size = ((size_t)1 << 33) + 4096; static char * const m = [size] { void * p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : (char *)p; }();
    if (!m) { c.label("no address space"); c.draw(1000000000); c.nontrivial(); return; }
    size_t const off = c.draw(15); ptrdiff_t const N = (ptrdiff_t)((size - off) / sizeof(T)); auto any = [&]() -> ptrdiff_t { ptrdiff_t const s = (ptrdiff_t)sizeof(T), d = c.range<ptrdiff_t>(-100, 100); switch (c.draw(4)) { case 0: return c.range<ptrdiff_t>(0, 100); case 1: return N - 1 - c.range<ptrdiff_t>(0, 100); case 2: return std::min(N - 1, ((ptrdiff_t)1 << 31) / s + d); case 3: return std::min(N - 1, ((ptrdiff_t)1 << 32) / s + d); default: return std::min(N - 1, ((ptrdiff_t)1 << 31) + d); } };
    auto addr = [&](ptrdiff_t i) { return static_cast<void *>(m + off + i * (ptrdiff_t)sizeof(T)); };
    ptrdiff_t const i = any(), j = any(), n = j - i; c.trace("from %td to %td, elements of %zu", i, j, sizeof(T)); UP const p(addr(i)), q(addr(j)); CHECK_EQ(q - p, n); CHECK_EQ(p - q, -n); CHECK_EQ(sm::UnalignedPointer<T const>(addr(j)) - p, n);
    sameAddr((void *)(p + n), addr(j), "p + n"); sameAddr((void *)(n + p), addr(j), "n + p"); sameAddr((void *)(p - (-n)), addr(j), "p - n"); { UP x(p); x += n; sameAddr((void *)x, addr(j), "+="); x -= n; sameAddr((void *)x, addr(i), "-="); }
    CHECK_EQ(p < q, i < j); CHECK_EQ(p > q, i > j); CHECK_EQ(p <= q, i <= j); CHECK_EQ(p >= q, i >= j); CHECK_EQ(p == q, i == j); CHECK_EQ(p != q, i != j);
    Bytes const v = gen<T>(c); T const t = fromBytes<T>(v.data()); p[n] = t; CHECKM(std::memcmp(addr(j), v.data(), sizeof(T)) == 0, "p[n] is not the element"); T const u = p[n]; CHECK(same<T>(u, v.data())); std::memset(addr(j), 0, sizeof(T)); c.nontrivial();
}
// What refers to overlapping bytes is assigned by value.
template <typename T> void overlapping(pbt::Ctx & c) {
    size_t const room = 3 * sizeof(T); Buffer buf(room, c.draw(15)); Bytes m(room); for (size_t i = 0; i < room; i += sizeof(T)) { Bytes const v = gen<T>(c); std::copy(v.begin(), v.end(), m.begin() + (long)i); } std::memcpy(buf.data(), m.data(), room);
    size_t const a = c.draw(room - sizeof(T)), b = c.draw(room - sizeof(T)); c.trace("from %zu to %zu, elements of %zu", a, b, sizeof(T)); unsigned const how = (unsigned)c.draw(2); sm::UnalignedReference<T> to(buf.data() + b), from(buf.data() + a); sm::UnalignedPointer<T> pt(buf.data() + b), pf(buf.data() + a);
    if (how == 0) to = from; else if (how == 1) *pt = *pf; else { sm::ConstUnalignedReference<T> const cfrom(buf.data() + a); to = cfrom; }
    std::memmove(m.data() + b, m.data() + a, sizeof(T)); sameBytes(buf.data(), m, "assignment within"); if (a != b && (a < b ? b - a : a - b) < sizeof(T)) c.nontrivial();
}
}
PBT_PROP(farPointers, 3000, 40000, "every case") { switch (c.draw(3)) { case 0: far<char>(c); break; case 1: far<int>(c); break; case 2: far<std::array<unsigned char, 3>>(c); break; default: far<uint64_t>(c); } }
PBT_PROP(overlaps, 20000, 400000, "the bytes overlap") { switch (c.draw(4)) { case 0: overlapping<uint32_t>(c); break; case 1: overlapping<uint64_t>(c); break; case 2: overlapping<std::array<unsigned char, 3>>(c); break; case 3: overlapping<std::array<unsigned char, 200>>(c); break; default: overlapping<std::array<unsigned char, 40>>(c); } }
PBT_PROP(pointers, 300000, 6000000, "at least three operations on two or more elements with a negative offset") {
    static void (* const fs[])(pbt::Ctx &) = {pointers<char>, pointers<int>, pointers<uint64_t>, pointers<Odd>, pointers<std::array<unsigned char, 3>>, pointers<double>, pointers<Enum>, pointers<sm::PackedStruct<char, int>>, pointers<std::array<uint64_t, 3>>, pointers<std::array<unsigned char, 40>>, pointers<sm::PackedStruct<double, char, double, int>>};
    fs[c.draw(sizeof(fs) / sizeof(*fs) - 1)](c);
}
PBT_PROP(conversions, 10000, 200000, "every case") {
    static void (* const fs[])(pbt::Ctx &) = {convert<int, double>, convert<double, int>, convert<uint64_t, int>, convert<int, uint64_t>, convert<char, int>, convert<int64_t, signed char>, convert<float, double>, convert<long double, int>};
    fs[c.draw(sizeof(fs) / sizeof(*fs) - 1)](c);
}
