// C10: BitVec against std::vector<bool>.
#include <sharemind/BitVector.h>
#include <algorithm>
#include <deque>
#include <list>
#include <sstream>
#include <iterator>
#include <vector>
#include "pbt.h"

namespace {
using Model = std::vector<bool>;

template <typename T> struct StatefulAlloc {
    using value_type = T; int id;
    explicit StatefulAlloc(int i = 0) : id(i) {}
    template <typename U> StatefulAlloc(StatefulAlloc<U> const & o) : id(o.id) {}
    T * allocate(size_t n) { return static_cast<T *>(::operator new(n * sizeof(T))); }
    void deallocate(T * p, size_t) { ::operator delete(p); }
    bool operator==(StatefulAlloc const & o) const { return id == o.id; }
    bool operator!=(StatefulAlloc const & o) const { return id != o.id; }
};

struct Message { // a message made of 64-bit words
    std::vector<uint64_t> w; size_t pos = 0;
    void write(uint64_t v) { w.push_back(v); }
    bool read(uint64_t & v) { if (pos >= w.size()) return false; v = w[pos++]; return true; }
};
struct Rng {
    pbt::Ctx & c; std::vector<uint8_t> bytes;
    void fillBytes(void * p, size_t n) { for (size_t i = 0; i < n; ++i) { uint8_t b = (uint8_t)c.bits(8); static_cast<uint8_t *>(p)[i] = b; bytes.push_back(b); } }
};

template <typename B, typename A = std::allocator<B>, typename S = std::vector<B, A>> struct Tester {
    using V = sharemind::BitVec<B, A, S>;
    static constexpr size_t W = 8 * sizeof(B);
    static constexpr bool contiguous = std::is_same<S, std::vector<B, A>>::value;
    pbt::Ctx & c;
    V v[2]; Model m[2]; bool unaligned = false, boundary = false;
    explicit Tester(pbt::Ctx & c_) : c(c_) {}

    size_t genSize(size_t max) { switch (c.draw(3)) { case 0: return c.draw(3); case 1: return c.draw(max); case 2: return std::min<size_t>(max, W * c.draw(4)); default: { size_t s = W * (1 + c.draw(3)) + c.draw(2); return std::min(max, s - 1); } } }
    Model genBits(size_t n) { Model r(n); unsigned k = (unsigned)c.draw(4); for (size_t i = 0; i < n; ++i) r[i] = k == 0 ? false : k == 1 ? true : c.coin(); return r; }

    static void same(V const & v, Model const & m) {
        CHECK_EQ(v.size(), m.size()); CHECK_EQ(v.empty(), m.empty());
        for (size_t i = 0; i < m.size(); ++i) if (v[i] != m[i]) pbt::fail("bit %zu of %zu is %d, expected %d", i, m.size(), (int)v[i], (int)m[i]);
        if (!m.empty()) { CHECK_EQ((bool)v.front(), (bool)m.front()); CHECK_EQ((bool)v.back(), (bool)m.back()); CHECK_EQ((bool)v.at(m.size() - 1), (bool)m.back()); }
    }
    template <typename T> void refused(T & v, size_t i) { bool t = false; try { (void)v.at(i); } catch (std::out_of_range const &) { t = true; } CHECK(t); }
    void check() {
        for (int k = 0; k < 2; ++k) { same(v[k], m[k]); V const & cv = v[k]; size_t const i = m[k].size() + (c.coin() ? c.draw(2 * W) : 0); refused(v[k], i); refused(cv, i); }
        CHECK_EQ(v[0] == v[1], m[0] == m[1]); CHECK_EQ(v[0] != v[1], m[0] != m[1]);
        V fresh(m[0].begin(), m[0].end()); CHECK(fresh == v[0]); CHECK(v[0] == fresh); CHECK(!(fresh != v[0]));
        if (!m[0].empty()) { size_t i = c.draw(m[0].size() - 1); fresh[i].flip(); CHECK(fresh != v[0]); }
    }
    static A alloc(int, std::true_type) { return A(); }
    void construct(int k) {
        size_t const n = genSize(200); Model bits;
        switch (c.draw(6)) {
        case 0: c.trace("%d = V(%zu)", k, n); v[k] = V(n); m[k] = Model(n); break;
        case 1: { bool b = c.coin(); c.trace("%d = V(%zu, %d)", k, n, b); v[k] = V(n, b); m[k] = Model(n, b); break; }
        case 2: c.trace("%d = V(vector of %zu)", k, n); bits = genBits(n); v[k] = V(bits.begin(), bits.end()); m[k] = bits; break;
        case 3: { bits = genBits(n); std::list<int> l(bits.begin(), bits.end()); c.trace("%d = V(list of %zu)", k, n); v[k] = V(l.begin(), l.end()); m[k] = bits; break; }
        case 4: { bits = genBits(n); std::stringstream s; for (bool b : bits) s << b << ' '; c.trace("%d = V(stream of %zu)", k, n); v[k] = V(std::istream_iterator<int>(s), std::istream_iterator<int>()); m[k] = bits; break; }
        case 5: c.trace("%d = V()", k); v[k] = V(); m[k].clear(); break;
        default: c.trace("%d cleared", k); if (c.coin()) v[k].clear(); else v[k].clear_and_release(); m[k].clear();
        }
    }
    void single(int k) {
        if (m[k].empty()) return;
        size_t const i = c.coin() ? c.draw(m[k].size() - 1) : m[k].size() - 1 - c.draw(std::min<size_t>(m[k].size() - 1, 2)), j = c.draw(m[k].size() - 1); bool const x = c.coin(); unsigned const op = (unsigned)c.draw(7);
        c.trace("%d bit %zu op %u %d", k, i, op, x);
        switch (op) {
        case 0: v[k][i] = x; m[k][i] = x; break;
        case 1: v[k].at(i) = v[k][j]; m[k][i] = (bool)m[k][j]; break;
        case 2: v[k][i].flip(); m[k][i] = !m[k][i]; break;
        case 3: v[k][i] |= x; m[k][i] = m[k][i] | x; break;
        case 4: v[k].at(i) &= x; m[k][i] = m[k][i] & x; break;
        case 5: v[k][i] ^= x; m[k][i] = m[k][i] ^ x; break;
        case 6: v[k][i] -= x; if (x) m[k][i] = false; break;
        default: { auto r(v[k][i]); auto r2(r); r2 = x; m[k][i] = x; CHECK_EQ((bool)r, x); CHECK_EQ(~r, !x); r.flip().flip(); }
        }
    }
    void assignBits(int k, std::true_type) {
        size_t n = c.draw(12); std::vector<uint8_t> by(n); for (auto & b : by) b = (uint8_t)c.bits(8);
        c.trace("%d assignBits of %zu bytes", k, n);
        v[k].resize(8 * n); m[k].assign(8 * n, false); v[k].assignBits(by.begin(), by.end()); // little-endian hosts
        for (size_t i = 0; i < 8 * n; ++i) m[k][i] = by[i / 8] >> i % 8 & 1;
        if (n) { CHECK(std::memcmp(v[k].data(), by.data(), n) == 0); V const & cv = v[k]; CHECK(cv.data() == v[k].data()); }
        size_t w = c.draw(3); std::vector<B> bl(w); for (auto & b : bl) b = (B)c.bits(W);
        v[k].resize(W * w); m[k].assign(W * w, false); v[k].assignBits(bl.begin(), bl.end());
        for (size_t i = 0; i < W * w; ++i) m[k][i] = bl[i / W] >> i % W & 1;
        if (c.coin()) { Rng r{c, {}}; v[k].randomize(r); CHECK_EQ(r.bytes.size(), W / 8 * w); for (size_t i = 0; i < W * w; ++i) m[k][i] = r.bytes[i / 8] >> i % 8 & 1; }
    }
    void assignBits(int, std::false_type) {}
    void run() {
        for (size_t n = 0; c.more(n, 15, 120); ++n) {
            int const k = (int)c.draw(1), o = 1 - k;
            switch (c.draw(13)) {
            case 0: construct(k); break;
            case 1: { size_t cnt = 1 + c.draw(W + 1); c.trace("%d push_back x%zu", k, cnt); for (size_t i = 0; i < cnt; ++i) { bool b = c.coin(); v[k].push_back(b); m[k].push_back(b); } break; }
            case 2: { size_t cnt = c.draw(W + 1); c.trace("%d pop_back x%zu", k, cnt); for (size_t i = 0; i < cnt && !m[k].empty(); ++i) { v[k].pop_back(); m[k].pop_back(); } break; }
            case 3: { // resize keeps the common bits; the values of new ones are not specified
                size_t const s = genSize(200), old = m[k].size(); c.trace("%d resize(%zu)", k, s); v[k].resize(s); m[k].resize(s); CHECK_EQ(v[k].size(), s);
                for (size_t i = old; i < s; ++i) { bool b = v[k][i]; m[k][i] = b; } break; }
            case 4: { if (m[k].size() > 2000) break; c.trace("%d append(%zu bits to %zu)", k, m[o].size(), m[k].size()); if (m[k].size() % W) unaligned = unaligned || !m[o].empty();
                v[k].append(v[o]); m[k].insert(m[k].end(), m[o].begin(), m[o].end()); break; }
            case 5: { if (m[k].size() > 300) break; c.trace("%d append(itself)", k); v[k].append(v[k]); Model t(m[k]); m[k].insert(m[k].end(), t.begin(), t.end()); break; }
            case 6: single(k); single(k); break;
            case 7: { unsigned op = (unsigned)c.draw(2); c.trace("%d %s all", k, op == 0 ? "set" : op == 1 ? "reset" : "flip"); V & r = op == 0 ? v[k].set() : op == 1 ? v[k].reset() : v[k].flip(); CHECK(&r == &v[k]); for (size_t i = 0; i < m[k].size(); ++i) m[k][i] = op == 0 ? true : op == 1 ? false : !m[k][i]; break; }
            case 8: { // bitwise
                Model b2; if (m[0].size() != m[1].size()) { b2 = genBits(m[k].size()); v[o].resize(b2.size()); if (c.coin()) v[o].assign(b2.begin(), b2.end()); else { std::list<int> l(b2.begin(), b2.end()); v[o].assign(l.begin(), l.end()); } m[o] = b2; }
                unsigned op = (unsigned)c.draw(2); c.trace("%d op%u %d (%zu bits)", k, op, o, m[k].size()); Model r(m[k]);
                for (size_t i = 0; i < r.size(); ++i) r[i] = op == 0 ? m[k][i] & m[o][i] : op == 1 ? m[k][i] | m[o][i] : m[k][i] ^ m[o][i];
                V t(op == 0 ? v[k] & v[o] : op == 1 ? v[k] | v[o] : v[k] ^ v[o]); same(t, r); same(v[k], m[k]);
                if (c.coin()) { V & rr = op == 0 ? v[k] &= v[o] : op == 1 ? v[k] |= v[o] : v[k] ^= v[o]; CHECK(&rr == &v[k]); m[k] = r; CHECK(v[k] == t); }
                break; }
            case 9: { // copies, moves, swap
                switch (c.draw(6)) {
                case 0: { c.trace("copy %d to %d", k, o); V t(v[k]); same(t, m[k]); t.flip(); same(v[k], m[k]); v[o] = v[k]; m[o] = m[k]; break; }
                case 1: { c.trace("move %d to %d", k, o); V t(std::move(v[k])); same(t, m[k]); CHECK(v[k].empty()); v[o] = std::move(t); m[o] = m[k]; m[k].clear(); CHECK(v[k] == V()); break; }
                case 2: c.trace("swap"); v[k].swap(v[o]); m[k].swap(m[o]); break;
                case 3: { c.trace("move assign %d to %d", k, o); v[o] = std::move(v[k]); m[o] = m[k]; m[k].clear(); break; }
                case 4: { c.trace("use %d after moving from it", k); V t(std::move(v[k])); m[k].clear(); v[k].push_back(true); m[k].push_back(true); break; }
                case 5: { c.trace("move assign to a fresh vector with another allocator"); V t(A(mk<A>(1))); t = std::move(v[k]); same(t, m[k]); m[k].clear(); same(v[k], m[k]); v[k].push_back(true); m[k].push_back(true); break; }
                default: if (m[0].size() == m[1].size()) { c.trace("%d.assign(%d)", k, o); v[k].assign(v[o]); m[k] = m[o]; } }
                break; }
            case 10: { size_t s = genSize(150); bool b = c.coin(); c.trace("%d assign(%zu, %d)", k, s, b); v[k].assign(s, b); m[k].assign(s, b); break; }
            case 11: assignBits(k, std::integral_constant<bool, contiguous>()); break;
            case 12: { // serialization
                Message msg; size_t pre = c.draw(2); for (size_t i = 0; i < pre; ++i) msg.write(c.bits(64)); msg.pos = pre;
                v[k].serialize(msg); CHECK_EQ(msg.w.size(), pre + 1 + (m[k].size() + 63) / 64); CHECK_EQ(msg.w[pre], m[k].size());
                for (size_t i = 0; i < m[k].size(); ++i) CHECKM((msg.w[pre + 1 + i / 64] >> i % 64 & 1) == m[k][i], "bit %zu", i);
                Message cut = msg, other = msg; size_t const end = msg.w.size(); msg.write(c.bits(64));
                V t(m[k].size(), c.coin()); CHECK(t.deserialize(msg)); CHECK_EQ(msg.pos, end); same(t, m[k]); CHECK(t == v[k]);
                size_t s2 = genSize(200); if (s2 != m[k].size()) { V u(s2, true); CHECK(!u.deserialize(other)); CHECK_EQ(u.size(), s2); }
                { V u(m[k].size()); cut.w.resize(pre + c.draw(end - pre - 1)); CHECK(!u.deserialize(cut)); CHECK_EQ(u.size(), m[k].size()); }
                if (c.coin()) v[o] = std::move(t), m[o] = m[k];
                c.trace("%d serialized", k); break; }
            default: single(k); single(k); single(k);
            }
            if (m[k].size() && m[k].size() % W == 0) boundary = true;
            check();
        }
        c.nontrivial(unaligned && boundary);
    }
    template <typename AA> static typename std::enable_if<std::is_same<AA, StatefulAlloc<B>>::value, AA>::type mk(int i) { return AA(i); }
    template <typename AA> static typename std::enable_if<!std::is_same<AA, StatefulAlloc<B>>::value, AA>::type mk(int) { return AA(); }
};
}

PBT_PROP(history, 120000, 5000000, "random operations on two bit vectors of one of seven block/store types, each mirrored on std::vector<bool>; non-trivial if a non-empty vector was appended at an unaligned size and a size was a multiple of the block width") {
    switch (c.draw(6)) {
    case 0: Tester<uint8_t>(c).run(); break;
    case 1: Tester<uint64_t>(c).run(); break;
    case 2: Tester<uint16_t>(c).run(); break;
    case 3: Tester<uint32_t>(c).run(); break;
    case 4: Tester<uint8_t, std::allocator<uint8_t>, std::deque<uint8_t>>(c).run(); break;
    case 5: Tester<uint8_t, StatefulAlloc<uint8_t>>(c).run(); break;
    default: Tester<uint64_t, StatefulAlloc<uint64_t>>(c).run();
    }
}
