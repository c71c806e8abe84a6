// C01: the SPSC circular buffer against a model deque, single-threaded.
#include <cstring>
#include <limits>
#include <memory>
#include <mutex>
#include <sharemind/CircBufferSCSP.h>
#include <deque>
#include <string>
#include "pbt.h"

namespace {

struct Three { uint8_t a, b, c; };

template <typename T> struct Conv {
    static T mk(uint64_t i) { return static_cast<T>(i); }
    static uint64_t id(T const & t) { return static_cast<uint64_t>(t); }
    static uint64_t norm(uint64_t i) { return static_cast<uint64_t>(static_cast<T>(i)); }
};
template <> struct Conv<Three> {
    static Three mk(uint64_t i) { return Three{uint8_t(i), uint8_t(i >> 8), uint8_t(i ^ 0x5a)}; }
    static uint64_t id(Three const & t) { CHECK((uint8_t)(t.a ^ 0x5a) == t.c); return t.a | t.b << 8; }
    static uint64_t norm(uint64_t i) { return i & 0xffff; }
};
template <> struct Conv<std::string> {
    static std::string mk(uint64_t i) { return "element number " + std::to_string(i); }
    static uint64_t id(std::string const & t) { CHECK(t.size() > 15); return std::stoull(t.substr(15)); }
    static uint64_t norm(uint64_t i) { return i; }
};

struct OtherMutex { std::mutex m; void lock() { m.lock(); } void unlock() { m.unlock(); } bool try_lock() { return m.try_lock(); } };

template <typename T, typename Locking> struct Tester {
    using Buf = sharemind::CircBufferSCSP<T, Locking>;
    using A = typename Buf::ValueAllocType; // unsigned char for void
    using Cv = Conv<A>;

    pbt::Ctx & c;
    size_t const cap;
    Buf b;
    std::deque<uint64_t> m;
    uint64_t next = 1;
    bool wrapped = false, filled = false;

    Tester(pbt::Ctx & c_, size_t cap_) : c(c_), cap(cap_), b(cap_) {}

    A * at(size_t i) { return static_cast<A *>(b.arrayStart()) + i; }

    void check() {
        CHECK_EQ(b.bufferSize(), cap);
        CHECK_EQ(b.dataAvailable(), m.size());
        CHECK_EQ(b.spaceAvailable(), cap - m.size());
        CHECK_EQ(b.empty(), m.empty());
        CHECK_EQ(b.full(), m.size() == cap);
        CHECK(b.readOffset() < cap); CHECK(b.writeOffset() < cap);
        size_t u = 99999;
        CHECK_EQ(b.dataAvailable(u), m.size());
        CHECK_EQ(u, b.dataAvailableUntilBufferEnd());
        CHECK_EQ(u, std::min(m.size(), cap - b.readOffset()));
        u = 99999;
        CHECK_EQ(b.spaceAvailable(u), cap - m.size());
        CHECK_EQ(u, b.spaceAvailableUntilBufferEnd());
        CHECK_EQ(u, std::min(cap - m.size(), cap - b.writeOffset()));
        CHECK_EQ((b.readOffset() + m.size()) % cap, b.writeOffset());
        // the stored elements are the model's
        for (size_t i = 0; i < m.size(); ++i) CHECK_EQ(Cv::id(*at((b.readOffset() + i) % cap)), m[i]);
        if (m.size() == cap) filled = true;
        if (!m.empty() && b.readOffset() + m.size() > cap) wrapped = true;
    }

    uint64_t fresh() { return Cv::norm(next++); }
    void pop(uint64_t got) { CHECK(!m.empty()); CHECK_EQ(got, m.front()); m.pop_front(); }

    void step() {
        size_t const n0 = m.size(), sp = cap - n0;
        switch (c.weighted({4, 4, 3, 3, 3, 3, 1})) {
        case 0: { // copying write
            size_t const n = 1 + c.draw(cap > 300 && c.coin() ? 2 * cap : std::min<size_t>(2 * cap + 1, 40));
            std::unique_ptr<A[]> d(new A[n]); std::vector<uint64_t> ids;
            for (size_t i = 0; i < n; ++i) { ids.push_back(fresh()); d[i] = Cv::mk(ids[i]); }
            size_t const r = b.write(static_cast<T const *>(d.get()), n);
            c.trace("write(%zu) -> %zu", n, r);
            CHECK_EQ(r, std::min(n, sp));
            for (size_t i = 0; i < n; ++i) CHECK_EQ(Cv::id(d[i]), ids[i]); // source untouched
            m.insert(m.end(), ids.begin(), ids.begin() + r);
            break; }
        case 1: { // copying read
            size_t const n = 1 + c.draw(cap > 300 && c.coin() ? 2 * cap : std::min<size_t>(2 * cap + 1, 40));
            std::unique_ptr<A[]> d(new A[n + 1]); A const guard = Cv::mk(0xabcd);
            for (size_t i = 0; i <= n; ++i) d[i] = guard;
            size_t const r = b.read(static_cast<T *>(d.get()), n);
            c.trace("read(%zu) -> %zu", n, r);
            CHECK_EQ(r, std::min(n, n0));
            for (size_t i = 0; i < r; ++i) pop(Cv::id(d[i]));
            for (size_t i = r; i <= n; ++i) CHECK_EQ(Cv::id(d[i]), Cv::id(guard));
            break; }
        case 2: { // in-place write, also across the wrap
            bool const contiguous = c.coin();
            size_t const mx = contiguous ? b.spaceAvailableUntilBufferEnd() : sp;
            size_t const k = c.draw(mx);
            for (size_t i = 0; i < k; ++i) { m.push_back(fresh()); *at((b.writeOffset() + i) % cap) = Cv::mk(m.back()); }
            size_t const wo = (b.writeOffset() + k) % cap;
            switch (c.draw(2)) {
            case 0: CHECK_EQ(b.haveWritten(k), cap - m.size()); break;
            case 1: CHECK_EQ(b.haveWrittenRetUbe(k), std::min(cap - m.size(), cap - wo)); break;
            default: b.haveWrittenNoRet(k);
            }
            CHECK_EQ(b.writeOffset(), wo);
            c.trace("haveWritten(%zu)", k);
            break; }
        case 3: { // in-place read, also across the wrap
            bool const contiguous = c.coin();
            size_t const mx = contiguous ? b.dataAvailableUntilBufferEnd() : n0;
            size_t const k = c.draw(mx);
            for (size_t i = 0; i < k; ++i) pop(Cv::id(*at((b.readOffset() + i) % cap)));
            size_t const ro = (b.readOffset() + k) % cap;
            switch (c.draw(2)) {
            case 0: CHECK_EQ(b.haveRead(k), m.size()); break;
            case 1: CHECK_EQ(b.haveReadRetUbe(k), std::min(m.size(), cap - ro)); break;
            default: b.haveReadNoRet(k);
            }
            CHECK_EQ(b.readOffset(), ro);
            c.trace("haveRead(%zu)", k);
            break; }
        case 4: { // actor write
            size_t left = c.draw(cap + 1), calls = 0;
            size_t const want = left;
            bool partial = false;
            auto * me = this;
            auto const actor = [me, &left, &calls, &partial](T * p, size_t n) noexcept -> size_t {
                CHECK(!partial); // never called again after a partial transfer
                CHECK(n > 0);
                CHECK(static_cast<void *>(p) == static_cast<void *>(me->at(me->b.writeOffset())));
                CHECK_EQ(n, me->b.spaceAvailableUntilBufferEnd());
                size_t const k = std::min(n, left);
                for (size_t i = 0; i < k; ++i) { me->m.push_back(me->fresh()); static_cast<A *>(p)[i] = Cv::mk(me->m.back()); }
                left -= k; ++calls; partial = k < n;
                return k;
            };
            size_t const r = b.write(actor);
            c.trace("write(actor of %zu) -> %zu in %zu calls", want, r, calls);
            CHECK_EQ(r, std::min(want, sp));
            CHECK_EQ(r, m.size() - n0);
            break; }
        case 5: { // actor read
            size_t left = c.draw(cap + 1), calls = 0;
            size_t const want = left;
            bool partial = false;
            auto * me = this;
            auto const actor = [me, &left, &calls, &partial](T const * p, size_t n) noexcept -> size_t {
                CHECK(!partial);
                CHECK(n > 0);
                CHECK(static_cast<void const *>(p) == static_cast<void const *>(me->at(me->b.readOffset())));
                CHECK_EQ(n, me->b.dataAvailableUntilBufferEnd());
                size_t const k = std::min(n, left);
                for (size_t i = 0; i < k; ++i) me->pop(Cv::id(static_cast<A const *>(p)[i]));
                left -= k; ++calls; partial = k < n;
                return k;
            };
            size_t const r = b.read(actor);
            c.trace("read(actor of %zu) -> %zu in %zu calls", want, r, calls);
            CHECK_EQ(r, std::min(want, n0));
            CHECK_EQ(r, n0 - m.size());
            break; }
        default: waits(std::integral_constant<bool, Locking::providesWait>());
        }
    }
    void waits(std::false_type) {}
    void waits(std::true_type) {
        // waiting with the condition already met returns at once with the count
        if (!m.empty()) CHECK_EQ(b.waitDataAvailable(), m.size());
        if (m.size() < cap) CHECK_EQ(b.waitSpaceAvailable(), cap - m.size());
        struct Stop {};
        int calls = 0;
        auto const stop = [&calls] { if (++calls == 2) throw Stop{}; };
        try { size_t r = b.waitDataAvailable(stop, std::chrono::microseconds(1)); CHECK(!m.empty()); CHECK_EQ(r, m.size()); CHECK_EQ(calls, 0); }
        catch (Stop) { CHECK(m.empty()); CHECK_EQ(calls, 2); }
        calls = 0;
        try { size_t r = b.waitSpaceAvailable(stop, std::chrono::microseconds(1)); CHECK(m.size() < cap); CHECK_EQ(r, cap - m.size()); CHECK_EQ(calls, 0); }
        catch (Stop) { CHECK(m.size() == cap); CHECK_EQ(calls, 2); }
        c.trace("waits");
    }
    void run() {
        check();
        for (size_t n = 0; c.more(n, cap > 300 ? 8 : 25, 200); ++n) { step(); check(); }
        // drain
        size_t const left = m.size();
        if (left) {
            std::unique_ptr<A[]> d(new A[left]);
            CHECK_EQ(b.read(static_cast<T *>(d.get()), left), left);
            for (size_t i = 0; i < left; ++i) pop(Cv::id(d[i]));
        }
        check();
        if (wrapped) c.label("wrapped");
        if (filled) c.label("filled");
        c.nontrivial(wrapped && filled);
    }
};

size_t capacity(pbt::Ctx & c) {
    if (c.chance(1, 600)) return c.coin() ? c.pick<size_t>({1000, 4095, 4096, 4097, 32768, 65535, 65536, 65537}) : 300 + c.draw(90000);
    switch (c.weighted({8, 2, 1})) { case 0: return 1 + c.draw(7); case 1: return 1 + c.draw(40); default: return c.pick<size_t>({64, 127, 128, 255, 256}); }
}

template <typename T, typename L> void go(pbt::Ctx & c, char const * what) {
    size_t const cap = capacity(c);
    c.trace("CircBufferSCSP<%s>(%zu)", what, cap);
    Tester<T, L>(c, cap).run();
}

} // namespace

static bool init = (pbt::options.checkLeaks = true);

PBT_PROP(history, 300000, 10000000, "random operation history on a random capacity; non-trivial if the contents wrapped around the storage end and the buffer was full at some point") {
    using L = sharemind::CircBufferScspLocking<>;
    using N = sharemind::CircBufferNoLocking;
    switch (c.draw(7)) {
    case 0: go<int, L>(c, "int"); break;
    case 1: go<uint8_t, L>(c, "uint8_t"); break;
    case 2: go<Three, L>(c, "3-byte struct"); break;
    case 3: go<void, L>(c, "void"); break;
    case 4: go<uint64_t, N>(c, "uint64_t, no locking"); break;
    case 5: go<std::string, L>(c, "std::string"); break;
    case 6: go<void, N>(c, "void, no locking"); break;
    default: go<int, sharemind::CircBufferScspLocking<OtherMutex>>(c, "int, custom mutex");
    }
}
