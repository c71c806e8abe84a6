// C04: identifier pools against a model of the identifiers in use.
#include <sharemind/IdentifierPool.h>
#include <set>
#include <vector>
#include "pbt.h"
#include "newfail.h"

namespace {
using sharemind::IdentifierPool;
struct Tag;
using SId = sharemind::StrongType<uint8_t, Tag>;

template <typename T> struct Raw { static uint64_t of(T v) { return v; } static constexpr uint64_t space = sizeof(T) >= 8 ? UINT64_MAX : (uint64_t(1) << (8 * sizeof(T))); };
template <> struct Raw<SId> { static uint64_t of(SId v) { return v.get(); } static constexpr uint64_t space = 256; };

template <typename Id> struct Tester {
    using Pool = IdentifierPool<Id>;
    using Holder = typename Pool::IdHolder;
    pbt::Ctx & c;
    static constexpr int NP = 2;
    std::unique_ptr<Pool> pool[NP];
    std::set<uint64_t> used[NP];
    struct Slot { Holder h; bool valid = false; int pool = 0; uint64_t id = 0; };
    std::vector<std::unique_ptr<Slot>> s;
    bool exhausted = false, recycled = false, reused = false, wrapped = false;
    std::set<uint64_t> everRecycled[NP];

    explicit Tester(pbt::Ctx & c_) : c(c_) { for (auto & p : pool) p.reset(new Pool()); }

    void gone(Slot & x) { if (x.valid) { CHECK_EQ(used[x.pool].erase(x.id), 1u); everRecycled[x.pool].insert(x.id); x.valid = false; recycled = true; } }
    void checkSlot(Slot const & x) {
        CHECK_EQ(x.h.valid(), x.valid); CHECK_EQ(static_cast<bool>(x.h), x.valid);
        if (x.valid) CHECK_EQ(Raw<Id>::of(x.h.id()), x.id);
    }
    void took(int p, uint64_t id) {
        CHECK(id < Raw<Id>::space);
        CHECKM(used[p].insert(id).second, "identifier %llu handed out while in use", (unsigned long long)id);
        if (everRecycled[p].count(id)) reused = true;
    }
    bool reserveInto(Slot & x, int p) { // x is invalid
        bool const full = used[p].size() == Raw<Id>::space;
        bool const failing = c.chance(1, 40);
        try {
            if (failing) newfail::countdown = 0;
            Holder h(pool[p]->reserve());
            newfail::countdown = -1;
            CHECK(h.valid());
            uint64_t const id = Raw<Id>::of(h.id());
            CHECK(!full);
            took(p, id);
            x.h = std::move(h); x.valid = true; x.pool = p; x.id = id;
            return true;
        } catch (typename Pool::ReserveException const & e) {
            newfail::countdown = -1;
            CHECKM(full, "reservation failed with %zu identifiers in use", used[p].size());
            CHECK(e.what() && *e.what());
            exhausted = true;
        } catch (std::bad_alloc const &) {
            newfail::countdown = -1;
            CHECK(failing);
        }
        return false;
    }
    void run() {
        for (size_t n = 0; c.more(n, 30, 300); ++n) {
            int const p = (int)c.draw(NP - 1);
            switch (c.weighted({30, 12, 18, 18, 18, 12, 12, 12, 6, 6, 6, 1})) {
            case 0: { // one new holder
                if (!pool[p]) break;
                std::unique_ptr<Slot> x(new Slot());
                if (reserveInto(*x, p)) s.push_back(std::move(x));
                c.trace("reserve from %d", p);
                break; }
            case 1: { // a bulk of them
                if (!pool[p]) break;
                size_t const k = c.draw(300);
                c.trace("reserve %zu from %d", k, p);
                for (size_t i = 0; i < k; ++i) { std::unique_ptr<Slot> x(new Slot()); if (reserveInto(*x, p)) s.push_back(std::move(x)); }
                break; }
            case 2: { // destroy
                if (s.empty()) break;
                size_t const i = c.draw(s.size() - 1);
                c.trace("destroy holder %zu", i);
                gone(*s[i]); s.erase(s.begin() + i);
                break; }
            case 3: { // release
                if (s.empty()) break;
                Slot & x = *s[c.draw(s.size() - 1)];
                c.trace("release");
                x.h.release(); gone(x); checkSlot(x);
                break; }
            case 4: { // move-construct
                if (s.empty()) break;
                Slot & x = *s[c.draw(s.size() - 1)];
                c.trace("move-construct");
                Holder h(std::move(x.h));
                CHECK(!x.h.valid()); CHECK_EQ(h.valid(), x.valid);
                if (x.valid) CHECK_EQ(Raw<Id>::of(h.id()), x.id);
                std::unique_ptr<Slot> y(new Slot{std::move(h), x.valid, x.pool, x.id});
                x.valid = false; s.push_back(std::move(y));
                break; }
            case 5: { // move-assign
                if (s.empty()) break;
                Slot & a = *s[c.draw(s.size() - 1)], & b = *s[c.draw(s.size() - 1)];
                c.trace("move-assign%s", &a == &b ? " to itself" : "");
                if (&a == &b) { // valid but unspecified: what is left must be consistent
                    bool const was = a.valid;
                    Holder & r = a.h; a.h = std::move(r);
                    if (was && !a.h.valid()) gone(a);
                } else {
                    a.h = std::move(b.h); gone(a);
                    a.valid = b.valid; a.pool = b.pool; a.id = b.id; b.valid = false;
                }
                checkSlot(a); checkSlot(b);
                break; }
            case 6: { // swap
                if (s.empty()) break;
                Slot & a = *s[c.draw(s.size() - 1)], & b = *s[c.draw(s.size() - 1)];
                c.trace("swap");
                if (&a == &b) break;
                using std::swap; swap(a.h, b.h);
                std::swap(a.valid, b.valid); std::swap(a.pool, b.pool); std::swap(a.id, b.id);
                checkSlot(a); checkSlot(b);
                break; }
            case 7: { // destroy a block
                if (s.empty()) break;
                size_t const i = c.draw(s.size() - 1), k = std::min<size_t>(s.size() - i, c.draw(300));
                c.trace("destroy holders %zu..%zu", i, i + k);
                for (size_t j = i; j < i + k; ++j) gone(*s[j]);
                s.erase(s.begin() + i, s.begin() + i + k);
                break; }
            case 8: { // the pool goes first
                if (!c.chance(1, 3)) break;
                c.trace("destroy pool %d", p);
                pool[p].reset();
                break; }
            case 9: { // reserve over an existing holder
                if (!pool[p] || s.empty()) break;
                Slot & x = *s[c.draw(s.size() - 1)];
                c.trace("reserve over a holder");
                bool const full = used[p].size() == Raw<Id>::space;
                try { Holder h(pool[p]->reserve()); CHECK(!full); uint64_t id = Raw<Id>::of(h.id()); took(p, id); x.h = std::move(h); gone(x); x.valid = true; x.pool = p; x.id = id; }
                catch (typename Pool::ReserveException const &) { CHECK(full); exhausted = true; }
                checkSlot(x);
                break; }
            case 11: { // go round the whole identifier space
                if (!pool[p] || Raw<Id>::space > 65536) break;
                size_t const k = Raw<Id>::space + c.draw(300);
                c.trace("reserve and destroy %zu times", k);
                if (used[p].size() == Raw<Id>::space) break;
                for (size_t i = 0; i < k; ++i) {
                    Holder h(pool[p]->reserve());
                    uint64_t const id = Raw<Id>::of(h.id());
                    CHECKM(!used[p].count(id), "identifier %llu handed out while in use", (unsigned long long)id);
                }
                wrapped = true;
                break; }
            default: { // fill up completely where possible
                if (!pool[p] || Raw<Id>::space > 256) break;
                c.trace("exhaust %d", p);
                for (int i = 0; i < 400; ++i) { std::unique_ptr<Slot> x(new Slot()); bool const wasFull = used[p].size() == Raw<Id>::space; if (reserveInto(*x, p)) s.push_back(std::move(x)); else if (wasFull) break; }
                CHECK_EQ(used[p].size(), (size_t)Raw<Id>::space);
                break; }
            }
            if (s.size()) checkSlot(*s[n % s.size()]);
        }
        for (auto & x : s) checkSlot(*x);
        if (c.coin()) for (auto & p : pool) p.reset();
        while (!s.empty()) { gone(*s.back()); s.pop_back(); }
        for (int p = 0; p < NP; ++p) CHECK(used[p].empty());
        // an emptied pool of a small range gives out its whole range again
        if (Raw<Id>::space <= 256 && c.chance(1, 6)) for (int p = 0; p < NP; ++p) if (pool[p]) {
            for (size_t i = 0; i < 256; ++i) { s.emplace_back(new Slot()); Holder h(pool[p]->reserve()); uint64_t id = Raw<Id>::of(h.id()); took(p, id); s.back()->h = std::move(h); s.back()->valid = true; s.back()->pool = p; s.back()->id = id; }
            CHECK_EQ(used[p].size(), 256u);
            while (!s.empty()) { gone(*s.back()); s.pop_back(); }
        }
        if (exhausted) c.label("exhausted"); if (reused) c.label("identifier reused");
        c.nontrivial(recycled && (exhausted || reused || Raw<Id>::space > 256));
    }
};
}

static bool init = (pbt::options.checkLeaks = true);

PBT_PROP(history, 12000, 600000, "random history of reservations, holder moves, swaps, releases and destructions over two pools; non-trivial if identifiers were recycled, and for 8-bit pools also reused or exhausted") {
    switch (c.weighted({4, 3, 1, 1, 1})) {
    case 0: Tester<uint8_t>(c).run(); break;
    case 1: Tester<SId>(c).run(); break;
    case 2: Tester<uint16_t>(c).run(); break;
    case 3: Tester<uint64_t>(c).run(); break;
    default: Tester<unsigned>(c).run();
    }
}

// A whole 16-bit space: used up, and then exactly what is given back is to be had again.
PBT_PROP(wholeSpace, 12, 300, "identifiers are given back and taken again") {
    IdentifierPool<uint16_t> pool; std::vector<IdentifierPool<uint16_t>::IdHolder> h; std::vector<bool> used(65536); size_t const skip = c.draw(70000);
    for (size_t i = 0; i < skip; ++i) pool.reserve().release(); // starts anywhere
    for (size_t i = 0; i < 65536; ++i) { h.emplace_back(pool.reserve()); auto const id = h.back().id(); CHECK(!used[id]); used[id] = true; }
    unsigned const rounds = 1 + (unsigned)c.draw(3);
    for (unsigned r = 0; r < rounds; ++r) {
        bool threw = false; try { auto x = pool.reserve(); } catch (IdentifierPool<uint16_t>::ReserveException const &) { threw = true; } CHECK(threw);
        size_t const n = 1 + c.draw(3); std::vector<size_t> slots; for (size_t i = 0; i < n; ++i) { size_t const k = c.draw(65535); if (h[k].valid()) { used[h[k].id()] = false; h[k].release(); slots.push_back(k); } }
        for (size_t k : slots) { h[k] = pool.reserve(); CHECK(!used[h[k].id()]); used[h[k].id()] = true; }
    }
    c.nontrivial();
}
