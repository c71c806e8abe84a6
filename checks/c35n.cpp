// C35: messages and data blocks when memory runs out: an operation which
// throws leaves the message and the read position as they were.
#include <sharemind/Datum.h>
#include <sharemind/NetworkMessage.h>
#include <cstdlib>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include "pbt.h"

// The linker directs the allocations of this program here.
static long budget = -1; // allocations left before one fails, -1: no limit
static unsigned failures = 0;
static bool refuse() { if (budget < 0) return false; if (budget-- > 0) return false; budget = -1; ++failures; return true; }
extern "C" {
void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t);
void * __wrap_malloc(size_t n) { return refuse() ? nullptr : __real_malloc(n); }
void * __wrap_calloc(size_t n, size_t k) { return refuse() ? nullptr : __real_calloc(n, k); }
void * __wrap_realloc(void * p, size_t n) { return refuse() ? nullptr : __real_realloc(p, n); }
}
void * operator new(size_t n) { if (refuse()) throw std::bad_alloc(); if (void * p = __real_malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, size_t) noexcept { std::free(p); }
void operator delete[](void * p, size_t) noexcept { std::free(p); }

namespace {
namespace sm = sharemind;
std::string le64(uint64_t v) { std::string s; for (size_t i = 0; i < 8; ++i) s.push_back((char)(v >> (8 * i))); return s; }
std::string text(pbt::Ctx & c) { std::string s(c.length(60, 20), 0); for (auto & x : s) { x = (char)c.bits(8); if (!x) x = 'x'; } return s; }
// Runs f with the given number of allocations; true if it ran to its end.
template <typename F> bool attempt(long left, F f) {
    unsigned const before = failures; budget = left; bool ok = true;
    try { f(); } catch (std::bad_alloc const &) { ok = false; }
    budget = -1; CHECKM(ok || failures > before, "out of memory without a reason"); return ok;
}
}

PBT_PROP(noMemory, 30000, 1000000, "an operation runs out of memory and a later one succeeds") {
    // Writing.
    std::unique_ptr<sm::OutgoingNetworkMessage> out(new sm::OutgoingNetworkMessage()); std::string all; bool failed = false, later = false;
    while (c.more(all.size() / 8, 3, 12)) {
        long const left = c.coin() ? (long)c.draw(1) : -1; unsigned const what = (unsigned)c.draw(7); std::string const s = text(c); uint32_t const n = (uint32_t)c.bits(32); std::string add; bool ok; c.trace("write %u, %zu bytes%s", what, s.size(), left >= 0 ? ", memory is short" : "");
        switch (what) {
        case 0: add = s; ok = attempt(left, [&] { out->writeBytes(s.data(), s.size()); }); break;
        case 1: add = le64(s.size()) + s; ok = attempt(left, [&] { out->write(s); }); break;
        case 2: add = le64(s.size()) + s; ok = attempt(left, [&] { out->write(s.c_str()); }); break;
        case 3: add.assign((char const *)&n, 4); ok = attempt(left, [&] { out->write(n); }); break;
        case 4: add = s; ok = attempt(left, [&] { out->writeArray(s.data(), s.size()); }); break;
        case 5: add.assign(1, (char)(n & 1)); ok = attempt(left, [&] { out->write((n & 1) != 0); }); break;
        case 6: add = all; if (all.size() > 300) continue; ok = attempt(left, [&] { out->write(static_cast<sm::NetworkMessage const &>(*out)); }); break;
        default: add = le64(n); ok = attempt(left, [&] { out->writeSize(n); }); break;
        }
        if (ok) { all += add; later |= failed; } else failed = true;
        CHECKM(out->getSize() == all.size() && out->getOffset() == all.size() && (all.empty() || !memcmp(out->getData(), all.data(), all.size())), ok ? "the message does not hold what was written" : "a failed write changed the message");
    }
    // Reading texts.
    std::vector<std::string> ts; std::string bytes; for (size_t k = c.length(5, 2); k; --k) { ts.push_back(text(c)); bytes += le64(ts.back().size()) + ts.back(); }
    sm::IncomingNetworkMessage in(bytes.data(), bytes.size()); size_t at = 0;
    for (auto const & t : ts) {
        std::string r("previous");
        for (bool done = false; !done; ) {
            bool got = false; long const left = c.coin() ? 0 : -1; bool const ok = attempt(left, [&] { got = in.read(r); });
            if (ok) { CHECKM(got && r == t, "another text was read"); at += 8 + t.size(); done = true; later |= failed; }
            else { failed = true; c.trace("reading %zu bytes runs out of memory", t.size()); }
            CHECKM(in.getOffset() == at, ok ? "a read moved the position too far" : "a failed read moved the position");
        }
    }
    // Data blocks.
    std::string const a = text(c), b = text(c); sm::Datum d(a.data(), a.size()), e(b.data(), b.size()); auto same = [](sm::Datum const & x, std::string const & s) { return x.size() == s.size() && (s.empty() || !memcmp(x.constData(), s.data(), s.size())); };
    CHECK(same(d, a) && same(e, b));
    bool const ok = attempt(c.coin() ? 0 : -1, [&] { d = e; }); CHECKM((!ok || same(d, b)) && same(e, b), "a data block was not assigned"); if (!ok) { failed = true; d = e; }
    std::string const before = b; size_t const n = c.draw(150); bool const ok2 = attempt(c.coin() ? 0 : -1, [&] { d.resize(n, 'r'); }); std::string want(before); if (ok2) want.resize(n, 'r'); CHECKM(same(d, want), ok2 ? "resizing" : "a failed resizing changed a data block");
    attempt(0, [&] { sm::Datum x(e); CHECK(same(x, b)); }); attempt(0, [&] { sm::Datum x(b.data(), b.size()); CHECK(same(x, b)); }); CHECK(same(e, b));
    if (failed && later) c.nontrivial();
}
