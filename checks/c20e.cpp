// C20: the messages of ErrnoException, with the system's descriptions of errors
// replaced by generated ones. Built for the GNU strerror_r() and, with
// -U_GNU_SOURCE, for that of POSIX.
#include <sharemind/Exception.h>
#include <cerrno>
#include <cstring>
#include <string>
#include <utility>
#include "pbt.h"

#if _GNU_SOURCE
enum { GNU = 1 };
#else
enum { GNU = 0 };
#endif
namespace {
struct Stub { bool on = false; std::string text; int how = 0, code = 0; unsigned calls = 0; int asked = 0; size_t size = 0; } stub;
char nowhere[] = "?";
}
#if _GNU_SOURCE
// Returns the message elsewhere, or in the buffer when asked to.
extern "C" char * strerror_r(int e, char * buf, size_t size) noexcept {
    if (!stub.on) return nowhere;
    ++stub.calls; stub.asked = e; stub.size = size;
    if (stub.how == 0 || size == 0) return &stub.text[0];
    size_t const n = std::min(stub.text.size(), size - 1); std::memcpy(buf, stub.text.data(), n); buf[n] = '\0'; return buf;
}
#else
extern "C" int __xpg_strerror_r(int e, char * buf, size_t size) noexcept {
    if (!stub.on) return EINVAL;
    ++stub.calls; stub.asked = e; stub.size = size;
    if (stub.how == 1) return stub.code; // says nothing
    if (stub.how == 2) { errno = stub.code; return -1; } // as it used to be
    if (stub.how == 3) { std::memset(buf, 'z', size); return stub.code; } // leaves unterminated rubbish
    size_t const n = std::min(stub.text.size(), size - 1); std::memcpy(buf, stub.text.data(), n); buf[n] = '\0'; return 0;
}
#endif

PBT_PROP(errnoMessages, 20000, 400000, "a message which does not fit, or which the system does not have") {
    size_t const B = sharemind::ErrnoException::BUFFER_SIZE; int const e = (int)c.bits(c.coin() ? 7 : 32);
    size_t const n = c.weighted({3, 3, 1}) == 0 ? c.draw(40) : c.coin() ? B - 3 + c.draw(6) : c.draw(3 * B);
    Stub s; s.text.resize(n); unsigned const a = (unsigned)c.draw(25); for (size_t i = 0; i < n; ++i) s.text[i] = (char)('a' + (a + i) % 26);
#if _GNU_SOURCE
    s.how = (int)c.draw(1);
#else
    s.how = (int)c.draw(5); s.code = 1 + (int)c.draw(130); if (s.how > 3) s.how = 0;
#endif
    c.trace("error %d, %zu characters, way %d, code %d", e, n, s.how, s.code);
    s.on = true; stub = s; int const before = 77; errno = before; sharemind::ErrnoException const x(e); unsigned const calls = stub.calls; int const asked = stub.asked; size_t const size = stub.size; stub.on = false;
    CHECK_EQ(x.errorNumber(), e); if (calls) { CHECK_EQ(asked, e); CHECK(size <= B); }
    auto verify = [&](sharemind::ErrnoException const & y) {
        CHECK_EQ(y.errorNumber(), e); size_t const len = strnlen(y.what(), B); CHECKM(len < B, "the message does not end");
        std::string const m(y.what());
        if (s.how == 0 || (GNU && s.how == 1)) CHECKM(m == s.text.substr(0, B - 1), "the message of %zu characters became one of %zu", s.text.size(), m.size());
        else CHECKM(m.find(" " + std::to_string(s.code)) != std::string::npos, "a message which says that there is none: '%s'", m.c_str());
    };
    verify(x); auto y = x; verify(y); sharemind::ErrnoException z(1); z = y; verify(z); auto w = std::move(z); verify(w); y = std::move(w); verify(y);
    c.nontrivial(n >= B || s.how > 1 || (!GNU && s.how));
}
