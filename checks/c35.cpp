// C35: byte order, messages, data blocks.
#include <sharemind/Datum.h>
#include <sharemind/EndianMacros.h>
#include <sharemind/NetworkMessage.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <array>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;

// ---------------- byte order ----------------
template <typename T> void bytesOf(T v, bool big, unsigned char * out) { using U = typename std::make_unsigned<T>::type; U u = static_cast<U>(v); for (size_t i = 0; i < sizeof(T); ++i) { out[big ? sizeof(T) - 1 - i : i] = (unsigned char)(u & 0xffu); u = (U)(sizeof(T) > 1 ? u >> (sizeof(T) > 1 ? 8 : 0) : 0); } }
template <typename T> void oneValue(T v) {
    unsigned char e[8], g[8];
    #define ONE(to, from, big) { bytesOf(v, big, e); T const x = sm::to(v); static_assert(std::is_same<decltype(sm::to(v)), T>::value && std::is_same<decltype(sm::from(v)), T>::value, "type"); std::memcpy(g, &x, sizeof(T)); if (std::memcmp(g, e, sizeof(T))) pbt::fail(#to " of the %zu byte value %lld", sizeof(T), (long long)v); if (sm::from(x) != v) pbt::fail(#from " of " #to " of the %zu byte value %lld", sizeof(T), (long long)v); \
        using S = sm::StrongType<T, struct Tag##to, sm::StrongTypeEqualityComparable>; S const s(v); S const y = sm::to(s); if (!(y.get() == x)) pbt::fail(#to " of a strong type"); if (!(sm::from(y).get() == v)) pbt::fail(#from " of a strong type"); }
    ONE(hostToBigEndian, bigEndianToHost, true) ONE(hostToLittleEndian, littleEndianToHost, false) ONE(hostToSharemindNetOrder, sharemindNetToHostOrder, false)
    #undef ONE
}
template <typename T> T value(pbt::Ctx & c) { switch (c.draw(3)) { case 0: return (T)c.bits(64); case 1: return (T)c.draw(255); case 2: { T v = 0; unsigned char b = (unsigned char)c.bits(8); std::memcpy((char *)&v + c.draw(sizeof(T) - 1), &b, 1); return v; } default: return c.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); } }
}

PBT_PROP(byteOrder, 40000, 4000000, "a value whose bytes differ") {
    uint64_t all = 0; switch (c.draw(7)) {
    #define T(n, t) case n: { t const v = value<t>(c); oneValue(v); all = (uint64_t)v; if (sizeof(t) > 1 && (((all >> 8) ^ all) & 0xff)) c.nontrivial(); break; }
    T(0, int8_t) T(1, int16_t) T(2, int32_t) T(3, int64_t) T(4, uint8_t) T(5, uint16_t) T(6, uint32_t) default: T(7, uint64_t)
    #undef T
    } c.trace("value %llu", (unsigned long long)all);
}
PBT_PROP(shortValues, 256, 256, "256 values of 16 bits and one of 8 bits") { static unsigned next = 0; unsigned const hi = (unsigned)c.draw(255); (void)next; oneValue((uint8_t)hi); oneValue((int8_t)hi); for (unsigned lo = 0; lo < 256; ++lo) { oneValue((uint16_t)(hi << 8 | lo)); oneValue((int16_t)(hi << 8 | lo)); } c.nontrivial(); }

// ---------------- messages ----------------
namespace {
struct Pod { int32_t a; unsigned char b[3]; uint16_t c; };
enum class En : uint16_t { A = 1, B = 0x1234 };
using Strong = sm::StrongType<uint32_t, struct StrongTag, sm::StrongTypeEqualityComparable>;
// One thing to write: its bytes by the reference encoding and how to read it back.
struct Field { char const * name; std::string bytes; std::function<void(sm::OutgoingNetworkMessage &)> write; std::function<bool(sm::IncomingNetworkMessage &)> read; std::function<void()> check; bool sized = false; };
std::string le64(uint64_t v, size_t n = 8) { std::string s; for (size_t i = 0; i < n; ++i) s.push_back((char)(v >> (8 * i))); return s; }
std::string text(pbt::Ctx & c, bool nul = true) { bool const big = c.chance(1, 150); std::string s(big ? c.draw(c.coin() ? 3000 : 70000) : c.length(40, 6), 0); if (big) { uint64_t x = c.bits(64); for (auto & ch : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = (char)(x >> 56); if (!nul && !ch) ch = 'x'; } return s; } for (auto & x : s) { x = (char)c.bits(8); if (!nul && !x) x = 'x'; } return s; }
template <typename T> Field podField(char const * name, T v) {
    Field f; f.name = name; f.bytes.assign((char const *)&v, sizeof v); auto r = std::make_shared<T>(v); std::memset(r.get(), 0x5a, sizeof(T)); auto b = f.bytes;
    f.write = [v](sm::OutgoingNetworkMessage & m) { T x(v); m.write(x); }; f.read = [r](sm::IncomingNetworkMessage & m) { return m.read(*r); }; f.check = [r, b] { if (std::memcmp(r.get(), b.data(), sizeof(T))) pbt::fail("another value was read"); }; return f;
}
template <typename T, typename Ser, typename Size> Field arrayField(pbt::Ctx & c, char const * name, unsigned how) {
    std::vector<T> v(c.length(12, 3)); for (auto & x : v) x = (T)c.bits(64); if (c.chance(1, 100)) { uint64_t const most = std::min<uint64_t>({20000, (uint64_t)std::numeric_limits<Ser>::max(), (uint64_t)std::numeric_limits<Size>::max()}); v.resize(c.draw(most)); uint64_t x = c.bits(64); for (auto & e : v) { x = x * 6364136223846793005ull + 1442695040888963407ull; e = (T)(x >> 20); } } std::string raw((char const *)v.data(), v.size() * sizeof(T)); size_t const n = v.size(); Field f; f.name = name; auto r = std::make_shared<std::vector<T>>(); auto size = std::make_shared<Size>((Size)0);
    f.bytes = (how ? le64(n, sizeof(Ser)) : std::string()) + raw;
    f.write = [v, how](sm::OutgoingNetworkMessage & m) { if (how == 1) m.writeSizeAndArray<Ser>(v.data(), (Size)v.size()); else if (how == 2) { m.writeSize<Ser>((Size)v.size()); m.writeArray(v.data(), (Size)v.size()); } else m.writeArray(v.data(), (Size)v.size()); };
    f.read = [r, n, how, size](sm::IncomingNetworkMessage & m) { size_t const start = m.getOffset(); if (how) { bool const ok = n % 2 ? m.readSize<Ser>(*size) : m.readSize<Ser>(*size, std::length_error("size")); if (!ok) { if (m.getOffset() != start) pbt::fail("a failed read moved the position"); return false; } if (m.getRemainingSize() / sizeof(T) < *size) { r->resize(1); bool const got = m.readArray(r->data(), *size); if (got) pbt::fail("read beyond the end"); if (m.getOffset() != start + sizeof(Ser)) pbt::fail("a failed read moved the position"); if (!m.seek(start)) pbt::fail("seek to the start of the field"); return false; } r->resize(*size); } else r->resize(n); size_t const k = m.getOffset(); bool const ok = m.readArray(r->data(), (Size)r->size()); if (!ok) { if (m.getOffset() != k) pbt::fail("a failed read moved the position"); if (how && !m.seek(start)) pbt::fail("seek"); } return ok; };
    f.check = [r, v, size, how] { if (how && *size != v.size()) pbt::fail("another size was read"); if (*r != v) pbt::fail("another array was read"); }; f.sized = how; return f;
}
Field stringField(std::string s, unsigned how) {
    Field f; f.name = (char const *[]){"std::string const &", "std::string &", "std::string &&", "char const *", "char *", "char const * and size"}[how]; f.bytes = le64(s.size()) + s; auto r = std::make_shared<std::string>("something else");
    f.write = [s, how](sm::OutgoingNetworkMessage & m) { switch (how) { case 0: { std::string const & x = s; m.write(x); break; } case 1: { std::string x(s); m.write(x); if (x != s) pbt::fail("writing changed the string"); break; } case 2: m.write(std::string(s)); break; case 3: { char const * p = s.c_str(); m.write(p); break; } case 4: { std::string x(s); char * p = &x[0]; m.write(p); break; } default: m.write(s.data(), s.size()); } };
    f.read = [r](sm::IncomingNetworkMessage & m) { return m.read(*r); }; f.check = [r, s] { if (*r != s) pbt::fail("another string was read"); }; f.sized = true; return f;
}
Field field(pbt::Ctx & c) {
    switch (c.weighted({2, 1, 1, 1, 1, 1, 2, 6, 2, 2, 2, 2, 1, 1, 2, 1})) {
    case 0: { bool const v = c.coin(); Field f; f.name = "bool"; f.bytes.assign(1, (char)v); auto r = std::make_shared<bool>(!v); bool const lvalue = c.coin(); f.write = [v, lvalue](sm::OutgoingNetworkMessage & m) { if (lvalue) { bool x = v; m.write(x); } else m.write((bool)v); }; f.read = [r](sm::IncomingNetworkMessage & m) { return m.read(*r); }; f.check = [r, v] { if (*r != v) pbt::fail("another truth was read"); }; return f; }
    case 1: return podField("uint8_t", (uint8_t)c.bits(8)); case 2: return podField("int16_t", (int16_t)c.bits(16)); case 3: return podField("uint64_t", (uint64_t)c.bits(64)); case 4: return podField("enumeration", c.coin() ? En::A : En::B); case 5: return podField("strong type", Strong((uint32_t)c.bits(32)));
    case 6: { Pod p; std::memset(&p, 0, sizeof p); p.a = (int32_t)c.bits(32); for (auto & b : p.b) b = (unsigned char)c.bits(8); p.c = (uint16_t)c.bits(16); return podField("structure", p); }
    case 7: { unsigned const how = (unsigned)c.draw(5); return stringField(text(c, how != 3 && how != 4), how); }
    case 8: return arrayField<uint8_t, uint8_t, uint8_t>(c, "array of bytes, uint8_t size", (unsigned)c.draw(2)); case 9: return arrayField<uint16_t, uint32_t, uint16_t>(c, "array of uint16_t, uint32_t size", (unsigned)c.draw(2)); case 10: return arrayField<uint64_t, uint64_t, size_t>(c, "array of uint64_t, size_t size", (unsigned)c.draw(2)); case 11: return arrayField<int32_t, uint16_t, uint8_t>(c, "array of int32_t, uint16_t size", (unsigned)c.draw(2));
    case 12: { std::string s = text(c); Field f; f.name = "bytes"; f.bytes = s; auto r = std::make_shared<std::string>(s.size(), 'z'); f.write = [s](sm::OutgoingNetworkMessage & m) { m.writeBytes(s.empty() ? nullptr : s.data(), s.size()); }; f.read = [r](sm::IncomingNetworkMessage & m) { return m.readBytes(r->empty() ? nullptr : &(*r)[0], r->size()); }; f.check = [r, s] { if (*r != s) pbt::fail("other bytes were read"); }; return f; }
    case 13: { char a[5]; for (auto & x : a) x = (char)c.bits(8); Field f; f.name = "character array"; f.bytes.assign(a, 5); std::string const s = f.bytes; auto r = std::make_shared<std::array<char, 5>>(); f.write = [s](sm::OutgoingNetworkMessage & m) { char x[5]; std::memcpy(x, s.data(), 5); m.write(x); }; f.read = [r](sm::IncomingNetworkMessage & m) { char x[5]; if (!m.read(x)) return false; std::memcpy(r->data(), x, 5); return true; }; f.check = [r, s] { if (std::memcmp(r->data(), s.data(), 5)) pbt::fail("another array was read"); }; return f; }
    case 14: { std::string const s = text(c); unsigned const how = (unsigned)c.draw(3); Field f; f.name = "message in a message"; f.bytes = s; auto r = std::make_shared<std::string>(s.size(), 'z');
        f.write = [s, how](sm::OutgoingNetworkMessage & m) { sm::OutgoingNetworkMessage o; o.writeBytes(s.data(), s.size()); std::unique_ptr<char[]> copy(new char[s.size() + 1]); std::memcpy(copy.get(), s.data(), s.size()); sm::IncomingNetworkMessage i(copy.get(), s.size()); switch (how) { case 0: m.write(static_cast<sm::NetworkMessage const &>(o)); break; case 1: m.write(o); break; case 2: m.write(i); break; default: { sm::OutgoingNetworkMessage const & k = o; m.write(k); } } if (o.getSize() != s.size()) pbt::fail("writing a message changed it"); };
        f.read = [r](sm::IncomingNetworkMessage & m) { return m.readBytes(r->empty() ? nullptr : &(*r)[0], r->size()); }; f.check = [r, s] { if (*r != s) pbt::fail("another message was read"); }; return f; }
    default: { uint64_t const v = c.bits(64); Field f; f.name = "uint32_t size"; uint32_t const n = (uint32_t)v; f.bytes = le64(n, 8); auto r = std::make_shared<uint32_t>(~n); f.write = [n](sm::OutgoingNetworkMessage & m) { m.writeSize(n); }; f.read = [r](sm::IncomingNetworkMessage & m) { return m.readSize(*r); }; f.check = [r, n] { if (*r != n) pbt::fail("another size was read"); }; f.sized = true; return f; }
    }
}
void checkView(sm::SeekableNetworkMessage const & m, std::string const & bytes, size_t offset) {
    CHECK_EQ(m.getSize(), bytes.size()); CHECK(m.size == bytes.size()); CHECK(m.data == m.getData()); CHECK(bytes.empty() || !std::memcmp(m.getData(), bytes.data(), bytes.size())); CHECK_EQ(m.getOffset(), offset); CHECK_EQ(m.getRemainingSize(), bytes.size() - offset); CHECK(m.getPtr() == (char const *)m.getData() + offset);
}
}
PBT_PROP(messages, 60000, 3000000, "at least three fields, one of them with its own size, or truncated data") {
    std::vector<Field> fs; sm::OutgoingNetworkMessage out; std::string all; std::vector<size_t> ends; bool sized = false;
    checkView(out, all, 0);
    while (c.more(fs.size(), 4, 14)) {
        if (!all.empty() && all.size() < 200 && c.chance(1, 20)) { c.trace("the message itself"); std::string const before = all; Field f; f.name = "itself"; f.bytes = before; auto r = std::make_shared<std::string>(before.size(), 'z'); f.read = [r](sm::IncomingNetworkMessage & m) { return m.readBytes(&(*r)[0], r->size()); }; f.check = [r, before] { CHECK(*r == before); }; out.write(static_cast<sm::NetworkMessage const &>(out)); all += before; ends.push_back(all.size()); fs.push_back(f); continue; }
        fs.push_back(field(c)); Field & f = fs.back(); c.trace("%s, %zu bytes", f.name, f.bytes.size()); f.write(out); all += f.bytes; ends.push_back(all.size()); sized |= f.sized; checkView(out, all, all.size());
    }
    // Truncate at any point, the memory ends there.
    size_t const cut = c.chance(1, 3) ? c.draw(all.size()) : all.size(); std::unique_ptr<char[]> mem(new char[cut]); std::memcpy(mem.get(), all.data(), cut); std::string const have = all.substr(0, cut); c.trace("%zu of %zu bytes", cut, all.size());
    sm::IncomingNetworkMessage in(cut || c.coin() ? mem.get() : nullptr, cut); checkView(in, have, 0); size_t at = 0;
    for (size_t i = 0; i < fs.size(); ++i) {
        if (at < cut && c.chance(1, 8)) { size_t const p = c.draw(cut - 1); CHECK(in.seek(p)); checkView(in, have, p); CHECK(!in.seek(cut + 1 + c.draw(3))); CHECK(!in.seek(~size_t(0) - c.draw(2))); checkView(in, have, p); CHECK(in.seek(at)); }
        bool const ok = fs[i].read(in); if (ends[i] > cut) { CHECKM(!ok, "read beyond the end of the message"); checkView(in, have, at); break; }
        CHECKM(ok, "a complete field was not read"); fs[i].check(); at = ends[i]; checkView(in, have, at);
    }
    if (cut < all.size() || (fs.size() >= 3 && sized)) c.nontrivial(); if (cut < all.size()) c.label("truncated");
}
// Arbitrary data, arbitrary reads against a reference decoder.
PBT_PROP(malformed, 60000, 3000000, "a read succeeds and another one fails or throws") {
    std::string s; unsigned const n = (unsigned)c.length(6, 3); for (unsigned i = 0; i < n; ++i) switch (c.draw(5)) { case 0: s += le64(c.draw(12)); break; case 1: s += le64(c.bits(64)); break; case 2: s += text(c); break; case 3: s.push_back((char)c.draw(2)); break; case 4: s += le64(c.pick<uint64_t>({255, 256, 65535, 65536, 1ull << 32, (1ull << 32) - 1, ~0ull, ~0ull - 7, ~0ull / 2, ~0ull / 8 + 1})); break; default: s += le64(c.draw(12), 1 << c.draw(3)); }
    std::unique_ptr<char[]> mem(new char[s.size()]); std::memcpy(mem.get(), s.data(), s.size()); sm::IncomingNetworkMessage in(mem.get(), s.size()); size_t at = 0, left; bool good = false, bad = false; auto num = [&](size_t b) { uint64_t v = 0; for (size_t i = 0; i < b; ++i) v |= (uint64_t)(unsigned char)s[at + i] << (8 * i); return v; };
    struct Overflow { int id; };
    for (unsigned k = 0; k < 8; ++k) {
        left = s.size() - at; bool ok = false, thrown = false; unsigned const what = (unsigned)c.draw(10); c.trace("read %u at %zu of %zu", what, at, s.size()); size_t take = 0; bool expect = false, expectThrow = false;
        #define SIZE(ser, type, ...) { expect = left >= sizeof(ser); uint64_t v = expect ? num(sizeof(ser)) : 0; if (expect && v > std::numeric_limits<type>::max()) { expectThrow = true; expect = false; } type r = 77; try { ok = __VA_ARGS__; } catch (std::bad_array_new_length const &) { thrown = true; } catch (Overflow const & o) { CHECK(o.id == 5); thrown = true; } if (ok) { CHECK_EQ((uint64_t)r, v); take = sizeof(ser); } else CHECK(r == 77); break; }
        switch (what) {
        case 0: { bool r = false; expect = left >= 1 && (unsigned char)s[at] < 2; ok = in.read(r); if (ok) { CHECK(r == (s[at] == 1)); take = 1; } break; }
        case 1: { std::string r("before"); expect = left >= 8 && num(8) <= left - 8; ok = in.read(r); if (ok) { CHECK(r == s.substr(at + 8, num(8))); take = 8 + r.size(); } break; }
        case 2: SIZE(uint64_t, uint8_t, in.readSize(r)) case 3: SIZE(uint64_t, uint32_t, in.readSize(r, Overflow{5})) case 4: SIZE(uint16_t, uint8_t, in.readSize<uint16_t>(r)) case 5: { Overflow const o{5}; SIZE(uint32_t, uint16_t, in.readSize<uint32_t>(r, o)) } case 6: SIZE(uint64_t, uint64_t, in.readSize<uint64_t>(r)) case 7: SIZE(uint8_t, size_t, in.readSize<uint8_t>(r))
        case 8: { size_t const cnt = c.coin() ? c.draw(6) : c.pick<size_t>({~size_t(0), ~size_t(0) / 4, ~size_t(0) / 4 + 1, ~size_t(0) / 4 + 2, ~size_t(0) / 8 + 2}); uint32_t r[7]; expect = cnt <= left / 4; if (cnt > 6 && expect) break; ok = in.readArray(r, cnt); if (ok) { CHECK(!std::memcmp(r, s.data() + at, cnt * 4)); take = cnt * 4; } break; }
        case 9: { size_t const n = c.coin() ? c.draw(left + 2) : c.bits(64); std::string r(std::min(n, left + 3), 'z'); expect = n <= left; ok = in.readBytes(&r[0], n); if (ok && n <= left) { CHECK(!r.compare(0, n, s, at, n)); take = n; } break; }
        default: { uint32_t r; expect = left >= 4; ok = in.read(r); if (ok) { CHECK_EQ(r, (uint32_t)num(4)); take = 4; } }
        }
        #undef SIZE
        CHECKM(ok == expect, expect ? "a complete value was not read" : "a read of incomplete data succeeded"); CHECKM(thrown == expectThrow, expectThrow ? "a size which does not fit was read" : "a spurious exception"); (ok ? good : bad) = true; at += take; checkView(in, s, at);
    }
    if (good && bad) c.nontrivial();
}
PBT_PROP(limits, 3000, 60000, "a size near the upper limit") {
    sm::OutgoingNetworkMessage m; std::string const s = text(c); m.writeBytes(s.data(), s.size()); uint64_t v = 0; size_t const most = ~size_t(0); unsigned const k = (unsigned)c.draw(3); bool thrown = false; size_t const d = c.draw(16);
    // Lengths which cannot be represented together with what is there are refused, the message stays as it is.
    try { switch (k) { case 0: if (d >= s.size()) { thrown = true; break; } m.writeBytes(&v, most - d); break; case 1: m.writeArray(&v, most / 8 + 1 + d); break; case 2: m.writeSizeAndArray(&v, most / 8 - (d & 1 ? 0 : 0)); break; default: m.writeSizeAndArray<uint64_t>(&v, most / 8 + d); } } catch (sm::NetworkMessage::MessageLengthError const & e) { CHECK(std::string(e.what()).size() > 10); thrown = true; }
    CHECK(thrown); checkView(m, s, s.size()); m.rewind(); checkView(m, s, 0); c.nontrivial();
}

// ---------------- data blocks ----------------
namespace {
std::string asString(sm::Datum & d) { sm::Datum const & k = d; CHECK(d.data() == k.constData()); CHECK(d.dataEnd() == k.constDataEnd()); CHECK((char *)d.dataEnd() - (char *)d.data() == (long)d.size()); CHECK(d.empty() == !d.size()); return d.size() ? std::string((char const *)d.data(), d.size()) : std::string(); }
// How reads of the file under test go wrong.
struct ReadPlan { bool active = false; int fd = -1; pbt::Ctx * c = nullptr; unsigned mode = 0; unsigned calls = 0, interrupted = 0; } plan;
unsigned openFds() { unsigned n = 0; DIR * d = opendir("/proc/self/fd"); while (d && readdir(d)) ++n; if (d) closedir(d); return n; }
}
extern "C" ssize_t read(int fd, void * p, size_t n) {
    if (!plan.active) return syscall(SYS_read, fd, p, n);
    ++plan.calls;
    if (plan.mode == 1 && n > 1) n = 1 + plan.c->draw(std::min<size_t>(n - 1, 20)); // short reads
    if (plan.mode == 2 && plan.c->chance(1, 3)) { ++plan.interrupted; errno = EINTR; return -1; }
    if (plan.mode == 2 && n > 1) n = 1 + plan.c->draw(n - 1);
    if (plan.mode == 3 && plan.calls > 1 + plan.c->draw(1)) { errno = EIO; return -1; }
    if (plan.mode == 3 && n > 1) n = 1 + n / 2;
    if (plan.mode == 4 && plan.calls > 1) return 0; // the file became shorter
    if (plan.mode == 4 && n > 1) n = n / 2;
    return syscall(SYS_read, fd, p, n);
}
PBT_PROP(blocks, 30000, 1000000, "two blocks of different sizes, or a cleared or moved one") {
    std::deque<sm::Datum> d; std::vector<std::string> m; bool special = false; size_t ops = 0;
    while (c.more(ops++, 8, 30)) {
        unsigned const k = d.size() < 2 ? (unsigned)c.draw(3) : (unsigned)c.draw(9); size_t const i = d.empty() ? 0 : c.draw(d.size() - 1), j = d.empty() ? 0 : c.draw(d.size() - 1); std::string const s = text(c); char const x = (char)c.bits(8);
        switch (k) {
        case 0: d.emplace_back(); m.emplace_back(); break;
        case 1: { size_t const n = c.chance(1, 60) ? c.pick<size_t>({255, 256, 257, 65535, 65536, 70000}) : c.length(40, 6); if (c.coin()) { d.emplace_back(n); m.emplace_back(n, '\0'); } else { d.emplace_back(n, x); m.emplace_back(n, x); } break; }
        case 2: d.emplace_back(s.empty() && c.coin() ? nullptr : (void const *)s.data(), s.size()); m.push_back(s); break;
        case 3: if (d.empty()) break; if (c.coin()) { sm::Datum t(d[i]); d.push_back(std::move(t)); m.push_back(m[i]); } else { std::string w = m[i]; d.emplace_back(std::move(d[i])); m.push_back(w); d[i].clear(); m[i].clear(); special = true; } break;
        case 4: d[i] = d[j]; m[i] = m[j]; break;
        case 5: if (i != j) { d[i] = std::move(d[j]); m[i] = m[j]; d[j].assign(s.data(), s.size()); m[j] = s; special = true; } break;
        case 6: { size_t const n = c.chance(1, 60) ? c.pick<size_t>({255, 256, 257, 65535, 65536, 70000}) : c.length(40, 6); if (c.coin()) { d[i].resize(n); m[i].resize(n); } else { d[i].resize(n, x); m[i].resize(n, x); } break; }
        case 7: d[i].assign(s.empty() && c.coin() ? nullptr : (void const *)s.data(), s.size()); m[i] = s; break;
        case 8: d[i].clear(); m[i].clear(); special = true; break;
        default: if (!m[i].empty()) { size_t const p = c.draw(m[i].size() - 1); static_cast<char *>(d[i].data())[p] = x; m[i][p] = x; } 
        }
        for (size_t a = 0; a < d.size(); ++a) CHECK(asString(d[a]) == m[a]);
        if (!d.empty()) { CHECK((d[i] == d[j]) == (m[i] == m[j])); CHECK((d[i] != d[j]) == (m[i] != m[j])); if (m[i] == m[j]) { CHECK(d[i].hash() == d[j].hash()); CHECK(hash_value(d[i]) == d[j].hash()); } sm::Datum copy(m[i].data(), m[i].size()); CHECK(copy == d[i]); CHECK(copy.hash() == d[i].hash()); CHECK(d[i].hash() == sm::hashRawData(m[i].data(), m[i].size())); }
    }
    bool differ = false; for (auto & a : m) for (auto & b : m) differ |= a.size() != b.size(); if (differ || special) c.nontrivial();
}
PBT_PROP(files, 6000, 100000, "the file is read in several pieces or cannot be loaded") {
    char dir[] = "/tmp/c35.XXXXXX"; if (!mkdtemp(dir)) pbt::fail("no scratch directory"); std::string const base(dir), name = base + "/file with a name"; struct Clean { std::string b; ~Clean() { plan.active = false; for (char const * n : {"/file with a name", "/fifo"}) unlink((b + n).c_str()); rmdir(b.c_str()); } } clean{base};
    std::string content(c.coin() ? c.length(300, 60) : c.draw(20000), 0); uint64_t x = c.bits(64); for (auto & ch : content) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = (char)(x >> 56); }
    { int const fd = ::open(name.c_str(), O_WRONLY | O_CREAT, 0600); if (fd < 0) pbt::fail("no scratch file"); for (size_t k = 0; k < content.size();) { ssize_t const r = ::write(fd, content.data() + k, content.size() - k); if (r <= 0) pbt::fail("writing the scratch file"); k += (size_t)r; } ::close(fd); }
    unsigned const kind = c.weighted({8, 1, 1, 1}); std::string path = name; if (kind == 1) path = base + "/missing"; if (kind == 2) path = base; if (kind == 3) { path = base + "/fifo"; if (mkfifo(path.c_str(), 0600)) pbt::fail("no fifo"); int const keep = ::open(path.c_str(), O_RDWR); (void)keep; }
    plan = ReadPlan(); plan.c = &c; plan.mode = kind ? 0 : (unsigned)c.draw(4); c.trace("kind %u, mode %u, %zu bytes", kind, plan.mode, content.size()); unsigned const before = openFds(); bool failed = false; int err = 0; bool type = false, changed = false; sm::Datum d("previous", 8); bool const load = c.coin();
    plan.active = true;
    try { if (load) d.loadFromFile(path); else d = sm::Datum(path); plan.active = false; }
    catch (sm::Datum::LoadException const & e) { plan.active = false; failed = true; CHECK(std::string(e.what()).find(path) != std::string::npos); try { std::rethrow_if_nested(e); } catch (sm::ErrnoException const & n) { err = n.errorNumber(); } catch (sm::Datum::FileTypeNotSupportedException const &) { type = true; } catch (sm::Datum::FileSizeChangedException const &) { changed = true; } }
    CHECK(openFds() == before);
    if (kind == 3) for (int fd = 3; fd < 4096; ++fd) { struct stat st; if (!fstat(fd, &st) && S_ISFIFO(st.st_mode)) { char l[256]; ssize_t const n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), l, sizeof l); if (n > 0 && std::string(l, n) == path) ::close(fd); } }
    bool const mustFail = kind || (!content.empty() && ((plan.mode == 4 && content.size() > 1) || (plan.mode == 3 && content.size() > 2)));
    if (kind == 1) CHECK(err == ENOENT); if (kind == 2 || kind == 3) CHECK(type); if (kind == 0 && plan.mode == 4 && content.size() > 1) CHECK(changed); if (failed && kind == 0 && plan.mode == 3) CHECK(err == EIO);
    if (plan.mode != 3) CHECKM(failed == mustFail, mustFail ? "an incomplete file was loaded" : "a file was not loaded"); 
    if (failed) CHECK(asString(d) == "previous"); else CHECK(asString(d) == content);
    if (plan.calls > 1 || failed) c.nontrivial(); if (plan.interrupted) c.label("interrupted"); if (failed) c.label("failed");
}

// ---------------- rejected literals ----------------
// Batches of generated literals go to the compiler; which lines it refuses is compared with the values.
PBT_PROP(literalsWhichCompile, 16, 160, "both a literal which must compile and one which must not") {
    char self[4096]; ssize_t const n = readlink("/proc/self/exe", self, sizeof self - 1); if (n <= 0) pbt::fail("who am I"); self[n] = 0; std::string inc(self); inc.resize(inc.rfind('/')); inc += "/include";
    char dir[] = "/tmp/c35.XXXXXX"; if (!mkdtemp(dir)) pbt::fail("no scratch directory"); std::string const src = std::string(dir) + "/l.cpp"; struct Clean { std::string d; ~Clean() { unlink((d + "/l.cpp").c_str()); unlink((d + "/out").c_str()); rmdir(d.c_str()); } } clean{dir};
    std::string text = "#include <sharemind/CstdintLiterals.h>\n#include <sharemind/CstddefLiterals.h>\nusing namespace sharemind;\n"; struct L { std::string lit; bool ok; }; std::vector<L> ls; std::vector<std::string> seen;
    struct Ty { char const * suffix; unsigned bits; bool sig; }; static Ty const tys[] = {{"int8", 7, true}, {"int16", 15, true}, {"int32", 31, true}, {"int64", 63, true}, {"intMax", 63, true}, {"uint8", 8, false}, {"uint16", 16, false}, {"uint32", 32, false}, {"uint64", 64, false}, {"sizeT", 64, false}, {"uintPtr", 64, false}};
    for (unsigned tries = 0; tries < 160 && ls.size() < 40; ++tries) {
        Ty const & t = tys[c.draw(10)]; unsigned const bits = (unsigned)c.draw(76) + 1; unsigned __int128 v = ((unsigned __int128)c.bits(64) << 64 | c.bits(64)) & (((unsigned __int128)1 << bits) - 1); unsigned __int128 const max = (((unsigned __int128)1 << t.bits) - 1); if (c.coin()) v = max + c.draw(2) - 1; if (c.chance(1, 6)) { v = 1; unsigned const z = (unsigned)c.draw(30); for (unsigned i = 0; i < z; ++i) v *= 10; }
        unsigned const base = c.pick<unsigned>({8, 10, 16}); std::string digits; unsigned __int128 w = v; while (w) { unsigned const g = (unsigned)(w % base); digits.insert(digits.begin(), c.coin() ? "0123456789abcdef"[g] : "0123456789ABCDEF"[g]); w /= base; } std::string zeros(base == 10 ? 0 : c.length(30, 3), '0'); if (digits.empty()) { if (base == 10) continue; digits = "0"; }
        std::string lit = (base == 16 ? c.coin() ? "0x" : "0X" : base == 8 ? "0" : "") + zeros + digits; unsigned const variant = (unsigned)c.draw(1); bool const checked = t.sig ? !variant : variant; bool ok = !checked || v <= max; unsigned const odd = c.weighted({9, 1, 1});
        if (odd == 1) { lit += c.coin() ? ".5" : base == 16 ? "p1" : "e1"; if (base == 16) { if (lit.find('p') == std::string::npos) continue; } ok = false; } else if (odd == 2) { lit = std::to_string(c.draw(99)) + "." ; ok = false; }
        lit += std::string("_") + t.suffix + (variant ? t.sig ? "_overflow" : "_no_overflow" : ""); bool dup = false; for (auto & s : seen) dup |= s == lit; if (dup) continue; seen.push_back(lit); ls.push_back({lit, ok}); text += "constexpr auto v" + std::to_string(ls.size()) + " = " + lit + ";\n";
    }
    { FILE * f = fopen(src.c_str(), "w"); if (!f) pbt::fail("no scratch file"); fputs(text.c_str(), f); fclose(f); }
    std::string const cmd = "g++ -std=c++14 -w -fsyntax-only -fmax-errors=0 -fno-diagnostics-show-caret -I " + inc + " " + src + " > " + dir + "/out 2>&1"; int const rc = system(cmd.c_str()); (void)rc;
    std::vector<bool> refused(ls.size() + 8); { FILE * f = fopen((std::string(dir) + "/out").c_str(), "r"); if (!f) pbt::fail("no compiler"); char line[8192]; bool lost = false, any = false, errors = false; while (fgets(line, sizeof line, f)) { char const * p = strstr(line, (src + ":").c_str()); if (p) { int const k = atoi(p + src.size() + 1) - 4; if (k >= 0 && k < (int)refused.size()) refused[k] = any = true; } if (strstr(line, " error: ")) errors = true; if (strstr(line, "fatal error")) lost = true; } fclose(f); if (lost || any != errors) pbt::fail("the literals' headers do not compile together"); }
    bool good = false, bad = false; for (size_t i = 0; i < ls.size(); ++i) { c.trace("%s %s", ls[i].lit.c_str(), ls[i].ok ? "compiles" : "does not compile"); if (ls[i].ok) good = true; else bad = true; if (refused[i] == ls[i].ok) pbt::fail(ls[i].ok ? "%s does not compile" : "%s compiles", ls[i].lit.c_str()); }
    if (good && bad) c.nontrivial();
}
static struct Opt { Opt() { pbt::options.checkLeaks = true; } } opt;
