// C18: UUIDs against their 16 bytes and an independent SHA-1.
#include <sharemind/Uuid.h>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>
#include "pbt.h"

namespace {
namespace sm = sharemind;
using sm::Uuid;
struct Sha1 { // FIPS 180-4
    static std::array<unsigned char, 20> of(std::string m) {
        uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; uint64_t const bits = m.size() * 8; m += (char)0x80; while (m.size() % 64 != 56) m += '\0'; for (int i = 7; i >= 0; --i) m += (char)(bits >> (8 * i));
        auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
        for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for (int t = 0; t < 16; ++t) w[t] = (uint32_t)(unsigned char)m[o + 4 * t] << 24 | (uint32_t)(unsigned char)m[o + 4 * t + 1] << 16 | (uint32_t)(unsigned char)m[o + 4 * t + 2] << 8 | (unsigned char)m[o + 4 * t + 3]; for (int t = 16; t < 80; ++t) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
            uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int t = 0; t < 80; ++t) { uint32_t const f = t < 20 ? (b & c) | (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d, k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6, x = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(b, 30); b = a; a = x; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
        std::array<unsigned char, 20> r; for (int i = 0; i < 20; ++i) r[(size_t)i] = (unsigned char)(h[i / 4] >> (24 - 8 * (i % 4))); return r;
    }
};
using Bytes = std::array<unsigned char, 16>;
Bytes gen(pbt::Ctx & c) { Bytes b; unsigned const k = (unsigned)c.draw(3); for (auto & x : b) x = k == 0 ? 0 : k == 1 ? (unsigned char)c.pick(std::vector<int>{0, 0xff, 0x7f, 0x80, 0x0a, 0xa0}) : (unsigned char)c.bits(8); if (k == 0 && c.coin()) b[c.draw(15)] = (unsigned char)c.bits(8); return b; }
Uuid make(Bytes const & b) { Uuid u; std::copy(b.begin(), b.end(), u.begin()); return u; }
std::string text(Bytes const & b) { std::string s; for (size_t i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) s += '-'; s += "0123456789abcdef"[b[i] >> 4]; s += "0123456789abcdef"[b[i] & 15]; } return s; }
bool wellFormed(std::string const & s) { if (s.size() != 36) return false; for (size_t i = 0; i < 36; ++i) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !std::isxdigit((unsigned char)s[i])) return false; return true; }
Bytes const ns = {{0x53, 0x68, 0x61, 0x72, 0x65, 0x6d, 0x69, 0x6e, 0x64, 0x7e, 0x28, 0x5e, 0x5f, 0x5e, 0x29, 0x7e}};
Bytes nameBytes(std::string const & name) { auto const h = Sha1::of(std::string(ns.begin(), ns.end()) + name); Bytes b; std::copy(h.begin(), h.begin() + 16, b.begin()); b[6] = (unsigned char)((b[6] & 0x0f) | 0x50); b[8] = (unsigned char)((b[8] & 0x3f) | 0x80); return b; }
}

PBT_PROP(values, 80000, 3000000, "at least two distinct bytes") {
    Bytes const a = gen(c); Bytes b = c.chance(1, 3) ? a : gen(c); if (c.chance(1, 4)) { b = a; b[c.draw(15)] ^= (unsigned char)(1 << c.draw(7)); }
    Uuid const u = make(a), v = make(b); std::string const s = text(a); c.trace("%s, %s", s.c_str(), text(b).c_str());
    std::string const got = sm::uuidToString(u); if (got != s) pbt::fail("text is %s", got.c_str()); CHECK(sm::uuidFromString(s) == u);
    std::string upper = s; for (auto & x : upper) if (c.coin()) x = (char)std::toupper(x); CHECK(sm::uuidFromString(upper) == u); { std::ostringstream os; os << u; CHECK(os.str() == s); std::istringstream is(s + "-tail"); Uuid w; is >> w; CHECK(!is.fail()); CHECK(w == u); }
    CHECK_EQ(u == v, a == b); CHECK_EQ(u != v, a != b); CHECK_EQ(u < v, a < b); CHECK_EQ(u > v, a > b); CHECK_EQ(u <= v, a <= b); CHECK_EQ(u >= v, a >= b);
    std::hash<Uuid> h; CHECK_EQ(h(u), h(make(a))); CHECK_EQ(h(u), boost::hash<Uuid>()(u)); if (a == b) CHECK_EQ(h(u), h(v)); size_t distinct = 0; for (int i = 0; i < 16; ++i) { Bytes d = a; d[(size_t)i] ^= 1; distinct += h(make(d)) != h(u); } CHECKM(distinct >= 8, "hashes ignore most of the value");
    std::unordered_set<Uuid> us{u, v}; CHECK_EQ(us.size(), (size_t)(a == b ? 1 : 2)); CHECK_EQ(us.count(u), (size_t)1); std::set<Uuid> os{u, v}; CHECK(*os.begin() == make(std::min(a, b)));
    if (std::set<unsigned char>(a.begin(), a.end()).size() >= 2) c.nontrivial(); if (a == b) c.label("equal");
}
PBT_PROP(texts, 80000, 3000000, "malformed") {
    std::string s = text(gen(c)); size_t const edits = c.draw(3); static char const alpha[] = "0fFgG-_ {}:\0\n\tzZ@`/x";
    for (size_t i = 0; i < edits; ++i) { char const x = alpha[c.draw(sizeof(alpha) - 2)]; size_t const p = c.draw(s.size()); switch (c.draw(5)) { case 0: s.insert(p, 1, x); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = x; break; case 3: s.resize(p); break; case 4: s += x; break; default: s.insert(0, 1, x); } if (s.empty()) break; }
    bool const ok = wellFormed(s); c.trace("'%s' (%zu)", s.c_str(), s.size()); bool refused = false; Uuid u{};
    try { u = sm::uuidFromString(s); } catch (boost::bad_lexical_cast const &) { refused = true; }
    CHECK_EQ(refused, !ok); if (ok) { std::string l = s; for (auto & x : l) x = (char)std::tolower(x); CHECK(sm::uuidToString(u) == l); } else c.nontrivial();
}
PBT_PROP(names, 60000, 2000000, "non-empty name") {
    std::string n; size_t const len = c.length(150, 20); for (size_t i = 0; i < len; ++i) n += c.chance(1, 8) ? (char)c.bits(8) : (char)c.range<int>(32, 126); Bytes const want = nameBytes(n); c.trace("name of %zu bytes", n.size());
    Uuid const u = sm::generateSharemindNameUuid(n); if (u != make(want)) pbt::fail("got %s, expected %s", sm::uuidToString(u).c_str(), text(want).c_str());
    CHECK(sm::generateSharemindNameUuid(static_cast<void const *>(n.data()), n.size()) == u); sm::SharemindUuidGenerator g; CHECK(g(n) == u); CHECK(g(n) == u); std::string const z = n.c_str(); CHECK(sm::generateSharemindNameUuid(n.c_str()) == make(nameBytes(z))); CHECK(sm::generateSharemindNameUuid(std::string(n)) == u);
    CHECK((int)u.version() == (int)Uuid::version_name_based_sha1); CHECK((int)u.variant() == (int)Uuid::variant_rfc_4122); CHECK(sm::sharemindNamespaceUuid == make(ns)); CHECK(sm::UuidNameGenerator(make(ns))(n) == u); if (!n.empty()) c.nontrivial();
}
