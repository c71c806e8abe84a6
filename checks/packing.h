// Field values for the packed structure checks: every field value is generated
// and compared as bytes.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "pbt.h"

namespace packing {
using Bytes = std::vector<unsigned char>;
enum class Enum : uint16_t { A = 1, B = 0xfffe };
struct Odd { unsigned char b[5]; int16_t s; }; // padded: 8 bytes, alignment 2
struct __attribute__((aligned(16))) Wide { double d; char c; };
static_assert(sizeof(Odd) == 8 && sizeof(Wide) == 16, "");

template <typename T> Bytes bytesOf(T const & v) { Bytes r(sizeof(T)); std::memcpy(r.data(), std::addressof(v), sizeof(T)); return r; }
template <typename T> T fromBytes(unsigned char const * p) { typename std::aligned_storage<sizeof(T), alignof(T)>::type s; std::memcpy(&s, p, sizeof(T)); return *reinterpret_cast<T *>(&s); }
template <typename T> struct Gen { static Bytes gen(pbt::Ctx & c) { Bytes r(sizeof(T)); unsigned const k = (unsigned)c.draw(3); for (auto & b : r) b = k == 0 ? 0 : k == 1 ? 0xff : (unsigned char)c.bits(8); return r; } };
template <> struct Gen<bool> { static Bytes gen(pbt::Ctx & c) { return Bytes(1, (unsigned char)c.coin()); } };
// Floating point values pass through registers as values, so no signalling NaNs:
template <> struct Gen<float> { static Bytes gen(pbt::Ctx & c) { return bytesOf((float)c.range(-100000, 100000) / 64.0f); } };
template <> struct Gen<double> { static Bytes gen(pbt::Ctx & c) { return bytesOf((double)(int64_t)c.bits(50) / -1024.0); } };
// Padding bytes of objects passed by value are unspecified, so they are zero:
template <> struct Gen<Odd> { static Bytes gen(pbt::Ctx & c) { Odd o; std::memset(&o, 0, sizeof(o)); for (auto & b : o.b) b = (unsigned char)c.bits(8); o.s = (int16_t)c.bits(16); return bytesOf(o); } };
template <> struct Gen<Wide> { static Bytes gen(pbt::Ctx & c) { Wide o; std::memset(&o, 0, sizeof(o)); o.d = (double)c.bits(20) / 4; o.c = (char)c.bits(8); return bytesOf(o); } };
template <typename T> Bytes gen(pbt::Ctx & c) { return Gen<typename std::remove_cv<T>::type>::gen(c); }

// Equality of a value read and the bytes written, ignoring padding.
template <typename T> struct Same { static bool same(T const & v, unsigned char const * b) { return std::memcmp(std::addressof(v), b, sizeof(T)) == 0; } };
template <> struct Same<Odd> { static bool same(Odd const & v, unsigned char const * b) { Odd o = fromBytes<Odd>(b); return std::memcmp(v.b, o.b, 5) == 0 && v.s == o.s; } };
template <> struct Same<Wide> { static bool same(Wide const & v, unsigned char const * b) { Wide o = fromBytes<Wide>(b); return v.d == o.d && v.c == o.c; } };
template <typename T> bool same(T const & v, unsigned char const * b) { return Same<T>::same(v, b); }
inline std::string hex(unsigned char const * p, size_t n) { std::string r; char t[4]; for (size_t i = 0; i < n; ++i) { std::snprintf(t, 4, "%02x", p[i]); r += t; } return r; }
inline void sameBytes(void const * p, Bytes const & m, char const * what) {
    unsigned char const * const q = static_cast<unsigned char const *>(p);
    if (!m.empty() && std::memcmp(q, m.data(), m.size()) != 0) pbt::fail("%s: bytes %s, expected %s", what, hex(q, m.size()).c_str(), hex(m.data(), m.size()).c_str());
}
// An exactly sized heap buffer starting at the given offset from 16-byte alignment.
struct Buffer {
    std::unique_ptr<unsigned char[]> store; size_t off, size;
    Buffer(size_t n, size_t o) : store(new unsigned char[n + o]), off(o), size(n) { std::memset(store.get(), 0, n + o); }
    unsigned char * data() const { return store.get() + off; }
};
}
