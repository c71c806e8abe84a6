// C27 support: what a callable applied to tuples receives, and what a
// null-free tuple keeps.
#pragma once
#include <sharemind/ApplyTuples.h>
#include <sharemind/NoNullTuple.h>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "pbt.h"
namespace c27 {
template <typename T> struct Id { static char v; };
template <typename T> char Id<T>::v;
struct Arg { void const * type; void const volatile * addr; bool operator==(Arg const & o) const { return type == o.type && addr == o.addr; } };
using Args = std::vector<Arg>;
template <typename T> void record(Args & r, T && v) { r.push_back({&Id<T &&>::v, std::addressof(v)}); }
// What is expected: element I of a tuple of value category T &&
template <typename T, size_t ... Is> void elements(Args & r, T && t, std::index_sequence<Is...>) { int x[] = {0, (record<decltype(std::get<Is>(std::forward<T>(t)))>(r, std::get<Is>(std::forward<T>(t))), 0)...}; (void)x; }
inline void expect(Args &) {}
template <typename T, typename ... Ts> void expect(Args & r, T && t, Ts && ... ts) { elements(r, std::forward<T>(t), std::make_index_sequence<std::tuple_size<std::decay_t<T>>::value>()); expect(r, std::forward<Ts>(ts)...); }
struct Callable {
    Args got; unsigned calls = 0; char category = 0; int ret = 0; std::unique_ptr<int> moveOnly;
    template <typename ... A> void rec(char c, A && ... a) { ++calls; category = c; int x[] = {0, (record<A &&>(got, std::forward<A>(a)), 0)...}; (void)x; }
    template <typename ... A> std::unique_ptr<int> operator()(A && ... a) & { rec('&', std::forward<A>(a)...); return std::make_unique<int>(ret); }
    template <typename ... A> std::unique_ptr<int> operator()(A && ... a) && { rec('m', std::forward<A>(a)...); return std::make_unique<int>(ret); }
    template <typename ... A> std::unique_ptr<int> operator()(A && ... a) const & { const_cast<Callable *>(this)->rec('c', std::forward<A>(a)...); return std::make_unique<int>(ret); }
};
template <typename ... Ts> void applied(pbt::Ctx & c, Ts && ... ts) {
    Args e; expect(e, std::forward<Ts>(ts)...); Callable f; f.ret = (int)c.draw(1000); unsigned const k = (unsigned)c.draw(2); std::unique_ptr<int> r;
    if (k == 0) r = sharemind::applyTuples(f, std::forward<Ts>(ts)...); else if (k == 1) r = sharemind::applyTuples(std::move(f), std::forward<Ts>(ts)...); else r = sharemind::applyTuples(const_cast<Callable const &>(f), std::forward<Ts>(ts)...);
    CHECK_EQ(f.calls, 1u); CHECK_EQ(f.category, "&mc"[k]); CHECK(r && *r == f.ret);
    CHECK_EQ(f.got.size(), e.size()); for (size_t i = 0; i < e.size(); ++i) { CHECKM(f.got[i].addr == e[i].addr, "argument %zu is not the element", i); CHECKM(f.got[i].type == e[i].type, "argument %zu has another type or value category", i); }
    auto const v = sharemind::applyTuples([&](auto && ... a) { Args x; int y[] = {0, (record<decltype(a)>(x, std::forward<decltype(a)>(a)), 0)...}; (void)y; return x; }, std::forward<Ts>(ts)...); CHECK(v == e);
    if (e.size() >= 3) c.nontrivial();
}
struct Big { int a; std::string s; bool operator==(Big const & o) const { return a == o.a && s == o.s; } };
// Values for elements; the same values again from the same seed:
template <typename T> struct Val { static T make(int v) { return (T)v; } };
template <> struct Val<std::string> { static std::string make(int v) { return std::string((size_t)v % 30, (char)('a' + v % 26)); } };
template <> struct Val<Big> { static Big make(int v) { return {v, Val<std::string>::make(v)}; } };
template <> struct Val<std::unique_ptr<int>> { static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); } };
template <typename T> bool same(T const & a, T const & b) { return a == b; }
inline bool same(std::unique_ptr<int> const & a, std::unique_ptr<int> const & b) { return a && b && *a == *b; }
struct Convertible { operator std::nullptr_t() const { return nullptr; } bool operator==(Convertible const &) const { return true; } };
extern int cells[16];
}
