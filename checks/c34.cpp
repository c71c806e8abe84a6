// C34, histories: the queue against a deque.
#include <sharemind/MpscWaitFreeSemiIntrusiveQueue.h>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"

namespace {
namespace sm = sharemind;
template <typename T> struct Make; // value, its construction from nothing but a number, and what it is worth
template <> struct Make<int> { static int make(int v) { return v; } static int get(int const & t) { return t; } };
template <> struct Make<std::string> { static std::string make(int v) { return "a rather long string number " + std::to_string(v); } static int get(std::string const & t) { return t.empty() ? -1 : std::stoi(t.substr(28)); } };
template <> struct Make<std::unique_ptr<int>> { static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); } static int get(std::unique_ptr<int> const & t) { return t ? *t : -1; } };
struct Small { unsigned char c[3]; };
template <> struct Make<Small> { static Small make(int v) { return Small{{(unsigned char)v, (unsigned char)(v >> 8), (unsigned char)(v >> 16)}}; } static int get(Small const & s) { return s.c[0] | s.c[1] << 8 | s.c[2] << 16; } };
struct alignas(128) Wide { int v; Wide(int v = -1) noexcept : v(v) { if ((uintptr_t)this % 128) pbt::fail("the data is not aligned"); } Wide(Wide const & o) noexcept : Wide(o.v) {} Wide & operator=(Wide const &) = default; };
template <> struct Make<Wide> { static Wide make(int v) { return Wide(v); } static int get(Wide const & t) { return t.v; } };

template <typename T> void history(pbt::Ctx & c) {
    using Q = sm::MpscWaitFreeSemiIntrusiveQueue<T>; using Node = typename Q::Node; std::unique_ptr<Q> q(new Q()); CHECK((uintptr_t)q.get() % alignof(Q) == 0);
    std::deque<int> model; std::vector<std::unique_ptr<Node>> spare; int next = 0; size_t ops = 0, pops = 0, reused = 0, most = 0;
    while (c.more(ops++, 20, 120)) {
        unsigned const k = c.weighted({5, 4, 2, 1});
        if (k == 0 || (k == 2 && spare.empty())) { std::unique_ptr<Node> n(new Node(Make<T>::make(next))); CHECK((uintptr_t)n.get() % alignof(Node) == 0); CHECK(Make<T>::get(n->data) == next); q->push(std::move(n)); model.push_back(next++); c.trace("push"); }
        else if (k == 2) { auto n = std::move(spare.back()); spare.pop_back(); n->data = Make<T>::make(next); q->push(std::move(n)); model.push_back(next++); ++reused; c.trace("push a node again"); }
        else if (k == 1) { c.trace("pop"); auto n = q->pop(); CHECK(!!n == !model.empty()); if (n) { CHECK_EQ(Make<T>::get(n->data), model.front()); model.pop_front(); ++pops; if (c.coin()) spare.push_back(std::move(n)); } }
        CHECK(q->empty() == model.empty()); most = std::max(most, model.size());
    }
    if (c.coin()) { while (auto n = q->pop()) { CHECK(!model.empty()); CHECK_EQ(Make<T>::get(n->data), model.front()); model.pop_front(); } CHECK(model.empty()); CHECK(q->empty()); }
    if (pops >= 2 && most >= 2) c.nontrivial(); if (reused) c.label("nodes used again"); if (!model.empty()) c.label("destroyed with items left");
}
}
PBT_PROP(queueOfInts, 10000, 400000, "at least two items wait at once and two are popped") { history<int>(c); }
PBT_PROP(queueOfStrings, 10000, 400000, "at least two items wait at once and two are popped") { history<std::string>(c); }
PBT_PROP(queueOfPointers, 10000, 400000, "at least two items wait at once and two are popped") { history<std::unique_ptr<int>>(c); }
PBT_PROP(queueOfBytes, 5000, 200000, "at least two items wait at once and two are popped") { history<Small>(c); }
PBT_PROP(queueOfAligned, 5000, 200000, "at least two items wait at once and two are popped") { history<Wide>(c); }
PBT_PROP(longQueues, 60, 1500, "at least 20000 items are left") {
    using Q = sm::MpscWaitFreeSemiIntrusiveQueue<std::unique_ptr<int>>; size_t const n = c.chance(1, 6) ? 300000 : 20000 + c.draw(30000); auto q = std::unique_ptr<Q>(new Q()); for (size_t i = 0; i < n; ++i) q->push(std::unique_ptr<Q::Node>(new Q::Node(new int((int)i)))); size_t const k = c.draw(100); for (size_t i = 0; i < k; ++i) CHECK(*q->pop()->data == (int)i); q.reset(); c.nontrivial();
}
