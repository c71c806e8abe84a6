// C09, sequential part: object trees against a model of the tree.
#include <sharemind/ObjectTree.h>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <vector>
#include "pbt.h"
#include "newfail.h"

namespace {
struct Node;
struct World {
    std::map<int, Node *> live;
    std::map<int, int> parentOf;          // model: -1: none
    std::map<int, std::vector<int>> owns; // nodes a node destroys in its own destructor
    std::set<int> dying;
    std::vector<int> log;
    int next = 0;
    std::vector<int> children(int id) const { std::vector<int> r; for (auto & p : parentOf) if (p.second == id) r.push_back(p.first); return r; }
    void subtree(int id, std::set<int> & s) const { if (s.insert(id).second) for (int k : children(id)) subtree(k, s); }
    bool mayDestroy(int id) const { // nothing on the way to its destruction in its subtree
        if (!live.count(id) || dying.count(id)) return false;
        std::set<int> s; subtree(id, s);
        for (int d : dying) if (s.count(d)) return false;
        return true;
    }
};
World * W = nullptr;

struct Base { virtual ~Base() {} int pad = 42; };
struct Node : Base {
    using Parents = sharemind::ObjectTree::ParentNode<Node, Node, std::mutex>;
    int id; uint32_t magic = 0x600dcafe;
    struct Dead { Node & n; ~Dead() { n.dead(); } } deadMark{*this}; // destroyed last
    Parents parents;
    sharemind::ObjectTree::ChildNode<Parents, &Node::parents> child;
    Node(Node * p, int i) : id(i), parents(&Node::destroy), child(p, this) { W->live[i] = this; }
    static void destroy(Node * n) { if (n->magic != 0x600dcafe) pbt::fail("destructor called for a dead child"); delete n; }
    ~Node() {
        if (magic != 0x600dcafe) pbt::fail("node destroyed twice");
        W->dying.insert(id); W->log.push_back(id);
        auto const own = W->owns.find(id);
        if (own != W->owns.end()) for (int o : own->second) if (W->mayDestroy(o)) delete W->live.at(o);
    }
    void dead() {
        magic = 0xdeadbeef;
        if (!W->live.count(id)) return; // the constructor threw
        if (!W->live.erase(id)) pbt::fail("node %d destroyed twice", id);
        W->dying.erase(id); W->parentOf.erase(id);
    }
};
}

static bool init = (pbt::options.checkLeaks = true, pbt::options.hangSeconds = 5, true);

PBT_PROP(tree, 250000, 6000000, "random creation and destruction of nodes of a multi-level tree, nodes destroying others in their destructors, allocation failures; non-trivial if a parent was destroyed with at least two children, one of them a parent, and some child was destroyed before its parent") {
    World w; W = &w; bool deep = false, early = false;
    auto check = [&] {
        CHECK_EQ(w.live.size(), w.parentOf.size());
        for (auto & l : w.live) {
            CHECK(l.second->magic == 0x600dcafe); int const p = w.parentOf.at(l.first);
            CHECK(l.second->child.parent() == (p < 0 ? nullptr : w.live.at(p)));
            std::set<Node *> exp; for (int k : w.children(l.first)) exp.insert(w.live.at(k));
            CHECK(l.second->parents.children() == exp); CHECK_EQ(l.second->parents.numChildren(), exp.size());
        }
    };
    auto anyLive = [&] { auto it = w.live.begin(); std::advance(it, c.draw(w.live.size() - 1)); return it->first; };
    // Which nodes destroying id destroys, following the same rule as the destructors.
    auto destroy = [&](int id) {
        std::set<int> before; for (auto & l : w.live) before.insert(l.first);
        std::set<int> sub; w.subtree(id, sub);
        auto const ch = w.children(id);
        bool grand = false; for (int k : ch) grand = grand || !w.children(k).empty();
        if (ch.size() >= 2 && grand) deep = true;
        if (w.parentOf[id] >= 0) early = true;
        World pre; pre.parentOf = w.parentOf;
        w.log.clear(); c.trace("destroy %d", id);
        delete w.live.at(id);
        std::set<int> gone; for (int x : w.log) { CHECK(gone.insert(x).second); CHECK(before.count(x)); }
        CHECK(w.dying.empty());
        for (int x : sub) CHECKM(gone.count(x), "node %d of the destroyed tree was not destroyed", x);
        for (int x : gone) CHECK(!w.live.count(x));
        // any other destroyed node was destroyed by an owner, with its subtree
        std::set<int> allowed(sub);
        for (bool grew = true; grew;) { grew = false; for (int x : std::set<int>(allowed)) if (w.owns.count(x)) for (int o : w.owns[x]) if (before.count(o) && !allowed.count(o)) { pre.subtree(o, allowed); grew = true; } }
        for (int x : gone) CHECKM(allowed.count(x), "node %d was destroyed although nothing above it was", x);
        if (w.owns.empty()) CHECK(gone == sub);
        for (int x : gone) w.owns.erase(x);
    };
    bool const big = c.chance(1, 300); // now and then a node has many children
    for (size_t n = 0; c.more(n, big ? 80 : 25, 200); ++n) {
        switch (c.weighted({6 + (big ? 14u : 0), 3, 1, 1})) {
        case 0: { // create
            int const p = w.live.empty() || c.chance(1, 6) ? -1 : big && c.chance(3, 4) ? w.live.begin()->first : anyLive(); int const id = w.next++; long const fail = c.chance(1, 12) ? (long)c.draw(3) : -1;
            c.trace("create %d under %d%s", id, p, fail >= 0 ? " (allocation failure)" : "");
            Node * const parent = p < 0 ? nullptr : w.live.at(p); bool thrown = false; Node * made = nullptr;
            newfail::countdown = fail;
            try { made = new Node(parent, id); } catch (std::bad_alloc const &) { thrown = true; }
            newfail::countdown = -1;
            if (thrown) { CHECK(fail >= 0); w.live.erase(id); c.label("creation failed"); } else { w.live[id] = made; w.parentOf[id] = p; }
            break; }
        case 1: if (!w.live.empty()) destroy(anyLive()); break;
        case 2: if (w.live.size() >= 2) { int a = anyLive(), b = anyLive(); if (a != b) { w.owns[a].push_back(b); c.trace("%d will destroy %d", a, b); c.label("owner"); } } break;
        default: { // a parent whose creation fails midway or a free child
            Node::Parents p(&Node::destroy); CHECK_EQ(p.numChildren(), 0u); CHECK(p.children().empty()); }
        }
        check();
    }
    while (!w.live.empty()) { destroy(w.live.begin()->first); check(); }
    c.nontrivial(deep && early);
    W = nullptr;
}

// Parents and children of different types, a secondary base as the child's
// hook, and a destroyer with state.
namespace {
struct Child;
struct Parent {
    using PN = sharemind::ObjectTree::ParentNode<Parent, Child, std::mutex>;
    PN node;
    template <typename F> explicit Parent(F f) : node(std::move(f)) {}
};
struct Front { virtual ~Front() {} long pad[3]; };
struct Child : Front, sharemind::ObjectTree::ChildNode<Parent::PN, &Parent::node> {
    pbt::Tracked t;
    Child(Parent * p, int v) : sharemind::ObjectTree::ChildNode<Parent::PN, &Parent::node>(p, this), t(v) {}
};
}
PBT_PROP(separate, 60000, 1000000, "parents and children of different types, the child hook in a secondary base, a stateful destroyer; non-trivial if both a child and a parent went first") {
    pbt::Tracked::live = 0; pbt::Tracked::throwAt = -1;
    std::map<int, int> freed; std::map<int, std::unique_ptr<Parent>> parents; std::map<int, std::map<int, Child *>> kids; int next = 0; bool cf = false, pf = false;
    bool const big = c.chance(1, 150);
    for (size_t n = 0; c.more(n, big ? 150 : 15, big ? 400 : 100); ++n) {
        int const k = (int)c.draw(2);
        switch (c.weighted({1, 3 + (big ? 60u : 0), 2, 1})) {
        case 0: if (!parents[k]) parents[k].reset(new Parent([&freed, k](Child * ch) { freed[ch->t.v] = k; delete ch; })); break;
        case 1: { auto p = parents[k].get(); Child * ch = new Child(p, next); CHECK(ch->parent() == p); if (p) kids[k][next] = ch; else delete ch; ++next; break; }
        case 2: if (!kids[k].empty()) { auto it = kids[k].begin(); std::advance(it, c.draw(kids[k].size() - 1)); delete it->second; CHECK(!freed.count(it->first)); kids[k].erase(it); cf = true; } break;
        default: if (parents[k]) { freed.clear(); parents[k].reset(); CHECK_EQ(freed.size(), kids[k].size()); for (auto & x : kids[k]) CHECK(freed.count(x.first) && freed[x.first] == k); if (!kids[k].empty()) pf = true; kids[k].clear(); }
        }
        long total = 0;
        for (auto & p : parents) if (p.second) { std::set<Child *> e; for (auto & x : kids[p.first]) { CHECK_EQ(x.second->t.v, x.first); CHECK(x.second->parent() == p.second.get()); e.insert(x.second); } CHECK(p.second->node.children() == e); CHECK_EQ(p.second->node.numChildren(), e.size()); total += e.size(); }
        CHECK_EQ(pbt::Tracked::live, total);
    }
    parents.clear(); CHECK_EQ(pbt::Tracked::live, 0);
    c.nontrivial(cf && pf);
}

// Families which no byte can count, wide and deep.
namespace {
struct Link {
    using PN = sharemind::ObjectTree::ParentNode<Link, Link, std::mutex>;
    PN node; sharemind::ObjectTree::ChildNode<PN, &Link::node> child; size_t id; std::vector<size_t> & gone;
    Link(Link * p, size_t i, std::vector<size_t> & g) : node([](Link * l) { delete l; }), child(p, this), id(i), gone(g) {}
    ~Link() { gone.push_back(id); }
};
}
PBT_PROP(large, 12, 300, "a long chain, or some children went first") {
    std::vector<size_t> gone; bool const deep = c.coin(); size_t const n = c.pick<size_t>({127, 128, 255, 256, 257, 300, 513}), early = deep ? 0 : c.draw(n / 2);
    c.trace("%zu nodes %s, %zu go first", n, deep ? "in a chain" : "under one", early);
    std::vector<Link *> l; l.push_back(new Link(nullptr, 0, gone));
    for (size_t i = 1; i <= n; ++i) { Link * const p = deep ? l[i - 1] : l[0]; l.push_back(new Link(p, i, gone)); CHECK(l[i]->child.parent() == p); if (!deep) CHECK_EQ(l[0]->node.numChildren(), i); }
    std::set<Link *> e(l.begin() + 1, l.end()); if (!deep) CHECK(l[0]->node.children() == e);
    for (size_t i = 0; i < early; ++i) { size_t const k = 1 + c.draw(n - 1); if (!e.erase(l[k])) continue; delete l[k]; CHECK_EQ(l[0]->node.numChildren(), e.size()); }
    if (!deep) CHECK(l[0]->node.children() == e);
    CHECK_EQ(gone.size(), n - e.size()); delete l[0];
    std::set<size_t> const all(gone.begin(), gone.end()); CHECK_EQ(gone.size(), n + 1); CHECK_EQ(all.size(), n + 1);
    if (deep || early) c.nontrivial();
}
