// C09, concurrent part: siblings created, listed and destroyed by several threads.
#include <sharemind/ObjectTree.h>
#include <mutex>
#include <thread>
#include <vector>
#include "ctl.h"

namespace {
int * Destroyed = nullptr;
struct Node {
    using Parents = sharemind::ObjectTree::ParentNode<Node, Node, std::mutex>;
    int id; Parents parents; sharemind::ObjectTree::ChildNode<Parents, &Node::parents> child;
    Node(Node * p, int i) : id(i), parents([](Node * n) { delete n; }), child(p, this) {}
    ~Node() { sched::Quiet q; if (++Destroyed[id] > 1) pbt::fail("node %d destroyed twice", id); id = -1; }
};
struct Op { unsigned kind, what; };
}

PBT_PROP(threads, 120000, 3000000, "2-3 threads create, list and destroy siblings and nephews of one tree; non-trivial if at least two preemptions happened") {
    unsigned const nt = 2 + c.draw(1);
    static char const * const nm[] = {"create", "destroy", "list", "count", "create below own"};
    std::vector<std::vector<Op>> prog(nt);
    for (unsigned t = 0; t < nt; ++t) { c.trace("thread %u:", t); size_t n = 1 + c.draw(4); for (size_t i = 0; i < n; ++i) { Op o{c.weighted({5, 3, 2, 1, 1}), (unsigned)c.draw(3)}; prog[t].push_back(o); c.trace("  %s %u", nm[o.kind], o.what); } }
    int dest[64] = {}; Destroyed = dest;
    int made = 1;
    sched::run(c, [&] {
        auto root = new Node(nullptr, 0);
        std::vector<std::thread> ts; std::vector<int> left(nt);
        for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
            std::vector<Node *> mine;
            for (auto & o : prog[t]) switch (o.kind) {
            case 0: { int id; { sched::Quiet q; id = made++; } Node * n = new Node(root, id); CHECK(n->child.parent() == root); mine.push_back(n); break; }
            case 1: if (!mine.empty()) { size_t i = o.what % mine.size(); delete mine[i]; mine.erase(mine.begin() + i); } break;
            case 2: { auto s = root->parents.children(); size_t in = 0; for (Node * m : mine) { CHECK(s.count(m)); ++in; } for (Node * m : s) CHECK(m != nullptr); CHECK(s.size() >= in); break; }
            case 3: CHECK(root->parents.numChildren() >= mine.size()); break;
            default: if (!mine.empty()) { int id; { sched::Quiet q; id = made++; } Node * p = mine[o.what % mine.size()]; Node * n = new Node(p, id); CHECK(n->child.parent() == p); CHECK(p->parents.children().count(n) == 1); }
            }
            left[t] = (int)mine.size();
        });
        for (auto & t : ts) t.join();
        int total = 0; for (int l : left) total += l;
        CHECK_EQ((int)root->parents.numChildren(), total); CHECK_EQ((int)root->parents.children().size(), total);
        delete root;
    });
    for (int i = 0; i < made; ++i) CHECKM(dest[i] == 1, "node %d destroyed %d times", i, dest[i]);
    c.nontrivial(sched::switches() >= 2);
}
