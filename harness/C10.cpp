// modules: graph
// C10: rooted trees: ancestors, lowest common ancestor, distance, heights, links.
#include "graph/Tree.h"

#include <algorithm>
#include "util.h"

using cuhksz::Node;
using cuhksz::Tree;

struct World {
  std::vector<Node*> n;
  std::vector<int> fa, h, id, val;
  std::vector<std::vector<int>> son;
  Tree t;
  ~World() {
    for (auto x : n) delete x;
  }
  int no(Node* x) const {
    for (size_t i = 0; i < n.size(); i++)
      if (n[i] == x) return (int)i;
    return x ? -2 : -1;
  }
  void root(int ident, int v) {
    n.push_back(new Node(ident, v)), fa.push_back(-1), h.push_back(0), id.push_back(ident), val.push_back(v);
    son.push_back({});
    t.setRoot(n[0]);
  }
  void add(int parent, int ident, int v) {
    int k = (int)n.size();
    n.push_back(v ? new Node(ident, v) : new Node(ident));
    fa.push_back(parent), h.push_back(h[parent] + 1), id.push_back(ident), val.push_back(v);
    son.push_back({});
    son[parent].push_back(k);
    t.addNode(n[k], n[parent]);
  }
  int up(int a, int k) const {
    while (k-- > 0) a = fa[a];
    return a;
  }
  int lca(int a, int b) const {
    while (h[a] > h[b]) a = fa[a];
    while (h[b] > h[a]) b = fa[b];
    while (a != b) a = fa[a], b = fa[b];
    return a;
  }
  void checkPair(int a, int b) {
    int l = lca(a, b), got = no(t.LCA(n[a], n[b]));
    if (got != l) mc::fail("lca", "LCA of nodes %d and %d is %d, expected %d", a, b, got, l);
    int d = h[a] + h[b] - 2 * h[l], gd = t.getDistance(n[a], n[b]);
    if (gd != d) mc::fail("distance", "distance of %d and %d is %d, expected %d", a, b, gd, d);
  }
  void checkAnc(int a, int k) {
    int got = no(n[a]->getAncestor(k)), want = up(a, k);
    if (got != want) mc::fail("ancestor", "ancestor %d of node %d is %d, expected %d", k, a, got, want);
  }
  void checkNode(int a) {
    if (n[a]->getHeight() != h[a]) mc::fail("height", "height of node %d is %d, expected %d", a, n[a]->getHeight(), h[a]);
    if (no(n[a]->getFa()) != fa[a]) mc::fail("parent", "parent of node %d wrong", a);
    if (n[a]->getDegree() != (int)son[a].size()) mc::fail("degree", "degree of node %d is %d, expected %zu", a, n[a]->getDegree(), son[a].size());
    std::vector<int> g;
    for (Node* s : n[a]->getSon()) g.push_back(no(s));
    std::vector<int> w = son[a];
    std::sort(g.begin(), g.end());
    std::sort(w.begin(), w.end());
    if (g != w) mc::fail("children", "children of node %d wrong", a);
    if (n[a]->getID() != id[a] || n[a]->getVal() != val[a]) mc::fail("altered", "node %d was altered", a);
  }
  void full() {
    mc::ops(1);
    int k = (int)n.size();
    if (t.getRoot() != n[0]) mc::fail("root", "root wrong");
    for (int round = 0; round < 2; round++) {
      for (int a = 0; a < k; a++) {
        checkNode(a);
        for (int j = 0; j <= h[a]; j++) checkAnc(a, j);
      }
      for (int a = 0; a < k; a++)
        for (int b = 0; b < k; b++) checkPair(a, b);
    }
  }
  void note() {
    mc::state(mc::Hash().range(fa.begin(), fa.end()));
  }
};

// every rooted tree with up to k nodes, in every order of top-down construction
MC_SCOPE_LEAK(all_trees) {
  World w;
  int k = mc::range(1, mc::bound(9, 10));
  bool each = mc::flip();
  w.root(0, 5);
  for (int i = 1; i < k; i++) {
    int p = mc::choose(i);
    MC_OP("node %d under %d", i, p);
    w.add(p, each ? i : i % 2, i % 3);  // identifiers need not differ
    if (each && i < 6) w.full();
  }
  w.full();
  w.note();
}
// a spine of every depth with up to three branches hanging at chosen places, built in two orders
MC_SCOPE_LEAK(spines) {
  int d = mc::range(1, mc::bound(34, 66));
  World w;
  w.root(-1, 1);
  MC_OP("spine of depth %d", d);
  for (int i = 1; i <= d; i++) w.add(i - 1, i * 10, i);
  int at = mc::choose(d + 1), len = mc::range(1, mc::bound(9, 17));
  MC_OP("branch of %d at depth %d", len, at);
  int p = at;
  for (int i = 0; i < len; i++) w.add(p, 1000 + i, 0), p = (int)w.n.size() - 1;
  static const int L2[] = {0, 1, 3, 8};
  int l2 = mc::pick(L2);
  if (l2) {
    int from = mc::flip() ? p : d / 2;
    MC_OP("second branch of %d at node %d", l2, from);
    p = from;
    for (int i = 0; i < l2; i++) w.add(p, 2000 + i, 0), p = (int)w.n.size() - 1;
  }
  w.full();
  mc::beat();
  w.note();
}
// larger shapes
MC_SCOPE_LEAK(ladder) {
  int n = mc::size(1, mc::bound(110, 200), {127, 128, 129, 130}), fam = mc::choose(6);
  MC_OP("%d nodes, family %d", n, fam);
  World w;
  w.root(7, 7);
  for (int i = 1; i < n; i++) {
    int p;
    switch (fam) {
      case 0: p = i - 1; break;                          // path
      case 1: p = 0; break;                              // star
      case 2: p = (i - 1) / 2; break;                    // binary heap
      case 3: p = i < 2 ? 0 : i - 2; break;              // two paths
      case 4: p = (int)(mc::scramble(i, n) % i); break;  // random recursive tree
      default: p = i % 4 == 3 ? i - 3 : i - 1; break;    // comb
    }
    w.add(p, n % 3 == 0 ? 7 : n % 3 == 1 ? i : -i, n % 2 ? i : 4);
  }
  int k = (int)w.n.size();
  for (int a = 0; a < k; a++) {
    w.checkNode(a);
    for (int j = 0; j <= w.h[a]; j++) w.checkAnc(a, j);
    for (int b = 0; b < k; b++) w.checkPair(a, b);
    mc::ops(1), mc::beat();
  }
  w.note();
}
// deep path: powers of two around the table sizes
MC_SCOPE_LEAK(deep) {
  int d = mc::size(mc::bound(200, 100), mc::bound(300, 600), {511, 512, 513, 1000, 1023, 1024, 1025});
  World w;
  w.root(0, 0);
  MC_OP("path of depth %d", d);
  for (int i = 1; i <= d; i++) w.add(i - 1, i, i);
  int at = mc::pick({0, 1, 2, 100, 127, 128, 254});
  if (at > d) return;
  int p = at;
  for (int i = 0; i < 40; i++) w.add(p, 5000 + i, 0), p = (int)w.n.size() - 1;
  for (int j = 0; j <= d; j++) w.checkAnc(d, j);
  mc::beat();
  for (int b = 0; b < (int)w.n.size(); b += 3) w.checkPair(d, b), w.checkPair(b, p), w.checkPair(p, d - b % 5);
  mc::ops(w.n.size());
  w.note();
}
// very deep paths with a branch: ancestor tables of every size up to 17 entries
MC_SCOPE_LEAK(huge) {
  int d = mc::pick({2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000}), at = mc::choose(6);
  int p = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? d / 2 : at == 3 ? d - 1 : at == 4 ? d : d / 3, k = mc::pick({1, 2, 40, 5000});
  MC_OP("path of depth %d, a branch of %d at %d", d, k, p);
  mc::state(mc::Hash().add(d).add(p).add(k));
  std::vector<std::unique_ptr<Node>> v;
  Tree t;
  for (int i = 0; i <= d + k; i++) v.emplace_back(new Node(i, i));
  t.setRoot(v[0].get());
  for (int i = 1; i <= d; i++) {
    t.addNode(v[i].get(), v[i - 1].get());
    if (i % 256 == 0) mc::beat();
  }
  for (int i = 1; i <= k; i++) t.addNode(v[d + i].get(), i == 1 ? v[p].get() : v[d + i - 1].get());
  mc::beat();
  auto up = [&](int a, int j) { return a <= d ? a - j : j >= a - d ? p - (j - (a - d)) : a - j; };
  auto height = [&](int a) { return a <= d ? a : p + (a - d); };
  for (int a : {d, d - 1, d + 1, d + k, d / 2, p}) {
    MC_CHECK(v[a]->getHeight() == height(a), "height", "height of %d is %d", a, v[a]->getHeight());
    for (int j = 0; j <= height(a); j += j < 20 || j > height(a) - 20 || (j & (j - 1)) == 0 || (j & (j + 1)) == 0 ? 1 : 37)
      MC_CHECK(v[a]->getAncestor(j) == v[up(a, j)].get(), "ancestor", "ancestor %d of node %d wrong", j, a);
  }
  mc::beat();
  for (int a : {0, 1, p, d, d - 1, d / 2, d + 1, d + k})
    for (int b : {0, 1, p, d, d - 1, d / 2, d + 1, d + k, d + (k + 1) / 2}) {
      int top = a <= d && b <= d ? std::min(a, b) : a > d && b > d ? std::min(a, b) : std::min(p, std::min(a, b));
      MC_CHECK(t.LCA(v[a].get(), v[b].get()) == v[top].get(), "lca", "LCA of %d and %d wrong", a, b);
      int dist = height(a) + height(b) - 2 * height(top);
      MC_CHECK(t.getDistance(v[a].get(), v[b].get()) == dist, "distance", "distance of %d and %d wrong", a, b);
      mc::ops(2);
    }
}
// one node with very many children, below a stem, every j-th child with a child of its own
MC_SCOPE_LEAK(wide) {
  int k = mc::pick({255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 100001});
  int stem = mc::pick({0, 1, 5}), every = mc::pick({0, 1, 7});
  MC_OP("%d children under a node at height %d, every %d-th with a child", k, stem, every);
  mc::state(mc::Hash().add(k).add(stem).add(every));
  std::vector<std::unique_ptr<Node>> v;
  std::vector<int> fa;
  Tree t;
  auto put = [&](int parent) {
    int i = (int)v.size();
    v.emplace_back(new Node(i, -i)), fa.push_back(parent);
    if (parent < 0) t.setRoot(v[i].get());
    else t.addNode(v[i].get(), v[parent].get());
    if (i % 256 == 0) mc::beat();
    return i;
  };
  for (int i = 0; i <= stem; i++) put(i - 1);
  std::vector<int> kids, below;
  for (int i = 0; i < k; i++) {
    kids.push_back(put(stem));
    below.push_back(every && i % every == 0 ? put(kids.back()) : -1);
  }
  mc::beat();
  Node* host = v[stem].get();
  MC_CHECK(host->getDegree() == k, "degree", "degree %d, expected %d", host->getDegree(), k);
  std::vector<Node*> got, want;
  for (Node* s : host->getSon()) got.push_back(s);
  for (int i : kids) want.push_back(v[i].get());
  std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
  MC_CHECK(got == want, "children", "children of the wide node wrong");
  mc::beat();
  for (int i = 0; i < k; i++) {
    Node* c = v[kids[i]].get();
    MC_CHECK(c->getFa() == host && c->getHeight() == stem + 1 && c->getID() == kids[i] && c->getVal() == -kids[i], "altered", "child %d wrong", i);
    MC_CHECK(c->getAncestor(0) == c && c->getAncestor(1) == host && c->getAncestor(stem + 1) == v[0].get(), "ancestor", "ancestors of child %d wrong", i);
    int j = (int)((long long)i * 7919 % k);
    Node *d = v[kids[j]].get(), *top = i == j ? c : host;
    MC_CHECK(t.LCA(c, d) == top && t.getDistance(c, d) == (i == j ? 0 : 2), "lca", "LCA of children %d and %d wrong", i, j);
    MC_CHECK(c->getDegree() == (below[i] >= 0), "degree", "degree of child %d is %d", i, c->getDegree());
    if (below[i] >= 0) {
      Node* b = v[below[i]].get();
      MC_CHECK(b->getFa() == c && b->getHeight() == stem + 2 && b->getAncestor(2) == host && b->getAncestor(stem + 2) == v[0].get(), "ancestor", "ancestors of grandchild %d wrong", i);
      MC_CHECK(t.LCA(b, d) == top && t.getDistance(b, d) == (i == j ? 1 : 3) && t.LCA(d, b) == top, "lca", "LCA of a grandchild and a child wrong");
      MC_CHECK(t.LCA(b, v[0].get()) == v[0].get() && t.getDistance(v[0].get(), b) == stem + 2, "lca", "LCA with the root wrong");
    }
    if (i % 256 == 0) mc::beat();
  }
  mc::ops(k);
}
// two trees do not affect each other, queries may come between insertions
MC_SCOPE_LEAK(two_trees) {
  World a, b;
  a.root(1, 1), b.root(1, 2);
  int n = mc::range(0, mc::bound(5, 6));
  for (int i = 0; i < n; i++) {
    World& w = mc::flip() ? a : b;
    int p = mc::choose((int)w.n.size());
    MC_OP("tree %c: node %zu under %d", &w == &a ? 'a' : 'b', w.n.size(), p);
    w.add(p, i, 0);
    if (i % 2 == 0) a.full(), b.full();
  }
  a.full(), b.full();
  a.note(), b.note();
}
