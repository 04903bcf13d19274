// modules: graph
// C08: BST as a sequence of caller-owned nodes sorted by rank (equal ranks in insertion order).
#include "graph/BST.h"

#include <climits>
#include <memory>
#include "util.h"

using cuhksz::BST;
using cuhksz::BSTNode;

struct World {
  std::vector<BSTNode*> node;
  std::vector<int> rank, val;
  ~World() {
    for (auto n : node) delete n;
  }
  void add(int r, int v) { node.push_back(new BSTNode(r, v)), rank.push_back(r), val.push_back(v); }
  int id(BSTNode* n) const {
    for (size_t i = 0; i < node.size(); i++)
      if (node[i] == n) return (int)i;
    return n ? -2 : -1;
  }
};
typedef std::vector<int> Seq;  // node numbers in order

static void mInsert(const World& w, Seq& s, int n) {
  size_t i = s.size();
  while (i > 0 && w.rank[s[i - 1]] > w.rank[n]) i--;
  s.insert(s.begin() + i, n);
}
static void mErase(Seq& s, int n) {
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == n) {
      s.erase(s.begin() + i);
      return;
    }
}
static bool in(const Seq& s, int n) {
  for (int x : s)
    if (x == n) return true;
  return false;
}
static void qFind(BST& t, const World& w, const Seq& s, int k) {
  BSTNode* r = t.find(k);
  bool any = false;
  for (int x : s) any |= w.rank[x] == k;
  if (!any) {
    if (r) mc::fail("find", "find(%d) found a node, none has that rank", k);
    return;
  }
  int i = w.id(r);
  if (i < 0 || !in(s, i) || w.rank[i] != k) mc::fail("find", "find(%d) returned %s", k, r ? "a wrong node" : "nothing");
}
static void qPre(BST& t, const World& w, const Seq& s, size_t i) {
  int got = w.id(t.pre(w.node[s[i]])), want = i ? s[i - 1] : -1;
  if (got != want) mc::fail("pre", "predecessor of node %d is %d, expected %d", s[i], got, want);
}
static void qSuf(BST& t, const World& w, const Seq& s, size_t i) {
  int got = w.id(t.suf(w.node[s[i]])), want = i + 1 < s.size() ? s[i + 1] : -1;
  if (got != want) mc::fail("suf", "successor of node %d is %d, expected %d", s[i], got, want);
}
static void full(BST& t, const World& w, const Seq& s, int dir) {
  mc::ops(1);
  for (int r : w.rank) qFind(t, w, s, r);
  for (int r : {-1, 0, 1, 2, 3, 50, INT_MIN, INT_MAX}) qFind(t, w, s, r);
  if (dir == 0) {
    for (size_t i = 0; i < s.size(); i++) qSuf(t, w, s, i);
    for (size_t i = 0; i < s.size(); i++) qPre(t, w, s, i);
  } else {
    for (size_t i = s.size(); i-- > 0;) qPre(t, w, s, i), qSuf(t, w, s, i);
  }
  for (size_t i = 0; i < w.node.size(); i++)
    if (w.node[i]->getRank() != w.rank[i] || w.node[i]->getVal() != w.val[i])
      mc::fail("altered", "node %zu was altered", i);
}
static void ranks(World& w, int kind, int n) {
  static const int R[5][7] = {{0, 1, 2, 3, 4, 5, 6}, {1, 1, 1, 1, 1, 1, 1}, {2, 0, 2, 1, 0, 1, 2},
                              {INT_MIN, INT_MAX, 0, -1, INT_MAX, INT_MIN, 1}, {0, 0, 1, 1, 2, 2, 3}};
  for (int i = 0; i < n; i++) w.add(R[kind][i], 100 + i);
}
static void one(int nodes, int depth, bool queries) {
  World w;
  ranks(w, mc::choose(5), nodes);
  BST t;
  Seq s;
  int when = mc::choose(3);  // full check: at the end only / after every step, in two orders
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    int a = mc::choose(nodes);
    bool has = in(s, a);
    int op = queries && has ? mc::choose(4) : queries ? mc::choose(2) * 3 : 0;
    if (op == 3) {
      MC_OP("find %d", w.rank[a]);
      qFind(t, w, s, w.rank[a]);
    } else if (op == 0) {
      MC_OP("%s node %d (rank %d)", has ? "erase" : "insert", a, w.rank[a]);
      if (has)
        t.erase(w.node[a]), mErase(s, a);
      else
        t.insert(w.node[a]), mInsert(w, s, a);
    } else {
      size_t p = 0;
      while (s[p] != a) p++;
      MC_OP("%s of node %d", op == 1 ? "predecessor" : "successor", a);
      if (op == 1) qPre(t, w, s, p); else qSuf(t, w, s, p);
    }
    if (when) full(t, w, s, when - 1);
  }
  full(t, w, s, 0);
  full(t, w, s, 1);
  mc::state(mc::Hash().range(s.begin(), s.end()).range(w.rank.begin(), w.rank.end()));
}
// pure insert/erase histories (a node is inserted when out, erased when in)
MC_SCOPE_LEAK(toggle) { one(mc::bound(4, 5), mc::bound(7, 8), false); }
MC_SCOPE_LEAK(toggle_more) { one(mc::bound(6, 7), mc::bound(6, 7), false); }
// queries interleaved (they restructure the tree)
MC_SCOPE_LEAK(queries) { one(4, mc::bound(5, 6), true); }

// every insertion order of n nodes, then every erase order of a few
MC_SCOPE_LEAK(orders) {
  int n = mc::range(1, mc::bound(6, 7));
  World w;
  ranks(w, mc::choose(5), n);
  BST t;
  Seq s, left, inside;
  for (int i = 0; i < n; i++) left.push_back(i);
  while (!left.empty()) {
    int k = mc::choose((int)left.size());
    MC_OP("insert node %d", left[k]);
    t.insert(w.node[left[k]]), mInsert(w, s, left[k]);
    left.erase(left.begin() + k);
  }
  int when = mc::choose(2);
  if (when) full(t, w, s, 0);
  int m = mc::range(0, std::min(n, mc::bound(3, 4)));
  for (int i = 0; i < m; i++) {
    int k = mc::choose((int)s.size());
    int a = s[k];
    MC_OP("erase node %d", a);
    t.erase(w.node[a]);
    mErase(s, a);
    if (when) full(t, w, s, i % 2);
  }
  full(t, w, s, 1);
  mc::state(mc::Hash().range(s.begin(), s.end()).range(w.rank.begin(), w.rank.end()));
}
// two trees, nodes moving between them, nodes reused after a tree is gone empty
MC_SCOPE_LEAK(two_trees) {
  World w;
  ranks(w, mc::choose(5), 4);
  BST t[2];
  Seq s[2];
  int n = mc::range(0, mc::bound(5, 7));
  bool each = mc::flip();
  for (int i = 0; i < n; i++) {
    int a = mc::choose(4);
    int where = in(s[0], a) ? 0 : in(s[1], a) ? 1 : -1;
    if (where >= 0) {
      MC_OP("erase node %d from %d", a, where);
      t[where].erase(w.node[a]), mErase(s[where], a);
    } else {
      int k = mc::choose(2);
      MC_OP("insert node %d into %d", a, k);
      t[k].insert(w.node[a]), mInsert(w, s[k], a);
    }
    if (each) full(t[0], w, s[0], 0), full(t[1], w, s[1], 1);
  }
  full(t[0], w, s[0], 1), full(t[1], w, s[1], 0);
  mc::state(mc::Hash().range(s[0].begin(), s[0].end()).range(s[1].begin(), s[1].end()));
}
// the tree does not depend on values, which the caller may change meanwhile
MC_SCOPE_LEAK(values) {
  World w;
  ranks(w, mc::choose(5), 3);
  BST t;
  Seq s;
  for (int i = 0; i < 3; i++) t.insert(w.node[i]), mInsert(w, s, i);
  int n = mc::range(1, 3);
  for (int i = 0; i < n; i++) {
    int a = mc::choose(3);
    static const int V[] = {0, -5, INT_MAX};
    int v = mc::pick(V);
    MC_OP("node %d value %d", a, v);
    w.node[a]->setVal(v), w.val[a] = v;
    full(t, w, s, i % 2);
  }
  mc::state(mc::Hash().range(w.val.begin(), w.val.end()));
}
MC_SCOPE_LEAK(ladder) {
  int n = mc::size(1, mc::bound(130, 300), {200, 255, 256, 257, 513}), order = mc::choose(5), rem = mc::choose(5);
  MC_OP("%d nodes, order %d, removal pattern %d", n, order, rem);
  World w;
  for (int i = 0; i < n; i++)
    w.add(order == 0 ? i : order == 1 ? n - i : order == 2 ? (int)(mc::scramble(i) % (n / 2 + 1)) : order == 3 ? (i % 2 ? i : -i) : 7, i);
  BST t;
  Seq s;
  for (int i = 0; i < n; i++) t.insert(w.node[i]), mInsert(w, s, i), mc::ops(1);
  auto walk = [&] {
    mc::beat();
    for (size_t i = 0; i < s.size(); i++) qSuf(t, w, s, i);
    for (size_t i = s.size(); i-- > 0;) qPre(t, w, s, i);
    for (int i = 0; i < n; i += n / 8 + 1) qFind(t, w, s, w.rank[i]);
    qFind(t, w, s, -n - 5), qFind(t, w, s, n + 5);
  };
  walk();
  for (int i = 0; i < n; i++) {
    int a = rem == 4 ? n - 1 - i : i;
    bool r = rem == 1 ? i % 2 : rem == 2 ? i % 3 == 0 : rem == 3 ? i < n / 2 : rem == 4;
    if (!r) continue;
    t.erase(w.node[a]), mErase(s, a), mc::ops(1);
    if (i % 16 == 0) qFind(t, w, s, w.rank[a]);
  }
  walk();
  for (int i = 0; i < n; i++)
    if (!in(s, i) && i % 4) t.insert(w.node[i]), mInsert(w, s, i), mc::ops(1);
  walk();
  mc::state(mc::Hash().range(s.begin(), s.end()).add(order));
}
// many nodes, ranks from a permutation (spread over the whole range of int in one form)
MC_SCOPE_LEAK(huge) {
  int n = mc::pick({1000, 1024, 4095, 4096, 4097, 32768, 65536, 70001}), order = mc::choose(3), wide = mc::choose(2), rem = mc::choose(3);
  MC_OP("%d nodes, order %d, removal %d%s", n, order, rem, wide ? ", spread ranks" : "");
  mc::state(mc::Hash().add(n).add(order).add(wide).add(rem));
  auto rank = [&](int i) { return wide ? (int)(-2147483648LL + 4294967295LL * i / (n - 1)) : i - n / 2; };
  std::vector<std::unique_ptr<BSTNode>> v;
  for (int i = 0; i < n; i++) v.emplace_back(new BSTNode(rank(i), i));
  BST t;
  auto at = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : (int)((i * 40503LL) % n); };
  std::vector<char> in(n, 0);
  for (int i = 0; i < n; i++) {
    int a = at(i);
    if (in[a]) continue;
    t.insert(v[a].get()), in[a] = 1;
    if (i % 256 == 0) mc::beat();
  }
  auto gone = [&](int i) { return rem == 1 ? i % 3 == 1 : rem == 2 ? i > n / 2 : false; };
  for (int i = 0; i < n; i++)
    if (in[i] && gone(i)) {
      t.erase(v[i].get()), in[i] = 0;
      if (i % 256 == 0) mc::beat();
    }
  std::vector<int> s;
  for (int i = 0; i < n; i++)
    if (in[i]) s.push_back(i);
  for (size_t i = 0; i < s.size(); i += 1 + (s.size() > 5000 && i > 100 && i + 100 < s.size() ? 17 : 0)) {
    if (i % 64 == 0) mc::beat();
    mc::ops(1);
    BSTNode *x = v[s[i]].get(), *p = i ? v[s[i - 1]].get() : nullptr, *q = i + 1 < s.size() ? v[s[i + 1]].get() : nullptr;
    MC_CHECK(t.find(rank(s[i])) == x, "find", "find of rank %d wrong", rank(s[i]));
    MC_CHECK(t.pre(x) == p && t.suf(x) == q, "neighbour", "neighbours of rank %d wrong", rank(s[i]));
  }
  for (int i = 0; i < n; i += n / 50 + 1)
    MC_CHECK(t.find(rank(i)) == (in[i] ? v[i].get() : nullptr), "find", "find of rank %d wrong", rank(i));
}
