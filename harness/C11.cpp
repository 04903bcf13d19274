// modules: graph
// C11: vertices and edges through creation, copying, assignment and destruction.
#include "graph/Edge.h"
#include "graph/Vertex.h"

#include <algorithm>
#include <climits>
#include <set>
#include "util.h"

using cuhksz::Edge;
using cuhksz::Vertex;

struct MEdge {
  int from, to, val;
  bool valid;
  bool operator<(const MEdge& o) const {
    return std::make_tuple(from, to, val, valid) < std::make_tuple(o.from, o.to, o.val, o.valid);
  }
  bool operator==(const MEdge& o) const { return !(*this < o) && !(o < *this); }
};
enum { SLOTS = 4 };
struct World {
  Vertex* v[SLOTS] = {};
  int val[SLOTS] = {}, id[SLOTS] = {};
  bool valid[SLOTS] = {};
  std::vector<MEdge> e;
  // identifiers ever seen
  std::vector<int> vids;
  std::vector<int> eids;
  void born(int s, int value, bool ok) {
    val[s] = value, valid[s] = ok, id[s] = v[s]->getID();
    for (int x : vids)
      if (x == id[s]) mc::fail("id", "vertex identifier %d given twice", x);
    vids.push_back(id[s]);
  }
  void drop(int s) {
    std::vector<MEdge> k;
    for (auto& x : e)
      if (x.from != s && x.to != s) k.push_back(x);
    e = k;
  }
  void dup(int src, int dst) {
    std::vector<MEdge> add;
    for (auto& x : e) {
      if (x.from == src) add.push_back({dst, x.to, x.val, x.valid});
      if (x.to == src) add.push_back({x.from, dst, x.val, x.valid});
    }
    e.insert(e.end(), add.begin(), add.end());
  }
  int slot(Vertex* p) const {
    for (int i = 0; i < SLOTS; i++)
      if (v[i] && v[i] == p) return i;
    return -1;
  }
  // idOf: edges known from an earlier look keep their identifier
  std::vector<std::pair<const Edge*, int>> known;
  void check() {
    mc::ops(1);
    std::vector<MEdge> got;
    std::vector<std::pair<const Edge*, int>> seen;
    for (int i = 0; i < SLOTS; i++) {
      if (!v[i]) continue;
      int in = 0, out = 0;
      for (auto& x : e) in += x.to == i, out += x.from == i;
      if (v[i]->getOutDegree() != out || v[i]->getInDegree() != in)
        mc::fail("degree", "vertex %d has degrees out %d in %d, expected %d and %d", i, v[i]->getOutDegree(), v[i]->getInDegree(), out, in);
      if (v[i]->getVal() != val[i] || v[i]->isValid() != valid[i] || v[i]->getID() != id[i])
        mc::fail("vertex", "value, validity or identifier of vertex %d wrong", i);
      for (Edge* x : v[i]->outEdges) {
        if (x->getFrom() != v[i]) mc::fail("mutual", "an outgoing edge of vertex %d does not leave it", i);
        int t = slot(x->getTo());
        if (t < 0) mc::fail("dangling", "an outgoing edge of vertex %d leads to no live vertex", i);
        int n = 0, m = 0;
        for (Edge* y : v[t]->inEdges) n += y == x;
        for (Edge* y : v[i]->outEdges) m += y == x;
        if (n != 1 || m != 1) mc::fail("mutual", "edge %d->%d listed %d times out, %d times in", i, t, m, n);
        got.push_back({i, t, x->getVal(), x->isValid()});
        seen.push_back({x, x->getID()});
      }
      for (Edge* x : v[i]->inEdges) {
        if (x->getTo() != v[i]) mc::fail("mutual", "an incoming edge of vertex %d does not enter it", i);
        if (slot(x->getFrom()) < 0) mc::fail("dangling", "an incoming edge of vertex %d comes from no live vertex", i);
        int n = 0;
        for (Edge* y : x->getFrom()->outEdges) n += y == x;
        if (n != 1) mc::fail("mutual", "an incoming edge of vertex %d is listed %d times at its source", i, n);
      }
      for (int j = 0; j < SLOTS; j++) {
        if (!v[j]) continue;
        const Vertex &a = *v[i], &b = *v[j];
        if ((a == b) != (i == j) || (a != b) != (i != j)) mc::fail("compare", "vertex equality wrong");
        if ((a < b) != (val[i] < val[j])) mc::fail("compare", "vertex order wrong");
      }
    }
    std::vector<MEdge> want = e;
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (!(got == want)) mc::fail("edges", "%zu edges differ from the %zu expected", got.size(), want.size());
    // identifiers: unique among all, unchanged for the edges already known
    for (auto& x : seen) {
      for (auto& y : seen)
        if (x.first != y.first && x.second == y.second) mc::fail("id", "edge identifier %d used twice", x.second);
    }
    for (auto& x : seen) {
      bool old = false;
      for (auto& y : known) old |= y == x;
      if (old) continue;
      for (int i : eids)
        if (i == x.second) mc::fail("id", "edge identifier %d given twice", i);
      eids.push_back(x.second);
    }
    known = seen;
  }
};

static int live(World& w, const char* what) {
  std::vector<int> a;
  for (int i = 0; i < SLOTS; i++)
    if (w.v[i]) a.push_back(i);
  if (a.empty()) return -1;
  return mc::pick(a, what);
}
static int freeSlot(World& w) {
  for (int i = 0; i < SLOTS; i++)
    if (!w.v[i]) return i;
  return -1;
}
static void step(World& w, int i, int maxLive) {
  int nl = 0;
  for (auto x : w.v) nl += x != nullptr;
  int op = mc::choose(6);
  switch (op) {
    case 0: {
      int s = freeSlot(w);
      if (s < 0 || nl >= maxLive) return;
      MC_OP("new vertex %d", s);
      w.v[s] = new Vertex(i * 3 - 4);
      w.born(s, i * 3 - 4, true);
      break;
    }
    case 1: {
      int s = freeSlot(w), a = live(w, "source");
      if (s < 0 || a < 0 || nl >= maxLive) return;
      MC_OP("vertex %d copied from %d", s, a);
      w.v[s] = new Vertex(*w.v[a]);
      w.born(s, w.val[a], w.valid[a]);
      w.dup(a, s);
      break;
    }
    case 2: {
      int a = live(w, "target"), b = live(w, "source");
      if (a < 0) return;
      MC_OP("vertex %d = %d", a, b);
      Vertex& r = (*w.v[a] = *w.v[b]);
      if (&r != w.v[a]) mc::fail("assign", "assignment does not return its target");
      if (a != b) {
        w.val[a] = w.val[b], w.valid[a] = w.valid[b];
        w.drop(a);
        w.dup(b, a);
      }
      break;
    }
    case 3: {
      int a = live(w, "victim");
      if (a < 0) return;
      MC_OP("destroy vertex %d", a);
      delete w.v[a];
      w.v[a] = nullptr;
      w.drop(a);
      break;
    }
    case 4: {
      int a = live(w, "from"), b = live(w, "to");
      if (a < 0) return;
      MC_OP("edge %d->%d weight %d", a, b, 10 + i);
      if (i % 2) {
        w.v[a]->addEdge(*w.v[b], 10 + i);
        w.e.push_back({a, b, 10 + i, true});
      } else {
        w.v[a]->addEdge(*w.v[b]);
        w.e.push_back({a, b, 0, true});
      }
      break;
    }
    case 5: {
      int a = live(w, "vertex");
      if (a < 0) return;
      MC_OP("invalidate vertex %d and its first edge, new value", a);
      w.v[a]->setVal(INT_MIN + i), w.val[a] = INT_MIN + i;
      w.valid[a] = !w.valid[a];
      w.valid[a] ? w.v[a]->setValid() : w.v[a]->setInvalid();
      if (!w.v[a]->outEdges.empty()) {
        Edge* x = w.v[a]->outEdges.front();
        MEdge k{a, w.slot(x->getTo()), x->getVal(), x->isValid()};
        for (auto& y : w.e)
          if (y == k) {
            y.valid = false, y.val = 77 + i;
            break;
          }
        x->setInvalid();
        x->setVal(77 + i);
      }
      break;
    }
  }
}
static void finish(World& w, int order) {
  w.check();
  mc::Hash h;
  std::sort(w.e.begin(), w.e.end());
  for (auto& x : w.e) h.add(x.from).add(x.to).add(x.valid);
  for (int i = 0; i < SLOTS; i++) h.add(w.v[i] != nullptr);
  mc::state(h);
  for (int k = 0; k < SLOTS; k++) {
    int i = order ? SLOTS - 1 - k : k;
    if (!w.v[i]) continue;
    delete w.v[i];
    w.v[i] = nullptr;
    w.drop(i);
    w.check();
  }
}
static void history(int start, int depth, int maxLive) {
  World w;
  for (int i = 0; i < start; i++) w.v[i] = i ? new Vertex(i) : new Vertex(), w.born(i, i, true);
  bool each = mc::flip();
  int order = mc::choose(2);
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    step(w, i, maxLive);
    if (each) w.check();
  }
  finish(w, order);
}
MC_SCOPE_LEAK(one) { history(1, mc::bound(5, 7), 2); }
MC_SCOPE_LEAK(two) { history(2, mc::bound(4, 5), 3); }
MC_SCOPE_LEAK(three) { history(3, mc::bound(4, 5), 4); }

// every multigraph on two or three vertices with up to k edges, then two lifetime operations
MC_SCOPE_LEAK(graphs) {
  World w;
  int n = mc::range(1, 3);
  for (int i = 0; i < n; i++) w.v[i] = new Vertex(5 - i), w.born(i, 5 - i, true);
  int k = mc::range(0, mc::bound(3, 4));
  int last = 0;
  for (int i = 0; i < k; i++) {
    last += mc::choose(n * n - last);
    int a = last / n, b = last % n;
    MC_OP("edge %d->%d", a, b);
    w.v[a]->addEdge(*w.v[b], i);
    w.e.push_back({a, b, i, true});
  }
  w.check();
  for (int j = 0; j < mc::bound(2, 2); j++) {
    int a = live(w, "a");
    if (a < 0) break;
    switch (mc::choose(3)) {
      case 0: {
        int s = freeSlot(w);
        if (s < 0) break;
        MC_OP("copy %d to %d", a, s);
        w.v[s] = new Vertex(*w.v[a]);
        w.born(s, w.val[a], w.valid[a]);
        w.dup(a, s);
        break;
      }
      case 1: {
        int b = live(w, "b");
        MC_OP("%d = %d", a, b);
        *w.v[a] = *w.v[b];
        if (a != b) w.val[a] = w.val[b], w.valid[a] = w.valid[b], w.drop(a), w.dup(b, a);
        break;
      }
      case 2:
        MC_OP("destroy %d", a);
        delete w.v[a];
        w.v[a] = nullptr;
        w.drop(a);
        break;
    }
    w.check();
  }
  finish(w, 0);
}
// many edges: every number up to a bound, in several shapes, then lifetime operations
MC_SCOPE_LEAK(degrees) {
  World w;
  int n = mc::size(4, mc::bound(40, 80), {63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1025}), shape = mc::choose(5), op = mc::choose(5);
  MC_OP("%d edges in shape %d, operation %d", n, shape, op);
  for (int i = 0; i < 3; i++) w.v[i] = new Vertex(5 - i), w.born(i, 5 - i, true);
  for (int i = 0; i < n; i++) {
    int a, b;
    switch (shape) {
      case 0: a = 0, b = 1; break;
      case 1: a = 1 + i % 2, b = 0; break;
      case 2: a = 0, b = i % 3; break;
      case 3: a = i % 2, b = 1 - a; break;
      default: a = i % 3, b = (i / 3) % 3; break;
    }
    w.v[a]->addEdge(*w.v[b], i);
    w.e.push_back({a, b, i, true});
    if (i % 3 == 1) w.v[a]->outEdges.back()->setInvalid(), w.e.back().valid = false;
  }
  w.check();
  int a = mc::choose(3), b = (a + 1 + mc::choose(2)) % 3;
  if (op == 0 || op == 1) {
    MC_OP("copy %d%s", a, op ? ", destroy it" : "");
    w.v[3] = new Vertex(*w.v[a]);
    w.born(3, w.val[a], w.valid[a]);
    w.dup(a, 3);
    if (op) {
      w.check();
      delete w.v[a], w.v[a] = nullptr, w.drop(a);
    }
  } else if (op == 2) {
    MC_OP("%d = %d", a, b);
    *w.v[a] = *w.v[b];
    w.val[a] = w.val[b], w.valid[a] = w.valid[b], w.drop(a), w.dup(b, a);
  } else if (op == 3) {
    MC_OP("destroy %d, then %d", a, b);
    delete w.v[a], w.v[a] = nullptr, w.drop(a);
    w.check();
    delete w.v[b], w.v[b] = nullptr, w.drop(b);
  } else {
    MC_OP("%d = itself", a);
    Vertex& self = *w.v[a];
    *w.v[a] = self;
  }
  mc::beat();
  w.check();
  finish(w, 0);
}
// identifiers over many objects; free-standing edges
MC_SCOPE_LEAK(identifiers) {
  int n = mc::pick({2, 10, 300, 33000, 70000}), kind = mc::choose(3);
  if (kind == 2 && n > 300) n /= 10;
  MC_OP("%d objects of kind %d", n, kind);
  std::set<int> seen;
  Vertex a(1), b(2);
  seen.insert(a.getID()), seen.insert(b.getID());
  std::set<int> eseen;
  for (int i = 0; i < n; i++) {
    if (kind == 0) {
      Vertex v(i);
      MC_CHECK(seen.insert(v.getID()).second, "id", "vertex identifier %d reused", v.getID());
      Vertex w(v);
      MC_CHECK(seen.insert(w.getID()).second, "id", "vertex identifier %d reused by a copy", w.getID());
      int id = w.getID();
      w = a;
      MC_CHECK(w.getID() == id, "id", "assignment changed an identifier");
    } else if (kind == 1) {
      Edge e(&a, &b, i), f(e);
      MC_CHECK(eseen.insert(e.getID()).second && eseen.insert(f.getID()).second, "id", "edge identifier reused");
      MC_CHECK(f.getFrom() == &a && f.getTo() == &b && f.getVal() == i && f.isValid(), "edge", "copied edge differs");
      MC_CHECK(e != f && !(e == f) && e == e && !(e < f), "compare", "edge comparison wrong");
      Edge g(&b, &a);
      int id = g.getID();
      f.setInvalid();
      g = f;
      MC_CHECK(g.getID() == id && g.getFrom() == &a && g.getTo() == &b && g.getVal() == i && !g.isValid(), "edge", "assigned edge differs");
      MC_CHECK(eseen.insert(g.getID()).second, "id", "edge identifier reused");
      g.setVal(i + 1);
      MC_CHECK(f < g && !(g < f), "compare", "edge order wrong");
    } else {
      a.addEdge(b, i);
      MC_CHECK(eseen.insert(a.outEdges.back()->getID()).second, "id", "edge identifier reused");
      MC_CHECK(a.getOutDegree() == i + 1 && b.getInDegree() == i + 1, "degree", "degrees wrong");
    }
  }
  for (int x : {INT_MIN, -2000000000, -1, 0, 1, 2000000000, INT_MAX})
    for (int y : {INT_MIN, -2000000000, -1, 0, 1, 2000000000, INT_MAX}) {
      Vertex v(x), w(y);
      MC_CHECK((v < w) == (x < y) && v != w && v == v, "compare", "order of vertices of values %d and %d wrong", x, y);
      Edge e(&v, &w, x), f(&v, &w, y);
      MC_CHECK((e < f) == (x < y) && e != f && e == e, "compare", "order of edges of weights %d and %d wrong", x, y);
    }
  MC_CHECK(a.getVal() == 1 && b.getVal() == 2, "vertex", "vertex changed");
  mc::state(mc::Hash().add(n).add(kind));
}
// free-standing edges: every history of construction, copying, assignment, changes and destruction
MC_SCOPE_LEAK(edges) {
  Vertex a(1), b(2);
  Vertex* vs[2] = {&a, &b};
  struct M {
    int from, to, val, id;
    bool ok;
  };
  const int S = 3;
  Edge* e[S] = {};
  M m[S] = {};
  std::set<int> ids;
  std::vector<int> vals = {0, INT_MIN, INT_MAX, -1};
  auto born = [&](int s) {
    m[s].id = e[s]->getID();
    MC_CHECK(ids.insert(m[s].id).second, "id", "edge identifier %d given twice", m[s].id);
  };
  int depth = mc::bound(4, 5);
  for (int i = 0; i < depth; i++) {
    int s = mc::choose(S);
    int op = mc::choose(6);
    if (!e[s]) {
      int o = op >= S || !e[op] ? -1 : op;
      if (op < S && o < 0) break;  // nothing to copy: the history ends here
      if (o >= 0) {
        MC_OP("edge %d copied from %d", s, o);
        e[s] = new Edge(*e[o]);
        m[s] = m[o];
      } else if (op == 3) {
        MC_OP("edge %d: loop, default weight", s);
        e[s] = new Edge(&a, &a);
        m[s] = {0, 0, 0, 0, true};
      } else {
        int v = vals[(i + op) % 4];
        MC_OP("edge %d: new, weight %d", s, v);
        e[s] = new Edge(vs[op & 1], vs[1 - (op & 1)], v);
        m[s] = {op & 1, 1 - (op & 1), v, 0, true};
      }
      born(s);
    } else {
      if (op < S) {
        if (!e[op]) break;
        MC_OP("edge %d = %d", s, op);
        Edge& r = (*e[s] = *e[op]);
        MC_CHECK(&r == e[s], "assign", "assignment does not return its target");
        int id = m[s].id;
        m[s] = m[op], m[s].id = id;
      } else if (op == 3) {
        MC_OP("edge %d destroyed", s);
        delete e[s];
        e[s] = nullptr;
      } else if (op == 4) {
        MC_OP("edge %d validity flipped", s);
        m[s].ok = !m[s].ok;
        m[s].ok ? e[s]->setValid() : e[s]->setInvalid();
      } else {
        int v = vals[(i + 1) % 4];
        MC_OP("edge %d weight %d", s, v);
        e[s]->setVal(v), m[s].val = v;
      }
    }
    for (int x = 0; x < S; x++) {
      if (!e[x]) continue;
      MC_CHECK(e[x]->getFrom() == vs[m[x].from] && e[x]->getTo() == vs[m[x].to] && e[x]->getVal() == m[x].val &&
                   e[x]->isValid() == m[x].ok && e[x]->getID() == m[x].id, "edge", "content of edge %d wrong", x);
      for (int y = 0; y < S; y++) {
        if (!e[y]) continue;
        const Edge &p = *e[x], &q = *e[y];
        MC_CHECK((p == q) == (x == y) && (p != q) == (x != y), "compare", "equality of edges %d and %d wrong", x, y);
        MC_CHECK((p < q) == (m[x].val < m[y].val), "compare", "order of edges %d and %d wrong", x, y);
      }
    }
    MC_CHECK(a.getInDegree() + a.getOutDegree() + b.getInDegree() + b.getOutDegree() == 0, "degree", "a free-standing edge was listed at a vertex");
  }
  mc::Hash h;
  for (int x = 0; x < S; x++) {
    h.add(e[x] != nullptr);
    if (e[x]) h.add(m[x].from).add(m[x].to).add(m[x].val).add(m[x].ok);
    delete e[x];
  }
  mc::state(h);
}
