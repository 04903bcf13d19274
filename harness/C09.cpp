// modules:
// C09: SegmentTree range updates and queries against the plainly updated array.
#include "graph/SegmentTree.h"

#include "util.h"

using cuhksz::SegmentTree;

template <class T>
struct Pair {
  std::vector<T> a;
  SegmentTree<T>* t = nullptr;
  Pair(const std::vector<T>& init) : a(init) {
    std::vector<T> copy(init);
    t = new SegmentTree<T>(copy);
    for (size_t i = 0; i < init.size(); i++)
      MC_CHECK(copy[i] == init[i], "input", "construction changed the array");
    std::fill(copy.begin(), copy.end(), T(99));  // the tree does not depend on the array
    MC_CHECK(t->getSize() == (int)init.size(), "size", "size %d, expected %zu", t->getSize(), init.size());
  }
  ~Pair() { delete t; }
  void q(int kind, int l, int r) {
    T mn = a[l], mx = a[l], sm = a[l];
    for (int i = l + 1; i <= r; i++) {
      if (a[i] < mn) mn = a[i];
      if (mx < a[i]) mx = a[i];
      sm = sm + a[i];
    }
    T got = kind == 0 ? t->queryMin(l, r) : kind == 1 ? t->queryMax(l, r) : t->querySum(l, r);
    T want = kind == 0 ? mn : kind == 1 ? mx : sm;
    static const char* N[] = {"minimum", "maximum", "sum"};
    if (!(got == want))
      mc::fail(N[kind], "%s over [%d,%d] of %s is %s, expected %s", N[kind], l, r, mc::showAll(a).c_str(),
               std::to_string((double)got).c_str(), std::to_string((double)want).c_str());
  }
  void upd(bool mul, int l, int r, T x) {
    for (int i = l; i <= r; i++) a[i] = mul ? a[i] * x : a[i] + x;
    if (mul)
      t->mulInterval(l, r, x);
    else
      t->addInterval(l, r, x);
  }
  void full(int order) {
    mc::ops(1);
    int n = (int)a.size();
    for (int k = 0; k < 3; k++) {
      int kind = order == 0 ? k : order == 1 ? 2 - k : (k + 1) % 3;
      if (order == 1)
        for (int l = n - 1; l >= 0; l--)
          for (int r = n - 1; r >= l; r--) q(kind, l, r);
      else
        for (int l = 0; l < n; l++)
          for (int r = l; r < n; r++) q(kind, l, r);
    }
  }
};
static void pickRange(int n, int& l, int& r) {
  int k = mc::choose(n * (n + 1) / 2);
  for (l = 0; k >= n - l; l++) k -= n - l;
  r = l + k;
}
template <class T>
static std::vector<T> initial(int n, int kind) {
  static const int V[4][8] = {{1, 2, 3, 4, 5, 6, 7, 8}, {3, -1, 4, -1, 5, -9, 2, 6}, {-2, -2, -2, -2, -2, -2, -2, -2}, {0, 7, 0, -7, 1, 0, 0, 9}};
  std::vector<T> v;
  for (int i = 0; i < n; i++) v.push_back((T)V[kind][i % 8]);
  return v;
}
template <class T>
static void history(int nlo, int nhi, int depth, int kinds, const std::vector<T>& adds, const std::vector<T>& muls, bool queries) {
  int n = mc::range(nlo, nhi);
  std::vector<T> init = initial<T>(n, mc::choose(kinds));
  MC_OP("array %s", mc::showAll(init).c_str());
  Pair<T> p(init);
  int each = mc::choose(2);
  int d = mc::range(0, depth);
  for (int i = 0; i < d; i++) {
    int l, r, A = (int)adds.size(), M = (int)muls.size();
    int op = mc::choose(A + M + (queries ? 3 : 0));
    pickRange(n, l, r);
    if (op < A) {
      MC_OP("add %g on [%d,%d]", (double)adds[op], l, r);
      p.upd(false, l, r, adds[op]);
    } else if (op < A + M) {
      MC_OP("multiply %g on [%d,%d]", (double)muls[op - A], l, r);
      p.upd(true, l, r, muls[op - A]);
    } else {
      MC_OP("query %d on [%d,%d]", op - A - M, l, r);
      p.q(op - A - M, l, r);
    }
    if (each) p.full(i % 3);
  }
  p.full(0);
  p.full(1);
  mc::Hash h;
  for (auto& x : p.a) h.add((uint64_t)(int64_t)(x * 8));
  mc::state(h);
}
// updates only; the tree is read at the end or after every step
MC_SCOPE_LEAK(small_deep) { history<int>(1, 3, mc::bound(4, 5), 2, {2}, {-1, 0, 3}, false); }
MC_SCOPE_LEAK(medium) { history<int>(4, 5, mc::bound(3, 3), 2, {-3}, {-2, 0}, false); }
MC_SCOPE_LEAK(wide) { history<int>(6, mc::bound(7, 9), 2, 3, {2, -5}, {-1, 0, 2}, false); }
// queries interleaved between updates
MC_SCOPE_LEAK(mixed) { history<int>(mc::bound(2, 3), mc::bound(3, 4), 4, 1, {2}, {-1}, true); }
MC_SCOPE_LEAK(mixed_four) { history<long long>(4, mc::bound(4, 5), 3, 1, {1LL << 40}, {-3}, true); }
MC_SCOPE_LEAK(reals) { history<double>(2, mc::bound(4, 5), 3, 2, {0.5, -1.25}, {-0.5, 0.0}, false); }

// every length up to a bound: one update on every range, then everything is read
MC_SCOPE_LEAK(lengths) {
  int n = mc::range(1, mc::bound(24, 40));
  std::vector<int> init;
  int kind = mc::choose(2);
  for (int i = 0; i < n; i++) init.push_back(kind ? (int)(mc::scramble(i, n) % 41) - 20 : i);
  Pair<int> p(init);
  int l, r;
  pickRange(n, l, r);
  bool mul = mc::flip();
  MC_OP("length %d: %s on [%d,%d]", n, mul ? "multiply" : "add", l, r);
  p.upd(mul, l, r, mul ? -2 : 5);
  if (mc::flip()) {
    MC_OP("and the whole array");
    p.upd(!mul, 0, n - 1, mul ? 3 : -1);
    p.upd(mul, l, r, mul ? -1 : 2);
  }
  p.full(1);
  mc::beat();
  mc::state(mc::Hash().range(p.a.begin(), p.a.end()));
}
// long arrays, structured update sequences
// scale: the values lie beyond int, or are fractions
template <class T>
static void ladder(T scale) {
  int n = mc::size(1, mc::bound(140, 300), {255, 256, 257, 511, 512, 513, 1000, 1024}), fam = mc::choose(4);
  MC_OP("length %d, update family %d", n, fam);
  std::vector<T> init;
  for (int i = 0; i < n; i++) init.push_back(((T)(mc::scramble(i) % 100) - 50) * scale + i % 3);
  Pair<T> p(init);
  for (int i = 0; i < 40; i++) {
    int l, r;
    uint64_t h = mc::scramble(i, n);
    switch (fam) {
      case 0: l = h % n, r = l + (h >> 20) % (n - l); break;
      case 1: l = i % n, r = n - 1 - (i % (n < 3 ? n : 3)); break;
      case 2: l = 0, r = (i * 13) % n; break;
      default: l = r = (i * 29) % n; break;
    }
    if (l > r) std::swap(l, r);
    bool mul = i % 3 == 1;
    p.upd(mul, l, r, mul ? T(i % 2 ? -1 : (i % 9 == 4 ? 0 : 2)) : ((T)(h % 19) - 9) * scale);
    mc::ops(1);
    p.q(i % 3, (l + r) / 2, r);
    p.q((i + 1) % 3, 0, n - 1);
  }
  mc::beat();
  for (int l = 0; l < n; l += 1 + n / 40)
    for (int r = l; r < n; r += 1 + n / 37)
      for (int k = 0; k < 3; k++) p.q(k, l, r);
  mc::state(mc::Hash().add(n).add(fam));
}
MC_SCOPE_LEAK(ladder) { ladder<long long>(1); }
MC_SCOPE_LEAK(ladder_wide) { ladder<long long>(10000000019LL); }
MC_SCOPE_LEAK(ladder_real) { ladder<double>(0.375); }
MC_SCOPE_LEAK(ladder_int) { ladder<int>(7); }
// arrays beyond 16 bits: a few updates at awkward borders, sums of whole blocks
template <class T>
static void huge() {
  int n = mc::pick({2047, 2048, 2049, 4096, 4097, 32767, 32769, 65535, 65536, 65537, 100003});
  int l1 = mc::pick({0, 1, 2048, n / 2, n - 1}), kind = mc::choose(3);
  if (l1 >= n) return;
  int r1 = mc::pick({l1, n / 2, n - 2, n - 1});
  if (r1 < l1) return;
  MC_OP("length %d, updates on [%d,%d], kind %d", n, l1, r1, kind);
  mc::state(mc::Hash().add(n).add(l1).add(r1).add(kind));
  std::vector<T> a;
  for (int i = 0; i < n; i++) a.push_back((T)((i * 7) % 100 - 40));
  std::vector<T> b = a;
  SegmentTree<T> t(b);
  MC_CHECK(t.getSize() == n, "size", "size %d, expected %d", t.getSize(), n);
  auto upd = [&](bool mul, int l, int r, T x) {
    if (mul) t.mulInterval(l, r, x); else t.addInterval(l, r, x);
    for (int i = l; i <= r; i++) if (mul) a[i] *= x; else a[i] += x;
    mc::ops(1);
  };
  if (kind != 1) upd(false, 0, n - 1, (T)3);
  upd(kind == 1, l1, r1, (T)(kind == 1 ? -2 : 11));
  if (kind == 2) upd(true, n / 3, n - 1, (T)-1), upd(false, l1, r1, (T)-5);
  mc::beat();
  for (int l : {0, 1, l1 - 1, l1, l1 + 1, n / 2, n / 2 + 1, r1, n - 1})
    for (int r : {0, l1 - 1, l1, n / 2, n / 2 + 1, r1 - 1, r1, r1 + 1, n - 2, n - 1}) {
      if (l < 0 || r >= n || l > r) continue;
      T s = 0, lo = a[l], hi = a[l];
      for (int i = l; i <= r; i++) s += a[i], lo = std::min(lo, a[i]), hi = std::max(hi, a[i]);
      MC_CHECK(t.querySum(l, r) == s, "sum", "sum over [%d,%d] wrong", l, r);
      MC_CHECK(t.queryMin(l, r) == lo && t.queryMax(l, r) == hi, "extreme", "minimum or maximum over [%d,%d] wrong", l, r);
      mc::ops(3);
    }
}
MC_SCOPE_LEAK(huge_long) { huge<long long>(); }
MC_SCOPE_LEAK(huge_int) { huge<int>(); }
MC_SCOPE_LEAK(huge_real) { huge<double>(); }
// other element types, in their own arithmetic
MC_SCOPE_LEAK(types_short) { history<short>(1, 4, 2, 2, {2, -100}, {-3, 0}, false); }
MC_SCOPE_LEAK(types_unsigned) { history<unsigned>(1, 3, 2, 1, {2, 1000000000u}, {3, 0}, false); }
MC_SCOPE_LEAK(types_float) { history<float>(1, 4, 2, 2, {0.5f, -3.f}, {-0.5f, 0.f}, false); }
// a copied tree is independent
MC_SCOPE_LEAK(copies) {
  int n = mc::range(1, 5);
  std::vector<int> init = initial<int>(n, 1);
  Pair<int> p(init);
  int l, r;
  pickRange(n, l, r);
  p.upd(false, l, r, 4);
  Pair<int> q(init);
  bool assign = mc::flip();
  MC_OP("%s a tree of %d", assign ? "assign" : "copy", n);
  if (assign) {
    *q.t = *p.t;
  } else {
    delete q.t;
    q.t = new SegmentTree<int>(*p.t);
  }
  q.a = p.a;
  int l2, r2;
  pickRange(n, l2, r2);
  bool mul = mc::flip();
  (mc::flip() ? p : q).upd(mul, l2, r2, -3);
  p.full(0), q.full(1);
  mc::state(mc::Hash().range(p.a.begin(), p.a.end()).range(q.a.begin(), q.a.end()));
}
