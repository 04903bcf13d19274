// modules:
// C01: Vector and List against an ideal sequence (std::vector driven by plain loops).
#include "containers.h"

#include <algorithm>
#include <list>
#include "util.h"

using std::string;

// ---- element types: int and heap-owning strings
template <class T>
struct Val;
template <>
struct Val<int> {
  static int at(int i) {
    static const int v[] = {7, -3, 0, 2147483647, -2147483647 - 1};
    return i < 5 ? v[i] : (int)mc::scramble(i);
  }
  static string show(int v) { return std::to_string(v); }
};
template <>
struct Val<string> {
  static string at(int i) {
    if (i == 0) return "m";
    if (i == 1) return "a string long enough to live on the heap";
    if (i == 2) return "";
    return "element number " + std::to_string(i) + " also on the heap";
  }
  static string show(const string& v) { return mc::show(v); }
};

template <class T>
using Model = std::vector<T>;

// ---- adaptors
template <class T>
struct VecA {
  typedef cuhksz::Vector<T> C;
  enum { isList = 0 };
  static const char* name() { return "Vector"; }
  static std::vector<T> std_(C& c) { return c.toStlVector(); }
  static std::vector<T> conv(C& c) {
    std::vector<T> v = c;
    return v;
  }
  typedef std::vector<T> Std;
};
template <class T>
struct ListA {
  typedef cuhksz::List<T> C;
  enum { isList = 1 };
  static const char* name() { return "List"; }
  static std::list<T> std_(C& c) { return c.toStlList(); }
  static std::list<T> conv(const C& c) {
    std::list<T> v = c;
    return v;
  }
  typedef std::list<T> Std;
};

template <class T, class S>
static bool same(const S& s, const Model<T>& m) {
  return s.size() == m.size() && std::equal(m.begin(), m.end(), s.begin());
}

template <class A, class T>
static void verify(typename A::C& c, const Model<T>& m, const char* who) {
  const typename A::C& k = c;
  mc::ops(1);
  MC_CHECK(c.size() == (int)m.size(), "size", "%s %s: size %d, expected %zu", A::name(), who,
           c.size(), m.size());
  MC_CHECK(c.isEmpty() == m.empty(), "empty", "%s %s: isEmpty wrong", A::name(), who);
  size_t i = 0;
  for (auto& x : c) {
    MC_CHECK(i < m.size() && x == m[i], "content", "%s %s: element %zu wrong", A::name(), who, i);
    i++;
  }
  MC_CHECK(i == m.size(), "content", "%s %s: iteration stopped early", A::name(), who);
  i = 0;
  for (auto& x : k) {
    MC_CHECK(i < m.size() && x == m[i], "content", "%s %s: const element %zu wrong", A::name(),
             who, i);
    i++;
  }
  MC_CHECK(i == m.size(), "content", "%s %s: const iteration stopped early", A::name(), who);
  if (m.size() <= 64)
    for (size_t j = 0; j < m.size(); j++) {
      MC_CHECK(c[(int)j] == m[j] && k[(int)j] == m[j], "index", "%s %s: [%zu] wrong", A::name(),
               who, j);
    }
  if (!m.empty())
    MC_CHECK(c.first() == m.front() && k.first() == m.front() && c.last() == m.back() &&
                 k.last() == m.back(),
             "ends", "%s %s: first/last wrong", A::name(), who);
  MC_CHECK((same<T>(A::std_(c), m)) && (same<T>(A::conv(c), m)), "convert",
           "%s %s: conversion differs", A::name(), who);
}
template <class T>
static void getters(cuhksz::Vector<T>& c, const Model<T>& m) {
  const cuhksz::Vector<T>& k = c;
  for (size_t j = 0; j < m.size() && j < 64; j++)
    MC_CHECK(c.get((int)j) == m[j] && k.get((int)j) == m[j], "get", "Vector get(%zu) wrong", j);
}
template <class T>
static void getters(cuhksz::List<T>&, const Model<T>&) {}

template <class A, class T>
static void compare(typename A::C& a, const Model<T>& ma, typename A::C& b, const Model<T>& mb) {
  int lt = 0;  // -1, 0, 1 by definition
  size_t i = 0;
  for (;; i++) {
    if (i == ma.size() || i == mb.size()) {
      lt = ma.size() == mb.size() ? 0 : ma.size() < mb.size() ? -1 : 1;
      break;
    }
    if (ma[i] < mb[i]) {
      lt = -1;
      break;
    }
    if (mb[i] < ma[i]) {
      lt = 1;
      break;
    }
  }
  MC_CHECK((a == b) == (lt == 0) && (a != b) == (lt != 0) && (a < b) == (lt < 0) &&
               (a <= b) == (lt <= 0) && (a > b) == (lt > 0) && (a >= b) == (lt >= 0),
           "compare", "%s comparisons of %zu and %zu elements wrong (order %d)", A::name(),
           ma.size(), mb.size(), lt);
}

template <class T>
static void setOp(cuhksz::Vector<T>& c, int i, const T& v) { c.set(i, v); }
template <class T>
static void setOp(cuhksz::List<T>& c, int i, const T& v) { c[i] = v; }
template <class T>
static T& getOp(cuhksz::Vector<T>& c, int i) { return c.get(i); }
template <class T>
static const T& constGet(const cuhksz::Vector<T>& c, int i) { return c.get(i); }
template <class T>
static const T& constGet(const cuhksz::List<T>& c, int i) { return c[i]; }
template <class T>
static T& getOp(cuhksz::List<T>& c, int i) { return c[i]; }
template <class T>
static void listOps(cuhksz::Vector<T>&, Model<T>&, cuhksz::Vector<T>&, Model<T>&, bool, int) {}
template <class T>
static void listOps(cuhksz::List<T>& c, Model<T>& m, cuhksz::List<T>& o, Model<T>& mo, bool self,
                    int k) {
  switch (k) {
    case 0: {
      T v = Val<T>::at(mc::choose(2));
      MC_OP("push_front");
      c.push_front(v);
      m.insert(m.begin(), v);
      break;
    }
    case 1:
      if (m.empty()) return;
      MC_OP("pop_front");
      MC_CHECK(c.pop_front() == m.front(), "pop", "List pop_front returned the wrong element");
      m.erase(m.begin());
      break;
    case 2:
      MC_OP("sort");
      c.sort();
      for (size_t i = 1; i < m.size(); i++)
        for (size_t j = i; j > 0 && m[j] < m[j - 1]; j--) std::swap(m[j], m[j - 1]);
      break;
    case 3:
      MC_OP("reverse");
      c.reverse();
      for (size_t i = 0; i < m.size() / 2; i++) std::swap(m[i], m[m.size() - 1 - i]);
      break;
    case 4: {
      if (!std::is_sorted(m.begin(), m.end()) || !std::is_sorted(mo.begin(), mo.end())) return;
      MC_OP("merge%s", self ? " itself" : "");
      c.merge(o);
      if (!self) {
        for (auto& x : mo) {
          size_t p = m.size();
          while (p > 0 && x < m[p - 1]) p--;
          m.insert(m.begin() + p, x);
        }
        mo.clear();
      }
      break;
    }
  }
}

template <class T, class M>
static string showM(const M& m) {
  string s = "[";
  for (auto& x : m) s += Val<T>::show(x) + " ";
  return s + "]";
}

template <class A, class T>
static void build(typename A::C*& c, Model<T>& m) {
  typedef typename A::C C;
  T v0 = Val<T>::at(0), v1 = Val<T>::at(1);
  switch (mc::choose(7)) {
    case 0:
      MC_OP("new empty");
      c = new C();
      break;
    case 1:
      MC_OP("new(2)");
      c = new C(2);
      m = {T(), T()};
      break;
    case 2:
      MC_OP("new(3, v0)");
      c = new C(3, v0);
      m = {v0, v0, v0};
      break;
    case 3:
      MC_OP("new{v0, v1}");
      c = new C{v0, v1};
      m = {v0, v1};
      break;
    case 4: {
      MC_OP("from std container");
      typename A::Std s = {v1, v0, v1};
      c = new C(s);
      s.clear();
      m = {v1, v0, v1};
      break;
    }
    case 5:
      MC_OP("new(0, v0)");
      c = new C(0, v0);
      break;
    case 6:
      MC_OP("new{v0}");
      c = new C{v0};
      m = {v0};
      break;
  }
}

template <class A, class T>
static void step(typename A::C* c[2], Model<T> m[2]) {
  typedef typename A::C C;
  int w = mc::choose(2);
  C& x = *c[w];
  Model<T>& y = m[w];
  int n = (int)y.size();
  int k = mc::choose(12);
  const char* who = w ? "b" : "a";
  switch (k) {
    case 0: {
      T v = Val<T>::at(mc::choose(2));
      MC_OP("%s.push(%s)", who, Val<T>::show(v).c_str());
      x.push(v);
      y.push_back(v);
      break;
    }
    case 1: {
      if (!n) return;
      MC_OP("%s.pop()", who);
      MC_CHECK(x.pop() == y.back(), "pop", "%s pop returned the wrong element", A::name());
      y.pop_back();
      break;
    }
    case 2: {
      int i = mc::range(0, n);
      T v = Val<T>::at(2);
      MC_OP("%s.insert(%d)", who, i);
      x.insert(i, v);
      y.insert(y.begin() + i, v);
      break;
    }
    case 3: {
      if (!n) return;
      int i = mc::choose(n);
      MC_OP("%s.erase(%d)", who, i);
      x.erase(i);
      y.erase(y.begin() + i);
      break;
    }
    case 4: {
      if (!n) return;
      int i = mc::choose(n);
      T v = Val<T>::at(3);
      MC_OP("%s.set(%d)", who, i);
      setOp(x, i, v);
      y[i] = v;
      break;
    }
    case 5:
      MC_OP("%s.clear()", who);
      x.clear();
      y.clear();
      break;
    case 6: {
      int o = mc::choose(2);
      MC_OP("%s = %s", who, o ? "b" : "a");
      C& r = (x = *c[o]);
      MC_CHECK(&r == &x, "assign", "%s assignment does not return its target", A::name());
      Model<T> t = m[o];
      y = t;
      break;
    }
    case 7: {
      MC_OP("%s := copy of the other", who);
      C* f = new C(*c[1 - w]);
      delete c[w];
      c[w] = f;
      y = m[1 - w];
      break;
    }
    case 8: {
      if (!n) return;
      MC_OP("write through first/last of %s", who);
      x.first() = Val<T>::at(4);
      y.front() = Val<T>::at(4);
      x.last() = Val<T>::at(1);
      y.back() = Val<T>::at(1);
      break;
    }
    case 9: {  // arguments that live inside the container
      if (!n) return;
      int i = mc::choose(n), h = mc::choose(3);
      T v = y[i];
      if (h == 0) {
        MC_OP("%s.push(%s[%d])", who, who, i);
        x.push(x[i]);
        y.push_back(v);
      } else if (h == 1) {
        MC_OP("%s.insert(0, %s[%d])", who, who, i);
        x.insert(0, x[i]);
        y.insert(y.begin(), v);
      } else {
        MC_OP("%s.set(0, %s[%d])", who, who, i);
        setOp(x, 0, x[i]);
        y[0] = v;
      }
      break;
    }
    case 10: {
      if (!n) return;
      int i = mc::choose(n);
      MC_OP("write through %s.get(%d)", who, i);
      getOp(x, i) = Val<T>::at(0);
      y[i] = Val<T>::at(0);
      break;
    }
    case 11: {
      MC_OP("overwrite %s through iteration", who);
      int i = 0;
      for (auto& e : x) e = Val<T>::at(i++ % 3);
      for (int j = 0; j < n; j++) y[j] = Val<T>::at(j % 3);
      break;
    }
  }
}

// one step of the list-only operations
template <class A, class T>
static void listStep(typename A::C* c[2], Model<T> m[2]) {
  int w = mc::choose(2), k = mc::choose(5);
  int o = k == 4 ? mc::choose(2) : 1 - w;
  listOps(*c[w], m[w], *c[o], m[o], o == w, k);
}

template <class A, class T>
static void history(int depth, bool two) {
  typename A::C* c[2];
  Model<T> m[2];
  bool each = mc::flip();
  build<A, T>(c[0], m[0]);
  if (two) {
    build<A, T>(c[1], m[1]);
  } else {
    c[1] = new typename A::C(*c[0]);
    m[1] = m[0];
  }
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    if (A::isList && mc::flip())
      listStep<A, T>(c, m);
    else
      step<A, T>(c, m);
    if (each) {
      verify<A, T>(*c[0], m[0], "a");
      verify<A, T>(*c[1], m[1], "b");
      compare<A, T>(*c[0], m[0], *c[1], m[1]);
    }
  }
  verify<A, T>(*c[0], m[0], "a");
  verify<A, T>(*c[1], m[1], "b");
  getters(*c[0], m[0]);
  compare<A, T>(*c[0], m[0], *c[1], m[1]);
  compare<A, T>(*c[1], m[1], *c[0], m[0]);
  compare<A, T>(*c[0], m[0], *c[0], m[0]);
  mc::Hash h;
  h.add(showM<T>(m[0])).add(showM<T>(m[1]));
  mc::state(h);
  delete c[0];
  delete c[1];
}

MC_SCOPE_LEAK(vector_int) { history<VecA<int>, int>(mc::bound(3, 4), false); }
MC_SCOPE_LEAK(vector_int_pair) { history<VecA<int>, int>(2, true); }
MC_SCOPE_LEAK(vector_string) { history<VecA<string>, string>(mc::bound(2, 3), false); }
MC_SCOPE_LEAK(list_int) { history<ListA<int>, int>(mc::bound(3, 4), false); }
MC_SCOPE_LEAK(list_int_pair) { history<ListA<int>, int>(2, true); }
MC_SCOPE_LEAK(list_string) { history<ListA<string>, string>(2, false); }

// every short content pair: comparisons, assignment, merge, sort, reverse
template <class A>
static void contents(int n) {
  auto mk = [&](const char* w, typename A::C& c, Model<int>& m) {
    int k = mc::range(0, n);
    for (int i = 0; i < k; i++) {
      int v = mc::range(-1, 1);
      c.push(v);
      m.push_back(v);
    }
    MC_OP("%s = %s", w, mc::showAll(m).c_str());
  };
  typename A::C a, b;
  Model<int> ma, mb;
  mk("a", a, ma);
  mk("b", b, mb);
  mc::state(mc::Hash().add(mc::showAll(ma)).add(mc::showAll(mb)));
  compare<A, int>(a, ma, b, mb);
  typename A::C c(a);
  c = b;
  verify<A, int>(c, mb, "assigned");
  b.push(5);
  verify<A, int>(c, mb, "copy after change of its source");
  c.clear();
  mb.push_back(5);
  verify<A, int>(b, mb, "source after change of its copy");
  b.pop();
  mb.pop_back();
  listOps(a, ma, b, mb, false, 2);
  verify<A, int>(a, ma, "sorted");
  listOps(b, mb, a, ma, false, 2);
  listOps(a, ma, b, mb, false, 4);
  verify<A, int>(a, ma, "merged");
  verify<A, int>(b, mb, "merged in");
  listOps(a, ma, b, mb, false, 3);
  verify<A, int>(a, ma, "reversed");
}
MC_SCOPE(vector_contents) { contents<VecA<int>>(mc::bound(4, 6)); }
MC_SCOPE(list_contents) { contents<ListA<int>>(mc::bound(4, 6)); }

// two of any size that agree except for the length or one element
template <class A>
static void pairLadder() {
  int n = mc::size(0, mc::bound(140, 600), {255, 256, 257, 1000, 4097}), d = mc::pick({0, 1, -1, 50, -50, -n});
  int k = n + d, at = mc::choose(5), by = mc::pick({-1, 1});
  if (k < 0) return;
  int pos = at == 0 ? -1 : at == 1 ? 0 : at == 2 ? k / 2 : at == 3 ? k - 1 : k - 2;
  if (at && (pos < 0 || pos >= k)) return;
  MC_OP("%d against %d elements, differing at %d", n, k, pos);
  typename A::C a, b;
  Model<int> ma, mb;
  for (int i = 0; i < n; i++) a.push(i % 7), ma.push_back(i % 7);
  for (int i = 0; i < k; i++) {
    int v = i % 7 + (i == pos ? by : 0);
    b.push(v), mb.push_back(v);
  }
  mc::state(mc::Hash().add(n).add(k).add(pos).add(by));
  compare<A, int>(a, ma, b, mb);
  compare<A, int>(b, mb, a, ma);
  a = b;
  verify<A, int>(a, mb, "assigned");
  typename A::C c(b);
  b.clear();
  verify<A, int>(b, Model<int>(), "cleared");
  verify<A, int>(c, mb, "copied");
}
MC_SCOPE_LEAK(vector_pairs) { pairLadder<VecA<int>>(); }
MC_SCOPE_LEAK(list_pairs) { pairLadder<ListA<int>>(); }
// large sizes: one operation at every boundary position
template <class A>
static void ladder() {
  int n = mc::size(1, mc::bound(140, 600), {200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 5000}), how = mc::choose(3);
  MC_OP("size %d built by method %d", n, how);
  typename A::C a;
  Model<int> m;
  if (how == 0) {
    for (int i = 0; i < n; i++) {
      int v = (int)mc::scramble(i, n);
      a.push(v);
      m.push_back(v);
    }
  } else if (how == 1) {
    a = typename A::C(n, 9);
    m.assign(n, 9);
  } else {
    for (int i = 0; i < n; i++) {
      int v = (int)mc::scramble(i, n) % 10;
      a.insert(i / 2, v);
      m.insert(m.begin() + i / 2, v);
    }
  }
  int pos[] = {0, 1, n / 2, n - 2, n - 1, n};
  int p = mc::pick(pos);
  if (p < 0 || p > n) return;
  switch (mc::choose(5)) {
    case 0:
      MC_OP("insert(%d)", p);
      a.insert(p, 77);
      m.insert(m.begin() + p, 77);
      break;
    case 1:
      if (p == n) return;
      MC_OP("erase(%d)", p);
      a.erase(p);
      m.erase(m.begin() + p);
      break;
    case 2:
      if (p == n) return;
      MC_OP("set(%d)", p);
      setOp(a, p, 78);
      m[p] = 78;
      break;
    case 3: {
      MC_OP("copy, drain the copy from the back");
      typename A::C b(a);
      for (int i = n - 1; i >= 0; i--)
        MC_CHECK(b.pop() == m[i], "pop", "%s pop %d wrong", A::name(), i);
      verify<A, int>(b, Model<int>(), "drained");
      break;
    }
    case 4: {
      MC_OP("sort, reverse, merge");
      typename A::C b(a);
      Model<int> mb = m;
      listOps(a, m, b, mb, false, 2);
      listOps(b, mb, a, m, false, 2);
      listOps(a, m, b, mb, false, 4);
      listOps(a, m, b, mb, false, 3);
      verify<A, int>(b, mb, "merged in");
      break;
    }
  }
  mc::beat();
  mc::state(mc::Hash().add(n).add(how).add(p));
  verify<A, int>(a, m, "ladder");
  const typename A::C& k = a;
  int last = (int)m.size() - 1;
  auto at = [&](int i) {
    if (i >= 0 && i <= last)
      MC_CHECK(a[i] == m[i] && k[i] == m[i] && getOp(a, i) == m[i] && constGet(k, i) == m[i], "index", "%s [%d] wrong", A::name(), i);
  };
  if (n <= 1025)
    for (int i = 0; i <= last; i += m.size() > 300 ? 13 : 1) at(i);
  for (int i : {0, 1, 127, 128, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, last / 2, last - 1, last}) at(i);
}
MC_SCOPE_LEAK(vector_ladder) { ladder<VecA<int>>(); }
MC_SCOPE_LEAK(list_ladder) { ladder<ListA<int>>(); }

// sizes beyond 16 bits: one operation, then everything is read
template <class A>
static void huge() {
  int n = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), how = mc::choose(3), op = mc::choose(7);
  MC_OP("size %d built by method %d, operation %d", n, how, op);
  Model<int> m;
  for (int i = 0; i < n; i++) m.push_back(how == 1 ? 4 : i * 7 - (i & 5));
  typename A::Std st(m.begin(), m.end());
  typename A::C a(st);
  if (how == 1) a = typename A::C(n, 4);
  if (how == 2) {
    a.clear();
    for (int i = 0; i < n; i++) {
      a.push(m[i]);
      if (i % 256 == 0) mc::beat();
    }
  }
  mc::beat();
  int p = op % 2 ? n - 1 : n / 2 + 1;
  switch (op) {
    case 0:
    case 1: a.insert(p, -5), m.insert(m.begin() + p, -5); break;
    case 2:
    case 3: a.erase(p), m.erase(m.begin() + p); break;
    case 4:
    case 5: setOp(a, p, -6), m[p] = -6; break;
    default: {
      typename A::C b(a);
      Model<int> mb = m;
      compare<A, int>(a, m, b, mb);
      setOp(b, n - 2, m[n - 2] + 1), mb[n - 2]++;
      compare<A, int>(a, m, b, mb);
      b.pop(), mb.pop_back();
      compare<A, int>(a, m, b, mb);
      compare<A, int>(b, mb, a, m);
      a = b, m = mb;
      b.clear();
    }
  }
  mc::beat();
  mc::state(mc::Hash().add(n).add(how).add(op));
  verify<A, int>(a, m, "huge");
  const typename A::C& k = a;
  for (int i : {0, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 70000, (int)m.size() - 1})
    if (i < (int)m.size())
      MC_CHECK(a[i] == m[i] && k[i] == m[i] && getOp(a, i) == m[i] && constGet(k, i) == m[i], "index", "%s [%d] wrong", A::name(), i);
  for (int i = 0; i < 3; i++) {
    MC_CHECK(a.pop() == m.back(), "pop", "%s pop wrong", A::name());
    m.pop_back();
  }
  a.push(8), m.push_back(8);
  verify<A, int>(a, m, "huge, popped and pushed");
}
MC_SCOPE_LEAK(vector_huge) { huge<VecA<int>>(); }
MC_SCOPE_LEAK(list_huge) { huge<ListA<int>>(); }

// every size, with operands related to what is stored: equal to it, next to it, part of it
template <class T>
static T mkVal(int x);
template <>
int mkVal<int>(int x) { return x; }
template <>
string mkVal<string>(int x) { return std::to_string(x) + (x % 2 ? " and enough text to leave the small buffer" : ""); }
template <class T>
static void frontOp(cuhksz::Vector<T>&, Model<T>&, const T&, bool) {}
template <class T>
static void frontOp(cuhksz::List<T>& c, Model<T>& m, const T& v, bool push) {
  if (push) {
    T w = v;
    c.push_front(v);
    m.insert(m.begin(), w);
  } else if (!m.empty()) {
    MC_CHECK(c.pop_front() == m.front(), "pop", "List pop_front returned the wrong element");
    m.erase(m.begin());
  }
}
template <class A, class T>
static void one(typename A::C& a, Model<T>& m, int op, int p, const T& v) {
  T w = v;
  int n = (int)m.size();
  if (p < 0) return;
  switch (op) {
    case 0: a.push(v), m.push_back(w); break;
    case 1:
      if (p <= n) a.insert(p, v), m.insert(m.begin() + p, w);
      break;
    case 2:
      if (p < n) setOp(a, p, v), m[p] = w;
      break;
    case 3:
      if (p < n) a.erase(p), m.erase(m.begin() + p);
      break;
    case 4:
      if (n) {
        MC_CHECK(a.pop() == m.back(), "pop", "%s pop returned the wrong element", A::name());
        m.pop_back();
      }
      break;
    case 5: frontOp(a, m, v, true); break;
    case 6: frontOp(a, m, v, false); break;
  }
}
template <class A, class T>
static void related(int top) {
  int n = mc::range(1, top), pat = mc::choose(5);
  auto gen = [&](int i) {
    switch (pat) {
      case 0: return 10 * i;               // rising
      case 1: return 10 * (i % 2);         // two values
      case 2: return 10 * (i % (n - 1 ? n - 1 : 1));  // the ends equal
      case 3: return 10 * (n - i);         // falling
      default: return 30;                  // all equal
    }
  };
  int op = mc::choose(A::isList ? 7 : 5), k = op == 1 || op == 2 || op == 3 ? mc::choose(5) : 0;
  int p = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 2 : k == 3 ? n - 1 : n;
  int val = op == 3 || op == 4 || op == 6 ? 0 : mc::choose(8), by = val < 5 ? mc::choose(2) : 0;
  int q = val == 0 ? 0 : val == 1 ? 1 : val == 2 ? n / 2 : val == 3 ? n - 2 : n - 1;
  if (q < 0 || q >= n || p > n) return;
  int then = mc::choose(A::isList ? 7 : 5);
  MC_OP("size %d pattern %d: operation %d at %d with value kind %d%s, then %d", n, pat, op, p, val, by ? " by reference" : "", then);
  typename A::C a;
  Model<T> m;
  for (int i = 0; i < n; i++) {
    T v = mkVal<T>(gen(i));
    a.push(v), m.push_back(v);
  }
  T fresh = mkVal<T>(val < 5 ? gen(q) : val == 5 ? gen(n - 1) + 1 : val == 6 ? gen(0) - 1 : 0);
  one<A, T>(a, m, op, p, by ? a[q] : fresh);
  verify<A, T>(a, m, "related");
  int s = (int)m.size();
  one<A, T>(a, m, then, then == 3 ? s - 1 : s / 2, s ? T(m[s - 1]) : fresh);
  mc::state(mc::Hash().add(showM<T>(m)));
  verify<A, T>(a, m, "related, then one more");
}
MC_SCOPE_LEAK(vector_related) { related<VecA<int>, int>(mc::bound(36, 100)); }
MC_SCOPE_LEAK(list_related) { related<ListA<int>, int>(mc::bound(36, 100)); }
MC_SCOPE_LEAK(vector_related_string) { related<VecA<string>, string>(mc::bound(18, 40)); }
MC_SCOPE_LEAK(list_related_string) { related<ListA<string>, string>(mc::bound(18, 40)); }

// long histories over a small operation set on one container
template <class A>
static void deep(int depth) {
  typename A::C a;
  Model<int> m;
  bool each = mc::flip();
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(A::isList ? 9 : 7)) {
      case 0:
        MC_OP("push(%d)", i);
        a.push(i), m.push_back(i);
        break;
      case 1:
        if (m.empty()) return;
        MC_OP("pop");
        MC_CHECK(a.pop() == m.back(), "pop", "%s pop wrong", A::name());
        m.pop_back();
        break;
      case 2:
        MC_OP("insert middle");
        a.insert((int)m.size() / 2, -i), m.insert(m.begin() + m.size() / 2, -i);
        break;
      case 3:
        if (m.empty()) return;
        MC_OP("erase middle");
        a.erase((int)m.size() / 2), m.erase(m.begin() + m.size() / 2);
        break;
      case 4: {
        MC_OP("assign itself");
        auto& r = a;
        a = r;
        break;
      }
      case 5: {
        MC_OP("swap with a copy");
        typename A::C b(a);
        a.clear();
        a.push(3);
        a = b;
        break;
      }
      case 6:
        MC_OP("clear");
        a.clear(), m.clear();
        break;
      case 7:
        listOps(a, m, a, m, true, 2);
        break;
      case 8:
        listOps(a, m, a, m, true, 3);
        break;
    }
    if (each) verify<A, int>(a, m, "deep");
  }
  mc::state(mc::Hash().add(mc::showAll(m)));
  verify<A, int>(a, m, "deep");
}
MC_SCOPE_LEAK(vector_deep) { deep<VecA<int>>(mc::bound(7, 8)); }
MC_SCOPE_LEAK(list_deep) { deep<ListA<int>>(mc::bound(6, 7)); }
#ifndef MC_PLAIN
// equal elements keep their order through sorting and merging (this list's before the other's)
struct Keyed {
  int key, tag;
  bool operator<(const Keyed& o) const { return key < o.key; }
  bool operator==(const Keyed& o) const { return key == o.key; }
  bool operator!=(const Keyed& o) const { return !(*this == o); }
  bool operator>(const Keyed& o) const { return o < *this; }
  bool operator<=(const Keyed& o) const { return !(o < *this); }
  bool operator>=(const Keyed& o) const { return !(*this < o); }
};
static void sameTags(const cuhksz::List<Keyed>& c, const std::vector<Keyed>& m, const char* what) {
  size_t i = 0;
  mc::ops(1);
  if (c.size() != (int)m.size()) mc::fail("stable", "%s: %d elements, expected %zu", what, c.size(), m.size());
  for (const Keyed& k : c) {
    if (k.key != m[i].key || k.tag != m[i].tag)
      mc::fail("stable", "%s: position %zu holds key %d tag %d, expected key %d tag %d", what, i, k.key, k.tag, m[i].key, m[i].tag);
    i++;
  }
}
static std::vector<Keyed> stable(const std::vector<Keyed>& m) {
  std::vector<Keyed> r;
  for (const Keyed& k : m) {
    size_t i = r.size();
    while (i > 0 && k.key < r[i - 1].key) i--;
    r.insert(r.begin() + i, k);
  }
  return r;
}
MC_SCOPE(list_stable_sort) {
  string s = mc::str("012", 0, mc::bound(8, 10));
  MC_OP("sort keys %s", s.c_str());
  mc::state(mc::Hash().add(s));
  cuhksz::List<Keyed> c;
  std::vector<Keyed> m;
  for (size_t i = 0; i < s.size(); i++) c.push(Keyed{s[i], (int)i}), m.push_back(Keyed{s[i], (int)i});
  c.sort();
  sameTags(c, stable(m), "sort");
}
MC_SCOPE(list_stable_merge) {
  string s = mc::str("012", 0, mc::bound(6, 7)), t = mc::str("012", 0, mc::bound(6, 7));
  if (!std::is_sorted(s.begin(), s.end()) || !std::is_sorted(t.begin(), t.end())) return;
  MC_OP("merge keys %s with %s", s.c_str(), t.c_str());
  mc::state(mc::Hash().add(s).add(t));
  cuhksz::List<Keyed> c, d;
  std::vector<Keyed> m;
  for (size_t i = 0; i < s.size(); i++) c.push(Keyed{s[i], (int)i}), m.push_back(Keyed{s[i], (int)i});
  for (size_t i = 0; i < t.size(); i++) d.push(Keyed{t[i], 100 + (int)i}), m.push_back(Keyed{t[i], 100 + (int)i});
  c.merge(d);
  sameTags(c, stable(m), "merge");
  sameTags(d, {}, "merged in");
}
MC_SCOPE(list_stable_ladder) {
  int n = mc::range(0, mc::bound(300, 1200)), keys = mc::range(1, 5), pat = mc::choose(3);
  MC_OP("sort, then merge, %d elements with %d keys, pattern %d", n, keys, pat);
  mc::state(mc::Hash().add(n).add(keys).add(pat));
  auto key = [&](int i) { return pat == 0 ? i % keys : pat == 1 ? (n - i) * keys / (n + 1) : (int)(mc::scramble(i, n) % keys); };
  cuhksz::List<Keyed> c, d, e;
  std::vector<Keyed> m, a, b;
  for (int i = 0; i < n; i++) {
    Keyed k{key(i), i};
    c.push(k), m.push_back(k);
    if (i % 3) d.push(k), a.push_back(k); else e.push(k), b.push_back(k);
  }
  auto less = [](const Keyed& x, const Keyed& y) { return x.key < y.key; };
  std::stable_sort(m.begin(), m.end(), less), std::stable_sort(a.begin(), a.end(), less), std::stable_sort(b.begin(), b.end(), less);
  c.sort(), d.sort(), e.sort();
  sameTags(c, m, "sort");
  sameTags(d, a, "sort");
  sameTags(e, b, "sort");
  d.merge(e);
  a.insert(a.end(), b.begin(), b.end());
  std::stable_sort(a.begin(), a.end(), less);
  sameTags(d, a, "merge");
  sameTags(e, {}, "merged in");
  c.sort();
  sameTags(c, m, "sort again");
}
#endif
