// modules: algorithm
// C24: zip, mapAll and filterContainer against their definitions.
#include "algorithm.h"

#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <utility>
#include "containers.h"
#include "util.h"

using std::string;
using std::vector;

template <class T>
static vector<T> genSeq(int lo, int hi, const vector<T>& vals) {
  int n = mc::range(lo, hi);
  vector<T> v;
  for (int i = 0; i < n; i++) v.push_back(mc::pick(vals));
  return v;
}
static mc::Hash& note(mc::Hash& h, const vector<int>& v) {
  h.add(v.size());
  for (int x : v) h.add(x);
  return h;
}
template <class C> static C as(const vector<typename C::value_type>& v) { return C(v.begin(), v.end()); }

// ------------------------------------------------------------ zip
template <class C>
static vector<C> refZip(const vector<C>& in) {
  size_t n = in[0].size();
  for (const C& c : in) n = std::min(n, c.size());
  vector<C> r(n);
  for (const C& c : in) {
    auto it = c.begin();
    for (size_t i = 0; i < n; i++, ++it) r[i].push_back(*it);
  }
  return r;
}
template <class C>
static void zipped(const vector<C>& in) {
  vector<C> c = in, want = refZip(in), got, viaCall, viaCast;
  mc::ops(3);
  switch (in.size()) {
    case 1: got = cuhksz::zip(c[0]); { cuhksz::Zip<C> z(c[0]); viaCall = z(); viaCast = z; } break;
    case 2: got = cuhksz::zip(c[0], c[1]); { cuhksz::Zip<C> z(c[0], c[1]); viaCall = z(); viaCast = (vector<C>)z; } break;
    case 3: got = cuhksz::zip(c[0], c[1], c[2]); { cuhksz::Zip<C> z(c[0], c[1], c[2]); viaCall = z(); viaCast = (vector<C>)z; } break;
    case 4: got = cuhksz::zip(c[0], c[1], c[2], c[3]); { cuhksz::Zip<C> z(c[0], c[1], c[2], c[3]); viaCall = z(); viaCast = (vector<C>)z; } break;
    case 5: got = cuhksz::zip(c[0], c[1], c[2], c[3], c[4]); { cuhksz::Zip<C> z(c[0], c[1], c[2], c[3], c[4]); viaCall = z(); viaCast = (vector<C>)z; } break;
  }
  if (c != in) mc::fail("zip:inputs", "an input of zip changed");
  auto sh = [](const vector<C>& v) {
    string s = "[";
    for (const C& x : v) s += mc::showAll(x);
    return s + "]";
  };
  if (got != want) mc::fail("zip", "zip of %s gives %s, expected %s", sh(in).c_str(), sh(got).c_str(), sh(want).c_str());
  if (viaCall != want || viaCast != want) mc::fail("zip:object", "a Zip object of %s gives %s or %s, expected %s", sh(in).c_str(), sh(viaCall).c_str(), sh(viaCast).c_str(), sh(want).c_str());
}
static void zipForms(const vector<vector<int>>& in) {
  string s;
  mc::Hash h;
  for (auto& v : in) s += " " + mc::showAll(v), note(h, v);
  MC_OP("zip%s", s.c_str());
  mc::state(h);
  mc::outcome(in.size() == 1 ? "one" : in.size() == 2 ? "two" : "more");
  zipped(in);
  vector<std::list<int>> l;
  vector<std::deque<int>> d;
  for (auto& v : in) l.push_back(as<std::list<int>>(v)), d.push_back(as<std::deque<int>>(v));
  zipped(l);
  zipped(d);
}
MC_SCOPE_LEAK(zip_lengths) {  // every combination of lengths, all values distinct
  int k = mc::range(1, 5), hi = mc::bound(6, 7);
  vector<vector<int>> in;
  for (int i = 0; i < k; i++) {
    int n = mc::range(0, hi);
    vector<int> v;
    for (int j = 0; j < n; j++) v.push_back(100 * i + j + 1);
    in.push_back(v);
  }
  zipForms(in);
}
template <size_t... I>
static void zipMany(std::index_sequence<I...>, const vector<vector<int>>& in) {
  vector<vector<int>> c = in, want = refZip(in), got = cuhksz::zip(c[I]...);
  cuhksz::Zip<vector<int>> z(c[I]...);
  vector<vector<int>> viaCall = z(), viaCast = z;
  if (got != want || viaCall != want || viaCast != want || c != in) mc::fail("zip:many", "zip of %zu containers of %zu and more", in.size(), want.size());
  vector<std::list<int>> l;
  for (auto& v : in) l.push_back(as<std::list<int>>(v));
  if (cuhksz::zip(l[I]...) != refZip(l)) mc::fail("zip:many", "zip of %zu lists", in.size());
}
MC_SCOPE_LEAK(zip_many) {  // many containers, one of them shorter
  int k = mc::range(6, 21), n = mc::range(1, 5), shorter = mc::choose(k + 1);
  if (k > 13 && k != 16 && k != 17) k = k == 21 ? 33 : 20;
  vector<vector<int>> in;
  for (int i = 0; i < k; i++) {
    vector<int> v;
    for (int j = 0; j < n - (i == shorter); j++) v.push_back(100 * i + j + 1);
    in.push_back(v);
  }
  MC_OP("zip of %d containers of %d, number %d shorter", k, n, shorter);
  mc::state(mc::Hash().add(k).add(n).add(shorter));
  mc::ops(4);
#define K(N) case N: return zipMany(std::make_index_sequence<N>(), in);
  switch (k) { K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(16) K(17) K(20) K(33) }
#undef K
}
MC_SCOPE_LEAK(zip_values) {
  int k = mc::range(1, 2), hi = mc::bound(4, 5);
  vector<vector<int>> in;
  for (int i = 0; i < k; i++) in.push_back(genSeq<int>(0, hi, {0, 1, -5}));
  zipForms(in);
}
MC_SCOPE_LEAK(zip_strings) {
  int k = mc::range(1, 4);
  vector<vector<string>> in;
  for (int i = 0; i < k; i++) {
    int n = mc::range(0, 3);
    vector<string> v;
    for (int j = 0; j < n; j++) v.push_back(string(30, (char)('a' + i)) + std::to_string(j));
    in.push_back(v);
  }
  MC_OP("zip of %d string lists", k);
  mc::Hash h;
  for (auto& v : in) h.add(v.size());
  mc::state(h);
  zipped(in);
  vector<string> rows;  // std::string is itself a container of characters
  for (auto& v : in) rows.push_back(string("abcdef").substr(0, v.size() * 2));
  zipped(rows);
}
MC_SCOPE_LEAK(zip_self) {
  vector<int> v = genSeq<int>(0, 4, {1, 2});
  MC_OP("zip %s with itself", mc::showAll(v).c_str());
  mc::Hash h;
  mc::state(note(h, v));
  vector<vector<int>> w;
  for (int x : v) w.push_back({x, x, x});
  if (cuhksz::zip(v, v, v) != w) mc::fail("zip:self", "zip of %s with itself", mc::showAll(v).c_str());
  auto once = cuhksz::zip(v, v);
  auto back = cuhksz::zip(once, once);  // nested containers
  if (back.size() != v.size()) mc::fail("zip:nested", "nested");
  for (size_t i = 0; i < v.size(); i++) if (back[i] != vector<vector<int>>{{v[i], v[i]}, {v[i], v[i]}}) mc::fail("zip:nested", "nested");
}
MC_SCOPE_LEAK(zip_huge) {
  int a = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), b = a + mc::pick({0, -1, 1, 3});
  MC_OP("zip of %d and %d, map and filter", a, b);
  mc::state(mc::Hash().add(a).add(b));
  vector<int> x, y;
  for (int i = 0; i < a; i++) x.push_back(i * 3);
  for (int i = 0; i < b; i++) y.push_back(-i);
  mc::beat();
  auto z = cuhksz::zip(x, y);
  size_t n = a < b ? a : b;
  if (z.size() != n) mc::fail("zip:huge", "zip of %d and %d has %zu groups", a, b, z.size());
  for (size_t i = 0; i < n; i++)
    if (z[i].size() != 2 || z[i][0] != x[i] || z[i][1] != y[i]) mc::fail("zip:huge", "group %zu wrong", i);
  mc::beat();
  vector<int> m = cuhksz::mapAll(x, [](int v) { return v / 3 + 1; });
  if (m.size() != x.size()) mc::fail("map:huge", "map of %d has %zu", a, m.size());
  for (size_t i = 0; i < m.size(); i++) if (m[i] != (int)i + 1) mc::fail("map:huge", "map wrong at %zu", i);
  int k = 0;
  vector<int> f = cuhksz::filterContainer(x, [&](int) { return k++ % 5 != 3; });
  size_t j = 0;
  for (int i = 0; i < a; i++)
    if (i % 5 != 3) {
      if (j >= f.size() || f[j] != x[i]) mc::fail("filter:huge", "filter wrong at %d", i);
      j++;
    }
  if (j != f.size() || k != a) mc::fail("filter:huge", "filter kept %zu", f.size());
}
MC_SCOPE_LEAK(zip_large) {
  int a = mc::size(0, 140, {255, 256, 257, 400}), b = a + mc::pick({0, -1, 1, -100, 100}), c = a + mc::pick({0, -1, 1, -100, 100});
  if (b < 0 || c < 0) return;
  MC_OP("zip of %d, %d and %d", a, b, c);
  mc::state(mc::Hash().add(a).add(b).add(c));
  vector<vector<int>> in(3);
  for (int i = 0; i < a; i++) in[0].push_back(i);
  for (int i = 0; i < b; i++) in[1].push_back(1000 + i);
  for (int i = 0; i < c; i++) in[2].push_back(-i);
  zipped(in);
}

// ------------------------------------------------------------ map and filter
struct Big {  // a value with heap storage
  string s;
  explicit Big(int i) : s(string(20, 'x') + std::to_string(i)) {}
  bool operator==(const Big& o) const { return s == o.s; }
  bool operator<(const Big& o) const { return s < o.s; }
  bool operator!=(const Big& o) const { return !(*this == o); }
  bool operator>(const Big& o) const { return o < *this; }
  bool operator<=(const Big& o) const { return !(o < *this); }
  bool operator>=(const Big& o) const { return !(*this < o); }
};
template <class C>
static void mapForms(C& c, const char* kind) {
  typedef typename C::value_type V;
  vector<V> items, seen;
  for (auto& x : c) items.push_back(x);
  C copy(c);
  mc::ops(4);
  auto chk = [&](const char* f) {
    if (seen != items) mc::fail("calls", "%s over %s: function not applied to each element once in order: %s instead of %s", f, kind, mc::showAll(seen).c_str(), mc::showAll(items).c_str());
    seen.clear();
    auto a = c.begin();
    for (auto b = copy.begin(); b != copy.end(); ++b, ++a)
      if (!(*a == *b)) mc::fail("inputs", "%s changed its %s", f, kind);
  };
  int calls = 0;
  auto sq = [&](const V& x) { seen.push_back(x); return x * x - ++calls; };
  auto r1 = cuhksz::mapAll(c, sq);
  chk("map");
  vector<decltype(V() * V() - 1)> w1;
  int k = 0;
  for (const V& x : items) w1.push_back(x * x - ++k);
  if (vector<decltype(V() * V() - 1)>(r1.begin(), r1.end()) != w1) mc::fail("map", "map over %s gives %s, expected %s", kind, mc::showAll(r1).c_str(), mc::showAll(w1).c_str());
  auto str = [&](const V& x) { seen.push_back(x); return string(25, 'q') + std::to_string(x); };
  vector<string> w2, r2 = cuhksz::mapAll(c, str);
  chk("map");
  for (const V& x : items) w2.push_back(string(25, 'q') + std::to_string(x));
  if (r2 != w2) mc::fail("map", "map to text over %s", kind);
  auto odd = [&](V x) { seen.push_back(x); return x % 2 != 0; };
  vector<bool> w3, r3 = cuhksz::mapAll(c, odd);
  chk("map");
  for (const V& x : items) w3.push_back(x % 2 != 0);
  if (r3 != w3) mc::fail("map", "map to bool over %s", kind);
  const C& cc = c;
  auto cr = cuhksz::mapAll(cc, sq);
  chk("map of a constant");
  if (cr.size() != items.size()) mc::fail("map", "map over a constant %s", kind);
}
template <class C, class P>
static void filterWith(C& c, const char* kind, P pred) {
  typedef typename C::value_type V;
  vector<V> items, seen, want;
  for (auto& x : c) items.push_back(x);
  int i = 0;
  for (const V& x : items) if (pred(x, i++)) want.push_back(x);
  C copy(c);
  mc::ops(1);
  int at = 0;
  auto f = [&](const V& x) { seen.push_back(x); return pred(x, at++); };
  vector<V> got = cuhksz::filterContainer(c, f);
  if (got != want) mc::fail("filter", "filtering %s of %s gives %s, expected %s", kind, mc::showAll(items).c_str(), mc::showAll(got).c_str(), mc::showAll(want).c_str());
  if (seen != items) mc::fail("calls", "filter over %s: predicate not applied to each element once in order", kind);
  auto a = c.begin();
  for (auto b = copy.begin(); b != copy.end(); ++b, ++a)
    if (!(*a == *b)) mc::fail("inputs", "filter changed its %s", kind);
}
template <class C>
static void both(C c, const char* kind, unsigned mask) {
  mapForms(c, kind);
  filterWith(c, kind, [=](int x, int i) { return (mask >> (i % 31) & 1) != 0; });  // any subset of positions
  filterWith(c, kind, [](int x, int) { return x > 0; });
  filterWith(c, kind, [](int, int) { return true; });
  filterWith(c, kind, [](int, int) { return false; });
  filterWith(c, kind, [](int x, int) { return x & 3; });  // truthy integers
}
template <class L> static L lib(const vector<int>& v) {
  L l;
  for (int x : v) l.push(x);
  return l;
}
static void everyContainer(const vector<int>& v, unsigned mask) {
  both(v, "vector", mask);
  both(as<std::list<int>>(v), "list", mask);
  both(as<std::deque<int>>(v), "deque", mask);
  both(as<std::multiset<int>>(v), "multiset", mask);
  both(lib<cuhksz::Vector<int>>(v), "Vector", mask);
  both(lib<cuhksz::List<int>>(v), "List", mask);
  cuhksz::Set<int> s;
  for (int x : v) s.insert(x);
  both(s, "Set", mask);
}
MC_SCOPE_LEAK(map_filter) {
  vector<int> v = genSeq<int>(0, mc::bound(6, 7), {0, 3, -2, 7});
  MC_OP("map and filter %s", mc::showAll(v).c_str());
  mc::Hash h;
  mc::state(note(h, v));
  both(v, "vector", 0x2d);
  both(lib<cuhksz::Vector<int>>(v), "Vector", 0x13);
}
MC_SCOPE_LEAK(map_filter_subsets) {  // every subset of positions kept
  int n = mc::range(0, mc::bound(9, 10));
  unsigned mask = mc::choose(1 << n);
  vector<int> v;
  for (int i = 0; i < n; i++) v.push_back((i * 7) % 5 - 2);
  MC_OP("keep %x of %s", mask, mc::showAll(v).c_str());
  mc::Hash h;
  mc::state(note(h, v).add(mask));
  everyContainer(v, mask);
}
MC_SCOPE_LEAK(map_filter_large) {
  int n = mc::choose(mc::bound(900, 1800)), k = mc::choose(3);
  vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(k == 0 ? i : k == 1 ? -i % 7 : (int)(mc::scramble(i, n) % 100));
  MC_OP("map and filter %d of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k));
  everyContainer(v, (unsigned)mc::scramble(n));
}
#ifndef MC_PLAIN
MC_SCOPE_LEAK(objects) {
  int n = mc::range(0, 6);
  unsigned mask = mc::choose(1 << n);
  vector<Big> v;
  for (int i = 0; i < n; i++) v.push_back(Big(i));
  MC_OP("keep %x of %d objects", mask, n);
  mc::state(mc::Hash().add(n).add(mask));
  const vector<Big> before = v;
  int i = 0;
  vector<Big> got = cuhksz::filterContainer(v, [&](Big&) { return mask >> i++ & 1; }), want;
  for (int j = 0; j < n; j++) if (mask >> j & 1) want.push_back(Big(j));
  if (!(got == want) || !(v == before)) mc::fail("filter:objects", "filter of objects");
  vector<size_t> len = cuhksz::mapAll(v, [](const Big& b) { return b.s.size(); });
  vector<Big*> ptr = cuhksz::mapAll(v, [](Big& b) { return &b; });
  for (int j = 0; j < n; j++) if (len[j] != v[j].s.size() || ptr[j] != &v[j]) mc::fail("map:objects", "map of objects");
  if (len.size() != (size_t)n || ptr.size() != (size_t)n || !(v == before)) mc::fail("map:objects", "map of objects");
  std::map<int, string> m;
  for (int j = 0; j < n; j++) m[(j * 5) % 7] = string(18, 'v') + std::to_string(j);
  vector<int> keys = cuhksz::mapAll(m, [](std::pair<const int, string>& p) { return p.first; }), wk;
  for (auto& p : m) wk.push_back(p.first);
  if (keys != wk) mc::fail("map:map", "map over std::map");
}
#endif
