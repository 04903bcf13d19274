// modules:
// C03: Set, MultiSet, Map and MultiMap against ideal collections kept as plain
// arrays (sorted insertion by hand, no associative container in the model).
#include "containers.h"

#include <algorithm>
#include "util.h"

using std::string;

static const char* const kStr[] = {"", "key", "a key long enough to live on the heap", "zz"};
template <class T>
struct K;
template <>
struct K<int> {
  static int at(int i) {
    static const int v[] = {0, -5, 2147483647, -2147483647 - 1};
    return i < 4 ? v[i] : (int)mc::scramble(i);
  }
};
template <>
struct K<string> {
  static string at(int i) { return i < 4 ? kStr[i] : "k" + std::to_string(mc::scramble(i)); }
};
// descending order, to see that iteration follows the key type's own order
struct Desc {
  int v;
  bool operator<(const Desc& o) const { return v > o.v; }
  bool operator==(const Desc& o) const { return v == o.v; }
  bool operator!=(const Desc& o) const { return !(*this == o); }
  bool operator>(const Desc& o) const { return o < *this; }
  bool operator<=(const Desc& o) const { return !(o < *this); }
  bool operator>=(const Desc& o) const { return !(*this < o); }
};
template <>
struct K<Desc> {
  static Desc at(int i) { return Desc{i * 3}; }
};

template <class T>
static bool eq(const T& a, const T& b) { return !(a < b) && !(b < a); }

template <class V>
static int order(const std::vector<V>& a, const std::vector<V>& b) {
  for (size_t i = 0;; i++) {
    if (i == a.size() || i == b.size())
      return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
    if (a[i] < b[i]) return -1;
    if (b[i] < a[i]) return 1;
  }
}
template <class C>
static void compare6(C& a, C& b, int o, const char* what) {
  MC_CHECK((a == b) == (o == 0) && (a != b) == (o != 0) && (a < b) == (o < 0) &&
               (a <= b) == (o <= 0) && (a > b) == (o > 0) && (a >= b) == (o >= 0),
           "compare", "%s comparisons wrong (order %d)", what, o);
}

// ------------------------------------------------------------ Set, MultiSet
template <class T>
struct SetA {
  typedef cuhksz::Set<T> C;
  typedef std::set<T> Std;
  enum { multi = 0 };
  static const char* name() { return "Set"; }
  static Std conv(C& c, bool imp) {
    if (!imp) return c.toStlSet();
    Std s = c;
    return s;
  }
  static int count(const C& c, const T& v) { return c.contains(v) ? 1 : 0; }
};
template <class T>
struct MultiSetA {
  typedef cuhksz::MultiSet<T> C;
  typedef std::multiset<T> Std;
  enum { multi = 1 };
  static const char* name() { return "MultiSet"; }
  static Std conv(C& c, bool imp) {
    if (!imp) return c.toStlMultiset();
    Std s = c;
    return s;
  }
  static int count(const C& c, const T& v) {
    int n = c.count(v);
    MC_CHECK(c.contains(v) == (n > 0), "contains", "MultiSet contains and count disagree");
    return n;
  }
};
template <class A, class T>
struct SetModel {
  std::vector<T> v;  // ascending
  int count(const T& x) const {
    int n = 0;
    for (auto& y : v) n += eq(x, y);
    return n;
  }
  void add(const T& x) {
    if (!A::multi && count(x)) return;
    size_t i = 0;
    while (i < v.size() && !(x < v[i])) i++;
    v.insert(v.begin() + i, x);
  }
  void remove(const T& x) {
    std::vector<T> w;
    for (auto& y : v)
      if (!eq(x, y)) w.push_back(y);
    v = w;
  }
};
template <class A, class T>
static void verifySet(typename A::C& c, const SetModel<A, T>& m, int keys) {
  const typename A::C& k = c;
  mc::ops(1);
  MC_CHECK(c.size() == (int)m.v.size(), "size", "%s size %d, expected %zu", A::name(), c.size(),
           m.v.size());
  MC_CHECK(c.isEmpty() == m.v.empty(), "empty", "%s isEmpty wrong", A::name());
  for (int i = 0; i < keys; i++) {
    int n = A::count(k, K<T>::at(i));
    MC_CHECK(n == m.count(K<T>::at(i)), "member", "%s reports %d of value %d, expected %d",
             A::name(), n, i, m.count(K<T>::at(i)));
  }
  size_t i = 0;
  for (auto& x : c) {
    MC_CHECK(i < m.v.size() && eq(x, m.v[i]), "iterate", "%s iterates wrongly", A::name());
    i++;
  }
  MC_CHECK(i == m.v.size(), "iterate", "%s iteration stops early", A::name());
  i = 0;
  for (auto& x : k) {
    MC_CHECK(i < m.v.size() && eq(x, m.v[i]), "iterate", "const %s iterates wrongly", A::name());
    i++;
  }
  MC_CHECK(i == m.v.size(), "iterate", "const %s iteration stops early", A::name());
  for (int imp = 0; imp < 2; imp++) {
    typename A::Std s = A::conv(c, imp);
    MC_CHECK(s.size() == m.v.size() &&
                 std::equal(m.v.begin(), m.v.end(), s.begin(),
                            [](const T& a, const T& b) { return eq(a, b); }),
             "convert", "%s conversion differs", A::name());
  }
}
template <class A, class T>
static void setHistory(int depth, int keys) {
  typedef typename A::C C;
  C* c[2];
  SetModel<A, T> m[2];
  bool each = mc::flip();
  for (int w = 0; w < 2; w++) {
    switch (mc::choose(w ? 2 : 4)) {
      case 0:
        MC_OP("new empty");
        c[w] = new C();
        break;
      case 1:
        MC_OP("literal list with a duplicate");
        c[w] = new C{K<T>::at(1), K<T>::at(0), K<T>::at(1)};
        m[w].add(K<T>::at(1)), m[w].add(K<T>::at(0)), m[w].add(K<T>::at(1));
        break;
      case 2: {
        MC_OP("from standard container");
        typename A::Std s;
        s.insert(K<T>::at(2)), s.insert(K<T>::at(0)), s.insert(K<T>::at(2));
        c[w] = new C(s);
        s.clear();
        m[w].add(K<T>::at(2)), m[w].add(K<T>::at(0)), m[w].add(K<T>::at(2));
        break;
      }
      case 3:
        MC_OP("literal list of one");
        c[w] = new C{K<T>::at(2)};
        m[w].add(K<T>::at(2));
        break;
    }
  }
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    int w = mc::choose(2);
    C& x = *c[w];
    auto& y = m[w];
    switch (mc::choose(7)) {
      case 0: {
        int k = mc::choose(keys);
        MC_OP("insert %d in %d", k, w);
        x.insert(K<T>::at(k));
        y.add(K<T>::at(k));
        break;
      }
      case 1: {
        int k = mc::choose(keys);
        if (A::multi && !y.count(K<T>::at(k))) break;
        MC_OP("erase %d from %d", k, w);
        x.erase(K<T>::at(k));
        y.remove(K<T>::at(k));
        break;
      }
      case 2:
        MC_OP("clear %d", w);
        x.clear();
        y.v.clear();
        break;
      case 3: {
        MC_OP("%d = other", w);
        C& r = (x = *c[1 - w]);
        MC_CHECK(&r == &x, "assign", "%s assignment does not return its target", A::name());
        y = m[1 - w];
        break;
      }
      case 4: {
        MC_OP("%d = itself", w);
        C& r = *c[w];
        x = r;
        break;
      }
      case 5: {
        MC_OP("%d := copy of the other", w);
        C* f = new C(*c[1 - w]);
        delete c[w];
        c[w] = f;
        y = m[1 - w];
        break;
      }
      case 6: {  // arguments living inside the container
        if (y.v.empty()) break;
        bool last = mc::flip(), ins = mc::flip();
        T v = last ? y.v.back() : y.v.front();
        auto it = x.begin();
        if (last)
          for (size_t j = 1; j < y.v.size(); j++) ++it;
        MC_OP("%s own element of %d", ins ? "insert" : "erase", w);
        if (ins) {
          x.insert(*it);
          y.add(v);
        } else {
          x.erase(*it);
          y.remove(v);
        }
        break;
      }
    }
    if (each) verifySet<A, T>(*c[0], m[0], keys), verifySet<A, T>(*c[1], m[1], keys);
  }
  for (int w = 0; w < 2; w++) verifySet<A, T>(*c[w], m[w], keys);
  int o = order(m[0].v, m[1].v);
  compare6(*c[0], *c[1], o, A::name());
  compare6(*c[1], *c[0], -o, A::name());
  compare6(*c[0], *c[0], 0, A::name());
  mc::Hash h;
  for (int w = 0; w < 2; w++) {
    h.add(w);
    for (int k = 0; k < keys; k++) h.add(m[w].count(K<T>::at(k)));
  }
  mc::state(h);
  delete c[0];
  delete c[1];
}
MC_SCOPE_LEAK(set_int) { setHistory<SetA<int>, int>(mc::bound(3, 5), 3); }
MC_SCOPE_LEAK(set_string) { setHistory<SetA<string>, string>(mc::bound(3, 4), 3); }
#ifndef MC_PLAIN
MC_SCOPE_LEAK(set_desc) { setHistory<SetA<Desc>, Desc>(3, 4); }
#endif
MC_SCOPE_LEAK(multiset_int) { setHistory<MultiSetA<int>, int>(mc::bound(3, 5), 3); }
MC_SCOPE_LEAK(multiset_string) { setHistory<MultiSetA<string>, string>(mc::bound(3, 4), 3); }
#ifndef MC_PLAIN
MC_SCOPE_LEAK(multiset_desc) { setHistory<MultiSetA<Desc>, Desc>(3, 4); }
#endif

template <class A>
static void setLadder() {
  int n = mc::size(1, mc::bound(140, 400), {200, 255, 256, 257, 511, 512, 513, 1000}), form = mc::choose(3), rem = mc::choose(4);
  MC_OP("%d insertions in order %d, then removal pattern %d", n, form, rem);
  typename A::C c;
  SetModel<A, int> m;
  auto key = [&](int i) { return form == 0 ? i : form == 1 ? n - i : (int)(mc::scramble(i) % n); };
  for (int i = 0; i < n; i++) c.insert(key(i)), m.add(key(i));
  for (int i = 0; i < n; i++) {
    bool r = rem == 1 ? i % 2 : rem == 2 ? i > n / 2 : rem == 3;
    if (!r || (A::multi && !m.count(i))) continue;
    c.erase(i), m.remove(i);
  }
  mc::beat();
  MC_CHECK(c.size() == (int)m.v.size(), "size", "%s size wrong", A::name());
  size_t j = 0;
  for (int x : c) {
    MC_CHECK(j < m.v.size() && m.v[j] == x, "iterate", "%s iterates wrongly", A::name());
    j++;
  }
  MC_CHECK(j == m.v.size(), "iterate", "%s iteration stops early", A::name());
  for (int i = -1; i <= n + 1; i++)
    MC_CHECK(A::count(c, i) == m.count(i), "member", "%s membership of %d wrong", A::name(), i);
  mc::state(mc::Hash().add(n).add(form).add(rem));
}
MC_SCOPE_LEAK(set_ladder) { setLadder<SetA<int>>(); }
MC_SCOPE_LEAK(multiset_ladder) { setLadder<MultiSetA<int>>(); }

// sizes and multiplicities beyond 16 bits
template <class A>
static void setHuge() {
  int n = mc::pick({4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), form = mc::choose(3), gone = mc::pick({-1, 0, 1, 4096, n - 1});
  MC_OP("%d insertions, form %d, then erase %d", n, form, gone);
  mc::state(mc::Hash().add(n).add(form).add(gone));
  typename A::C c;
  // form 0: ascending, 1: descending, 2: two values only
  std::vector<int> cnt(n + 8, 0);
  for (int i = 0; i < n; i++) {
    int k = form == 0 ? i : form == 1 ? n - 1 - i : i % 2 * 4096;
    c.insert(k);
    if (A::multi) cnt[k]++; else cnt[k] = 1;
    if (i % 256 == 0) mc::beat();
  }
  if (gone >= 0 && cnt[gone]) c.erase(gone), cnt[gone] = 0;
  typename A::C d(c);
  c.insert(7), cnt[7] += A::multi || !cnt[7];
  std::vector<int> all;
  for (int i = 0; i < n + 8; i++) all.insert(all.end(), cnt[i], i);
  MC_CHECK(c.size() == (int)all.size() && c.isEmpty() == all.empty(), "size", "%s size %d, expected %zu", A::name(), c.size(), all.size());
  size_t j = 0;
  for (int x : c) {
    MC_CHECK(j < all.size() && all[j] == x, "iterate", "%s iterates wrongly", A::name());
    j++;
  }
  MC_CHECK(j == all.size(), "iterate", "%s iteration stops early", A::name());
  for (int i : {0, 1, 2, 7, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, n - 2, n - 1})
    if (i < n) MC_CHECK(A::count(c, i) == cnt[i], "member", "%s count of %d is %d, expected %d", A::name(), i, A::count(c, i), cnt[i]);
  MC_CHECK(!(c == d) == (d.size() != c.size()), "compare", "%s equality of large sets wrong", A::name());
}
MC_SCOPE_LEAK(set_huge) { setHuge<SetA<int>>(); }
MC_SCOPE_LEAK(multiset_huge) { setHuge<MultiSetA<int>>(); }

// every pair of small contents, and every size against a slightly different one
template <class A>
static void setPair(const std::vector<int>& x, const std::vector<int>& y) {
  typename A::C a, b;
  SetModel<A, int> ma, mb;
  for (int v : x) a.insert(v), ma.add(v);
  for (int v : y) b.insert(v), mb.add(v);
  int o = order(ma.v, mb.v);
  compare6(a, b, o, A::name());
  compare6(b, a, -o, A::name());
  a = b;
  MC_OP("assigned");
  verifySet<A, int>(a, mb, 4);
  typename A::C c(b);
  b.clear();
  verifySet<A, int>(b, SetModel<A, int>(), 4);
  verifySet<A, int>(a, mb, 4);
  verifySet<A, int>(c, mb, 4);
}
template <class A>
static void setContents() {
  std::vector<int> x[2];
  for (auto& s : x)
    for (int v = 0; v < (A::multi ? 3 : 5); v++)
      for (int k = mc::range(0, A::multi ? 2 : 1); k > 0; k--) s.push_back(v);
  MC_OP("%s against %s", mc::showAll(x[0]).c_str(), mc::showAll(x[1]).c_str());
  mc::state(mc::Hash().range(x[0].begin(), x[0].end()).add(-1).range(x[1].begin(), x[1].end()));
  setPair<A>(x[0], x[1]);
}
template <class A>
static void setPairs() {
  int n = mc::size(0, mc::bound(140, 400), {255, 256, 257}), k = n + mc::pick({0, 1, -1, 50, -50, -n}), at = mc::choose(4), by = mc::pick({-1, 1});
  if (k < 0) return;
  int pos = at == 0 ? -1 : at == 1 ? 0 : at == 2 ? k / 2 : k - 1;
  if (at && pos < 0) return;
  MC_OP("%d against %d elements, differing at %d", n, k, pos);
  mc::state(mc::Hash().add(n).add(k).add(pos).add(by));
  std::vector<int> x, y;
  for (int i = 0; i < n; i++) x.push_back(3 * i);
  for (int i = 0; i < k; i++) y.push_back(3 * i + (i == pos ? by : 0));
  setPair<A>(x, y);
}
MC_SCOPE_LEAK(set_contents) { setContents<SetA<int>>(); }
MC_SCOPE_LEAK(multiset_contents) { setContents<MultiSetA<int>>(); }
MC_SCOPE_LEAK(set_pairs) { setPairs<SetA<int>>(); }
MC_SCOPE_LEAK(multiset_pairs) { setPairs<MultiSetA<int>>(); }

// ------------------------------------------------------------ Map
template <class T>
struct MapModel {
  std::vector<std::pair<T, string>> v;  // ascending keys
  int find(const T& k) const {
    for (size_t i = 0; i < v.size(); i++)
      if (eq(v[i].first, k)) return (int)i;
    return -1;
  }
  string& ref(const T& k) {
    int f = find(k);
    if (f >= 0) return v[f].second;
    size_t i = 0;
    while (i < v.size() && v[i].first < k) i++;
    v.insert(v.begin() + i, std::make_pair(k, string()));
    return v[i].second;
  }
  void remove(const T& k) {
    int f = find(k);
    if (f >= 0) v.erase(v.begin() + f);
  }
};
static string val(int i) {
  return i == 0 ? "v0" : i == 1 ? "a value long enough to live on the heap" : "v" + std::to_string(i);
}
template <class T>
static void verifyMap(cuhksz::Map<T, string>& c, const MapModel<T>& m, int keys) {
  const cuhksz::Map<T, string>& k = c;
  mc::ops(1);
  MC_CHECK(c.size() == (int)m.v.size(), "size", "Map size %d, expected %zu", c.size(), m.v.size());
  MC_CHECK(c.isEmpty() == m.v.empty(), "empty", "Map isEmpty wrong");
  for (int i = 0; i < keys; i++) {
    int f = m.find(K<T>::at(i));
    MC_CHECK(c.contains(K<T>::at(i)) == (f >= 0), "member", "Map membership of key %d wrong", i);
    if (f >= 0)
      MC_CHECK(c.get(K<T>::at(i)) == m.v[f].second && k.get(K<T>::at(i)) == m.v[f].second,
               "lookup", "Map value of key %d wrong", i);
  }
  size_t i = 0;
  for (auto& x : c) {
    MC_CHECK(i < m.v.size() && eq(x.first, m.v[i].first) && x.second == m.v[i].second, "iterate",
             "Map iterates wrongly");
    i++;
  }
  MC_CHECK(i == m.v.size(), "iterate", "Map iteration stops early");
  i = 0;
  for (auto& x : k) {
    MC_CHECK(i < m.v.size() && eq(x.first, m.v[i].first) && x.second == m.v[i].second, "iterate",
             "const Map iterates wrongly");
    i++;
  }
  MC_CHECK(i == m.v.size(), "iterate", "const Map iteration stops early");
  for (int imp = 0; imp < 2; imp++) {
    std::map<T, string> s;
    if (imp) {
      std::map<T, string> t = c;
      s = t;
    } else {
      s = c.toStlMap();
    }
    i = 0;
    bool ok = s.size() == m.v.size();
    for (auto& x : s) {
      ok = ok && i < m.v.size() && eq(x.first, m.v[i].first) && x.second == m.v[i].second;
      i++;
    }
    MC_CHECK(ok, "convert", "Map conversion differs");
  }
}
template <class T>
static void mapHistory(int depth, int keys) {
  typedef cuhksz::Map<T, string> C;
  C* c[2];
  MapModel<T> m[2];
  bool each = mc::flip();
  for (int w = 0; w < 2; w++) {
    switch (mc::choose(w ? 2 : 3)) {
      case 0:
        MC_OP("new empty");
        c[w] = new C();
        break;
      case 1:
        MC_OP("literal list");
        c[w] = new C{{K<T>::at(1), val(0)}, {K<T>::at(0), val(1)}};
        m[w].ref(K<T>::at(1)) = val(0), m[w].ref(K<T>::at(0)) = val(1);
        break;
      case 2: {
        MC_OP("from standard map");
        std::map<T, string> s;
        s[K<T>::at(2)] = val(1), s[K<T>::at(0)] = val(0);
        c[w] = new C(s);
        s.clear();
        m[w].ref(K<T>::at(2)) = val(1), m[w].ref(K<T>::at(0)) = val(0);
        break;
      }
    }
  }
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    int w = mc::choose(2);
    C& x = *c[w];
    auto& y = m[w];
    string nv = val(i % 2 ? 1 : 5 + i);
    switch (mc::choose(9)) {
      case 0: {
        int k = mc::choose(keys);
        MC_OP("%d.set(%d)", w, k);
        x.set(K<T>::at(k), nv);
        y.ref(K<T>::at(k)) = nv;
        break;
      }
      case 1: {
        int k = mc::choose(keys);
        MC_OP("%d[%d] read", w, k);
        MC_CHECK(x[K<T>::at(k)] == y.ref(K<T>::at(k)), "lookup", "Map [] of key %d wrong", k);
        break;
      }
      case 2: {
        int k = mc::choose(keys);
        MC_OP("%d[%d] = v", w, k);
        x[K<T>::at(k)] = nv;
        y.ref(K<T>::at(k)) = nv;
        break;
      }
      case 3: {
        int k = mc::choose(keys);
        MC_OP("%d.erase(%d)", w, k);
        x.erase(K<T>::at(k));
        y.remove(K<T>::at(k));
        break;
      }
      case 4:
        MC_OP("%d.clear", w);
        x.clear();
        y.v.clear();
        break;
      case 5: {
        bool self = mc::flip();
        MC_OP("%d = %s", w, self ? "itself" : "other");
        C& src = *c[self ? w : 1 - w];
        C& r = (x = src);
        MC_CHECK(&r == &x, "assign", "Map assignment does not return its target");
        if (!self) y = m[1 - w];
        break;
      }
      case 6: {
        MC_OP("%d := copy of the other", w);
        C* f = new C(*c[1 - w]);
        delete c[w];
        c[w] = f;
        y = m[1 - w];
        break;
      }
      case 7: {
        if (y.v.empty()) break;
        MC_OP("write through get and iteration in %d", w);
        x.get(y.v[0].first) = nv;
        y.v[0].second = nv;
        for (auto& e : x) e.second += "!";
        for (auto& e : y.v) e.second += "!";
        break;
      }
      case 8: {
        if (y.v.empty()) break;
        MC_OP("erase own first key of %d, set from own value", w);
        x.set(K<T>::at(0), x.begin()->second);
        string sv = y.v[0].second;
        y.ref(K<T>::at(0)) = sv;
        T fk = y.v[0].first;
        x.erase(x.begin()->first);
        y.remove(fk);
        break;
      }
    }
    if (each) verifyMap<T>(*c[0], m[0], keys), verifyMap<T>(*c[1], m[1], keys);
  }
  for (int w = 0; w < 2; w++) verifyMap<T>(*c[w], m[w], keys);
  int o = order(m[0].v, m[1].v);
  compare6(*c[0], *c[1], o, "Map");
  compare6(*c[1], *c[0], -o, "Map");
  compare6(*c[0], *c[0], 0, "Map");
  mc::Hash h;
  for (int w = 0; w < 2; w++) {
    h.add(w);
    for (int k = 0; k < keys; k++) {
      int f = m[w].find(K<T>::at(k));
      h.add(f < 0 ? string("-") : m[w].v[f].second);
    }
  }
  mc::state(h);
  delete c[0];
  delete c[1];
}
MC_SCOPE_LEAK(map_int) { mapHistory<int>(mc::bound(3, 4), 3); }
MC_SCOPE_LEAK(map_string) { mapHistory<string>(mc::bound(3, 4), 3); }
#ifndef MC_PLAIN
MC_SCOPE_LEAK(map_desc) { mapHistory<Desc>(mc::bound(2, 3), 4); }
#endif
// numeric values: a missing key gets the value type's zero, never an indeterminate one
MC_SCOPE_LEAK(map_default) {
  int n = mc::pick({1, 2, 50}), k = mc::choose(4);
  cuhksz::Map<int, int> c;
  cuhksz::Map<int, double> d;
  cuhksz::Map<int, int*> p;
  for (int i = 0; i < n; i++) c.set(i, i + 1), d.set(i, i + 1.5);
  MC_OP("access missing key after %d sets", n);
  if (k & 1) c.erase(0), d.erase(0);
  int key = k & 2 ? -7 : 1000;
  MC_CHECK(c[key] == 0 && d[key] == 0.0 && p[key] == nullptr, "default", "missing key not zero");
  MC_CHECK(c.size() == n + 1 - (k & 1) && c.contains(key), "default", "missing key not created");
  mc::state(mc::Hash().add(n).add(k));
}
static void mapPair(const std::vector<std::pair<int, string>>& x, const std::vector<std::pair<int, string>>& y) {
  cuhksz::Map<int, string> a, b;
  MapModel<int> ma, mb;
  for (auto& e : x) a.set(e.first, e.second), ma.ref(e.first) = e.second;
  for (auto& e : y) b[e.first] = e.second, mb.ref(e.first) = e.second;
  int o = order(ma.v, mb.v);
  compare6(a, b, o, "Map");
  compare6(b, a, -o, "Map");
  a = b;
  MC_OP("assigned");
  verifyMap<int>(a, mb, 4);
  cuhksz::Map<int, string> c(b);
  b.clear();
  verifyMap<int>(b, MapModel<int>(), 4);
  verifyMap<int>(a, mb, 4);
  verifyMap<int>(c, mb, 4);
}
MC_SCOPE_LEAK(map_contents) {
  std::vector<std::pair<int, string>> x[2];
  mc::Hash h;
  for (auto& s : x)
    for (int v = 0; v < 4; v++) {
      int k = mc::choose(3);
      h.add(k);
      if (k) s.push_back(std::make_pair(v, val(k)));
    }
  mc::state(h);
  MC_OP("%zu against %zu entries", x[0].size(), x[1].size());
  mapPair(x[0], x[1]);
}
MC_SCOPE_LEAK(map_pairs) {
  int n = mc::size(0, mc::bound(140, 400), {255, 256, 257}), k = n + mc::pick({0, 1, -1, 50, -n}), at = mc::choose(4), by = mc::choose(3);
  if (k < 0) return;
  int pos = at == 0 ? -1 : at == 1 ? 0 : at == 2 ? k / 2 : k - 1;
  if (at && pos < 0) return;
  MC_OP("%d against %d entries, differing at %d", n, k, pos);
  mc::state(mc::Hash().add(n).add(k).add(pos).add(by));
  std::vector<std::pair<int, string>> x, y;
  for (int i = 0; i < n; i++) x.push_back(std::make_pair(3 * i, val(i % 3)));
  for (int i = 0; i < k; i++) y.push_back(std::make_pair(3 * i + (i == pos ? by - 1 : 0), i == pos && by == 1 ? "other" : val(i % 3)));
  mapPair(x, y);
}
MC_SCOPE_LEAK(map_ladder) {
  int n = mc::size(1, mc::bound(140, 300), {255, 256, 257, 500}), form = mc::choose(3), rem = mc::choose(4);
  MC_OP("%d keys in order %d, removal %d", n, form, rem);
  cuhksz::Map<int, string> c;
  MapModel<int> m;
  auto key = [&](int i) { return form == 0 ? i : form == 1 ? n - i : (int)(mc::scramble(i) % n); };
  for (int i = 0; i < n; i++) {
    if (i % 2)
      c.set(key(i), val(i));
    else
      c[key(i)] = val(i);
    m.ref(key(i)) = val(i);
  }
  for (int i = 0; i < n; i++)
    if (rem == 1 ? i % 2 : rem == 2 ? i > n / 2 : rem == 3) c.erase(i), m.remove(i);
  mc::beat();
  verifyMap<int>(c, m, 0);
  for (int i = -1; i <= n + 1; i++) {
    int f = m.find(i);
    MC_CHECK(c.contains(i) == (f >= 0), "member", "Map membership of %d wrong", i);
    if (f >= 0) MC_CHECK(c.get(i) == m.v[f].second, "lookup", "Map value of %d wrong", i);
  }
  mc::state(mc::Hash().add(n).add(form).add(rem));
}

// sizes beyond 16 bits
MC_SCOPE_LEAK(map_huge) {
  int n = mc::pick({4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), form = mc::choose(3), gone = mc::pick({-1, 0, 4095, n - 1});
  MC_OP("%d keys, form %d, then erase %d", n, form, gone);
  mc::state(mc::Hash().add(n).add(form).add(gone));
  cuhksz::Map<int, int> c;
  for (int i = 0; i < n; i++) {
    int k = form == 1 ? n - 1 - i : i;
    if (form == 2)
      c.set(k, k * 5);
    else
      c[k] = k * 5;
    if (i % 256 == 0) mc::beat();
  }
  if (gone >= 0) c.erase(gone);
  MC_CHECK(c.size() == n - (gone >= 0), "size", "Map size %d of %d keys", c.size(), n);
  int j = 0;
  for (auto& x : c) {
    if (j == gone) j++;
    MC_CHECK(x.first == j && x.second == j * 5, "iterate", "Map iterates wrongly at %d", j);
    j++;
  }
  MC_CHECK(j == n || (j == n - 1 && gone == j), "iterate", "Map iteration stops early");
  cuhksz::Map<int, int> d(c);
  const auto& e = d;
  for (int i : {0, 1, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, n - 2, n - 1, n}) {
    bool in = i < n && i != gone;
    MC_CHECK(d.contains(i) == in, "member", "Map membership of %d wrong", i);
    if (in) MC_CHECK(e.get(i) == i * 5 && c[i] == i * 5, "lookup", "Map value of %d wrong", i);
  }
  MC_CHECK(c == d, "compare", "a copied Map differs");
  d.set(n / 2, -1);
  MC_CHECK(c != d && c.get(n / 2 == gone ? 1 : n / 2) == (n / 2 == gone ? 5 : n / 2 * 5), "compare", "Maps with different values are equal");
}

// ------------------------------------------------------------ MultiMap
typedef cuhksz::MultiMap<int, string> MM;
typedef std::vector<std::pair<int, string>> MMV;  // ascending keys, insertion order within a key
static void mmAdd(MMV& v, int k, const string& s) {
  size_t i = 0;
  while (i < v.size() && v[i].first <= k) i++;
  v.insert(v.begin() + i, std::make_pair(k, s));
}
static void verifyMM(MM& c, const MMV& m) {
  const MM& k = c;
  mc::ops(1);
  MC_CHECK(c.size() == (int)m.size(), "size", "MultiMap size %d, expected %zu", c.size(), m.size());
  MC_CHECK(c.isEmpty() == m.empty(), "empty", "MultiMap isEmpty wrong");
  for (int key = -1; key <= 4; key++) {
    std::vector<string> want;
    int n = 0;
    for (auto& x : m)
      if (x.first == key) {
        n++;
        if (std::find(want.begin(), want.end(), x.second) == want.end()) want.push_back(x.second);
      }
    std::sort(want.begin(), want.end());
    MC_CHECK(k.count(key) == n, "count", "MultiMap count(%d)=%d, expected %d", key, k.count(key), n);
    cuhksz::Set<string> got = c.find(key);
    std::vector<string> g;
    for (auto& x : got) g.push_back(x);
    MC_CHECK(g == want, "find", "MultiMap find(%d) returned %zu values, expected %zu", key,
             g.size(), want.size());
  }
  size_t i = 0;
  for (auto& x : c) {
    MC_CHECK(i < m.size() && x.first == m[i].first, "iterate", "MultiMap key order wrong");
    i++;
  }
  MC_CHECK(i == m.size(), "iterate", "MultiMap iteration stops early");
  MMV got;
  for (auto& x : k) got.push_back(std::make_pair(x.first, x.second));
  MMV a = got, b = m;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  MC_CHECK(a == b, "iterate", "MultiMap content wrong");
  for (int imp = 0; imp < 2; imp++) {
    std::multimap<int, string> s;
    if (imp) {
      std::multimap<int, string> t = c;
      s = t;
    } else {
      s = c.toStlMultimap();
    }
    MMV e(s.begin(), s.end());
    std::sort(e.begin(), e.end());
    MC_CHECK(e == b, "convert", "MultiMap conversion differs");
  }
}
MC_SCOPE_LEAK(multimap_ladder) {
  int n = mc::size(0, mc::bound(100, 300), {127, 128, 129, 255, 256, 257, 1000}), keys = mc::range(1, 4), vals = mc::choose(3), gone = mc::range(-1, 3);
  MC_OP("%d entries under %d keys, value pattern %d, then erase %d", n, keys, vals, gone);
  mc::state(mc::Hash().add(n).add(keys).add(vals).add(gone));
  std::multimap<int, string> s;
  MMV m;
  for (int i = 0; i < n; i++) {
    string v = "value " + std::to_string(vals == 0 ? i : vals == 1 ? n - i : i / 2 % 20);
    s.insert(std::make_pair(i % keys, v));
    mmAdd(m, i % keys, v);
  }
  MM c(s), d;
  d = c;
  if (gone >= 0) {
    c.erase(gone);
    MMV t;
    for (auto& x : m) if (x.first != gone) t.push_back(x);
    verifyMM(d, m);
    m = t;
  }
  verifyMM(c, m);
}
MC_SCOPE_LEAK(multimap) {
  MM* c[2];
  MMV m[2];
  for (int w = 0; w < 2; w++) {
    switch (mc::choose(3)) {
      case 0: {
        MC_OP("empty");
        c[w] = new MM();
        break;
      }
      case 1: {
        MC_OP("literal list");
        c[w] = new MM{{2, val(0)}, {1, val(1)}, {2, val(0)}, {2, val(2)}};
        mmAdd(m[w], 2, val(0)), mmAdd(m[w], 1, val(1)), mmAdd(m[w], 2, val(0)),
            mmAdd(m[w], 2, val(2));
        break;
      }
      case 2: {
        int n = mc::range(1, w ? 1 : mc::bound(3, 4));
        std::multimap<int, string> s;
        for (int i = 0; i < n; i++) {
          int k = mc::range(0, 2), v = mc::choose(2);
          s.insert(std::make_pair(k, val(v)));
          mmAdd(m[w], k, val(v));
        }
        MC_OP("from standard multimap of %d", n);
        c[w] = new MM(s);
        s.clear();
        break;
      }
    }
  }
  int n = mc::range(0, 2);
  for (int i = 0; i < n; i++) {
    int w = mc::choose(2);
    switch (mc::choose(5)) {
      case 0: {
        int k = mc::range(0, 3);
        MC_OP("%d.erase(%d)", w, k);
        c[w]->erase(k);
        MMV t;
        for (auto& x : m[w])
          if (x.first != k) t.push_back(x);
        m[w] = t;
        break;
      }
      case 1:
        MC_OP("%d.clear", w);
        c[w]->clear();
        m[w].clear();
        break;
      case 2: {
        bool self = mc::flip();
        MC_OP("%d = %s", w, self ? "itself" : "other");
        MM& src = *c[self ? w : 1 - w];
        *c[w] = src;
        if (!self) m[w] = m[1 - w];
        break;
      }
      case 3: {
        MC_OP("%d := copy of the other", w);
        MM* f = new MM(*c[1 - w]);
        delete c[w];
        c[w] = f;
        m[w] = m[1 - w];
        break;
      }
      case 4: {
        if (m[w].empty()) break;
        MC_OP("erase own first key of %d", w);
        int k = m[w][0].first;
        c[w]->erase(c[w]->begin()->first);
        MMV t;
        for (auto& x : m[w])
          if (x.first != k) t.push_back(x);
        m[w] = t;
        break;
      }
    }
  }
  verifyMM(*c[0], m[0]);
  verifyMM(*c[1], m[1]);
  int o = order(m[0], m[1]);
  compare6(*c[0], *c[1], o, "MultiMap");
  compare6(*c[1], *c[0], -o, "MultiMap");
  compare6(*c[0], *c[0], 0, "MultiMap");
  mc::Hash h;
  for (int w = 0; w < 2; w++) {
    h.add(w);
    for (auto& x : m[w]) h.add(x.first).add(x.second);
  }
  mc::state(h);
  delete c[0];
  delete c[1];
}
