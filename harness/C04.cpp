// modules:
// C04: misuse of a container always ends the program with a diagnostic; valid use never does.
// Every history of up to N operations, then every access form at every index class.
#include "containers.h"

#include <climits>
#include <deque>
#include <set>
#include "util.h"

using std::string;

template <class T>
struct Val;
template <>
struct Val<int> {
  static int at(int i) { return i * 7 - 3; }
};
template <>
struct Val<string> {
  static string at(int i) {
    return i % 2 ? "a string long enough to live on the heap " + std::to_string(i) : "s" + std::to_string(i);
  }
};
typedef std::vector<int> Ints;

static int anyIndex(int n) {
  std::vector<int> v;
  if (n <= 600)
    for (int i = -2; i <= n + 2; i++) v.push_back(i);
  else
    for (int i : {-2, -1, 0, 1, 127, 128, 255, 256, 1000, n / 2, n - 2, n - 1, n, n + 1, n + 2}) v.push_back(i);
  for (int i : {INT_MIN, INT_MIN + 1, -n - 1, -1000000, 1000000, 65536 + n, INT_MAX - 1, INT_MAX}) v.push_back(i);
  // indices that a narrower type would take for valid ones
  for (int b : {8, 16, 24, 31})
    for (int k : {0, n - 1}) {
      if (k < 0 || (k == n - 1 && n == 1)) continue;
      int64_t w = (int64_t)1 << b;
      if (b < 31) v.push_back((int)(w + k));
      v.push_back((int)(k - w));
    }
  return mc::pick(v);
}
template <class F>
static void expect(bool valid, const char* what, int index, int n, F&& f) {
  char b[160];
  snprintf(b, sizeof b, "%s at index %d of %d element(s)", what, index, n);
  MC_OP("%s, %s", b, valid ? "valid" : "misuse");
  mc::outcome(valid ? "valid" : "misuse");
  string key = string("misuse:") + what;
  if (valid)
    mc::mustLive(key.c_str(), b, f);
  else
    mc::mustDie(key.c_str(), b, f);
}

// ------------------------------------------------------------ Vector, List
template <class T>
struct Seq {
  std::vector<T> m;
};
template <class T, class C>
static void common(C& c, std::vector<T>& m, int i) {
  switch (i) {
    case 0:
      MC_OP("push");
      c.push(Val<T>::at((int)m.size()));
      m.push_back(Val<T>::at((int)m.size()));
      break;
    case 1:
      if (m.empty()) return;
      MC_OP("pop");
      if (!(c.pop() == m.back())) mc::fail("valid", "pop returned a wrong element");
      m.pop_back();
      break;
    case 2:
      MC_OP("insert front");
      c.insert(0, Val<T>::at(40 + (int)m.size()));
      m.insert(m.begin(), Val<T>::at(40 + (int)m.size()));
      break;
    case 3:
      MC_OP("insert at end");
      c.insert((int)m.size(), Val<T>::at(20));
      m.push_back(Val<T>::at(20));
      break;
    case 4:
      if (m.empty()) return;
      MC_OP("erase first");
      c.erase(0);
      m.erase(m.begin());
      break;
    case 5:
      if (m.empty()) return;
      MC_OP("erase last");
      c.erase((int)m.size() - 1);
      m.pop_back();
      break;
    case 6:
      MC_OP("clear");
      c.clear();
      m.clear();
      break;
    case 7: {
      MC_OP("copy, fill the copy, assign back");
      C d(c);
      d.push(Val<T>::at(9));
      c = d;
      m.push_back(Val<T>::at(9));
      break;
    }
    case 8: {
      MC_OP("assign an empty one");
      C d;
      c = d;
      m.clear();
      break;
    }
  }
}
template <class C, class T>
static void build(C*& c, std::vector<T>& m) {
  switch (mc::choose(4)) {
    case 0:
      MC_OP("empty");
      c = new C();
      break;
    case 1: {
      int n = mc::choose(3);
      MC_OP("%d times one value", n);
      c = new C(n, Val<T>::at(1));
      m.assign(n, Val<T>::at(1));
      break;
    }
    case 2:
      MC_OP("literal of three");
      c = new C{Val<T>::at(0), Val<T>::at(1), Val<T>::at(2)};
      m = {Val<T>::at(0), Val<T>::at(1), Val<T>::at(2)};
      break;
    case 3: {
      MC_OP("17 pushes");
      c = new C();
      for (int i = 0; i < 17; i++) c->push(Val<T>::at(i)), m.push_back(Val<T>::at(i));
      break;
    }
  }
}
// every size up to a bound
template <class C, class T>
static void grown(C*& c, std::vector<T>& m) {
  int n = mc::size(4, mc::bound(70, 300), {100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024, 4097, 32769, 65536, 65537});
  MC_OP("%d pushes", n);
  c = new C();
  for (int i = 0; i < n; i++) c->push(Val<T>::at(i)), m.push_back(Val<T>::at(i));
}
template <class C, class T>
static void same(C& c, const std::vector<T>& m) {
  MC_CHECK(c.size() == (int)m.size(), "content", "size %d, expected %zu", c.size(), m.size());
  size_t i = 0;
  for (auto& x : c) MC_CHECK(i < m.size() && x == m[i++], "content", "content wrong after a valid access");
}

template <class T>
static void vectorCase(bool ladder = false) {
  typedef cuhksz::Vector<T> C;
  C* c;
  std::vector<T> m;
  if (ladder)
    grown<C, T>(c, m);
  else
    build<C, T>(c, m);
  int k = ladder ? 0 : mc::range(0, mc::bound(3, 4));
  for (int i = 0; i < k; i++) common<T>(*c, m, mc::choose(9));
  const C& q = *c;
  int n = (int)m.size();
  mc::Hash h;
  h.add(n);
  T got = Val<T>::at(33);
  int op = mc::choose(12);
  h.add(op);
  switch (op) {
    case 0: case 1: case 2: case 3: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i < n;
      static const char* W[] = {"Vector get", "Vector const get", "Vector []", "Vector const []"};
      expect(ok, W[op], i, n, [&] {
        got = op == 0 ? c->get(i) : op == 1 ? q.get(i) : op == 2 ? (*c)[i] : q[i];
      });
      if (!ok) return;
      MC_CHECK(got == m[i], "content", "%s %d wrong", W[op], i);
      break;
    }
    case 4: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i < n;
      expect(ok, "Vector set", i, n, [&] { c->set(i, Val<T>::at(5)); });
      if (!ok) return;
      m[i] = Val<T>::at(5);
      break;
    }
    case 5: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i < n;
      expect(ok, "Vector erase", i, n, [&] { c->erase(i); });
      if (!ok) return;
      m.erase(m.begin() + i);
      break;
    }
    case 6: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i <= n;
      expect(ok, "Vector insert", i, n, [&] { c->insert(i, Val<T>::at(5)); });
      if (!ok) return;
      m.insert(m.begin() + i, Val<T>::at(5));
      break;
    }
    case 7:
      expect(n > 0, "Vector pop", 0, n, [&] { got = c->pop(); });
      if (!n) return;
      MC_CHECK(got == m.back(), "content", "pop wrong");
      m.pop_back();
      break;
    case 8:
      expect(n > 0, "Vector first", 0, n, [&] { got = c->first(); });
      if (!n) return;
      MC_CHECK(got == m.front(), "content", "first wrong");
      break;
    case 9:
      expect(n > 0, "Vector const first", 0, n, [&] { got = q.first(); });
      if (!n) return;
      MC_CHECK(got == m.front(), "content", "const first wrong");
      break;
    case 10:
      expect(n > 0, "Vector last", 0, n, [&] { got = c->last(); });
      if (!n) return;
      MC_CHECK(got == m.back(), "content", "last wrong");
      break;
    case 11:
      expect(n > 0, "Vector const last", 0, n, [&] { got = q.last(); });
      if (!n) return;
      MC_CHECK(got == m.back(), "content", "const last wrong");
      break;
  }
  same(*c, m);
  mc::state(h);
  delete c;
}
MC_SCOPE(vector_int) { vectorCase<int>(); }
MC_SCOPE(vector_string) { vectorCase<string>(); }
MC_SCOPE(vector_sizes) { vectorCase<int>(true); }

template <class T>
static void listCase(bool ladder = false) {
  typedef cuhksz::List<T> C;
  C* c;
  std::vector<T> m;
  if (ladder)
    grown<C, T>(c, m);
  else
    build<C, T>(c, m);
  int k = ladder ? 0 : mc::range(0, mc::bound(3, 4));
  for (int i = 0; i < k; i++) {
    int o = mc::choose(13);
    switch (o) {
      case 9:
        MC_OP("push_front");
        c->push_front(Val<T>::at(8));
        m.insert(m.begin(), Val<T>::at(8));
        break;
      case 10:
        if (m.empty()) break;
        MC_OP("pop_front");
        c->pop_front();
        m.erase(m.begin());
        break;
      case 11:
        MC_OP("reverse");
        c->reverse();
        m = std::vector<T>(m.rbegin(), m.rend());
        break;
      case 12: {
        MC_OP("merge away its elements");
        C d;
        c->sort();
        d.merge(*c);
        m.clear();
        break;
      }
      default:
        common<T>(*c, m, o);
    }
  }
  const C& q = *c;
  int n = (int)m.size();
  mc::Hash h;
  h.add(n);
  T got = Val<T>::at(33);
  int op = mc::choose(10);
  h.add(op);
  switch (op) {
    case 0: case 1: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i < n;
      expect(ok, op ? "List const []" : "List []", i, n, [&] { got = op ? q[i] : (*c)[i]; });
      if (!ok) return;
      MC_CHECK(got == m[i], "content", "List [%d] wrong", i);
      break;
    }
    case 2: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i < n;
      expect(ok, "List erase", i, n, [&] { c->erase(i); });
      if (!ok) return;
      m.erase(m.begin() + i);
      break;
    }
    case 3: {
      int i = anyIndex(n);
      h.add(i);
      bool ok = i >= 0 && i <= n;
      expect(ok, "List insert", i, n, [&] { c->insert(i, Val<T>::at(5)); });
      if (!ok) return;
      m.insert(m.begin() + i, Val<T>::at(5));
      break;
    }
    case 4:
      expect(n > 0, "List pop", 0, n, [&] { got = c->pop(); });
      if (!n) return;
      MC_CHECK(got == m.back(), "content", "pop wrong");
      m.pop_back();
      break;
    case 5:
      expect(n > 0, "List pop_front", 0, n, [&] { got = c->pop_front(); });
      if (!n) return;
      MC_CHECK(got == m.front(), "content", "pop_front wrong");
      m.erase(m.begin());
      break;
    case 6: case 7:
      expect(n > 0, op == 6 ? "List first" : "List const first", 0, n,
             [&] { got = op == 6 ? c->first() : q.first(); });
      if (!n) return;
      MC_CHECK(got == m.front(), "content", "first wrong");
      break;
    case 8: case 9:
      expect(n > 0, op == 8 ? "List last" : "List const last", 0, n,
             [&] { got = op == 8 ? c->last() : q.last(); });
      if (!n) return;
      MC_CHECK(got == m.back(), "content", "last wrong");
      break;
  }
  same(*c, m);
  mc::state(h);
  delete c;
}
MC_SCOPE(list_int) { listCase<int>(); }
MC_SCOPE(list_string) { listCase<string>(); }
MC_SCOPE(list_sizes) { listCase<int>(true); }

// ------------------------------------------------------------ Queue, Stack
template <class T>
struct Q {
  typedef cuhksz::Queue<T> C;
  static void add(C& c, const T& v) { c.enqueue(v); }
  static T take(C& c) { return c.dequeue(); }
  static const bool fifo = true;
};
template <class T>
struct S {
  typedef cuhksz::Stack<T> C;
  static void add(C& c, const T& v) { c.push(v); }
  static T take(C& c) { return c.pop(); }
  static const bool fifo = false;
};
template <class A, class T>
static T takeM(std::deque<T>& m) {
  T v = A::fifo ? m.front() : m.back();
  if (A::fifo) m.pop_front(); else m.pop_back();
  return v;
}
template <class T>
static void reads(cuhksz::Queue<T>& c, int op, T& got) {
  const cuhksz::Queue<T>& q = c;
  got = op == 1 ? c.first() : op == 2 ? q.first() : op == 3 ? c.last() : q.last();
}
template <class T>
static void reads(cuhksz::Stack<T>& c, int op, T& got) {
  const cuhksz::Stack<T>& q = c;
  got = op & 1 ? c.top() : q.top();
}
template <class A, class T>
static void endsCase(const char* name) {
  typedef typename A::C C;
  C* c = new C();
  std::deque<T> m;
  int pre = mc::size(0, mc::bound(3, 33), {8, 16, 32, 63, 64, 65, 127, 128, 129, 200, 256, 257});
  MC_OP("%s with %d elements", name, pre);
  for (int i = 0; i < pre; i++) A::add(*c, Val<T>::at(i)), m.push_back(Val<T>::at(i));
  int k = mc::range(0, mc::bound(4, 6));
  for (int i = 0; i < k; i++) switch (mc::choose(6)) {
      case 0:
        MC_OP("add");
        A::add(*c, Val<T>::at(60 + i)), m.push_back(Val<T>::at(60 + i));
        break;
      case 1:
        if (m.empty()) break;
        MC_OP("take");
        MC_CHECK(A::take(*c) == (takeM<A, T>(m)), "valid", "wrong element taken");
        break;
      case 2:
        MC_OP("take all");
        while (!m.empty()) MC_CHECK(A::take(*c) == (takeM<A, T>(m)), "valid", "wrong element taken");
        break;
      case 3:
        MC_OP("clear");
        c->clear(), m.clear();
        break;
      case 4: {
        MC_OP("assign from copy with one more");
        C d(*c);
        A::add(d, Val<T>::at(3));
        *c = d;
        m.push_back(Val<T>::at(3));
        break;
      }
      case 5: {
        MC_OP("assign an empty one");
        C d;
        *c = d;
        m.clear();
        break;
      }
    }
  int op = mc::choose(5);
  int n = (int)m.size();
  T got = Val<T>::at(33);
  string what = string(name) + (op == 0 ? " take" : " read " + std::to_string(op));
  expect(n > 0, what.c_str(), 0, n, [&] {
    if (op == 0)
      got = A::take(*c);
    else
      reads(*c, op, got);
  });
  mc::state(mc::Hash().add(n).add(op));
  if (!n) return;
  if (op == 0) {
    MC_CHECK(got == (takeM<A, T>(m)), "content", "%s take wrong", name);
  } else {
    bool front = A::fifo && op <= 2;
    MC_CHECK(got == (front ? m.front() : m.back()), "content", "%s read wrong", name);
  }
  MC_CHECK(c->size() == (int)m.size(), "content", "%s size wrong", name);
  delete c;
}
MC_SCOPE(queue_int) { endsCase<Q<int>, int>("Queue"); }
MC_SCOPE(queue_string) { endsCase<Q<string>, string>("Queue"); }
MC_SCOPE(stack_int) { endsCase<S<int>, int>("Stack"); }
MC_SCOPE(stack_string) { endsCase<S<string>, string>("Stack"); }

// ------------------------------------------------------------ Map, MultiSet
template <class T>
static void mapCase() {
  cuhksz::Map<T, T>* c = new cuhksz::Map<T, T>();
  std::vector<int> has(4, -1);
  int k = mc::range(0, mc::bound(4, 5));
  auto key = [](int i) { return Val<T>::at(i); };
  for (int i = 0; i < k; i++) switch (mc::choose(6)) {
      case 0: {
        int a = mc::choose(3);
        MC_OP("set %d", a);
        c->set(key(a), Val<T>::at(30 + i));
        has[a] = 30 + i;
        break;
      }
      case 1: {
        int a = mc::choose(3);
        MC_OP("[%d]=", a);
        (*c)[key(a)] = Val<T>::at(30 + i);
        has[a] = 30 + i;
        break;
      }
      case 2: {
        int a = mc::choose(3);
        MC_OP("erase %d", a);
        c->erase(key(a));
        has[a] = -1;
        break;
      }
      case 3:
        MC_OP("clear");
        c->clear();
        has.assign(4, -1);
        break;
      case 4: {
        MC_OP("assign from an extended copy");
        cuhksz::Map<T, T> d(*c);
        d.set(key(1), Val<T>::at(30 + i));
        *c = d;
        has[1] = 30 + i;
        break;
      }
      case 5:
        MC_OP("membership tests");
        for (int a = 0; a < 4; a++)
          MC_CHECK(c->contains(key(a)) == (has[a] >= 0), "valid", "membership wrong");
        break;
    }
  int a = mc::choose(4);
  bool cst = mc::flip();
  const auto& q = *c;
  T got = Val<T>::at(99);
  expect(has[a] >= 0, cst ? "Map const get" : "Map get", a, c->size(),
         [&] { got = cst ? q.get(key(a)) : c->get(key(a)); });
  mc::state(mc::Hash().range(has.begin(), has.end()).add(a).add(cst));
  if (has[a] < 0) return;
  MC_CHECK(got == Val<T>::at(has[a]), "content", "Map get wrong");
  delete c;
}
MC_SCOPE(map_int) { mapCase<int>(); }
MC_SCOPE(map_string) { mapCase<string>(); }

template <class T>
static void multisetCase() {
  cuhksz::MultiSet<T>* c = new cuhksz::MultiSet<T>();
  std::vector<int> has(4, 0);
  int k = mc::range(0, mc::bound(4, 6));
  for (int i = 0; i < k; i++) switch (mc::choose(4)) {
      case 0: {
        int a = mc::choose(3);
        MC_OP("insert %d", a);
        c->insert(Val<T>::at(a));
        has[a]++;
        break;
      }
      case 1: {
        int a = mc::choose(3);
        if (!has[a]) break;
        MC_OP("erase %d", a);
        mc::mustLive("valid", "erasing a held value", [&] { c->erase(Val<T>::at(a)); });
        has[a] = 0;
        break;
      }
      case 2:
        MC_OP("clear");
        c->clear();
        has.assign(4, 0);
        break;
      case 3: {
        MC_OP("assign from an extended copy");
        cuhksz::MultiSet<T> d(*c);
        d.insert(Val<T>::at(1));
        *c = d;
        has[1]++;
        break;
      }
    }
  int a = mc::choose(4);
  expect(has[a] > 0, "MultiSet erase", a, c->size(), [&] { c->erase(Val<T>::at(a)); });
  mc::state(mc::Hash().range(has.begin(), has.end()).add(a));
  if (!has[a]) return;
  MC_CHECK(!c->contains(Val<T>::at(a)), "content", "MultiSet erase left the value");
  delete c;
}
MC_SCOPE(multiset_int) { multisetCase<int>(); }
MC_SCOPE(multiset_string) { multisetCase<string>(); }
