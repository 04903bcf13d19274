// modules:
// C02: Queue and Stack against an ideal sequence.
#include "containers.h"

#include <deque>
#include <queue>
#include <stack>
#include "util.h"

using std::string;

template <class T>
struct Val;
template <>
struct Val<int> {
  static int at(int i) { return i == 0 ? 4 : i == 1 ? -4 : i == 2 ? 0 : (int)mc::scramble(i); }
};
template <>
struct Val<string> {
  static string at(int i) {
    return i == 0 ? "q" : i == 1 ? "a string long enough to live on the heap" : i == 2 ? "" : "element " + std::to_string(i) + " of some length";
  }
};

// model: front() is the oldest element
template <class T>
struct QueueA {
  typedef cuhksz::Queue<T> C;
  typedef std::queue<T> Std;
  static const char* name() { return "Queue"; }
  static void add(C& c, const T& v) { c.enqueue(v); }
  static T take(C& c) { return c.dequeue(); }
  static T takeModel(std::deque<T>& m) {
    T v = m.front();
    m.pop_front();
    return v;
  }
  static Std conv(C& c, bool imp) {
    if (!imp) return c.toStlQueue();
    Std s = c;
    return s;
  }
  static T stdTake(Std& s) {
    T v = s.front();
    s.pop();
    return v;
  }
  static void ends(C& c, const std::deque<T>& m) {
    const C& k = c;
    MC_CHECK(c.first() == m.front() && k.first() == m.front(), "first", "Queue first wrong");
    MC_CHECK(c.last() == m.back() && k.last() == m.back(), "last", "Queue last wrong");
  }
  static void write(C& c, std::deque<T>& m, const T& v, bool front) {
    if (front)
      c.first() = v, m.front() = v;
    else
      c.last() = v, m.back() = v;
  }
  static const T& inside(C& c, bool front) { return front ? c.first() : c.last(); }
};
template <class T>
struct StackA {
  typedef cuhksz::Stack<T> C;
  typedef std::stack<T> Std;
  static const char* name() { return "Stack"; }
  static void add(C& c, const T& v) { c.push(v); }
  static T take(C& c) { return c.pop(); }
  static T takeModel(std::deque<T>& m) {
    T v = m.back();
    m.pop_back();
    return v;
  }
  static Std conv(C& c, bool imp) {
    if (!imp) return c.toStlStack();
    Std s = c;
    return s;
  }
  static T stdTake(Std& s) {
    T v = s.top();
    s.pop();
    return v;
  }
  static void ends(C& c, const std::deque<T>& m) {
    const C& k = c;
    MC_CHECK(c.top() == m.back() && k.top() == m.back(), "top", "Stack top wrong");
  }
  static void write(C& c, std::deque<T>& m, const T& v, bool) { c.top() = v, m.back() = v; }
  static const T& inside(C& c, bool) { return c.top(); }
};

template <class A, class T>
static void verify(typename A::C& c, const std::deque<T>& m, bool drain) {
  mc::ops(1);
  MC_CHECK(c.size() == (int)m.size(), "size", "%s size %d, expected %zu", A::name(), c.size(),
           m.size());
  MC_CHECK(c.isEmpty() == m.empty(), "empty", "%s isEmpty wrong", A::name());
  if (!m.empty()) A::ends(c, m);
  if (!drain) return;
  for (int imp = 0; imp < 2; imp++) {
    typename A::Std s = A::conv(c, imp);
    std::deque<T> t = m;
    MC_CHECK(s.size() == t.size(), "convert", "%s converts to %zu elements, expected %zu",
             A::name(), s.size(), t.size());
    while (!t.empty())
      MC_CHECK(A::stdTake(s) == A::takeModel(t), "convert", "%s converts wrongly", A::name());
  }
  typename A::C d(c);
  std::deque<T> t = m;
  while (!t.empty()) {
    MC_CHECK(d.size() == (int)t.size(), "size", "%s copy size wrong while draining", A::name());
    MC_CHECK(A::take(d) == A::takeModel(t), "order", "%s yields the wrong element", A::name());
  }
  MC_CHECK(d.isEmpty() && d.size() == 0, "empty", "%s not empty after draining", A::name());
  MC_CHECK(c.size() == (int)m.size(), "alias", "%s changed when its copy was drained", A::name());
}
template <class A, class T>
static void compare(typename A::C& a, const std::deque<T>& ma, typename A::C& b,
                    const std::deque<T>& mb) {
  int o = 0;
  for (size_t i = 0;; i++) {
    if (i == ma.size() || i == mb.size()) {
      o = ma.size() == mb.size() ? 0 : ma.size() < mb.size() ? -1 : 1;
      break;
    }
    if (ma[i] < mb[i]) {
      o = -1;
      break;
    }
    if (mb[i] < ma[i]) {
      o = 1;
      break;
    }
  }
  MC_CHECK((a == b) == (o == 0) && (a != b) == (o != 0) && (a < b) == (o < 0) &&
               (a <= b) == (o <= 0) && (a > b) == (o > 0) && (a >= b) == (o >= 0),
           "compare", "%s comparisons wrong (order %d)", A::name(), o);
}

template <class A, class T>
static void build(typename A::C*& c, std::deque<T>& m) {
  int k = mc::choose(3);
  if (k == 0) {
    MC_OP("new empty");
    c = new typename A::C();
  } else {
    MC_OP("new from a standard container with %d", k);
    typename A::Std s;
    for (int i = 0; i < k; i++) s.push(Val<T>::at(i)), m.push_back(Val<T>::at(i));
    c = new typename A::C(s);
    while (!s.empty()) s.pop();
  }
}

template <class A, class T>
static void history(int depth, bool slim) {
  typedef typename A::C C;
  C* c[2];
  std::deque<T> m[2];
  bool each = mc::flip();
  build<A, T>(c[0], m[0]);
  if (slim)
    c[1] = new C();
  else
    build<A, T>(c[1], m[1]);
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    int w = mc::choose(2);
    C& x = *c[w];
    std::deque<T>& y = m[w];
    const char* who = w ? "b" : "a";
    switch (mc::choose(8)) {
      case 0: {
        T v = Val<T>::at(slim ? i + 3 : mc::choose(3));
        MC_OP("add to %s", who);
        A::add(x, v);
        y.push_back(v);
        break;
      }
      case 1: {
        if (y.empty()) break;
        MC_OP("take from %s", who);
        MC_CHECK(A::take(x) == A::takeModel(y), "take", "%s returned the wrong element",
                 A::name());
        break;
      }
      case 2:
        MC_OP("clear %s", who);
        x.clear();
        y.clear();
        break;
      case 3: {
        MC_OP("%s = other", who);
        x = *c[1 - w];
        y = m[1 - w];
        break;
      }
      case 4: {
        MC_OP("%s = %s", who, who);
        C& same = *c[w];
        x = same;
        break;
      }
      case 5: {
        MC_OP("%s := copy of the other", who);
        C* f = new C(*c[1 - w]);
        delete c[w];
        c[w] = f;
        y = m[1 - w];
        break;
      }
      case 6: {
        if (y.empty()) break;
        bool f = mc::flip();
        MC_OP("write through %s of %s", f ? "front" : "back", who);
        A::write(x, y, Val<T>::at(9 + i), f);
        break;
      }
      case 7: {
        if (y.empty()) break;
        bool f = mc::flip();
        MC_OP("add an element of %s to itself", who);
        T v = A::inside(x, f);
        A::add(x, A::inside(x, f));
        y.push_back(v);
        break;
      }
    }
    if (each) {
      verify<A, T>(*c[0], m[0], false);
      verify<A, T>(*c[1], m[1], false);
    }
  }
  verify<A, T>(*c[0], m[0], true);
  verify<A, T>(*c[1], m[1], true);
  compare<A, T>(*c[0], m[0], *c[1], m[1]);
  compare<A, T>(*c[1], m[1], *c[0], m[0]);
  compare<A, T>(*c[1], m[1], *c[1], m[1]);
  mc::state(mc::Hash().add(mc::showAll(m[0])).add(mc::showAll(m[1])));
  delete c[0];
  delete c[1];
}
MC_SCOPE_LEAK(queue_int) { history<QueueA<int>, int>(mc::bound(3, 4), false); }
MC_SCOPE_LEAK(stack_int) { history<StackA<int>, int>(mc::bound(3, 4), false); }
MC_SCOPE_LEAK(queue_string) { history<QueueA<string>, string>(mc::bound(4, 5), true); }
MC_SCOPE_LEAK(stack_string) { history<StackA<string>, string>(mc::bound(4, 5), true); }
MC_SCOPE_LEAK(queue_int_slim) { history<QueueA<int>, int>(mc::bound(4, 5), true); }
MC_SCOPE_LEAK(stack_int_slim) { history<StackA<int>, int>(mc::bound(4, 5), true); }

template <class A>
static void contents(int n) {
  typename A::C c[2];
  std::deque<int> m[2];
  for (int w = 0; w < 2; w++) {
    int k = mc::range(0, n);
    for (int i = 0; i < k; i++) {
      int v = mc::range(0, 2);
      A::add(c[w], v);
      m[w].push_back(v);
    }
    MC_OP("%s", mc::showAll(m[w]).c_str());
  }
  mc::state(mc::Hash().add(mc::showAll(m[0])).add(mc::showAll(m[1])));
  compare<A, int>(c[0], m[0], c[1], m[1]);
  verify<A, int>(c[0], m[0], true);
  MC_OP("assign");
  c[0] = c[1];
  verify<A, int>(c[0], m[1], true);
  A::add(c[1], 9);
  verify<A, int>(c[0], m[1], true);
  m[1].push_back(9);
  verify<A, int>(c[1], m[1], true);
}
MC_SCOPE(queue_contents) { contents<QueueA<int>>(mc::bound(4, 5)); }
MC_SCOPE(stack_contents) { contents<StackA<int>>(mc::bound(4, 5)); }

// long add/take runs crossing every internal block size
template <class A>
static void ladder() {
  int n = mc::size(1, mc::bound(140, 600), {255, 256, 257, 511, 512, 513, 1000, 1025, 4097}), take = mc::choose(4);
  int more = mc::size(1, mc::bound(40, 300), {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025, 4097});
  int end = mc::choose(3);
  MC_OP("add %d, take %d/3, add %d, then %d", n, take, more, end);
  typename A::C c;
  std::deque<int> m;
  for (int i = 0; i < n; i++) A::add(c, i), m.push_back(i);
  for (int i = 0; i < n * take / 3; i++)
    MC_CHECK(A::take(c) == A::takeModel(m), "take", "%s take %d wrong", A::name(), i);
  for (int i = 0; i < more; i++) A::add(c, -i), m.push_back(-i);
  mc::beat();
  if (end == 1) c.clear(), m.clear();
  if (end == 2) {
    typename A::C d;
    A::add(d, 5);
    d = c;
    c.clear();
    verify<A, int>(d, m, true);
    m.clear();
  }
  mc::state(mc::Hash().add(n).add(take).add(more).add(end));
  verify<A, int>(c, m, true);
}
// two of any size that agree except for the length or one element
template <class A>
static void pairLadder() {
  int n = mc::size(0, mc::bound(140, 600), {255, 256, 257, 1000}), d = mc::pick({0, 1, -1, 50, -50, -n});
  int k = n + d, at = mc::choose(5), by = mc::pick({-1, 1});
  if (k < 0) return;
  int pos = at == 0 ? -1 : at == 1 ? 0 : at == 2 ? k / 2 : at == 3 ? k - 1 : k - 2;
  if (at && (pos < 0 || pos >= k)) return;
  MC_OP("%d against %d elements, differing at %d", n, k, pos);
  typename A::C a, b;
  std::deque<int> ma, mb;
  for (int i = 0; i < n; i++) A::add(a, i % 7), ma.push_back(i % 7);
  for (int i = 0; i < k; i++) {
    int v = i % 7 + (i == pos ? by : 0);
    A::add(b, v), mb.push_back(v);
  }
  mc::state(mc::Hash().add(n).add(k).add(pos).add(by));
  compare<A, int>(a, ma, b, mb);
  compare<A, int>(b, mb, a, ma);
  a = b;
  verify<A, int>(a, mb, true);
  typename A::C c(b);
  verify<A, int>(c, mb, true);
  b.clear();
  verify<A, int>(c, mb, true);
}
MC_SCOPE_LEAK(queue_pairs) { pairLadder<QueueA<int>>(); }
MC_SCOPE_LEAK(stack_pairs) { pairLadder<StackA<int>>(); }
MC_SCOPE_LEAK(queue_ladder) { ladder<QueueA<int>>(); }
MC_SCOPE_LEAK(stack_ladder) { ladder<StackA<int>>(); }
// sizes beyond 16 bits
template <class A>
static void huge() {
  int n = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), take = mc::choose(3), end = mc::choose(4);
  MC_OP("add %d, take %d/2, then %d", n, take, end);
  typename A::C c;
  std::deque<int> m;
  for (int i = 0; i < n; i++) {
    A::add(c, i * 3), m.push_back(i * 3);
    if (i % 256 == 0) mc::beat();
  }
  for (int i = 0; i < n * take / 2 - 1; i++) {
    MC_CHECK(A::take(c) == A::takeModel(m), "take", "%s take %d wrong", A::name(), i);
    if (i % 256 == 0) mc::beat();
  }
  A::add(c, -7), m.push_back(-7);
  if (end == 1) c.clear(), m.clear();
  if (end == 2) {
    typename A::C d;
    A::add(d, 5);
    d = c;
    c.clear();
    verify<A, int>(d, m, true);
    m.clear();
  }
  if (end == 3) {
    typename A::C d(c);
    std::deque<int> md = m;
    compare<A, int>(c, m, d, md);
    A::add(d, 1), md.push_back(1);
    compare<A, int>(c, m, d, md);
    compare<A, int>(d, md, c, m);
  }
  mc::state(mc::Hash().add(n).add(take).add(end));
  verify<A, int>(c, m, true);
}
MC_SCOPE_LEAK(queue_huge) { huge<QueueA<int>>(); }
MC_SCOPE_LEAK(stack_huge) { huge<StackA<int>>(); }
