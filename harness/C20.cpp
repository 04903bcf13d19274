// modules:
// C20: Matrix against textbook definitions on plain nested vectors.
#include "math_utils/Matrix.h"

#include <climits>
#include <sstream>
#include "util.h"

using cuhksz::Matrix;
using std::string;
typedef int64_t i64;

// ------------------------------------------------------------ reference
// exact rationals, small
struct Q {
  i64 n = 0, d = 1;
  Q() {}
  Q(i64 a, i64 b) : n(a), d(b) { fix(); }
  Q(int a) : n(a) {}
  Q(double a) : n((i64)a) {}
  void fix() {
    i64 a = n < 0 ? -n : n, b = d < 0 ? -d : d;
    while (b) { i64 t = a % b; a = b, b = t; }
    if (d < 0) a = -a;
    n /= a, d /= a;
  }
  bool operator==(const Q& o) const { return n == o.n && d == o.d; }
  bool operator!=(const Q& o) const { return !(*this == o); }
  Q operator+(const Q& o) const { return Q(n * o.d + o.n * d, d * o.d); }
  Q operator-(const Q& o) const { return Q(n * o.d - o.n * d, d * o.d); }
  Q operator*(const Q& o) const { return Q(n * o.n, d * o.d); }
  Q operator/(const Q& o) const {
    if (!o.n) mc::fail("reduce:zero", "division by zero during row reduction");
    return Q(n * o.d, d * o.n);
  }
  Q& operator+=(const Q& o) { return *this = *this + o; }
  Q& operator-=(const Q& o) { return *this = *this - o; }
  Q& operator*=(const Q& o) { return *this = *this * o; }
  Q& operator/=(const Q& o) { return *this = *this / o; }
  Q operator-() const { return Q(-n, d); }
  bool operator<(const Q& o) const { return n * o.d < o.n * d; }
  bool operator>(const Q& o) const { return o < *this; }
  bool operator<=(const Q& o) const { return !(o < *this); }
  bool operator>=(const Q& o) const { return !(*this < o); }
  bool operator!() const { return n == 0; }
  explicit operator bool() const { return n != 0; }
  explicit operator double() const { return (double)n / d; }
  friend Q abs(const Q& q) { return q.n < 0 ? -q : q; }
};
static string tx(const Q& q) { return std::to_string(q.n) + "/" + std::to_string(q.d); }
template <class T> static string tx(const T& t) { return std::to_string(t); }

template <class T>
struct M {
  int r = 0, c = 0;
  std::vector<T> v;
  M() {}
  M(int a, int b) : r(a), c(b), v(a * b, T(0)) {}
  T& at(int i, int j) { return v[i * c + j]; }
  const T& at(int i, int j) const { return v[i * c + j]; }
  bool operator==(const M& o) const { return r == o.r && c == o.c && v == o.v; }
};
template <class T> static M<T> addM(const M<T>& a, const M<T>& b, int s) {
  M<T> w(a.r, a.c);
  for (size_t i = 0; i < w.v.size(); i++) w.v[i] = s > 0 ? a.v[i] + b.v[i] : a.v[i] - b.v[i];
  return w;
}
template <class T> static M<T> mulM(const M<T>& a, const M<T>& b) {
  M<T> w(a.r, b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < b.c; j++) {
      T t(0);
      for (int k = 0; k < a.c; k++) t = t + a.at(i, k) * b.at(k, j);
      w.at(i, j) = t;
    }
  return w;
}
template <class T> static M<T> idM(int n) {
  M<T> w(n, n);
  for (int i = 0; i < n; i++) w.at(i, i) = T(1);
  return w;
}
template <class T> static string showM(const M<T>& m) {
  string s = "[";
  for (int i = 0; i < m.r; i++) {
    for (int j = 0; j < m.c; j++) s += (j ? "," : "") + tx(m.at(i, j));
    s += i + 1 < m.r ? "; " : "";
  }
  return s + "]";
}
template <class T> static string textM(const M<T>& m) {
  string s;
  for (int i = 0; i < m.r; i++) {
    for (int j = 0; j < m.c; j++) s += (j ? ", " : "") + std::to_string(m.at(i, j));
    s += "\n";
  }
  return s;
}
template <class T> static mc::Hash& noteM(mc::Hash& h, const M<T>& m) {
  h.add(m.r).add(m.c);
  for (const T& x : m.v) h.add(tx(x));
  return h;
}

// ------------------------------------------------------------ driving
template <class T> static Matrix<T> build(const M<T>& m) {
  Matrix<T> x(m.r, m.c);
  for (int i = 0; i < m.r; i++)
    for (int j = 0; j < m.c; j++) x[i][j] = m.at(i, j);
  return x;
}
template <class T> static Matrix<T> buildVec(const M<T>& m) {
  std::vector<std::vector<int>> v(m.r, std::vector<int>(m.c));
  for (int i = 0; i < m.r; i++)
    for (int j = 0; j < m.c; j++) v[i][j] = (int)m.at(i, j);
  return Matrix<T>(v);
}
template <class T> static string textOf(const Matrix<T>& x) {
  std::ostringstream os;
  os << x;
  mc::plainStream(os, "writing a matrix");
  if (os.str() != x.toString()) mc::fail("text:forms", "<< and toString differ");
  return os.str();
}
template <class T> static void textIs(const Matrix<T>& x, const M<T>& m, const char* what) {
  string t = textOf(x), w = textM(m);
  if (t != w) mc::fail(what, "%s prints %s, expected %s", what, mc::show(t).c_str(), mc::show(w).c_str());
}
#ifndef MC_PLAIN
static void textIs(const Matrix<Q>&, const M<Q>&, const char*) {}  // not printable
#endif
template <class T> static void is(const Matrix<T>& x, const M<T>& m, const char* what) {
  mc::ops(1);
  // shape and content at once: a matrix of the expected shape compares equal
  Matrix<T> w = build(m);
  bool same = true;
  for (int i = 0; i < m.r; i++)
    for (int j = 0; j < m.c; j++) same = same && x[i][j] == m.at(i, j);
  if (!same || !(x == w) || x != w || !(w == x)) {
    M<T> g = m;
    for (int i = 0; i < m.r; i++)
      for (int j = 0; j < m.c; j++) g.at(i, j) = x[i][j];
    mc::fail(what, "%s gives %s, expected %s", what, showM(g).c_str(), showM(m).c_str());
  }
}
template <class T, class U> static M<T> genM(int r, int c, const U& vals) {
  M<T> m(r, c);
  for (T& x : m.v) x = T(mc::pick(vals));
  return m;
}
template <class T> static void notEqual(const Matrix<T>& x, const M<T>& m) {
  // every one-entry change and every neighbouring shape compares unequal
  for (int i = 0; i < m.r; i++)
    for (int j = 0; j < m.c; j++) {
      M<T> o = m;
      o.at(i, j) = o.at(i, j) + T(1);
      Matrix<T> y = build(o);
      if (x == y || !(x != y)) mc::fail("equality", "%s equals %s", showM(m).c_str(), showM(o).c_str());
    }
  for (int k = 0; k < 4; k++) {
    M<T> o(m.r + (k == 0) - (k == 1), m.c + (k == 2) - (k == 3));
    if (o.r < 1 || o.c < 1) continue;
    for (int i = 0; i < o.r; i++)
      for (int j = 0; j < o.c; j++) o.at(i, j) = i < m.r && j < m.c ? m.at(i, j) : T(0);
    Matrix<T> y = build(o);
    if (x == y || !(x != y) || y == x) mc::fail("equality:shape", "a %dx%d matrix equals a %dx%d one", m.r, m.c, o.r, o.c);
  }
  if (m.r != m.c) {
    M<T> o(m.c, m.r);
    o.v = m.v;
    Matrix<T> y = build(o);
    if (x == y || !(x != y)) mc::fail("equality:shape", "a %dx%d matrix equals a %dx%d one", m.r, m.c, m.c, m.r);
  }
}
template <class T> static void addSub(const M<T>& a, const M<T>& b) {
  Matrix<T> x = build(a), y = build(b);
  is(x + y, addM(a, b, 1), "+");
  is(x - y, addM(a, b, -1), "-");
  Matrix<T> t(x);
  if (&(t += y) != &t) mc::fail("ref", "+=");
  is(t, addM(a, b, 1), "+=");
  Matrix<T> u(x);
  if (&(u -= y) != &u) mc::fail("ref", "-=");
  is(u, addM(a, b, -1), "-=");
  bool eq = a == b;
  if ((x == y) != eq || (x != y) == eq) mc::fail("equality", "%s vs %s", showM(a).c_str(), showM(b).c_str());
  is(x, a, "left operand");
  is(y, b, "right operand");
}
template <class T> static void mul(const M<T>& a, const M<T>& b) {
  Matrix<T> x = build(a), y = build(b);
  M<T> w = mulM(a, b);
  is(x * y, w, "*");
  Matrix<T> t(x);
  if (&(t *= y) != &t) mc::fail("ref", "*=");
  is(t, w, "*=");
  is(x, a, "left operand");
  is(y, b, "right operand");
  Matrix<T> z(x);
  z = z * y;
  is(z, w, "z = z * y");
  t = x;
  is(t, a, "assignment over another shape");
}
template <class T> static void alone(const M<T>& a, bool all = true) {
  Matrix<T> x = build(a);
  is(x, a, "built");
  textIs(x, a, "text");
  if (all) notEqual(x, a);
  // copies are independent
  Matrix<T> c(x), d(1, 1);
  d = x;
  c[0][0] = c[0][0] + T(5);
  d[a.r - 1][a.c - 1] = T(9);
  is(x, a, "after changing copies");
  Matrix<T>& al = x;
  if (&(x = al) != &x) mc::fail("ref", "=");
  is(x, a, "self-assignment");
  x += al;
  is(x, addM(a, a, 1), "x+=x");
  x = build(a);
  x -= al;
  is(x, M<T>(a.r, a.c), "x-=x");
  x = build(a);
  is(x + al, addM(a, a, 1), "x+x");
  is(x - al, M<T>(a.r, a.c), "x-x");
  if (a.r == a.c) {
    is(x * al, mulM(a, a), "x*x");
    x *= al;
    is(x, mulM(a, a), "x*=x");
    x = build(a);
    Matrix<T>& id = Matrix<T>::idMat(a.r);
    is(id, idM<T>(a.r), "identity");
    is(x * id, a, "x*I");
    is(id * x, a, "I*x");
    delete &id;
  }
  if (!(x == al) || x != al) mc::fail("equality:self", "%s", showM(a).c_str());
}

// ------------------------------------------------------------ scopes
MC_SCOPE_LEAK(new_is_zero) {
  int r = mc::range(1, 6), c = mc::range(1, 6);
  int k = mc::choose(4);
  MC_OP("new %dx%d of kind %d", r, c, k);
  mc::state(mc::Hash().add(r).add(c).add(k));
  if (k == 0) { Matrix<int> x(r, c); is(x, M<int>(r, c), "new"); alone(M<int>(r, c)); }
  if (k == 1) { Matrix<double> x(r, c); is(x, M<double>(r, c), "new"); textIs(x, M<double>(r, c), "text"); }
  if (k == 2) { Matrix<i64> x(r); is(x, M<i64>(r, r), "new"); }
#ifndef MC_PLAIN
  if (k == 3) { Matrix<Q> x(r, c); is(x, M<Q>(r, c), "new"); }
#endif
}
MC_SCOPE_LEAK(every_2x2) {
  static const int V[] = {0, 1, -1, 3};
  M<int> a = genM<int>(2, 2, V), b = genM<int>(2, 2, V);
  MC_OP("%s with %s", showM(a).c_str(), showM(b).c_str());
  mc::Hash h;
  mc::state(noteM(noteM(h, a), b));
  addSub(a, b);
  mul(a, b);
}
MC_SCOPE_LEAK(every_single) {
  int r = mc::range(1, 3), c = mc::range(1, 3);
  if (r * c > mc::bound(9, 9)) return;
  static const int V[] = {0, 2, -1};
  M<i64> a = genM<i64>(r, c, V);
  MC_OP("%s", showM(a).c_str());
  mc::Hash h;
  mc::state(noteM(h, a));
  alone(a);
  is(buildVec(a), a, "from nested vectors");
  Matrix<double> d(3, 3);
  M<double> ad(r, c);
  for (size_t i = 0; i < a.v.size(); i++) ad.v[i] = a.v[i] / 2.0;
  d = build(ad);
  is(d, ad, "doubles");
  textIs(d, ad, "text of doubles");
}
// every compatible shape
static int fill(int k, int i, int j) {
  switch (k) {
    case 0: return i * 3 + j + 1;
    case 1: return (i + j) % 2 ? -1 : 2;
    case 2: return i == j;
    case 3: return (int)(mc::scramble(i, j) % 19) - 9;
    case 4: return i < j ? i + j : 0;
    case 5: return j == 0 ? 7 : 0;
    default: return (i * 5 + j * 7) % 4 - 1;
  }
}
template <class T> static M<T> pat(int r, int c, int k) {
  M<T> m(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m.at(i, j) = T(fill(k, i, j));
  return m;
}
template <class T> static void shapes(int hi) {
  int r = mc::range(1, hi), k = mc::range(1, hi), c = mc::range(1, hi);
  int p = mc::choose(7), q = mc::choose(7);
  M<T> a = pat<T>(r, k, p), b = pat<T>(k, c, q);
  MC_OP("%s times %s", showM(a).c_str(), showM(b).c_str());
  mc::Hash h;
  mc::state(noteM(noteM(h, a), b));
  mul(a, b);
  if (k == c) addSub(pat<T>(r, k, p), pat<T>(r, k, q));
}
MC_SCOPE_LEAK(shapes_int) { shapes<int>(mc::bound(6, 7)); }
MC_SCOPE_LEAK(shapes_double) { shapes<double>(mc::bound(5, 6)); }
#ifndef MC_PLAIN
MC_SCOPE_LEAK(shapes_rational) { shapes<Q>(mc::bound(4, 5)); }
#endif
MC_SCOPE_LEAK(every_rect) {
  int s = mc::choose(6);
  static const int R[] = {1, 2, 1, 2, 1, 3}, K[] = {2, 1, 3, 2, 1, 1}, C[] = {2, 2, 1, 1, 3, 2};
  static const int V[] = {0, 1, -2};
  M<int> a = genM<int>(R[s], K[s], V), b = genM<int>(K[s], C[s], V);
  MC_OP("%s times %s", showM(a).c_str(), showM(b).c_str());
  mc::Hash h;
  mc::state(noteM(noteM(h, a), b));
  mul(a, b);
}
MC_SCOPE_LEAK(large) {
  int r = mc::size(1, mc::bound(24, 26), {15, 16, 17, 31, 32, 33, 40}), c = mc::size(1, mc::bound(24, 26), {15, 16, 17, 31, 32, 33, 40}), p = mc::choose(7);
  M<int> a = pat<int>(r, c, p), b = pat<int>(c, r, 3);
  MC_OP("%dx%d pattern %d", r, c, p);
  mc::state(mc::Hash().add(r).add(c).add(p));
  mul(a, b);
  addSub(a, pat<int>(r, c, 6));
  alone(a, r * c <= 36);
}
// long rows or columns
MC_SCOPE_LEAK(long_shapes) {
  int n = mc::size(mc::bound(40, 1), mc::bound(140, 300), {255, 256, 257, 1000}), k = mc::range(1, 2), p = mc::choose(2) ? 6 : 3;
  bool tall = mc::flip();
  M<int> a = tall ? pat<int>(n, k, p) : pat<int>(k, n, p), b = tall ? pat<int>(k, 2, 3) : pat<int>(n, 2, 3);
  MC_OP("%dx%d pattern %d", a.r, a.c, p);
  mc::state(mc::Hash().add(a.r).add(a.c).add(p));
  mul(a, b);
  addSub(a, pat<int>(a.r, a.c, 5));
  alone(a, false);
}
// ------------------------------------------------------------ powers
template <class T> static void power(const M<T>& a, unsigned n, const M<T>& want) {
  Matrix<T> x = build(a);
  Matrix<T>& p = pow(x, n);
  mc::ops(1);
  if (&p == &x) mc::fail("pow:alias", "pow returned its operand");
  is(p, want, "pow");
  is(x, a, "operand of pow");
  p[0][0] = T(77);
  is(x, a, "operand after changing its power");
  delete &p;
}
MC_SCOPE_LEAK(powers) {
  int s = mc::range(1, 2);
  static const int V[] = {0, 1, -1, 2};
  M<i64> a = genM<i64>(s, s, V);
  MC_OP("powers of %s", showM(a).c_str());
  mc::Hash h;
  mc::state(noteM(h, a));
  M<i64> w = idM<i64>(s);
  for (unsigned n = 0; n <= (unsigned)mc::bound(24, 26); n++) {
    power(a, n, w);
    w = mulM(w, a);
  }
}
MC_SCOPE_LEAK(powers_large) {
  int s = mc::range(1, 6), p = mc::choose(7), n = mc::range(0, 9);
  M<i64> a = pat<i64>(s, s, p), w = idM<i64>(s);
  MC_OP("power %d of %s", n, showM(a).c_str());
  mc::state(mc::Hash().add(s).add(p).add(n));
  for (int i = 0; i < n; i++) w = mulM(w, a);
  power(a, n, w);
}
MC_SCOPE_LEAK(powers_huge) {
  static const unsigned N[] = {31, 32, 33, 63, 64, 100, 255, 256, 1000, 65535, 65536, 1000000007, INT_MAX, (unsigned)INT_MAX + 1, (unsigned)INT_MAX + 2, UINT_MAX - 1, UINT_MAX};
  unsigned n = mc::pick(N);
  int k = mc::choose(4);
  MC_OP("power %u of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k));
  if (k < 3) {  // a cyclic permutation of order k+2
    int o = k + 2;
    M<int> a(o, o), w(o, o);
    for (int i = 0; i < o; i++) a.at(i, (i + 1) % o) = 1, w.at(i, (int)((i + n % o) % o)) = 1;
    power(a, n, w);
  } else {  // a shear
    M<i64> a = idM<i64>(2), w = a;
    a.at(0, 1) = 1, w.at(0, 1) = n;
    power(a, n, w);
  }
}
// ------------------------------------------------------------ row reduction
template <class T> static M<T> rref(M<T> m) {
  int r = 0;
  for (int c = 0; c < m.c && r < m.r; c++) {
    int p = r;
    while (p < m.r && m.at(p, c) == T(0)) p++;
    if (p == m.r) continue;
    for (int j = 0; j < m.c; j++) std::swap(m.at(p, j), m.at(r, j));
    T d = m.at(r, c);
    for (int j = 0; j < m.c; j++) m.at(r, j) = m.at(r, j) / d;
    for (int i = 0; i < m.r; i++)
      if (i != r) {
        T f = m.at(i, c);
        for (int j = 0; j < m.c; j++) m.at(i, j) = m.at(i, j) - f * m.at(r, j);
      }
    r++;
  }
  return m;
}
template <class T> static void echelon(const M<T>& a, const M<T>& g) {
  int last = -1;
  for (int i = 0; i < g.r; i++) {
    int j = 0;
    while (j < g.c && g.at(i, j) == T(0)) j++;
    if (j < g.c) {
      if (j <= last) mc::fail("reduce:echelon", "%s reduced to %s, not an echelon form", showM(a).c_str(), showM(g).c_str());
      if (!(g.at(i, j) == T(1))) mc::fail("reduce:pivot", "%s reduced to %s, a pivot is not one", showM(a).c_str(), showM(g).c_str());
      last = j;
    } else {
      last = g.c;  // only zero rows may follow
    }
  }
}
template <class T> static M<T> reduced(const M<T>& a) {
  Matrix<T> x = build(a);
  x.reduce();
  mc::ops(1);
  M<T> g(a.r, a.c);
  for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) g.at(i, j) = x[i][j];
  echelon(a, g);
  is(x, g, "shape after reduce");
  // again: still fine, and rows are really owned by the matrix
  Matrix<T> y(x);
  y += x;
  x.reduce();
  M<T> g2 = g;
  for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) g2.at(i, j) = x[i][j];
  echelon(g, g2);
  return g;
}
#ifndef MC_PLAIN
static void reduceQ(const M<Q>& a) {
  M<Q> g = reduced(a);
  if (!(rref(a) == rref(g))) mc::fail("reduce:space", "%s reduced to %s, not row-equivalent", showM(a).c_str(), showM(g).c_str());
}
MC_SCOPE_LEAK(reduce_small) {
  int s = mc::choose(7);
  static const int R[] = {1, 2, 2, 3, 1, 2, 3}, C[] = {3, 2, 3, 2, 1, 1, 1};
  static const int V[] = {0, 1, -2, 3};
  M<Q> a = genM<Q>(R[s], C[s], V);
  MC_OP("reduce %s", showM(a).c_str());
  mc::Hash h;
  mc::state(noteM(h, a));
  reduceQ(a);
}
MC_SCOPE_LEAK(reduce_3x3) {
  static const int V[] = {0, 1, 2}, W[] = {0, 1, -2, 3};
  M<Q> a = mc::thorough() ? genM<Q>(3, 3, W) : genM<Q>(3, 3, V);
  MC_OP("reduce %s", showM(a).c_str());
  mc::Hash h;
  mc::state(noteM(h, a));
  reduceQ(a);
}
MC_SCOPE_LEAK(reduce_binary) {
  int s = mc::choose(mc::bound(4, 5));
  static const int R[] = {3, 4, 2, 4, 4}, C[] = {4, 3, 5, 2, 4};
  static const int W[] = {0, 1};
  M<Q> a = genM<Q>(R[s], C[s], W);
  MC_OP("reduce %s", showM(a).c_str());
  mc::Hash h;
  mc::state(noteM(h, a));
  reduceQ(a);
}
#endif
MC_SCOPE_LEAK(reduce_double) {
  int s = mc::choose(3);
  static const int R[] = {2, 2, 1}, C[] = {2, 3, 3};
  static const int V[] = {0, 1, -1, 2, -4};
  M<double> a = genM<double>(R[s], C[s], V);
  MC_OP("reduce %s", showM(a).c_str());
  mc::Hash h;
  mc::state(noteM(h, a));
  M<double> g = reduced(a);
  M<double> p = rref(a), q = rref(g);
  for (size_t i = 0; i < p.v.size(); i++)
    if (!(std::fabs(p.v[i] - q.v[i]) < 1e-9)) mc::fail("reduce:space", "%s reduced to %s", showM(a).c_str(), showM(g).c_str());
}
#ifndef MC_PLAIN
MC_SCOPE_LEAK(reduce_large) {
  int r = mc::range(1, 7), c = mc::range(1, 7), p = mc::choose(7);
  if (p == 3 && (r > 4 || c > 5)) return;  // keeps the rationals small
  M<Q> a = pat<Q>(r, c, p);
  MC_OP("reduce %s", showM(a).c_str());
  mc::state(mc::Hash().add(r).add(c).add(p));
  reduceQ(a);
}
#endif
// ------------------------------------------------------------ histories
MC_SCOPE_LEAK(history) {
  typedef M<i64> R;
  R m[2];
  int s0 = mc::choose(3), s1 = mc::choose(3);
  static const int RR[] = {2, 1, 2}, CC[] = {2, 2, 1};
  m[0] = pat<i64>(RR[s0], CC[s0], 0), m[1] = pat<i64>(RR[s1], CC[s1], 1);
  {
    Matrix<i64> x = build(m[0]), y = build(m[1]);
    int n = mc::bound(5, 6);
    for (int i = 0; i < n; i++) {
      int op = mc::choose(13);
      bool sq = m[0].r == m[0].c && m[0].r, comp = m[0].c == m[1].r && m[0].r && m[1].r, same = m[0].r == m[1].r && m[0].c == m[1].c && m[0].r;
      i64 top = 0;
      for (i64 t : m[0].v) top = std::max(top, t < 0 ? -t : t);
      for (i64 t : m[1].v) top = std::max(top, t < 0 ? -t : t);
      if (top > 100000) return;
      MC_OP("op %d on %s, %s", op, showM(m[0]).c_str(), showM(m[1]).c_str());
      switch (op) {
        case 0: if (!same) return; x += y, m[0] = addM(m[0], m[1], 1); break;
        case 1: if (!same) return; x -= y, m[0] = addM(m[0], m[1], -1); break;
        case 2: if (!comp) return; x *= y, m[0] = mulM(m[0], m[1]); break;
        case 3: x = y, m[0] = m[1]; break;
        case 4: y = Matrix<i64>(x), m[1] = m[0]; break;
        case 5: if (!m[0].r) return; x[0][m[0].c - 1] = 4, m[0].at(0, m[0].c - 1) = 4; break;
        case 6: x.clear(), m[0] = R(0, 0); break;
        case 7: if (!sq) return; { Matrix<i64>& p = pow(x, 3); x = p; delete &p; m[0] = mulM(mulM(m[0], m[0]), m[0]); } break;
        case 8: std::swap(x, y), std::swap(m[0], m[1]); break;
        case 9: if (!m[0].r) return; x = x + x, m[0] = addM(m[0], m[0], 1); break;
        case 10: if (!comp) return; y = x * y, m[1] = mulM(m[0], m[1]); break;
        case 11: { Matrix<i64> t(m[0].r ? m[0].c : 1, 3); x = t; m[0] = R(m[0].r ? m[0].c : 1, 3); } break;
        case 12: if (!sq) return; x *= x, m[0] = mulM(m[0], m[0]); break;
      }
      mc::Hash h;
      mc::state(noteM(noteM(h, m[0]), m[1]));
      if (m[0].r) is(x, m[0], "history");
      if (m[1].r) is(y, m[1], "history:other");
      if ((x == y) != (m[0] == m[1])) mc::fail("history:equality", "comparison");
      if (textOf(x) != textM(m[0])) mc::fail("history:text", "text");
    }
  }
}
