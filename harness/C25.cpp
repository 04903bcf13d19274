// modules: geometry
// C25: points, lines and circles against coordinate geometry in long double.
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"

#include <cmath>
#include <sstream>
#include "util.h"

using cuhksz::Circle;
using cuhksz::GVector;
using cuhksz::Line;
using cuhksz::Point;
using std::string;
typedef long double ld;

static void near(double got, ld want, ld scale, const char* what) {
  mc::ops(1);
  if (!(std::fabs((ld)got - want) <= 1e-11L * (scale + std::fabs(want)))) mc::fail(what, "%s gives %.17g, expected %.17Lg", what, got, want);
}
template <int N> struct V {
  ld e[N];
};
template <int N> static Point<N> mk(const V<N>& v) {
  Point<N> p;
  for (int i = 0; i < N; i++) p[i] = (double)v.e[i];
  return p;
}
template <int N> static void is(const Point<N>& p, const V<N>& v, const char* what) {
  ld sc = 0;
  for (int i = 0; i < N; i++) sc += std::fabs(v.e[i]);
  for (int i = 0; i < N; i++) near(p[i], v.e[i], sc, what);
}
template <int N> static string show(const V<N>& v) {
  string s = "(";
  for (int i = 0; i < N; i++) s += (i ? "," : "") + std::to_string((double)v.e[i]);
  return s + ")";
}
template <int N> static V<N> op(const V<N>& a, const V<N>& b, ld x, ld y) {
  V<N> r;
  for (int i = 0; i < N; i++) r.e[i] = x * a.e[i] + y * b.e[i];
  return r;
}
template <int N> static ld dotV(const V<N>& a, const V<N>& b) {
  ld s = 0;
  for (int i = 0; i < N; i++) s += a.e[i] * b.e[i];
  return s;
}
template <int N> static V<N> gen(const std::vector<double>& vals) {
  V<N> v;
  for (int i = 0; i < N; i++) v.e[i] = mc::pick(vals);
  return v;
}
template <int N> static mc::Hash& note(mc::Hash& h, const V<N>& v) {
  for (int i = 0; i < N; i++) h.add((int64_t)(v.e[i] * 4096));
  return h;
}
template <int N> static int lex(const V<N>& a, const V<N>& b) {
  for (int i = 0; i < N; i++)
    if (a.e[i] != b.e[i]) return a.e[i] < b.e[i] ? -1 : 1;
  return 0;
}

template <int N> static void one(const V<N>& a) {
  Point<N> p = mk(a), z;
  V<N> zero;
  for (int i = 0; i < N; i++) zero.e[i] = 0;
  is(z, zero, "default point");
  is(p, a, "coordinates");
  near(p.len(), std::sqrt(dotV(a, a)), 0, "len");
  is(p, a, "after len");
  std::ostringstream os, w;
  os << p;
  mc::plainStream(os, "writing a point");
  w << "(";
  for (int i = 0; i < N; i++) w << (i ? ", " : "") << (double)a.e[i];
  w << ")";
  if (os.str() != w.str()) mc::fail("print", "prints %s, expected %s", os.str().c_str(), w.str().c_str());
  if (dotV(a, a) > 0) {
    Point<N> n(p);
    n.normalize();
    is(n, op(a, a, 1 / std::sqrt(dotV(a, a)), 0), "normalize");
    near(n.len(), 1, 1, "length after normalize");
  }
  // copies are independent
  Point<N> c(p), d;
  d = p;
  c[0] += 1;
  d[N - 1] -= 1;
  is(p, a, "after changing copies");
  // with itself
  Point<N>& r = p;
  if (&(p = r) != &p) mc::fail("ref", "=");
  is(p, a, "self-assignment");
  is(p + r, op(a, a, 1, 1), "p+p");
  is(p - r, zero, "p-p");
  near(p * r, dotV(a, a), dotV(a, a), "p*p");
  near(dot(p, r), dotV(a, a), dotV(a, a), "dot(p,p)");
  if (!(p == r) || p != r || p < r || p > r || !(p <= r) || !(p >= r)) mc::fail("self-compare", "%s", show(a).c_str());
  p += r;
  is(p, op(a, a, 1, 1), "p+=p");
  p = mk(a);
  p -= r;
  is(p, zero, "p-=p");
  for (int i = 0; i < N; i++) {
    p = mk(a);
    p *= p[i];
    is(p, op(a, a, a.e[i], 0), "p*=p[i]");
    p = mk(a);
    is(p * p[i], op(a, a, a.e[i], 0), "p*p[i]");
    is(p[i] * p, op(a, a, a.e[i], 0), "p[i]*p");
    if (a.e[i] != 0) {
      p /= p[i];
      is(p, op(a, a, 1 / a.e[i], 0), "p/=p[i]");
      p = mk(a);
      is(p / p[i], op(a, a, 1 / a.e[i], 0), "p/p[i]");
    }
  }
}
template <int N> static void two(const V<N>& a, const V<N>& b, ld k) {
  Point<N> p = mk(a), q = mk(b);
  ld m = std::sqrt(dotV(a, a) * dotV(b, b));
  is(p + q, op(a, b, 1, 1), "+");
  is(p - q, op(a, b, 1, -1), "-");
  near(p * q, dotV(a, b), m, "dot *");
  near(dot(p, q), dotV(a, b), m, "dot");
  Point<N> t(p);
  if (&(t += q) != &t) mc::fail("ref", "+=");
  is(t, op(a, b, 1, 1), "+=");
  t = p;
  if (&(t -= q) != &t) mc::fail("ref", "-=");
  is(t, op(a, b, 1, -1), "-=");
  is(p * (double)k, op(a, b, k, 0), "* number");
  is((double)k * p, op(a, b, k, 0), "number *");
  t = p;
  if (&(t *= (double)k) != &t) mc::fail("ref", "*=");
  is(t, op(a, b, k, 0), "*=");
  if (k != 0) {
    is(p / (double)k, op(a, b, 1 / k, 0), "/ number");
    t = p;
    if (&(t /= (double)k) != &t) mc::fail("ref", "/=");
    is(t, op(a, b, 1 / k, 0), "/=");
  }
  int c = lex(a, b);
  if ((p < q) != (c < 0) || (p <= q) != (c <= 0) || (p > q) != (c > 0) || (p >= q) != (c >= 0))
    mc::fail("order", "%s vs %s: < %d <= %d > %d >= %d", show(a).c_str(), show(b).c_str(), p < q, p <= q, p > q, p >= q);
  bool eq = true;
  for (int i = 0; i < N; i++) eq = eq && std::fabs(a.e[i] - b.e[i]) <= 1e-6L;
  if ((p == q) != eq || (p != q) == eq) mc::fail("equality", "%s vs %s", show(a).c_str(), show(b).c_str());
  is(p, a, "left operand");
  is(q, b, "right operand");
}
static void cross2(const V<2>& a, const V<2>& b) {
  ld c = a.e[0] * b.e[1] - a.e[1] * b.e[0];
  near(cross(mk(a), mk(b)), c, std::sqrt(dotV(a, a) * dotV(b, b)), "cross");
  near(cross(mk(b), mk(a)), -c, std::sqrt(dotV(a, a) * dotV(b, b)), "cross");
}
static const std::vector<double> K{-2, 0.5, 3, 0, 1, -0.1};

template <int N> static void pairs(const std::vector<double>& vals) {
  V<N> a = gen<N>(vals), b = gen<N>(vals);
  MC_OP("%s and %s", show(a).c_str(), show(b).c_str());
  mc::Hash h;
  mc::state(note(note(h, a), b));
  one(a);
  two(a, b, K[(size_t)((int64_t)(a.e[0] * 7 + b.e[N - 1] * 3 + 1000) % 6)]);
}
MC_SCOPE_LEAK(points1) { pairs<1>({0, 1, -1, 2.5, -3, 1e3, -1e-3, 1e6, 0.1}); }
MC_SCOPE_LEAK(points2) { pairs<2>({0, 1, -1, 2.5, -3, 1e3, -0.01, 1e5}); }
MC_SCOPE_LEAK(points3) { mc::thorough() ? pairs<3>({0, 1, -1.5, 20, -0.3, 7}) : pairs<3>({0, 1, -1.5, 20, -0.3}); }
MC_SCOPE_LEAK(points4) { mc::thorough() ? pairs<4>({0, 1, -2.5, 9}) : pairs<4>({0, 1, -2.5}); }
MC_SCOPE_LEAK(points5) { pairs<5>({0, -2.5}); }
MC_SCOPE_LEAK(points7) { pairs<7>({-1, 3}); }
// many dimensions: two coordinates stand out, in every place
template <int N> static void manyDim() {
  int i = mc::choose(N), j = mc::choose(N), k = mc::choose(3);
  V<N> a, b;
  for (int d = 0; d < N; d++) a.e[d] = k == 0 ? 0 : d % 5 - 1.5, b.e[d] = k == 0 ? 0 : k == 1 ? a.e[d] : 2.5 - d % 3;
  a.e[i] += 4, b.e[j] -= 3.25;
  MC_OP("%s and %s", show(a).c_str(), show(b).c_str());
  mc::Hash h;
  mc::state(note(note(h, a), b).add(N));
  one(a);
  two(a, b, K[(i + j) % 6]);
}
MC_SCOPE_LEAK(points8) { manyDim<8>(); }
MC_SCOPE_LEAK(points9) { manyDim<9>(); }
MC_SCOPE_LEAK(points12) { manyDim<12>(); }
MC_SCOPE_LEAK(points16) { manyDim<16>(); }
MC_SCOPE_LEAK(points33) { manyDim<33>(); }
MC_SCOPE_LEAK(points100) { manyDim<100>(); }
MC_SCOPE_LEAK(cross_grid) {
  V<2> a = gen<2>({0, 1, -1, 2, -2, 3.5, -0.25, 100}), b = gen<2>({0, 1, -1, 2, -2, 3.5, -0.25, 100});
  MC_OP("cross %s %s", show(a).c_str(), show(b).c_str());
  mc::Hash h;
  mc::state(note(note(h, a), b));
  cross2(a, b);
  Point<2> p((double)a.e[0], (double)a.e[1]);
  is(p, a, "two coordinates");
  Point<3> q((double)a.e[0], (double)a.e[1], (double)b.e[0]);
  is(q, V<3>{{a.e[0], a.e[1], b.e[0]}}, "three coordinates");
  Point<1> r((double)b.e[1]);
  is(r, V<1>{{b.e[1]}}, "one coordinate");
}
// equality at its limit, in every coordinate and direction
template <int N> static void limit() {
  static const double D[] = {0, 0.9e-6, 1.1e-6, -0.9e-6, -1.1e-6, 0.5, -3};
  static const double O[] = {0, 1, -7.25, 100};
  double o = mc::pick(O);
  V<N> a, b;
  for (int i = 0; i < N; i++) a.e[i] = o * (i + 1), b.e[i] = (double)((double)a.e[i] + mc::pick(D));
  MC_OP("%s near %s", show(a).c_str(), show(b).c_str());
  mc::Hash h;
  for (int i = 0; i < N; i++) h.add((double)b.e[i]);
  mc::state(h.add(o));
  two(a, b, 1);
}
MC_SCOPE_LEAK(equality1) { limit<1>(); }
MC_SCOPE_LEAK(equality2) { limit<2>(); }
MC_SCOPE_LEAK(equality3) { limit<3>(); }

// ------------------------------------------------------------ lines
static void place(V<2>& p, int frame, bool vec) {  // a second, turned and shifted coordinate frame
  ld x = p.e[0], y = p.e[1];
  switch (frame) {
    case 0: break;
    case 1: p.e[0] = 0.6L * x - 0.8L * y + (vec ? 0 : 10.25L), p.e[1] = 0.8L * x + 0.6L * y - (vec ? 0 : 3.5L); break;
    case 2: p.e[0] = 100 * y + (vec ? 0 : 1000), p.e[1] = 100 * x - (vec ? 0 : 7); break;
    case 3: p.e[0] = 0.37L * x, p.e[1] = -0.37L * y + (vec ? 0 : 0.1L); break;
  }
  p.e[0] = (double)p.e[0], p.e[1] = (double)p.e[1];
}
static V<2> grid(int r) {
  V<2> v;
  v.e[0] = mc::range(-r, r);
  v.e[1] = mc::range(-r, r);
  return v;
}
MC_SCOPE_LEAK(intersections) {
  int f = mc::choose(4);
  V<2> A = grid(1), v = grid(mc::bound(3, 3)), B = grid(mc::bound(3, 3)), w = grid(mc::bound(3, 3));
  ld c0 = v.e[0] * w.e[1] - v.e[1] * w.e[0];
  if (c0 == 0) { mc::outcome("parallel"); return; }
  mc::outcome("crossing");
  place(A, f, false), place(v, f, true), place(B, f, false), place(w, f, true);
  // short and long direction vectors denote the same lines
  static const double SV[] = {1, 1e-3, 0.01, 250, 1e-2}, SW[] = {1, 1, 1e-3, 0.01, 1e4};
  int sc2 = mc::choose(f == 1 || mc::thorough() ? 5 : 1);
  for (int i = 0; i < 2; i++) v.e[i] = (double)(v.e[i] * SV[sc2]), w.e[i] = (double)(w.e[i] * SW[sc2]);
  ld c = v.e[0] * w.e[1] - v.e[1] * w.e[0];
  MC_OP("line %s+t%s with %s+s%s", show(A).c_str(), show(v).c_str(), show(B).c_str(), show(w).c_str());
  mc::Hash h;
  mc::state(note(note(note(note(h, A), v), B), w).add(sc2));
  ld t = ((B.e[0] - A.e[0]) * w.e[1] - (B.e[1] - A.e[1]) * w.e[0]) / c;
  V<2> X = op(A, v, 1, t);
  Line l1(mk(A), mk(v)), l2(mk(B), mk(w));
  Point<2> p = getIntersection(l1, l2), q = getIntersection(l2, l1);
  mc::ops(2);
  ld sc = 1 + std::fabs(X.e[0]) + std::fabs(X.e[1]) + std::fabs(A.e[0]) + std::fabs(A.e[1]) + std::fabs(B.e[0]) + std::fabs(B.e[1]);
  for (int i = 0; i < 2; i++) near(p[i], X.e[i], 10 * sc, "intersection"), near(q[i], X.e[i], 10 * sc, "intersection swapped");
}
MC_SCOPE_LEAK(distances) {
  int f = mc::choose(4);
  V<2> A = grid(mc::bound(2, 2)), v = grid(3), P = grid(mc::bound(7, 7));
  place(A, f, false), place(v, f, true), place(P, f, false);
  static const double SV[] = {1, 1e-3, 0.02, 300};
  int sc2 = mc::choose(f == 0 || mc::thorough() ? 4 : 1);
  for (int i = 0; i < 2; i++) v.e[i] = (double)(v.e[i] * SV[sc2]);
  MC_OP("point %s, line %s+t%s", show(P).c_str(), show(A).c_str(), show(v).c_str());
  mc::Hash h;
  mc::state(note(note(note(h, A), v), P).add(sc2));
  V<2> d = op(P, A, 1, -1);
  ld vv = dotV(v, v), sc = 1 + std::sqrt(dotV(d, d)) + std::sqrt(vv);
  Line l(mk(A), mk(v));
  near(l.len(), std::sqrt(vv), 0, "length of a line");
  mc::ops(2);
  if (vv == 0) {
    near(disToSegment(mk(P), l), std::sqrt(dotV(d, d)), sc, "distance to a one-point segment");
    mc::outcome("point");
    return;
  }
  ld cr = std::fabs(v.e[0] * d.e[1] - v.e[1] * d.e[0]) / std::sqrt(vv);
  near(disToLine(mk(P), l), cr, 1e3 * sc, "distance to a line");
  ld t = dotV(d, v) / vv;
  mc::outcome(t < 0 ? "before" : t > 1 ? "after" : "beside");
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  V<2> g = op(d, v, 1, -t);
  // the library takes projections within 1e-6 as on the boundary
  ld want = std::sqrt(dotV(g, g));
  double got = disToSegment(mk(P), l);
  if (!(std::fabs(got - want) <= 1e-9L * sc)) mc::fail("distance to a segment", "distance from %s to segment %s+%s is %.12g, expected %.12Lg", show(P).c_str(), show(A).c_str(), show(v).c_str(), got, want);
  // the same segment from its other end, and a copy and an assigned line
  V<2> E = op(A, v, 1, 1), nv = op(v, v, -1, 0);
  Line back(mk(E), mk(nv)), copy(l), asg(Point<2>(9, 9), GVector<2>(1, 0));
  if (&(asg = l) != &asg) mc::fail("ref", "=");
  asg = *&asg;
  double g2 = disToSegment(mk(P), back), l2 = disToLine(mk(P), back);
  if (!(std::fabs(g2 - want) <= 1e-9L * sc)) mc::fail("segment reversed", "distance from %s to the reversed segment is %.12g, expected %.12Lg", show(P).c_str(), g2, want);
  near(l2, cr, 1e3 * sc, "distance to the reversed line");
  near(disToLine(mk(P), copy), cr, 1e3 * sc, "distance to a copied line");
  near(disToLine(mk(P), asg), cr, 1e3 * sc, "distance to an assigned line");
  near(disToSegment(mk(P), asg), want, 1e3 * sc, "distance to an assigned segment");
}
// ------------------------------------------------------------ circles
MC_SCOPE_LEAK(circles) {
  static const double R[] = {0, 0.25, 1, 2.5, 100, 12345.5}, X[] = {0, 1, -3.5, 1000};
  double r = mc::pick(R), x = mc::pick(X), y = mc::pick(X);
  int form = mc::choose(4);
  if (form < 2) x = y = 0;
  if (form == 0 || form == 2) r = 1;
  MC_OP("circle at (%g,%g) radius %g, form %d", x, y, r, form);
  mc::state(mc::Hash().add(r).add(x).add(y).add(form));
  Point<2> O(x, y);
  Circle c = form == 0 ? Circle() : form == 1 ? Circle(r) : form == 2 ? Circle(O) : Circle(O, r);
  const ld pi = 3.14159265358979323846L;
  for (int copy = 0; copy < 2; copy++) {
    Circle d(c);
    // the library's pi has eight digits
    auto about = [&](double got, ld want, const char* what) {
      mc::ops(1);
      if (!(std::fabs(got - want) <= 1e-7L * want)) mc::fail(what, "%s is %.12g, expected %.12Lg", what, got, want);
    };
    about(d.getArea(), pi * r * r, "area");
    about(d.getPerimeter(), 2 * pi * r, "perimeter");
    for (int k = -16; k <= 32; k++) {
      double a = k * 0.39269908169872414 + (k % 3) * 0.01;
      Point<2> p = d.getPoint(a);
      near(p[0], x + (ld)r * std::cos((ld)a), 10 * (r + std::fabs(x)), "boundary x");
      near(p[1], y + (ld)r * std::sin((ld)a), 10 * (r + std::fabs(y)), "boundary y");
    }
    d = Circle(Point<2>(5, 5), 3);
    about(d.getArea(), pi * 9, "area after assignment");
  }
}
