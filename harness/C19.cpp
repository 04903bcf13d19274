// modules: math_utils
// C19: Fraction against exact rational arithmetic in 64-bit integers.
#include "math_utils/Fraction.h"

#include <climits>
#include <sstream>
#include "util.h"

using cuhksz::Fraction;
using std::string;
typedef int64_t i64;

struct Q {
  i64 n, d;
};
static i64 g(i64 a, i64 b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    i64 t = a % b;
    a = b, b = t;
  }
  return a;
}
static Q mk(i64 n, i64 d) {
  i64 k = g(n, d);
  if (d < 0) k = -k;
  return Q{n / k, d / k};
}
static string text(Q q) { return std::to_string(q.n) + "/" + std::to_string(q.d); }
static bool in(i64 v) { return v >= -(i64)INT_MAX && v <= INT_MAX; }

static void is(Fraction f, Q q, const char* what) {
  mc::ops(1);
  if (f.getNumerator() != q.n || f.getDenominator() != q.d)
    mc::fail(what, "%s gives %d/%d, expected %s", what, f.getNumerator(), f.getDenominator(), text(q).c_str());
}
static void prints(const Fraction& f, Q q) {
  std::ostringstream os;
  os << f << ';';
  mc::plainStream(os, "writing a fraction");
  if (os.str() != text(q) + ";") mc::fail("print", "prints %s, expected %s", os.str().c_str(), text(q).c_str());
}
static void dies(const char* what, std::function<void()> f) { mc::mustDie("zero", what, f); }

static void compare(const Fraction& x, const Fraction& y, Q a, Q b) {
  i64 l = a.n * b.d, r = b.n * a.d;
  mc::ops(6);
  if ((x < y) != (l < r) || (x <= y) != (l <= r) || (x > y) != (l > r) || (x >= y) != (l >= r) || (x == y) != (l == r) || (x != y) != (l != r))
    mc::fail("compare", "comparing %s with %s: < %d <= %d > %d >= %d == %d != %d", text(a).c_str(), text(b).c_str(), x < y, x <= y, x > y, x >= y, x == y, x != y);
}
// x (value a) with y (value b); y is the integer b.n when d is 1. Skips what does not fit.
static void binary(const Fraction& x, Q a, const Fraction& y, Q b, bool deathToo) {
  i64 p = a.n * b.d, q = a.d * b.n, dd = a.d * b.d, nn = a.n * b.n;
  bool asInt = b.d == 1;
  int k = (int)b.n;
  if (in(p) && in(q)) {
    compare(x, y, a, b);
    if (asInt) {
      i64 l = p, r = q;
      if ((x < k) != (l < r) || (x <= k) != (l <= r) || (x > k) != (l > r) || (x >= k) != (l >= r) || (x == k) != (l == r) || (x != k) != (l != r))
        mc::fail("compare:int", "comparing %s with %d", text(a).c_str(), k);
    }
    if (in(dd) && in(p + q)) {
      Q w = mk(p + q, dd);
      is(x + y, w, "+");
      Fraction t = x;
      t += y;
      is(t, w, "+=");
      if (asInt) {
        is(x + k, w, "+ int");
        is(k + x, w, "int +");
        Fraction u = x;
        u += k;
        is(u, w, "+= int");
      }
    }
    if (in(dd) && in(p - q)) {
      Q w = mk(p - q, dd);
      is(x - y, w, "-");
      Fraction t = x;
      t -= y;
      is(t, w, "-=");
      if (asInt) {
        is(x - k, w, "- int");
        is(k - x, mk(q - p, dd), "int -");
        Fraction u = x;
        u -= k;
        is(u, w, "-= int");
      }
    }
    if (b.n) {
      Q w = mk(p, q);
      is(x / y, w, "/");
      Fraction t = x;
      t /= y;
      is(t, w, "/=");
      if (asInt) {
        is(x / k, w, "/ int");
        Fraction u = x;
        u /= k;
        is(u, w, "/= int");
      }
    } else if (deathToo) {
      dies("x/0", [&] { x / y; });
      dies("x/=0", [&] { Fraction t = x; t /= y; });
      dies("x/int 0", [&] { x / 0; });
      dies("x/=int 0", [&] { Fraction t = x; t /= 0; });
    }
    if (asInt) {
      if (a.n) is(k / x, mk(q, p), "int /");
      else if (deathToo) dies("int / 0", [&] { k / x; });
    }
  }
  if (in(nn) && in(dd)) {
    Q w = mk(nn, dd);
    is(x * y, w, "*");
    Fraction t = x;
    t *= y;
    is(t, w, "*=");
    if (asInt) {
      is(x * k, w, "* int");
      is(k * x, w, "int *");
      Fraction u = x;
      u *= k;
      is(u, w, "*= int");
    }
  }
  is(x, a, "left operand afterwards");
  is(y, b, "right operand afterwards");
  Fraction t = x;
  t = y;
  is(t, b, "assignment");
}
static void self(const Fraction& x, Q a) {
  prints(x, a);
  Fraction t = x;
  Fraction& r = t;
  t = r;
  is(t, a, "self-assignment");
  if (in(a.n * a.d)) {
    if (in(2 * a.n * a.d) && in(a.d * a.d)) {
      t += r, is(t, mk(2 * a.n, a.d), "x+=x"), t = x;
      is(t + r, mk(2 * a.n, a.d), "x+x");
    }
    if (in(a.d * a.d)) {
      t -= r, is(t, Q{0, 1}, "x-=x"), t = x;
      is(t - r, Q{0, 1}, "x-x");
      if (in(a.n * a.n)) {
        t *= r, is(t, Q{a.n * a.n, a.d * a.d}, "x*=x"), t = x;
        is(t * r, Q{a.n * a.n, a.d * a.d}, "x*x");
      }
    }
    if (a.n) {
      t /= r, is(t, Q{1, 1}, "x/=x"), t = x;
      is(t / r, Q{1, 1}, "x/x");
    } else {
      dies("0/0", [&] { t /= r; });
    }
    t = x;
    if (!(t == r) || t != r || t < r || t > r || !(t <= r) || !(t >= r)) mc::fail("self-compare", "%s", text(a).c_str());
  }
}

MC_SCOPE(construct) {
  int L = mc::bound(60, 150);
  int n = mc::range(-L, L), d = mc::range(-L, L);
  MC_OP("Fraction(%d,%d)", n, d);
  mc::state(mc::Hash().add(n).add(d));
  if (!d) {
    mc::outcome("zero denominator");
    dies("zero denominator", [&] { Fraction f(n, d); });
    return;
  }
  Fraction f(n, d);
  mc::outcome("valid");
  Q q = mk(n, d);
  is(f, q, "construction");
  self(f, q);
  if (d == 1) {
    Fraction h(n), i = n;
    is(h, q, "from int");
    is(i, q, "conversion from int");
    if (n == 0) is(Fraction(), q, "default");
  }
}
MC_SCOPE(pairs) {
  int L = mc::bound(15, 30);
  int n = mc::range(-L, L), d = mc::range(-L, L);
  if (!d) return;
  Fraction x(n, d);
  Q a = mk(n, d);
  MC_OP("Fraction(%d,%d) with every fraction up to %d", n, d, L);
  for (int m = -L; m <= L; m++)
    for (int e = -L; e <= L; e++)
      if (e) {
        Fraction y(m, e);
        binary(x, a, y, mk(m, e), m == 0 && e == 1 && d == 1);
        mc::state(mc::Hash().add(n).add(d).add(m).add(e));
      }
}
MC_SCOPE(integers) {
  int L = mc::bound(40, 90);
  int n = mc::range(-L, L), d = mc::range(1, L), k = mc::range(-L, L);
  MC_OP("Fraction(%d,%d) with %d", n, d, k);
  mc::state(mc::Hash().add(n).add(d).add(k));
  binary(Fraction(n, d), mk(n, d), Fraction(k), Q{k, 1}, false);
}
// values up to the type's limit wherever the cross products fit
static const std::vector<int>& big() {
  static std::vector<int> v{0, 1, 2, 3, 6, 7, 210, 30030, 32767, 32768, 46339, 46340, 46341, 65535, 65536, 65537, 92681, 1000000, 1 << 30, 1073741789, 715827882, INT_MAX / 2, INT_MAX - 1, INT_MAX, 2147395600, 2147483629};
  return v;
}
MC_SCOPE(large) {
  int n = mc::pick(big()), d = mc::pick(big());
  bool sn = mc::flip(), sd = mc::flip();
  if (!d) return;
  n = sn ? -n : n, d = sd ? -d : d;
  Q a = mk(n, d);
  MC_OP("Fraction(%d,%d) with every large fraction", n, d);
  Fraction x(n, d);
  is(x, a, "construction");
  self(x, a);
  for (int m : big())
    for (int e : big())
      if (e)
        for (int s = 0; s < 4; s++) {
          int mm = s & 1 ? -m : m, ee = s & 2 ? -e : e;
          binary(x, a, Fraction(mm, ee), mk(mm, ee), false);
          mc::state(mc::Hash().add(n).add(d).add(mm).add(ee));
        }
}
// common factors: num = p*f, den = q*f over a range of factors
MC_SCOPE(factors) {
  int p = mc::range(-12, 12), q = mc::range(1, 12);
  MC_OP("multiples of %d/%d", p, q);
  int F = mc::bound(20000, 200000);
  for (int f = 1; f <= F; f += f < 300 ? 1 : 97) {
    is(Fraction(p * f, q * f), mk(p, q), "reduced");
    is(Fraction(-p * f, -q * f), mk(p, q), "reduced negative");
    mc::state(mc::Hash().add(p).add(q).add(f));
  }
}
MC_SCOPE(deaths) {
  static const int V[] = {0, 1, -1, 2, -7, 30030, INT_MAX, -INT_MAX};
  int n = mc::pick(V), d = mc::pick(V), k = mc::choose(7);
  if (!d) d = 3;
  MC_OP("division of %d/%d by zero, form %d", n, d, k);
  mc::state(mc::Hash().add(n).add(d).add(k));
  Fraction x(n, d), z(0, d), zz;
  // products with a zero operand always fit
  switch (k) {
    case 0: dies("construct", [&] { Fraction f(n, 0); }); break;
    case 1: dies("/", [&] { x / z; }); break;
    case 2: dies("/=", [&] { x /= z; }); break;
    case 3: dies("/ int", [&] { x / 0; }); break;
    case 4: dies("/= int", [&] { x /= 0; }); break;
    case 5: dies("int /", [&] { n / z; }); break;
    case 6: dies("/ default", [&] { x / zz; }); break;
  }
}
MC_SCOPE(history) {
  static const Q S[] = {{0, 1}, {1, 1}, {-1, 2}, {2, 3}, {-6, 1}};
  Q m[2] = {mc::pick(S), mc::pick(S)};
  Fraction r[2] = {Fraction((int)m[0].n, (int)m[0].d), Fraction((int)m[1].n, (int)m[1].d)};
  int n = mc::bound(5, 6);
  for (int i = 0; i < n; i++) {
    int op = mc::choose(14);
    Q a = m[0], b = m[1], w = a, wb = b;
    i64 p = a.n * b.d, q = b.n * a.d, dd = a.d * b.d, nn = a.n * b.n;
    if (!in(p) || !in(q) || !in(dd) || !in(nn) || !in(p + q) || !in(p - q) || !in(3 * a.n) || !in(3 * a.d)) return;
    MC_OP("op %d on %s, %s", op, text(a).c_str(), text(b).c_str());
    switch (op) {
      case 0: r[0] += r[1], w = mk(p + q, dd); break;
      case 1: r[0] -= r[1], w = mk(p - q, dd); break;
      case 2: r[0] *= r[1], w = mk(nn, dd); break;
      case 3: if (!b.n) return; r[0] /= r[1], w = mk(p, q); break;
      case 4: r[1] = r[0], wb = a; break;
      case 5: std::swap(r[0], r[1]), w = b, wb = a; break;
      case 6: r[0] += 1, w = mk(a.n + a.d, a.d); break;
      case 7: r[0] = 2 - r[0], w = mk(2 * a.d - a.n, a.d); break;
      case 8: r[0] *= -2, w = mk(-2 * a.n, a.d); break;
      case 9: if (!a.n) return; r[0] = -3 / r[0], w = mk(-3 * a.d, a.n); break;
      case 10: r[0] = r[1] - r[0], w = mk(q - p, dd); break;
      case 11: r[0] /= 3, w = mk(a.n, 3 * a.d); break;
      case 12: if (!in(a.d * a.d) || !in(a.n * a.d)) return; r[0] = r[0] - r[0], w = Q{0, 1}; break;
      case 13: if (!a.n) return; r[0] = r[1] / r[0], w = mk(q, p); break;
    }
    m[0] = w, m[1] = wb;
    mc::state(mc::Hash().add(m[0].n).add(m[0].d).add(m[1].n).add(m[1].d));
    is(r[0], m[0], "history");
    is(r[1], m[1], "history:other");
    if (in(m[0].n * m[1].d) && in(m[1].n * m[0].d)) compare(r[0], r[1], m[0], m[1]);
    prints(r[0], m[0]);
  }
}
