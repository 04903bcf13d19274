// modules:
// C18: BigNum against machine arithmetic (small values, every pair) and an independent
// decimal reference (long values).
#include "math_utils/BigNum.h"

#include <climits>
#include <sstream>
#include "util.h"

using cuhksz::BigNum;
using std::string;
typedef int64_t i64;
typedef __int128 i128;

// ------------------------------------------------------------ reference: signed decimal strings
struct Z {
  bool neg = false;
  std::vector<int> d;  // least significant first, no leading zeros; empty is zero
  Z() {}
  explicit Z(i128 v) {
    neg = v < 0;
    unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
    for (; u; u /= 10) d.push_back((int)(u % 10));
  }
  explicit Z(const string& s) {
    size_t i = 0;
    if (s[0] == '-' || s[0] == '+') neg = s[0] == '-', i = 1;
    for (size_t k = s.size(); k-- > i;) d.push_back(s[k] - '0');
    trim();
  }
  void trim() {
    while (!d.empty() && !d.back()) d.pop_back();
    if (d.empty()) neg = false;
  }
  string text() const {
    if (d.empty()) return "0";
    string s = neg ? "-" : "";
    for (size_t i = d.size(); i-- > 0;) s += (char)('0' + d[i]);
    return s;
  }
  Z operator-() const {
    Z r = *this;
    if (!d.empty()) r.neg = !neg;
    return r;
  }
};
static int cmpMag(const Z& a, const Z& b) {
  if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1;
  for (size_t i = a.d.size(); i-- > 0;)
    if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
  return 0;
}
static int cmpZ(const Z& a, const Z& b) {
  if (a.neg != b.neg) return a.neg ? -1 : 1;
  int c = cmpMag(a, b);
  return a.neg ? -c : c;
}
static Z addZ(const Z& a, const Z& b) {
  Z r;
  if (a.neg == b.neg) {
    int carry = 0;
    for (size_t i = 0; i < a.d.size() || i < b.d.size() || carry; i++) {
      int t = carry + (i < a.d.size() ? a.d[i] : 0) + (i < b.d.size() ? b.d[i] : 0);
      r.d.push_back(t % 10);
      carry = t / 10;
    }
    r.neg = a.neg;
  } else {
    const Z &x = cmpMag(a, b) >= 0 ? a : b, &y = cmpMag(a, b) >= 0 ? b : a;
    int borrow = 0;
    for (size_t i = 0; i < x.d.size(); i++) {
      int t = x.d[i] - borrow - (i < y.d.size() ? y.d[i] : 0);
      borrow = t < 0;
      r.d.push_back(t + 10 * borrow);
    }
    r.neg = x.neg;
  }
  r.trim();
  return r;
}
static Z mulZ(const Z& a, const Z& b) {
  std::vector<long> t(a.d.size() + b.d.size() + 1);
  for (size_t i = 0; i < a.d.size(); i++)
    for (size_t j = 0; j < b.d.size(); j++) t[i + j] += a.d[i] * b.d[j];
  Z r;
  long carry = 0;
  for (long v : t) {
    v += carry;
    r.d.push_back((int)(v % 10));
    carry = v / 10;
  }
  r.neg = a.neg != b.neg;
  r.trim();
  return r;
}
template <int N>
static bool fits(const Z& v) { return v.d.size() <= (size_t)N; }
static bool isI64(const Z& v, i64& out) {
  if (v.d.size() > 19) return false;
  i128 x = 0;
  for (size_t i = v.d.size(); i-- > 0;) x = x * 10 + v.d[i];
  if (v.neg) x = -x;
  if (x < (i128)INT64_MIN || x > (i128)INT64_MAX) return false;
  out = (i64)x;
  return true;
}

// ------------------------------------------------------------ checks
template <int N>
static void is(const BigNum<N>& x, const string& want, const char* what) {
  mc::ops(1);
  string t = x.toString();
  if (t != want) mc::fail(what, "capacity %d: %s gives %s, expected %s", N, what, mc::show(t).c_str(), want.c_str());
}
template <int N>
static void is(const BigNum<N>& x, const Z& v, const char* what) { is(x, v.text(), what); }

template <int N>
static void unary(const BigNum<N>& x, const Z& v) {
  is(x, v, "value");
  std::ostringstream os;
  os << x << '|' << x;
  mc::plainStream(os, "writing a number");
  if (os.str() != v.text() + "|" + v.text()) mc::fail("print", "<< gives %s for %s", os.str().c_str(), v.text().c_str());
  if (toString(x) != v.text()) mc::fail("toString", "toString(x) for %s", v.text().c_str());
  Z m = v;
  m.neg = false;
  is(x.abs(), m, "abs()");
  is(abs(x), m, "abs(x)");
  is(-x, -v, "negation");
  is(-(-x), v, "double negation");
  if (!((-x) == BigNum<N>((-v).text()))) mc::fail("negation:equal", "-(%s) does not equal itself", v.text().c_str());
  Z one((i128)1), up = addZ(v, one), down = addZ(v, -one);
  if (fits<N>(up)) {
    BigNum<N> y(x);
    BigNum<N>& r = ++y;
    if (&r != &y) mc::fail("++:ref", "prefix ++ does not return its operand");
    is(y, up, "prefix ++");
    BigNum<N> z(x), old = z++;
    is(z, up, "postfix ++");
    is(old, v, "postfix ++ result");
    BigNum<N> w(x);
    w += 1;
    is(w, up, "+= 1");
    is(x + 1, up, "+ 1");
  }
  if (fits<N>(down)) {
    BigNum<N> y(x);
    BigNum<N>& r = --y;
    if (&r != &y) mc::fail("--:ref", "prefix -- does not return its operand");
    is(y, down, "prefix --");
    BigNum<N> z(x), old = z--;
    is(z, down, "postfix --");
    is(old, v, "postfix -- result");
    BigNum<N> w(x);
    w -= 1;
    is(w, down, "-= 1");
    is(x - 1, down, "- 1");
  }
  // with itself
  BigNum<N> s(x);
  BigNum<N>& al = s;
  s = al;
  is(s, v, "self-assignment");
  if (!(s == al) || s != al || s < al || s > al || !(s <= al) || !(s >= al)) mc::fail("self-compare", "%s", v.text().c_str());
  is(s - al, string("0"), "x-x");
  Z dbl = addZ(v, v), sq = mulZ(v, v);
  if (fits<N>(dbl)) {
    is(s + al, dbl, "x+x");
    BigNum<N> t(x);
    BigNum<N>& ta = t;
    if (&(t += ta) != &t) mc::fail("+=:ref", "+=");
    is(t, dbl, "x+=x");
  }
  if (fits<N>(sq)) {
    is(s * al, sq, "x*x");
    BigNum<N> t(x);
    BigNum<N>& ta = t;
    if (&(t *= ta) != &t) mc::fail("*=:ref", "*=");
    is(t, sq, "x*=x");
  }
  BigNum<N> t(x);
  BigNum<N>& ta = t;
  if (&(t -= ta) != &t) mc::fail("-=:ref", "-=");
  is(t, string("0"), "x-=x");
  if (!(t == BigNum<N>())) mc::fail("zero", "x-x is not equal to zero");
  if (fits<N>(one)) { ++t; is(t, string("1"), "++(x-x)"); }
  is(x, v, "operand afterwards");
}

template <int N>
static void compare(const BigNum<N>& x, const BigNum<N>& y, int c, const string& a, const string& b) {
  mc::ops(6);
  if ((x < y) != (c < 0) || (x <= y) != (c <= 0) || (x > y) != (c > 0) || (x >= y) != (c >= 0) || (x == y) != (c == 0) || (x != y) != (c != 0))
    mc::fail("compare", "capacity %d: comparing %s with %s: < %d <= %d > %d >= %d == %d != %d", N, a.c_str(), b.c_str(), x < y, x <= y, x > y, x >= y, x == y, x != y);
}

template <int N>
static void binary(const BigNum<N>& x, const Z& a, const BigNum<N>& y, const Z& b) {
  string ta = a.text(), tb = b.text();
  int c = cmpZ(a, b);
  compare(x, y, c, ta, tb);
  compare(y, x, -c, tb, ta);
  Z sum = addZ(a, b), dif = addZ(a, -b), pro = mulZ(a, b);
  i64 small;
  bool mixed = isI64(b, small);
  if (mixed) compare<N>(x, BigNum<N>(small), c, ta, tb);
  if (fits<N>(sum)) {
    is(x + y, sum, "+");
    BigNum<N> t(x);
    if (&(t += y) != &t) mc::fail("+=:ref", "+=");
    is(t, sum, "+=");
    if (mixed) {
      is(x + small, sum, "+ int");
      BigNum<N> u(x);
      if (&(u += small) != &u) mc::fail("+=:ref", "+= int");
      is(u, sum, "+= int");
      if (!(u == t)) mc::fail("route", "%s + %s differs by route", ta.c_str(), tb.c_str());
    }
  }
  if (fits<N>(dif)) {
    is(x - y, dif, "-");
    BigNum<N> t(x);
    if (&(t -= y) != &t) mc::fail("-=:ref", "-=");
    is(t, dif, "-=");
    if (mixed) {
      is(x - small, dif, "- int");
      BigNum<N> u(x);
      if (&(u -= small) != &u) mc::fail("-=:ref", "-= int");
      is(u, dif, "-= int");
      if (!(u == t)) mc::fail("route", "%s - %s differs by route", ta.c_str(), tb.c_str());
    }
    if (fits<N>(addZ(dif, b))) is(t + y, a, "(x-y)+y");
  }
  if (fits<N>(pro)) {
    is(x * y, pro, "*");
    BigNum<N> t(x);
    if (&(t *= y) != &t) mc::fail("*=:ref", "*=");
    is(t, pro, "*=");
    if (mixed) {
      is(x * small, pro, "* int");
      BigNum<N> u(x);
      if (&(u *= small) != &u) mc::fail("*=:ref", "*= int");
      is(u, pro, "*= int");
      if (!(u == t)) mc::fail("route", "%s * %s differs by route", ta.c_str(), tb.c_str());
    }
    if (fits<N>(addZ(pro, a))) is(t + x, addZ(pro, a), "x*y+x");
  }
  BigNum<N> t(y);
  if (&(t = x) != &t) mc::fail("=:ref", "assignment");
  is(t, a, "assignment");
  is(x, a, "left operand afterwards");
  is(y, b, "right operand afterwards");
}

// every way the harness has of producing a value
static const int ROUTES = 13;
template <int N>
static bool produce(int route, i64 v, BigNum<N>& x) {
  string t = std::to_string(v);
  i64 lim = 1;
  for (int i = 0; i < N && i < 18; i++) lim *= 10;
  lim--;
  string zeros = v < 0 ? "-00" + t.substr(1) : "00" + t;
  switch (route) {
    case 0: x = BigNum<N>(v); return true;
    case 1: x = BigNum<N>(t); return true;
    case 2: x = BigNum<N>(zeros); return true;
    case 3: x = BigNum<N>(v < 0 ? t : "+" + t); return true;
    case 4: x = -BigNum<N>(-v); return true;
    case 5: { i64 h = v / 2; x = BigNum<N>(h) + BigNum<N>(v - h); return true; }
    case 6: if (v > 0) { x = BigNum<N>(lim) - BigNum<N>(lim - v); } else { x = BigNum<N>(-lim) - BigNum<N>(-lim - v); } return true;
    case 7: x = BigNum<N>(lim) ; x -= lim - (v > 0 ? v : -v); if (v < 0) x = -x; return true;
    case 8: x = BigNum<N>(v) * BigNum<N>((i64)-1); x *= (i64)-1; return true;
    case 9: if (v - 1 < -lim) return false; x = BigNum<N>(v - 1); ++x; return true;
    case 10: if (v + 1 > lim) return false; x = BigNum<N>(v + 1); x--; return true;
    case 11: x = BigNum<N>(-lim); x = BigNum<N>(v); return true;
    default: x = BigNum<N>(v) * BigNum<N>((i64)0); x += v; return true;
  }
}

// ------------------------------------------------------------ scopes
template <int N>
static void everyPair(int lim) {
  int a = mc::range(-lim, lim);
  BigNum<N> x((i64)a);
  Z za((i128)a);
  MC_OP("capacity %d: %d with every number up to %d digits", N, a, N);
  unary(x, za);
  for (int b = -lim; b <= lim; b++) {
    if (b % 64 == 0) mc::beat();
    BigNum<N> y((i64)b);
    binary(x, za, y, Z((i128)b));
    mc::state(mc::Hash().add(N).add(a).add(b));
  }
}
MC_SCOPE(pairs1) { everyPair<1>(9); }
MC_SCOPE(pairs2) { everyPair<2>(99); }
MC_SCOPE(pairs3) { everyPair<3>(mc::bound(199, 999)); }

template <int N>
static void routes(const std::vector<i64>& V) {
  i64 a = mc::pick(V), b = mc::pick(V);
  int ra = mc::choose(ROUTES);
  for (int rb = 0; rb < ROUTES; rb++) {
    BigNum<N> x, y;
    if (!produce(ra, a, x) || !produce(rb, b, y)) continue;
    MC_OP("capacity %d: %lld made by route %d, %lld by route %d", N, (long long)a, ra, (long long)b, rb);
    mc::state(mc::Hash().add(N).add(a).add(b).add(ra).add(rb));
    if (rb == 0) unary(x, Z((i128)a));
    binary(x, Z((i128)a), y, Z((i128)b));
  }
}
MC_SCOPE(routes3) { routes<3>({0, 1, -1, 9, -9, 10, -10, 19, -19, 90, 99, -99, 100, -100, 101, 109, -190, 500, 999, -999, 990, -900}); }
MC_SCOPE(routes1) { routes<1>({0, 1, -1, 2, -2, 5, -5, 9, -9}); }
MC_SCOPE(routes2) { routes<2>({0, 1, -1, 9, -9, 10, -10, 11, -20, 49, 50, 90, -90, 99, -99}); }

// machine-integer extremes in roomy and exact capacities
static const std::vector<i64>& extremes() {
  static std::vector<i64> v;
  if (v.empty()) {
    v = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT_MAX, INT_MIN, (i64)INT_MAX + 1, (i64)INT_MIN - 1, (i64)UINT_MAX, (i64)UINT_MAX + 1, 7, -13};
    i64 p = 10;
    for (int i = 1; i <= 18; i++, p = i <= 18 ? p * 10 : p) {
      if (i % 3 && i < 17) continue;
      v.push_back(p), v.push_back(-p), v.push_back(p - 1), v.push_back(-p + 1), v.push_back(p + 1);
    }
  }
  return v;
}
template <int N>
static void ints() {
  i64 a = mc::pick(extremes()), b = mc::pick(extremes());
  Z za((i128)a), zb((i128)b);
  if (!fits<N>(za) || !fits<N>(zb)) return;
  MC_OP("capacity %d: %lld and %lld", N, (long long)a, (long long)b);
  mc::state(mc::Hash().add(N).add(a).add(b));
  BigNum<N> x(a), y(b), xs(za.text()), ys(zb.text());
  if (!(x == xs) || !(ys == y)) mc::fail("text", "text and integer construction differ for %lld or %lld", (long long)a, (long long)b);
  unary(x, za);
  binary(x, za, y, zb);
  binary(xs, za, y, zb);
  BigNum<N> c = a;  // implicit conversion
  is(c, za, "conversion");
}
MC_SCOPE(ints18) { ints<18>(); }
MC_SCOPE(ints19) { ints<19>(); }
MC_SCOPE(ints20) { ints<20>(); }
MC_SCOPE(ints40) { ints<40>(); }

// long structured numbers
static const int SHAPES = 9;
static string shape(int k, int len) {
  string s;
  for (int i = 0; i < len; i++) switch (k) {
      case 0: s += '9'; break;
      case 1: s += i ? '0' : '1'; break;
      case 2: s += i == 0 || i == len - 1 ? '1' : '0'; break;
      case 3: s += (char)('1' + i % 9); break;
      case 4: s += i ? '9' : '1'; break;
      case 5: s += i ? '0' : '5'; break;
      case 6: s += i % 2 ? '0' : '9'; break;
      case 7: s += i == len - 1 ? '8' : '9'; break;
      default: s += (char)((i == 0) + '0' + mc::scramble(i, len) % 9); break;
    }
  return s;
}
template <int N>
static void longPairs(const std::vector<int>& L) {
  int la = mc::pick(L), ka = mc::choose(SHAPES), sa = mc::flip();
  int lb = mc::pick(L), kb = mc::choose(SHAPES);
  if (la > N || lb > N) return;
  string ta = (sa ? "-" : "") + shape(ka, la);
  Z za(ta);
  BigNum<N> x(ta);
  if (lb == L[0] && kb == 0) unary(x, za);
  for (int sb = 0; sb < 2; sb++) {
    string tb = (sb ? "-" : "") + shape(kb, lb);
    MC_OP("capacity %d: %s with %s", N, ta.c_str(), tb.c_str());
    mc::state(mc::Hash().add(N).add(ta).add(tb));
    BigNum<N> y(tb);
    binary(x, za, y, Z(tb));
  }
}
MC_SCOPE(long12) { longPairs<12>({1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12}); }
MC_SCOPE(long30) { longPairs<30>({1, 9, 10, 14, 15, 16, 28, 29, 30}); }
MC_SCOPE(long64) { longPairs<64>({1, 31, 32, 33, 63, 64}); }
MC_SCOPE(long1000) {
  static const std::vector<int> L{1, 100, 499, 500, 501, 999, 1000};
  if (!mc::thorough()) longPairs<1000>({1, 499, 500, 1000}); else longPairs<1000>(L);
}
// texts: signs and leading zeros
MC_SCOPE(texts) {
  static const char* SG[] = {"", "+", "-"};
  string sg = mc::pick(SG);
  int zeros = mc::range(0, mc::bound(9, 20));
  string dg = mc::str("0159", 0, mc::bound(5, 6));
  string t = sg + string(zeros, '0') + dg;
  if (t.size() == sg.size()) return;
  MC_OP("text %s", t.c_str());
  mc::state(mc::Hash().add(t));
  Z v(t);
  BigNum<6> x(t);
  unary(x, v);
  i64 n;
  isI64(v, n);
  compare(x, BigNum<6>(n), 0, t, "its value");
  compare(BigNum<6>(n), x, 0, "its value", t);
  BigNum<40> w(t);
  is(w, v, "value");
}
// every text of digits that exactly fills the capacity
MC_SCOPE(full_capacity) {
  string t = mc::str("0189", 4, 4), u = mc::str("019", 4, 4);
  bool na = mc::flip(), nb = mc::flip();
  t = (na ? "-" : "") + t, u = (nb ? "-" : "") + u;
  MC_OP("capacity 4: %s and %s", t.c_str(), u.c_str());
  mc::state(mc::Hash().add(t).add(u));
  BigNum<4> x(t), y(u);
  binary(x, Z(t), y, Z(u));
}
// histories on two numbers
MC_SCOPE(history) {
  typedef BigNum<4> B;
  const i64 LIM = 9999;
  static const i64 S[] = {0, 1, -1, 99, -100};
  i64 m[2] = {mc::pick(S), mc::pick(S)};
  B r[2] = {B(m[0]), B(m[1])};
  int n = mc::bound(4, 5);
  for (int i = 0; i < n; i++) {
    int op = mc::choose(16);
    i64 a = m[0], b = m[1], want = a, wantB = b;
    switch (op) {
      case 0: want = a + b; break;
      case 1: want = a - b; break;
      case 2: want = a * b; break;
      case 3: want = b; break;
      case 4: wantB = a; break;
      case 5: want = a + 1; break;
      case 6: want = a - 1; wantB = a; break;
      case 7: want = -a; break;
      case 8: want = a < 0 ? -a : a; break;
      case 9: want = a * -10; break;
      case 10: want = a - 7; break;
      case 11: want = a + a; break;
      case 12: want = b, wantB = a; break;
      case 13: want = b - a; break;
      case 14: want = a * a; break;
      case 15: want = 0; break;
    }
    if (want > LIM || want < -LIM) return;
    MC_OP("op %d on %lld,%lld", op, (long long)a, (long long)b);
    switch (op) {
      case 0: r[0] += r[1]; break;
      case 1: r[0] -= r[1]; break;
      case 2: r[0] *= r[1]; break;
      case 3: r[0] = r[1]; break;
      case 4: r[1] = B(r[0]); break;
      case 5: ++r[0]; break;
      case 6: r[1] = r[0]--; break;
      case 7: r[0] = -r[0]; break;
      case 8: r[0] = abs(r[0]); break;
      case 9: r[0] = r[0] * -10; break;
      case 10: r[0] -= 7; break;
      case 11: r[0] = r[0] + r[0]; break;
      case 12: std::swap(r[0], r[1]); break;
      case 13: r[0] = r[1] - r[0]; break;
      case 14: r[0] *= r[0]; break;
      case 15: r[0] -= r[0]; break;
    }
    m[0] = want, m[1] = wantB;
    mc::state(mc::Hash().add(m[0]).add(m[1]));
    is(r[0], std::to_string(m[0]), "history");
    is(r[1], std::to_string(m[1]), "history:other");
    int c = m[0] < m[1] ? -1 : m[0] > m[1];
    compare(r[0], r[1], c, std::to_string(m[0]), std::to_string(m[1]));
    compare(r[0], B(m[0]), 0, "history value", "the same value");
  }
}
