// modules: math_utils
// C21: gcd, lcm, binaryPow, genericBinaryPow, factorial, permutation, binomial against
// their definitions in 128-bit arithmetic.
#include "math_utils.h"

#include <climits>
#include <limits>
#include <sstream>
#include "util.h"

typedef __int128 i128;
typedef int64_t i64;
using std::string;

static string s128(i128 v) {
  if (!v) return "0";
  string s;
  bool n = v < 0;
  for (unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; u; u /= 10) s = (char)('0' + (int)(u % 10)) + s;
  return (n ? "-" : "") + s;
}
static i128 ab(i128 v) { return v < 0 ? -v : v; }
static i128 euclid(i128 a, i128 b) {
  a = ab(a), b = ab(b);
  while (b) { i128 t = a % b; a = b, b = t; }
  return a;
}
template <class T>
static bool in(i128 v) { return v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max(); }

template <class A, class B>
static void gl(A a, B b, i128 g) {
  typedef typename std::common_type<A, B>::type R;
  mc::ops(2);
  R r = cuhksz::gcd(a, b);
  static_assert(std::is_same<decltype(cuhksz::gcd(a, b)), R>::value, "type of gcd");
  static_assert(std::is_same<decltype(cuhksz::lcm(a, b)), R>::value, "type of lcm");
  if (ab((i128)r) != g)
    mc::fail("gcd", "gcd(%lld,%lld)=%s, expected %s (%zu and %zu byte arguments)", (long long)a, (long long)b, s128(r).c_str(), s128(g).c_str(), sizeof a, sizeof b);
  if (!g) return;
  i128 l = ab((i128)a) / g * ab((i128)b);
  if (!in<R>(l)) return;
  r = cuhksz::lcm(a, b);
  if (ab((i128)r) != l)
    mc::fail("lcm", "lcm(%lld,%lld)=%s, expected %s (%zu and %zu byte arguments)", (long long)a, (long long)b, s128(r).c_str(), s128(l).c_str(), sizeof a, sizeof b);
}
static i128 divisorGcd(int a, int b) {  // by the definition
  a = std::abs(a), b = std::abs(b);
  if (!a || !b) return a + b;
  for (int d = std::min(a, b);; d--)
    if (a % d == 0 && b % d == 0) return d;
}
template <class A>
static void withAll(A a, i64 b, i128 g) {
  if (in<int8_t>(b) && b != INT8_MIN) gl(a, (int8_t)b, g);
  if (in<short>(b) && b != SHRT_MIN) gl(a, (short)b, g);
  if (in<int>(b) && b != INT_MIN) gl(a, (int)b, g);
  gl(a, (i64)b, g);
  gl(a, (long long)b, g);
}
static void allTypes(i64 a, i64 b, i128 g) {
  if (in<int8_t>(a) && a != INT8_MIN) withAll((int8_t)a, b, g);
  if (in<short>(a) && a != SHRT_MIN) withAll((short)a, b, g);
  if (in<int>(a) && a != INT_MIN) withAll((int)a, b, g);
  withAll((i64)a, b, g);
}
MC_SCOPE(gcd_small) {
  int L = mc::bound(400, 800);
  int a = mc::range(-L, L);
  MC_OP("gcd and lcm of %d with all up to %d", a, L);
  for (int b = -L; b <= L; b++) {
    mc::state(mc::Hash().add(a).add(b));
    i128 g = divisorGcd(a, b);
    if (g != euclid(a, b)) mc::fail("harness", "reference");
    allTypes(a, b, g);
  }
}
static const std::vector<i64>& large() {
  static std::vector<i64> v;
  if (v.empty()) {
    v = {0, 1, 2, 3, 6, 97, 30030, 46341, 65536, 1000003, 223092870, 1836311903, 2971215073LL, 7540113804746346429LL, 4660046610375530309LL,
         2880067194370816120LL, 6700417, 4294967291LL, 999999000001LL, 1000000000000000003LL, 1LL << 62, 1LL << 40, 3486784401LL, 12157665459056928801ULL / 9 > 0 ? 1350851717672992089LL : 0};
    for (int w : {7, 15, 31, 63}) {
      i64 m = w == 63 ? INT64_MAX : (1LL << w) - 1;
      v.push_back(m), v.push_back(m - 1), v.push_back(m / 2), v.push_back(m / 2 + 1);
    }
    v.push_back(128), v.push_back(32768), v.push_back(1LL << 31);
  }
  return v;
}
MC_SCOPE(gcd_large) {
  i64 a = mc::pick(large()), b = mc::pick(large());
  int s = mc::choose(4);
  if (s & 1) a = -a;
  if (s & 2) b = -b;
  MC_OP("gcd and lcm of %lld and %lld", (long long)a, (long long)b);
  mc::state(mc::Hash().add(a).add(b));
  allTypes(a, b, euclid(a, b));
}
// every pair of consecutive Fibonacci numbers (longest Euclid runs) and multiples
MC_SCOPE(gcd_fibonacci) {
  int n = mc::range(1, 90), k = mc::range(1, mc::bound(200, 400));
  i64 a = 0, b = 1;
  for (int i = 0; i < n; i++) { i64 t = a + b; a = b, b = t; }
  if ((i128)b * k > INT64_MAX) return;
  MC_OP("multiple %d of Fibonacci pair %d", k, n);
  mc::state(mc::Hash().add(n).add(k));
  allTypes(a * k, b * k, k);
  allTypes(b * k, a * k, k);
  allTypes(-a * k, b * k, k);
}

// ------------------------------------------------------------ powers
static bool refPow(i128 b, long e, i128 lo, i128 hi, i128& r) {
  if (b == 0) { r = e ? 0 : 1; return true; }
  if (b == 1) { r = 1; return true; }
  if (b == -1) { r = e & 1 ? -1 : 1; return true; }
  r = 1;
  for (long i = 0; i < e; i++) {
    r *= b;
    if (r < lo || r > hi) return false;
  }
  return true;
}
template <class T>
static void refuse(const char* key, T f) { mc::mustDie(key, key, f); }

template <class T, class E>
static void generic(T b, E e) {
  i128 w;
  if (!refPow(b, (long)e, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), w)) return;
  mc::ops(1);
  T r = cuhksz::genericBinaryPow(b, e);
  if ((i128)r != w)
    mc::fail("genericBinaryPow", "genericBinaryPow(%lld,%lld)=%lld, expected %s (%zu byte base)", (long long)b, (long long)e, (long long)r, s128(w).c_str(), sizeof b);
}
static void pow1(i64 b, long e) {
  i128 w;
  if (!refPow(b, e, INT64_MIN, INT64_MAX, w)) return;
  mc::ops(1);
  i64 r = cuhksz::binaryPow(b, (int)e);
  if ((i128)r != w) mc::fail("binaryPow", "binaryPow(%lld,%ld)=%lld, expected %s", (long long)b, e, (long long)r, s128(w).c_str());
  generic<i64, int>(b, (int)e);
  generic<i64, i64>(b, e);
  if (e < 32768) generic<i64, short>(b, (short)e);
  if (e < 128) generic<i64, signed char>(b, (signed char)e);
  generic<i64, unsigned>(b, (unsigned)e);
  if (in<int>(b)) generic<int, int>((int)b, (int)e);
  if (in<short>(b)) generic<short, int>((short)b, (int)e);
  if (in<int8_t>(b)) generic<int8_t, int>((int8_t)b, (int)e);
}
MC_SCOPE(pow_small) {
  int L = mc::bound(50000, 100000);
  int b = mc::range(-L, L);
  MC_OP("all representable powers of %d", b);
  for (int e = 0; e <= 70; e++) {
    i128 w;
    if (!refPow(b, e, INT64_MIN, INT64_MAX, w)) break;
    mc::state(mc::Hash().add(b).add(e));
    pow1(b, e);
  }
}
// the largest base of each exponent, and its neighbours
MC_SCOPE(pow_edge) {
  int e = mc::range(1, 63), d = mc::range(-3, 3), s = mc::flip();
  i64 lo = 1, hi = INT64_MAX;
  while (lo < hi) {
    i64 m = lo + (hi - lo) / 2 + 1;
    i128 w;
    if (refPow(m, e, INT64_MIN, INT64_MAX, w)) lo = m; else hi = m - 1;
  }
  i128 b = (i128)lo + d;
  if (b < 0 || b > INT64_MAX) return;
  MC_OP("power %d of %s%s", e, s ? "-" : "", s128(b).c_str());
  mc::state(mc::Hash().add(e).add((i64)b).add(s));
  pow1(s ? -(i64)b : (i64)b, e);
}
MC_SCOPE(pow_units) {
  static const int E[] = {0, 1, 2, 3, 63, 64, 65, 127, 128, 1000, 32767, 65536, INT_MAX - 1, INT_MAX, 1 << 30};
  int b = mc::range(-1, 1), e = mc::pick(E);
  MC_OP("%d to the %d", b, e);
  mc::state(mc::Hash().add(b).add(e));
  pow1(b, e);
}
MC_SCOPE(pow_negative) {
  static const int E[] = {-1, -2, -3, -7, -64, -1000, INT_MIN + 1};
  static const i64 B[] = {0, 1, 2, -1, -2, 3, 10, INT64_MAX};
  int e = mc::pick(E);
  i64 b = mc::pick(B);
  MC_OP("%lld to the %d", (long long)b, e);
  mc::state(mc::Hash().add(b).add(e));
  refuse("binaryPow:negative", [&] { cuhksz::binaryPow(b, e); });
  refuse("genericBinaryPow:negative", [&] { cuhksz::genericBinaryPow(b, e); });
  refuse("genericBinaryPow:negative", [&] { cuhksz::genericBinaryPow(cuhksz::Fraction(1, 2), e); });
}
// a type that only counts: *= adds exponents and remembers the largest one ever formed
struct Tally {
  long k;
  static long peak, muls;
  Tally(long a, long) : k(a) {}
  Tally& operator*=(const Tally& o) {
    k += o.k;
    muls++;
    if (k > peak) peak = k;
    return *this;
  }
  Tally operator*(const Tally& o) const { Tally t(*this); t *= o; return t; }
  bool operator==(const Tally& o) const { return k == o.k; }
  bool operator!=(const Tally& o) const { return k != o.k; }
};
long Tally::peak, Tally::muls;
struct IntTally : Tally {
  IntTally(int a) : Tally(a, 0) {}  // IntTally{1} is never used for positive exponents
  IntTally& operator*=(const IntTally& o) { Tally::operator*=(o); return *this; }
  IntTally operator*(const IntTally& o) const { IntTally t(*this); t *= o; return t; }
};
template <class T, class E>
static void tally(T one, E e) {
  Tally::peak = Tally::muls = 0;
  mc::ops(1);
  T r = cuhksz::genericBinaryPow(one, e);
  if (r.k != (long)e) mc::fail("generic:exponent", "genericBinaryPow used exponent %ld, expected %ld", r.k, (long)e);
  if (Tally::peak > (long)e) mc::fail("generic:overflow", "power %ld formed the intermediate power %ld", (long)e, Tally::peak);
}
#ifndef MC_PLAIN
MC_SCOPE(pow_generic) {
  int B = mc::bound(20000, 40000);
  int e = mc::range(1, B + 64);
  long x = e <= B ? e : e - B <= 31 ? (1L << (e - B)) - 1 : (1L << (e - B - 32)) + 1;
  if (x <= 0 || x > INT_MAX) return;
  MC_OP("generic power %ld", x);
  mc::state(mc::Hash().add(x));
  tally(Tally(1, 0), (int)x);
  tally(Tally(1, 0), (i64)x);
  tally(IntTally(1), (int)x);
  if (x < 128) tally(IntTally(1), (signed char)x);
  if (x < 32768) tally(Tally(1, 0), (short)x);
}
#endif
MC_SCOPE(pow_types) {
  int n = mc::range(-6, 6), d = mc::range(1, 6), e = mc::range(0, 9);
  MC_OP("(%d/%d)^%d", n, d, e);
  mc::state(mc::Hash().add(n).add(d).add(e));
  i128 a = 1, b = 1;
  for (int i = 0; i < e; i++) a *= n, b *= d;
  cuhksz::Fraction base(n, d);
  i128 g = euclid(a, b);
  cuhksz::Fraction r = cuhksz::genericBinaryPow(base, e);
  if (r.getNumerator() != (int)(a / g) || r.getDenominator() != (int)(b / g)) mc::fail("generic:fraction", "(%d/%d)^%d", n, d, e);
  if (base.getNumerator() * d != n * base.getDenominator()) mc::fail("generic:operand", "base changed");
  cuhksz::BigNum<12> big(n), p = cuhksz::genericBinaryPow(big, e);
  if (p.toString() != s128(a)) mc::fail("generic:bignum", "%d^%d=%s", n, e, p.toString().c_str());
  double x = n / 2.0, y = cuhksz::genericBinaryPow(x, e), want = 1;
  for (int i = 0; i < e; i++) want *= x;
  if (y != want) mc::fail("generic:double", "%g^%d=%g, expected %g", x, e, y, want);
  if (e > 0) {
    std::vector<std::vector<int>> v{{n, 1}, {0, d}};
    cuhksz::Matrix<i64> m(v), q = cuhksz::genericBinaryPow(m, e);
    i64 A[2][2] = {{1, 0}, {0, 1}}, M[2][2] = {{n, 1}, {0, d}};
    for (int t = 0; t < e; t++) {
      i64 C[2][2] = {};
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) C[i][j] += A[i][k] * M[k][j];
      memcpy(A, C, sizeof A);
    }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (q[i][j] != A[i][j]) mc::fail("generic:matrix", "matrix power");
  }
}

// ------------------------------------------------------------ counting
static i128 refFact(int n) { i128 r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
static bool refPerm(i128 n, i128 r, i128 hi, i128& w) {
  w = 1;
  for (i128 i = 0; i < r; i++) { w *= n - i; if (w > hi) return false; }
  return true;
}
static bool refBinom(i128 n, i128 r, i128 hi, i128& w) {
  if (r > n - r) r = n - r;
  w = 1;
  for (i128 i = 1; i <= r; i++) { w = w * (n - r + i) / i; if (w > hi) return false; }
  return true;
}
template <class T>
static void counting(i64 n, i64 r) {
  const i128 hi = std::numeric_limits<T>::max();
  if (!in<T>(n) || !in<T>(r)) return;
  i128 w;
  if (n < 0 || r < 0 || r > n) {
    refuse("permutation:invalid", [&] { cuhksz::permutation<T>((T)n, (T)r); });
    refuse("binomial:invalid", [&] { cuhksz::binomial<T>((T)n, (T)r); });
    if (n < 0) refuse("factorial:invalid", [&] { cuhksz::factorial<T>((T)n); });
    return;
  }
  mc::ops(2);
  if (refPerm(n, r, hi, w)) {
    T g = cuhksz::permutation<T>((T)n, (T)r);
    if ((i128)g != w) mc::fail("permutation", "permutation(%lld,%lld)=%lld, expected %s (%zu bytes)", (long long)n, (long long)r, (long long)g, s128(w).c_str(), sizeof(T));
  }
  if (refBinom(n, r, hi, w)) {
    T g = cuhksz::binomial<T>((T)n, (T)r);
    if ((i128)g != w) mc::fail("binomial", "binomial(%lld,%lld)=%lld, expected %s (%zu bytes)", (long long)n, (long long)r, (long long)g, s128(w).c_str(), sizeof(T));
  }
}
MC_SCOPE(counting_small) {
  int n = mc::range(-3, mc::bound(400, 800)), r = mc::range(-2, n + 3 < 2 ? 2 : n + 3);
  MC_OP("counting %d from %d", r, n);
  mc::state(mc::Hash().add(n).add(r));
  counting<int>(n, r);
  counting<i64>(n, r);
  counting<short>(n, r);
  counting<int8_t>(n, r);
}
// few out of many, and almost all out of many
MC_SCOPE(counting_wide) {
  static const i64 N[] = {1000, 9999, 32766, 32767, 46341, 65535, 65536, 65537, 92682, 92683, 100000, 1000000, 3000000};
  i64 n = mc::pick(N);
  int r = mc::range(0, 3), k = mc::flip();
  i64 x = k ? n - r : r;
  MC_OP("counting %lld from %lld", (long long)x, (long long)n);
  mc::state(mc::Hash().add(n).add(x));
  i128 w;
  (void)w;
  const i128 big = INT64_MAX;
  if (refBinom(n, x, big, w) && (n < 1000000 || r <= 1)) {
    mc::ops(1);
    if (cuhksz::binomial<i64>(n, x) != (i64)w) mc::fail("binomial", "binomial(%lld,%lld)", (long long)n, (long long)x);
    if (w <= INT_MAX && cuhksz::binomial<int>((int)n, (int)x) != (int)w) mc::fail("binomial", "binomial(%lld,%lld) in int", (long long)n, (long long)x);
  }
  if (!k && refPerm(n, r, big, w)) {
    mc::ops(1);
    if (cuhksz::permutation<i64>(n, r) != (i64)w) mc::fail("permutation", "permutation(%lld,%d)", (long long)n, r);
    if (w <= INT_MAX && cuhksz::permutation<int>((int)n, r) != (int)w) mc::fail("permutation", "permutation(%lld,%d) in int", (long long)n, r);
  }
}
// the largest n whose answer still fits, for every r: nothing on the way may overflow
template <class I>
static void nearLimit(int r, int d, bool mirror) {
  const i128 big = std::numeric_limits<I>::max();
  i128 w;
  i64 lo = r, hi = (i64)(big < 4000000 ? big : (i128)4000000);  // refBinom(lo) fits
  while (lo < hi) {
    i64 mid = lo + (hi - lo + 1) / 2;
    if (refBinom(mid, r, big, w)) lo = mid; else hi = mid - 1;
  }
  i64 n = lo - d;
  if (n < r) return;
  MC_OP("binomial(%lld,%d) in %zu bytes%s", (long long)n, r, sizeof(I), mirror ? " mirrored" : "");
  mc::state(mc::Hash().add(n).add(r).add((int)sizeof(I)).add(mirror));
  mc::ops(1);
  if (refBinom(n, r, big, w) && cuhksz::binomial<I>((I)n, (I)(mirror ? n - r : r)) != (I)w)
    mc::fail("binomial", "binomial(%lld,%lld) in a type of %zu bytes", (long long)n, (long long)(mirror ? n - r : r), sizeof(I));
}
MC_SCOPE(binomial_limits) {
  int r = mc::range(2, 33), d = mc::range(0, mc::bound(2, 30)), ty = mc::choose(4);
  bool mirror = mc::flip();
  if (ty == 0) nearLimit<i64>(r, d, mirror);
  if (ty == 1) nearLimit<int>(r, d, mirror);
  if (ty == 2) nearLimit<short>(r, d, mirror);
  if (ty == 3) nearLimit<int8_t>(r, d, mirror);
}
MC_SCOPE(counting_huge) {
  static const i64 N[] = {INT_MAX, (i64)INT_MAX + 1, (i64)UINT_MAX, 1LL << 40, INT64_MAX - 1, INT64_MAX};
  i64 n = mc::pick(N);
  int r = mc::range(0, 2);
  MC_OP("permutation(%lld,%d), binomial(%lld,0 or all)", (long long)n, r, (long long)n);
  mc::state(mc::Hash().add(n).add(r));
  i128 w;
  if (refPerm(n, r, INT64_MAX, w) && cuhksz::permutation<i64>(n, r) != (i64)w) mc::fail("permutation", "permutation(%lld,%d)", (long long)n, r);
  if (r == 0 && (cuhksz::binomial<i64>(n, 0) != 1 || cuhksz::binomial<i64>(n, n) != 1)) mc::fail("binomial", "binomial(%lld,0)", (long long)n);
}
MC_SCOPE(binomial_beyond_int) {
  if (!mc::thorough()) return;
  i64 n = (i64)INT_MAX + mc::range(1, 3);
  bool k = mc::flip();
  MC_OP("binomial(%lld,1)", (long long)n);
  mc::state(mc::Hash().add(n).add(k));
  if (cuhksz::binomial<i64>(n, k ? 1 : n - 1) != n) mc::fail("binomial", "binomial(%lld,1)", (long long)n);
}
MC_SCOPE(factorials) {
  int n = mc::range(-3, 20);
  MC_OP("factorial(%d)", n);
  mc::state(mc::Hash().add(n));
  if (n < 0) {
    refuse("factorial:invalid", [&] { cuhksz::factorial(n); });
    refuse("factorial:invalid", [&] { cuhksz::factorial((i64)n); });
    return;
  }
  mc::ops(1);
  i128 w = refFact(n);
  if (cuhksz::factorial((i64)n) != (i64)w) mc::fail("factorial", "factorial(%d)", n);
  if (w <= INT_MAX && cuhksz::factorial(n) != (int)w) mc::fail("factorial", "factorial(%d) in int", n);
  if (w <= SHRT_MAX && cuhksz::factorial((short)n) != (short)w) mc::fail("factorial", "factorial(%d) in short", n);
  if (w <= 127 && cuhksz::factorial((int8_t)n) != (int8_t)w) mc::fail("factorial", "factorial(%d) in int8_t", n);
}
