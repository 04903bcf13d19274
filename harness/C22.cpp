// modules: math_utils
// C22: sum, mean, variance, stddev and their sample forms against exact integer moments
// (or long double two-pass moments for real data).
#include "math_utils.h"

#include <climits>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include "containers.h"
#include "util.h"

typedef __int128 i128;
typedef int64_t i64;
typedef long double ld;
using std::vector;

struct Ref {
  size_t n = 0;
  ld sum = 0, mean = 0, ss = 0;  // ss: sum of squared deviations
  ld mag = 0, absSum = 0;
};
template <class T>
static Ref refInt(const vector<T>& v) {
  Ref r;
  i128 s = 0, n = (i128)v.size();
  for (T x : v) s += x, r.mag = std::max(r.mag, std::fabs((ld)x)), r.absSum += std::fabs((ld)x);
  r.n = v.size();
  r.sum = (ld)s;
  r.mean = (ld)s / n;
  // sum (n x - s)^2 / n^2, every term exact in 128 bits for |x| <= 2^31 and n <= 2^16
  ld t = 0;
  for (T x : v) { i128 d = n * (i128)x - s; t += (ld)d * (ld)d; }
  r.ss = t / ((ld)n * (ld)n);
  return r;
}
template <class T>
static Ref refReal(const vector<T>& v) {
  Ref r;
  r.n = v.size();
  for (T x : v) r.sum += x, r.mag = std::max(r.mag, std::fabs((ld)x)), r.absSum += std::fabs((ld)x);
  r.mean = r.sum / r.n;
  for (T x : v) r.ss += (x - r.mean) * (x - r.mean);
  return r;
}
static const ld EPS = 2.3e-16L;
static void near(double got, ld want, ld tol, const char* what) {
  mc::ops(1);
  if (!(std::fabs((ld)got - want) <= tol)) mc::fail(what, "%s gives %.17g, expected %.20Lg", what, got, want);
}
// sum error in units of the element type: eps * n * sum|x|
template <class T>
static ld sumTol(const Ref& r) {
  return std::is_integral<T>::value ? 0 : (std::is_same<T, float>::value ? 1.3e-7L : EPS) * (r.n + 2) * r.absSum * 2;
}
static ld meanTol(const Ref& r, ld st) { return st / r.n + 4 * EPS * (std::fabs(r.mean) + r.mag); }
static ld varTol(const Ref& r, ld st, ld var) {
  ld dm = meanTol(r, st) + 2 * EPS * r.mag;
  ld sd = std::sqrt(var);
  return 8 * EPS * (r.n + 8) * var + 4 * dm * dm + 8 * dm * sd * EPS * r.n + 4 * sd * 4 * EPS * r.mag;
}
struct Five {
  double mean, var, sd, svar, ssd;
};
static void judge(const Ref& r, const Five& f, ld st, const char* form) {
  char k[64];
#define NAME(x) (snprintf(k, sizeof k, "%s:%s", form, x), k)
  near(f.mean, r.mean, meanTol(r, st), NAME("mean"));
  ld var = r.ss / r.n;
  if (!(f.var >= 0)) mc::fail(NAME("negative"), "variance %.17g", f.var);
  near(f.var, var, varTol(r, st, var), NAME("variance"));
  auto root = [&](double got, ld v, const char* w) {
    ld t = varTol(r, st, v), lo = v - t < 0 ? 0 : std::sqrt(v - t), hi = std::sqrt(v + t);
    mc::ops(1);
    if (!(got >= lo * (1 - 4 * EPS) && got <= hi * (1 + 4 * EPS))) mc::fail(w, "%s gives %.17g, expected %.20Lg", w, got, std::sqrt(v));
  };
  root(f.sd, var, NAME("stddev"));
  if (r.n >= 2) {
    ld sv = r.ss / (r.n - 1);
    if (!(f.svar >= 0)) mc::fail(NAME("sample negative"), "sample variance %.17g", f.svar);
    near(f.svar, sv, varTol(r, st, sv), NAME("sample_variance"));
    root(f.ssd, sv, NAME("sample_stddev"));
  }
}
template <class C>
static Five five(const C& c, size_t n) {
  Five f;
  f.mean = cuhksz::mean(c), f.var = cuhksz::variance(c), f.sd = cuhksz::stddev(c);
  f.svar = f.ssd = 0;
  if (n >= 2) f.svar = cuhksz::sample_variance(c), f.ssd = cuhksz::sample_stddev(c);
  return f;
}
template <class T>
static Five five(const T* p, int n) {
  Five f;
  f.mean = cuhksz::mean(p, n), f.var = cuhksz::variance(p, n), f.sd = cuhksz::stddev(p, n);
  f.svar = f.ssd = 0;
  if (n >= 2) f.svar = cuhksz::sample_variance(p, n), f.ssd = cuhksz::sample_stddev(p, n);
  return f;
}
template <class T>
static void sumIs(T got, const Ref& r, const char* what) { near((double)got, r.sum, std::is_integral<T>::value ? 4 * EPS * std::fabs(r.sum) : sumTol<T>(r), what); 
  if (std::is_integral<T>::value && (i128)got != (i128)r.sum) mc::fail(what, "%s gives %lld, expected %.0Lf", what, (long long)got, r.sum); }

template <class C, class T>
static void container(const C& c, const vector<T>& v, const Ref& r, const char* form) {
  C copy(c);
  sumIs<T>(cuhksz::sum(c), r, form);
  judge(r, five(c, v.size()), sumTol<T>(r), form);
  auto a = c.begin();
  for (auto b = copy.begin(); b != copy.end(); ++b, ++a)
    if (!(*a == *b)) mc::fail("data", "%s data changed", form);
}
// pointer forms for int and double, sum and mean for every type
template <class T>
static void pointer(const vector<T>& v, const Ref& r, const char* form, bool all) {
  std::unique_ptr<T[]> p(new T[v.size()]);  // exact size: reading past it is seen
  for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  sumIs<T>(cuhksz::sum(p.get(), (int)v.size()), r, form);
  near(cuhksz::mean(p.get(), (int)v.size()), r.mean, meanTol(r, sumTol<T>(r)), form);
  for (size_t i = 0; i < v.size(); i++)
    if (!(p[i] == v[i])) mc::fail("data", "%s data changed", form);
}
template <class T>
static void pointerAll(const vector<T>& v, const Ref& r, const char* form) {
  std::unique_ptr<T[]> p(new T[v.size()]);
  for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  judge(r, five((const T*)p.get(), (int)v.size()), sumTol<T>(r), form);
  for (size_t i = 0; i < v.size(); i++)
    if (!(p[i] == v[i])) mc::fail("data", "%s data changed", form);
}
template <class T>
static bool sumFits(const vector<T>& v) {
  i128 s = 0;
  for (T x : v) {
    s += x;
    if (s > (i128)std::numeric_limits<T>::max() || s < (i128)std::numeric_limits<T>::min()) return false;  // prefixes too
  }
  return true;
}
template <class T>
static void mapped(const vector<T>& v) {
  std::unique_ptr<T[]> p(new T[v.size()]);
  for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
  vector<T> seen;
  auto half = [&](T x) { seen.push_back(x); return x / 2.0; };
  auto wide = [&](T x) { seen.push_back(x); return (i64)x * 3 - 1; };
  auto big = [&](T x) { seen.push_back(x); return (float)(x > 0); };
  ld h = 0, a = 0, pos = 0;
  i128 w = 0;
  for (T x : v) h += x / 2.0L, a += std::fabs(x / 2.0L), w += (i128)x * 3 - 1, pos += x > 0;
  auto order = [&](const char* f) {
    if (seen != v) mc::fail("map:calls", "%s: function not applied to each element once in order", f);
    seen.clear();
  };
  ld tol = EPS * 4 * (v.size() + 2) * a;
  near(cuhksz::sum(p.get(), (int)v.size(), half), h, tol, "sum(array,fn)");
  order("array");
  near(cuhksz::sum(v, half), h, tol, "sum(container,fn)");
  order("container");
  if (cuhksz::sum(p.get(), (int)v.size(), wide) != (i64)w) mc::fail("map:sum", "sum(array,fn) into a wider type");
  order("array");
  if (cuhksz::sum(v, wide) != (i64)w) mc::fail("map:sum", "sum(container,fn) into a wider type");
  order("container");
  static_assert(std::is_same<decltype(cuhksz::sum(v, half)), double>::value, "");
  static_assert(std::is_same<decltype(cuhksz::sum(v, big)), float>::value, "");
  if (cuhksz::sum(v, big) != (float)pos) mc::fail("map:sum", "sum(container,fn) float");
  order("container");
}
template <class T>
static void everyForm(const vector<T>& v, const Ref& r) {
  pointer(v, r, "array", true);
  container(v, v, r, "std::vector");
  container(std::list<T>(v.begin(), v.end()), v, r, "std::list");
  container(std::deque<T>(v.begin(), v.end()), v, r, "std::deque");
  cuhksz::Vector<T> cv;
  cuhksz::List<T> cl;
  for (T x : v) cv.push(x), cl.push(x);
  container(cv, v, r, "Vector");
  container(cl, v, r, "List");
}
template <class T>
static void note(const vector<T>& v) {
  mc::Hash h;
  for (T x : v) h.add((i64)((ld)x * 16));
  mc::state(h.add(v.size()));
}

static void intData(const vector<int>& v, bool forms) {
  MC_OP("int data %s", mc::showAll(v).c_str());
  note(v);
  Ref r = refInt(v);
  vector<double> dv(v.begin(), v.end());
  Ref rd = r;
  pointerAll(dv, rd, "double array");
  pointer(dv, rd, "double array", true);
  if (forms) everyForm(dv, rd);
  vector<i64> lv(v.begin(), v.end());
  container(lv, lv, r, "std::vector<int64_t>");
  if (sumFits(v)) {
    mc::outcome("sum fits int");
    pointer(v, r, "int array", true);
    pointerAll(v, r, "int array");
    if (forms) everyForm(v, r);
    mapped(v);
  } else {
    mc::outcome("sum beyond int");
  }
}
MC_SCOPE(int_small) {
  int n = mc::range(1, mc::bound(7, 8));
  static const int V[] = {0, 1, -1, 2, 7, -10};
  vector<int> v(n);
  for (int& x : v) x = mc::pick(V);
  intData(v, n <= 4);
}
MC_SCOPE(int_binary) {
  int n = mc::range(1, mc::bound(14, 16));
  vector<int> v(n);
  for (int& x : v) x = mc::flip() ? 3 : -4;
  intData(v, false);
}
// extremes and data with a large common offset
MC_SCOPE(int_extreme) {
  int n = mc::range(1, mc::bound(5, 6));
  static const int V[] = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 0, 1, -1, 1000000000, -1000000001, 65536, 46341};
  vector<int> v(n);
  for (int& x : v) x = mc::pick(V);
  intData(v, n <= 2);
}
MC_SCOPE(int_offset) {
  static const int O[] = {1000000, 100000000, 500000000, -700000000, 30000, -1000003};
  int o = mc::pick(O), n = mc::range(2, mc::bound(7, 8));
  vector<int> v(n);
  for (int& x : v) x = o + mc::choose(3);
  intData(v, n <= 3);
}
MC_SCOPE(real_small) {
  int n = mc::range(1, mc::bound(5, 6));
  static const double V[] = {0.0, 0.1, -0.3, 1.5, 1e-3, -1e3, 1e15, 3.25, -0.0};
  vector<double> v(n);
  for (double& x : v) x = mc::pick(V);
  MC_OP("real data %s", mc::showAll(v).c_str());
  note(v);
  Ref r = refReal(v);
  everyForm(v, r);
  pointerAll(v, r, "double array");
  mapped(v);
  vector<float> f(v.begin(), v.end());
  Ref rf = refReal(f);
  pointer(f, rf, "float array", true);
}
MC_SCOPE(real_offset) {
  static const double O[] = {1e6, 1e8, -1e9, 1e12, 12345.678};
  static const double D[] = {0, 0.25, 1, -0.5};
  double o = mc::pick(O);
  int n = mc::range(2, mc::bound(8, 9));
  vector<double> v(n);
  for (double& x : v) x = o + mc::pick(D);
  MC_OP("real data %s", mc::showAll(v).c_str());
  note(v);
  Ref r = refReal(v);
  pointerAll(v, r, "double array");
  container(v, v, r, "std::vector");
}
// narrow element types: the sum has to fit, nothing else
template <class T>
static void narrow(std::initializer_list<int> V, int hi) {
  vector<int> val(V);
  int n = mc::range(1, hi);
  vector<T> v(n);
  for (T& x : v) x = (T)mc::pick(val);
  if (!sumFits(v)) return;
  vector<int> w(v.begin(), v.end());
  MC_OP("narrow data %s", mc::showAll(w).c_str());
  note(w);
  Ref r = refInt(v);
  pointer(v, r, "narrow array", false);
  container(v, v, r, "narrow vector");
  cuhksz::Vector<T> cv;
  for (T x : v) cv.push(x);
  container(cv, v, r, "narrow Vector");
}
MC_SCOPE(narrow_char) { narrow<signed char>({0, 1, -1, 100, 127, -128, -99, 64}, mc::bound(6, 7)); }
MC_SCOPE(narrow_short) { narrow<short>({0, 1, -3, 32767, -32768, 200, -20000}, mc::bound(6, 7)); }
MC_SCOPE(wide_int) {
  static const i64 V[] = {0, 1, -1, 4000000000000LL, -4000000000000LL, 5000000000LL, 1LL << 50};
  int n = mc::range(1, mc::bound(5, 6));
  vector<i64> v(n);
  for (i64& x : v) x = mc::pick(V);
  MC_OP("wide data %s", mc::showAll(v).c_str());
  note(v);
  Ref r = refInt(v);
  pointer(v, r, "wide array", false);
  container(v, v, r, "wide vector");
}
// only the first `size` elements count
MC_SCOPE(prefix) {
  int n = mc::range(0, 7), k = mc::range(0, n);
  int pat = mc::choose(4);
  vector<int> v(n);
  for (int i = 0; i < n; i++) v[i] = pat == 0 ? i : pat == 1 ? 1 << i : pat == 2 ? -i * i : (int)(mc::scramble(i, n) % 100);
  MC_OP("first %d of %d, pattern %d", k, n, pat);
  vector<int> w(v.begin(), v.begin() + k);
  note(w);
  vector<double> d(v.begin(), v.end());
  if (k == 0) {
    mc::ops(4);
    if (cuhksz::sum(v.data(), 0) != 0 || cuhksz::sum(d.data(), 0) != 0 || cuhksz::sum(v.data(), 0, [](int x) { return x; }) != 0 || cuhksz::sum(vector<int>()) != 0)
      mc::fail("sum:empty", "sum of nothing is not 0");
    return;
  }
  Ref r = refInt(w);
  judge(r, five((const int*)v.data(), k), 0, "prefix of ints");
  judge(r, five((const double*)d.data(), k), 0, "prefix of doubles");
  sumIs<int>(cuhksz::sum(v.data(), k), r, "prefix sum");
}
// documented: nothing is summed and every statistic is zero for a negative count
MC_SCOPE(negative_count) {
  static const int K[] = {-1, -2, -3, -7, -100, -65536, INT_MIN + 1, INT_MIN};
  int k = mc::pick(K), n = mc::range(0, 4);
  MC_OP("count %d on %d values", k, n);
  mc::state(mc::Hash().add(k).add(n));
  vector<int> v(n, 9);
  vector<double> d(n, -2.5);
  auto zero = [&](double x, const char* what) {
    mc::ops(1);
    if (!(x == 0)) mc::fail("negative", "%s of %d values is %g, not 0", what, k, x);
  };
  const int* a = v.data();
  const double* b = d.data();
  zero(cuhksz::sum(a, k), "sum"), zero(cuhksz::sum(b, k), "sum");
  zero(cuhksz::sum(a, k, [](int x) { return x + 1; }), "mapped sum"), zero(cuhksz::sum(b, k, [](double x) { return x + 1; }), "mapped sum");
  zero(cuhksz::mean(a, k), "mean"), zero(cuhksz::mean(b, k), "mean");
  zero(cuhksz::variance(a, k), "variance"), zero(cuhksz::variance(b, k), "variance");
  zero(cuhksz::stddev(a, k), "stddev"), zero(cuhksz::stddev(b, k), "stddev");
  if (k == INT_MIN) return;  // count - 1 is not representable
  zero(cuhksz::sample_variance(a, k), "sample variance"), zero(cuhksz::sample_variance(b, k), "sample variance");
  zero(cuhksz::sample_stddev(a, k), "sample stddev"), zero(cuhksz::sample_stddev(b, k), "sample stddev");
}
MC_SCOPE(sets) {
  unsigned m = mc::choose(255) + 1;
  std::set<int> s;
  cuhksz::Set<int> cs;
  vector<int> v;
  for (int i = 0; i < 8; i++) if (m >> i & 1) { int x = (i - 3) * 10 + i; s.insert(x); cs.insert(x); v.push_back(x); }
  MC_OP("set %s", mc::showAll(v).c_str());
  note(v);
  Ref r = refInt(v);
  container(s, v, r, "std::set");
  container(cs, v, r, "Set");
}
MC_SCOPE(ladder) {
  int n = mc::range(1, mc::bound(1500, 3000)), k = mc::choose(5);
  if (mc::flip()) n = n * 37 + 3;
  if (n == 40) n = 65536;
  if (n == 41) n = 70001;
  vector<int> v(n);
  for (int i = 0; i < n; i++)
    v[i] = k == 0 ? i : k == 1 ? -5 : k == 2 ? (i % 2 ? INT_MAX : -INT_MAX) : k == 3 ? 1000000 + i % 3 : (int)(mc::scramble(i, n) % 20001) - 10000;
  MC_OP("%d values of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k));
  Ref r = refInt(v);
  vector<double> d(v.begin(), v.end());
  pointerAll(d, r, "double array");
  container(d, d, r, "vector<double>");
  if (sumFits(v)) {
    pointerAll(v, r, "int array");
    pointer(v, r, "int array", true);
    container(v, v, r, "vector<int>");
  }
}
// counts that a float cannot represent
MC_SCOPE(beyond_float) {
  int n = 16777217 + 2 * mc::choose(2), k = mc::choose(4), third = 0;
  bool real = mc::flip();
  MC_OP("%d %s values, form %d", n, real ? "double" : "int", k);
  mc::state(mc::Hash().add(n).add(k).add(real));
  vector<int> iv;
  vector<double> dv;
  if (real) dv.resize(n); else iv.resize(n);
  for (int i = 0; i < n; i++) {
    bool one = i % 3 == 0;
    third += one;
    if (real) dv[i] = one; else iv[i] = one;
    if (i % 65536 == 0) mc::beat();
  }
  double p = (double)third / n, var = p * (1 - p), svar = var * n / (n - 1.0);
  auto near = [&](const char* what, double got, double want) {
    mc::ops(1);
    mc::beat();
    if (!(std::fabs(got - want) <= 2e-8 * std::fabs(want))) mc::fail("many", "%s of %d values gives %.17g, expected %.17g", what, n, got, want);
  };
  switch (k) {
    case 0:
      near("sum", real ? cuhksz::sum(dv.data(), n) : cuhksz::sum(iv.data(), n), third);
      near("mean", real ? cuhksz::mean(dv.data(), n) : cuhksz::mean(iv.data(), n), p);
      break;
    case 1:
      near("sum", real ? cuhksz::sum(dv) : cuhksz::sum(iv), third);
      near("mean", real ? cuhksz::mean(dv) : cuhksz::mean(iv), p);
      break;
    case 2:
      near("variance", real ? cuhksz::variance(dv.data(), n) : cuhksz::variance(iv.data(), n), var);
      near("sample variance", real ? cuhksz::sample_variance(dv.data(), n) : cuhksz::sample_variance(iv.data(), n), svar);
      near("stddev", real ? cuhksz::stddev(dv.data(), n) : cuhksz::stddev(iv.data(), n), std::sqrt(var));
      break;
    case 3:
      near("variance", real ? cuhksz::variance(dv) : cuhksz::variance(iv), var);
      near("sample variance", real ? cuhksz::sample_variance(dv) : cuhksz::sample_variance(iv), svar);
      near("sample stddev", real ? cuhksz::sample_stddev(dv) : cuhksz::sample_stddev(iv), std::sqrt(svar));
      break;
  }
}
