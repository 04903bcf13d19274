// modules: random
// flags: -include @VERIF@/lib/engine_shim.h
// libflags: -include @VERIF@/lib/engine_shim.h
// C28: every sampler driven through a complete lattice of engine outputs, its frequencies compared
// with the documented distribution (first draw, second draw and the pair); accessors; equal seeds.
#include "random/BernoulliDistribution.h"
#include "random/BinomialDistribution.h"
#include "random/ChiSquaredDistribution.h"
#include "random/ExponentialDistribution.h"
#include "random/GammaDistribution.h"
#include "random/GeometricDistribution.h"
#include "random/NegativeBinomialDistribution.h"
#include "random/NormalDistribution.h"
#include "random/PoissonDistribution.h"
#include "random/StudentTDistribution.h"
#include "random/UniformDistribution.h"
#include "random/UniformIntDistribution.h"

#include <algorithm>
#include <climits>
#include <cmath>
#include <functional>
#include <memory>
#include "engine.h"

using namespace cuhksz;
typedef uint64_t u64;

// ------------------------------------------------------------ reference distribution functions
static double gammaP(double a, double x) {  // regularised lower incomplete gamma
  if (x <= 0) return 0;
  double pre = std::exp(a * std::log(x) - x - std::lgamma(a));
  if (x < a + 1) {
    double term = 1 / a, sum = term;
    for (int n = 1; n < 100000 && term > sum * 1e-16; n++) sum += term *= x / (a + n);
    return sum * pre;
  }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
  for (int i = 1; i < 100000; i++) {
    double an = -i * (i - a);
    b += 2;
    d = an * d + b;
    if (std::fabs(d) < 1e-300) d = 1e-300;
    c = b + an / c;
    if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    double del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-15) break;
  }
  return 1 - pre * h;
}
static double betaI(double a, double b, double x) {  // regularised incomplete beta
  if (x <= 0) return 0;
  if (x >= 1) return 1;
  double pre = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) + a * std::log(x) + b * std::log1p(-x));
  if (x > (a + 1) / (a + b + 2)) return 1 - betaI(b, a, 1 - x);
  double c = 1, d = 1 - (a + b) * x / (a + 1);
  if (std::fabs(d) < 1e-300) d = 1e-300;
  d = 1 / d;
  double h = d;
  for (int m = 1; m < 100000; m++) {
    double aa = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m));
    d = 1 + aa * d, c = 1 + aa / c;
    if (std::fabs(d) < 1e-300) d = 1e-300;
    if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d, h *= d * c;
    aa = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1));
    d = 1 + aa * d, c = 1 + aa / c;
    if (std::fabs(d) < 1e-300) d = 1e-300;
    if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    h *= d * c;
    if (std::fabs(d * c - 1) < 1e-15) break;
  }
  return pre * h / a;
}
typedef std::function<double(double)> Cdf;  // P(X <= x)
static Cdf cGamma(double k, double t) { return [=](double x) { return gammaP(k, x / t); }; }
static Cdf cNormal(double m, double s) { return [=](double x) { return 0.5 * std::erfc(-(x - m) / s / std::sqrt(2.0)); }; }
static Cdf cUniform(double a, double b) { return [=](double x) { return x <= a ? 0 : x >= b ? 1 : (x - a) / (b - a); }; }
static Cdf cStudent(double r) {
  return [=](double x) {
    double p = 0.5 * betaI(r / 2, 0.5, r / (r + x * x));
    return x > 0 ? 1 - p : p;
  };
}
static Cdf cBinomial(int n, double p) { return [=](double x) { double k = std::floor(x); return k < 0 ? 0 : k >= n ? 1 : betaI(n - k, k + 1, 1 - p); }; }
static Cdf cNegBin(int r, double p) { return [=](double x) { return x < 0 ? 0 : betaI(r, std::floor(x) + 1, p); }; }
static Cdf cPoisson(double l) { return [=](double x) { return x < 0 ? 0 : 1 - gammaP(std::floor(x) + 1, l); }; }
static Cdf cBernoulli(double p) { return [=](double x) { return x < 0 ? 0 : x < 1 ? 1 - p : 1; }; }
static Cdf cUniformInt(int a, int b) { return [=](double x) { double k = std::floor(x) - a + 1, n = (double)b - a; return k <= 0 ? 0 : k >= n ? 1 : k / n; }; }

static double quantile(const Cdf& F, double q, bool integer) {
  double lo = -1e12, hi = 1e12;
  for (int i = 0; i < 200 && hi - lo > 1e-13 * std::max(std::fabs(lo), 1e-300); i++) {
    double m = lo / 2 + hi / 2;
    (F(m) >= q ? hi : lo) = m;
  }
  return integer ? std::ceil(hi - 1e-6) : hi;
}
// ------------------------------------------------------------ the comparison
struct Spec {
  std::string name;
  Cdf F;
  bool integer;
};
static double TOL() { return 0.008; }
// Averages of smooth functions of the probability transform U = F(X) (mid-distribution for integers):
// more sensitive than single probabilities to a wrong scale, shape or tail. The tolerances are eight
// standard errors of as many independent draws; a lattice is closer than that.
static void smooth(const Spec& s, const std::vector<double>& a, const std::vector<double>& b) {
  std::map<double, std::pair<double, double>> memo;  // value -> transform, probability
  auto U = [&](double x) {
    if (!s.integer) return s.F(x);
    auto it = memo.find(x);
    if (it != memo.end()) return it->second.first;
    double hi = s.F(x), lo = s.F(x - 1);
    memo[x] = std::make_pair((hi + lo) / 2, hi - lo);
    return (hi + lo) / 2;
  };
  size_t N = a.size();
  double m[2] = {}, q[2] = {}, l[2] = {}, r[2] = {}, c = 0;
  for (size_t i = 0; i < N; i++) {
    double u[2] = {U(a[i]), U(b[i])};
    for (int k = 0; k < 2; k++) {
      double z = u[k] - 0.5;
      m[k] += z, q[k] += z * z;
      l[k] += std::log(std::max(u[k], 1e-12)), r[k] += std::log(std::max(1 - u[k], 1e-12));
    }
    c += (u[0] - 0.5) * (u[1] - 0.5);
    if ((i & 1023) == 0) mc::beat();
  }
  double var = 1;
  for (auto& x : memo) var -= x.second.second * x.second.second * x.second.second;
  double err = 8 / std::sqrt((double)N);
  for (int k = 0; k < 2; k++) {
    auto say = [&](const char* what, double got, double want, double tol) {
      if (std::fabs(got - want) > tol) mc::fail("moment", "%s, draw %d: %s of the probability transform is %.6f over the lattice, should be %.6f", s.name.c_str(), k + 1, what, got, want);
    };
    say("mean", m[k] / N, 0, 0.289 * err);
    say("variance", q[k] / N, var / 12, 0.075 * err);
    if (!s.integer) {
      say("mean logarithm", l[k] / N, -1, err);
      say("mean logarithm of the complement", r[k] / N, -1, err);
    }
  }
  if (std::fabs(c / N) > 0.0834 * err) mc::fail("moment", "%s: successive draws are correlated by %.6f", s.name.c_str(), 12 * c / N);
}
template <class D> static void follow(D& d, const Spec& s) {
  u64 N = 1ULL << mc::bound(18, 20);
  MC_OP("%s through a lattice of %llu points", s.name.c_str(), (unsigned long long)N);
  std::vector<double> a(N), b(N);
  {
    eng::Lattice L;
    for (u64 i = 0; i < N; i++) {
      eng::Lattice::start(i);
      a[i] = d.next();
      b[i] = d.next();
      if ((i & 1023) == 0) mc::beat();
    }
  }
  mc::ops(2 * N);
  std::vector<double> cut;
  for (int i = 1; i < 64; i++) cut.push_back(quantile(s.F, i / 64.0, s.integer));
  if (s.integer) {  // also each of the values around the middle and both neighbours of the cuts
    std::vector<double> more = cut;
    for (double c : cut) more.push_back(c - 1), more.push_back(c + 1);
    cut.swap(more);
  }
  std::sort(cut.begin(), cut.end());
  cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
  for (int which = 0; which < 2; which++) {
    std::vector<double> v = which ? b : a;
    std::sort(v.begin(), v.end());
    double prevF = 0, prevO = 0, prevC = NAN;
    for (double c : cut) {
      double o = (double)(std::upper_bound(v.begin(), v.end(), c) - v.begin()) / N, f = s.F(c);
      mc::state(mc::Hash().add(s.name).add(which).add(c));
      if (std::fabs(o - f) > TOL()) mc::fail("cdf", "%s, draw %d: P(X <= %.9g) is %.5f over the lattice, should be %.5f", s.name.c_str(), which + 1, c, o, f);
      if (s.integer && prevC == c - 1 && std::fabs((o - prevO) - (f - prevF)) > 0.006)
        mc::fail("pmf", "%s, draw %d: P(X = %.0f) is %.5f over the lattice, should be %.5f", s.name.c_str(), which + 1, c, o - prevO, f - prevF);
      prevF = f, prevO = o, prevC = c;
    }
  }
  smooth(s, a, b);
  // pairs of successive draws are independent
  double Q[3], P[3];
  for (int i = 0; i < 3; i++) Q[i] = quantile(s.F, (i + 1) / 4.0, s.integer), P[i] = s.F(Q[i]);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      u64 n = 0;
      for (u64 k = 0; k < N; k++) n += a[k] <= Q[i] && b[k] <= Q[j];
      double o = (double)n / N, f = P[i] * P[j];
      if (std::fabs(o - f) > 0.015) mc::fail("pair", "%s: P(X1 <= %.9g, X2 <= %.9g) is %.5f, should be %.5f", s.name.c_str(), Q[i], Q[j], o, f);
    }
}
template <class D> static void follow(const char* f, D& d, Cdf F, bool integer, double x, double y = 0) {
  if (!eng::controlled()) return;
  char t[160];
  snprintf(t, sizeof t, f, x, y);
  follow(d, Spec{t, F, integer});
}
static void same(const char* what, double got, double want) {
  mc::ops(1);
  if (!(std::fabs(got - want) <= 1e-12 * std::fabs(want))) mc::fail("accessor", "%s reports %.17g, was given %.17g", what, got, want);
}
template <class D, class A> static void accessors(D& own, D& with, A check) {
  check(own);
  check(with);
  eng::Off off;
  for (int i = 0; i < 5; i++) {
    own.next(), with.next();
    check(own);
    check(with);
  }
  Random r(4);
  own.setRandomGenerator(r);
  own.next();
  check(own);
}
MC_SCOPE(bernoulli) {
  static const double Q[] = {0.0, 0.01, 0.1, 0.25, 1 / 3.0, 0.5, 0.75, 0.9, 0.99, 1};
  double p = mc::pick(Q);
  int dflt = p == 0.5 ? mc::choose(2) : 0;
  Random g(1);
  std::unique_ptr<BernoulliDistribution> d(dflt ? new BernoulliDistribution(g) : new BernoulliDistribution(g, p)), o(dflt ? new BernoulliDistribution() : new BernoulliDistribution(p));
  follow("Bernoulli(%g)", *d, cBernoulli(p), true, p);
  follow("Bernoulli(%g), own generator", *o, cBernoulli(p), true, p);
  accessors(*o, *d, [&](BernoulliDistribution& x) { same("p()", x.p(), p); });
}
MC_SCOPE(binomial) {
  static const int M[] = {0, 1, 2, 3, 4, 5, 7, 10, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 1000, 1500, 3000};
  static const double Q[] = {0.0, 0.001, 0.1, 0.3, 0.5, 0.6, 0.9, 0.999, 1};
  int n = mc::pick(M);
  double p = mc::pick(Q);
  int dflt = p == 0.5 ? mc::choose(2) : 0;
  Random g(1);
  std::unique_ptr<BinomialDistribution> d(dflt ? new BinomialDistribution(g, n) : new BinomialDistribution(g, n, p)), o(dflt ? new BinomialDistribution(n) : new BinomialDistribution(n, p));
  follow("Binomial(%g,%g)", *d, cBinomial(n, p), true, n, p);
  accessors(*o, *d, [&](BinomialDistribution& x) { same("p()", x.p(), p); same("n()", x.n(), n); });
}
MC_SCOPE(negbinomial) {
  static const int M[] = {1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 32, 33, 40, 100, 1000, 2500};
  static const double Q[] = {0.01, 0.1, 0.3, 0.5, 0.7, 0.95, 1};
  int r = mc::pick(M);
  double p = mc::pick(Q);
  int dflt = p == 0.5 ? mc::choose(2) : 0;
  if (r > 4000 * p) return;
  Random g(1);
  std::unique_ptr<NegativeBinomialDistribution> d(dflt ? new NegativeBinomialDistribution(g, r) : new NegativeBinomialDistribution(g, r, p)), o(dflt ? new NegativeBinomialDistribution(r) : new NegativeBinomialDistribution(r, p));
  follow("NegativeBinomial(%g,%g)", *d, cNegBin(r, p), true, r, p);
  accessors(*o, *d, [&](NegativeBinomialDistribution& x) { same("p()", x.p(), p); same("r()", x.r(), r); });
}
MC_SCOPE(geometric) {
  static const double Q[] = {0.003, 0.05, 0.1, 0.3, 0.5, 0.7, 0.95, 1};
  double p = mc::pick(Q);
  int dflt = p == 0.5 ? mc::choose(2) : 0;
  Random g(1);
  std::unique_ptr<GeometricDistribution> d(dflt ? new GeometricDistribution(g) : new GeometricDistribution(g, p)), o(dflt ? new GeometricDistribution() : new GeometricDistribution(p));
  follow("Geometric(%g)", *d, cNegBin(1, p), true, p);
  accessors(*o, *d, [&](GeometricDistribution& x) { same("p()", x.p(), p); });
}
MC_SCOPE(poisson) {
  static const double Q[] = {1e-9, 0.05, 0.5, 1, 2, 2.5, 3, 4, 5, 7, 10, 12, 15.5, 20, 29, 30, 31, 33.3, 50, 64, 100, 200, 400, 499, 500, 501, 750, 999.5, 1200, 1498.5, 2245.7, 3000};
  double l = mc::pick(Q);
  Random g(1);
  PoissonDistribution d(g, l), o(l);
  follow("Poisson(%g)", d, cPoisson(l), true, l);
  accessors(o, d, [&](PoissonDistribution& x) { same("lambda()", x.lambda(), l); });
}
MC_SCOPE(uniform) {
  static const double A[] = {-1000, -1, 0, 0.25, 1, 1e6};
  double a = mc::pick(A), b = mc::pick(A);
  if (!(a < b)) return;
  int form = a == 0 ? (b == 1 ? mc::choose(3) : mc::choose(2)) : 0;
  Random g(1);
  std::unique_ptr<UniformDistribution> d(form == 0 ? new UniformDistribution(g, a, b) : form == 1 ? new UniformDistribution(g, b) : new UniformDistribution(g));
  std::unique_ptr<UniformDistribution> o(form == 0 ? new UniformDistribution(a, b) : form == 1 ? new UniformDistribution(b) : new UniformDistribution());
  follow("Uniform(%g,%g)", *d, cUniform(a, b), false, a, b);
  accessors(*o, *d, [&](UniformDistribution& x) { same("min()", x.min(), a); same("max()", x.max(), b); });
}
MC_SCOPE(uniformint) {
  static const int A[] = {INT_MIN, -1000, -1, 0, 1, 2, 7, 1000, INT_MAX};
  int a = mc::pick(A), b = mc::pick(A);
  if (!(a < b)) return;
  int form = a == 0 ? mc::choose(2) : 0;
  Random g(1);
  std::unique_ptr<UniformIntDistribution> d(form == 0 ? new UniformIntDistribution(g, a, b) : new UniformIntDistribution(g, b));
  std::unique_ptr<UniformIntDistribution> o(form == 0 ? new UniformIntDistribution(a, b) : new UniformIntDistribution(b));
  follow("UniformInt(%g,%g)", *d, cUniformInt(a, b), true, a, b);
  accessors(*o, *d, [&](UniformIntDistribution& x) { same("min()", x.min(), a); same("max()", x.max(), b); });
}
MC_SCOPE(normal) {
  static const double A[] = {-1000, -1, 0, 0.25, 1e6}, S[] = {0.001, 0.5, 1, 3, 1e4};
  double m = mc::pick(A), s = mc::pick(S);
  int form = s == 1 ? (m == 0 ? mc::choose(3) : mc::choose(2)) : 0;
  Random g(1);
  std::unique_ptr<NormalDistribution> d(form == 0 ? new NormalDistribution(g, m, s) : form == 1 ? new NormalDistribution(g, m) : new NormalDistribution(g));
  std::unique_ptr<NormalDistribution> o(form == 0 ? new NormalDistribution(m, s) : form == 1 ? new NormalDistribution(m) : new NormalDistribution());
  follow("Normal(%g,%g)", *d, cNormal(m, s), false, m, s);
  accessors(*o, *d, [&](NormalDistribution& x) { same("mean()", x.mean(), m); same("stddev()", x.stddev(), s); });
}
MC_SCOPE(gamma_shapes) {
  static const double A[] = {0.1, 0.3, 0.5, 0.9, 1, 1.1, 1.5, 1.9, 2, 2.7, 3, 3.25, 3.95, 4, 4.5, 5, 5.5, 6.25, 8, 9, 10, 12.5, 16, 20, 20.75, 30, 33.5, 40, 64, 100.25}, T[] = {1e-3, 0.5, 1, 2, 1000};
  double k = mc::pick(A), t = mc::pick(T);
  Random g(1);
  GammaDistribution d(g, k, t), o(k, t);
  follow("Gamma(%g,%g)", d, cGamma(k, t), false, k, t);
  accessors(o, d, [&](GammaDistribution& x) { same("k()", x.k(), k); same("theta()", x.theta(), t); });
}
MC_SCOPE(exponential) {
  static const double A[] = {0.001, 0.01, 0.1, 0.25, 0.5, 0.9, 1, 1.5, 2, 3, 5, 7, 10, 20, 49, 100, 1000};
  double l = mc::pick(A);
  Random g(1);
  ExponentialDistribution d(g, l), o(l);
  follow("Exponential(%g)", d, cGamma(1, 1 / l), false, l);
  accessors(o, d, [&](ExponentialDistribution& x) { same("lambda()", x.lambda(), l); });
}
MC_SCOPE(chisquared) {
  static const double A[] = {0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 7.5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 30, 31, 32, 33, 34, 40, 51, 60, 100};
  double r = mc::pick(A);
  Random g(1);
  ChiSquaredDistribution d(g, r), o(r);
  follow("ChiSquared(%g)", d, cGamma(r / 2, 2), false, r);
  accessors(o, d, [&](ChiSquaredDistribution& x) { same("r()", x.r(), r); });
}
MC_SCOPE(student) {
  static const double A[] = {0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 7.5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 30, 31, 32, 33, 34, 40, 51, 60, 100};
  double r = mc::pick(A);
  Random g(1);
  StudentTDistribution d(g, r), o(r);
  follow("StudentT(%g)", d, cStudent(r), false, r);
  accessors(o, d, [&](StudentTDistribution& x) { same("r()", x.r(), r); });
}
// ------------------------------------------------------------ equal seeds, equal sequences
struct Any {
  std::function<double()> next;
  std::function<void(Random&)> use;
};
template <class D> static Any any(std::shared_ptr<D> d) {
  return Any{[d] { return (double)d->next(); }, [d](Random& r) { d->setRandomGenerator(r); }};
}
static const int KINDS = 12;
static Any make(int k, Random* r) {
#define MK(D, ...) return r ? any(std::make_shared<D>(*r, __VA_ARGS__)) : any(std::make_shared<D>(__VA_ARGS__))
  switch (k) {
    case 0: MK(BernoulliDistribution, 0.3);
    case 1: MK(BinomialDistribution, 9, 0.3);
    case 2: MK(NegativeBinomialDistribution, 4, 0.3);
    case 3: MK(GeometricDistribution, 0.3);
    case 4: MK(PoissonDistribution, 3.5);
    case 5: MK(UniformDistribution, -2.5, 4.0);
    case 6: MK(UniformIntDistribution, -20, 1000);
    case 7: MK(NormalDistribution, 1.0, 2.0);
    case 8: MK(GammaDistribution, 2.5, 2.0);
    case 9: MK(ExponentialDistribution, 2.0);
    case 10: MK(ChiSquaredDistribution, 3.0);
    default: MK(StudentTDistribution, 3.0);
  }
}
// two samplers sharing a generator, against two others on an equally seeded one; each sampler is
// built on the generator, or on its own and given the generator before its first draw
MC_SCOPE(equal_sequences) {
  eng::Off off;
  static const int SEEDS[] = {1, -7, 20170508};
  int seed = mc::pick(SEEDS), k1 = mc::choose(KINDS), k2 = mc::choose(KINDS), late = mc::choose(3);
  Random a(seed), b(seed), noise(99);
  Any x1 = make(k1, &a), x2 = make(k2, &a);
  Any y1 = make(k1, late == 0 ? &b : late == 1 ? nullptr : &noise), y2 = make(k2, late == 0 ? &b : late == 1 ? nullptr : &noise);
  if (late) y1.use(b), y2.use(b);
  Any z = make(k1, &noise);
  MC_OP("samplers %d and %d, seed %d, generator %s", k1, k2, seed, late ? "set later" : "from the start");
  int n = mc::bound(6, 9);
  mc::Hash h;
  h.add(seed).add(k1).add(k2).add(late);
  std::vector<double> v;
  std::vector<int> w;
  for (int i = 0; i < n; i++) {
    int s = mc::choose(2);
    MC_OP("draw from sampler %d", s + 1);
    w.push_back(s);
    v.push_back((s ? x2 : x1).next());
    mc::state(h.add(s));
  }
  for (int i = 0; i < n; i++) {
    z.next();
    double g = (w[i] ? y2 : y1).next();
    mc::ops(1);
    if (g != v[i]) mc::fail("sequence", "draw %d: %.17g and %.17g from equally seeded generators", i, v[i], g);
  }
}
// what the library's generator gives is what its sampler uses: changing the seed changes the draws
MC_SCOPE(seed_matters) {
  eng::Off off;
  int k = mc::choose(KINDS), form = mc::choose(2);
  MC_OP("sampler %d on two seeds", k);
  mc::state(mc::Hash().add(k).add(form));
  Random a(1), b(2);
  Any x = make(k, &a), y = make(k, form ? nullptr : &b);
  int differ = 0;
  for (int i = 0; i < 400; i++) differ += x.next() != y.next();
  mc::ops(400);
  if (!differ) mc::fail("sequence", "differently seeded generators give the same 400 draws");
  // after switching to an equally seeded generator the draws of a fresh sampler agree
  Random c(5), d(5);
  Any u = make(k, nullptr), v = make(k, &d);
  u.use(c);
  for (int i = 0; i < 400; i++) if (u.next() != v.next()) mc::fail("sequence", "draw %d differs after setRandomGenerator", i);
}
