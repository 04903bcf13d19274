// modules: random
// flags: -include @VERIF@/lib/engine_shim.h
// libflags: -include @VERIF@/lib/engine_shim.h
// C27: parameter validation on boundary grids; every sequence of extreme engine words in front of
// an ordinary stream must give a finite value of the support within a call budget.
#include "random/BernoulliDistribution.h"
#include "random/BinomialDistribution.h"
#include "random/ChiSquaredDistribution.h"
#include "random/ExponentialDistribution.h"
#include "random/GammaDistribution.h"
#include "random/GeometricDistribution.h"
#include "random/NegativeBinomialDistribution.h"
#include "random/NormalDistribution.h"
#include "random/PoissonDistribution.h"
#include "random/StudentTDistribution.h"
#include "random/UniformDistribution.h"
#include "random/UniformIntDistribution.h"

#include <cfloat>
#include <climits>
#include <cmath>
#include <functional>
#include "engine.h"

using namespace cuhksz;
static std::string label(const char* f, double a, double b = 0) {
  char t[160];
  snprintf(t, sizeof t, f, a, b);
  return t;
}
typedef uint64_t u64;

static const double P[] = {-1e300, -1, -0.5, -DBL_EPSILON, -DBL_MIN, -0.0, 0.0, DBL_MIN, 1e-9, 0.25, 0.5, 1 - DBL_EPSILON, 1, 1 + DBL_EPSILON, 1.5, 2, 100, 1e300};
static const double SHAPE[] = {-DBL_MAX, -1e6, -1, -0.5, -DBL_MIN, -0.0, 0.0, DBL_MIN, 1e-6, 0.5, 1, 1.5, 2, 100, 12345.678, 1e6, 1e300};
static const int N[] = {INT_MIN, -1000, -2, -1, 0, 1, 2, 3, 30, 1000};
static const int R[] = {INT_MIN, -1000, -2, -1, 0, 1, 2, 3, 30, 1000, 1000000, INT_MAX};

// a constructor must succeed, or end the program, in both of its forms
template <class A, class B> static void param(bool valid, const char* what, A own, B with) {
  mc::ops(2);
  mc::outcome(valid ? "accepted" : "refused");
  if (valid) {
    mc::mustLive("param:refused", what, own);
    mc::mustLive("param:refused", what, with);
  } else {
    mc::mustDie("param:accepted", what, own);
    mc::mustDie("param:accepted", what, with);
  }
}
MC_SCOPE(param_probability) {
  double p = mc::pick(P);
  int k = mc::choose(2);
  MC_OP("%s with p = %.17g", k ? "Geometric" : "Bernoulli", p);
  mc::state(mc::Hash().add(p).add(k));
  Random g(1);
  if (k == 0) param(p >= 0 && p <= 1, "BernoulliDistribution", [&] { BernoulliDistribution d(p); }, [&] { BernoulliDistribution d(g, p); });
  else param(p > 0 && p <= 1, "GeometricDistribution", [&] { GeometricDistribution d(p); }, [&] { GeometricDistribution d(g, p); });
}
MC_SCOPE(param_binomial) {
  int n = mc::pick(N);
  double p = mc::pick(P);
  MC_OP("Binomial(%d,%.17g)", n, p);
  mc::state(mc::Hash().add(n).add(p));
  Random g(1);
  param(n >= 0 && p >= 0 && p <= 1, "BinomialDistribution", [&] { BinomialDistribution d(n, p); }, [&] { BinomialDistribution d(g, n, p); });
  if (p == 0.5) param(n >= 0, "BinomialDistribution(n)", [&] { BinomialDistribution d(n); }, [&] { BinomialDistribution d(g, n); });
}
MC_SCOPE(param_negbinomial) {
  int r = mc::pick(R);
  double p = mc::pick(P);
  MC_OP("NegativeBinomial(%d,%.17g)", r, p);
  mc::state(mc::Hash().add(r).add(p));
  Random g(1);
  param(r > 0 && p > 0 && p <= 1, "NegativeBinomialDistribution", [&] { NegativeBinomialDistribution d(r, p); }, [&] { NegativeBinomialDistribution d(g, r, p); });
  if (p == 0.5) param(r > 0, "NegativeBinomialDistribution(r)", [&] { NegativeBinomialDistribution d(r); }, [&] { NegativeBinomialDistribution d(g, r); });
}
MC_SCOPE(param_shape) {
  double a = mc::pick(SHAPE);
  int k = mc::choose(4);
  MC_OP("distribution %d with parameter %.17g", k, a);
  mc::state(mc::Hash().add(a).add(k));
  if (a > 1e6 && k == 0) return;
  Random g(1);
  switch (k) {
    case 0: param(a > 0, "PoissonDistribution", [&] { PoissonDistribution d(a); }, [&] { PoissonDistribution d(g, a); }); break;
    case 1: if (a != DBL_MIN) param(a > 0, "ExponentialDistribution", [&] { ExponentialDistribution d(a); }, [&] { ExponentialDistribution d(g, a); }); break;
    case 2: if (a != DBL_MIN) param(a > 0, "ChiSquaredDistribution", [&] { ChiSquaredDistribution d(a); }, [&] { ChiSquaredDistribution d(g, a); }); break;
    case 3: param(a > 0, "StudentTDistribution", [&] { StudentTDistribution d(a); }, [&] { StudentTDistribution d(g, a); }); break;
  }
}
MC_SCOPE(param_gamma) {
  double a = mc::pick(SHAPE), t = mc::pick(SHAPE);
  MC_OP("Gamma(%.17g,%.17g)", a, t);
  mc::state(mc::Hash().add(a).add(t));
  Random g(1);
  param(a > 0 && t > 0, "GammaDistribution", [&] { GammaDistribution d(a, t); }, [&] { GammaDistribution d(g, a, t); });
}
MC_SCOPE(param_normal) {
  double m = mc::pick(SHAPE), s = mc::pick(SHAPE);
  MC_OP("Normal(%.17g,%.17g)", m, s);
  mc::state(mc::Hash().add(m).add(s));
  Random g(1);
  param(s > 0, "NormalDistribution", [&] { NormalDistribution d(m, s); }, [&] { NormalDistribution d(g, m, s); });
  if (s == 1) param(true, "NormalDistribution(mean)", [&] { NormalDistribution d(m); }, [&] { NormalDistribution d(g, m); });
  if (s == 1) param(true, "NormalDistribution()", [&] { NormalDistribution d; }, [&] { NormalDistribution d(g); });
}
MC_SCOPE(param_uniform) {
  double a = mc::pick(SHAPE), b = mc::pick(SHAPE);
  MC_OP("Uniform(%.17g,%.17g)", a, b);
  mc::state(mc::Hash().add(a).add(b));
  Random g(1);
  param(a <= b, "UniformDistribution", [&] { UniformDistribution d(a, b); }, [&] { UniformDistribution d(g, a, b); });
  if (a == 0) param(b >= 0, "UniformDistribution(max)", [&] { UniformDistribution d(b); }, [&] { UniformDistribution d(g, b); });
}
MC_SCOPE(param_uniformint) {
  int a = mc::pick(R), b = mc::pick(R);
  MC_OP("UniformInt(%d,%d)", a, b);
  mc::state(mc::Hash().add(a).add(b));
  Random g(1);
  param(a < b, "UniformIntDistribution", [&] { UniformIntDistribution d(a, b); }, [&] { UniformIntDistribution d(g, a, b); });
  if (a == 0) param(b > 0, "UniformIntDistribution(max)", [&] { UniformIntDistribution d(b); }, [&] { UniformIntDistribution d(g, b); });
}
// ------------------------------------------------------------ support and termination
static const u64 E[] = {0, ~0ULL, 1ULL << 63, (1ULL << 63) - 1, ~0ULL << 11, 1, 1ULL << 62, 1ULL << 11};
// the words: every sequence over E up to length k; `draws` samples in a row
template <class D> static void extreme(D& d, const char* name, double lo, double hi, bool integer, bool hiOpen, int k, u64 cap = 400000) {
  if (!eng::controlled()) return;
  std::vector<u64> w;
  mc::Hash h;
  h.add(std::string(name));
  int len = mc::range(1, k);
  for (int i = 0; i < len; i++) {
    int e = mc::choose((int)(sizeof E / sizeof *E));
    w.push_back(E[e]);
    h.add(e);
  }
  std::string t;
  for (u64 x : w) { char b[32]; snprintf(b, sizeof b, " %llx", (unsigned long long)x); t += b; }
  MC_OP("%s on engine words%s", name, t.c_str());
  mc::state(h);
  eng::Script s(w, 1, cap);
  for (int i = 0; i < 3; i++) {
    double v = d.next();
    mc::ops(1);
    mc::beat();
    if (!std::isfinite(v)) mc::fail("support:finite", "%s sample %d is %g", name, i, v);
    if (v < lo || v > hi || (hiOpen && v == hi)) mc::fail("support:range", "%s sample %d is %.17g, outside its support", name, i, v);
    if (integer && v != std::floor(v)) mc::fail("support:range", "%s sample is not an integer", name);
    mc::outcome(v == lo ? "low end" : v == hi ? "high end" : "inside");
  }
}
static const double INF = INFINITY;
MC_SCOPE(draw_bernoulli) {
  static const double Q[] = {0.0, DBL_MIN, 1e-9, 0.5, 1 - DBL_EPSILON, 1};
  double p = mc::pick(Q);
  Random g(1);
  BernoulliDistribution d(g, p);
  double lo = p == 1 ? 1 : 0, hi = p == 0 ? 0 : 1;
  extreme(d, label("Bernoulli(%.17g)", p).c_str(), lo, hi, true, false, mc::bound(4, 4));
}
MC_SCOPE(draw_binomial) {
  static const int M[] = {0, 1, 2, 10, 100, 1000, 5000};
  static const double Q[] = {0.0, 1e-9, 0.001, 0.5, 0.999, 1 - DBL_EPSILON, 1};
  int n = mc::pick(M);
  double p = mc::pick(Q);
  Random g(1);
  BinomialDistribution d(g, n, p);
  extreme(d, label("Binomial(%g,%.17g)", n, p).c_str(), p == 1 ? n : 0, p == 0 ? 0 : n, true, false, mc::bound(4, 4));
}
MC_SCOPE(draw_negbinomial) {
  static const int M[] = {1, 2, 10, 100, 1000, 20000};
  static const double Q[] = {0.001, 0.1, 0.5, 0.9, 0.999, 1 - DBL_EPSILON, 1};
  int n = mc::pick(M);
  double p = mc::pick(Q);
  if (n > 1000 * p * 20) return;
  Random g(1);
  NegativeBinomialDistribution d(g, n, p);
  extreme(d, label("NegativeBinomial(%g,%.17g)", n, p).c_str(), 0, p == 1 ? 0 : INT_MAX, true, false, mc::bound(4, 4));
}
MC_SCOPE(draw_geometric) {
  static const double Q[] = {1e-5, 0.001, 0.1, 0.5, 0.9, 1 - DBL_EPSILON, 1};
  double p = mc::pick(Q);
  Random g(1);
  GeometricDistribution d(g, p);
  extreme(d, label("Geometric(%.17g)", p).c_str(), 0, p == 1 ? 0 : INT_MAX, true, false, mc::bound(4, 4));
}
MC_SCOPE(draw_poisson) {
  static const double Q[] = {DBL_MIN, 1e-9, 0.1, 1, 10, 499.5, 500, 501, 745.5, 1000, 20000};
  double p = mc::pick(Q);
  Random g(1);
  PoissonDistribution d(g, p);
  extreme(d, label("Poisson(%.17g)", p).c_str(), 0, INT_MAX, true, false, mc::bound(4, 4));
}
MC_SCOPE(draw_uniform) {
  static const double A[] = {-1e300, -1, 0, 0.1, 1e300};
  double a = mc::pick(A), b = mc::pick(A);
  if (a > b) return;
  Random g(1);
  UniformDistribution d(g, a, b);
  extreme(d, label("Uniform(%.17g,%.17g)", a, b).c_str(), a, b, false, a < b, mc::bound(4, 4));
}
MC_SCOPE(draw_uniformint) {
  static const int A[] = {INT_MIN, -1, 0, 1, 10, INT_MAX};
  int a = mc::pick(A), b = mc::pick(A);
  if (a >= b) return;
  Random g(1);
  UniformIntDistribution d(g, a, b);
  extreme(d, label("UniformInt(%.0f,%.0f)", a, b).c_str(), a, b, true, true, mc::bound(4, 4));
}
MC_SCOPE(draw_normal) {
  static const double A[] = {-1e9, 0, 1, 1e100}, S[] = {1e-9, 1, 1e9, 1e100};
  double a = mc::pick(A), b = mc::pick(S);
  Random g(1);
  NormalDistribution d(g, a, b);
  extreme(d, label("Normal(%.17g,%.17g)", a, b).c_str(), -INF, INF, false, false, mc::bound(6, 6));
}
MC_SCOPE(draw_gamma) {
  static const double A[] = {1e-6, 0.01, 0.5, 1 - DBL_EPSILON, 1, 1 + DBL_EPSILON, 1.5, 2, 3.75, 100.5}, T[] = {1e-300, 1, 1e300};
  double a = mc::pick(A), b = mc::pick(T);
  Random g(1);
  GammaDistribution d(g, a, b);
  extreme(d, label("Gamma(%.17g,%.17g)", a, b).c_str(), 0, INF, false, true, mc::bound(6, 6));
}
MC_SCOPE(draw_exponential) {
  static const double A[] = {1e-300, 1e-3, 1, 2.5, 1e6, 1e300};
  double a = mc::pick(A);
  Random g(1);
  ExponentialDistribution d(g, a);
  extreme(d, label("Exponential(%.17g)", a).c_str(), 0, INF, false, true, mc::bound(6, 6));
}
MC_SCOPE(draw_chisquared) {
  static const double A[] = {1e-3, 0.5, 1, 2, 3, 7.5, 100};
  double a = mc::pick(A);
  Random g(1);
  ChiSquaredDistribution d(g, a);
  extreme(d, label("ChiSquared(%.17g)", a).c_str(), 0, INF, false, true, mc::bound(6, 6));
}
MC_SCOPE(draw_student) {
  static const double A[] = {1e-2, 0.5, 1, 2, 3, 7.5, 100};
  double a = mc::pick(A);
  Random g(1);
  StudentTDistribution d(g, a);
  extreme(d, label("StudentT(%.17g)", a).c_str(), -INF, INF, false, false, mc::bound(6, 6));
}
// very large but still ordinary parameters: a few words only
MC_SCOPE(draw_large) {
  int k = mc::choose(6);
  Random g(1);
  switch (k) {
    case 0: { PoissonDistribution d(g, 1e6); extreme(d, "Poisson(1e6)", 0, INT_MAX, true, false, 1); break; }
    case 1: { GeometricDistribution d(g, 1e-6); extreme(d, "Geometric(1e-6)", 0, INT_MAX, true, false, 1); break; }
    case 2: { NegativeBinomialDistribution d(g, 1000000, 0.5); extreme(d, "NegativeBinomial(1e6,0.5)", 0, INT_MAX, true, false, 1); break; }
    case 3: { GammaDistribution d(g, 100000.5, 2); extreme(d, "Gamma(100000.5,2)", 0, INF, false, true, 2, 2000000); break; }
    case 4: { BinomialDistribution d(g, 1000000, 0.25); extreme(d, "Binomial(1e6,0.25)", 0, 1000000, true, false, 1); break; }
    case 5: { StudentTDistribution d(g, 20001); extreme(d, "StudentT(20001)", -INF, INF, false, false, 2, 2000000); break; }
  }
}
// samplers that own their generator, or are given another one, release and keep what they should
MC_SCOPE_LEAK(ownership) {
  eng::Off off;
  { Random warm(1); warm.nextInt(); }
  mc::g().noLeak = true;
  Random a(1), b(2);
  int own = mc::choose(2), n = mc::range(0, 4), kind = mc::choose(4);
  MC_OP("sampler %d, %s generator", kind, own ? "its own" : "a given");
  mc::Hash h;
  h.add(own).add(kind);
  auto run = [&](auto& d) {
    for (int i = 0; i < n; i++) {
      int op = mc::choose(3);
      MC_OP(op == 0 ? "draw" : op == 1 ? "use generator a" : "use generator b");
      if (op == 0) d.next();
      else d.setRandomGenerator(op == 1 ? a : b);
      mc::ops(1);
      mc::state(h.add(op));
    }
  };
  switch (kind * 2 + own) {
    case 0: { NormalDistribution d(a, 1, 2); run(d); break; }
    case 1: { NormalDistribution d(1, 2); run(d); break; }
    case 2: { BinomialDistribution d(a, 5, 0.5); run(d); break; }
    case 3: { BinomialDistribution d(5, 0.5); run(d); break; }
    case 4: { StudentTDistribution d(a, 2); run(d); break; }
    case 5: { StudentTDistribution d(2); run(d); break; }
    case 6: { GeometricDistribution d(a, 0.5); run(d); break; }
    case 7: { GeometricDistribution d(0.5); run(d); break; }
  }
  a.nextInt();
  b.nextInt();
}
