// modules: random
// flags: -include @VERIF@/lib/engine_shim.h
// libflags: -include @VERIF@/lib/engine_shim.h
// C26: Random and the convenience functions under an engine whose every output the harness
// chooses (extreme words, an equidistributed lattice) and under the standard engine (sequences).
#include "random/Random.h"
#include "random/random_functions.h"

#include <cfloat>
#include <climits>
#include <cmath>
#include "engine.h"

using cuhksz::Random;
using std::string;
typedef int64_t i64;
typedef uint64_t u64;

static const int INTS[] = {INT_MIN, INT_MIN + 1, -1000000, -65536, -3, -1, 0, 1, 2, 3, 7, 10, 100, 65536, 1000003, 1 << 30, INT_MAX - 1, INT_MAX};
static const double REALS[] = {-DBL_MAX, -1e300, -1e17, -2.5, -1, -1e-9, -DBL_MIN, -0.0, 0.0, 5e-324, DBL_MIN, 1e-9, 0.1, 1, 1.0000000000000002, 3, 1e6, 1e17, 1e300, DBL_MAX};

static void inRange(i64 v, i64 lo, i64 hi, const char* what) {
  mc::ops(1);
  if (v < lo || v >= hi) mc::fail("range:int", "%s gives %lld outside [%lld,%lld)", what, (long long)v, (long long)lo, (long long)hi);
}
static void inRangeD(double v, double lo, double hi, const char* what) {
  mc::ops(1);
  bool ok = lo == hi ? v == lo : v >= lo && v < hi;
  if (!ok) mc::fail("range:real", "%s gives %.17g outside [%.17g,%.17g)", what, v, lo, hi);
}

// every kind of call, one engine word at the front (or two)
MC_SCOPE(int_range) {
  if (!eng::controlled()) return;
  int lo = mc::pick(INTS), hi = mc::pick(INTS);
  Random r(5);
  MC_OP("nextInt(%d,%d)", lo, hi);
  mc::state(mc::Hash().add(lo).add(hi));
  if (hi <= lo) {
    mc::outcome("empty");
    mc::mustDie("empty:int", "nextInt with an empty range", [&] { r.nextInt(lo, hi); });
    mc::mustDie("empty:int", "randomInt with an empty range", [&] { cuhksz::randomInt(lo, hi); });
    if (lo == 0) {
      mc::mustDie("empty:int", "nextInt(max) with an empty range", [&] { r.nextInt(hi); });
      mc::mustDie("empty:int", "randomInt(max) with an empty range", [&] { cuhksz::randomInt(hi); });
    }
    return;
  }
  mc::outcome("valid");
  u64 n = (u64)((i64)hi - lo);
  std::vector<u64> W = eng::extremes();
  const u64 ALL = ~(u64)0;
  for (u64 k : {n - 1, n, n + 1, 2 * n - 1, 2 * n, ALL / n * n - 1, ALL / n * n, ALL - (ALL % n), ALL / n, ALL - ALL / n}) W.push_back(k);
  for (int sh : {8, 11, 12, 16, 31, 32}) for (u64 k : {n - 1, n}) W.push_back(k << sh);
  bool first = false, last = false;
  for (u64 w : W) {
    i64 v;
    { eng::Script s({w}); v = r.nextInt(lo, hi); }
    inRange(v, lo, hi, "nextInt(min,max)");
    first |= v == lo, last |= v == (i64)hi - 1;
    { eng::Script s({w}); inRange(cuhksz::randomInt(lo, hi), lo, hi, "randomInt(min,max)"); }
    if (lo == 0) {
      { eng::Script s({w}); inRange(r.nextInt(hi), 0, hi, "nextInt(max)"); }
      { eng::Script s({w}); inRange(cuhksz::randomInt(hi), 0, hi, "randomInt(max)"); }
    }
    mc::state(mc::Hash().add(lo).add(hi).add(w));
  }
  if (!first || !last) mc::fail("reach:int", "nextInt(%d,%d) never gave its %s value on any extreme engine output", lo, hi, first ? "last" : "first");
}
MC_SCOPE(int_all) {
  if (!eng::controlled()) return;
  bool lo = false, hi = false, lo2 = false, hi2 = false;
  MC_OP("nextInt() and randomInt() on every extreme word");
  Random r(3);
  for (u64 w : eng::extremes()) {
    int v, u;
    { eng::Script s({w}); v = r.nextInt(); }
    { eng::Script s({w}); u = cuhksz::randomInt(); }
    mc::ops(2);
    mc::state(mc::Hash().add(w));
    lo |= v == INT_MIN, hi |= v == INT_MAX, lo2 |= u == INT_MIN, hi2 |= u == INT_MAX;
  }
  if (!lo || !hi || !lo2 || !hi2) mc::fail("reach:all", "nextInt() or randomInt() does not reach both ends of int");
}
MC_SCOPE(real_range) {
  if (!eng::controlled()) return;
  double lo = mc::pick(REALS), hi = mc::pick(REALS);
  Random r(5);
  MC_OP("nextDouble(%.17g,%.17g)", lo, hi);
  mc::state(mc::Hash().add(lo).add(hi));
  if (hi < lo) {
    mc::outcome("reversed");
    mc::mustDie("reversed:real", "nextDouble with a reversed range", [&] { r.nextDouble(lo, hi); });
    mc::mustDie("reversed:real", "randomDouble with a reversed range", [&] { cuhksz::randomDouble(lo, hi); });
    if (lo == 0) {
      mc::mustDie("reversed:real", "nextDouble(max) negative", [&] { r.nextDouble(hi); });
      mc::mustDie("reversed:real", "randomDouble(max) negative", [&] { cuhksz::randomDouble(hi); });
    }
    return;
  }
  mc::outcome(lo == hi ? "single" : "valid");
  std::vector<u64> W = eng::extremes();
  for (int k = 0; k < 64; k++) W.push_back(1ULL << k), W.push_back(~0ULL << k), W.push_back(~0ULL >> k), W.push_back(~(1ULL << k));
  for (u64 w : W) {
    { eng::Script s({w, ~w}); inRangeD(r.nextDouble(lo, hi), lo, hi, "nextDouble(min,max)"); }
    { eng::Script s({w, ~w}); inRangeD(cuhksz::randomDouble(lo, hi), lo, hi, "randomDouble(min,max)"); }
    if (lo == 0) {
      { eng::Script s({w, ~w}); inRangeD(r.nextDouble(hi), 0, hi, "nextDouble(max)"); }
      { eng::Script s({w, ~w}); inRangeD(cuhksz::randomDouble(hi), 0, hi, "randomDouble(max)"); }
    }
    { eng::Script s({w, ~w}); inRangeD(r.nextDouble(), 0, 1, "nextDouble()"); }
    { eng::Script s({w, ~w}); inRangeD(cuhksz::randomDouble(), 0, 1, "randomDouble()"); }
    mc::state(mc::Hash().add(lo).add(hi).add(w));
  }
}
// neighbouring reals: rounding must not reach the excluded end
MC_SCOPE(real_neighbours) {
  if (!eng::controlled()) return;
  static const double B[] = {0, 1, -1, 0.1, 1e-300, 1e300, -7.25, 4503599627370496.0, 1e6};
  double b = mc::pick(B), e = b;
  int steps = mc::range(1, mc::bound(40, 80));
  for (int i = 0; i < steps; i++) e = std::nextafter(e, DBL_MAX);
  MC_OP("nextDouble over %d steps from %.17g", steps, b);
  mc::state(mc::Hash().add(b).add(steps));
  Random r(1);
  for (int k = 0; k < 256; k++) {
    u64 w = (u64)k << 56 | (k & 1 ? (1ULL << 56) - 1 : 0);
    eng::Script s({w, w});
    inRangeD(r.nextDouble(b, e), b, e, "nextDouble");
  }
  for (u64 w : eng::extremes()) {
    eng::Script s({w, w});
    inRangeD(r.nextDouble(b, e), b, e, "nextDouble");
  }
}
// ------------------------------------------------------------ equal probability on the lattice
template <class F> static void even(int n, u64 N, const char* what, F draw, u64 mod, double rel = 0.005) {
  std::vector<u64> c(n);
  eng::Lattice L;
  for (u64 i = 0; i < N; i++) {
    eng::Lattice::start(i);
    i64 v = draw();
    if (v < 0 || v >= n) mc::fail("range:int", "%s gives class %lld of %d", what, (long long)v, n);
    c[v]++;
    if (i % 4096 == 0) mc::beat();
  }
  mc::ops(N);
  double e = (double)N / n;
  for (int i = 0; i < n; i++)
    if (std::fabs(c[i] - e) > rel * e + 5 * std::sqrt(e) + 5)
      mc::fail("uniform", "%s: class %d of %d drawn %llu times in %llu, expected %.0f", what, i, n, (unsigned long long)c[i], (unsigned long long)N, e);
  // a draw that takes one word: evenly spread words must fall evenly, far more exactly. A class is
  // wrong only if it is for five different sets of words.
  if (!mod) return;
  const u64 N0 = N;
  double off[5] = {0, 0, 0, 0, 0};
  for (int t = 0; t < 5; t++) {
    N = (u64)(N0 * (0.8090169943749475 - 0.0471 * t)) / n * n;  // no power of two: S shall have irregular bits
    e = (double)N / n;
    eng::Comb K(N, mod, t);
    std::fill(c.begin(), c.end(), 0);
    for (u64 i = 0; i < N; i++) {
      eng::Comb::start(i);
      i64 v = draw();
      if (v < 0 || v >= n) mc::fail("range:int", "%s gives class %lld of %d", what, (long long)v, n);
      c[v]++;
      if (i % 4096 == 0) mc::beat();
    }
    mc::ops(N);
    if (!eng::Comb::exact()) return;
    for (int i = 0; i < n; i++) if (std::fabs(c[i] - e) > std::fabs(off[t])) off[t] = c[i] - e;
    if (std::fabs(off[t]) <= 1e-5 * e + 40) return;
  }
  mc::fail("uniform", "%s: a class of %d is drawn %.0f, %.0f, %.0f, %.0f and %.0f times too often among up to %llu evenly spread engine outputs", what, n, off[0], off[1], off[2], off[3], off[4], (unsigned long long)N0);
}
MC_SCOPE(even_small) {
  if (!eng::controlled()) return;
  int n = mc::range(1, mc::bound(200, 400)), off = mc::choose(3);
  static const int O[] = {0, -7, INT_MAX};
  int lo = off == 2 ? INT_MAX - n : O[off];
  MC_OP("nextInt over %d values from %d", n, lo);
  mc::state(mc::Hash().add(n).add(off));
  Random r(2);
  u64 N = 1ULL << mc::bound(19, 21);
  even(n, N, "nextInt(min,max)", [&] { return (i64)r.nextInt(lo, lo + n) - lo; }, n);
  if (off == 0) even(n, N, "nextInt(max)", [&] { return (i64)r.nextInt(n); }, n);
  if (off == 0) even(n, N, "randomInt(max)", [&] { return (i64)cuhksz::randomInt(n); }, n);
  if (off == 1) even(n, N, "randomInt(min,max)", [&] { return (i64)cuhksz::randomInt(lo, lo + n) - lo; }, n);
}
MC_SCOPE(even_wide) {
  if (!eng::controlled()) return;
  static const int LO[] = {INT_MIN, INT_MIN, -2000000000, 0, -1, INT_MIN, 0}, HI[] = {INT_MAX, 0, 2000000000, INT_MAX, INT_MAX, INT_MIN + 3000000, 1500000000};
  int k = mc::choose(7), cls = mc::range(2, 17), form = mc::choose(2);
  i64 lo = LO[k], n = (i64)HI[k] - lo;
  MC_OP("nextInt(%d,%d) in %d classes, form %d", LO[k], HI[k], cls, form);
  mc::state(mc::Hash().add(k).add(cls).add(form));
  Random r(2);
  u64 N = 1ULL << 17;
  if (form == 0) even(cls, N, "nextInt wide", [&] { return (i64)((__int128)(r.nextInt(LO[k], HI[k]) - lo) * cls / n); }, n);
  else even(cls, N, "nextInt wide residues", [&] { return (r.nextInt(LO[k], HI[k]) - lo) % cls; }, 0);
}
MC_SCOPE(even_all) {
  if (!eng::controlled()) return;
  int cls = mc::range(2, 17), form = mc::choose(4);
  MC_OP("nextInt() in %d classes, form %d", cls, form);
  mc::state(mc::Hash().add(cls).add(form));
  Random r(2);
  const i64 lo = INT_MIN, n = 1LL << 32;
  u64 N = 1ULL << 17;
  switch (form) {
    case 0: even(cls, N, "nextInt()", [&] { return (r.nextInt() - lo) * cls / n; }, n); break;
    case 1: even(cls, N, "nextInt() residues", [&] { return (r.nextInt() - lo) % cls; }, 0); break;
    case 2: even(cls, N, "randomInt()", [&] { return (cuhksz::randomInt() - lo) * cls / n; }, n); break;
    case 3: even(cls, N, "randomInt() residues", [&] { return (cuhksz::randomInt() - lo) % cls; }, 0); break;
  }
}
MC_SCOPE(even_bits) {
  if (!eng::controlled()) return;
  int bit = mc::choose(32);
  MC_OP("bit %d of nextInt(), nextBool and randomBool", bit);
  mc::state(mc::Hash().add(bit));
  Random r(2);
  even(2, 1 << 14, "nextInt() bit", [&] { return (i64)((unsigned)r.nextInt() >> bit & 1); }, 0);
  if (bit == 0) even(2, 1 << 18, "nextBool", [&] { return (i64)r.nextBool(); }, 2);
  if (bit == 1) even(2, 1 << 18, "randomBool", [&] { return (i64)cuhksz::randomBool(); }, 2);
}
MC_SCOPE(even_real) {
  if (!eng::controlled()) return;
  static const double LO[] = {0, -1, 5, -1e6, 1e15, 0}, HI[] = {1, 1, 5.5, 3e6, 1e15 + 1000, 1e-3};
  int k = mc::choose(6), cls = mc::range(2, 33);
  MC_OP("nextDouble(%g,%g) in %d classes", LO[k], HI[k], cls);
  mc::state(mc::Hash().add(k).add(cls));
  Random r(2);
  auto c = [&](double v, double lo, double hi) { i64 q = (i64)((v - lo) / (hi - lo) * cls); return q == cls ? cls - 1 : q; };
  u64 N = 1ULL << 16;
  even(cls, N, "nextDouble(min,max)", [&] { return c(r.nextDouble(LO[k], HI[k]), LO[k], HI[k]); }, 1);
  if (k == 5) even(cls, N, "nextDouble(max)", [&] { return c(r.nextDouble(HI[k]), 0, HI[k]); }, 1);
  if (k == 0) even(cls, N, "nextDouble()", [&] { return c(r.nextDouble(), 0, 1); }, 1);
  if (k == 1) even(cls, N, "randomDouble(min,max)", [&] { return c(cuhksz::randomDouble(-1, 1), -1, 1); }, 1);
  if (k == 2) even(cls, N, "randomDouble(max)", [&] { return c(cuhksz::randomDouble(7), 0, 7); }, 1);
  if (k == 3) even(cls, N, "randomDouble()", [&] { return c(cuhksz::randomDouble(), 0, 1); }, 1);
}
// ------------------------------------------------------------ sequences on the standard engine
static const int SEEDS[] = {0, 1, -1, 42, INT_MAX, INT_MIN, 20170508};
static const int KINDS = 9;
static double draw(Random& r, int k) {
  switch (k) {
    case 0: return r.nextInt();
    case 1: return r.nextInt(10);
    case 2: return r.nextInt(-5, 1000000);
    case 3: return r.nextBool();
    case 4: return r.nextDouble();
    case 5: return r.nextDouble(7.5);
    case 6: return r.nextDouble(-3, 2);
    case 7: return r.nextInt(INT_MIN, INT_MAX);
    default: return r.nextInt(1);
  }
}
static void shared(int k) {
  switch (k) {
    case 0: cuhksz::randomInt(); break;
    case 1: cuhksz::randomInt(9); break;
    case 2: cuhksz::randomBool(); break;
    default: cuhksz::randomDouble(1, 2); break;
  }
}
MC_SCOPE_LEAK(same_seed) {
  eng::Off off;
  cuhksz::randomInt();  // the shared generator exists from here on
  mc::g().noLeak = true;
  int seed = mc::pick(SEEDS), n = mc::range(1, mc::bound(5, 6));
  Random a(seed), b(seed), other(seed + 1u > 0 ? (int)(seed + 1u) : 9);
  MC_OP("two generators seeded %d", seed);
  mc::Hash h;
  h.add(seed);
  std::vector<int> kinds;
  std::vector<double> va;
  for (int i = 0; i < n; i++) {
    int k = mc::choose(KINDS);
    kinds.push_back(k);
    MC_OP("draw %d", k);
    va.push_back(draw(a, k));
    mc::ops(1);
    mc::state(h.add(k));
  }
  // the second one is drawn later, interleaved with other generators
  for (int i = 0; i < n; i++) {
    draw(other, (kinds[i] + i) % KINDS);
    shared(i % 4);
    double v = draw(b, kinds[i]);
    mc::ops(1);
    if (v != va[i]) mc::fail("sequence", "draw %d of kind %d from seed %d: %.17g and %.17g", i, kinds[i], seed, va[i], v);
    // one value more from each, for hidden state
  }
  double x = draw(a, 4), y = draw(b, 4);
  if (x != y) mc::fail("sequence", "the next draw differs after identical draws");
}
MC_SCOPE(reseed) {
  eng::Off off;
  int s1 = mc::pick(SEEDS), s2 = mc::pick(SEEDS), n = mc::range(0, mc::bound(3, 4));
  Random a(s1), fresh(s2);
  MC_OP("seed %d, some draws, then re-seed to %d", s1, s2);
  mc::Hash h;
  h.add(s1).add(s2);
  for (int i = 0; i < n; i++) { int k = mc::choose(KINDS); MC_OP("draw %d", k); draw(a, k); h.add(k); }
  a.setSeed(s2);
  int m = 2;
  for (int i = 0; i < m; i++) {
    int k = mc::choose(KINDS);
    MC_OP("draw %d", k);
    mc::state(h.add(k));
    mc::ops(2);
    double v = draw(a, k), w = draw(fresh, k);
    if (v != w) mc::fail("reseed", "after re-seeding to %d draw %d of kind %d is %.17g, a new generator gives %.17g", s2, i, k, v, w);
  }
}
// long runs, all kinds in turn
MC_SCOPE(long_runs) {
  eng::Off off;
  int seed = mc::pick(SEEDS), step = mc::range(1, 8);
  MC_OP("long runs from seed %d, step %d", seed, step);
  mc::state(mc::Hash().add(seed).add(step));
  Random a(seed), b(seed), c(7);
  std::vector<double> va;
  int n = mc::bound(30000, 60000);
  for (int i = 0; i < n; i++) va.push_back(draw(a, i * step % KINDS));
  c.setSeed(seed);
  for (int i = 0; i < n; i++) {
    double v = draw(b, i * step % KINDS), w = draw(c, i * step % KINDS);
    mc::ops(3);
    if (v != va[i] || w != va[i]) mc::fail("sequence", "draw %d differs", i);
    int k = i * step % KINDS;
    double lo[] = {INT_MIN, 0, -5, 0, 0, 0, -3, INT_MIN, 0}, hi[] = {INT_MAX + 1.0, 10, 1000000, 2, 1, 7.5, 2, INT_MAX, 1};
    if (v < lo[k] || v >= hi[k]) mc::fail("range", "draw of kind %d gives %.17g", k, v);
    if (k != 4 && k != 5 && k != 6 && v != std::floor(v)) mc::fail("range", "not an integer");
  }
  a.setSeed(seed);
  for (int i = 0; i < n; i++) if (draw(a, i * step % KINDS) != va[i]) mc::fail("reseed", "draw %d after re-seeding differs", i);
}
