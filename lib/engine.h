// Harness side of engine_shim.h.
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H
#include <cstdint>
#include <vector>
#include "random/Random.h"
#include "util.h"
extern "C" {
uint64_t (*verif_hook)(void) = nullptr;
uint64_t verif_calls = 0;
}
namespace eng {
// the standard engine itself, untouched by the macros
typedef decltype(std::verif_mt19937_64::real) Std64;

struct Off {  // standard behaviour in this block
  Off() { verif_hook = nullptr; }
};
// ---- a list of words, then an ordinary pseudo-random stream, with a cap on calls
static std::vector<uint64_t> script;
static size_t at;
static uint64_t tailSeed, budget;
inline uint64_t scripted() {
  if (at < script.size()) return script[at++];
  if (++at > budget) mc::fail("terminate", "drawing took more than %llu engine outputs", (unsigned long long)budget);
  return mc::scramble(at, tailSeed);
}
struct Script {
  explicit Script(const std::vector<uint64_t>& w, uint64_t seed = 1, uint64_t cap = 200000) {
    script = w, at = 0, tailSeed = seed, budget = cap;
    verif_hook = scripted;
  }
  ~Script() { verif_hook = nullptr; }
};
// ---- point i of an equidistributed lattice: the upper half of word j is a Kronecker sequence
// i * A_j, evenly spread also jointly over the words; its lower half is a pseudo-random function of
// i and j (a low bit of a Kronecker sequence is not evenly spread); after eight words all of it
static uint64_t point;
static unsigned dim;
inline uint64_t latticeWord() {
  // floor(2^64 * g^-j) | 1, g the root of x^9 = x + 1
  static const uint64_t A[8] = {0xebedeed9d803c815ULL, 0xd96eb1a810caaf5fULL, 0xc862b36daf790dd5ULL, 0xb8acd90c142fe10bULL,
                                0xaa324f90ded86b69ULL, 0x9cda5e693fea10afULL, 0x908e3d2c82567a73ULL, 0x8538ecb5bd456ea3ULL};
  unsigned d = dim++;
  if (d < 8) return ((point * A[d] + (A[d] << 17)) & ~0xffffffffULL) | (mc::scramble(point, d + 77) & 0xffffffffULL);
  if (d > 300000) mc::fail("terminate", "drawing took more than 300000 engine outputs");
  return mc::scramble(point, d);
}
struct Lattice {
  Lattice() { verif_hook = latticeWord; }
  ~Lattice() { verif_hook = nullptr; }
  static void start(uint64_t i) { point = i + 1, dim = 0; }
};
// ---- draws that use one word: the N words i * S + R, S just under 2^64 / N and coprime to n, so that
// the words are evenly spread over the whole range, over the residues mod n (for n > N: a Kronecker
// sequence there) and (S has irregular low bits) over every bit
static uint64_t combStep, combStart, combExtra;
inline uint64_t combWord() {
  if (dim++ == 0) return point * combStep + combStart;
  combExtra++;
  if (dim > 300000) mc::fail("terminate", "drawing took more than 300000 engine outputs");
  return mc::scramble(point, dim);
}
struct Comb {
  Comb(uint64_t N, uint64_t n, int variant) {
    uint64_t s = (~(uint64_t)0 / N - (mc::scramble(N * 31 + n, variant + 5) & 0xffffff)) | 1;
    auto gcd = [](uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b, b = t; } return a; };
    if (n > N) s = (~(uint64_t)0 / N / n - 1) * n + (uint64_t)(n * (0.6180339887498949 - 0.01 * variant));
    else while (gcd(s, n) != 1) s -= 2;
    combStep = s, combStart = mc::scramble(n, variant + 99) % s, combExtra = 0;
    verif_hook = combWord;
  }
  ~Comb() { verif_hook = nullptr; }
  static void start(uint64_t i) { point = i, dim = 0; }
  static bool exact() { return combExtra == 0; }
};
// whether the library draws from an engine the harness controls
inline bool controlled() {
  static int known = -1;
  if (known < 0) {
    Script s({1, 2, 3, 4});
    uint64_t before = verif_calls;
    cuhksz::Random r(1);
    r.nextInt();
    known = verif_calls > before;
  }
  if (!known) mc::outcome("engine not controllable");
  return known;
}
// extreme words: both halves at their limits
inline const std::vector<uint64_t>& extremes() {
  static std::vector<uint64_t> v;
  if (v.empty()) {
    static const uint64_t S[] = {0, 1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
    for (uint64_t h : S) for (uint64_t l : S) v.push_back(h << 32 | l);
  }
  return v;
}
}  // namespace eng
#endif
