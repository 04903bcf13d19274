// Force-included before every translation unit of the random-number harnesses: the standard
// engines become engines whose outputs the harness can dictate (verif_hook). Without a hook they
// behave as the standard's mt19937_64 / mt19937 with the same seed.
#ifndef VERIF_ENGINE_SHIM
#define VERIF_ENGINE_SHIM
#include <cstdint>
#include <iosfwd>
#include <random>
extern "C" {
extern uint64_t (*verif_hook)(void);
extern uint64_t verif_calls;
}
namespace std {
template <class Real, class Out>
struct verif_engine {
  typedef Out result_type;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return (result_type)~(result_type)0; }
  static constexpr result_type default_seed = Real::default_seed;
  verif_engine() {}
  explicit verif_engine(result_type s) : real(s) {}
  explicit verif_engine(seed_seq& s) : real(s) {}
  void seed() { real.seed(); }
  void seed(result_type s) { real.seed(s); }
  void seed(seed_seq& s) { real.seed(s); }
  result_type operator()() {
    verif_calls++;
    return verif_hook ? (result_type)(verif_hook() >> (64 - 8 * sizeof(Out))) : (result_type)real();
  }
  void discard(unsigned long long n) { while (n--) (*this)(); }
  friend bool operator==(const verif_engine& a, const verif_engine& b) { return a.real == b.real; }
  friend bool operator!=(const verif_engine& a, const verif_engine& b) { return !(a.real == b.real); }
  Real real;
};
typedef verif_engine<mt19937_64, uint64_t> verif_mt19937_64;
typedef verif_engine<mt19937, uint32_t> verif_mt19937;
}  // namespace std
#define mt19937_64 verif_mt19937_64
#define mt19937 verif_mt19937
#define default_random_engine verif_mt19937_64
#endif
