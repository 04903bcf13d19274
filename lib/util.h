// Shared helpers for harnesses.
#ifndef VERIF_UTIL_H
#define VERIF_UTIL_H
#include <string>
#include <vector>
#include "mc.h"
namespace mc {
// every string over `alphabet` with length lo..hi
inline std::string str(const std::string& alphabet, int lo, int hi) {
  int n = range(lo, hi);
  std::string s;
  for (int i = 0; i < n; i++) s += alphabet[choose((int)alphabet.size())];
  return s;
}
inline std::string show(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\', o += c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
template <class It>
inline std::string showSeq(It b, It e) {
  std::ostringstream os;
  os << '[';
  for (bool f = true; b != e; ++b, f = false) os << (f ? "" : ",") << *b;
  os << ']';
  return os.str();
}
template <class C>
inline std::string showAll(const C& c) {
  return showSeq(c.begin(), c.end());
}
// what is written to the stream afterwards looks as on a stream never written to
inline void plainStream(std::ostream& os, const char* what) {
  auto probe = [](std::ostream& o) { o << 1234567.25 << '|' << 0.00001234 << '|' << 255 << '|' << true << '|' << -7L << '|' << 2.5f << '|', o.width(6), o << 7 << '|'; };
  static const std::ostringstream plain;
  if (os.good() && os.flags() == plain.flags() && os.precision() == plain.precision() && os.fill() == plain.fill() && os.width() == 0) return;
  std::ostringstream fresh, rest;
  probe(fresh);
  std::streambuf* own = os.rdbuf();
  os.std::ios::rdbuf(rest.rdbuf());
  probe(os);
  bool good = os.good();
  os.std::ios::rdbuf(own);
  if (!good || rest.str() != fresh.str()) fail("stream", "%s leaves the stream changed: later output reads %s", what, rest.str().c_str());
}
// deterministic pseudo-random value of an index (structured input families, not sampling)
inline uint64_t scramble(uint64_t a, uint64_t b = 0) { return mix(a * 0x9e3779b97f4a7c15ULL + b + 1); }
}  // namespace mc
#endif
