// modules: algorithm
// C23: kmpSearch and editDistance against their definitions.
#include "algorithm.h"

#include <limits>
#include "util.h"

using std::string;

static long refFind(const string& b, const string& p, size_t start) {
  for (size_t i = start; i <= b.size(); i++) {
    if (i + p.size() > b.size()) break;
    size_t k = 0;
    while (k < p.size() && b[i + k] == p[k]) k++;
    if (k == p.size()) return (long)i;
  }
  return -1;
}

static void oneKmp(const string& b, const string& p, size_t start) {
  int got = cuhksz::kmpSearch(b, p, start);
  long want = refFind(b, p, start);
  mc::ops(1);
  if (got != want)
    mc::fail("kmp", "kmpSearch(%s,%s,%zu)=%d, expected %ld", mc::show(b).c_str(),
             mc::show(p).c_str(), start, got, want);
}

static void allStarts(const string& b, const string& p) {
  MC_OP("search %s in %s from every start", mc::show(p).c_str(), mc::show(b).c_str());
  mc::state(mc::Hash().add(b).add(p));
  long d = refFind(b, p, 0);
  mc::outcome(d < 0 ? "absent" : "found");
  if (cuhksz::kmpSearch(b, p) != d)
    mc::fail("kmp:default", "default start differs for %s in %s", mc::show(p).c_str(),
             mc::show(b).c_str());
  for (size_t s = 0; s <= b.size() + 2; s++) oneKmp(b, p, s);
  for (size_t s : {(size_t)std::numeric_limits<int>::max(), (size_t)1 << 31, ((size_t)1 << 32),
                   ((size_t)1 << 32) + 1, ~(size_t)0, ~(size_t)0 - 1, (size_t)1 << 63})
    oneKmp(b, p, s);
}

MC_SCOPE(kmp_binary) {
  string p = mc::str("ab", 0, mc::bound(8, 10));
  string b = mc::str("ab", 0, mc::bound(11, 13));
  allStarts(b, p);
}
MC_SCOPE(kmp_ternary) {
  string p = mc::str("abc", 0, mc::bound(5, 6));
  string b = mc::str("abc", 0, mc::bound(7, 9));
  allStarts(b, p);
}
MC_SCOPE(kmp_bytes) {
  string al("\0\xff\x80", 3);
  string p = mc::str(al, 0, 3), b = mc::str(al, 0, 5);
  allStarts(b, p);
}
// long periodic patterns inside long periodic bases: pattern = u^i v, base = w u^j v t
MC_SCOPE(kmp_ladder) {
  string u = mc::str("ab", 1, 3);
  int i = mc::range(1, mc::bound(12, 24));
  string v = mc::str("ab", 0, mc::bound(2, 3));
  string w = mc::str("ab", 0, 2);
  int j = i + mc::range(-1, mc::bound(2, 4));
  bool tail = mc::flip();
  string p, b = w;
  for (int k = 0; k < i; k++) p += u;
  p += v;
  for (int k = 0; k < j; k++) b += u;
  b += v;
  if (tail) b += "ba";
  allStarts(b, p);
}
// long patterns: a run, a period or a nearly periodic text ending in a different letter
MC_SCOPE(kmp_long) {
  int n = mc::size(10, mc::bound(300, 1100), {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096}), kind = mc::choose(5), lead = mc::choose(6), tail = mc::choose(3);
  static const char* U[] = {"a", "ab", "aab", "aabaac", "abcabd"};
  string u = U[kind], p, b;
  while ((int)p.size() < n) p += u;
  p.resize(n);
  string run = p;
  p += tail == 0 ? "z" : tail == 1 ? "a" : "b";
  static const int L[] = {0, 1, 2, 3, 7, 100};
  // a lead-in that runs on past the pattern's start, a near miss, then the pattern, then again
  while ((int)b.size() < L[lead]) b += u;
  b.resize(L[lead]);
  string base = b + p + run + "y" + p + run;
  MC_OP("pattern of %d, kind %d, lead %d, tail %d", n, kind, lead, tail);
  mc::state(mc::Hash().add(p).add(base));
  for (size_t start : {(size_t)0, (size_t)1, b.size(), b.size() + 1, b.size() + n, base.size() - n, base.size() - 1, base.size(), base.size() + 1}) {
    mc::ops(2);
    mc::beat();
    for (const string* t : {&base, &run}) {
      size_t w = start > t->size() ? string::npos : t->find(p, start);
      int want = w == string::npos ? -1 : (int)w, got = cuhksz::kmpSearch(*t, p, start);
      if (got != want) mc::fail("kmp:long", "search for %d letters from %zu in %zu gives %d, expected %d", n + 1, start, t->size(), got, want);
    }
  }
}
// bases and patterns beyond 16 bits
MC_SCOPE(kmp_huge) {
  int n = mc::pick({8192, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000}), len = mc::pick({1, 2, 300, n / 2, n - 1}), at = mc::choose(4), per = mc::choose(3);
  string u = per == 0 ? "a" : per == 1 ? "ab" : "aabaac", b, p;
  while ((int)b.size() < n) b += u;
  b.resize(n);
  p = b.substr(0, len - 1) + "z";
  int pos = at == 0 ? n - len : at == 1 ? (n - len) / 2 : at == 2 ? 0 : -1;
  if (pos >= 0) b.replace(pos, len, p);
  MC_OP("pattern of %d at %d of %d", len, pos, n);
  mc::state(mc::Hash().add(n).add(len).add(pos).add(per));
  for (int start : {0, 1, pos - 1, pos, pos + 1, n - 1, n, n + 1}) {
    if (start < 0) continue;
    mc::ops(1);
    mc::beat();
    int want = pos >= start ? pos : -1, got = cuhksz::kmpSearch(b, p, start);
    if (got != want) mc::fail("kmp:huge", "search for %d letters from %d in %d gives %d, expected %d", len, start, n, got, want);
  }
}
// letters that differ in one bit
MC_SCOPE(kmp_bits) {
  string al("aAeqi\xe1!", 7);
  string p = mc::str(al, 1, 2), b = mc::str(al, 0, mc::bound(4, 5));
  allStarts(b, p);
}
MC_SCOPE(kmp_every_byte) {
  string a(1, (char)mc::choose(256)), b(1, (char)mc::choose(256));
  allStarts("x" + a + b + a, b);
  allStarts(a + a + b + "x" + a + b, a + b);
  allStarts(b + a + b, a + a);
}
// short patterns at chosen places of a long base, from every start
MC_SCOPE(kmp_starts) {
  static const char* P[] = {"b", "ab", "ba", "bb", "aab", "bab", "abbabba"};
  string p = mc::pick(P);
  int n = mc::size(1, mc::bound(40, 100), {63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1025}), at = mc::choose(4);
  string b(n, 'a');
  auto put = [&](int i) {
    if (i >= 0 && i + (int)p.size() <= n) b.replace(i, p.size(), p);
  };
  if (at == 0) put(n - (int)p.size());
  if (at == 1) put(0), put(n / 2);
  if (at == 2) put(n / 2 - (int)p.size()), put(n / 2);
  if (at == 3) for (int i = 0; i < n; i += 9) put(i);
  mc::beat();
  allStarts(b, p);
}
// every pattern of length up to 10 (12) in a base built around its own near-misses
MC_SCOPE(kmp_selfoverlap) {
  string p = mc::str("ab", 1, mc::bound(10, 13));
  string b;
  // each proper prefix followed by the wrong character, then the pattern, then again
  int cut = mc::choose((int)p.size());
  b = p.substr(0, cut) + (p[cut] == 'a' ? 'b' : 'a') + p.substr(0, p.size() - 1) + p + p;
  mc::beat();
  allStarts(b, p);
}

// textbook recursion on suffixes, memoised
struct Ed {
  const string &a, &b;
  std::vector<int> memo;
  Ed(const string& a, const string& b)
      : a(a), b(b), memo((a.size() + 1) * (b.size() + 1), -1) {}
  int go(size_t i, size_t j) {
    if (i == a.size()) return (int)(b.size() - j);
    if (j == b.size()) return (int)(a.size() - i);
    int& m = memo[i * (b.size() + 1) + j];
    if (m >= 0) return m;
    if (a[i] == b[j]) {
      m = go(i + 1, j + 1);
    } else {
      int x = go(i + 1, j), y = go(i, j + 1), z = go(i + 1, j + 1);
      m = 1 + std::min(x, std::min(y, z));
    }
    return m;
  }
};
static void oneEd(const string& a, const string& b) {
  MC_OP("editDistance(%s,%s)", mc::show(a).c_str(), mc::show(b).c_str());
  mc::state(mc::Hash().add(a).add(b));
  int want = Ed(a, b).go(0, 0);
  int got = cuhksz::editDistance(a, b);
  if (got != want)
    mc::fail("edit", "editDistance(%s,%s)=%d, expected %d", mc::show(a).c_str(),
             mc::show(b).c_str(), got, want);
}
MC_SCOPE(edit_binary) {
  int n = mc::bound(8, 10);
  string a = mc::str("ab", 0, n), b = mc::str("ab", 0, n);
  oneEd(a, b);
}
MC_SCOPE(edit_ternary) {
  int n = mc::bound(5, 7);
  string a = mc::str("abc", 0, n), b = mc::str("abc", 0, n);
  oneEd(a, b);
}
MC_SCOPE(edit_bytes) {
  string al("\0\xff", 2);
  string a = mc::str(al, 0, 4), b = mc::str(al, 0, 4);
  oneEd(a, b);
}
MC_SCOPE(edit_bits) {  // letters that differ in one bit
  string al("aAeqi\xe1!", 7);
  string a = mc::str(al, 0, 3), b = mc::str(al, 0, mc::bound(3, 4));
  oneEd(a, b);
}
// every two bytes against each other, in and off the diagonal
MC_SCOPE(edit_every_byte) {
  string a(1, (char)mc::choose(256)), b(1, (char)mc::choose(256));
  oneEd(a, b);
  oneEd("x" + a, b + "x");
  oneEd("pq" + a, b);
  oneEd(a + b, b + a);
  oneEd(a + "yz", "y" + b);
}
// every length of one string against a shifted or slightly changed other
MC_SCOPE(edit_sizes) {
  int n = mc::size(0, mc::bound(140, 300)), m = n + mc::pick({0, 1, -1, 7, -7, 30}), k = mc::choose(4);
  if (m < 0) return;
  string a, b;
  for (int i = 0; i < n; i++) a += (char)('a' + mc::scramble(i, 1) % 3);
  for (int i = 0; i < m; i++) b += k == 0 ? (char)('a' + mc::scramble(i + 2, 1) % 3) : k == 1 ? (i == m / 2 ? 'x' : (char)('a' + mc::scramble(i, 1) % 3)) : k == 2 ? (char)('a' + i % 3) : (char)('a' + mc::scramble(m - i, 1) % 3);
  mc::beat();
  oneEd(a, b);
}
// long pairs: every combination of lengths up to several hundred, of four kinds of content
MC_SCOPE(edit_long) {
  static const int L[] = {1, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300};
  int n = mc::pick(L), m = mc::pick(L), k = mc::choose(4);
  string a, b;
  for (int i = 0; i < n; i++) a += k == 0 ? 'a' : k == 1 ? "ab"[i & 1] : (char)('a' + mc::scramble(i, 1) % 4);
  for (int i = 0; i < m; i++) b += k == 0 ? 'b' : k == 1 ? "ba"[i & 1] : k == 2 ? (char)('a' + mc::scramble(i, 2) % 4) : (char)('a' + mc::scramble(i + 3, 1) % 4);
  mc::beat();
  oneEd(a, b);
}
// long strings against short ones and against themselves with a few changes
MC_SCOPE(edit_huge) {
  int n = mc::pick({511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4097, 32769, 65537, 70000}), k = mc::choose(4);
  if (k > 1 && n > 4097) return;
  string a, b;
  for (int i = 0; i < n; i++) a += (char)('a' + mc::scramble(i, 1) % 5);
  int want;
  if (k == 0) b = "", want = n;
  if (k == 1) b = "zz", want = n;                              // nothing in common
  if (k == 2) b = a, b[n / 2] = 'z', b.erase(7, 1), want = 2;  // a foreign letter and a gap
  if (k == 3) b = string(n - 3, 'x'), want = n;
  MC_OP("%d against %zu letters", n, b.size());
  mc::state(mc::Hash().add(n).add(k));
  mc::ops(2);
  mc::beat();
  if (cuhksz::editDistance(a, b) != want) mc::fail("edit:huge", "distance of %d and %zu letters is %d, expected %d", n, b.size(), cuhksz::editDistance(a, b), want);
  mc::beat();
  if (cuhksz::editDistance(b, a) != want) mc::fail("edit:huge", "distance of %zu and %d letters wrong", b.size(), n);
}
// long strings: x = p^i q^j r^k blocks against another block layout
MC_SCOPE(edit_ladder) {
  static const int L[] = {0, 1, 2, 7, 31, 64};
  string a = string(mc::pick(L), 'a') + string(mc::pick(L), 'b') + string(mc::pick(L), 'a');
  string b = string(mc::pick(L), 'b') + string(mc::pick(L), 'a') + string(mc::pick(L), 'c');
  oneEd(a, b);
  oneEd(b, a);
}
#include <mutex>
