// Exploration scopes shared by C06 (membership) and C07 (iteration): every history of
// insertions and removals over small universes, permutations, ladders, several tries and
// mappings. The includer defines check(trie, model).
#ifndef VERIF_TRIE_H
#define VERIF_TRIE_H
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include "string_utils.h"
#include "util.h"

using cuhksz::Trie;
using std::string;
typedef std::vector<string> Words;

// ------------------------------------------------------------ mappings
struct Mapping {
  const char* name;
  int (*toInt)(char);
  char (*toChar)(int);
  Words universe;  // strings to work with (also probed for membership)
};
static int plainTo(char c) { return c == '\001' ? 1 : c - 'a' + 2; }
static int revTo(char c) { return c == '\001' ? 1 : 'z' - c + 2; }
static char revFrom(int n) { return n == 1 ? '\001' : (char)('z' - (n - 2)); }
static int upTo(char c) { return c == '\001' ? 1 : c - 'A' + 2; }
static char upFrom(int n) { return n == 1 ? '\001' : (char)('A' + (n - 2)); }
// every byte but the end marker: 1 stays 1, 0 goes last
static int byteTo(char c) { return c == 0 ? 256 : (unsigned char)c; }
static char byteFrom(int n) { return n == 256 ? '\0' : (char)(unsigned char)n; }
// a two letter alphabet 0/1
static int bitTo(char c) { return c == '\001' ? 1 : c == '0' ? 2 : 3; }
static char bitFrom(int n) { return n == 1 ? '\001' : n == 2 ? '0' : '1'; }

struct Model {
  int (*toInt)(char) = plainTo;
  Words v;  // sorted by mapped codes
  bool less(const string& a, const string& b) const {
    for (size_t i = 0;; i++) {
      if (i >= b.size()) return false;
      if (i >= a.size()) return true;
      int x = toInt(a[i]), y = toInt(b[i]);
      if (x != y) return x < y;
    }
  }
  bool has(const string& s) const { return std::find(v.begin(), v.end(), s) != v.end(); }
  void insert(const string& s) {
    if (has(s)) return;
    size_t i = 0;
    while (i < v.size() && less(v[i], s)) i++;
    v.insert(v.begin() + i, s);
  }
  void remove(const string& s) {
    auto i = std::find(v.begin(), v.end(), s);
    if (i != v.end()) v.erase(i);
  }
};

static void check(Trie& t, const Model& m, const Words& probe);

static Words allWords(const string& al, int lo, int hi) {
  Words r{""}, out;
  for (int n = 0; n <= hi; n++) {
    if (n >= lo) out.insert(out.end(), r.begin(), r.end());
    Words q;
    for (auto& w : r)
      for (char c : al) q.push_back(w + c);
    r = q;
  }
  return out;
}
static Trie* make(int kind, Model& m) {
  switch (kind) {
    case 1: m.toInt = revTo; return new Trie(revTo, revFrom);
    case 2: m.toInt = upTo; return new Trie(upTo, upFrom);
    case 3: m.toInt = byteTo; return new Trie(byteTo, byteFrom);
    case 4: m.toInt = bitTo; return new Trie(bitTo, bitFrom);
  }
  m.toInt = plainTo;
  return new Trie();
}
static void apply(Trie& t, Model& m, bool ins, const string& w) {
  MC_OP("%s %s", ins ? "insert" : "remove", mc::show(w).c_str());
  if (ins)
    t.insert(w), m.insert(w);
  else
    t.remove(w), m.remove(w);
}
static void note(const Model& m, int extra = 0) {
  mc::Hash h;
  h.add(extra);
  for (auto& w : m.v) h.add(w);
  mc::state(h);
}
// all histories of up to `depth` operations over `use`
static void history(int kind, const Words& use, const Words& probe, int depth) {
  Model m;
  std::unique_ptr<Trie> t(make(kind, m));
  bool each = mc::flip();
  int n = mc::range(0, depth);
  for (int i = 0; i < n; i++) {
    bool ins = mc::choose(2) == 0;
    apply(*t, m, ins, mc::pick(use));
    if (each) check(*t, m, probe);
  }
  check(*t, m, probe);
  note(m);
}
MC_SCOPE_LEAK(hist_ab) { static Words u = allWords("ab", 0, 2), p = allWords("ab", 0, 3); history(0, u, p, mc::bound(5, 6)); }
MC_SCOPE_LEAK(hist_prefix) {
  static Words u{"", "a", "aa", "aaa", "aab"}, p = allWords("ab", 0, 4);
  history(0, u, p, mc::bound(5, 7));
}
MC_SCOPE_LEAK(hist_spread) {
  static Words u{"", "a", "z", "az", "za", "zz", "ab", "aza", "azb", "m", "zmz", "mm"};
  static Words p{"", "a", "z", "az", "za", "zz", "ab", "aza", "azb", "m", "zmz", "mm", "b", "zm", "mmm", "azc", "zza", "aa", "y"};
  history(0, u, p, mc::bound(4, 5));
}
MC_SCOPE_LEAK(hist_long) {
  static Words u{"international", "internet", "interned", "intern", "inter", "interview", "internationally"};
  static Words p{"international", "internet", "interned", "intern", "inter", "interview", "internationally", "", "i", "in", "interne", "internets", "internationa", "internationall", "interviews", "intex", "nternational"};
  history(0, u, p, mc::bound(4, 5));
}
MC_SCOPE_LEAK(hist_reverse) { static Words u{"", "a", "z", "ab", "zy", "az", "b"}, p{"", "a", "z", "ab", "zy", "az", "b", "y", "abz", "aa", "zz"}; history(1, u, p, mc::bound(4, 5)); }
MC_SCOPE_LEAK(hist_bytes) {
  static Words u{"", string("\0", 1), "\xff", string("\0\0", 2), "\x02", "a\xff", "a", "\xff\xfe"};
  static Words p{"", string("\0", 1), "\xff", string("\0\0", 2), "\x02", "a\xff", "a", "\xff\xfe", "\xfe", "\x80", string("\0a", 2), "\x02\x02", "a\xfe", "\x1c", "\x1d"};
  history(3, u, p, mc::bound(4, 5));
}
MC_SCOPE_LEAK(hist_bits) { static Words u = allWords("01", 0, 2), p = allWords("01", 0, 3); history(4, u, p, mc::bound(4, 6)); }

// every order of inserting k words, then every order of removing j of them
MC_SCOPE_LEAK(permutations) {
  static const Words S[] = {{"a", "b", "ab", "ba", "abc", ""},
                            {"c", "ca", "cb", "cab", "d", "da"},
                            {"x", "y", "z", "a", "b", "xa"},
                            {"abcdef", "abcxyz", "abc", "abcd", "b", "abx"},
                            {"aa", "ab", "ac", "ba", "bb", "ca"},
                            {"zz", "zy", "yz", "yy", "zyx", "yzx"}};
  Words w = S[mc::choose(6)];
  int k = mc::bound(5, 6);
  w.resize(k);
  Words probe = w;
  for (auto& s : w) probe.push_back(s + "a"), probe.push_back(s.substr(0, s.size() / 2)), probe.push_back("q" + s);
  Model m;
  Trie t;
  bool each = mc::flip();
  Words left = w, in;
  while (!left.empty()) {
    int i = mc::choose((int)left.size());
    apply(t, m, true, left[i]);
    in.push_back(left[i]);
    left.erase(left.begin() + i);
    if (each) check(t, m, probe);
  }
  int j = mc::range(0, mc::bound(3, 4));
  for (; j > 0; j--) {
    int i = mc::choose((int)in.size());
    apply(t, m, false, in[i]);
    in.erase(in.begin() + i);
    if (each) check(t, m, probe);
  }
  if (mc::flip()) {  // and some come back
    apply(t, m, true, w[0]);
    apply(t, m, true, w[k - 1] + "a");
  }
  check(t, m, probe);
  note(m);
}

// large word sets of every size up to a bound, in four families; a fraction removed, re-added
static string word(int family, int i, int n) {
  string s;
  switch (family) {
    case 0:  // base 26 numbers
      for (int k = i; k >= 0; k = k / 26 - 1) s += (char)('a' + k % 26);
      return s;
    case 1:  // all words over abc in length order, reversed letters
      for (int k = i; k > 0; k /= 3) s += (char)('a' + k % 3);
      return s;
    case 2:  // one chain of prefixes
      for (int k = 0; k < i; k++) s += (char)('a' + (k * 7) % 26);
      return s;
    default: {  // scattered words
      uint64_t h = mc::scramble(i, 5);
      int len = h % 7;
      for (int k = 0; k < len; k++) s += (char)('a' + (h >> (8 + 5 * k)) % 26);
      return s;
    }
  }
}
MC_SCOPE_LEAK(ladder) {
  int n = mc::size(1, mc::bound(110, 300), {127, 128, 129, 144, 200, 233, 255, 256, 257, 300}), family = mc::choose(4), rem = mc::choose(5), order = mc::choose(3);
  MC_OP("family %d, %d words, order %d, removal pattern %d", family, n, order, rem);
  Model m;
  Trie t;
  Words w;
  for (int i = 0; i < n; i++) w.push_back(word(family, i, n));
  Words probe = w;
  for (int i = n; i < n + 5; i++) probe.push_back(word(family, i, n));
  for (int i = 0; i < n; i++) {
    string s = w[order == 0 ? i : order == 1 ? n - 1 - i : (i * 17) % n];
    t.insert(s), m.insert(s);
    mc::ops(1);
  }
  check(t, m, probe);
  for (int i = 0; i < n; i++) {
    bool r = rem == 1 ? i % 2 == 0 : rem == 2 ? i % 3 != 0 : rem == 3 ? i < n / 2 : rem == 4;
    if (!r) continue;
    t.remove(w[i]), m.remove(w[i]);
    mc::ops(1);
  }
  mc::beat();
  check(t, m, probe);
  for (int i = 0; i < n; i += 2) t.insert(w[i]), m.insert(w[i]), mc::ops(1);
  check(t, m, probe);
  note(m);
}
// the same for the byte mapping: all one- and two-byte words of a byte range
MC_SCOPE_LEAK(ladder_bytes) {
  int n = mc::size(1, mc::bound(70, 254), {99, 100, 127, 128, 129, 200, 253, 254}), rem = mc::choose(4), two = mc::choose(2), rev = mc::choose(2);
  MC_OP("%d byte words, two-byte %d, reverse %d, removal %d", n, two, rev, rem);
  Model m;
  std::unique_ptr<Trie> t(make(3, m));
  Words w;
  for (int i = 0; i < n; i++) {
    string s(1, (char)(2 + (rev ? n - 1 - i : i)));
    w.push_back(two ? "k" + s : s);
    t->insert(w.back()), m.insert(w.back());
    mc::ops(1);
  }
  check(*t, m, w);
  for (int i = 0; i < n; i++)
    if (rem == 1 ? i % 2 : rem == 2 ? i < n / 2 : rem == 3) t->remove(w[i]), m.remove(w[i]), mc::ops(1);
  check(*t, m, w);
  t->insert("\xff\xff"), m.insert("\xff\xff");
  check(*t, m, w);
  note(m);
}

// long words: every length, two words that part at a chosen place, then a third, with removals
MC_SCOPE_LEAK(lengths) {
  int n = mc::size(0, mc::bound(130, 400), {255, 256, 257, 511, 512, 513, 1000}), at = mc::choose(7), more = mc::choose(5), rem = mc::choose(5);
  bool swap = mc::flip();
  int p = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? n / 2 : at == 3 ? n - 1 : at == 4 ? n : at == 5 ? n / 3 : n - 2;
  if (p < 0 || p > n) return;
  string a;
  for (int i = 0; i < n; i++) a += (char)('a' + (i * i + i / 3) % 5);
  string b = a.substr(0, p);
  for (int i = 0; i < more * more * more; i++) b += (char)('f' + i % 4);
  string c = a.substr(0, p / 2) + "z", d = a + "z";
  MC_OP("words of %d and %zu characters with %d in common", n, b.size(), p);
  Model m;
  Trie t;
  Words probe{a, b, c, d, a + "a", b + "a", "", a.substr(0, p), a.substr(0, n / 2)};
  if (n) probe.push_back(a.substr(1)), probe.push_back(a.substr(0, n - 1));
  if (n) probe.push_back(a.substr(0, n - 1) + "y"), probe.push_back("y" + a.substr(1));
  apply(t, m, true, swap ? b : a);
  check(t, m, probe);
  apply(t, m, true, swap ? a : b);
  check(t, m, probe);
  if (rem == 1) apply(t, m, false, a);
  if (rem == 2) apply(t, m, false, b);
  if (rem == 3) apply(t, m, false, c);
  check(t, m, probe);
  apply(t, m, true, c);
  apply(t, m, true, d);
  check(t, m, probe);
  if (rem == 1) apply(t, m, true, a);
  if (rem == 2) apply(t, m, true, b);
  if (rem == 4) apply(t, m, false, a), apply(t, m, false, b), apply(t, m, true, b);
  check(t, m, probe);
  note(m);
}

// several tries alive together, with different mappings, copied and assigned
MC_SCOPE_LEAK(several) {
  static const Words U{"", "a", "ab", "z", "zz"};
  static const Words P{"", "a", "ab", "z", "zz", "b", "abc", "za", "aa"};
  static const Words UU{"", "A", "AB", "Z", "ZZ"}, PU{"", "A", "AB", "Z", "ZZ", "B", "ABC"};
  int kind[2] = {mc::choose(3), mc::choose(3)};
  Model m[2];
  Trie* t[2];
  for (int w = 0; w < 2; w++) t[w] = make(kind[w], m[w]);
  bool each = mc::flip();
  auto probe = [&](int w) -> const Words& { return kind[w] == 2 ? PU : P; };
  // both start populated
  for (int w = 0; w < 2; w++) {
    const Words& u = kind[w] == 2 ? UU : U;
    apply(*t[w], m[w], true, u[2]);
    apply(*t[w], m[w], true, u[1]);
  }
  int n = mc::range(0, mc::bound(3, 4));
  for (int i = 0; i < n; i++) {
    int w = mc::choose(2);
    const Words& u = kind[w] == 2 ? UU : U;
    int op = mc::choose(5);
    if (op < 2) {
      apply(*t[w], m[w], op == 0, mc::pick(u));
    } else if (op == 2) {
      MC_OP("trie %d := copy of the other", w);
      Trie* f = new Trie(*t[1 - w]);
      delete t[w];
      t[w] = f;
      m[w] = m[1 - w];
      kind[w] = kind[1 - w];
    } else if (op == 3) {
      MC_OP("trie %d = the other", w);
      *t[w] = *t[1 - w];
      m[w] = m[1 - w];
      kind[w] = kind[1 - w];
    } else {
      MC_OP("another trie comes and goes");
      Model x;
      std::unique_ptr<Trie> y(make(mc::choose(3) == 0 ? 1 : 2, x));
      if (x.toInt == upTo) y->insert("Q"); else y->insert("q");
    }
    if (each)
      for (int v = 0; v < 2; v++) check(*t[v], m[v], probe(v));
  }
  for (int v = 0; v < 2; v++) check(*t[v], m[v], probe(v));
  note(m[0], 1), note(m[1], 2);
  delete t[0];
  delete t[1];
}
#endif
