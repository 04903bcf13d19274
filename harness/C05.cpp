// modules:
// C05: Vector text output reads back identically; malformed text is rejected.
#include "containers.h"

#include <climits>
#include <cmath>
#include <limits>
#include <sstream>
#include "util.h"

using cuhksz::Vector;
using std::string;

// ------------------------------------------------------------ reference reader
// Accept: the text must be read as exactly these numbers. Reject: must end the program.
// Lenient: a spelling the claim leaves open (leading zeros, plus, bare point).
enum Verdict { Accept, Reject, Lenient };
struct Ref {
  Verdict v = Accept;
  std::vector<string> num;  // spellings
  size_t end = 0;           // offset just after the closing brace
};
static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static Ref refRead(const string& s, bool real) {
  Ref r;
  size_t i = 0;
  bool lenient = false;
  auto skip = [&] { while (i < s.size() && ws(s[i])) i++; };
  auto reject = [&] { r.v = Reject; return r; };
  skip();
  if (i >= s.size() || s[i] != '{') return reject();
  i++;
  skip();
  if (i < s.size() && s[i] == '}') {
    r.end = i + 1;
    return r;
  }
  while (true) {
    skip();
    size_t b = i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) {
      if (s[i] == '+') lenient = true;
      i++;
    }
    size_t d = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++;
    size_t nd = i - d;
    if (nd > 1 && s[d] == '0') lenient = true;
    if (real && i < s.size() && s[i] == '.') {
      size_t f = ++i;
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (!nd && i == f) return reject();
      if (!nd || i == f) lenient = true;
    } else if (!nd) {
      return reject();
    }
    if (real && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
      i++;
      if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
      size_t x = i;
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (i == x) return reject();
    }
    r.num.push_back(s.substr(b, i - b));
    skip();
    if (i >= s.size()) return reject();
    if (s[i] == '}') break;
    if (s[i] != ',') return reject();
    i++;
  }
  r.end = i + 1;
  if (lenient) r.v = Lenient;
  return r;
}

template <class T>
static T value(const string& s, bool& inRange) {
  inRange = true;
  if (std::numeric_limits<T>::is_integer) {
    __int128 v = 0;
    bool neg = s[0] == '-';
    for (char c : s)
      if (isdigit((unsigned char)c)) {
        v = v * 10 + (c - '0');
        if (v > (__int128)1 << 100) v = (__int128)1 << 100;
      }
    if (neg) v = -v;
    inRange = v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max();
    return (T)v;
  }
  double d = strtod(s.c_str(), nullptr);
  inRange = std::fabs(d) <= std::numeric_limits<T>::max();
  return (T)d;
}
// a number too small for the type: whether it is read as zero or rejected is open
static bool vanishes(const string& s) {
  double d = strtod(s.c_str(), nullptr);
  return std::fabs(d) < std::numeric_limits<double>::min() && s.substr(0, s.find_first_of("eE")).find_first_of("123456789") != string::npos;
}

template <class T>
static void readCase(const string& text) {
  bool real = !std::numeric_limits<T>::is_integer;
  Ref r = refRead(text, real);
  std::vector<T> want;
  for (auto& n : r.num) {
    bool in;
    want.push_back(value<T>(n, in));
    if (!in) r.v = Reject;
    if (real && r.v == Accept && vanishes(n)) r.v = Lenient;
  }
  Vector<T> v{(T)77, (T)88};
  if (text.size() % 2) v.clear();
  std::istringstream is(text);
  MC_OP("read %s: %s", mc::show(text).c_str(), r.v == Accept ? "list" : r.v == Reject ? "malformed" : "open");
  mc::state(mc::Hash().add(text).add(real));
  mc::outcome(r.v == Accept ? "accepted" : r.v == Reject ? "malformed" : "open");
  string what = "reading " + mc::show(text);
  if (r.v == Reject) {
    mc::mustDie("malformed", what, [&] { is >> v; });
    return;
  }
  mc::Exit e = mc::guard([&] { is >> v; });
  if (e.exited || e.threw) {
    if (r.v == Lenient) return;
    mc::fail("read", "%s ended the program", what.c_str());
  }
  MC_CHECK(v.size() == (int)want.size(), "read", "%s gave %d elements, expected %zu", what.c_str(), v.size(), want.size());
  for (size_t i = 0; i < want.size(); i++)
    MC_CHECK(v[(int)i] == want[i], "read", "%s: element %zu wrong", what.c_str(), i);
  // nothing after the brace is consumed
  is.clear();
  string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  MC_CHECK(rest == text.substr(r.end), "consume", "%s left %s in the stream, expected %s", what.c_str(),
           mc::show(rest).c_str(), mc::show(text.substr(r.end)).c_str());
}
MC_SCOPE(texts_int) { readCase<int>(mc::str("{},1- x", 0, mc::bound(7, 8))); }
MC_SCOPE(texts_real) { readCase<double>(mc::str("{},1.-\n", 0, mc::bound(7, 8))); }
// an opening brace and a number first, so that the tail is explored deeper
MC_SCOPE(texts_tail) {
  static const char* H[] = {"{1,", "{ 12 ,\t-3", "{0,0,0,0,0", "\n{-7"};
  string h = mc::pick(H);
  readCase<long long>(h + mc::str("},5- ;{", 0, mc::bound(6, 7)));
}

// ------------------------------------------------------------ token level
template <class T>
static const std::vector<string>& nums();
template <>
const std::vector<string>& nums<int>() {
  static std::vector<string> v{"0", "-1", "7", "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999999999999", "x", "", "1x", "-", "1 2", "1.5", "1e3", "0x10"};
  return v;
}
template <>
const std::vector<string>& nums<short>() {
  static std::vector<string> v{"0", "-1", "12345", "32767", "-32768", "32768", "-32769", "65536", "65537", "4294967296", "", "-"};
  return v;
}
template <>
const std::vector<string>& nums<long long>() {
  static std::vector<string> v{"0", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "100000000000000000000000000", "2147483648", "", "--1"};
  return v;
}
template <>
const std::vector<string>& nums<double>() {
  static std::vector<string> v{"0", "-1.5", "3.25", "123456", "0.000125", "-99999.5", "", "-", ".", "1..2", "1.2.3", "x", "--1", "1,5"};
  return v;
}
template <class T>
static void tokens() {
  static const char* W[] = {"", " ", "\n\t "};
  string w = mc::pick(W);
  int n = mc::range(0, mc::bound(3, 4));
  string t = w + "{";
  for (int i = 0; i < n; i++) {
    if (i) t += w + "," + (mc::flip() ? w : "");
    t += mc::pick(nums<T>());
  }
  static const char* TAIL[] = {"", "}", " }", "},", "}}", "} 5", "};", "}{1}", "} ", "1"};
  t += w + mc::pick(TAIL);
  // exponent and hexadecimal spellings of integer elements are malformed for every integer type
  readCase<T>(t);
}
MC_SCOPE(tokens_int) { tokens<int>(); }
MC_SCOPE(tokens_short) { tokens<short>(); }
MC_SCOPE(tokens_longlong) { tokens<long long>(); }
MC_SCOPE(tokens_real) { tokens<double>(); }

// ------------------------------------------------------------ output, round trip
static string squeeze(const string& s) {
  string o;
  for (char c : s)
    if (!ws(c)) o += c;
  return o;
}
template <class T>
static void roundTrip(const std::vector<T>& v, const std::vector<string>& spell) {
  Vector<T> x;
  for (auto& e : v) x.push(e);
  std::ostringstream os;
  bool twice = mc::flip();
  os << x;
  mc::plainStream(os, "writing a vector");
  string one = os.str(), want = "{";
  for (size_t i = 0; i < spell.size(); i++) want += (i ? "," : "") + spell[i];
  want += "}";
  MC_OP("write %s", want.c_str());
  MC_CHECK(squeeze(one) == want, "write", "wrote %s, expected %s", one.c_str(), want.c_str());
  MC_CHECK(!one.empty() && one[0] == '{' && one.back() == '}', "write", "output not brace delimited: %s", one.c_str());
  if (twice) os << x;
  os << " tail 010 -1.5";
  Vector<T> y{(T)5, (T)6, (T)7};
  if (v.size() % 2) y.clear();
  std::istringstream is(os.str());
  for (int k = 0; k <= (twice ? 1 : 0); k++) {
    mc::mustLive("roundtrip", "reading back " + one, [&] { is >> y; });
    MC_CHECK(y == x, "roundtrip", "%s did not read back equal", one.c_str());
  }
  string rest;
  is >> rest;
  MC_CHECK(rest == "tail", "consume", "text after the vector was consumed");
  int oct = 0;
  double real = 0;
  is >> oct >> real;
  MC_CHECK(oct == 10 && real == -1.5, "consume", "numbers after the vector read differently");
  MC_CHECK(x.size() == (int)v.size(), "write", "writing changed the vector");
  mc::Hash h;
  for (auto& s : spell) h.add(s);
  mc::state(h);
}
MC_SCOPE(write_int) {
  static const int V[] = {0, -1, 7, 100, INT_MAX, INT_MIN, -12345};
  int n = mc::range(0, mc::bound(5, 6));
  std::vector<int> v;
  std::vector<string> s;
  for (int i = 0; i < n; i++) v.push_back(mc::pick(V)), s.push_back(std::to_string(v.back()));
  roundTrip(v, s);
}
MC_SCOPE(write_longlong) {
  static const long long V[] = {0, -1, LLONG_MAX, LLONG_MIN, 4294967296LL};
  int n = mc::range(0, 4);
  std::vector<long long> v;
  std::vector<string> s;
  for (int i = 0; i < n; i++) v.push_back(mc::pick(V)), s.push_back(std::to_string(v.back()));
  roundTrip(v, s);
}
MC_SCOPE(write_real) {
  static const std::pair<double, const char*> V[] = {{0, "0"}, {-1.5, "-1.5"}, {123456, "123456"},
      {0.1, "0.1"}, {3.14159, "3.14159"}, {-99999.5, "-99999.5"}, {0.000125, "0.000125"}, {2e10, "2e+10"}, {1.25e-7, "1.25e-07"}};
  int n = mc::range(0, mc::bound(4, 5));
  std::vector<double> v;
  std::vector<string> s;
  for (int i = 0; i < n; i++) {
    auto& p = mc::pick(V);
    v.push_back(p.first), s.push_back(p.second);
  }
  roundTrip(v, s);
}
// every integer up to a bound, and every length up to a bound
MC_SCOPE(write_ladder) {
  int n = mc::range(0, mc::bound(300, 2000)), k = mc::choose(3);
  std::vector<int> v;
  std::vector<string> s;
  for (int i = 0; i < n; i++) {
    v.push_back(k == 0 ? i : k == 1 ? -i * 37 : (int)mc::scramble(i, n));
    s.push_back(std::to_string(v.back()));
  }
  roundTrip(v, s);
}
// beyond 16 bits
MC_SCOPE(write_huge) {
  int n = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), k = mc::choose(3);
  std::vector<int> v;
  std::vector<string> s;
  for (int i = 0; i < n; i++) {
    v.push_back(k == 0 ? i : k == 1 ? -i * 37 : (int)mc::scramble(i, n));
    s.push_back(std::to_string(v.back()));
  }
  mc::beat();
  roundTrip(v, s);
}
// reals over many magnitudes, by length; the last or every third of them tiny or huge
MC_SCOPE(write_real_ladder) {
  int n = mc::range(0, mc::bound(150, 600)), k = mc::choose(4);
  std::vector<double> v;
  std::vector<string> s;
  for (int i = 0; i < n; i++) {
    int mant = k == 0 ? i + 1 : 1 + (int)(mc::scramble(i, n) % 999999), ex = k == 0 ? 0 : k == 1 ? (i % 3 ? -2 : -12) : k == 2 ? (int)(mc::scramble(i, n + 1) % 41) - 23 : i % 2 ? 9 : -9;
    char b[40], c[40];
    snprintf(b, sizeof b, "%s%de%d", i % 5 == 4 ? "-" : "", mant, ex);
    v.push_back(strtod(b, nullptr));
    snprintf(c, sizeof c, "%g", v.back());
    s.push_back(c);
  }
  roundTrip(v, s);
}
// streams that cannot seek, deliver their text in blocks and can put back one character
struct Pipe : std::streambuf {
  string text;
  size_t at = 0, step;
  char buf[80];
  Pipe(const string& t, size_t s) : text(t), step(s) { setg(buf + 1, buf + 1, buf + 1); }
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (at == text.size()) return traits_type::eof();
    size_t keep = at ? 1 : 0, n = std::min(step, text.size() - at);
    if (keep) buf[0] = text[at - 1];
    for (size_t i = 0; i < n; i++) buf[1 + i] = text[at + i];
    setg(buf + 1 - keep, buf + 1, buf + 1 + n), at += n;
    return traits_type::to_int_type(*gptr());
  }
};
template <class T>
static void piped(const std::vector<string>& num) {
  size_t step = mc::pick({1, 2, 3, 5, 7, 64});
  int n = mc::pick({0, 1, 2, 3, 4, 9, 40}), w = mc::choose(4), cut = mc::choose(3);
  static const char* W[] = {"", " ", "\n  \t", " \r\n"};
  string t = w ? W[w] : "", ws = W[w];
  t += "{";
  std::vector<T> want;
  for (int i = 0; i < n; i++) {
    bool in;
    const string& s = num[(i * 7 + n) % num.size()];
    want.push_back(value<T>(s, in));
    t += ws + (i ? "," : "") + ws + s;
  }
  t += ws;
  if (cut < 2) t += "}";
  if (cut == 1) t += " tail {5}";
  MC_OP("blocks of %zu: %s", step, mc::show(t).c_str());
  mc::state(mc::Hash().add(t).add((int)step));
  Pipe p(t, step);
  std::istream is(&p);
  Vector<T> v{(T)3};
  if (cut == 2) {
    mc::mustDie("malformed", "reading an unclosed list from blocks", [&] { is >> v; });
    return;
  }
  mc::mustLive("read", "reading a list from blocks", [&] { is >> v; });
  MC_CHECK(v.size() == (int)want.size(), "read", "%d elements, expected %zu", v.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) MC_CHECK(v[(int)i] == want[i], "read", "element %zu wrong", i);
  if (cut == 1) {
    string rest;
    is >> rest;
    MC_CHECK(rest == "tail", "consume", "text after the list was consumed");
    mc::mustLive("read", "reading the next list", [&] { is >> v; });
    MC_CHECK(v.size() == 1 && v[0] == (T)5, "read", "next list wrong");
  }
}
MC_SCOPE(piped_int) { piped<int>({"0", "-1", "77", "2147483647", "-2147483648", "5"}); }
MC_SCOPE(piped_real) { piped<double>({"0", "-1.5", "77", "2e10", "-0.000125", "5", "1.25e-07"}); }
// every truncation and every single-character corruption of written text
MC_SCOPE(corrupt) {
  static const char* T[] = {"{}", "{1}", "{1, 2}", "{-10, 0, 33}", "{ 4 ,5 }", "{2, 1.5, -3e+10}", "{0.25,1e-07}"};
  string t = mc::pick(T);
  int k = mc::choose(4);
  size_t i = mc::choose((int)t.size());
  switch (k) {
    case 0: t = t.substr(0, i); break;
    case 1: t.erase(i, 1); break;
    case 2: t[i] = (char)mc::choose(256); break;
    case 3: t.insert(t.begin() + i, (char)mc::choose(256)); break;
  }
  if (mc::flip()) readCase<double>(t); else readCase<int>(t);
}
