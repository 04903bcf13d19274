// modules: string_utils
// C29: stringCast over every short text of the numeric alphabet, boundary numbers, and histories.
#include "string_utils/StringCast.h"

#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <memory>
#include "mc.h"
#include "util.h"

using cuhksz::stringCast;
using std::string;
typedef __int128 big;

static bool digit(char c) { return c >= '0' && c <= '9'; }
static size_t blanks(const string& s) {
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++;
  return i;
}
// the leading integer of the text; false when there is none
static bool leadingInt(const string& s, big& v) {
  size_t i = blanks(s);
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i >= s.size() || !digit(s[i])) return false;
  v = 0;
  for (; i < s.size() && digit(s[i]); i++) v = v > ((big)1 << 100) ? v : v * 10 + (s[i] - '0');
  if (neg) v = -v;
  return true;
}
// the leading decimal number; `settled` is false where the text goes on like an unfinished number
// (an exponent without digits), whose reading the property leaves open
static bool leadingReal(const string& s, string& num, bool& settled) {
  size_t b = blanks(s), i = b;
  settled = true;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  size_t d = 0;
  while (i < s.size() && digit(s[i])) i++, d++;
  if (i < s.size() && s[i] == '.') {
    i++;
    while (i < s.size() && digit(s[i])) i++, d++;
  }
  if (!d) return false;
  size_t end = i;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    i++;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    if (i < s.size() && digit(s[i])) {
      while (i < s.size() && digit(s[i])) i++;
      end = i;
    } else settled = false;
  }
  num = s.substr(b, end - b);
  return true;
}
// both call forms, twice
template <class T> static T cast(const string& s) {
  stringCast<T> c(s);
  T a = c, b = c(), d = (T)stringCast<T>(s), e = stringCast<T>(s)();
  mc::ops(4);
  if (!(a == b && a == d && a == e) ) mc::fail("forms", "the call forms disagree on %s", mc::show(s).c_str());
  return a;
}
template <class T> static string num(T v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
template <class T> static void checkInt(const string& s, const char* type) {
  big v = 0;
  bool has = leadingInt(s, v);
  if (has && (v < (big)std::numeric_limits<T>::min() || v > (big)std::numeric_limits<T>::max())) return;  // not representable
  T want = has ? (T)v : T(0), got = cast<T>(s);
  mc::outcome(has ? "number" : "no number");
  if (got != want) mc::fail(has ? "value:int" : "zero:int", "stringCast<%s>(%s) is %s, should be %s", type, mc::show(s).c_str(), num(got).c_str(), num(want).c_str());
}
template <class T> static void checkReal(const string& s, const char* type, T (*ref)(const char*, char**)) {
  string n;
  bool settled;
  bool has = leadingReal(s, n, settled);
  if (!settled) return;
  T want = has ? ref(n.c_str(), nullptr) : T(0);
  if (!std::isfinite(want)) return;
  T got = cast<T>(s);
  mc::outcome(has ? "number" : "no number");
  if (got != want) mc::fail(has ? "value:real" : "zero:real", "stringCast<%s>(%s) is %s, should be %s", type, mc::show(s).c_str(), num(got).c_str(), num(want).c_str());
}
static void all(const string& s) {
  checkInt<int>(s, "int");
  checkInt<long long>(s, "long long");
  checkInt<short>(s, "short");
  if (s.find('-') == string::npos) checkInt<unsigned>(s, "unsigned");
  checkReal<double>(s, "double", strtod);
  checkReal<float>(s, "float", strtof);
  checkReal<long double>(s, "long double", strtold);
}
// hexadecimal-looking or otherwise special texts after a number are not in these alphabets
MC_SCOPE(short_texts) {
  string s = mc::str("019+-. ae\t", 0, mc::bound(6, 7));
  MC_OP("cast %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  all(s);
}
MC_SCOPE(whitespace) {
  string s = mc::str(string(" \n\t\r\v\f-5x"), 0, mc::bound(6, 7));
  MC_OP("cast %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  checkInt<int>(s, "int");
  checkReal<double>(s, "double", strtod);
}
MC_SCOPE(no_numbers) {
  static const char* T[] = {"", " ", "abc", "+", "-", "- 5", "--5", "+-5", "x1", "null", "true", ",5", "(5)", "e5", "$3", "\xc3\xa9", "/", ":", "_1", "\x7f"};
  string s = mc::pick(T), pre = mc::flip() ? "  " : "";
  MC_OP("cast %s", mc::show(pre + s).c_str());
  mc::state(mc::Hash().add(pre + s));
  all(pre + s);
}
// boundary values of each type, in several surroundings
MC_SCOPE(boundary_int) {
  static const char* PRE[] = {"", " ", "\n\t ", "000", "+"};
  static const char* POST[] = {"", " ", "x", " 7", ".9", ",1", "\n"};
  static const long long V[] = {0, 1, 9, 10, 127, 128, 255, 256, 999, 32766, 32767, 32768, 65535, 65536, 99999, 1000000, 2147483646LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 999999999999LL, LLONG_MAX - 1, LLONG_MAX};
  string pre = mc::pick(PRE), post = mc::pick(POST);
  long long v = mc::pick(V);
  bool neg = pre != "000" && pre != "+" && mc::flip();
  string s = pre + (neg ? "-" : "") + std::to_string(v) + post;
  MC_OP("cast %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  all(s);
  if (neg && v == LLONG_MAX) checkInt<long long>(pre + std::to_string(LLONG_MIN) + post, "long long");
  if (neg && v == 2147483648LL) checkInt<int>(pre + "-2147483648" + post, "int");
}
MC_SCOPE(boundary_real) {
  static const char* PRE[] = {"", " ", "-", "+", " -"};
  static const char* POST[] = {"", " ", "x", " 7", ",1"};
  static const char* V[] = {"0.1", "0.5", "1e10", "1E10", "1e-10", "1e+5", "123456789.123456789", "0.30000000000000004", "1.7976931348623157e308", "2.2250738585072014e-308", "9007199254740993", "1e22", "1e23", "3.4028234e38", "1.17549435e-38", "0.000001", "5e-3", ".5", "5.", "00.5", "16777217", "4.35", "2.675", "8.41", "1e0", "0e5"};
  string s = string(mc::pick(PRE)) + mc::pick(V) + mc::pick(POST);
  MC_OP("cast %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  checkReal<double>(s, "double", strtod);
  checkReal<long double>(s, "long double", strtold);
  if (s.find("308") == string::npos) checkReal<float>(s, "float", strtof);
}
// every 16-bit number, and a lattice of the 32-bit ones
MC_SCOPE(every_short) {
  int hi = mc::range(-128, 127);
  MC_OP("shorts %d..%d", hi * 256, hi * 256 + 255);
  for (int lo = 0; lo < 256; lo++) {
    int v = hi * 256 + lo;
    mc::state(mc::Hash().add(v));
    string s = std::to_string(v);
    if (cast<short>(s) != v || cast<int>(s) != v || cast<double>(s) != v) mc::fail("value:int", "stringCast of %d", v);
    long long w = (long long)mc::scramble(v, 3);
    if (cast<long long>(std::to_string(w)) != w) mc::fail("value:int", "stringCast<long long> of %lld", w);
    int x = (int)(w >> 20);
    if (cast<int>(std::to_string(x)) != x) mc::fail("value:int", "stringCast<int> of %d", x);
    double d;
    memcpy(&d, &w, 8);
    if (std::isnormal(d)) {
      char b[64];
      snprintf(b, sizeof b, "%.17g", d);
      if (cast<double>(b) != d) mc::fail("value:real", "stringCast<double>(%s)", b);
    }
  }
}
// other targets with a stream reader
// every length of leading blanks, leading zeros and following text
MC_SCOPE(lengths) {
  int n = mc::size(0, mc::bound(1100, 2200), {4095, 4096, 4097, 65536}), form = mc::choose(5);
  static const char* V[] = {"5", "-12", "+7", "2147483647", "-2147483648", "0.5", "-3e2", "-", ""};
  string v = mc::pick(V);
  MC_OP("number %s, form %d with %d characters", v.c_str(), form, n);
  mc::state(mc::Hash().add(n).add(form).add(v));
  string s;
  switch (form) {
    case 0: s = string(n, ' ') + v; break;
    case 1: s = v + string(n, ' ') + "9"; break;
    case 2: s = v + " " + string(n, '8'); break;
    case 3: for (int i = 0; i < n; i++) s += " \n\t\r"[i % 4]; s += v + "x"; break;
    default: {
      size_t sign = v.size() && (v[0] == '-' || v[0] == '+');
      if (v.size() == sign || n > 2000) return;
      s = v.substr(0, sign) + string(n, '0') + v.substr(sign) + string(n % 3, 'y');
    }
  }
  checkInt<int>(s, "int");
  checkInt<long long>(s, "long long");
  checkReal<double>(s, "double", strtod);
}
// numbers of every number of digits
MC_SCOPE(digits) {
  int k = mc::range(1, 19), form = mc::choose(13), neg = mc::choose(3), zeros = mc::choose(3);
  string d;
  for (int i = 0; i < k; i++) d += form < 10 ? (char)(i ? '0' + form : '1' + form % 9) : form == 10 ? (char)('1' + i % 9) : form == 11 ? (i ? '0' : '1') : (char)('1' + mc::scramble(i, k) % 9);
  if (k == 19 && d > "9223372036854775807") d[0] = '8';
  for (char last = '0'; last <= '9'; last++) {
    d[k - 1] = last;
    string s = string(neg == 1 ? "-" : neg == 2 ? "+" : "") + string((size_t)zeros * 3, '0') + d;
    MC_OP("cast %s", s.c_str());
    mc::state(mc::Hash().add(s));
    checkInt<long long>(s, "long long");
    if (k < 10) checkInt<int>(s, "int");
    checkReal<double>(s, "double", strtod);
    checkReal<double>(s + "." + d, "double", strtod);
    checkReal<double>(s + "e-" + std::to_string(k), "double", strtod);
  }
}
// long mantissas with exponents
MC_SCOPE(long_reals) {
  int k = mc::size(1, mc::bound(400, 800), {255, 256, 257, 300}), point = mc::choose(4), e = mc::choose(9), form = mc::choose(3);
  string d;
  for (int i = 0; i < k; i++) d += form == 0 ? (char)('1' + i % 9) : form == 1 ? '9' : i ? '0' : '1';
  if (point == 1) d.insert(1, ".");
  if (point == 2) d.insert(d.size() / 2, k > 1 ? "." : "");
  if (point == 3) d = "0." + d;
  static const char* E[] = {"", "e0", "e5", "E+7", "e-3", "E-40", "e-250", "e+0012", "e-00001"};
  string s = d + E[e];
  MC_OP("cast %s", s.c_str());
  mc::state(mc::Hash().add(s));
  for (string t : {s, "-" + s, " +" + s + " 7", s + ",5"}) {
    checkReal<double>(t, "double", strtod);
    checkReal<long double>(t, "long double", strtold);
  }
}
#ifndef MC_PLAIN
MC_SCOPE(other_types) {
  static const char* W[] = {"hello", " hello world", "", " ", "a", "12 34", "\tx\ny"};
  string s = mc::pick(W);
  MC_OP("cast %s to string", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  string want;
  size_t i = blanks(s);
  while (i < s.size() && blanks(s.substr(i)) == 0) want += s[i++];
  string got = stringCast<string>(s)();
  mc::ops(1);
  if (got != want) mc::fail("value:word", "stringCast<string>(%s) is %s", mc::show(s).c_str(), mc::show(got).c_str());
  bool b0 = stringCast<bool>("0"), b1 = stringCast<bool>(" 1"), bx = stringCast<bool>("x"), be = stringCast<bool>("");
  if (b0 || !b1 || bx || be) mc::fail("value:bool", "stringCast<bool>");
}
#endif
// histories: casts made, evaluated, and sources changed or destroyed in every order
MC_SCOPE_LEAK(histories) {
  { stringCast<int> warm("1"); warm(); stringCast<double> w2("x"); w2(); }
  mc::g().noLeak = true;
  static const char* T[] = {"7", "-12x", "", "abc", "99999 long enough to live on the heap, certainly"};
  static const int V[] = {7, -12, 0, 0, 99999};
  std::unique_ptr<string> src[2];
  std::unique_ptr<stringCast<int>> c[2];
  std::unique_ptr<stringCast<double>> d[2];
  int val[2] = {0, 0}, cv[2] = {0, 0};
  mc::Hash h;
  int n = mc::bound(6, 7);
  for (int i = 0; i < n; i++) {
    int k = mc::choose(2), op = mc::choose(9);
    mc::state(h.add(k).add(op));
    mc::ops(1);
    if (op < 5) {
      MC_OP("source %d = %s", k, mc::show(T[op]).c_str());
      if (src[k]) *src[k] = T[op];
      else src[k].reset(new string(T[op]));
      val[k] = V[op];
    } else if (op == 5) {
      if (!src[k]) break;
      MC_OP("cast object %d from source %d", k, k);
      c[k].reset(new stringCast<int>(*src[k]));
      d[k].reset(new stringCast<double>(*src[k]));
      cv[k] = val[k];
    } else if (op == 6) {
      MC_OP("source %d destroyed", k);
      src[k].reset();
    } else if (op == 7) {
      if (!c[k]) break;
      MC_OP("cast object %d copied over", k);
      std::unique_ptr<stringCast<int>> x(new stringCast<int>(*c[k]));
      c[k].swap(x);
    } else {
      MC_OP("cast of source %d at once", k);
      if (src[k]) {
        int v = stringCast<int>(*src[k]);
        if (v != val[k]) mc::fail("history", "cast at once gives %d, should be %d", v, val[k]);
      }
    }
    for (int j = 0; j < 2; j++)
      if (c[j]) {
        int a = *c[j], b = (*c[j])();
        double e = *d[j];
        mc::ops(3);
        if (a != cv[j] || b != cv[j] || e != cv[j]) mc::fail("history", "cast object %d gives %d, %d and %g, should be %d", j, a, b, e, cv[j]);
      }
  }
}
