// Reference JSON values and parsers, independent of the library.
#ifndef VERIF_JSON_REF_H
#define VERIF_JSON_REF_H
#include <math.h>
#include <stdlib.h>
#include <string>
#include <utility>
#include <vector>
#include "json.h"
#include "util.h"

using cuhksz::JSONObject;
using std::string;
typedef JSONObject::Type Ty;

struct J {
  enum K { Null, Bool, Int, Real, Str, Arr, Obj } k = Null;
  bool b = false;
  int i = 0;
  double d = 0;
  string s;
  std::vector<J> a;
  std::vector<std::pair<string, J>> o;  // ascending keys
  static J null() { return J(); }
  static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
  static J integer(int v) { J j; j.k = Int; j.i = v; return j; }
  static J real(double v) { J j; j.k = Real; j.d = v; return j; }
  static J str(const string& v) { J j; j.k = Str; j.s = v; return j; }
  static J arr() { J j; j.k = Arr; return j; }
  static J obj() { J j; j.k = Obj; return j; }
  J* find(const string& key) {
    for (auto& p : o)
      if (p.first == key) return &p.second;
    return nullptr;
  }
  J& key(const string& key_) {  // makes this an object
    if (k != Obj) { J n = obj(); *this = n; }
    if (J* f = find(key_)) return *f;
    size_t p = 0;
    while (p < o.size() && o[p].first < key_) p++;
    o.insert(o.begin() + p, std::make_pair(key_, J()));
    return o[p].second;
  }
  J& at(size_t n) {  // makes this an array
    if (k != Arr) { J x = arr(); *this = x; }
    if (n >= a.size()) a.resize(n + 1);
    return a[n];
  }
  void push(const J& v) {
    if (k != Arr) { J x = arr(); J c = v; *this = x; a.push_back(c); return; }
    J c = v;
    a.push_back(c);
  }
  size_t nodes() const {
    size_t n = 1;
    for (auto& x : a) n += x.nodes();
    for (auto& p : o) n += p.second.nodes();
    return n;
  }
};
static double realTol = 1e-12;  // relative; zero where text and value have to agree exactly
static bool same(const J& x, const J& y) {
  if (x.k != y.k) return false;
  switch (x.k) {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Int: return x.i == y.i;
    case J::Real: return x.d == y.d || fabs(x.d - y.d) <= realTol * fabs(x.d);
    case J::Str: return x.s == y.s;
    case J::Arr:
      if (x.a.size() != y.a.size()) return false;
      for (size_t i = 0; i < x.a.size(); i++)
        if (!same(x.a[i], y.a[i])) return false;
      return true;
    case J::Obj:
      if (x.o.size() != y.o.size()) return false;
      for (size_t i = 0; i < x.o.size(); i++)
        if (x.o[i].first != y.o[i].first || !same(x.o[i].second, y.o[i].second)) return false;
      return true;
  }
  return false;
}
static string esc(const string& s) {
  string o;
  for (char c : s) switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\b': o += "\\b"; break;
      case '\f': o += "\\f"; break;
      case '\n': o += "\\n"; break;
      case '\r': o += "\\r"; break;
      case '\t': o += "\\t"; break;
      default: o += c;
    }
  return o;
}
static void hashJ(const J& x, mc::Hash& h) {
  h.add(x.k).add(x.b).add((unsigned)x.i).add(mc::hashBytes(&x.d, sizeof x.d)).add(x.s).add(x.a.size()).add(x.o.size());
  for (auto& e : x.a) hashJ(e, h);
  for (auto& p : x.o) h.add(p.first), hashJ(p.second, h);
}
static void noteJ(const J& x) {
  mc::Hash h;
  hashJ(x, h);
  mc::state(h);
}
static string shorten(const string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// ------------------------------------------------------------ reference parsers
// strict: RFC 8259, except that \uXXXX denotes its own six characters, as documented.
// lenient: what the parser may, but need not, accept (see DESIGN.md, C14).
struct Ref {
  const string& t;
  size_t p = 0;
  bool strict;
  bool intRange = true;  // every integer fits
  bool moderate = true;  // every real is of moderate size
  Ref(const string& text, bool strict_) : t(text), strict(strict_) {}
  int c() const { return p < t.size() ? (unsigned char)t[p] : -1; }
  static bool dig(int ch) { return ch >= '0' && ch <= '9'; }
  void ws() {
    while (c() == ' ' || c() == '\n' || c() == '\t' || c() == '\r' || (!strict && (c() == '\v' || c() == '\f'))) p++;
  }
  bool lit(const char* w) {
    size_t n = strlen(w);
    if (t.compare(p, n, w)) return false;
    p += n;
    return true;
  }
  bool text(string& out) {
    if (c() != '"') return false;
    p++;
    while (true) {
      int ch = c();
      if (ch < 0) return false;
      p++;
      if (ch == '"') return true;
      if (ch == '\\') {
        int e = c();
        if (e < 0) return false;
        p++;
        switch (e) {
          case '"': out += '"'; break;
          case '\\': out += '\\'; break;
          case '/': out += '/'; break;
          case 'b': out += '\b'; break;
          case 'f': out += '\f'; break;
          case 'n': out += '\n'; break;
          case 'r': out += '\r'; break;
          case 't': out += '\t'; break;
          case 'u':
            out += "\\u";
            for (int i = 0; i < 4; i++) {
              int x = c();
              if (!(dig(x) || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F'))) return false;
              out += (char)x;
              p++;
            }
            break;
          default:
            if (strict) return false;
            out += '?';
        }
      } else {
        if (strict && ch < 0x20) return false;
        out += (char)ch;
      }
    }
  }
  bool number(J& v) {
    size_t b = p;
    bool real = false;
    if (c() == '-') p++;
    size_t d = p;
    while (dig(c())) p++;
    if (p == d) return false;
    if (strict && p > d + 1 && t[d] == '0') return false;
    if (c() == '.') {
      real = true;
      size_t f = ++p;
      while (dig(c())) p++;
      if (p == f) return false;
    }
    if (c() == 'e' || c() == 'E') {
      real = true;
      p++;
      if (c() == '+' || c() == '-') p++;
      size_t f = p;
      while (dig(c())) p++;
      if (p == f) return false;
    }
    if (dig(c()) || c() == '.' || c() == '+' || c() == '-' || c() == 'e' || c() == 'E') return false;
    string w = t.substr(b, p - b);
    if (real) {
      v = J::real(strtod(w.c_str(), nullptr));
      double m = fabs(v.d);
      if (m > 1e300 || (m != 0 && m < 1e-300) || w.size() > 60) moderate = false;
      if (m == 0)
        for (char x : w) {
          if (x == 'e' || x == 'E') break;
          if (x >= '1' && x <= '9') moderate = false;
        }
    } else {
      __int128 n = 0;
      for (char x : w)
        if (dig(x) && n < (__int128)1 << 60) n = n * 10 + (x - '0');
      if (w[0] == '-') n = -n;
      if (n > 2147483647 || n < -2147483648LL) intRange = false;
      v = J::integer((int)n);
    }
    return true;
  }
  bool value(J& v) {
    ws();
    switch (c()) {
      case '{': {
        v = J::obj();
        p++;
        ws();
        if (c() == '}') {
          p++;
          return true;
        }
        while (true) {
          ws();
          string k;
          if (!text(k)) return false;
          ws();
          if (c() != ':') return false;
          p++;
          J x;
          if (!value(x)) return false;
          v.key(k) = x;
          ws();
          if (c() == ',') {
            p++;
            continue;
          }
          if (c() != '}') return false;
          p++;
          return true;
        }
      }
      case '[': {
        v = J::arr();
        p++;
        ws();
        if (c() == ']') {
          p++;
          return true;
        }
        while (true) {
          J x;
          if (!value(x)) return false;
          v.a.push_back(x);
          ws();
          if (c() == ',') {
            p++;
            continue;
          }
          if (c() != ']') return false;
          p++;
          return true;
        }
      }
      case '"':
        v = J::str("");
        return text(v.s);
      case 't': v = J::boolean(true); return lit("true");
      case 'f': v = J::boolean(false); return lit("false");
      case 'n': v = J::null(); return lit("null");
    }
    return number(v);
  }
};
// the whole text is one valid JSON document
static bool strictParse(const string& t, J& v) {
  Ref r(t, true);
  if (!r.value(v)) return false;
  r.ws();
  return r.p == t.size();
}

// ------------------------------------------------------------ observing the implementation
static const char* kindName(J::K k) {
  static const char* N[] = {"null", "boolean", "integer", "real", "string", "array", "object"};
  return N[k];
}
// compares the library's value with the expected one through the read-only interface
static void expectJ(const JSONObject& x, const J& m, const string& where) {
  static const Ty T[] = {Ty::Null, Ty::Boolean, Ty::Integral, Ty::Float, Ty::String, Ty::Array, Ty::Object};
  const char* w = where.c_str();
  if (x.getType() != T[m.k]) mc::fail("kind", "%s: kind %d, expected %s", w, (int)x.getType(), kindName(m.k));
  if (x.isNull() != (m.k == J::Null)) mc::fail("kind", "%s: isNull wrong", w);
  int size = m.k == J::Arr ? (int)m.a.size() : m.k == J::Obj ? (int)m.o.size() : -1;
  if (x.size() != size) mc::fail("size", "%s: size %d, expected %d", w, x.size(), size);
  if (x.length() != (m.k == J::Arr ? size : -1)) mc::fail("size", "%s: length %d", w, x.length());
  if (x.toInt() != (m.k == J::Int ? m.i : 0) || (int)x != x.toInt()) mc::fail("scalar", "%s: integer %d, expected %d", w, x.toInt(), m.i);
  if (x.toBool() != (m.k == J::Bool && m.b) || (bool)x != x.toBool()) mc::fail("scalar", "%s: boolean wrong", w);
  double d = m.k == J::Real ? m.d : 0.0;
  if (!(x.toDouble() == d || fabs(x.toDouble() - d) <= 1e-12 * fabs(d)) || (double)x != x.toDouble())
    mc::fail("scalar", "%s: real %.17g, expected %.17g", w, x.toDouble(), d);
  if (fabs(d) < 1e30 && (x.toFloat() != (float)x.toDouble() || (float)x != x.toFloat())) mc::fail("scalar", "%s: float %g", w, x.toFloat());
  string s = m.k == J::Str ? esc(m.s) : "";
  if (x.toString() != s || (string)x != s)
    mc::fail("scalar", "%s: string %s, expected %s", w, mc::show(shorten(x.toString())).c_str(), mc::show(shorten(s)).c_str());
  size_t n = 0;
  auto ar = x.ArrayRange();
  if (m.k != J::Arr) {
    if (!(ar.begin() == ar.end())) mc::fail("iterate", "%s: array iteration over another kind", w);
  } else {
    for (auto& e : ar) {
      if (n >= m.a.size()) mc::fail("iterate", "%s: too many elements", w);
      expectJ(e, m.a[n], where.size() < 80 ? where + "[" + std::to_string(n) + "]" : where);
      if (&e != &x.at((unsigned)n)) mc::fail("iterate", "%s: element %zu is not the one at() finds", w, n);
      n++;
    }
    if (n != m.a.size()) mc::fail("iterate", "%s: %zu elements, expected %zu", w, n, m.a.size());
  }
  n = 0;
  auto ob = x.ObjectRange();
  if (m.k != J::Obj) {
    if (!(ob.begin() == ob.end())) mc::fail("iterate", "%s: member iteration over another kind", w);
    if (x.hasKey("a") || x.hasKey("")) mc::fail("key", "%s: has keys", w);
  } else {
    for (auto& e : ob) {
      if (n >= m.o.size()) mc::fail("iterate", "%s: too many members", w);
      if (e.first != m.o[n].first)
        mc::fail("key", "%s: member key %s, expected %s", w, mc::show(e.first).c_str(), mc::show(m.o[n].first).c_str());
      expectJ(e.second, m.o[n].second, where.size() < 80 ? where + "." + mc::show(e.first) : where);
      if (!x.hasKey(e.first)) mc::fail("key", "%s: key %s not found", w, mc::show(e.first).c_str());
      if (&x.at(e.first) != &e.second) mc::fail("key", "%s: at() finds another member", w);
      n++;
    }
    if (n != m.o.size()) mc::fail("iterate", "%s: %zu members, expected %zu", w, n, m.o.size());
  }
}
#endif
