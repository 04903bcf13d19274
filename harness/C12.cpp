// modules: json
// C12: dumping gives valid JSON denoting the value; loading it gives the value back.
#include "json_ref.h"

#include <climits>

// ------------------------------------------------------------ building values
// way: which of the public construction routes is used
static JSONObject make(const J& m, int way) {
  switch (m.k) {
    case J::Null: return way == 1 ? JSONObject(nullptr) : JSONObject();
    case J::Bool: return JSONObject(m.b);
    case J::Int: return JSONObject(m.i);
    case J::Real: return JSONObject(m.d);
    case J::Str: return JSONObject(m.s);
    case J::Arr: {
      JSONObject r = JSONObject::Array();
      for (size_t i = 0; i < m.a.size(); i++) {
        if (way == 0)
          r.append(make(m.a[i], way));
        else if (way == 1)
          r[(int)i] = make(m.a[i], way);
        else {
          JSONObject x = make(m.a[i], way);
          r.at((unsigned)i) = x;
        }
      }
      return r;
    }
    case J::Obj: {
      if (way == 2 && m.o.size() == 1) return JSONObject{JSONObject(m.o[0].first), make(m.o[0].second, way)};
      if (way == 2 && m.o.size() == 2)
        return JSONObject{JSONObject(m.o[1].first), make(m.o[1].second, way), JSONObject(m.o[0].first), make(m.o[0].second, way)};
      JSONObject r = JSONObject::Object();
      for (auto& p : m.o) {
        if (way == 0)
          r[p.first] = make(p.second, way);
        else
          r.at(p.first) = make(p.second, way);
      }
      return r;
    }
  }
  return JSONObject();
}
static void roundTrip(const J& m, int way) {
  noteJ(m);
  realTol = 0;
  const JSONObject x = make(m, way);
  mc::ops(1);
  string t;
  mc::mustLive("dump", "dumping", [&] { t = x.dump(); });
  MC_OP("dump %s", mc::show(shorten(t)).c_str());
  J back;
  MC_CHECK(strictParse(t, back), "dump:syntax", "dump is not valid JSON: %s", mc::show(shorten(t)).c_str());
  MC_CHECK(same(back, m), "dump:value", "dump denotes another value: %s", mc::show(shorten(t)).c_str());
  JSONObject y;
  mc::mustLive("reload", "loading the dump " + mc::show(shorten(t)), [&] { y = cuhksz::loadJSON(t); });
  expectJ(y, m, "reloaded");
  expectJ(x, m, "dumped");
  MC_CHECK(x.dump() == t, "dump:repeat", "a second dump differs");
  MC_CHECK(y.dump() == t, "dump:canonical", "the reloaded value dumps differently: %s", mc::show(shorten(y.dump())).c_str());
}
// other layouts and the stream operator
static void layouts(const J& m) {
  const JSONObject x = make(m, 0);
  static const std::pair<int, const char*> L[] = {{0, "  "}, {1, ""}, {2, "\t"}, {3, "    "}, {1, " "}};
  auto& l = mc::pick(L);
  string t = x.dump(l.first, l.second);
  MC_OP("dump depth %d tab %s", l.first, mc::show(l.second).c_str());
  J back;
  MC_CHECK(strictParse(t, back) && same(back, m), "dump:layout", "layout dump wrong: %s", mc::show(shorten(t)).c_str());
  expectJ(cuhksz::loadJSON(t), m, "reloaded");
  std::ostringstream os;
  os << x << '|';
  mc::plainStream(os, "writing a value");
  MC_CHECK(os.str() == x.dump() + "|", "dump:stream", "stream output differs from dump");
}

// ------------------------------------------------------------ generators
static const char* KEYS[] = {"k", "", "a\"b", "\\", "n\nt\t"};
static J gen(int depth, int width, int kinds) {
  int k = mc::choose(depth > 0 ? kinds + 2 : kinds);
  if (k < kinds) {
    switch (k) {
      case 0: return J::integer(7);
      case 1: return J::str("s\"\\\n");
      case 2: return J::null();
      case 3: return J::boolean(true);
      case 4: return J::real(-2.5);
      case 5: return J::boolean(false);
      case 6: return J::str("");
      case 7: return J::integer(INT_MIN);
    }
  }
  int n = mc::range(0, width);
  if (k == kinds) {
    J j = J::arr();
    for (int i = 0; i < n; i++) j.a.push_back(gen(depth - 1, width, kinds));
    return j;
  }
  J j = J::obj();
  for (int i = 0; i < n; i++) j.key(KEYS[i]) = gen(depth - 1, width, kinds);
  return j;
}
MC_SCOPE_LEAK(shapes) {
  int way = mc::choose(3);
  roundTrip(gen(2, 2, mc::bound(6, 8)), way);
}
MC_SCOPE_LEAK(shapes_deep) {
  int way = mc::choose(2);
  roundTrip(gen(3, 2, mc::bound(1, 2)), way);
}
MC_SCOPE_LEAK(shapes_wide) { roundTrip(gen(1, mc::bound(4, 5), 8), mc::choose(3)); }
MC_SCOPE_LEAK(shapes_layout) { layouts(gen(2, 2, 3)); }
// strings over the characters that matter, as value, as key, and nested
static const string SP("\"\\/\b\f\n\r\tau0{}[],: \xc3\xa9-", 21);
static J place(const string& s, int where) {
  if (where == 0) return J::str(s);
  if (where == 1) {
    J o = J::obj();
    o.key(s) = J::str(s);
    return o;
  }
  J o = J::obj();
  o.key("x" + s) = J::integer(1);
  o.key(s) = J::arr();
  o.key(s).a.push_back(J::str(s));
  o.key(s).a.push_back(J::str(s + s));
  J a = J::arr();
  a.a.push_back(o);
  return a;
}
MC_SCOPE_LEAK(strings) {
  string s = mc::str(SP, 0, mc::bound(4, 4));
  roundTrip(place(s, mc::choose(3)), 0);
}
MC_SCOPE_LEAK(strings_escape) {
  string s = mc::str("\\\"nu0b/", 0, mc::bound(6, 7));
  roundTrip(place(s, mc::choose(2)), 0);
}
// every printable character and pair of them
MC_SCOPE_LEAK(characters) {
  std::vector<char> cs;
  for (int c = 32; c < 127; c++) cs.push_back((char)c);
  for (char c : {'\b', '\f', '\n', '\r', '\t'}) cs.push_back(c);
  string s(1, mc::pick(cs));
  s += mc::pick(cs);
  if (mc::flip()) s = s[0] == ' ' ? "caf\xc3\xa9 \xe4\xb8\xad" + s : s.substr(0, 1);
  roundTrip(place(s, mc::choose(2)), 0);
}
MC_SCOPE_LEAK(integers) {
  std::vector<int> v;
  for (int i = -1100; i <= 1100; i++) v.push_back(i);
  for (int p = 10; p < 31; p++)
    for (int d = -1; d <= 1; d++) v.push_back((1 << p) + d), v.push_back(-(1 << p) + d);
  for (int p = 1000; p < 1000000001 && p > 0; p = p == 1000000000 ? -1 : p * 10) v.push_back(p), v.push_back(-p), v.push_back(p - 1);
  v.push_back(INT_MAX), v.push_back(INT_MIN), v.push_back(INT_MAX - 1), v.push_back(INT_MIN + 1);
  int n = mc::pick(v), w = mc::choose(3);
  J j = J::integer(n);
  if (w) {
    J a = J::arr();
    a.a.push_back(j), a.a.push_back(w == 1 ? j : J::integer(-(n / 2)));
    j = a;
  }
  roundTrip(j, 0);
}
// reals with up to six decimals
MC_SCOPE_LEAK(reals) {
  static const double SC[] = {1, 10, 100, 1000, 1e4, 1e5, 1e6};
  static const long long MA[] = {0, 1, 2, 3, 5, 7, 9, 10, 11, 99, 100, 101, 123456, 999999, 1000000, 1000001, 31415926, 271828182, 123456789012LL, 999999999999LL};
  double d = (double)mc::pick(MA) / mc::pick(SC);
  if (mc::flip()) d = -d;
  J j = J::real(d);
  if (mc::flip()) {
    J a = J::obj();
    a.key("r") = j;
    a.key("z") = J::integer(0);
    j = a;
  }
  roundTrip(j, 0);
}
MC_SCOPE_LEAK(reals_dense) {
  int k = mc::range(-mc::bound(3000, 40000), mc::bound(3000, 40000));
  static const double SC[] = {1e6, 1e3, 8, 1};
  roundTrip(J::real(k / mc::pick(SC)), 0);
}
// every magnitude with every number of decimals
MC_SCOPE_LEAK(reals_wide) {
  int e = mc::range(0, mc::bound(52, 60)), near = mc::choose(4), dec = mc::choose(15);
  static const double F[] = {0, 0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 0.001, 0.0001, 0.12345, 0.123456, 0.999999, 0.000001, 0.654321};
  double b = std::ldexp(1, e);
  if (near == 1) b -= 1;
  if (near == 2) b = std::floor(b * 1.37);
  if (near == 3) b = std::floor(std::pow(10.0, e / 3.4));
  char t[80];
  snprintf(t, sizeof t, "%.0f.%06.0f", b, F[dec] * 1e6);
  double d = strtod(t, nullptr);
  roundTrip(J::real(mc::flip() ? -d : d), 0);
}
MC_SCOPE_LEAK(big_reals) {
  static const double V[] = {1e15, 1e16, 1e20, 1e22, 123456789e10, 9007199254740993.0, 4503599627370496.5, 1e100, 3e200};
  double d = mc::pick(V);
  roundTrip(J::real(mc::flip() ? -d : d), 0);
}
MC_SCOPE_LEAK(ladder) {
  int n = mc::size(1, mc::bound(140, 300), {200, 255, 256, 257, 300}), kind = mc::choose(4);
  J j = J::integer(n);
  if (kind == 0)
    for (int i = 0; i < n; i++) { J a = J::arr(); a.a.push_back(j); j = a; }
  else if (kind == 1)
    for (int i = 0; i < n; i++) { J o = J::obj(); o.key("k\"" + std::to_string(i)) = j; j = o; }
  else if (kind == 2) {
    j = J::arr();
    for (int i = 0; i < n * 3; i++) j.a.push_back(i % 5 == 0 ? J::str(string(i, 'x') + "\"") : i % 5 == 1 ? J::real(i * 0.25) : i % 5 == 2 ? J::null() : J::integer(i));
  } else {
    j = J::obj();
    for (int i = 0; i < n; i++) j.key("key " + std::to_string((i * 37) % n)) = i % 3 ? J::integer(i) : J::arr();
  }
  mc::beat();
  roundTrip(j, 0);
}

// every depth with every kind of innermost value
MC_SCOPE_LEAK(depths) {
  int n = mc::size(1, mc::bound(140, 300), {200, 255, 256, 257}), kind = mc::choose(4), leaf = mc::choose(9);
  J j;
  switch (leaf) {
    case 0: j = J::null(); break;
    case 1: j = J::boolean(true); break;
    case 2: j = J::boolean(false); break;
    case 3: j = J::str(""); break;
    case 4: j = J::str("\"\\\n"); break;
    case 5: j = J::real(-0.5); break;
    case 6: j = J::integer(INT_MIN); break;
    case 7: j = J::arr(); break;
    case 8: j = J::obj(); break;
  }
  for (int i = 0; i < n; i++) {
    bool arr = kind == 0 || (kind > 1 && (i + kind) % 2);
    J o = arr ? J::arr() : J::obj();
    if (arr) {
      o.a.push_back(j);
      if (kind == 3) o.a.push_back(J::null());
    } else {
      o.key("k") = j;
      if (kind == 3) o.key("z") = J::arr();
    }
    j = o;
  }
  mc::beat();
  roundTrip(j, 0);
}
// beyond 16 bits: elements, members, characters
MC_SCOPE_LEAK(huge) {
  int n = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), kind = mc::choose(3);
  MC_OP("size %d kind %d", n, kind);
  J j = J::arr();
  if (kind == 0)
    for (int i = 0; i < n; i++) j.a.push_back(i % 3 ? J::integer(i) : J::str("s" + std::to_string(i)));
  if (kind == 1) {
    if (n > 5000) return;
    j = J::obj();
    for (int i = 0; i < n; i++) j.key("key " + std::to_string(1000000 + i)) = J::integer(i);
  }
  if (kind == 2) {
    string s;
    for (int i = 0; i < n; i++) s += i % 4000 == 3999 ? '"' : (char)('a' + i % 26);
    j = J::str(s + "\\");
  }
  mc::beat();
  roundTrip(j, 0);
}
// every size: mixed arrays and objects, in every layout
MC_SCOPE_LEAK(size_ladder) {
  int n = mc::range(0, mc::bound(300, 900)), kind = mc::choose(4);
  auto item = [&](int i, int salt) {
    switch ((i + salt) % 7) {
      case 0: return J::integer(i * 31 - 500);
      case 1: return J::str(string((size_t)(i % 9), 'v') + "\"\\");
      case 2: { J o = J::obj(); o.key("k" + std::to_string(i % 3)) = J::integer(i); return o; }
      case 3: { J a = J::arr(); for (int k = 0; k < i % 4; k++) a.a.push_back(J::real(k * 0.5)); return a; }
      case 4: return J::null();
      case 5: { J o = J::obj(); o.key("a\nb") = J::arr(); o.key("") = J::boolean(i % 2); return o; }
      default: return J::real(i * 0.125);
    }
  };
  J j = kind % 2 ? J::obj() : J::arr();
  for (int i = 0; i < n; i++) {
    J v = kind < 2 ? item(i, 0) : item(i % 2 ? 2 : 5, 0);
    if (kind % 2) j.key("key " + std::to_string(i * 37 % (n + 1))) = v; else j.a.push_back(v);
  }
  MC_OP("size %d kind %d", n, kind);
  if (n % 10 == 0) layouts(j);
  roundTrip(j, 0);
}
// every string length, a character to escape at the end, the front or every so often
MC_SCOPE_LEAK(string_ladder) {
  int n = mc::range(0, mc::bound(1100, 4200)), form = mc::choose(4);
  static const char E[] = {'"', '\\', '\n', '\t', '/', '\b', '\f', '\r'};
  string s((size_t)n, 'x');
  char e = E[n % 8];
  if (form == 1) s += e;
  if (form == 2) s = e + s;
  if (form == 3) for (int i = 0; i < n; i += 5) s[i] = E[(i + n) % 8];
  MC_OP("string of %d, form %d", n, form);
  J j = J::str(s);
  if (n % 2) { j = J::obj(); j.key(s) = J::str(s); }
  roundTrip(j, 0);
}
