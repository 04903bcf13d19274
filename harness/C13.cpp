// modules: json
// C13: loading valid JSON text yields the value it denotes. Texts are generated from the
// grammar together with their value; the reference parser double-checks the generator.
#include "json_ref.h"

#include <climits>

static void load(const string& t, const J& m) {
  J ref;
  if (!strictParse(t, ref) || !same(ref, m)) mc::fail("harness:generator", "generator and reference disagree on %s", mc::show(t).c_str());
  noteJ(m);
  MC_OP("load %s", mc::show(shorten(t)).c_str());
  JSONObject x;
  string copy = t;
  mc::mustLive("load", "loading " + mc::show(shorten(t)), [&] { x = cuhksz::loadJSON(copy); });
  if (copy != t) mc::fail("input", "loading changed the text");
  expectJ(x, m, "value");
}
static void load(const string& t) {
  J m;
  if (!strictParse(t, m)) mc::fail("harness:generator", "not valid: %s", mc::show(t).c_str());
  load(t, m);
}

// ------------------------------------------------------------ documents
static int wsMode, wsAt, wsCount;
static string W() {
  static const char* S[] = {"", " ", "\n", "\t", "\r", " \r\n\t "};
  if (wsMode < 0) return S[mc::choose(2)];           // every layout of two kinds of space
  if (wsMode < 6) return S[wsMode];                  // uniform
  return wsCount++ == wsAt ? S[wsMode - 5] : "";     // at one place only
}
struct Scalar {
  const char* text;
  J v;
};
static const std::vector<Scalar>& scalars() {
  static std::vector<Scalar> s{{"1", J::integer(1)}, {"\"s\"", J::str("s")}, {"null", J::null()}, {"true", J::boolean(true)},
      {"-0.5", J::real(-0.5)}, {"false", J::boolean(false)}, {"\"\"", J::str("")}, {"2e3", J::real(2000)},
      {"\"],}\\\"\"", J::str("],}\"")}, {"-7", J::integer(-7)}};
  return s;
}
static string genDoc(int depth, int width, int kinds, J& v) {
  string t = W();
  int k = mc::choose(depth > 0 ? kinds + 2 : kinds);
  if (k < kinds) {
    v = scalars()[k].v;
    return t + scalars()[k].text + W();
  }
  int n = mc::range(0, width);
  if (k == kinds) {
    v = J::arr();
    t += "[";
    if (!n) t += W();
    for (int i = 0; i < n; i++) {
      J e;
      t += (i ? "," : "") + genDoc(depth - 1, width, kinds, e);
      v.a.push_back(e);
    }
    return t + "]" + W();
  }
  static const char* KT[] = {"\"k\"", "\"a\\\"\"", "\"k\"", "\"\""};  // the third repeats the first
  static const char* KV[] = {"k", "a\"", "k", ""};
  v = J::obj();
  t += "{";
  if (!n) t += W();
  for (int i = 0; i < n; i++) {
    J e;
    t += (i ? "," : "") + W() + KT[i] + W() + ":" + genDoc(depth - 1, width, kinds, e);
    v.key(KV[i]) = e;
  }
  return t + "}" + W();
}
static void doc(int depth, int width, int kinds) {
  J v;
  string t = genDoc(depth, width, kinds, v);
  load(t, v);
}
MC_SCOPE_LEAK(documents) { wsMode = mc::choose(6); doc(2, 2, mc::bound(6, 7)); }
MC_SCOPE_LEAK(documents_wide) { wsMode = mc::choose(2); doc(1, 4, mc::bound(9, 10)); }
MC_SCOPE_LEAK(documents_deep) { wsMode = mc::choose(2); doc(3, 2, 1); }
MC_SCOPE_LEAK(layouts) { wsMode = -1; doc(1, 2, mc::bound(4, 5)); }
MC_SCOPE_LEAK(layouts_nested) { wsMode = -1; doc(2, 1, 1); }
MC_SCOPE_LEAK(layout_one) {
  wsMode = 6 + mc::choose(5);
  wsCount = 0;
  wsAt = mc::choose(16);
  doc(2, 2, 2);
}
MC_SCOPE_LEAK(scalars_all) { wsMode = mc::choose(6); doc(0, 0, 10); }

// ------------------------------------------------------------ numbers
static string genNumber(int idig, int fdig, int edig, const string& al) {
  string t;
  if (mc::flip()) t += '-';
  int n = mc::range(1, idig);
  if (mc::flip()) {
    t += '0';
  } else {
    t += "123456789"[mc::choose((int)al.size() - 1) % 9];
    for (int i = 1; i < n; i++) t += al[mc::choose((int)al.size())];
  }
  n = mc::range(0, fdig);
  if (n) {
    t += '.';
    for (int i = 0; i < n; i++) t += al[mc::choose((int)al.size())];
  }
  n = mc::range(0, edig);
  if (n) {
    static const char* E[] = {"e", "E", "e+", "e-", "E+", "E-"};
    t += mc::pick(E);
    for (int i = 0; i < n; i++) t += al[mc::choose((int)al.size())];
  }
  return t;
}
static void number(const string& t) {
  Ref r(t, true);
  J v;
  if (!r.value(v) || r.p != t.size()) mc::fail("harness:generator", "not a number: %s", t.c_str());
  if (!r.intRange || !r.moderate) {
    mc::outcome("out of range, not claimed");
    return;
  }
  static const char* C[][2] = {{"", ""}, {"[", "]"}, {"{\"k\":", "}"}, {"[", " ]"}, {"[", ",1]"}, {" ", "\n"}, {"{\"k\" : ", "\n}"}};
  auto& c = C[mc::choose(7)];
  load(c[0] + t + c[1]);
}
MC_SCOPE_LEAK(numbers) { number(genNumber(2, 2, 2, "015")); }
MC_SCOPE_LEAK(numbers_long) { number(genNumber(mc::bound(4, 5), mc::bound(5, 6), 1, "03")); }
MC_SCOPE_LEAK(exponents) {
  static const char* M[] = {"1", "-1", "0", "1.5", "-2.25", "10", "0.001", "123456", "-0", "9.75", "0.0"};
  string t = mc::pick(M);
  static const char* E[] = {"e", "E", "e+", "e-", "E+", "E-"};
  t += mc::pick(E);
  static const char* Z[] = {"", "0", "00"};
  t += mc::pick(Z);
  t += std::to_string(mc::range(0, 290));
  Ref r(t, true);
  J v;
  r.value(v);
  if (r.moderate) load(mc::flip() ? "[" + t + "]" : t);
}
MC_SCOPE_LEAK(integers) {
  std::vector<string> v;
  for (int i = -1200; i <= 1200; i++) v.push_back(std::to_string(i));
  for (int p = 10; p < 31; p++)
    for (int d = -1; d <= 1; d++) v.push_back(std::to_string((1 << p) + d)), v.push_back(std::to_string(-(1 << p) + d));
  v.push_back("2147483647"), v.push_back("-2147483648"), v.push_back("-0"), v.push_back("1000000000"), v.push_back("2147483646");
  number(mc::pick(v));
}
MC_SCOPE_LEAK(decimals) {
  int i = mc::pick({0, 1, 9, 10, 99, 123456, 2147483647}), d = mc::range(0, mc::bound(9999, 19998));
  char b[64];
  static const char* F[] = {"%d.%d", "%d.%04d", "-%d.%d5", "%d.0%d"};
  snprintf(b, sizeof b, mc::pick(F), i, d);
  load(b);
}
// reals written with digit runs of every length, before and behind the point
MC_SCOPE_LEAK(digit_ladder) {
  static const char* A[] = {"", "e0", "e5", "E-7", "e+12", "E-20"};
  int i = mc::range(1, mc::bound(60, 120)), f = mc::range(0, mc::bound(200, 400)), form = mc::choose(3);
  string e = mc::pick(A), t = form == 1 ? "-" : "";
  for (int k = 0; k < i; k++) t += form == 2 && k ? '0' : (char)('1' + (k * 7 + f) % 9);
  if (f) t += '.';
  for (int k = 0; k < f; k++) t += form == 2 && k + 1 < f ? '0' : (char)('0' + (k * 3 + i) % 10);
  t += e;
  if (!f && e.empty()) t += ".0";
  Ref r(t, true);
  J v;
  r.value(v);
  if (r.moderate) load(f % 2 ? "[" + t + "]" : t);
}

// ------------------------------------------------------------ strings
static string genText(int hi, string& v, bool full) {
  static const std::pair<string, string> P[] = {{"a", "a"}, {"\\\"", "\""}, {"\\\\", "\\"}, {"\\n", "\n"}, {"\\u00e9", "\\u00e9"}, {"}", "}"}, {",", ","}, {"n", "n"},
      {"\\/", "/"}, {"/", "/"}, {"\\b", "\b"}, {"\\f", "\f"}, {"\\r", "\r"}, {"\\t", "\t"}, {"\\uABCD", "\\uABCD"},
      {"\\u0041", "\\u0041"}, {"u", "u"}, {"\xc3\xa9", "\xc3\xa9"}, {" ", " "}, {"[", "["}, {":", ":"}, {"\x7f", "\x7f"}, {"\\u0000", "\\u0000"}, {"'", "'"}};
  string t;
  int n = mc::range(0, hi);
  for (int i = 0; i < n; i++) {
    auto& p = P[mc::choose(full ? 24 : 8)];
    t += p.first, v += p.second;
  }
  return "\"" + t + "\"";
}
static void strings(int hi, bool full) {
  string v, t = genText(hi, v, full);
  J m = J::str(v);
  switch (mc::choose(4)) {
    case 0: break;
    case 1: {
      t = "[" + t + "]";
      J a = J::arr();
      a.a.push_back(m);
      m = a;
      break;
    }
    case 2: {
      t = "{" + t + ":1}";
      m = J::obj();
      m.key(v) = J::integer(1);
      break;
    }
    case 3: {
      t = "{" + t + " : " + t + ", \"z\":" + t + "}";
      m = J::obj();
      m.key(v) = J::str(v);
      m.key("z") = J::str(v);
      break;
    }
  }
  load(t, m);
}
MC_SCOPE_LEAK(strings_all) { strings(mc::bound(3, 3), true); }
MC_SCOPE_LEAK(strings_long) { strings(mc::bound(6, 7), false); }
MC_SCOPE_LEAK(characters) {
  int c = mc::range(32, 255);
  if (c == '"' || c == '\\') return;
  string s(1, (char)c);
  J m = J::str("x" + s + "y");
  load("\"x" + s + "y\"", m);
  J o = J::obj();
  o.key(s) = J::str(s);
  load("{\"" + s + "\":\"" + s + "\"}", o);
}
MC_SCOPE_LEAK(unicode) {
  static const char H[] = "0123456789abcdefABCDEF";
  string u = "\\u";
  int pos = mc::choose(4), pos2 = mc::choose(4);
  for (int i = 0; i < 4; i++) u += '0';
  u[2 + pos] = H[mc::choose(22)];
  u[2 + pos2] = H[mc::choose(22)];
  load("\"" + u + "\"", J::str(u));
  load("[\"a" + u + "b\",1]");
}
// duplicate keys: the last wins, whatever was there before
MC_SCOPE_LEAK(duplicates) {
  static const char* V[] = {"1", "\"s\"", "[1,2]", "{\"x\":1}", "null", "{}", "2.5", "true"};
  int n = mc::range(1, mc::bound(4, 5));
  string t = "{";
  for (int i = 0; i < n; i++) t += string(i ? "," : "") + (mc::flip() ? "\"k\":" : "\"j\":") + mc::pick(V);
  load(t + "}");
}
MC_SCOPE_LEAK(ladder) {
  int n = mc::size(1, mc::bound(140, 600), {255, 256, 257, 500, 511, 512, 513, 1000}), kind = mc::choose(4);
  string t = "7";
  if (kind == 0)
    t = string(n, '[') + t + string(n, ']');
  else if (kind == 1) {
    for (int i = 0; i < n; i++) t = "{\"k\": " + t + "}";
  } else if (kind == 2) {
    t = "[";
    for (int i = 0; i < n; i++) t += (i ? ", " : "") + std::to_string(i * 31 % 1009);
    t += "]";
  } else {
    t = "{";
    for (int i = 0; i < n; i++) t += (i ? ",\n" : "") + ("\"key" + std::to_string(i * 7 % n) + "\" : \"" + string(i % 50, 'v') + "\"");
    t += "}";
  }
  mc::beat();
  load(t);
}

// runs of whitespace of every length, between any two tokens
MC_SCOPE_LEAK(ws_ladder) {
  static const char* TOK[] = {"{", "\"a\"", ":", "[", "1", ",", "true", ",", "{", "}", "]", ",", "\"b\"", ":", "\"x\"", "}"};
  int n = mc::range(0, mc::bound(600, 1200)), at = mc::choose(17), w = mc::choose(5);
  if (n == mc::bound(600, 1200)) n = 5000;
  string t;
  for (int i = 0; i <= 16; i++) {
    if (i == at) for (int k = 0; k < n; k++) t += " \n\t\r"[w < 4 ? w : k % 4];
    if (i < 16) t += TOK[i];
  }
  load(t);
}
// strings of every length, with an escape behind, in front, or every so often; value and key
MC_SCOPE_LEAK(string_ladder) {
  int n = mc::range(0, mc::bound(4200, 8400)), form = mc::choose(4);
  static const char* E[] = {"\\n", "\\\"", "\\\\", "\\/", "\\t", "\\u00e9", "\\b", "\\r", "\\f"};
  string s;
  if (form == 2) s += E[n % 9];
  for (int i = 0; i < n; i++) if (form == 3 && i % 6 == 5) s += E[(i + n) % 9]; else s += (char)('a' + i % 26);
  if (form == 1) s += E[n % 9], s += "y";
  load(n % 3 ? "\"" + s + "\"" : "{\"" + s + "\" : [\"" + s + "\"]}");
}
// beyond 16 bits: elements, members, characters, blanks
MC_SCOPE_LEAK(huge) {
  int n = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), kind = mc::choose(4);
  MC_OP("size %d kind %d", n, kind);
  string t;
  if (kind == 0) {
    t = "[";
    for (int i = 0; i < n; i++) t += (i ? "," : "") + std::to_string(i);
    t += "]";
  } else if (kind == 1) {
    if (n > 5000) return;
    t = "{";
    for (int i = 0; i < n; i++) t += (i ? ",\"" : "\"") + std::to_string(1000000 + i) + "\":" + std::to_string(i);
    t += "}";
  } else if (kind == 2) {
    t = "[\"";
    for (int i = 0; i < n; i++) t += i % 4000 == 3999 ? "\\n" : string(1, (char)('a' + i % 26));
    t += "\", 1]";
  } else {
    t = string(n, ' ') + "[1," + string(n, '\n') + "2]" + string(n, '\t');
  }
  mc::beat();
  load(t);
}
// arrays and objects of every size, of mixed content
MC_SCOPE_LEAK(size_ladder) {
  int n = mc::range(0, mc::bound(600, 1500)), kind = mc::choose(3);
  static const char* V[] = {"1", "\"s\\n\"", "[]", "{\"k\":2}", "null", "-2.5e1", "[1,[2]]", "false", "{}"};
  string t = kind ? "{" : "[";
  for (int i = 0; i < n; i++) {
    if (i) t += ",";
    if (kind) t += "\"" + std::to_string(kind == 1 ? i : i % 40) + "\":";
    t += V[i * 5 % 9];
  }
  mc::beat();
  load(t + (kind ? "}" : "]"));
}
