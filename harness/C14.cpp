// modules: json
// C14: the parser on arbitrary text: terminates, stays inside the text, rejects with a
// diagnostic whatever is not (a lenient prefix of) JSON, accepts whatever is JSON.
#include "json_ref.h"

static void parse(const string& text) {
  J strict, lax;
  Ref rs(text, true);
  bool valid = rs.value(strict) && (rs.ws(), rs.p == text.size());
  Ref rl(text, false);
  bool open = rl.value(lax);
  // the text in an exactly sized heap block, so that the sanitizer sees any overrun
  string t;
  t.reserve(text.size() > 15 ? text.size() : 16);
  t = text;
  MC_OP("parse %s: %s", mc::show(shorten(text)).c_str(), valid ? "valid" : open ? "open" : "malformed");
  mc::outcome(valid ? "valid" : open ? "open" : "malformed");
  mc::state(mc::Hash().add(text));
  string what = "parsing " + mc::show(shorten(text));
  JSONObject x;
  if (!valid && !open) {
    mc::mustDie("malformed", what, [&] { x = cuhksz::loadJSON(t); });
    return;
  }
  mc::Exit e = mc::guard([&] { x = cuhksz::loadJSON(t); });
  if (e.threw) mc::fail("exception", "%s threw", what.c_str());
  if (e.exited) {
    if (valid) mc::fail("valid", "%s ended the program: %s", what.c_str(), mc::errText().c_str());
    if (e.status == 0 || e.errBytes == 0) mc::fail("malformed", "%s exited without a diagnosed failure", what.c_str());
    return;
  }
  if (valid && rs.intRange && rs.moderate) expectJ(x, strict, "value");
}

MC_SCOPE(texts_structure) { parse(mc::str("{}[],:\"1 ", 0, mc::bound(6, 7))); }
MC_SCOPE(texts_numbers) {
  static const char* P[] = {"", "[", "{\"k\":"};
  string p = mc::pick(P);
  parse(p + mc::str("-+.e01]}", 0, p.empty() ? mc::bound(6, 7) : mc::bound(5, 6)));
}
MC_SCOPE(texts_exponent) {
  static const char* P[] = {"1e", "-2.5E", "0.", "12", "[3e1"};
  string p = mc::pick(P);
  parse(p + mc::str("-+.eE19 ,", 0, mc::bound(4, 5)));
}
MC_SCOPE(texts_strings) {
  static const char* P[] = {"\"", "{\"", "[\"a\\", "{\"k\":\""};
  string p = mc::pick(P);
  parse(p + mc::str("\"\\unaF0", 0, mc::bound(5, 6)));
}
MC_SCOPE(texts_unicode) {
  static const char* P[] = {"\"\\u", "[\"\\u0", "{\"\\u00"};
  string p = mc::pick(P);
  parse(p + mc::str("0fFg\"}", 0, mc::bound(5, 6)));
}
// token sequences
MC_SCOPE(tokens) {
  static const char* T[] = {"{", "}", "[", "]", ",", ":", "\"k\"", "1", "true", "null", "-2.5e3", "\""};
  int n = mc::range(0, mc::bound(5, 6));
  string t;
  for (int i = 0; i < n; i++) t += mc::pick(T);
  parse(t);
}
MC_SCOPE(tokens_object) {
  static const char* T[] = {"}", ",", ":", "\"a\"", "1", "[]", "{}", " ", "x"};
  int n = mc::range(0, mc::bound(5, 6));
  string t = mc::flip() ? "{" : "[{\"k\":1";
  for (int i = 0; i < n; i++) t += mc::pick(T);
  parse(t);
}
// every truncation, deletion, replacement and insertion of one character of a corpus (two in thorough)
static const std::vector<string>& corpus() {
  static std::vector<string> c{
      "{\"array\" : [true, \"Two\", 3, 4.000000], \"k\":{\"x\":null}}", "[1,2.5,-3e2,\"a\\\"b\\u00e9\",{}]", "\"plain\"", "-12.75E-3",
      "{\"a\":{\"b\":{\"c\":[[],[[1]]]}}}", "true", "false", "null", " [ false , null ] ", "[]", "{}", "\"\"", "{\"\":\"\"}", "0", "[[[[0]]]]", "[true,false,null]"};
  return c;
}
static string mutate(string t) {
  static const char C[] = {'"', '\\', '{', '}', '[', ']', ',', ':', '1', '0', '-', '+', '.', 'e', 'E', 'u', 't', 'n', 'l', ' ', '\n', 0, '\x01', '\x7f', '\x80', '\xff', 'a', '/', '\v'};
  if (t.empty()) return t;
  size_t i = mc::choose((int)t.size());
  switch (mc::choose(5)) {
    case 0: return t.substr(0, i);
    case 1: t.erase(i, 1); return t;
    case 2: t[i] = mc::pick(C); return t;
    case 3: t.insert(t.begin() + i, mc::pick(C)); return t;
    case 4: return t.substr(i);
  }
  return t;
}
MC_SCOPE(mutations) {
  string t = mutate(mc::pick(corpus()));
  if (mc::flip()) t = "[" + t;
  parse(t);
}
MC_SCOPE(mutations_two) {
  auto& c = corpus();
  string t = c[mc::range(mc::bound(10, 2), mc::bound(13, 15))];
  parse(mutate(mutate(t)));
}
MC_SCOPE(literals) {
  static const char* L[] = {"true", "false", "null"};
  string t = mc::pick(L);
  int cut = mc::range(0, (int)t.size());
  static const char* X[] = {"", "x", "e", "l", "E", "tru", " ", "]", ",1]", "\"", "0", "true", "fals", "nul"};
  t = t.substr(0, cut) + mc::pick(X);
  static const char* P[] = {"", "[", "{\"k\":", "[1,"};
  static const char* S[] = {"", "]", "}"};
  t = mc::pick(P) + t;
  parse(t + mc::pick(S));
}
// every byte, every pair of bytes, in several contexts
MC_SCOPE(bytes) {
  static const char* P[] = {"", "\"", "[1", "{\"k\"", "[", "\"\\", "1", "-", "{\"k\":1", "{", "\"\\u00", "true", "1."};
  string t = mc::pick(P);
  t += (char)mc::choose(256);
  if (mc::flip()) t += mc::pick({'"', ']', '}', '1', '\0'});
  parse(t);
}
MC_SCOPE(byte_pairs) {
  string t;
  t += (char)mc::choose(256);
  t += (char)mc::choose(256);
  if (mc::flip()) t = "[" + t;
  parse(t);
}
MC_SCOPE(deep) {
  int n = mc::size(1, mc::bound(140, 1000), {255, 256, 257, 511, 512, 513, 999, 1000});
  static const char* O[] = {"[", "{\"k\":", "[1,", "{\"a\":1,\"k\":"};
  static const char* C[] = {"]", "}", "]", "}"};
  int k = mc::choose(4), end = mc::choose(6);
  string t;
  for (int i = 0; i < n; i++) t += O[k];
  static const char* M[] = {"1", "", "\"", "1", "tru", "1"};
  t += M[end];
  int close = end == 0 ? n : end == 3 ? n - 1 : end == 5 ? n / 2 : 0;
  for (int i = 0; i < close; i++) t += C[k];
  if (end == 5) t += C[(k + 1) % 2 ? 0 : 1];
  mc::beat();
  parse(t);
}
// long strings, numbers and blanks cut at every length around the small-string limits
MC_SCOPE(long_cut) {
  int n = mc::range(0, mc::bound(80, 300)), kind = mc::choose(7);
  string t;
  switch (kind) {
    case 0: t = "\"" + string(n, 'a'); break;
    case 1: t = string(n, ' '); break;
    case 2: t = "[" + string(n, ' '); break;
    case 3: t = "-0." + string(n, '1') + "e"; break;
    case 4: t = "\"" + string(n, 'a') + "\\"; break;
    case 5: t = "{\"" + string(n, 'k') + "\":"; break;
    case 6: t = "\"" + string(n, 'a') + "\\u12"; break;
  }
  parse(t);
}
// documents of every element count with one fault in the middle or at the end
MC_SCOPE(long_fault) {
  int n = mc::size(1, mc::bound(140, 400), {255, 256, 257, 511, 512, 513, 1000, 1024, 1025});
  bool obj = mc::flip(), late = mc::flip();
  int kind = mc::choose(3), fault = mc::choose(14), at = late ? n - 1 : n / 2;
  static const char* K[] = {"1", "\"s\"", "[{}]"};
  string t = obj ? "{" : "[";
  for (int i = 0; i < n; i++) {
    string key = obj ? "\"k" + std::to_string(i) + "\"" : "", colon = obj ? ":" : "", v = K[kind], comma = i + 1 < n ? "," : "";
    if (i == at) switch (fault) {
        case 0: break;
        case 1: comma = late ? "," : ",,"; break;
        case 2: comma = late ? " , " : " , , "; break;
        case 3: comma = late ? "1" : " "; break;
        case 4: v = ""; break;
        case 5: v = "tru"; break;
        case 6: comma = ";"; break;
        case 7: v = "\"s"; break;
        case 8: v = "[" + v; break;
        case 9: v = v + "]"; break;
        case 10: colon = obj ? "" : ":"; break;
        case 11: key = obj ? "7" : "\"k\" 7"; break;
        case 12: v = "-"; break;
        case 13: comma = "\n\t\r " + comma; break;
      }
    t += key + colon + v + comma;
  }
  switch (mc::choose(3)) {
    case 0: t += obj ? "}" : "]"; break;
    case 1: t += obj ? "]" : "}"; break;
    case 2: break;
  }
  mc::beat();
  parse(t);
}
// every malformed (and some well-formed) fragment far into a text
MC_SCOPE(late_fragment) {
  static const std::vector<string> F{"nul", "nulx", "nUll", "null", "nulll", "n", "tru", "trux", "tRue", "true", "truee", "t", "fals", "falsx", "false", "falsee", "f", "-", "--1", "-a", "+1", "1.", "1.x", ".5", "1e", "1e+", "1e-", "1ex", "1.5e", "1..2", "1e5.5", "1-2", "1+", "12a", "\"", "\"a", "\"a\\", "\"\\u", "\"\\u12", "\"\\u12G4\"", "\"\\u123\"", "\"\\u1234\"", "[", "[1", "[1,", "[,1]", "[1,]", "[1 2]", "[1;2]", "{", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{\"a\":1,}", "{\"a\" 1}", "{\"a\"::1}", "{a:1}", "{1:1}", "{,}", "{\"a\":}", "{\"a\":1]", "[1}", "x", "'", "}", ":", ",", "", "#"};
  int n = mc::size(0, mc::bound(20, 140), {63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65537});
  int pre = mc::choose(6), close = mc::choose(3);
  string t;
  switch (pre) {
    case 0: t = string(n, ' '); break;
    case 1: t = "[" + string(n, '\n'); break;
    case 2: t = "[\"" + string(n, 'x') + "\","; break;
    case 3: t = "{\"" + string(n, 'x') + "\":"; break;
    case 4: t = "["; for (int i = 0; i < n; i += 4) t += "[], "; break;
    case 5: t = "{"; for (int i = 0; i < n; i += 6) t += "\"k\":1,"; t += "\"z\" :"; break;
  }
  t += mc::pick(F);
  if (close == 1) t += pre == 3 || pre == 5 ? "}" : "]";
  if (close == 2) t += pre == 3 || pre == 5 ? ",\"q\":2}" : ",2]";
  parse(t);
}
