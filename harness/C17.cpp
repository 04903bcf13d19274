// modules: network
// C17: urlEncode / urlDecode against an independent reference.
#include "network.h"

#include "util.h"

using std::string;

static bool unreserved(unsigned char c) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
}
static string refEncode(const string& s) {
  string o;
  for (unsigned char c : s)
    if (unreserved(c)) {
      o += (char)c;
    } else {
      o += '%';
      o += "0123456789ABCDEF"[c >> 4];
      o += "0123456789ABCDEF"[c & 15];
    }
  return o;
}
static int hex(unsigned char c) {
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
// false where the text holds a malformed percent sequence: its meaning is not claimed
static bool refDecode(const string& s, string& o) {
  o.clear();
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '+') {
      o += ' ';
    } else if (s[i] == '%') {
      if (i + 2 >= s.size() || hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) return false;
      o += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2]));
      i += 2;
    } else {
      o += s[i];
    }
  return true;
}
static void round(const string& s) {
  mc::ops(2);
  string copy = s;
  string e = cuhksz::urlEncode(s), want = refEncode(s);
  if (e != want)
    mc::fail("encode", "urlEncode(%s)=%s, expected %s", mc::show(s).c_str(), mc::show(e).c_str(), want.c_str());
  string d = cuhksz::urlDecode(e);
  if (d != s)
    mc::fail("inverse", "urlDecode(%s)=%s, expected %s", e.c_str(), mc::show(d).c_str(), mc::show(s).c_str());
  if (copy != s || e != want) mc::fail("input", "an argument was changed");
}
static void decode(const string& s) {
  mc::ops(1);
  // an exact-size heap block, so that reading past the end is seen
  string t(s.data(), s.size());
  t.reserve(s.size() < 16 ? 0 : s.size());
  string d = cuhksz::urlDecode(t), want;
  if (refDecode(s, want)) {
    mc::outcome("well-formed");
    if (d != want)
      mc::fail("decode", "urlDecode(%s)=%s, expected %s", mc::show(s).c_str(), mc::show(d).c_str(), mc::show(want).c_str());
  } else {
    mc::outcome("malformed");
    // no more output than input, and everything before the first malformed sequence is decoded
    if (d.size() > s.size()) mc::fail("malformed:long", "urlDecode(%s)=%s", mc::show(s).c_str(), mc::show(d).c_str());
    size_t i = 0;
    string pre;
    while (i < s.size()) {
      if (s[i] == '%') {
        if (i + 2 >= s.size() || hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) break;
        pre += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2]));
        i += 3;
      } else {
        pre += s[i] == '+' ? ' ' : s[i];
        i++;
      }
    }
    if (d.compare(0, pre.size(), pre) != 0)
      mc::fail("malformed:prefix", "urlDecode(%s)=%s, expected a text starting %s", mc::show(s).c_str(), mc::show(d).c_str(), mc::show(pre).c_str());
    if (cuhksz::urlDecode(t) != d) mc::fail("malformed:unstable", "urlDecode(%s) differs between calls", mc::show(s).c_str());
  }
  if (t != s) mc::fail("input", "the text was changed");
}

MC_SCOPE(bytes2) {
  int n = mc::range(0, 2);
  string s;
  for (int i = 0; i < n; i++) s += (char)mc::choose(256);
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  mc::outcome("round");
  round(s);
  decode(s);
}
MC_SCOPE(bytes3) {
  string s;
  for (int i = 0; i < 3; i++) s += (char)mc::choose(256);
  MC_OP("encode and decode %s", mc::show(s).c_str());
  round(s);
}
MC_SCOPE(encode_all) {
  string s = mc::str(string("\0\xff" "a% +/~\n", 9), 0, mc::bound(7, 8));
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  round(s);
}
// texts that already look encoded are bytes like any other
MC_SCOPE(encode_encoded) {
  string s = mc::str("%25AfF0+ b", 0, mc::bound(6, 7));
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  round(s);
  round(cuhksz::urlEncode(s));
}
// every byte next to a percent sign or an escape
MC_SCOPE(encode_neighbours) {
  int a = mc::choose(256), b = mc::choose(256), form = mc::choose(5);
  string A(1, (char)a), B(1, (char)b);
  string s = form == 0 ? "%" + A + B : form == 1 ? A + "%" + B : form == 2 ? A + B + "%" : form == 3 ? A + "%2" + B : A + "a" + B;
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  round(s);
}
// every percent sequence with every following pair of bytes
MC_SCOPE(percent_pairs) {
  int a = mc::choose(256), b = mc::choose(256);
  string s = string("x%") + (char)a + (char)b;
  MC_OP("decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(a).add(b));
  decode(s);
  decode(s + "y");
  decode(s + "%41+");
  decode(s.substr(0, 3));
}
MC_SCOPE(decode_all) {
  string s = mc::str("%4aFg+ ", 0, mc::bound(8, 9));
  MC_OP("decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  decode(s);
}
// every sequence of up to four (five) pieces of encoded text
MC_SCOPE(decode_pieces) {
  static const char* T[] = {"+", "%2B", "%2b", "%20", "%00", "%fF", "%25", "a", " ", "2", "B", "%", "%4", "%7E", "\xff"};
  int n = mc::range(1, mc::bound(5, 6));
  string s;
  for (int i = 0; i < n; i++) s += mc::pick(T);
  MC_OP("decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  decode(s);
  round(s);
}
// every two bytes in any encoded form next to a plus
MC_SCOPE(decode_plus) {
  int a = mc::choose(256), b = mc::choose(256), form = mc::choose(4);
  char x[4], y[4];
  snprintf(x, sizeof x, form & 1 ? "%%%02x" : "%%%02X", a), snprintf(y, sizeof y, "%%%02X", b);
  string A = x, B = form & 2 ? string(1, (char)b) : string(y);
  MC_OP("decode around %s and %s", A.c_str(), mc::show(B).c_str());
  mc::state(mc::Hash().add(a).add(b).add(form));
  decode(A + "+" + B);
  decode("+" + A + B + "+");
  decode("+" + B + A);
  decode(B + "+" + A + "+");
}
MC_SCOPE(decode_binary) {
  string s = mc::str("%1", 0, mc::bound(20, 22));
  MC_OP("decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  decode(s);
}
MC_SCOPE(ladder) {
  int n = mc::choose(mc::bound(1200, 2400));
  int k = mc::choose(5);
  int tail = mc::choose(4);
  string s;
  for (int i = 0; i < n; i++)
    s += (char)(k == 0 ? 0 : k == 1 ? 255 : k == 2 ? i : k == 3 ? 'a' : (int)(mc::scramble(i, n) & 255));
  MC_OP("%d bytes of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k).add(tail));
  round(s);
  string e = refEncode(s);
  static const char* T[] = {"", "%", "%4", "%4a"};
  decode(e + T[tail]);
  for (char& c : e) if (c >= 'A' && c <= 'F') c = c - 'A' + 'a';
  string d = cuhksz::urlDecode(e), want;
  if (!refDecode(e, want)) mc::fail("harness", "reference");
  if (d != want) mc::fail("decode:lower", "lower-case digits");
}
MC_SCOPE(large) {
  static const int N[] = {1023, 1024, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
  int n = mc::pick(N), k = mc::choose(3);
  string s;
  for (int i = 0; i < n; i++) s += (char)(k == 0 ? 'q' : k == 1 ? 255 : (int)(mc::scramble(i, n) & 255));
  MC_OP("%d bytes of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k));
  round(s);
  decode(refEncode(s) + "%");
}
MC_SCOPE(history) {
  static const std::vector<string> P{"", "a b", "%", "%2", "%zz", "\xe4\xbd\xa0", "+", "%2B%2b", string("%00\0", 4)};
  for (int i = 0; i < 3; i++) {
    const string& s = mc::pick(P);
    MC_OP("%s", mc::show(s).c_str());
    mc::state(mc::Hash().add(s).add(i));
    if (mc::flip()) round(s); else decode(s);
  }
}
