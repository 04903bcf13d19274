// modules: base64
// C16: base64Encode / base64Decode against an independent arithmetic reference.
#include "base64/base64_functions.h"

#include <climits>
#include "util.h"

using std::string;

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// text without padding
static string bare(const string& s) {
  string o;
  unsigned acc = 0;
  int bits = 0;
  for (unsigned char c : s) {
    acc = (acc << 8 | c) & 0xffffff;
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      o += AL[acc >> bits & 63];
    }
  }
  if (bits) o += AL[acc << (6 - bits) & 63];
  return o;
}
static string standard(const string& s) {
  string o = bare(s);
  while (o.size() % 4) o += '=';
  return o;
}

static void round(const string& s) {
  mc::ops(2);
  string copy = s;
  string e = cuhksz::base64Encode(s), want = standard(s);
  if (e != want)
    mc::fail("encode", "base64Encode(%s)=%s, expected %s", mc::show(s).c_str(), mc::show(e).c_str(), want.c_str());
  string d = cuhksz::base64Decode(e);
  if (d != s)
    mc::fail("decode", "base64Decode(%s)=%s, expected %s", e.c_str(), mc::show(d).c_str(), mc::show(s).c_str());
  if (copy != s || e != want) mc::fail("input", "an argument was changed");
}
static void lengths(const string& s, int lo, int hi) {
  string b = bare(s);
  for (int n = lo; n <= hi; n++) {
    mc::ops(1);
    string want = n < 0 ? n == -1 ? standard(s) : string() : n < (int)b.size() ? string() : b + string(n - b.size(), '=');
    string e = cuhksz::base64Encode(s, n);
    if (e != want)
      mc::fail("length", "base64Encode(%s,%d)=%s, expected %s", mc::show(s).c_str(), n, mc::show(e).c_str(), mc::show(want).c_str());
    if (!e.empty() || s.empty()) {
      string d = cuhksz::base64Decode(e);
      if (d != s)
        mc::fail("length:decode", "base64Decode(%s)=%s, expected %s", e.c_str(), mc::show(d).c_str(), mc::show(s).c_str());
    }
  }
}

// every byte string of length 0..2, and of length 3 over representative values
MC_SCOPE(bytes2) {
  int n = mc::range(0, 2);
  string s;
  for (int i = 0; i < n; i++) s += (char)mc::choose(256);
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  mc::outcome(n == 0 ? "empty" : n == 1 ? "pad2" : "pad1");
  round(s);
}
// every sextet at every position; thorough: every 3-byte string is a prefix pair times 256 tails
MC_SCOPE(bytes3) {
  int a = mc::choose(256);
  int step = mc::bound(5, 1);
  for (int b = a % step; b < 256; b += step) {
    mc::beat();
    for (int c = (a + b) % step; c < 256; c += step) {
      string s{(char)a, (char)b, (char)c};
      round(s);
    }
    mc::state(mc::Hash().add(a).add(b));
  }
  MC_OP("all triples starting with byte %d", a);
  mc::outcome("pad0");
}
// longer strings over extreme bytes: every tail length, zero bytes everywhere
MC_SCOPE(extreme) {
  string s = mc::str(string("\0\xff\x80""A", 4), 0, mc::bound(8, 9));
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  round(s);
}
MC_SCOPE(binary) {
  string s = mc::str(string("\0\xfb", 2), 0, mc::bound(16, 18));
  MC_OP("encode and decode %s", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  round(s);
}
MC_SCOPE(requested_length) {
  string s = mc::str(string("\0\xffz", 3), 0, mc::bound(9, 10));
  MC_OP("encode %s with every length", mc::show(s).c_str());
  mc::state(mc::Hash().add(s));
  lengths(s, -3, (int)bare(s).size() + 6);
  if (!cuhksz::base64Encode(s, INT_MIN).empty()) mc::fail("length", "a text for length INT_MIN");
}
// lengths far beyond the text
MC_SCOPE(requested_long) {
  static const std::vector<string> P{"", "M", "Ma", "Man", string("\0", 1), string("\0\0\0", 3), "\xff\xfe\xfd\xfc", "any carnal pleasure."};
  const string& s = mc::pick(P);
  int n = mc::size(0, mc::bound(1300, 5000), {4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 1000003});
  MC_OP("encode %s with length %d", mc::show(s).c_str(), n);
  mc::state(mc::Hash().add(s).add(n));
  lengths(s, n, n);
}
// size ladder
MC_SCOPE(ladder) {
  int n = mc::choose(mc::bound(1400, 2800));
  int k = mc::choose(4);
  string s;
  for (int i = 0; i < n; i++)
    s += (char)(k == 0 ? 0 : k == 1 ? 255 : k == 2 ? i : (int)(mc::scramble(i, n) & 255));
  MC_OP("%d bytes of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k));
  mc::outcome("long");
  round(s);
  int b = (int)bare(s).size();
  lengths(s, b - 2 < 0 ? 0 : b - 2, b + 5);
}
MC_SCOPE(large) {
  static const int N[] = {1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 12287, 12288, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
  int n = mc::pick(N), k = mc::choose(2);
  string s;
  for (int i = 0; i < n; i++) s += (char)(k == 0 ? 255 : (int)(mc::scramble(i, n) & 255));
  MC_OP("%d bytes of kind %d", n, k);
  mc::state(mc::Hash().add(n).add(k));
  round(s);
  int b = (int)bare(s).size();
  lengths(s, b - 1, b + 1);
}
// calls do not influence each other
MC_SCOPE(history) {
  static const std::vector<string> P{"", "M", "Ma", "Man", string("\0", 1), string("\0\0\0", 3), "\xff\xfe", "any carnal pleasure."};
  for (int i = 0, n = 3; i < n; i++) {
    const string& s = mc::pick(P);
    int k = mc::choose(3);
    MC_OP("%s of %s", k == 0 ? "round trip" : k == 1 ? "lengths" : "decode", mc::show(s).c_str());
    mc::state(mc::Hash().add(s).add(k).add(i));
    if (k == 0) round(s);
    if (k == 1) lengths(s, 0, 9);
    if (k == 2 && cuhksz::base64Decode(standard(s)) != s) mc::fail("decode", "decoding %s", standard(s).c_str());
  }
}
