// modules: string_utils
// C06: a trie contains exactly the strings inserted and not removed.
#include "trie.h"

static void check(Trie& t, const Model& m, const Words& probe) {
  mc::ops(1);
  for (int round = 0; round < 2; round++) {
    if (t.size() != (int)m.v.size()) mc::fail("size", "size %d, expected %zu", t.size(), m.v.size());
    for (auto& w : m.v)
      if (!t.contain(w)) mc::fail("member", "%s is missing", mc::show(w).c_str());
    for (auto& w : probe)
      if (t.contain(w) != m.has(w))
        mc::fail("member", "contain(%s)=%d, expected %d", mc::show(w).c_str(), t.contain(w), m.has(w));
  }
}
