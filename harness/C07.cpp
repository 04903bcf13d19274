// modules: string_utils
// C07: iteration yields every stored string exactly once, in order of the mapped characters.
#include "trie.h"

static void check(Trie& t, const Model& m, const Words& probe) {
  mc::ops(1);
  for (int round = 0; round < 2; round++) {
    size_t n = 0;
    for (auto w : t) {
      if (n >= m.v.size()) mc::fail("iterate", "iteration yields too much: %s", mc::show(w).c_str());
      if (w != m.v[n])
        mc::fail("iterate", "iteration yields %s at %zu, expected %s", mc::show(w).c_str(), n, mc::show(m.v[n]).c_str());
      n++;
    }
    if (n != m.v.size()) mc::fail("iterate", "iteration stops after %zu of %zu strings", n, m.v.size());
  }
  // dereferencing repeatedly, copying iterators, two iterators at once
  Trie::iterator a = t.begin(), e = t.end();
  size_t n = 0;
  for (; a != e && n < m.v.size(); ++a, ++n) {
    Trie::iterator b(a);
    if (!(b == a) || *b != m.v[n] || *a != m.v[n]) mc::fail("iterate", "copied iterator differs at %zu", n);
    ++b;
    bool last = n + 1 == m.v.size();
    if ((b == e) != last) mc::fail("iterate", "a copied iterator ends in the wrong place");
    if (!last && *b != m.v[n + 1]) mc::fail("iterate", "advancing a copied iterator at %zu is wrong", n);
    if (*a != m.v[n]) mc::fail("iterate", "advancing a copy changed the original iterator");
  }
  if (a != e || n != m.v.size()) mc::fail("iterate", "explicit iteration differs");
  // iterating changed nothing
  if (t.size() != (int)m.v.size()) mc::fail("changed", "size %d, expected %zu", t.size(), m.v.size());
  for (auto& w : m.v)
    if (!t.contain(w)) mc::fail("changed", "%s is missing after iterating", mc::show(w).c_str());
}
