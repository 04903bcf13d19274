// modules: json
// C15: JSON values under every history of construction, copying, moving, assignment,
// indexing, appending and overwriting, against ideal tree values.
#include "json_ref.h"

#include <climits>

typedef std::vector<std::pair<string, int>> Path;  // a key, or ("", index)
struct Step {
  bool byKey;
  string key;
  int index;
};
struct Where {
  int root;
  std::vector<Step> path;
  string name() const {
    string s = root ? "y" : "x";
    for (auto& p : path) s += p.byKey ? "." + p.key : "[" + std::to_string(p.index) + "]";
    return s;
  }
  bool inside(const Where& o) const {  // this is o or a part of it
    if (root != o.root || path.size() < o.path.size()) return false;
    for (size_t i = 0; i < o.path.size(); i++)
      if (path[i].byKey != o.path[i].byKey || path[i].key != o.path[i].key || path[i].index != o.path[i].index) return false;
    return true;
  }
};
static void collect(const J& m, Where w, std::vector<Where>& out, size_t max) {
  if (out.size() >= max) return;
  out.push_back(w);
  for (size_t i = 0; i < m.a.size(); i++) {
    Where v = w;
    v.path.push_back({false, "", (int)i});
    collect(m.a[i], v, out, max);
  }
  for (auto& p : m.o) {
    Where v = w;
    v.path.push_back({true, p.first, 0});
    collect(p.second, v, out, max);
  }
}
struct World {
  JSONObject* x[2];
  J m[2];
  int access = 0;
  JSONObject& impl(const Where& w) {
    JSONObject* p = x[w.root];
    for (auto& s : w.path) {
      access++;
      if (s.byKey)
        p = access % 3 == 0 ? &(*p)[s.key] : access % 3 == 1 ? &(*p)[s.key.c_str()] : &p->at(s.key);
      else
        p = access % 2 ? &(*p)[s.index] : &p->at((unsigned)s.index);
    }
    return *p;
  }
  J& model(const Where& w) {
    J* p = &m[w.root];
    for (auto& s : w.path) p = s.byKey ? &p->key(s.key) : &p->at(s.index);
    return *p;
  }
  void check() {
    mc::ops(1);
    for (int w = 0; w < 2; w++) {
      expectJ(*x[w], m[w], w ? "y" : "x");
      J back;
      string t = x[w]->dump();
      if (!strictParse(t, back) || !same(back, m[w])) mc::fail("dump", "dumped text disagrees: %s", mc::show(shorten(t)).c_str());
    }
  }
};
static JSONObject make(const J& m) {
  switch (m.k) {
    case J::Null: return JSONObject();
    case J::Bool: return JSONObject(m.b);
    case J::Int: return JSONObject(m.i);
    case J::Real: return JSONObject(m.d);
    case J::Str: return JSONObject(m.s);
    case J::Arr: {
      JSONObject r = JSONObject::Build(Ty::Array);
      for (auto& e : m.a) r.append(make(e));
      return r;
    }
    case J::Obj: {
      JSONObject r = JSONObject::Build(Ty::Object);
      for (auto& p : m.o) r[p.first] = make(p.second);
      return r;
    }
  }
  return JSONObject();
}
static J initial(int k) {
  J j;
  switch (k) {
    case 0: return j;
    case 1: {
      j = J::obj();
      j.key("a") = J::str("a string long enough to live on the heap");
      j.key("b") = J::arr();
      j.key("b").a.push_back(J::integer(1));
      return j;
    }
    case 2: {
      j = J::arr();
      j.a.push_back(J::obj());
      j.a[0].key("a") = J::integer(3);
      j.a.push_back(J::str("q"));
      return j;
    }
    case 3: return J::str("text");
    case 4: {
      j = J::obj();
      j.key("a") = J::obj();
      j.key("a").key("a") = J::obj();
      j.key("a").key("a").key("b") = J::real(1.5);
      return j;
    }
    case 5: return J::arr();
    case 6: return J::boolean(true);
    case 7: return J::integer(1);
    case 8: return J::real(1);
    case 9: return J::obj();
    case 10: return J::str("");
    case 11: return J::boolean(false);
    case 12: {
      j = J::arr();
      j.a.push_back(J::boolean(true)), j.a.push_back(J::null()), j.a.push_back(J::real(0));
      return j;
    }
    default: {
      j = J::obj();
      j.key("a") = J::boolean(false);
      j.key("") = J::null();
      return j;
    }
  }
}
enum { INITS = 14 };
static Where anyNode(World& w, size_t max) {
  std::vector<Where> v;
  for (int r = 0; r < 2; r++) {
    std::vector<Where> c;
    collect(w.m[r], {r, {}}, c, max);
    v.insert(v.end(), c.begin(), c.end());
  }
  return mc::pick(v);
}
static void step(World& w, size_t max, int wide) {
  Where at = anyNode(w, max);
  JSONObject& x = w.impl(at);
  string nm = at.name();
  switch (mc::choose(8)) {
    case 0: {
      int k = mc::choose(wide ? 8 : 3);
      MC_OP("%s = scalar %d", nm.c_str(), k);
      switch (k) {
        case 0: x = 7; w.model(at) = J::integer(7); break;
        case 1: x = "literal text that is long enough for the heap"; w.model(at) = J::str("literal text that is long enough for the heap"); break;
        case 2: x = nullptr; w.model(at) = J::null(); break;
        case 3: x = 2.25; w.model(at) = J::real(2.25); break;
        case 4: x = true; w.model(at) = J::boolean(true); break;
        case 5: x = string("s\"t"); w.model(at) = J::str("s\"t"); break;
        case 6: x = (long)-5; w.model(at) = J::integer(-5); break;
        case 7: x = 0.5f; w.model(at) = J::real(0.5); break;
      }
      break;
    }
    case 1: {
      Where q = anyNode(w, max);
      MC_OP("%s = %s", nm.c_str(), q.name().c_str());
      J v = w.model(q);
      bool cst = wide && mc::flip();
      JSONObject& src = w.impl(q);
      JSONObject& r = cst ? (x = static_cast<const JSONObject&>(src)) : (x = src);
      if (&r != &x) mc::fail("assign", "assignment does not return its target");
      w.model(at) = v;
      break;
    }
    case 2: {
      Where q = anyNode(w, max);
      if (at.inside(q) && !q.inside(at)) return;  // moving a value into its own part
      MC_OP("%s = move %s", nm.c_str(), q.name().c_str());
      J v = w.model(q);
      JSONObject& src = w.impl(q);
      x = std::move(src);
      w.model(at) = v;
      if (!q.inside(at)) {
        src = 11;
        w.model(q) = J::integer(11);
      }
      break;
    }
    case 3: {
      static const char* K[] = {"a", "c", ""};
      string k = K[mc::choose(wide ? 3 : 2)];
      bool set = mc::flip();
      MC_OP("%s[\"%s\"]%s", nm.c_str(), k.c_str(), set ? " = 9" : "");
      JSONObject& e = mc::flip() ? x[k] : x[k.c_str()];
      J& me = w.model(at).key(k);
      if (set) e = 9, me = J::integer(9);
      break;
    }
    case 4: {
      int i = mc::choose(3);
      bool set = mc::flip();
      MC_OP("%s[%d]%s", nm.c_str(), i, set ? " = \"e\"" : "");
      JSONObject& e = wide && mc::flip() ? x.at((unsigned)i) : x[i];
      J& me = w.model(at).at(i);
      if (set) e = "e", me = J::str("e");
      break;
    }
    case 5: {
      int k = mc::choose(3);
      if (k == 0) {
        MC_OP("append scalars to %s", nm.c_str());
        x.append(1, "two", false);
        w.model(at).push(J::integer(1));
        w.model(at).push(J::str("two"));
        w.model(at).push(J::boolean(false));
      } else {
        Where q = k == 1 ? at : anyNode(w, max);
        MC_OP("append %s to %s", q.name().c_str(), nm.c_str());
        J v = w.model(q);
        x.append(w.impl(q));
        w.model(at).push(v);
      }
      break;
    }
    case 6: {
      int k = mc::choose(4);
      MC_OP("%s built anew, form %d", nm.c_str(), k);
      J v = w.model(at);
      if (k == 0) {
        x = JSONObject{"k", x, "l", 2, "k", 3.5};
        J n = J::obj();
        n.key("k") = J::real(3.5);
        n.key("l") = J::integer(2);
        w.model(at) = n;
      } else if (k == 1) {
        x = JSONObject::Array(x, 1);
        J n = J::arr();
        n.a.push_back(v), n.a.push_back(J::integer(1));
        w.model(at) = n;
      } else if (k == 2) {
        x = {"p", x};
        J n = J::obj();
        n.key("p") = v;
        w.model(at) = n;
      } else {
        static const Ty T[] = {Ty::Null, Ty::Object, Ty::Array, Ty::String, Ty::Float, Ty::Integral, Ty::Boolean};
        static const J V[] = {J::null(), J::obj(), J::arr(), J::str(""), J::real(0), J::integer(0), J::boolean(false)};
        int t = mc::choose(wide ? 7 : 3);
        x = JSONObject::Build(T[t]);
        w.model(at) = V[t];
      }
      break;
    }
    case 7: {
      int k = mc::choose(3);
      int a = at.root;
      if (!at.path.empty()) return;
      if (k == 0) {
        MC_OP("%s := copy of the other", nm.c_str());
        JSONObject* n = new JSONObject(*w.x[1 - a]);
        delete w.x[a];
        w.x[a] = n;
        w.m[a] = w.m[1 - a];
      } else if (k == 1) {
        MC_OP("%s := moved out of itself", nm.c_str());
        JSONObject* n = new JSONObject(std::move(*w.x[a]));
        delete w.x[a];
        w.x[a] = n;
      } else {
        MC_OP("write through iteration of %s", nm.c_str());
        for (auto& e : w.x[a]->ArrayRange()) e = 4;
        for (auto& e : w.m[a].a) e = J::integer(4);
        for (auto& e : w.x[a]->ObjectRange()) e.second.append(e.second);
        for (auto& e : w.m[a].o) {
          J v = e.second;
          e.second.push(v);
        }
      }
      break;
    }
  }
}
static void history(int inits, int depth, size_t max, int wide) {
  World w;
  for (int r = 0; r < 2; r++) {
    w.m[r] = initial(mc::choose(inits));
    w.x[r] = new JSONObject(make(w.m[r]));
  }
  bool each = mc::flip();
  int n = mc::range(1, depth);
  for (int i = 0; i < n; i++) {
    step(w, max, wide);
    if (each) w.check();
  }
  w.check();
  noteJ(w.m[0]), noteJ(w.m[1]);
  if (n == 1) {  // lifetimes end in either order, a copy outlives the original
    JSONObject c(*w.x[0]);
    delete w.x[0];
    expectJ(c, w.m[0], "a copy after its source is gone");
    w.x[0] = new JSONObject(c);
  }
  delete w.x[0];
  expectJ(*w.x[1], w.m[1], "y after x is gone");
  delete w.x[1];
}
MC_SCOPE_LEAK(one_step) { history(INITS, 1, 6, 1); }
MC_SCOPE_LEAK(two_steps) { history(mc::bound(2, 4), 2, mc::bound(3, 4), 1); }
MC_SCOPE_LEAK(three_steps) {
  World w;
  w.m[0] = initial(mc::range(1, mc::bound(1, 2))), w.m[1] = J();
  w.x[0] = new JSONObject(make(w.m[0])), w.x[1] = new JSONObject();
  bool each = mc::thorough() && mc::flip();
  for (int i = 0; i < 3; i++) {
    step(w, 2, 0);
    if (each) w.check();
  }
  w.check();
  noteJ(w.m[0]);
  delete w.x[1];
  delete w.x[0];
}

// read-only access: finds what is there, diagnoses what is not, changes nothing
MC_SCOPE(read_only) {
  World w;
  w.m[0] = initial(mc::choose(6)), w.m[1] = J();
  w.x[0] = new JSONObject(make(w.m[0])), w.x[1] = new JSONObject();
  if (mc::flip()) step(w, 3, 1);
  std::vector<Where> v;
  collect(w.m[0], {0, {}}, v, 6);
  Where at = mc::pick(v);
  const JSONObject& x = w.impl(at);
  const J m = w.model(at);
  static const char* K[] = {"a", "b", "c", ""};
  static const unsigned I[] = {0, 1, 2, 3, 7, 4294967295u, 2147483648u};
  bool found;
  const JSONObject* got = nullptr;
  J want;
  string what;
  if (mc::flip()) {
    string k = mc::pick(K);
    J c = m;
    J* f = c.k == J::Obj ? c.find(k) : nullptr;
    found = f;
    if (f) want = *f;
    what = "read " + at.name() + " key \"" + k + "\"";
    MC_CHECK(x.hasKey(k) == found, "key", "%s: hasKey wrong", what.c_str());
    MC_OP("%s", what.c_str());
    if (found)
      mc::mustLive("read", what, [&] { got = &x.at(k); });
    else
      mc::mustDie("read:missing", what, [&] { got = &x.at(k); });
  } else {
    unsigned i = mc::pick(I);
    found = m.k == J::Arr && i < m.a.size();
    if (found) want = m.a[i];
    what = "read " + at.name() + " index " + std::to_string(i);
    MC_OP("%s", what.c_str());
    if (found)
      mc::mustLive("read", what, [&] { got = &x.at(i); });
    else
      mc::mustDie("read:missing", what, [&] { got = &x.at(i); });
  }
  mc::outcome(found ? "found" : "diagnosed");
  w.check();
  noteJ(m);
  if (!found) return;
  expectJ(*got, want, what);
  delete w.x[0];
  delete w.x[1];
}
MC_SCOPE(misuse) {
  World w;
  w.m[0] = initial(mc::choose(6)), w.m[1] = J();
  w.x[0] = new JSONObject(make(w.m[0])), w.x[1] = new JSONObject();
  static const int N[] = {-1, -2, INT_MIN, -1000};
  int k = mc::choose(3), n = mc::pick(N);
  MC_OP("misuse %d (%d)", k, n);
  if (k == 0) mc::mustDie("misuse:index", "negative index " + std::to_string(n), [&] { (*w.x[0])[n]; });
  if (k == 1) mc::mustDie("misuse:list", "literal list without a last value", [&] { JSONObject y{"a", 1, "b"}; });
  if (k == 2) mc::mustDie("misuse:list", "literal list of one", [&] { JSONObject y = {{"a", {"b"}}, 2}; });
  w.check();
  noteJ(w.m[0]);
}
// numbers and other scalars through every constructor and assignment
MC_SCOPE_LEAK(scalars) {
  static const int I[] = {0, 1, -1, INT_MAX, INT_MIN, 255, 65536};
  int k = mc::choose(14), v = mc::pick(I);
  bool asg = mc::flip();
  JSONObject x;
  J m = initial(mc::choose(INITS));
  x = make(m);
  char c = (char)(v % 100);
  char buf[] = "char array, long enough to be on the heap";
  const char* cp = buf;
  switch (k) {
    case 0: if (asg) x = v; else x = JSONObject(v); m = J::integer(v); break;
    case 1: if (asg) x = (short)v; else x = JSONObject((short)v); m = J::integer((short)v); break;
    case 2: if (asg) x = c; else x = JSONObject(c); m = J::integer(c); break;
    case 3: if (asg) x = (long long)v; else x = JSONObject((long long)v); m = J::integer(v); break;
    case 4: if (asg) x = (double)v / 4; else x = JSONObject((double)v / 4); m = J::real((double)v / 4); break;
    case 5: if (asg) x = (v & 1) == 1; else x = JSONObject((v & 1) == 1); m = J::boolean((v & 1) == 1); break;
    case 6: if (asg) x = cp; else x = JSONObject(cp); m = J::str(buf); break;
    case 7: if (asg) x = buf; else x = JSONObject(buf); m = J::str(buf); break;
    case 8: if (asg) x = nullptr; else x = JSONObject(nullptr); m = J::null(); break;
    case 9: if (asg) x = JSONObject::Object(); else x = JSONObject(JSONObject::Object()); m = J::obj(); break;
    case 10: if (asg) x = JSONObject::Array(); else x = JSONObject(JSONObject::Array()); m = J::arr(); break;
    case 11: if (asg) x = (unsigned)(v & INT_MAX); else x = JSONObject((unsigned)(v & INT_MAX)); m = J::integer(v & INT_MAX); break;
    case 12: if (asg) x = (float)(v % 1000) / 4; else x = JSONObject((float)(v % 1000) / 4); m = J::real((v % 1000) / 4.0); break;
    case 13: if (asg) x = (signed char)(v % 100); else x = JSONObject((unsigned char)(v & 255)); m = J::integer(asg ? v % 100 : v & 255); break;
  }
  memset(buf, 'z', 5);
  MC_OP("scalar form %d value %d", k, v);
  expectJ(x, m, "scalar");
  const JSONObject y(x);
  x = 1;
  expectJ(y, m, "copy of scalar");
  noteJ(m);
}
// literals of many members and arrays of many arguments, with every kind of value at every place
static JSONObject kindOf(int k, int i) {
  switch (k) {
    case 0: return JSONObject(i);
    case 1: return JSONObject();
    case 2: return JSONObject("text " + std::to_string(i));
    case 3: return JSONObject::Array(i, "e");
    case 4: return JSONObject{"n", i};
    case 5: return JSONObject(i + 0.5);
    default: return JSONObject(i % 2 == 0);
  }
}
static J modelOf(int k, int i) {
  J j;
  switch (k) {
    case 0: return J::integer(i);
    case 1: return J::null();
    case 2: return J::str("text " + std::to_string(i));
    case 3: j = J::arr(), j.a.push_back(J::integer(i)), j.a.push_back(J::str("e")); return j;
    case 4: j = J::obj(), j.key("n") = J::integer(i); return j;
    case 5: return J::real(i + 0.5);
    default: return J::boolean(i % 2 == 0);
  }
}
MC_SCOPE_LEAK(literals) {
  int form = mc::choose(4), k = mc::choose(7), at = mc::choose(10), rest = mc::choose(7);
  bool dup = form < 2 && mc::flip();
  MC_OP("form %d, kind %d at %d, others of kind %d%s", form, k, at, rest, dup ? ", a key twice" : "");
  JSONObject e[10];
  J m = form < 2 ? J::obj() : J::arr(), v[10];
  string key[10];
  for (int i = 0; i < 10; i++) {
    int kk = i == at ? k : rest;
    e[i] = kindOf(kk, i), v[i] = modelOf(kk, i);
    key[i] = dup && i == (at + 3) % 10 ? "key" + std::to_string(at) : "key" + std::to_string(i);
  }
  for (int i = 0; i < 10; i++)
    if (form < 2) m.key(key[i]) = v[i];
    else m.a.push_back(v[i]);
  JSONObject x(3);
  if (form == 0)
    x = JSONObject{key[0], e[0], key[1], e[1], key[2], e[2], key[3], e[3], key[4], e[4], key[5], e[5], key[6], e[6], key[7], e[7], key[8], e[8], key[9], e[9]};
  else if (form == 1)
    x = {key[0].c_str(), e[0], key[1].c_str(), e[1], key[2], e[2], key[3], e[3], key[4].c_str(), e[4], key[5], e[5], key[6], e[6], key[7], e[7], key[8], e[8], key[9], e[9]};
  else if (form == 2)
    x = JSONObject::Array(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]);
  else
    x = JSONObject::Array(e[0]), x.append(e[1], e[2], e[3], e[4]), x.append(e[5]), x.append(e[6], e[7], e[8], e[9]);
  expectJ(x, m, "literal");
  for (int i = 0; i < 10; i++) expectJ(e[i], v[i], "source of the literal"), e[i] = i;
  expectJ(x, m, "literal after its sources changed");
  noteJ(m);
}
// elements created beyond the end: everything between is null, everything before unchanged
MC_SCOPE_LEAK(gaps) {
  int n = mc::range(0, 6), kinds = mc::choose(3), first = mc::range(0, mc::bound(40, 120)), second = mc::pick({0, 1, 2, 3, 7, 20, 64, 200});
  MC_OP("%d elements, then [%d], then [%d]", n, first, second);
  JSONObject x = JSONObject::Array();
  J m = J::arr();
  for (int i = 0; i < n; i++) {
    if (kinds == 0) x.append(i + 1), m.push(J::integer(i + 1));
    if (kinds == 1) x[i] = "s" + std::to_string(i), m.at(i) = J::str("s" + std::to_string(i));
    if (kinds == 2) x[i]["k"][1] = i, m.at(i).key("k").at(1) = J::integer(i);
  }
  x[first] = true, m.at(first) = J::boolean(true);
  expectJ(x, m, "after the first");
  x.at((unsigned)second) = 2.5, m.at(second) = J::real(2.5);
  expectJ(x, m, "after the second");
  const JSONObject c(x);
  expectJ(c, m, "copy");
  x[first + 3], m.at(first + 3);
  expectJ(x, m, "after looking beyond");
  noteJ(m);
}
MC_SCOPE_LEAK(huge) {
  int n = mc::pick({4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001}), kind = mc::choose(3);
  MC_OP("%d elements, kind %d", n, kind);
  JSONObject x;
  J m;
  if (kind == 0)
    for (int i = 0; i < n; i++) {
      x.append(i), m.push(J::integer(i));
      if (i % 256 == 0) mc::beat();
    }
  if (kind == 1) x[n - 1] = 7, m.at(n - 1) = J::integer(7);
  if (kind == 2) {
    string s((size_t)n, 'q');
    s[n / 2] = '\0';
    x = s, m = J::str(s);
    if (x.toString() != s) mc::fail("string", "a string of %d characters changed", n);
    x = 5;
    x[3] = 1, m = J::null(), m.at(3) = J::integer(1);
  }
  if (kind < 2) {
    for (int i : {0, 255, 256, 32767, 32768, 65535, 65536, n - 1})
      if (i < n) x[i] = "changed", m.at(i) = J::str("changed");
  }
  mc::beat();
  JSONObject c = x;
  x["replaced"] = 1;
  expectJ(c, m, "copy");
  x = std::move(c);
  expectJ(x, m, "moved");
}
MC_SCOPE_LEAK(ladder) {
  int n = mc::size(1, mc::bound(140, 300), {200, 255, 256, 257, 511, 512, 513, 1000}), kind = mc::choose(4);
  MC_OP("%d elements, kind %d", n, kind);
  JSONObject x;
  J m;
  for (int i = 0; i < n; i++) {
    if (kind == 0) x.append(i), m.push(J::integer(i));
    if (kind == 1) x[n - 1 - i] = "e" + std::to_string(i), m.at(n - 1 - i) = J::str("e" + std::to_string(i));
    if (kind == 2) x["k" + std::to_string(i * 7 % n)] = i, m.key("k" + std::to_string(i * 7 % n)) = J::integer(i);
    if (kind == 3 && i < 100) {
      JSONObject y = JSONObject::Array();
      y.append(x);
      x = y;
      J a = J::arr();
      a.a.push_back(m);
      m = a;
    }
  }
  mc::beat();
  JSONObject c = x;
  x["replaced"] = 1;
  expectJ(c, m, "copy");
  x = std::move(c);
  expectJ(x, m, "moved");
  noteJ(m);
}
// objects of every size that also hold the unusual keys; every key is found again, absent ones are not
MC_SCOPE_LEAK(object_ladder) {
  static const std::vector<string> S{"", "k", string("\0", 1), "\xff", "~", string("k1\0", 3), "K1", " ", "\xc3\xa9"};
  int n = mc::size(0, mc::bound(140, 400), {200, 255, 256, 257, 511, 512, 513}), special = mc::choose((int)S.size()), when = mc::choose(3);
  MC_OP("%d keys and the key %s, %s", n, mc::show(S[special]).c_str(), when == 0 ? "first" : when == 1 ? "in the middle" : "last");
  JSONObject x;
  J m;
  auto put = [&] { x[S[special]] = "special", m.key(S[special]) = J::str("special"); };
  for (int i = 0; i < n; i++) {
    if ((when == 0 && i == 0) || (when == 1 && i == n / 2)) put();
    x["k" + std::to_string(i)] = i, m.key("k" + std::to_string(i)) = J::integer(i);
  }
  if (when == 2 || n == 0) put();
  const JSONObject& c = x;
  if (c.size() != n + 1) mc::fail("size", "size()=%d with %d keys", (int)c.size(), n + 1);
  for (auto& s : S) MC_CHECK(c.hasKey(s) == (s == S[special]), "key", "hasKey(%s) wrong with %d keys", mc::show(s).c_str(), n + 1);
  MC_CHECK(!c.hasKey("k" + std::to_string(n)), "key", "absent key reported with %d keys", n + 1);
  expectJ(c.at(S[special]), J::str("special"), "special key");
  expectJ(x, m, "object");
  JSONObject d = x;
  x[S[special]][2] = false, m.key(S[special]) = J::null(), m.key(S[special]).at(2) = J::boolean(false);
  expectJ(x, m, "object after replacing the special value");
  expectJ(d.at(S[special]), J::str("special"), "copy");
  noteJ(m);
}
// a value of every size combined with itself or its own parts
MC_SCOPE_LEAK(alias_ladder) {
  int n = mc::size(1, mc::bound(70, 140), {100, 127, 128, 129, 255, 256, 257, 513}), obj = mc::flip(), op = mc::choose(9), at = mc::choose(4);
  int i = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n / 3;
  MC_OP("%s of %d, operation %d with element %d", obj ? "object" : "array", n, op, i);
  auto key = [](int k) { return "k" + std::to_string(100000 + k); };
  JSONObject x;
  J m;
  for (int k = 0; k < n; k++) {
    JSONObject v;
    J w;
    switch (k % 4) {
      case 0: v = k, w = J::integer(k); break;
      case 1: v = "text " + std::to_string(k), w = J::str("text " + std::to_string(k)); break;
      case 2: v[2] = k, w.at(2) = J::integer(k); break;
      case 3: v["a"] = false, w.key("a") = J::boolean(false); break;
    }
    if (obj) x[key(k)] = v, m.key(key(k)) = w; else x[k] = v, m.at(k) = w;
  }
  auto part = [&]() -> JSONObject& { return obj ? x[key(i)] : x[i]; };
  auto mpart = [&]() -> J& { return obj ? m.key(key(i)) : m.at(i); };
  const J old = m, oldPart = mpart();
  switch (op) {
    case 0: x = part(), m = oldPart; break;
    case 1: x = std::move(part()), m = oldPart; break;
    case 2: part() = x, mpart() = old; break;
    case 3: { JSONObject& a = x; x = a; break; }
    case 4: x.append(part()), m.push(oldPart); break;
    case 5: x.append(x), m.push(old); break;
    case 6: part() = obj ? x[key(n - 1 - i)] : x[n - 1 - i], mpart() = J(obj ? m.key(key(n - 1 - i)) : m.at(n - 1 - i)); break;
    case 7: { JSONObject& p = part(); p = p; break; }
    case 8: part().append(part()); { J p = mpart(); mpart().push(p); } break;
  }
  expectJ(x, m, "after the operation");
  JSONObject c(x);
  x = 1;
  expectJ(c, m, "copy");
  noteJ(m);
}
