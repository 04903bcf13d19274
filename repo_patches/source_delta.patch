From 61714b3841d2ed36d961302a7b961485d08cd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:55 +0000
Subject: [PATCH 01/57] fix: kmpSearch on empty pattern and start beyond the
 end

---
 src/algorithm/kmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..0c55f15 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -6,6 +6,9 @@
 namespace cuhksz {
 int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
+  if (start > base.size()) return -1;
+  if (pattern.empty()) return start;
+
   // generate next table
   int psize = pattern.size();
   std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
-- 
2.43.0


From c5b9f279b5e81b47478374dc18f9c0cf42b63404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 02/57] fix: base64Decode dropped zero bytes

---
 src/base64/base64_functions.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..ae428a6 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,11 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
-  for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
+  // only complete bytes: what is left over are the padding bits
+  for (std::size_t i = 0; i + 8 <= binaryDecodeStr.length(); i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From 4d99d5ab81276ce7439a007f33a4cd1622e099bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 03/57] fix: Point operators leaked their result

---
 src/include/geometry/Point.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..38bc76d 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -46,13 +46,13 @@ class Point {
 
   // TODO: what about init a null Point then assign to elem[i] + other.elem[i]
   Point operator+(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] + other.elem[i];
     return ret;
   }
 
   Point operator-(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] - other.elem[i];
     return ret;
   }
@@ -75,7 +75,7 @@ class Point {
   }
 
   Point operator*(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] * constant;
     return ret;
   }
@@ -90,7 +90,7 @@ class Point {
   }
 
   Point operator/(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] / constant;
     return ret;
   }
-- 
2.43.0


From 3353f8f5947d574194243d4df5f1cc5ad1a14de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 04/57] fix: BST::erase lost subtrees and left stale links

---
 src/graph/BST.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..651f0c4 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -86,7 +86,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
@@ -98,7 +98,10 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
+  x->ch[0] = x->ch[1] = x->fa = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From 84c85b0f7a80660e55174394762eb611095e045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 05/57] fix: BST::pre and BST::suf only searched the node's own
 subtree

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 651f0c4..6504222 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From 86125eaea0fbf6ec8776752d50f5cd80553342eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 06/57] fix: Tree::LCA read past the ancestor table

---
 src/graph/Tree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..bb59570 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -43,7 +43,8 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
-    if (x->ancestor[i] != y->ancestor[i]) {
+    // after a jump the shorter table may not reach this level any more
+    if (i < (int)x->ancestor.size() && x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
   }
-- 
2.43.0


From 5626bfe9bb4ffb710accd788907665dad1129677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 07/57] fix: stringCast of empty text was indeterminate, and
 kept a dangling reference

---
 src/include/string_utils/StringCast.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..fb823a5 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -21,7 +21,7 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    T casted = T();
     try {
       strStream >> casted;
     } catch (std::exception &e) {
@@ -33,7 +33,7 @@ class stringCast {
   T operator()() const { return static_cast<T>(*this); }
 
  private:
-  const std::string &m_from;
+  const std::string m_from;
 };
 }  // namespace cuhksz
 #endif  // CUHKSZ_STRINGUTILS_STRINGCAST
-- 
2.43.0


From 4cbda05dea383ddc497ab81a1ec6d909900433ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 08/57] fix: urlDecode read past an incomplete percent sequence

---
 src/network/network_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..6b16847 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -51,7 +51,7 @@ std::string urlDecode(const std::string str) {
   for (size_t i = 0; i < length; i++) {
     if (str[i] == '+') {
       escaped << ' ';
-    } else if (str[i] == '%') {
+    } else if (str[i] == '%' && i + 2 < length) {
       int high = hexToInt(str[++i]);
       int low = hexToInt(str[++i]);
 
-- 
2.43.0


From b2825977810157d837ff698bd8d5278232f6947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 09/57] fix: Queue::first and Queue::last did not diagnose an
 empty queue

---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From 6345fb7be225ebf2381cf98671bbf5a3900cde90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 10/57] fix: reading a malformed Vector looped forever

---
 src/include/containers/Vector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..1210351 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -402,13 +402,16 @@ std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
 
 template <typename ValueType>
 std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
-  char ch;
+  char ch = 0;
   is >> ch;
   if (ch != '{') {
     error("A vector should startwith \'{\'");
   }
   vec.clear();
   is >> ch;
+  if (is.fail()) {
+    error("A vector must endwith \'}\'");
+  }
   if (ch != '}') {
     is.unget();
     while (true) {
@@ -416,7 +419,7 @@ std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
       is >> value;
       vec.push(value);
       is >> ch;
-      if (is.eof()) {
+      if (is.fail()) {
         error("A vector must endwith \'}\'");
       }
       if (ch == '}') {
-- 
2.43.0


From 446a7693e5bb2ecf348e03110a203f14689d4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 11/57] fix: SegmentTree pushed flags of leaves to children it
 does not have

---
 src/include/graph/SegmentTree.h | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..5881c9c 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,21 +80,23 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
-    if (hasMulFlag[ls]) {
-      mulFlag[ls] *= mulFlag[o];
-    } else {
-      hasMulFlag[ls] = true;
-      mulFlag[ls] = mulFlag[o];
+    if (l != r) {
+      if (hasMulFlag[ls]) {
+        mulFlag[ls] *= mulFlag[o];
+      } else {
+        hasMulFlag[ls] = true;
+        mulFlag[ls] = mulFlag[o];
+      }
+      if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
+
+      if (hasMulFlag[rs]) {
+        mulFlag[rs] *= mulFlag[o];
+      } else {
+        hasMulFlag[rs] = true;
+        mulFlag[rs] = mulFlag[o];
+      }
+      if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
     }
-    if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
-
-    if (hasMulFlag[rs]) {
-      mulFlag[rs] *= mulFlag[o];
-    } else {
-      hasMulFlag[rs] = true;
-      mulFlag[rs] = mulFlag[o];
-    }
-    if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
   }
 
   if (hasAddFlag[o]) {
@@ -102,17 +104,19 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] += addFlag[o];
     maxVal[o] += addFlag[o];
     sumVal[o] += addFlag[o] * (r - l + 1);
-    if (hasAddFlag[ls]) {
-      addFlag[ls] += addFlag[o];
-    } else {
-      hasAddFlag[ls] = true;
-      addFlag[ls] = addFlag[o];
-    }
-    if (hasAddFlag[rs]) {
-      addFlag[rs] += addFlag[o];
-    } else {
-      hasAddFlag[rs] = true;
-      addFlag[rs] = addFlag[o];
+    if (l != r) {
+      if (hasAddFlag[ls]) {
+        addFlag[ls] += addFlag[o];
+      } else {
+        hasAddFlag[ls] = true;
+        addFlag[ls] = addFlag[o];
+      }
+      if (hasAddFlag[rs]) {
+        addFlag[rs] += addFlag[o];
+      } else {
+        hasAddFlag[rs] = true;
+        addFlag[rs] = addFlag[o];
+      }
     }
   }
 }
-- 
2.43.0


From 4946d18f1b558e5f9026b956f7aee4a8dc3b0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 12/57] fix: SegmentTree kept minimum and maximum swapped after
 a negative factor

---
 src/include/graph/SegmentTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 5881c9c..f7580e7 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -79,6 +79,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     hasMulFlag[o] = false;
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
     sumVal[o] *= mulFlag[o];
     if (l != r) {
       if (hasMulFlag[ls]) {
-- 
2.43.0


From af8931d5257a79ca237015ed377bab3d2db69e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 13/57] fix: SegmentTree partial updates never reached
 enclosing ranges

---
 src/include/graph/SegmentTree.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index f7580e7..caf2c4d 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void pullUp(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -122,6 +123,17 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
   }
 }
 
+template <typename ValueType>
+void SegmentTree<ValueType>::pullUp(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -193,6 +205,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 template <typename ValueType>
@@ -213,6 +226,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From b55f4514ed87889f7c4bf9d419cb9f7c05023822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 14/57] fix: Vertex copies shared edges and destruction left
 dangling ones

---
 src/graph/Vertex.cpp | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index 26e068e..931e0a8 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -6,6 +6,37 @@
 
 namespace cuhksz {
 
+namespace {
+
+// Unlink every edge of v from its other end and release it.
+void releaseEdges(Vertex* v) {
+  for (Edge* e : v->outEdges) {
+    e->getTo()->inEdges.remove(e);
+    delete e;
+  }
+  v->outEdges.clear();
+  for (Edge* e : v->inEdges) {
+    e->getFrom()->outEdges.remove(e);
+    delete e;
+  }
+  v->inEdges.clear();
+}
+
+// Give v its own duplicates of the edges of src.
+void duplicateEdges(const Vertex& src, Vertex* v) {
+  std::list<Edge*> ins(src.inEdges), outs(src.outEdges);
+  for (Edge* e : outs) {
+    v->addEdge(*e->getTo(), e->getVal());
+    if (!e->isValid()) v->outEdges.back()->setInvalid();
+  }
+  for (Edge* e : ins) {
+    e->getFrom()->addEdge(*v, e->getVal());
+    if (!e->isValid()) v->inEdges.back()->setInvalid();
+  }
+}
+
+}  // namespace
+
 int Vertex::nextVertexID = 0;
 
 Vertex::Vertex() {
@@ -29,33 +60,19 @@ Vertex::Vertex(const Vertex& src) {
   id = Vertex::nextVertexID++;
   inEdges.clear();
   outEdges.clear();
-  for (std::list<Edge*>::const_iterator it = src.inEdges.begin();
-       it != src.inEdges.end(); ++it)
-    inEdges.push_back(*it);
-  for (std::list<Edge*>::const_iterator it = src.outEdges.begin();
-       it != src.outEdges.end(); ++it)
-    outEdges.push_back(*it);
+  duplicateEdges(src, this);
 }
 
 Vertex::~Vertex() {
-  for (std::list<Edge*>::iterator it = outEdges.begin(); it != outEdges.end();
-       ++it)
-    if (*it != nullptr) delete *it;
-  inEdges.clear();
-  outEdges.clear();
+  releaseEdges(this);
 }
 
 Vertex& Vertex::operator=(const Vertex& src) {
+  if (this == &src) return *this;
   val = src.val;
   use = src.use;
-  inEdges.clear();
-  outEdges.clear();
-  for (std::list<Edge*>::const_iterator it = src.inEdges.begin();
-       it != src.inEdges.end(); ++it)
-    inEdges.push_back(*it);
-  for (std::list<Edge*>::const_iterator it = src.outEdges.begin();
-       it != src.outEdges.end(); ++it)
-    outEdges.push_back(*it);
+  releaseEdges(this);
+  duplicateEdges(src, this);
   return *this;
 }
 
-- 
2.43.0


From e5997d6798ba560439f451fa654f67a19f574568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 15/57] fix: Trie instances shared the last constructed trie's
 character mapping

---
 src/include/string_utils/Trie.h | 23 ++++++++++++++---------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..08b4bdb 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -155,23 +155,25 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, int (*mapChar)(char),
+               std::size_t index = 0)
+          : index_(index), str_(str), mapChar_(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar_(iter.mapChar_) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
-        return mapChar(ch);
+        return mapChar_(ch);
       }
 
       iterator& operator++() {
@@ -188,9 +190,12 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar_)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, mapChar); }
+    iterator end() {
+      return iterator(&underlying, mapChar, underlying.size());
+    }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..bded03e 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From 18732bf65a7043def552679f4d72d1da877314d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 16/57] fix: Trie::remove of an absent string read past the
 node array

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index bded03e..9be877f 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -209,7 +209,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From 88097c5192837c27a09f499348b2fd2eb6248ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 17/57] fix: Trie iteration skipped or repeated strings when
 backtracking

---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 9be877f..ed53e03 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -91,11 +91,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From e6e14386ad2a002a7079183be0669e26d97de9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 18/57] fix: Trie ignored characters mapped beyond 27 when
 iterating and relocating

---
 src/include/string_utils/Trie.h | 2 ++
 src/string_utils/Trie.cpp       | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 08b4bdb..e7918fe 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -138,6 +138,8 @@ class Trie {
   int (*mapChar)(char);
   char (*mapInt)(int);
   std::queue<int> tailList;
+  // The largest character value used as an arc
+  int maxCode;
   int size_;
 
   bool retrieve(const std::string&);
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ed53e03..9d81c1f 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -1,5 +1,6 @@
 #include "string_utils/Trie.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include "utils/error.h"
@@ -54,6 +55,7 @@ Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
+  maxCode = 1;
   size_ = 0;
 }
 
@@ -73,7 +75,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; *offset <= maxCode; (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -107,6 +109,7 @@ void Trie::insert_(const std::string& word) {
   int ind = 0;
   for (int i : adapter) {
     ind++;
+    maxCode = std::max(maxCode, i);
     int next = base.get(n) + i;
     if (check.getWithCheck(next) == -1) {
       setTail(n, next, word.substr(ind));
@@ -118,6 +121,7 @@ void Trie::insert_(const std::string& word) {
       int prefix_length = prefix.size();
 
       for (int j : StringAdapter(prefix, mapChar)) {
+        maxCode = std::max(maxCode, j);
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -127,6 +131,7 @@ void Trie::insert_(const std::string& word) {
       int char_val_tail = mapChar(tail_temp[prefix_length]);
       int char_val_new = mapChar(word[ind + prefix_length]);
 
+      maxCode = std::max(maxCode, std::max(char_val_tail, char_val_new));
       int q = checkAvailable(char_val_tail, char_val_new);
       base.set(next, q);
       if (tail_temp[prefix_length] == endChar) {
@@ -254,7 +259,7 @@ inline int Trie::checkAvailable(int i) {
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
+  for (int i = 1; i <= maxCode; i++) {
     if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
-- 
2.43.0


From 082f971c4332c6b88bd230892c5f7aff5118d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 19/57] fix: integer minus or over Fraction swapped the
 operands

---
 src/include/math_utils/Fraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..d726e17 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -56,7 +56,7 @@ class Fraction {
   }
 
   friend Fraction operator-(int value, Fraction const &self) {
-    return self - value;
+    return Fraction(value) - self;
   }
 
   void operator-=(Fraction const &other) {
@@ -87,7 +87,7 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-- 
2.43.0


From b3d8dd0ce5c49e07e553cd32f0727d37883f6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:27 +0000
Subject: [PATCH 20/57] fix: Fraction::operator/= divided the parts as integers

---
 src/include/math_utils/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index d726e17..05d5912 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -91,7 +91,7 @@ class Fraction {
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From b6ca9fa082d07e4d7ff446fa9118d6e251a24b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:27 +0000
Subject: [PATCH 21/57] fix: permutation(n, 0) was n instead of 1

---
 src/include/math_utils/math_functions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 918a454..0cce698 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -476,9 +476,8 @@ IntType factorial(IntType n) {
 template <typename IntType>
 IntType permutation(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for permutation.");
-  IntType result = n;
-  n--;
-  for (; r > 1; r--, n--) {
+  IntType result = 1;
+  for (; r > 0; r--, n--) {
     result *= n;
   }
   return result;
-- 
2.43.0


From 8fc97a7854fd523738e444b726173956329b0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:28 +0000
Subject: [PATCH 22/57] fix: binary powers overflowed on a square they do not
 use

---
 src/include/math_utils/math_functions.h | 4 ++--
 src/math_utils/binary_pow.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 0cce698..abbcd27 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -422,8 +422,8 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    if (exp != 0) base *= base;
   }
   return result;
 }
@@ -443,8 +443,8 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    if (exp != 0) base *= base;
   }
   return result;
 }
diff --git a/src/math_utils/binary_pow.cpp b/src/math_utils/binary_pow.cpp
index 3536118..53520d7 100644
--- a/src/math_utils/binary_pow.cpp
+++ b/src/math_utils/binary_pow.cpp
@@ -12,8 +12,8 @@ int64_t binaryPow(int64_t base, int exp) {
     if (exp & 1) {  // exp % 2 == 1
       result *= base;
     }
-    base *= base;
     exp >>= 1;  // exp /= 2
+    if (exp) base *= base;
   }
   return result;
 }
-- 
2.43.0


From d8a13199a266da057fc4c1724b99aabf37b7fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:28 +0000
Subject: [PATCH 23/57] fix: lcm overflowed although the result fits

---
 src/include/math_utils/math_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index abbcd27..6eede49 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -31,7 +31,7 @@ auto gcd(IntType1 a, IntType2 b) ->
 
 /**
   Least common multiple function.
-  The result is simply calculated by `a * b / gcd(a, b)`. Parameters `a` and `b`
+  The result is simply calculated by `a / gcd(a, b) * b`. Parameters `a` and `b`
   should be both integers, and the return type is the more precise type in `a`
   and `b`.
   @return If one of the parameter is 0, returns 0. Otherwise returns
@@ -42,7 +42,7 @@ auto gcd(IntType1 a, IntType2 b) ->
 template <typename IntType1, typename IntType2>
 auto lcm(IntType1 a, IntType2 b) ->
     typename std::common_type<IntType1, IntType2>::type {
-  return a * b / gcd(a, b);
+  return a / gcd(a, b) * b;
 }
 
 /**
-- 
2.43.0


From 5a1690d5d7f273e4e7b2bb9520b618a73bc03331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:33 +0000
Subject: [PATCH 24/57] fix: variance of int arrays overflowed and cancelled

---
 src/math_utils/statistics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math_utils/statistics.cpp b/src/math_utils/statistics.cpp
index cb50fad..51ffb88 100644
--- a/src/math_utils/statistics.cpp
+++ b/src/math_utils/statistics.cpp
@@ -15,11 +15,12 @@ double variance(const double* arr, int size) {
 
 double variance(const int* arr, int size) {
   double sum_square = 0.0;
+  double means = mean(arr, size);
   for (int i = 0; i < size; i++) {
-    sum_square += arr[i] * arr[i];
+    double mean_diff = arr[i] - means;
+    sum_square += mean_diff * mean_diff;
   }
-  double means = mean(arr, size);
-  return sum_square / size - means * means;
+  return sum_square / size;
 }
 
 double stddev(const double* arr, int size) {
-- 
2.43.0


From 9c25de8c1a3061499b66d8597ab8f73a760788ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 25/57] fix: Matrix zeroed element objects bytewise

---
 src/include/math_utils/Matrix.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..bbf9cd3 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -4,7 +4,6 @@
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
-#include <cstring>
 #include <fstream>
 #include <string>
 #include <utility>
@@ -20,8 +19,7 @@ class Matrix {
   Matrix(int n, int m) : row(n), col(m) {
     elem = new ValueType*[row];
     for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
-      std::memset(elem[i], 0, col * sizeof(ValueType));
+      elem[i] = new ValueType[col]();
     }
   }
 
-- 
2.43.0


From 18dc0cb64ea6c1de2d062afb2fda98f3f7ed7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 26/57] fix: Matrix products leaked, and *= freed its elements
 twice

---
 src/include/math_utils/Matrix.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index bbf9cd3..53bb83c 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -67,23 +67,22 @@ class Matrix {
 
   Matrix operator*(const Matrix& other) const {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    return *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    return ret;
   }
 
   Matrix& operator*=(const Matrix& other) {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
-    *this = *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    *this = ret;
     return *this;
   }
 
-- 
2.43.0


From 6701d8560068a0b485771719a69cb1c87c8901f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 27/57] fix: Matrix pow never squared and recursed forever on
 0; idMat was uncallable

---
 src/include/math_utils/Matrix.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 53bb83c..2c8dc91 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -130,19 +130,18 @@ class Matrix {
     }
   }
 
-  friend Matrix& idMat(int n) {
+  static Matrix& idMat(int n) {
     Matrix* ret = new Matrix(n);
     for (int i = 0; i < n; i++) (*ret)[i][i] = 1;
     return *ret;
   }
 
   friend Matrix& pow(const Matrix& src, unsigned int n) {
-    if (n == 1) {
-      Matrix* ret = new Matrix(src);
-      return *ret;
-    }
+    assert(src.row == src.col);
+    if (n == 0) return idMat(src.row);
 
     Matrix& ret = pow(src, n >> 1);
+    ret *= ret;
     if (n & 1) ret *= src;
     return ret;
   }
-- 
2.43.0


From c33ad91a49743f9be8c21c4b73d7d2a25e7e27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 28/57] fix: Matrix::clear left freed rows behind

---
 src/include/math_utils/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 2c8dc91..6bb16e9 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -119,6 +119,8 @@ class Matrix {
   void clear() {
     for (int i = 0; i < row; i++) delete[] elem[i];
     delete[] elem;
+    elem = nullptr;
+    row = col = 0;
   }
 
   void deepCopy(const Matrix& src) {
-- 
2.43.0


From ccea49016ff2680d2169d1df623bae4b5683b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 29/57] fix: BigNum copies kept stale digits above their length

---
 src/include/math_utils/BigNum.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..67ae2a0 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -40,21 +40,12 @@ class BigNum {
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
   }
 
-  BigNum(const BigNum& src) {
-    sign = src.sign;
-    len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
-  }
+  BigNum(const BigNum& src) = default;
 
   ~BigNum() {}
 
   // allocation
-  BigNum& operator=(const BigNum& src) {
-    sign = src.sign;
-    len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
-    return *this;
-  }
+  BigNum& operator=(const BigNum& src) = default;
 
   // index
   int& operator[](const int index) { return elem[index]; }
-- 
2.43.0


From d1bc256de437c04f7d953cb8ba7f83e4bf5df397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 30/57] fix: BigNum kept leading zeros, a signed zero and
 choked on a plus sign

---
 src/include/math_utils/BigNum.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 67ae2a0..9b8fa1a 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -29,15 +29,18 @@ class BigNum {
   }
 
   BigNum(const std::string& s) {
-    sign = s[0] == '-' ? -1 : 1;
+    // the first digit that counts, skipping the sign and leading zeros
+    int first = s[0] == '-' || s[0] == '+';
+    while (first < (int)s.size() && s[first] == '0') first++;
+    int digits = s.size() - first;
+    sign = s[0] == '-' && digits > 0 ? -1 : 1;
     len = 0;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int i = s.size() - 1; i >= BigNum::order - 1 + (s[0] == '-');
+    for (int i = s.size() - 1; i >= BigNum::order - 1 + first;
          i -= BigNum::order)
       elem[len++] = std::stoi(s.substr(i - BigNum::order + 1, BigNum::order));
-    if ((s.size() - (s[0] == '-')) % BigNum::order)
-      elem[len++] = std::stoi(
-          s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    if (digits % BigNum::order)
+      elem[len++] = std::stoi(s.substr(first, digits % BigNum::order));
   }
 
   BigNum(const BigNum& src) = default;
-- 
2.43.0


From 95efb654b176220013299704ab3460b99db23d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 31/57] fix: BigNum of the most negative integer overflowed

---
 src/include/math_utils/BigNum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9b8fa1a..7c8fac8 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -24,7 +24,8 @@ class BigNum {
     len = 0;
     sign = x < 0 ? -1 : 1;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int64_t i = std::abs(x); i; i /= BigNum::base)
+    uint64_t magnitude = x < 0 ? -(uint64_t)x : (uint64_t)x;
+    for (uint64_t i = magnitude; i; i /= BigNum::base)
       elem[len++] = i % BigNum::base;
   }
 
-- 
2.43.0


From ed1c5906c038fe6f64588d2a77489dca52cc5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 32/57] fix: BigNum zero printed as nothing

---
 src/include/math_utils/BigNum.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 7c8fac8..f0ba5e9 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -298,6 +298,7 @@ class BigNum {
   friend BigNum& abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
+    if (len == 0) return "0";
     std::string s;
     if (sign < 0) s += "-";
     for (int i = len - 1; i >= 0; i--) s += std::to_string(elem[i]);
-- 
2.43.0


From 37e0c6caa9bdcc849abac80a3355071c8b9f28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 33/57] fix: BigNum compared magnitudes with the sign applied

---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index f0ba5e9..b1ebfd9 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -233,9 +233,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int sign = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? sign : -sign;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? sign : -sign;
     return 0;
   }
 
-- 
2.43.0


From 53ce0b92e29c0a94875807c228f75bd00a054591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 34/57] fix: BigNum results of full capacity read past the
 digits

---
 src/include/math_utils/BigNum.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index b1ebfd9..66119a1 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -249,7 +249,7 @@ class BigNum {
         ret[i] -= BigNum::base;
         ret[i + 1]++;
       }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
@@ -282,11 +282,12 @@ class BigNum {
       for (int j = 0; j < b.len; j++) {
         ret[i + j] += a[i] * b[j];
       }
-    for (int i = 0; i < ret.len; i++) {
-      ret[i + 1] += ret[i] / BigNum::base;
-      ret[i] %= BigNum::base;
-    }
-    if (ret[ret.len]) ret.len++;
+    for (int i = 0; i < ret.len; i++)
+      if (ret[i] >= BigNum::base) {
+        ret[i + 1] += ret[i] / BigNum::base;
+        ret[i] %= BigNum::base;
+      }
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
-- 
2.43.0


From 47c3a8f27f62ec49322e42fe6aa922c955f0eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 35/57] fix: BigNum products took the sign of the first factor

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 66119a1..db8cea7 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -288,7 +288,7 @@ class BigNum {
         ret[i] %= BigNum::base;
       }
     if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
-    ret.sign = a.sign;
+    ret.sign = a.sign * b.sign;
     return ret;
   }
 
-- 
2.43.0


From 6eacb55500338bc13f9484bcf3f6eb1717bac154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 36/57] fix: BigNum *=, abs did not compile and postfix
 operators dangled

---
 src/include/math_utils/BigNum.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index db8cea7..06b92a7 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -191,7 +191,7 @@ class BigNum {
     return ret;
   }
 
-  BigNum& operator*=(const BigNum& other) const {
+  BigNum& operator*=(const BigNum& other) {
     *this = mul(*this, other);
     return *this;
   }
@@ -214,7 +214,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator++(int) {  // postfix ++
+  BigNum operator++(int) {  // postfix ++
     BigNum ret = *this;
     ++(*this);
     return ret;
@@ -225,7 +225,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator--(int) {
+  BigNum operator--(int) {
     BigNum ret = *this;
     --(*this);
     return ret;
@@ -292,12 +292,13 @@ class BigNum {
     return ret;
   }
 
-  BigNum& abs() const {
-    sign = 1;
-    return *this;
+  BigNum abs() const {
+    BigNum ret = *this;
+    ret.sign = 1;
+    return ret;
   }
 
-  friend BigNum& abs(const BigNum& a) { return a.abs(); }
+  friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
     if (len == 0) return "0";
-- 
2.43.0


From 1ad3e10be0fb3cc1ad1d7a47acc475daf3dbfecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 37/57] fix: negated BigNum zero differed from zero

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 06b92a7..50eebe3 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -205,7 +205,7 @@ class BigNum {
   // other
   BigNum operator-() const {
     BigNum ret = *this;
-    ret.sign = -ret.sign;
+    if (ret.len > 0) ret.sign = -ret.sign;
     return ret;
   }
 
-- 
2.43.0


From 340e0c7dd7f4413dc7d41293d63e4bebaebdcdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 38/57] fix: Random::nextInt overflowed on ranges wider than
 int

---
 src/random/Random.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..3affda0 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -11,12 +11,13 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  std::uint64_t range = std::int64_t(max) - min;
+  return (int)(std::int64_t(randomGenerator() % range) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  std::uint64_t range = std::uint64_t(intMax) + 1 - intMin;
+  return (int)(std::int64_t(randomGenerator() % range) + intMin);
 }
 
 int Random::nextInt(int max) {
-- 
2.43.0


From c455ebe1d019d486a6297ac0e373fefbe3f294db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 39/57] fix: Random::nextDouble could return max, and NaN on
 the widest range

---
 src/include/random/Random.h |  1 -
 src/random/Random.cpp       | 11 ++++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/random/Random.h b/src/include/random/Random.h
index 53bf8a5..501ff5e 100644
--- a/src/include/random/Random.h
+++ b/src/include/random/Random.h
@@ -85,7 +85,6 @@ class Random {
   std::mt19937_64 randomGenerator;
   static const auto intMax = std::numeric_limits<int>::max();
   static const auto intMin = std::numeric_limits<int>::min();
-  static const auto int64Max = std::numeric_limits<std::uint64_t>::max();
 };
 }  // namespace cuhksz
 
diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 3affda0..bc745fb 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,8 @@
 #include "random/Random.h"
 
+#include <algorithm>
+#include <cmath>
+
 #include <cstdlib>
 #include <ctime>
 
@@ -27,7 +30,13 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  // 53 random bits, uniform on [0, 1)
+  double rnd = (double)(randomGenerator() >> 11) / (1ULL << 53);
+  double range = max - min;
+  double result = std::isinf(range) ? min * (1 - rnd) + max * rnd
+                                    : rnd * range + min;
+  // rounding may reach `max`, which is excluded
+  return std::min(result, std::nextafter(max, min));
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From 3d294efe0471ea8f5776c2bd6fb08953b5369ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 40/57] fix: BinomialDistribution overflowed its coefficients
 for n above 33

---
 src/random/BinomialDistribution.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index db9727a..f0fe6a9 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -15,10 +15,13 @@ void BinomialDistribution::init(int n, double p) {
   // generate probability lookup table
   lookup_table.reset(new double[n_ + 1]);
   double threshold = 0;
-  double p_complement = 1 - p_;
   for (int i = 0; i < n_; i++) {
-    threshold +=
-        binomial(n_, i) * std::pow(p_, i) * std::pow(p_complement, n_ - i);
+    // in logarithms, as the coefficient overflows and the powers underflow
+    double log_probability =
+        std::lgamma(n_ + 1.0) - std::lgamma(i + 1.0) - std::lgamma(n_ - i + 1.0);
+    if (i > 0) log_probability += i * std::log(p_);
+    log_probability += (n_ - i) * std::log1p(-p_);
+    threshold += std::exp(log_probability);
     lookup_table[i] = threshold;
   }
   lookup_table[n_] = 1;
-- 
2.43.0


From f426e926342e0eab739d80529922a550b4fec69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 41/57] fix: ExponentialDistribution accepted a zero rate

---
 src/random/GammaDistribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/GammaDistribution.cpp b/src/random/GammaDistribution.cpp
index cb91dd2..989a0af 100644
--- a/src/random/GammaDistribution.cpp
+++ b/src/random/GammaDistribution.cpp
@@ -9,7 +9,7 @@
 
 namespace cuhksz {
 void GammaDistribution::init(double k, double theta) {
-  if (k <= 0 || theta <= 0) {
+  if (k <= 0 || theta <= 0 || std::isinf(theta)) {
     error("Invalid parameter(s) for GammaDistribution");
   }
   k_ = k;
-- 
2.43.0


From 37cc1a291c983daf4cd9106f0f91cf92cc9c9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 42/57] fix: StudentTDistribution returned infinities when chi2
 underflowed

---
 src/random/StudentTDistribution.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/random/StudentTDistribution.cpp b/src/random/StudentTDistribution.cpp
index 74a9745..b217aa6 100644
--- a/src/random/StudentTDistribution.cpp
+++ b/src/random/StudentTDistribution.cpp
@@ -17,6 +17,10 @@ void StudentTDistribution::init(double r) {
 double StudentTDistribution::next() {
   NormalDistribution normal(*randomGenerator);
   ChiSquaredDistribution chi2(*randomGenerator, r_);
-  return normal.next() * std::sqrt(r_ / chi2.next());
+  double result;
+  do {
+    result = normal.next() * std::sqrt(r_ / chi2.next());
+  } while (!std::isfinite(result));  // chi2 may underflow to 0
+  return result;
 }
 }  // namespace cuhksz
-- 
2.43.0


From a57fbc636dbcee07ddbf26c795f50420a7547d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 43/57] fix: PoissonDistribution never returned for large
 lambda or rare numbers

---
 src/include/random/PoissonDistribution.h |  2 ++
 src/random/PoissonDistribution.cpp       | 29 ++++++++++++++++--------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/include/random/PoissonDistribution.h b/src/include/random/PoissonDistribution.h
index 26a6e82..dfa28e5 100644
--- a/src/include/random/PoissonDistribution.h
+++ b/src/include/random/PoissonDistribution.h
@@ -52,6 +52,8 @@ class PoissonDistribution : public Distribution<int> {
 
  private:
   double lambda_;
+  int chunks;
+  double chunkLambda;
   double expLambda;
 
   void init(double lambda);
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index a1c518a..fdf370a 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -9,19 +9,28 @@ void PoissonDistribution::init(double lambda) {
     error("Invalid parameter for PoissonDistribution");
   }
   lambda_ = lambda;
-  expLambda = std::exp(-lambda_);
+  // A Poisson variable is a sum of independent ones with smaller lambda: split
+  // large lambda so that exp(-lambda) does not underflow
+  chunks = (int)std::ceil(lambda_ / 500);
+  chunkLambda = lambda_ / chunks;
+  expLambda = std::exp(-chunkLambda);
 }
 
 int PoissonDistribution::next() {
-  double rnd = randomGenerator->nextDouble();
-  int result = 0;
-  double probability = expLambda;
-  double threshold = expLambda;
-  while (rnd >= threshold) {
-    result += 1;
-    probability *= lambda_ / result;
-    threshold += probability;
+  int sum = 0;
+  for (int i = 0; i < chunks; i++) {
+    double rnd = randomGenerator->nextDouble();
+    int result = 0;
+    double probability = expLambda;
+    double threshold = expLambda;
+    // stop also when the sum has converged, possibly below `rnd`
+    while (rnd >= threshold && threshold + probability > threshold) {
+      result += 1;
+      probability *= chunkLambda / result;
+      threshold += probability;
+    }
+    sum += result;
   }
-  return result;
+  return sum;
 }
 }  // namespace cuhksz
-- 
2.43.0


From 832c8e43056a4ed8335613b883dd25a9ef0b79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 44/57] fix: NegativeBinomialDistribution never returned for
 large r or rare numbers

---
 .../random/NegativeBinomialDistribution.h     |  1 +
 src/random/NegativeBinomialDistribution.cpp   | 32 ++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/include/random/NegativeBinomialDistribution.h b/src/include/random/NegativeBinomialDistribution.h
index c3927f8..2e6063e 100644
--- a/src/include/random/NegativeBinomialDistribution.h
+++ b/src/include/random/NegativeBinomialDistribution.h
@@ -68,6 +68,7 @@ class NegativeBinomialDistribution : public Distribution<int> {
   int r_;
   double p_;
 
+  int chunkR;
   double pPowr;
 
   void init(int r, double p);
diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 6adf7e5..02aab2f 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -1,5 +1,6 @@
 #include "random/NegativeBinomialDistribution.h"
 
+#include <algorithm>
 #include <cmath>
 #include "math_utils/math_functions.h"
 #include "utils/error.h"
@@ -11,21 +12,30 @@ void NegativeBinomialDistribution::init(int r, double p) {
   }
   r_ = r;
   p_ = p;
-  pPowr = genericBinaryPow(p, r);
+  // A negative binomial variable is a sum of independent ones with smaller r:
+  // split large r so that p^r does not underflow
+  chunkR = p < 1 ? (int)std::max(1.0, std::min<double>(r, -500 / std::log(p)))
+                 : r;
+  pPowr = genericBinaryPow(p, chunkR);
 }
 
 int NegativeBinomialDistribution::next() {
-  double rnd = randomGenerator->nextDouble();
-
-  int result = 0;
+  int sum = 0;
   double p_complement = 1 - p_;
-  double probability = pPowr;
-  double threshold = pPowr;
-  while (rnd >= threshold) {
-    result += 1;
-    probability *= p_complement * (r_ + result - 1) / result;
-    threshold += probability;
+  for (int rest = r_; rest > 0; rest -= chunkR) {
+    double rnd = randomGenerator->nextDouble();
+    int r = std::min(rest, chunkR);
+    int result = 0;
+    double probability = r == chunkR ? pPowr : genericBinaryPow(p_, r);
+    double threshold = probability;
+    // stop also when the sum has converged, possibly below `rnd`
+    while (rnd >= threshold && threshold + probability > threshold) {
+      result += 1;
+      probability *= p_complement * (r + result - 1) / result;
+      threshold += probability;
+    }
+    sum += result;
   }
-  return result;
+  return sum;
 }
 }  // namespace cuhksz
-- 
2.43.0


From af62f070c92e3afbe0f1c6fc387e62880db6d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 45/57] fix: JSON parser read past an unterminated string

---
 src/json/Json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..5e490c5 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -89,6 +89,9 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
   JSONObject String;
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+    if (offset >= str.length()) {
+      error("String: Expected closing quote, nothing remaining.");
+    }
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
@@ -131,6 +134,9 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
           offset += 4;
         } break;
         default:
+          if (offset >= str.length()) {
+            error("String: Expected an escape, nothing remaining.");
+          }
           val += '\\';
           break;
       }
-- 
2.43.0


From 7c506b0e99dd75830bcd014f8f8329b1708b6bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 46/57] fix: JSON numbers lost exponent digits, ran past the
 text and accepted fragments

---
 src/json/Json.cpp | 64 +++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 5e490c5..0514fe0 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -1,6 +1,5 @@
 #include "json/Json.h"
 
-#include <cmath>
 #include <deque>
 #include <map>
 #include <string>
@@ -151,52 +150,41 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
 
 JSONObject parse_number(const std::string &str, size_t &offset) {
   JSONObject Number;
-  std::string val, exp_str;
-  char c;
+  size_t start = offset;
   bool isDouble = false;
-  int exp = 0;
-  while (true) {
-    c = str[offset++];
-    if ((c == '-') || (c >= '0' && c <= '9')) {
-      val += c;
-    } else if (c == '.') {
-      val += c;
-      isDouble = true;
-    } else {
-      break;
-    }
+  auto skipDigits = [&]() {
+    size_t first = offset;
+    while (str[offset] >= '0' && str[offset] <= '9') ++offset;
+    return offset > first;
+  };
+
+  if (str[offset] == '-') ++offset;
+  bool valid = skipDigits();
+  if (valid && str[offset] == '.') {
+    isDouble = true;
+    ++offset;
+    valid = skipDigits();
   }
-  if (c == 'E' || c == 'e') {
-    if (offset == str.length()) {
+  if (valid && (str[offset] == 'E' || str[offset] == 'e')) {
+    isDouble = true;
+    ++offset;
+    if (str[offset] == '-' || str[offset] == '+') ++offset;
+    if (offset >= str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
-    if (c == '-') {
-      exp_str += '-';
-    }
-    while (true) {
-      c = str[offset];
-
-      if (c >= '0' && c <= '9') {
-        exp_str += c;
-      } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
-        error("Number: Expected a number for exponent, found '" +
-              std::string(1, c) + "'");
-      } else {
-        break;
-      }
-      offset++;
+    if (!skipDigits()) {
+      error("Number: Expected a number for exponent, found '" +
+            std::string(1, str[offset]) + "'");
     }
-    exp = cuhksz::stringCast<double>(exp_str);
-  } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
+  }
+  char c = str[offset];
+  if (!valid || (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0)) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
   }
-  if (c != 0) --offset;
 
+  std::string val = str.substr(start, offset - start);
   if (isDouble)
-    Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
-  else if (!exp_str.empty())
-    Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
+    Number = (double)cuhksz::stringCast<double>(val);
   else
     Number = (int)cuhksz::stringCast<int>(val);
   return Number;
-- 
2.43.0


From 1136b795a3001555d9217e0003893d9dfc4292a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 47/57] fix: JSON parser accepted keys that are not strings

---
 src/json/Json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 0514fe0..d69d29d 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -26,6 +26,11 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
+    skip_whitespaces(str, offset);
+    if (str[offset] != '\"') {
+      error("Object: Expected a string as key, found '" +
+            std::string(1, str[offset]) + "'");
+    }
     JSONObject Key = parse_next(str, offset);
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
-- 
2.43.0


From 3cca4f8833d59d1f2cc654a5c47655b163f1532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 48/57] fix: JSON keys were escaped when loaded instead of when
 dumped

---
 src/json/Json.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index d69d29d..7f5cc39 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -10,6 +10,7 @@
 namespace cuhksz {
 namespace {
 JSONObject parse_next(const std::string &str, size_t &offset);
+std::string parse_text(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
@@ -31,7 +32,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
       error("Object: Expected a string as key, found '" +
             std::string(1, str[offset]) + "'");
     }
-    JSONObject Key = parse_next(str, offset);
+    std::string Key = parse_text(str, offset);
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -40,7 +41,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[Key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -89,8 +90,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_text(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
     if (offset >= str.length()) {
@@ -149,8 +149,11 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     }
   }
   ++offset;
-  String = val;
-  return String;
+  return val;
+}
+
+JSONObject parse_string(const std::string &str, size_t &offset) {
+  return parse_text(str, offset);
 }
 
 JSONObject parse_number(const std::string &str, size_t &offset) {
@@ -245,7 +248,8 @@ JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -438,7 +442,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) +
+              "\" : " + p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 92beba0fa0babb6e2464306ad421ee9c252e2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 49/57] fix: assigning a JSON value from itself or a part of it
 used freed memory

---
 src/json/Json.cpp | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 7f5cc39..12c9aa0 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -3,6 +3,7 @@
 #include <deque>
 #include <map>
 #include <string>
+#include <utility>
 
 #include "string_utils/StringCast.h"
 #include "utils/error.h"
@@ -326,32 +327,18 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
-  Data = src.Data;
-  objType = src.objType;
-  src.Data.Map = nullptr;
-  src.objType = Type::Null;
+  // `src` may be this object or a part of it
+  JSONObject old(std::move(src));
+  std::swap(Data, old.Data);
+  std::swap(objType, old.objType);
   return *this;
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
+  // `src` may be this object or a part of it
+  JSONObject old(src);
+  std::swap(Data, old.Data);
+  std::swap(objType, old.objType);
   return *this;
 }
 
-- 
2.43.0


From ac1eb71e4f4248e8054feecd2c9ad01e53bc0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 50/57] fix: read-only JSON access created keys or read the
 wrong kind of data

---
 src/json/Json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 12c9aa0..9aaba8d 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -362,12 +362,16 @@ JSONObject &JSONObject::operator[](int index) {
 JSONObject &JSONObject::at(const std::string &key) { return operator[](key); }
 
 const JSONObject &JSONObject::at(const std::string &key) const {
-  return Data.Map->operator[](key);
+  if (!hasKey(key)) error("Object: no such key '" + key + "'");
+  return Data.Map->at(key);
 }
 
 JSONObject &JSONObject::at(unsigned index) { return operator[](index); }
 
 const JSONObject &JSONObject::at(unsigned index) const {
+  if (objType != Type::Array || index >= Data.List->size()) {
+    error("Array: no such index " + std::to_string(index));
+  }
   return Data.List->at(index);
 }
 
-- 
2.43.0


From 84167e6b14419a4045c6490566bde4d8c0cfd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 51/57] fix: negative JSON array index read out of bounds

---
 src/json/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 9aaba8d..e812abe 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -354,6 +354,7 @@ JSONObject &JSONObject::operator[](const std::string &key) {
 }
 
 JSONObject &JSONObject::operator[](int index) {
+  if (index < 0) error("Array: index cannot be negative");
   setType(Type::Array);
   if (index >= (int)Data.List->size()) Data.List->resize((size_t)(index + 1));
   return Data.List->operator[]((size_t)index);
-- 
2.43.0


From 2dc41059d0eef2eb08085cd8902586ea941fe33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 52/57] fix: const JSONIterator recursed forever

---
 src/include/json/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 64967c3..808686a 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -28,8 +28,12 @@ class JSONIterator {
   typename Container::iterator end() {
     return object ? object->end() : typename Container::iterator();
   }
-  typename Container::const_iterator begin() const { return begin(); }
-  typename Container::const_iterator end() const { return end(); }
+  typename Container::const_iterator begin() const {
+    return object ? object->begin() : typename Container::iterator();
+  }
+  typename Container::const_iterator end() const {
+    return object ? object->end() : typename Container::iterator();
+  }
 };
 
 /**
-- 
2.43.0


From 339d860de75b1d9be82d3fb6c4d0a70106aebab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 53/57] fix: JSON initializer list without a last value read
 past its end

---
 src/json/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index e812abe..3a0b297 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -247,6 +247,7 @@ JSONObject parse_next(const std::string &str, size_t &offset) {
 JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
+  if (list.size() % 2 != 0) error("Object: Expected a value for each key");
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
     operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
-- 
2.43.0


From d4049616e7bbcc826c766401772fd975dafa007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:39 +0000
Subject: [PATCH 54/57] fix: assigning nullptr to a JSON value built a string
 from a null pointer

---
 src/include/json/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 808686a..3ce42d0 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -249,8 +249,10 @@ class JSONObject {
    * @param value Value of the string
    * @return *this
    */
-  template <typename T, typename std::enable_if<std::is_convertible<
-                            T, std::string>::value>::type * = nullptr>
+  template <typename T, typename std::enable_if<
+                            std::is_convertible<T, std::string>::value &&
+                            !std::is_same<T, std::nullptr_t>::value>::type * =
+                            nullptr>
   JSONObject operator=(T value) {
     setType(Type::String);
     *Data.String = std::string(value);
-- 
2.43.0


From 1e8f5b9503032c0da8a0bc0b61fffec946bd3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:40 +0000
Subject: [PATCH 55/57] fix: binomial did not compile for short types and
 overflowed its loop counter for n beyond int

---
 src/include/math_utils/math_functions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 6eede49..75ff54a 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -497,11 +497,11 @@ template <typename IntType>
 IntType binomial(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for binomial.");
   if (r == 0) return 1;
-  if (r > n / 2) return binomial(n, n - r);
+  if (r > n / 2) return binomial<IntType>(n, n - r);
   std::unique_ptr<IntType[]> combination(new IntType[r]);
-  for (int i = 0; i < r; i++) combination[i] = 1;
-  for (int i = 0; i < n - r; i++) {
-    for (int j = 0; j < r; j++) {
+  for (IntType i = 0; i < r; i++) combination[i] = 1;
+  for (IntType i = 0; i < n - r; i++) {
+    for (IntType j = 0; j < r; j++) {
       if (j == 0) {
         combination[j] += 1;
       } else {
-- 
2.43.0


From 1357b84d583b4fb378b31c31fa03815b6f9fb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:54 +0000
Subject: [PATCH 56/57] fix: scaling a point by one of its own coordinates used
 the coordinate after it had changed

---
 src/include/geometry/Point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index 38bc76d..4cc8e11 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -84,7 +84,7 @@ class Point {
     return self * constant;
   }
 
-  Point& operator*=(double const& constant) {
+  Point& operator*=(double const constant) {
     for (int i = 0; i < N; i++) elem[i] *= constant;
     return *this;
   }
@@ -95,7 +95,7 @@ class Point {
     return ret;
   }
 
-  Point& operator/=(double const& constant) {
+  Point& operator/=(double const constant) {
     for (int i = 0; i < N; i++) elem[i] /= constant;
     return *this;
   }
-- 
2.43.0


From 8410807b37410f268f6a82fe5b8b8d64686e110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:55 +0000
Subject: [PATCH 57/57] fix: distance to a segment that is a single point was
 not a number

---
 src/geometry/Line.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geometry/Line.cpp b/src/geometry/Line.cpp
index 9611d3d..6426ad6 100644
--- a/src/geometry/Line.cpp
+++ b/src/geometry/Line.cpp
@@ -43,6 +43,7 @@ double disToLine(Point<2> P, Line l) {
 
 double disToSegment(Point<2> P, Line l) {
   GVector<2> v1 = l.v, v2 = P - l.A, v3 = P - l.A - l.v;
+  if (v1.len() == 0) return v2.len();  // the segment is a single point
   if (dcmp(v1 * v2) < 0)
     return v2.len();
   else if (dcmp(v1 * v3) > 0)
-- 
2.43.0

