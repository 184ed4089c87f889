From b10da93de6e5db929e2da4f14df3b3d09470231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:34 +0000
Subject: [PATCH 01/30] fix: serial quasi-reduction of binary diagrams deletes
 nodes equivalent to the 0-terminal

The node table kept such nodes unreachable, and a root of that kind was not
replaced by the 0-terminal, unlike in the n-ary and multi-processor reductions.
---
 include/tdzdd/dd/DdReducer.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 108d694..20b9bd2 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -218,6 +218,14 @@ public:
     }
 
 private:
+    /**
+     * Checks if a binary node is deleted by the node deletion rules.
+     * The node equivalent to the 0-terminal is always deleted.
+     */
+    static bool isRedundant(NodeId f0, NodeId f1) {
+        return (BDD && f1 == f0) || (ZDD && f1 == 0) || (f0 == 0 && f1 == 0);
+    }
+
     /**
      * Reduces one level using Algorithm-R.
      * @param i level.
@@ -239,7 +247,7 @@ private:
             if (f0.row() != 0) f0 = newIdTable[f0.row()][f0.col()];
             if (f1.row() != 0) f1 = newIdTable[f1.row()][f1.col()];
 
-            if ((BDD && f1 == f0) || (ZDD && f1 == 0)) {
+            if (isRedundant(f0, f1)) {
                 newId[j] = f0;
             }
             else {
@@ -315,7 +323,7 @@ private:
                 assert(newId[j] == 0);
                 newId[j] = newId[f0.col()];
             }
-            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)) { // forwarded
+            else if (isRedundant(f0, f1)) { // forwarded
                 assert(newId[j].row() < i);
             }
             else {
-- 
2.43.0


From 61f608406b284caa5485decbd22d50504a37e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:59 +0000
Subject: [PATCH 02/30] fix: diagram comparison merges identical nodes on both
 sides

Two diagrams with duplicate nodes below other nodes compared unequal even when
they were built identically, because only one side was made canonical.
---
 include/tdzdd/DdStructure.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..9ec1941 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -313,8 +313,14 @@ public:
         if (size() > o.size()) return o.operator==(*this);
 
         MyHashMap<InitializedNode<ARITY>,size_t> uniq;
+        DataTable<NodeId> canon(n + 1); // merges identical nodes of this DD
         DataTable<NodeId> equiv(n + 1);
         {
+            size_t m = (*diagram)[0].size();
+            canon[0].resize(m);
+            for (size_t j = 0; j < m; ++j) {
+                canon[0][j] = j;
+            }
             size_t om = (*o.diagram)[0].size();
             equiv[0].resize(om);
             for (size_t j = 0; j < om; ++j) {
@@ -324,10 +330,20 @@ public:
 
         for (int i = 1; i <= n; ++i) {
             size_t m = (*diagram)[i].size();
+            canon[i].resize(m);
             uniq.initialize(m * 2);
 
             for (size_t j = 0; j < m; ++j) {
-                uniq[(*diagram)[i][j]] = j;
+                InitializedNode<ARITY> node;
+
+                for (int b = 0; b < ARITY; ++b) {
+                    NodeId f = (*diagram)[i][j].branch[b];
+                    node.branch[b] = canon[f.row()][f.col()];
+                }
+
+                size_t* p = uniq.getValue(node);
+                if (p == 0) uniq[node] = j;
+                canon[i][j] = NodeId(i, (p != 0) ? *p : j);
             }
 
             size_t om = (*o.diagram)[i].size();
@@ -346,7 +362,8 @@ public:
             }
         }
 
-        return root_ == equiv[o.root_.row()][o.root_.col()];
+        return canon[root_.row()][root_.col()]
+                == equiv[o.root_.row()][o.root_.col()];
     }
 
     /**
-- 
2.43.0


From 0a23fac994ef9a94d0f5ea5cb5913143b3919752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:28 +0000
Subject: [PATCH 03/30] fix: BDD cardinality reserves work space for all
 variables, not only those below the root

---
 include/tdzdd/eval/Cardinality.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..ec43a2e 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -107,7 +107,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int n = (BDD && numVars > topLevel) ? numVars : topLevel;
+        int max = ceil(double(n) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From 538f60f82752ed776481ce516c8e85ec292cf71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:58 +0000
Subject: [PATCH 04/30] fix: BigNumber::divide divides by its argument

---
 include/tdzdd/util/BigNumber.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..a38be59 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -177,10 +177,10 @@ public:
             --p;
             uint64_t q = cont ? MSB : 0;
             r = (r << 31) | ((*p & ~MSB) >> 32);
-            lldiv_t d = lldiv(r, 10LL);
+            lldiv_t d = lldiv(r, n);
             q += d.quot << 32;
             r = (d.rem << 32) | (*p & ((uint64_t(1) << 32) - 1));
-            d = lldiv(r, 10LL);
+            d = lldiv(r, n);
             q += d.quot;
             r = d.rem;
             *p = q;
-- 
2.43.0


From 0469b3f248bd61693fb35005cacb29f7fe7a5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:57 +0000
Subject: [PATCH 05/30] fix: self-assignment of a diagram does not free its
 node table

---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..a1ff7da 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref(); // before deref() for self-assignment
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From 17073c2fbea2977bcba8ff730761b04b9e672d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 06/30] fix: path counting reserves enough words for long skips
 and non-binary specs

---
 include/tdzdd/dd/PathCounter.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 2962336..482ef2f 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -76,6 +76,15 @@ class PathCounter {
         return (n + sizeof(Word) - 1) / sizeof(Word);
     }
 
+    /* Words by which a path count may grow on the way down the levels. */
+    static int growthWords(int levels) {
+        int bits = 0;
+        while ((1 << bits) < Spec::ARITY) {
+            ++bits;
+        }
+        return levels * bits / 63 + 1;
+    }
+
     static void* state(Word* p) {
         return p;
     }
@@ -112,7 +121,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(growthWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -168,7 +177,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* qq = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + growthWords(i - ii));
                         spec.get_copy(state(qq), state(pp));
                         spec.destruct(state(pp));
 
@@ -231,7 +240,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(growthWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -298,7 +307,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* ppp = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + growthWords(i - ii));
                         spec.get_copy(state(ppp), state(pp));
                         spec.destruct(state(pp));
                         number(ppp).store(number(p));
-- 
2.43.0


From d234788990ad8822924f70449c7a9c5570e78be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 07/30] fix: path counting destroys the initial state of a
 terminal-only spec

---
 include/tdzdd/dd/PathCounter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 482ef2f..5e1bfe4 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -116,6 +116,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -235,6 +236,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -340,6 +342,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? 0 : 1;
-- 
2.43.0


From f256a70c6a0875d5f8d8f533573f1d25973e5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 08/30] fix: self-assignment of MyVector keeps the elements

---
 include/tdzdd/util/MyVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..7377c10 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From e6890bd3b2e85a3fb8b786935b10ae6333eaf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 09/30] fix: MyVector::erase removes exactly the given elements

---
 include/tdzdd/util/MyVector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 7377c10..4afdc5c 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -276,7 +276,7 @@ public:
         Size newSize = size_ - (last - first);
 
         for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+            array_[i] = array_[i + (last - first)];
         }
 
         while (newSize < size_) {
@@ -487,8 +487,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From 24f350fad1c7ae06dc99df5c0c19eadf0490723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 10/30] fix: MyVector::push_back accepts an element of the
 array itself

---
 include/tdzdd/util/MyVector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 4afdc5c..fc29a8b 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -309,8 +309,14 @@ public:
      * @param val value of the new element.
      */
     void push_back(T const& val) {
-        ensureCapacity(size_ + 1);
-        new (array_ + size_) T(val);
+        if (capacity_ <= size_) { // val may be an element of this array
+            T const tmp(val);
+            ensureCapacity(size_ + 1);
+            new (array_ + size_) T(tmp);
+        }
+        else {
+            new (array_ + size_) T(val);
+        }
         ++size_;
     }
 
-- 
2.43.0


From b97f45515bea369db4160b350aac1925509d1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 11/30] fix: MyVector made from an empty std::vector allocates
 nothing

---
 include/tdzdd/util/MyVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index fc29a8b..45e14c5 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -109,7 +109,7 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()), array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From 3593773ac90f91da4290cd20c5952344be7f1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 12/30] fix: self-assignment of MyHashTable keeps the elements

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..84a54a0 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
-- 
2.43.0


From b21d903f3c2322e96ce2c48162570c57803e640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 13/30] fix: growing an array of memory pools constructs the
 moved pools

---
 include/tdzdd/util/MemoryPool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..d59d049 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -81,6 +81,7 @@ public:
         blockList = o.blockList;
         nextUnit = o.nextUnit;
         o.blockList = 0;
+        o.nextUnit = BLOCK_UNITS;
     }
 
     virtual ~MemoryPool() {
@@ -232,7 +233,10 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
+    if (&from == &to) return;
+    new (&to) MemoryPool();
     to.moveFrom(from);
+    from.~MemoryPool();
 }
 
 } // namespace tdzdd
-- 
2.43.0


From 3548b290529028e3ad69ee7f599c939b7408026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:32 +0000
Subject: [PATCH 14/30] fix: MemoryPool::reuse never keeps a block of
 nonstandard size

---
 include/tdzdd/util/MemoryPool.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index d59d049..4bba0b0 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -103,9 +103,9 @@ public:
 
     void reuse() {
         if (blockList == 0) return;
-        while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+        while (blockList->next != 0) { // only the first block is known to have the standard size
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
@@ -131,16 +131,15 @@ public:
         size_t const elementUnits = (n + UNIT_SIZE - 1) / UNIT_SIZE;
 
         if (elementUnits > MAX_ELEMENT_UNIS) {
-            size_t m = elementUnits + 1;
-            Unit* block = new Unit[m];
             if (blockList == 0) {
-                block->next = 0;
-                blockList = block;
-            }
-            else {
-                block->next = blockList->next;
-                blockList->next = block;
+                blockList = new Unit[BLOCK_UNITS];
+                blockList->next = 0;
+                nextUnit = 1;
             }
+            size_t m = elementUnits + 1;
+            Unit* block = new Unit[m];
+            block->next = blockList->next;
+            blockList->next = block;
             return block + 1;
         }
 
-- 
2.43.0


From 4fef1d9d5ef403fe2f08374d67af61e97f2f7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:32 +0000
Subject: [PATCH 15/30] fix: MySmallSet::add of a present element does not
 write beyond a full set

---
 include/tdzdd/util/MySet.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 59a9800..92deda2 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -336,16 +336,10 @@ public:
 //        ++size_;
 //    }
     void add(T const& e) {
+        if (includes(e)) return;
         if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
-        T* pz = array_ + size_;
-        T* p = pz - 1;
+        T* p = array_ + size_ - 1;
         while (array_ <= p && e <= *p) {
-            if (e == *p) {
-                while (++p < pz) {
-                    *p = *(p + 1);
-                }
-                return;
-            }
             *(p + 1) = *p;
             --p;
         }
-- 
2.43.0


From 2b9b817625af520a86e2aad429179bada4d3c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:32 +0000
Subject: [PATCH 16/30] fix: MyBitSet::pullout stays inside the set

---
 include/tdzdd/util/MySet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 92deda2..09ebecf 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -119,8 +119,8 @@ public:
     void pullout(size_t i) {
         size_t k = i / 64;
         uint64_t* p = &word(k);
-        uint64_t* q = p + numWords();
-        uint64_t m = mask(i % 64 + 1) - 1;
+        uint64_t* q = p + (numWords() - k);
+        uint64_t m = (mask(i % 64) << 1) - 1;
         *p = (*p & ~m) | ((*p << 1) & m);
         while (++p < q) {
             *(p - 1) |= *p >> 63;
-- 
2.43.0


From 33f9e193c1c67c391bd466a661e45e59a39b6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 17/30] fix: Graph::readEdges: accept a last line that does not
 end with a newline

---
 include/tdzdd/util/Graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ce77e6c..5652f76 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -173,6 +173,7 @@ private:
 
         while (is) {
             char c = is.get();
+            if (!is) c = '\n'; // the end of the input ends the last line
 
             if (isspace(c)) {
                 if (!v.empty()) {
-- 
2.43.0


From ee559aca0cd6931c2e7c1fd270ff47af86fbf0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 18/30] fix: Graph::clearColors: reset the information derived
 from the colors

---
 include/tdzdd/util/Graph.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index 5652f76..5996272 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -588,6 +588,10 @@ public:
         colorNumber_.clear();
         colorNumber_.resize(vMax + 1);
         numColor_ = 0;
+        hasColorPairs_ = false;
+        for (size_t a = 0; a < edgeInfo_.size(); ++a) {
+            edgeInfo_[a].allColorsSeen = true;
+        }
     }
 
     void setDefaultPathColor() {
-- 
2.43.0


From 6c5bfc5a0265320dae4341ab729e73125aed2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 19/30] fix: dumpSapporo: do not look up a terminal or cleared
 root in the node ID table

---
 include/tdzdd/DdStructure.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 9ec1941..515e8cb 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -728,6 +728,7 @@ public:
 
         DataTable<size_t> nodeId(diagram->numRows());
         size_t k = 0;
+        size_t rootId = 0;
 
         for (int i = 1; i <= n; ++i) {
             size_t const m = (*diagram)[i].size();
@@ -737,6 +738,7 @@ public:
             for (size_t j = 0; j < m; ++j, ++p) {
                 k += 2;
                 nodeId[i][j] = k;
+                if (NodeId(i, j) == root_) rootId = k;
                 os << k << " " << i;
 
                 for (int c = 0; c <= 1; ++c) {
@@ -761,7 +763,15 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_ == 0) {
+            os << "F\n";
+        }
+        else if (root_ == 1) {
+            os << "T\n";
+        }
+        else {
+            os << rootId << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From de347607737782453ebd8eac7bbbcc0b5874933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:46 +0000
Subject: [PATCH 20/30] fix: DdDumper: do not leave the padding of the
 1-terminal state uninitialized

---
 include/tdzdd/dd/DdBuilder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index a8b8c07..e0008c7 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -1335,7 +1335,7 @@ public:
             spec.destruct(oneState);
         }
         else {
-            oneState = new char[spec.datasize()];
+            oneState = new char[spec.datasize()]();
         }
         int n = spec.get_root(oneState);
 
-- 
2.43.0


From 7635aa9f0ad5afe569b7569cd99c18db2423dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:46 +0000
Subject: [PATCH 21/30] fix: BinaryOperation: always create both root states,
 which are both destroyed later

---
 include/tdzdd/op/BinaryOperation.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..ba61859 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,9 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -241,9 +240,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 < 0) return -1;
+        if (i1 < 0 || i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -345,9 +343,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
 
         while (i1 != i2) {
             if (i1 > i2) {
-- 
2.43.0


From 9a5aaaa03f0e15e202ec1223b46d967710dd9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:46 +0000
Subject: [PATCH 22/30] fix: HybridDdSpec: destroy the scalar part of the state

---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From 48fa61e98a2846169ce6f44584b8ca26b9ca400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:46 +0000
Subject: [PATCH 23/30] fix: DdBuilderMP, ZddSubsetterMP: a state discarded by
 mergeStates in favour of a later one keeps no unfilled node

---
 include/tdzdd/dd/DdBuilder.hpp | 42 ++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index e0008c7..96a6a5c 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -108,6 +108,7 @@ protected:
 class DdBuilderMPBase {
 protected:
     static int const headerSize = 2;
+    static int64_t const FORWARDED = int64_t(1) << 62; // flag in code(p)
 
     /* SpecNode
      * ┌────────┬────────┬────────┬────────┬─────
@@ -549,7 +550,7 @@ public:
                         else {
                             switch (spec.merge_states(state(p0), state(p))) {
                             case 1:
-                                code(p0) = 0;
+                                code(p0) |= FORWARDED; // forward to 0-terminal
                                 code(p) = ++j; // code(p) >= 1
                                 p0 = p;
                                 break;
@@ -615,10 +616,18 @@ public:
                             continue;
                         }
 
-                        size_t j = j0 + code(p);
+                        size_t j = j0 + (code(p) & ~FORWARDED);
                         *srcPtr(p) = NodeId(i, j);
 
                         Node<AR> &q = output[i][j];
+
+                        if (code(p) & FORWARDED) {
+                            q = Node<AR>(0, 0);
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         bool allZero = true;
                         void* s = tmpState;
 
@@ -1090,17 +1099,24 @@ public:
                     for (MyListOnPool<SpecNode>::iterator t = snodes.begin();
                             t != snodes.end(); ++t) {
                         SpecNode* p = *t;
-                        SpecNode* pp = uniq.add(p);
+                        SpecNode*& pp = uniq.add(p);
 
                         if (pp == p) {
                             code(p) = ++jj; // code(p) >= 1
                         }
                         else {
-                            code(p) = -code(pp);
-                            if (int prune = spec.merge_states(state(pp),
-                                    state(p))) {
-                                if (prune & 1) code(pp) = 0;
-                                if (prune & 2) code(p) = 0;
+                            switch (spec.merge_states(state(pp), state(p))) {
+                            case 1:
+                                code(pp) |= FORWARDED; // forward to 0-terminal
+                                code(p) = ++jj; // code(p) >= 1
+                                pp = p;
+                                break;
+                            case 2:
+                                code(p) = 0;
+                                break;
+                            default:
+                                code(p) = -code(pp);
+                                break;
                             }
                         }
                     }
@@ -1144,9 +1160,17 @@ public:
                             continue;
                         }
 
-                        size_t const jj = jj0 + code(p);
+                        size_t const jj = jj0 + (code(p) & ~FORWARDED);
                         *srcPtr(p) = NodeId(i, jj);
                         Node<AR> &q = output[i][jj];
+
+                        if (code(p) & FORWARDED) {
+                            q = Node<AR>(0, 0);
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         bool allZero = true;
                         void* s = tmpState;
 
-- 
2.43.0


From d13fa5144af41690a83fc6dc46b8bb58d2a51f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:46 +0000
Subject: [PATCH 24/30] fix: BddLookahead: do not skip a node whose children
 are not merged into one

---
 include/tdzdd/op/Lookahead.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/op/Lookahead.hpp b/include/tdzdd/op/Lookahead.hpp
index 977960e..61bb2c5 100644
--- a/include/tdzdd/op/Lookahead.hpp
+++ b/include/tdzdd/op/Lookahead.hpp
@@ -51,7 +51,10 @@ class BddLookahead: public DdSpecBase<BddLookahead<S>,S::ARITY> {
                 if (!(level0 == level1
                         && (level0 <= 0
                                 || spec.equal_to(work0.data(), work1.data(),
-                                        level0)))) {
+                                        level0))
+                        && (level0 == 0
+                                || spec.merge_states(work0.data(),
+                                        work1.data()) == 0))) {
                     spec.destruct(work0.data());
                     spec.destruct(work1.data());
                     return level;
-- 
2.43.0


From c60262ad7ccb0e21a53789835c49d273c73f879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:46 +0000
Subject: [PATCH 25/30] fix: ToBDD is not thread safe, as ToZBDD

---
 include/tdzdd/eval/ToBDD.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/eval/ToBDD.hpp b/include/tdzdd/eval/ToBDD.hpp
index 9039688..453003e 100644
--- a/include/tdzdd/eval/ToBDD.hpp
+++ b/include/tdzdd/eval/ToBDD.hpp
@@ -51,6 +51,10 @@ public:
             : offset(offset) {
     }
 
+    bool isThreadSafe() const {
+        return false;
+    }
+
     void initialize(int topLevel) const {
         while (BDD_VarUsed() < topLevel + offset) {
             BDD_NewVar();
-- 
2.43.0


From a411abece5d401ac227f3b52d3b17fb5bb038324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:46 +0000
Subject: [PATCH 26/30] fix: NAryZdd: accept words without the lowest item

---
 apps/ddqueens/NAryZdd.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/ddqueens/NAryZdd.hpp b/apps/ddqueens/NAryZdd.hpp
index 48eeb36..2f86e07 100644
--- a/apps/ddqueens/NAryZdd.hpp
+++ b/apps/ddqueens/NAryZdd.hpp
@@ -48,13 +48,12 @@ public:
     int getChild(int level, int take) const {
         if (take) {
             level = ((level - 1) / m) * m;
-            if (level == 0) return -1;
         }
         else {
             --level;
             if (oneHot && level % m == 0) return 0;
         }
-        return level;
+        return (level == 0) ? -1 : level;
     }
 };
 
-- 
2.43.0


From 7906c5673b54e097dcb87f8ce2a3864d13599047 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:24:50 +0000
Subject: [PATCH 27/30] fix: CnfToBdd read beyond an empty list of clauses

A CNF of tautologies only has no clause left; to - 1 is then before the
first pointer and the loop was entered.
---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 3109f36..a592f2f 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -191,7 +191,7 @@ void CnfToBdd::prepare() {
 
 void CnfToBdd::makeClauseMap(Clause const* base, Clause const* const * from,
         Clause const* const * to, int k) {
-    for (Clause const* const * p = from; p < to - 1; ++p) {
+    for (Clause const* const * p = from; p + 1 < to; ++p) {
         Clause const* const * q = p + 1;
         int t1 = (**p)[k];
         if (t1 == 0) continue;
-- 
2.43.0


From d94070adcbe41a1b3f611a8f93fe409a43dd9099 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:24:50 +0000
Subject: [PATCH 28/30] fix: CnfToBdd::badState read before the first clause
 number

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index a592f2f..1282e1a 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -484,7 +484,7 @@ bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
                 g = Cudd_NotCond(Cudd_E(g), Cudd_IsComplement(g));
                 if (Cudd_IsConstant(g)) return g == zero;
             }
-            while (int(*t) > Cudd_NodeReadIndex(g)) { // don't care
+            while (t != clauses.rend() && int(*t) > Cudd_NodeReadIndex(g)) { // don't care
                 ++t;
             }
         }
-- 
2.43.0


From f9209a8eb9831849f1df7ced4c068708a296abf0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:24:50 +0000
Subject: [PATCH 29/30] fix: assignment of a null Cudd object dereferenced it

---
 apps/cnfbdd/Cudd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/Cudd.hpp b/apps/cnfbdd/Cudd.hpp
index c04c56a..2084035 100644
--- a/apps/cnfbdd/Cudd.hpp
+++ b/apps/cnfbdd/Cudd.hpp
@@ -95,7 +95,7 @@ public:
     }
 
     Cudd_& operator=(Cudd_ const& o) {
-        Cudd_Ref(o.dd);
+        if (o.dd != 0) Cudd_Ref(o.dd);
         this->~Cudd_();
         dd = o.dd;
         return *this;
-- 
2.43.0


From f6ad8bc2ec47124a9c41c32610b22cd10c84fb5c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:24:50 +0000
Subject: [PATCH 30/30] fix: the CNF readers used an uninitialized literal at
 the end of the file

The last extraction fails without storing anything.
---
 apps/cnf2ztdd2bdd/CnfToZtdd.cpp | 2 +-
 apps/cnfbdd/CnfToBdd.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
index 3d49af1..8ded177 100644
--- a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
+++ b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
@@ -69,7 +69,7 @@ void CnfToZtdd::readDimacs(std::istream& is) {
     int mm = 0;
 
     while (is) {
-        int x;
+        int x = 0;
         is >> x;
 
         if (x == 0) {
diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 1282e1a..d89dca4 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -44,7 +44,7 @@ void CnfToBdd::readDimacs(std::istream& is) {
     int mm = 0;
 
     while (is) {
-        int x;
+        int x = 0;
         is >> x;
 
         if (x == 0) {
-- 
2.43.0

