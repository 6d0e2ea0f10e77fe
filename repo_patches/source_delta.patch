From 841da555622843ef3d52dcab3d6795762257ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:37 +0000
Subject: [PATCH 01/40] fix: stop min-max heap trickle-down after a swap with a
 child

heapDownMin() swapped the current item with its smallest child only when no
grandchild is strictly smaller than that child, so the child has no
descendants that may violate the invariant on its (maximum) level. Continuing
from the child treated a maximum level as a minimum level and, with equal
values, broke the heap order (push 1,2,9,2,2,5; popTop; popBottom; bottom()
returned 2 instead of 5). heapDownMax() already stops here.
---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From c76239b4a1aee40dd0da345629c3685d6e207976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:18 +0000
Subject: [PATCH 02/40] fix: return the true runner-up in min-max heap nextTop
 and nextBottom

---
 common/include/rofl/common/min_max_heap.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..bd16465 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -133,18 +133,32 @@ namespace rofl {
             } else if (data_.size() < 4) {
                 return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                // Children without descendants may precede the grandchildren of the root
+                size_t ichild = childMin(0);
+                size_t igrand = grandchildMin(0);
+                return cmp_(data_[igrand], data_[ichild]) ? data_[igrand] : data_[ichild];
             }
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // The item following the maximum is its sibling or one of its descendants
+                size_t imax = childMax(0);
+                size_t inext = (imax == childLeft(0)) ? childRight(0) : childLeft(0);
+                size_t ichild = childMax(imax);
+                size_t igrand = grandchildMax(imax);
+                if (ichild < data_.size() && cmp_(data_[inext], data_[ichild])) {
+                    inext = ichild;
+                }
+                if (igrand < data_.size() && cmp_(data_[inext], data_[igrand])) {
+                    inext = igrand;
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From 05972dce8549cddf20d5770dd31b5b0c427a7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:49 +0000
Subject: [PATCH 03/40] fix: step the boustrophedon order by one cell also in
 three or more dimensions

---
 common/include/rofl/common/interval_indices.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..c69db62 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -144,11 +144,9 @@ namespace rofl {
                 for (int d = Dim - 1; d >= 0; --d) {
                     //ROFL_VAR3(d, indices[d], odd);
                     if (odd) {
-                        odd = indices[d] % 2;
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
+                    odd = (odd + indices[d]) % 2;
                     indices[d] += minval[d];
                 }
                 //ROFL_MSG("indices computed " << indices);
-- 
2.43.0


From ffc4edbd4aeec047712181094bb650d590f66acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:37 +0000
Subject: [PATCH 04/40] fix: compare each peak candidate with the other cells
 of its window only, first cell included

---
 common/include/rofl/common/peak_finder_d.h | 43 ++++++++++++++--------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..b1011f7 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -147,6 +147,32 @@ namespace rofl {
                 windowItems.push(*it);
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
+
+            // Checks if the current cell icurr strictly precedes every other cell of the current window.
+            // The queue may still store items that have left the window or that entered it twice:
+            // they must not be compared with icurr.
+            auto checkPeak = [&](const Indices & icurr) {
+                if (enableFilterMinValue_ && !comp_(map(icurr), valueMin_)) {
+                    return;
+                }
+                // Cell icurr must not be dominated by the top item windowItems.top().
+                // E.g. if comp_ = std::greater<>, then
+                //   !comp_(map(windowItems.top()), map(icurr))) -> map(icurr) >= map(windowItems.top()
+                if (windowItems.empty() || comp_(map(windowItems.top()), map(icurr))) {
+                    return;
+                }
+                Indices curTop = windowItems.top();
+                windowItems.popTop();
+                while (!windowItems.empty() && (windowItems.top() == curTop || !windowInterval.inside(windowItems.top()))) {
+                    windowItems.popTop();
+                }
+                if (windowItems.empty() || comp_(map(icurr), map(windowItems.top()))) {
+                    maxima.push(icurr);
+                }
+                windowItems.push(curTop);
+            };
+
+            checkPeak(*domainIt);
             indicesPrev = *domainIt;
             ++domainIt;
 
@@ -168,22 +194,7 @@ namespace rofl {
                     windowItems.popTop();
                 }
 
-                // Checks if current cell *domainIt is not dominated by the top item windowItems.top().
-                // E.g. if comp_ = std::greater<>, then
-                //   !comp_(map(windowItems.top()), map(*domainIt))) -> map(*domainIt) >= map(windowItems.top()
-                if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
-                    if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
-                        //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
-                            //insertMax = *domainIt;
-                            maxima.push(*domainIt);
-                        }
-                        //windowItems.push(curTop);
-                    }
-                }
+                checkPeak(*domainIt);
                 indicesPrev = *domainIt;
             }
 
-- 
2.43.0


From 7140626fe9408aebb0f4e1101d07ff89df45b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:41 +0000
Subject: [PATCH 05/40] fix: count the sets created by DisjointSet::makeSet

---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..ad84dc3 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 6c9511e3ba2a060ac4ed1b2f166e8424eb3b3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:41 +0000
Subject: [PATCH 06/40] fix: do not access nodes of invalid identifiers in
 DisjointSet

---
 common/include/rofl/common/disjoint_set.h | 3 +++
 common/src/disjoint_set.cpp               | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..9313326 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,9 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root >= (id_type) nodes_.size()) {
+                return 0;
+            }
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index ad84dc3..8e72016 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -76,6 +76,8 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
+        // Invalid identifiers cannot be joined
+        if (root1 >= (id_type) nodes_.size() || root2 >= (id_type) nodes_.size()) return nodes_.size();
         // If n1 and n2 are already in the same set, there is no join to do
         if (root1 == root2) return nodes_.size();
 
-- 
2.43.0


From 10276eba94fa1e486b5d601455121ae01f6361ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:41 +0000
Subject: [PATCH 07/40] fix: compare label sets of different size without
 reading past the end

---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..5e0d2dd 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ == ls.labels_;
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ != ls.labels_;
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From be779476d54fe9d5093f2c4c2aa06c8561fc2628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:52 +0000
Subject: [PATCH 08/40] fix: define the LabelSet stream operator inline so that
 several units may include the header

---
 common/include/rofl/common/label_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/label_set.h b/common/include/rofl/common/label_set.h
index bf72992..88292e5 100644
--- a/common/include/rofl/common/label_set.h
+++ b/common/include/rofl/common/label_set.h
@@ -163,7 +163,7 @@ namespace rofl {
 
 } // end of namespace
 
-std::ostream& operator<<(std::ostream& out, const rofl::LabelSet& ls) {
+inline std::ostream& operator<<(std::ostream& out, const rofl::LabelSet& ls) {
     ls.print(out);
     return out;
 }
-- 
2.43.0


From a8f714667a44cad180ba1f19b20068fdb478c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 09/40] fix: count the leading zeros of 64-bit integers with
 nlz64 in log2Mod

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 866a01678cdaf22cab06a00fdf08b27ba3c7eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 10/40] fix: double precision numbers have 11 exponent bits

---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From 1de313ecdd665fe083cb3a7d3d5fa15bee0b4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:52 +0000
Subject: [PATCH 11/40] fix: enclosing power-of-two interval of integers is
 exact at every level

---
 common/include/rofl/common/morton_sort.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..3283833 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -87,7 +87,8 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     using IT = IntegerTraits<I>;
     using IntegerType = typename IT::IntegerType;
     using UnsignedType = typename IT::UnsignedType;
-    IntegerType level, intervMask;
+    IntegerType level;
+    UnsignedType intervMask;
 
     // When i1 and i2 have different signs (their most significant bits are
     // different), then the most significant bit of i1^i2 is equal to 1,
@@ -111,11 +112,15 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   upp         00001111  -> 15
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
-    if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+    if (level == 0) {
+        low = i1;
+        mid = i1;
+        upp = i1;
+    } else if (level < IT::BIT_NUM) {
+        intervMask = ((UnsignedType)1 << level) - 1;
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        mid = low | ((UnsignedType)1 << (level - 1));
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
@@ -125,10 +130,9 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         // ROFL_MSG("mid         " << std::bitset<IT::BIT_NUM>(mid));
         // ROFL_MSG("upp         " << std::bitset<IT::BIT_NUM>(upp));
     } else {
-        intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = low / 2 + upp / 2 + 1;
     }
     return (int)level;
 }
-- 
2.43.0


From f45d6e614fad113078dca1ba301666cc5c3e976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:43 +0000
Subject: [PATCH 12/40] fix: floating-point Morton comparison is a strict total
 order also for negative, zero and subnormal numbers

---
 common/include/rofl/common/morton_sort.h | 43 ++++++++++++++++--------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 3283833..f60fdfc 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -160,6 +160,9 @@ F xorFloat(const F& fin1,
 
     FT::decompose(f1, fm1, fe1, fs1);
     FT::decompose(f2, fm2, fe2, fs2);
+    // Zero is not negative, whatever its sign bit
+    fs1 = fs1 && f1 != 0;
+    fs2 = fs2 && f2 != 0;
 
     // If the input numbers have different signs, then the returned value
     // is the infinity.
@@ -174,28 +177,40 @@ F xorFloat(const F& fin1,
         return FT::compose(mantissaDiff, exponentDiff, false);
     }
 
-    // Adding the implicit most significant bit to the two mantissas
-    fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
-    if (fe1 < fe2 + FT::BIT_NUM) {
-        fm2 = (fm2 | FT::MANTISSA_IMPLICIT_BIT) >> (fe1 - fe2);
+    // Adding the implicit most significant bit to the two mantissas: zero and
+    // the subnormal numbers have none and share the smallest exponent
+    if (fe1 > FT::EXPONENT_MIN) {
+        fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
     } else {
-        fm2 = 0;
+        fe1 = FT::EXPONENT_MIN + 1;
     }
-    // Changes the mantissas sign, if f1 and f2 are both negatives
-    if (fs1) {
-        fm1 = -fm1;
-        fm2 = -fm2;
+    if (fe2 > FT::EXPONENT_MIN) {
+        fm2 = fm2 | FT::MANTISSA_IMPLICIT_BIT;
+    } else {
+        fe2 = FT::EXPONENT_MIN + 1;
     }
+    // Changes the mantissas sign, if f1 and f2 are both negatives.
+    // The additional least significant bit tells a negative mantissa from the
+    // digits of the other one that are dropped by the alignment.
+    fm1 = (fs1 ? -fm1 : fm1) * 2;
+    fm2 = (fs1 ? -fm2 : fm2) * 2;
+    // The arithmetic shift rounds towards minus infinity
+    fm2 = fm2 >> std::min<IntegerType>(fe1 - fe2, FT::BIT_NUM - 1);
     mantissaDiff = fm1 ^ fm2;
 
     if (mantissaDiff == 0) {
-        exponentDiff = -FT::EXPONENT_BIAS;
-        return FT::compose(mantissaDiff, exponentDiff, false);
+        // Less than the exponent of any difference
+        exponentDiff = FT::EXPONENT_MIN - FT::BIT_NUM;
+        return 0;
     }
-    msbPos = FT::MANTISSA_BITS - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
+    msbPos = FT::MANTISSA_BITS + 1 - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
     exponentDiff = fe1 - msbPos;
-    mantissaDiff = (mantissaDiff << msbPos) & FT::MANTISSA_MASK;
+    mantissaDiff = ((mantissaDiff << msbPos) >> 1) & FT::MANTISSA_MASK;
 
+    if (exponentDiff <= FT::EXPONENT_MIN) {
+        // The difference is a subnormal number
+        return FT::compose((mantissaDiff | FT::MANTISSA_IMPLICIT_BIT) >> (FT::EXPONENT_MIN + 1 - exponentDiff), FT::EXPONENT_MIN, false);
+    }
     return FT::compose(mantissaDiff, exponentDiff, false);
 }
 
@@ -394,7 +409,7 @@ bool mortonCmpFloat(const F* v1, const F* v2) {
     lastXor = xorFloat(v1[0], v2[0], lastMantissa, lastExponent);
     for (int d = 1; d < Dim; ++d) {
         currXor = xorFloat(v1[d], v2[d], currMantissa, currExponent);
-        if (lastXor < currXor && lastExponent < currExponent) {
+        if (lastExponent < currExponent) {
             lastDim = d;
             lastExponent = currExponent;
             lastXor = currXor;
-- 
2.43.0


From 51f6d5180901b5b5a46b6f7e3ed716a2fe3c3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:40 +0000
Subject: [PATCH 13/40] fix: enclosing power-of-two interval of floating-point
 numbers for equal, double and subnormal arguments

---
 common/include/rofl/common/morton_sort.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index f60fdfc..ff616b7 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -240,10 +240,9 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     using IntegerType = typename FT::IntegerType;
     using UnsignedType = typename FT::UnsignedType;
     using IT = IntegerTraits<IntegerType>;
-    F f1, f2, powLevel;
-    IntegerType fm1, fm2, fe1, fe2, fm12, fe12;
+    IntegerType fm1, fm2, fe1, fe2, fe12;
     IntegerType intervMask, mlow, mmid, mupp;
-    bool fs1, fs2, fs12;
+    bool fs1, fs2;
     int level;
 
     // Extracts mantissa, exponent and sign from each term
@@ -260,13 +259,18 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
         return level;
     }
 
+    // Equal numbers have the smallest level
+    if (fe1 == fe2 && fm1 == fm2) {
+        low = fin1;
+        mid = fin1;
+        upp = fin1;
+        return FT::EXPONENT_MIN - FT::BIT_NUM;
+    }
+
     // Arranges the input floating s.t. fabs(f1) < fabs(f2)
-    f2 = fin1;
-    f2 = fin2;
     if (fe1 > fe2 || (fe1 == fe2 && fm1 > fm2)) {
         std::swap(fm1, fm2);
         std::swap(fe1, fe2);
-        std::swap(f1, f2);
     }
     fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
     fm2 = fm2 | FT::MANTISSA_IMPLICIT_BIT;
@@ -281,11 +285,10 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     } else {
         level = IT::BIT_NUM - IT::nlz(fm2);
     }
-    ROFL_VAR4(fe1, fe2, fe12, level);
-    intervMask = (1 << level) - 1;
+    intervMask = ((IntegerType)1 << level) - 1;
     mlow = fm2 & (~intervMask);
     mupp = (mlow | intervMask);
-    mmid = mlow | (1 << (level - 1));
+    mmid = mlow | ((IntegerType)1 << (level - 1));
     if (mlow != 0) {
         low = FT::compose(mlow ^ FT::MANTISSA_IMPLICIT_BIT, fe2, fs2);
     } else {
@@ -304,7 +307,8 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     if (fs2) {
         std::swap(low, upp);
     }
-    level = fe2 + level - FT::MANTISSA_BITS;
+    // The subnormal numbers share the smallest exponent of the normal ones
+    level = std::max<IntegerType>(fe2, FT::EXPONENT_MIN + 1) + level - FT::MANTISSA_BITS;
     // ROFL_MSG("intervMask  " << std::bitset<FT::BIT_NUM>(intervMask));
     // ROFL_MSG("mlow        " << std::bitset<FT::BIT_NUM>(mlow) << "  " << low);
     // ROFL_MSG("     ->     " << std::bitset<FT::BIT_NUM>(FT::toInt(low)));
-- 
2.43.0


From 0e7916cd0f30cec363f97ea75268443880cba324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:04 +0000
Subject: [PATCH 14/40] fix: fastAtan2 of the origin is zero instead of NaN

---
 common/src/functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..f407f1f 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -83,7 +83,7 @@ namespace rofl {
         float ay = fabs(y);
         float ax = fabs(x);
         bool invert = ay > ax;
-        float z = invert ? ax / ay : ay / ax; // z in range [0,1]
+        float z = invert ? ax / ay : (ax > 0.0f ? ay / ax : 0.0f); // z in range [0,1], 0 in the origin
         float th = fastAtanf(z); // th in range [0,M_PI/4]
         if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]
         if (x < 0) th = M_PI - th; // th in range [0,M_PI]
@@ -95,7 +95,7 @@ namespace rofl {
         double ay = fabs(y);
         double ax = fabs(x);
         bool invert = ay > ax;
-        double z = invert ? ax / ay : ay / ax; // z in range [0,1]
+        double z = invert ? ax / ay : (ax > 0.0 ? ay / ax : 0.0); // z in range [0,1], 0 in the origin
         double th = fastAtan(z); // th in range [0,M_PI/4] 
         if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]
         if (x < 0) th = M_PI - th; // th in range [0,M_PI]
-- 
2.43.0


From ef6f5b68fc47652d8864c7a22b2d2a562bd8314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:16 +0000
Subject: [PATCH 15/40] fix: PnebiLUT::eval accepts the maximum order stored in
 the table

---
 common/src/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index f407f1f..6db0d8d 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -274,7 +274,7 @@ namespace rofl {
 
         // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;
         if (x < 0.0) x = -x;
-        ROFL_ASSERT_VAR2(0 <= k && k < orderMax_, k, orderMax_);
+        ROFL_ASSERT_VAR2(0 <= k && k <= orderMax_, k, orderMax_);
 
         PnebiPoint tmp(0, x);
         auto upper = std::upper_bound(lut_.begin(), lut_.end(), tmp);
-- 
2.43.0


From 17ef64228856b392a8b88332037d4dafdb1794e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:16 +0000
Subject: [PATCH 16/40] fix: PnebiLUT of order 0 does not read past its points

---
 common/src/functions.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 6db0d8d..fccae7a 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -242,6 +242,13 @@ namespace rofl {
         int lutNum = (int) ceil(2.0 / tol) + 20;
         double x, y0prev, ratio, deriv;
 
+        // Derivative f'(0,x) = f(1,x) - f(0,x): it needs order 1 even if the LUT stores only order 0
+        auto slope = [](const PnebiPoint& p) {
+            if (p.y.size() > 1) return p.y[1] - p.y[0];
+            PnebiPoint q(1, p.x);
+            return q.y[1] - q.y[0];
+        };
+
         // Inserts initial point x=0.0
         x = 0.0;
         orderMax_ = n;
@@ -249,14 +256,14 @@ namespace rofl {
         lut_.clear();
         lut_.reserve(lutNum);
         lut_.push_back(PnebiPoint(n, x));
-        deriv = lut_.back().y[1] - lut_.back().y[0]; // Initial value of deriv is -2.0
+        deriv = slope(lut_.back()); // Initial value of deriv is -2.0
         y0prev = lut_.back().y[0];
         //  std::cout << "x " << x << ", deriv " << deriv << std::endl;
         for (int i = 1; i < lutNum; ++i) {
             x = x - tol / deriv;
             lut_.push_back(PnebiPoint(n, x));
             ratio = deriv * (y0prev - lut_.back().y[0]) / tol;
-            deriv = std::min(std::max(lut_.back().y[1] - lut_.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
+            deriv = std::min(std::max(slope(lut_.back()), ratio), -10.0 * std::numeric_limits<double>::min());
             //            std::cout << "x " << x << ", y[0] " << lut_.back().y[0] << " (incr prev y[0] " << (lut_.back().y[0] - y0prev) << "), "
             //                      << "real deriv " << (lut_.back().y[1] - lut_.back().y[0]) << ", deriv " << deriv << ", ratio " << ratio << std::endl;
             y0prev = lut_.back().y[0];
-- 
2.43.0


From 0a2ade5335d8ebc8589e320b6dad056af5cb9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:16 +0000
Subject: [PATCH 17/40] fix: expand a leading tilde in ParamMap in place,
 without erasing the iterated entry

---
 common/src/param_map.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..59d42f9 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -130,17 +130,20 @@ namespace rofl {
     {
         for (auto it = table_.begin(); it != table_.end(); ++it)
         {
-            auto first = it->first;
-            auto second = it->second;
+            auto& second = it->second;
             // std::cout << "second with tilde: " << second << std::endl;
-            std::string homePath = getenv("HOME");
+            const char* homeVar = getenv("HOME");
+            if (homeVar == nullptr)
+            {
+                return;
+            }
+            std::string homePath = homeVar;
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            if (second == "~" || second.compare(0, 2, "~/") == 0)
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
             }
         }
     }
-- 
2.43.0


From d17b082bef2a455b0e6a41a59fdad5ccc9c74640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:16 +0000
Subject: [PATCH 18/40] fix: ParamMap::getParam assigns the default when the
 stored text cannot be converted

---
 common/include/rofl/common/param_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/rofl/common/param_map.h b/common/include/rofl/common/param_map.h
index a2f14fa..5a26cee 100644
--- a/common/include/rofl/common/param_map.h
+++ b/common/include/rofl/common/param_map.h
@@ -118,6 +118,7 @@ namespace rofl
                     std::cerr
                         << __FILE__ << "," << __LINE__ << ": Error: cannot cast string \"" << v->second << "\" to type \"" << typeid(Value).name()
                         << "\" for variable \"" << v->first << "\"" << std::endl;
+                    value = defaultValue;
                 }
             }
             else
-- 
2.43.0


From af6f7865f0f1adf676cddcc70b11e7a37c18d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:14 +0000
Subject: [PATCH 19/40] fix: Profiler divides the mean update by the number of
 measurements, the last included

---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..4d4e120 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,7 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
-            it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
+            it->second.timeAvg += (time - timeAvgOld) / (double) (it->second.count + 1);
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
                 it->second.timeMin = time;
-- 
2.43.0


From 6c6204300f4a4e5e07899e9c5394eae4fc014dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:14 +0000
Subject: [PATCH 20/40] fix: Profiler variance comes from the sum of squares,
 not from the mean

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From 7643befecb4256fd22602401ffb90ee099a17b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:14 +0000
Subject: [PATCH 21/40] fix: ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE names its
 timer, so that it lasts to the end of the scope

---
 common/include/rofl/common/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index 02c3031..576d9ae 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -23,7 +23,9 @@
 #include <chrono>
 #include <rofl/common/macros.h>
 
-#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
+#define ROFL_COMMON_PROFILER_DETAIL_TIMER(LINE) roflScopedTimer##LINE
+#define ROFL_COMMON_PROFILER_DETAIL_TIMER_OP(LINE) ROFL_COMMON_PROFILER_DETAIL_TIMER(LINE)
+#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer ROFL_COMMON_PROFILER_DETAIL_TIMER_OP(__LINE__)(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
 
 namespace rofl {
 
-- 
2.43.0


From c753ca2d2e31fb5defc85492af22eb1cb7945983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:14 +0000
Subject: [PATCH 22/40] fix: ROFL_VAR7 prints its sixth argument

---
 common/include/rofl/common/macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/macros.h b/common/include/rofl/common/macros.h
index ed0499d..a75de51 100644
--- a/common/include/rofl/common/macros.h
+++ b/common/include/rofl/common/macros.h
@@ -52,7 +52,7 @@
 
 #define ROFL_VAR7(X1,X2,X3,X4,X5,X6,X7) std::cout << ROFL_FILENAME(__FILE__) << "," << __LINE__ << ": " << (#X1) << " " << (X1) \
    << ", " << (#X2) << " " << (X2) << ", " << (#X3) << " " << (X3) << ", " << (#X4) << " " << (X4) \
-   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X7) << ", " << (#X7) << " " << (X7) << std::endl;
+   << ", " << (#X5) << " " << (X5) << ", " << (#X6) << " " << (X6) << ", " << (#X7) << " " << (X7) << std::endl;
 
 #define ROFL_ASSERT(COND) if (!(COND)) { std::cerr << __FILE__ << "," << __LINE__ << ": assertion failed on " << #COND << std::endl; exit(-1); }
 
-- 
2.43.0


From 83274fd94aa423558527be993a9faae67863b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:39 +0000
Subject: [PATCH 23/40] fix: MortonTree::insert keeps the id of the item when
 it is not to be reset

---
 common/include/rofl/common/morton_tree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..671bff2 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -177,6 +177,8 @@ class MortonTree {
         std::copy(item.values, item.values + Dim, itemCopy.values);
         if (resetId) {
             itemCopy.id = items_.size();
+        } else {
+            itemCopy.id = item.id;
         }
         items_.push_back(itemCopy);
         ordered_ = false;
-- 
2.43.0


From 5e2d609a042d79ae3f9546827517d4a827264715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:39 +0000
Subject: [PATCH 24/40] fix: inserting a range into a MortonTree does not write
 the ids of the caller's items

---
 common/include/rofl/common/morton_tree.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 671bff2..9020dc4 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -195,16 +195,10 @@ class MortonTree {
      */
     template <typename It>
     void insert(It beg, It end, bool resetId = true) {
-        size_t sizeCur = items_.size();
         size_t sizeInc = std::distance(beg, end);
-        int id;
 
-        items_.reserve(sizeInc);
-        id = sizeCur;
-        for (It it = beg; it != end; ++it, ++id) {
-            if (resetId) {
-                it->id = id;
-            }
+        items_.reserve(items_.size() + sizeInc);
+        for (It it = beg; it != end; ++it) {
             insert(*it, resetId);
         }
         ordered_ = false;
-- 
2.43.0


From fa41b21985df4b490ec6b3060090e2b234990180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:39 +0000
Subject: [PATCH 25/40] fix: MortonTree::searchInBox returns the items in the
 box, and only them

It returned every item between the corners in Morton order, gave up after
ten intervals and dereferenced the end iterator.
---
 common/include/rofl/common/morton_tree.h | 60 +++++-------------------
 1 file changed, 12 insertions(+), 48 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 9020dc4..b58e2cb 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -251,60 +251,24 @@ class MortonTree {
     }
 
     void searchInBox(const Item& boxMin, const Item& boxMax, std::vector<ConstIterator>& items) {
-        using TreeIntervalQueue = std::deque<TreeInterval>;
-        TreeIntervalQueue queue;
-        TreeInterval cur, low, upp;
-        ConstIterator itLow, itMid, itUpp;
+        ConstIterator first, last;
+        bool inside;
 
         if (!ordered_) {
             sort();
         }
 
-        ROFL_VAR2(boxMin.toString(), boxMax.toString());
-
-        for (auto it = std::begin(items_); it != std::end(items_); ++it) {
-            ROFL_VAR3(it->toString(), compareItems(*it, boxMin), compareItems(*it, boxMax));
-        }
-        cur.first = std::upper_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
-        cur.second = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
-        queue.push_back(cur);
-
-        ROFL_MSG("initial interval " << cur.first->toString() << " : " << cur.second->toString());
-
-        int count = 0;
-        while (!queue.empty() && count < 10) {
-            cur = queue.back();
-            queue.pop_back();
-            std::cout << "\n---\nEXPLORING " << printInter(cur) << std::endl;
-            findTreeBucket(cur.first, cur.second, itLow, itMid, itUpp);
-            ROFL_MSG("splitting\n"
-                     << "  low " << printIt(itLow)
-                     << "  mid " << printIt(itMid)
-                     << "  upp " << printIt(itUpp));
-            if (cur.first == itLow && cur.second == itUpp) {
-                for (auto it = itLow; it != itUpp; ++it) {
-                    items.push_back(it);
-                }
-            } else {
-                low.first = cur.first;
-                low.second = itMid;
-                upp.first = itMid;
-                upp.second = cur.second;
-                // ROFL_VAR2(printInter(low), printInter(upp));
-                if (low.first != low.second) {
-                    ROFL_MSG("added LOW interval: " << printInter(low));
-                    queue.push_back(low);
-                } else {
-                    ROFL_MSG("discarted LOW interval: " << printInter(low));
-                }
-                if (upp.first != upp.second) {
-                    ROFL_MSG("added UPP interval: " << printInter(upp));
-                    queue.push_back(upp);
-                } else {
-                    ROFL_MSG("discarted UPP interval: " << printInter(upp));
-                }
+        // All the items of the box lie between its corners in Morton order
+        first = std::lower_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
+        last = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
+        for (auto it = first; it < last; ++it) {
+            inside = true;
+            for (size_t d = 0; d < Dim && inside; ++d) {
+                inside = (boxMin.values[d] <= it->values[d] && it->values[d] <= boxMax.values[d]);
+            }
+            if (inside) {
+                items.push_back(it);
             }
-            count++;
         }
     }
 
-- 
2.43.0


From c30cfb6352ad9f3df7a70fd2f818c1a6df067b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:49 +0000
Subject: [PATCH 26/40] fix: estimateTranslationTls of no values does not read
 the cost of an empty set

---
 common/include/rofl/common/tls_scalar_consensus.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/include/rofl/common/tls_scalar_consensus.h b/common/include/rofl/common/tls_scalar_consensus.h
index ff2a20c..bf83ed3 100644
--- a/common/include/rofl/common/tls_scalar_consensus.h
+++ b/common/include/rofl/common/tls_scalar_consensus.h
@@ -47,6 +47,10 @@ void estimateTranslationTls(const std::vector<Scalar>& values, const std::vector
 
     ROFL_ASSERT_VAR2(n == ranges.size(), n, ranges.size());
     inliers.resize(n);
+    if (n == 0) {
+        valueMax = 0;
+        return;
+    }
     std::vector<Scalar> weights(n);
     std::vector<Scalar> valueHat(ne, 0);
     std::vector<Scalar> valueCost(ne, 0);
-- 
2.43.0


From fd597147e8db94f18836edb931ca598e32f8e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:35 +0000
Subject: [PATCH 27/40] fix: VectorArray operators compute every component, and
 the difference subtracts

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From 7408741fd19144682fc71f83eb44a650e89f17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:35 +0000
Subject: [PATCH 28/40] fix: local XY coordinates use the meters per degree of
 longitude at the origin latitude

The length of a degree of longitude depends on the latitude, not on the
longitude (see mdeglon() of AlvinXY).
---
 geometry/src/gis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..2543c84 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -44,12 +44,12 @@ namespace rofl {
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From 51bccc4094a020090576a3409456b18b64b5415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 29/40] fix: HoughPlaneDetector::insert does not divide by zero
 with less than 8 longitude bins

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..af897ce 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -198,7 +198,7 @@ namespace rofl {
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
         rofl::Scalar rho;
-        int phiNotify = phiNum_ / 8;
+        int phiNotify = std::max(phiNum_ / 8, 1);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
-- 
2.43.0


From 9236707de0be637cfa6364c76f1df8004cdb3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 30/40] fix: HoughPlaneDetector::getPlaneParam by three indices
 adds the minimum distance, as the other one does

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index af897ce..a030bae 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From 6d0087b4757d2b1d4bc954cd4eacb1023b2e61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 31/40] fix: points less than a bin below the minimum distance
 do not vote for the first bin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a030bae..50688c8 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -212,7 +212,7 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
+                    indicesAngle[2] = (int) floor((rho - rhoMin_) / rhoRes_);
                     if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
-- 
2.43.0


From 2fa47f1c66fc36cad0824df33ba66bca05245335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 32/40] fix: do not remove candidate nodes from the label set
 being iterated

---
 geometry/src/correspondence_graph_association.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..3077fa3 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -192,7 +192,9 @@ namespace rofl {
             return;
         }
 
-        for (auto& n : candidateNodes) {
+        // The sets change during the visit: iterates over a copy
+        const LabelSet candidateNodesInit = candidateNodes;
+        for (auto& n : candidateNodesInit) {
             ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
-- 
2.43.0


From dc2b67e3f30fd9fd7d729eb9c4ee5bdfdae62dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 33/40] fix: inserting items or associating again discards the
 previous distances and nodes

---
 .../include/rofl/geometry/correspondence_graph_association.h  | 4 +++-
 geometry/src/correspondence_graph_association.cpp             | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..5cbb393 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -122,6 +122,7 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertSrc(It beg, It end, Dist dist) {
             numSrc_ = std::distance(beg, end);
+            distancesSrc_.clear();
             distancesSrc_.reserve(numSrc_ * (numSrc_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesSrc_));
 
@@ -151,7 +152,8 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertDst(It beg, It end, Dist dist) {
             numDst_ = std::distance(beg, end);
-            distancesSrc_.reserve(numDst_ * (numDst_ - 1) / 2);
+            distancesDst_.clear();
+            distancesDst_.reserve(numDst_ * (numDst_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesDst_));
 
             std::sort(distancesDst_.begin(), distancesDst_.end(),
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 3077fa3..85dd1d8 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From 034d8028ef2ff48edb41fc6f11c9b7742ac51373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:05 +0000
Subject: [PATCH 34/40] fix: associate returns the maximum cliques of the
 correspondence graph

---
 .../correspondence_graph_association.h        |  2 +-
 .../src/correspondence_graph_association.cpp  | 24 +++++++++----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index 5cbb393..cdd8528 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -197,7 +197,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax);
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 85dd1d8..8ebbe67 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -115,7 +115,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -178,18 +179,15 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
-            return;
-        }
-
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) {
         if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+            // Keeps only the maximal cliques with the maximum number of nodes
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size()) {
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
@@ -201,7 +199,7 @@ namespace rofl {
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
             ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From c96662e1a98c61b4727b5ec0f25a61cc91642fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:43 +0000
Subject: [PATCH 35/40] fix: the reflection of a box registration is corrected
 along the last axis

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..4ab7ee5 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d;
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0


From a9a183e77a93787384d871f7f03b4a2e8bc0b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 36/40] fix: HoughLineDetector::insert votes and computes the
 spectrum

---
 geometry/src/hough_line_detector.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..153557a 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -128,7 +128,30 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Scalar rho;
+        Indices2 indices;
+
+        // Computes the Hough Transform (HT) by incrementing counting cells
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            const Vector2& normal = normalLut_[indices[0]];
+            for (auto &p : points) {
+                rho = normal(0) * p(0) + normal(1) * p(1);
+                indices[1] = (int) floor((rho - rhoMin_) / rhoRes_);
+                if (0 <= indices[1] && indices[1] < rhoNum_) {
+                    houghTransform_.value(indices)++;
+                }
+            }
+        }
 
+        // Computes Hough Spectrum (HS)
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            Counter& hsVal = houghSpectrum_[indices[0]];
+            hsVal = 0;
+            for (indices[1] = 0; indices[1] < rhoNum_; ++indices[1]) {
+                Counter htVal = houghTransform_.value(indices);
+                hsVal += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From 65b69d28655a35fc8e0a2d58a41ee9c00b1a21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 37/40] fix: vector_array.h includes the header of size_t

---
 common/include/rofl/common/vector_array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b1b512b..95d8633 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -1,6 +1,7 @@
 #ifndef ROFL_COMMON_VECTOR_ARRAY_H_
 #define ROFL_COMMON_VECTOR_ARRAY_H_
 
+#include <cstddef>
 #include <array>
 
 namespace rofl {
-- 
2.43.0


From fa75d86141c06be0628beb27e0c2ca9077a2b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 38/40] fix: the geometry types use K_2PI of the common
 functions instead of defining another

---
 geometry/include/rofl/geometry/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/types.h b/geometry/include/rofl/geometry/types.h
index 9ccf8b5..75094f6 100755
--- a/geometry/include/rofl/geometry/types.h
+++ b/geometry/include/rofl/geometry/types.h
@@ -34,13 +34,14 @@
 #include <boost/geometry/geometries/register/ring.hpp>
 #include <boost/geometry/geometries/segment.hpp>
 
+#include <rofl/common/functions.h>  // for K_2PI
+
 namespace rofl {
 
 using Scalar = float;
 
 // From C++-20 substitute with: constexpr K_PI = std::numbers::pi_v<float>;
 const Scalar K_PI = 3.141592653589793238463;
-const Scalar K_2PI = 6.28318530718;
 
 using AngleInterval = std::pair<Scalar, Scalar>;
 
-- 
2.43.0


From ce6ab8b5c7be3ef710bfdcd25872d3f1ec9b517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 39/40] fix: the initial estimate of a box registration is a
 rotation, not a reflection

---
 geometry/include/rofl/geometry/box_registration.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 4ab7ee5..fcc03e8 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -233,7 +233,12 @@ namespace rofl {
         std::cout << "eigen values: " << eigenSolver.eigenvalues().transpose() << "\n"
                 << "eigen vectors:\n" << eigenSolver.eigenvectors() << "\n";
 
-        transf.linear() = eigenSolver.eigenvectors() * perm_;
+        // The eigenvectors may be a left-handed frame: the box is the same with an axis inverted
+        SquareMatrix R = eigenSolver.eigenvectors() * perm_;
+        if (R.determinant() < 0) {
+            R.col(0) = -R.col(0);
+        }
+        transf.linear() = R;
         transf.translation() = centroid;
         transf.makeAffine();
     }
-- 
2.43.0


From 0b1db3cd64426b7072be1155196b27dbec0a1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:18 +0000
Subject: [PATCH 40/40] fix: read parameter lines of any length

A line of 2000 or more characters set the stream's failbit, so that line
and every line after it were silently lost.
---
 common/src/param_map.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 59d42f9..64e3767 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -35,9 +35,9 @@ namespace rofl {
         std::string name;
         std::string value;
         std::string length;
-        char buffer[MAX_LEN];
-        while (in.getline(buffer, MAX_LEN)) {
-            std::stringstream ss(buffer);
+        std::string line;
+        while (std::getline(in, line)) {
+            std::stringstream ss(line);
             if (ss >> name >> value) {
                 if (name.empty() || name.at(0) == COMMENT) {
                     continue;
-- 
2.43.0

