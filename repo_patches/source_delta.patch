From c9ec90c6d0755d3e09700c61893262e16eb8b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 01/49] fix: Serie assignment keeps the dimension of the
 assigned Serie

---
 src/Serie.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..57244aa 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -59,6 +59,7 @@ void Serie::reCount(uint32_t c) {
 Serie &Serie::operator=(const Serie &s) {
     count_ = s.count_;
     itemSize_ = s.itemSize_;
+    dimension_ = s.dimension_;
     s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
-- 
2.43.0


From 610c9ae2ca29237f1eac63283d159ed009c9cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 02/49] fix: Serie::clone keeps the dimension and accepts an
 empty Serie of itemSize 0

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 57244aa..5a2e183 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -64,7 +64,7 @@ Serie &Serie::operator=(const Serie &s) {
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return *this; }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
-- 
2.43.0


From 7590c76abde64291c7154591150d9fa00674f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 03/49] fix: building a Serie with itemSize 0 no longer divides
 by zero

---
 src/Serie.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 5a2e183..bf8a59f 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -38,14 +38,14 @@ Serie::Serie(const Serie &s)
 
 Serie::Serie(int itemSize, const Array &values, uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = values;
 }
 
 Serie::Serie(int itemSize, const std::initializer_list<double> &values,
              uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = itemSize > 0 ? values.size() / itemSize : 0;
     s_ = Array(values);
 }
 
-- 
2.43.0


From e0df37e302b0708f6dcd29ce6e1ce7246608dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 04/49] fix: Serie::scalar rejects the index just past the end

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index bf8a59f..521242f 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -96,7 +96,7 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= s_.size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
                                     ">=" + std::to_string(size()));
-- 
2.43.0


From 1d0b2ed172f67f73ffb2c723644db6dff0204295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 05/49] fix: reading a whole item out of range is rejected
 instead of reading past the end

---
 include/dataframe/inline/Serie.hxx | 5 +++++
 src/Serie.cxx                      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..b3efa07 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -115,6 +115,11 @@ template <typename T>
 inline auto Serie::get(uint32_t i) const
     -> std::conditional_t<details::is_array_v<T>, Array, double> {
     if constexpr (details::is_array_v<T>) {
+        if (i >= count_) {
+            throw std::invalid_argument("index out of range (" +
+                                        std::to_string(i) +
+                                        ">=" + std::to_string(count_) + ")");
+        }
         if (itemSize_ == 1) {
             return Array{s_[i]};
         }
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 521242f..8a175b6 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,6 +87,10 @@ void Serie::dump() const {
 }
 
 Array Serie::value(uint32_t i) const {
+    if (i >= count_) {
+        throw std::invalid_argument("index out of range (" + std::to_string(i) +
+                                    ">=" + std::to_string(count_) + ")");
+    }
     auto start = i * itemSize_;
     Array r(itemSize_);
     for (uint32_t j = 0; j < itemSize_; ++j) {
-- 
2.43.0


From 4ebba2c1b3b3b1f443868ffeed1cbb9c19e0aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 06/49] fix: toSerie uses the requested dimension

---
 src/Serie.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 8a175b6..e271412 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -147,7 +147,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From 2fa2e0cbf130f053e15cd0ebb3791050e1336b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 07/49] fix: selecting, splitting, joining and sorting Series
 keep the dimension

---
 include/dataframe/functional/filter.h            |  8 ++++----
 include/dataframe/functional/find.h              |  2 +-
 include/dataframe/functional/merge.h             |  9 ++++++---
 include/dataframe/functional/utils/concat.h      |  2 +-
 include/dataframe/functional/utils/partition.h   | 10 ++++++----
 include/dataframe/functional/utils/partition_n.h |  4 ++--
 include/dataframe/functional/utils/reject.h      |  8 ++++----
 include/dataframe/functional/utils/sort.h        |  4 ++--
 include/dataframe/functional/utils/unzip.h       |  2 +-
 include/dataframe/functional/utils/zip.h         |  5 +++--
 10 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index acac4df..e579b83 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -97,7 +97,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -117,7 +117,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -179,7 +179,7 @@ auto filter(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -253,7 +253,7 @@ Series filterAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto filter_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/find.h b/include/dataframe/functional/find.h
index 0076211..c4fa624 100644
--- a/include/dataframe/functional/find.h
+++ b/include/dataframe/functional/find.h
@@ -106,7 +106,7 @@ template <typename F> Serie findAll(F &&predicate, const Serie &serie) {
     }
 
     // Create result Serie
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         if (serie.itemSize() == 1) {
             result.template set(i, serie.template get<double>(indices[i]));
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index f7512f2..9df525f 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -38,7 +38,8 @@ Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     }
 
     if (concatenate) {
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(),
+                     s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < s1.count(); ++i, ++idx) {
@@ -49,7 +50,8 @@ Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
         }
         return result;
     } else { // Interleave
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(),
+                     s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < std::max(s1.count(), s2.count()); ++i) {
@@ -75,7 +77,8 @@ Serie merge(bool concatenate, const Series &...series) {
 
     uint32_t total_count = (series.count() + ...);
     Serie result(std::get<0>(std::forward_as_tuple(series...)).itemSize(),
-                 total_count);
+                 total_count,
+                 std::get<0>(std::forward_as_tuple(series...)).dimension());
 
     if (concatenate) {
         uint32_t idx = 0;
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..ffc215e 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -50,7 +50,7 @@ Serie concat(const std::vector<Serie> &series) {
         totalCount += s.count();
     }
 
-    Serie result(itemSize, totalCount);
+    Serie result(itemSize, totalCount, series[0].dimension());
     uint32_t currentIndex = 0;
 
     for (const auto &s : series) {
diff --git a/include/dataframe/functional/utils/partition.h b/include/dataframe/functional/utils/partition.h
index 45bc1f4..387ca17 100644
--- a/include/dataframe/functional/utils/partition.h
+++ b/include/dataframe/functional/utils/partition.h
@@ -56,8 +56,8 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(1, matched_indices.size());
-        Serie unmatched(1, unmatched_indices.size());
+        Serie matched(1, matched_indices.size(), serie.dimension());
+        Serie unmatched(1, unmatched_indices.size(), serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<double>(matched_indices[i]));
@@ -78,8 +78,10 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(serie.itemSize(), matched_indices.size());
-        Serie unmatched(serie.itemSize(), unmatched_indices.size());
+        Serie matched(serie.itemSize(), matched_indices.size(),
+                        serie.dimension());
+        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
+                        serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<Array>(matched_indices[i]));
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..4db41eb 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -52,7 +52,7 @@ Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
         uint32_t size = base_size + (i < remainder ? 1 : 0);
-        Serie part(serie.itemSize(), size);
+        Serie part(serie.itemSize(), size, serie.dimension());
         for (uint32_t j = 0; j < size; ++j) {
             part.set(j, serie.get<Array>(start + j));
         }
@@ -99,7 +99,7 @@ auto partition_n(uint32_t n, const Series &...series) {
         uint32_t start = 0;
         for (uint32_t i = 0; i < n; ++i) {
             uint32_t size = base_size + (i < remainder ? 1 : 0);
-            Serie part(s.itemSize(), size);
+            Serie part(s.itemSize(), size, s.dimension());
             for (uint32_t j = 0; j < size; ++j) {
                 part.set(j, s.get<Array>(start + j));
             }
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index 3171e17..a6bb057 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -46,7 +46,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -66,7 +66,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -95,7 +95,7 @@ auto reject(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -140,7 +140,7 @@ Series rejectAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto reject_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 2fb2d1d..fc84d51 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -41,7 +41,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
         }
 
         std::sort(values.begin(), values.end());
-        return Serie(1, values);
+        return Serie(1, values, serie.dimension());
     } else {
         std::vector<Array> values;
         values.reserve(serie.count());
@@ -56,7 +56,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
         for (const auto &v : values) {
             flattened.insert(flattened.end(), v.begin(), v.end());
         }
-        return Serie(serie.itemSize(), flattened);
+        return Serie(serie.itemSize(), flattened, serie.dimension());
     }
 }
 
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b00e8fe..21d219c 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -51,7 +51,7 @@ Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
 
     uint32_t currentIndex = 0;
     for (uint32_t itemSize : itemSizes) {
-        Serie s(itemSize, zipped.count());
+        Serie s(itemSize, zipped.count(), zipped.dimension());
         for (uint32_t i = 0; i < zipped.count(); ++i) {
             if (itemSize == 1) {
                 s.setScalar(
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 55e5f07..60513f1 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -63,7 +63,8 @@ template <typename... Series> Serie zip(const Series &...series) {
     const uint32_t totalItemSize = (... + series.itemSize());
 
     // Create result Serie
-    Serie result(totalItemSize, count);
+    Serie result(totalItemSize, count,
+                 std::get<0>(std::forward_as_tuple(series...)).dimension());
 
     // Helper to copy values from input Series to result
     auto copyValues = [&result](uint32_t itemIndex, const Serie &s) {
@@ -129,7 +130,7 @@ Serie zipVector(const std::vector<Serie> &series) {
     }
 
     // Create result Serie
-    Serie result(totalItemSize, count);
+    Serie result(totalItemSize, count, series[0].dimension());
 
     // Copy values from all input Series
     uint32_t currentIndex = 0;
-- 
2.43.0


From cc4e8caaacbdad76a449c936a293caa3faad75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 08/49] fix: map and elementwise operations keep the dimension
 of their input

---
 include/dataframe/functional/map.h      | 18 ++++++++++--------
 include/dataframe/functional/math/add.h |  2 +-
 include/dataframe/functional/math/sub.h |  2 +-
 src/functional/algebra/eigen.cxx        |  8 ++++----
 src/functional/math/mult.cxx            |  2 +-
 5 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..ff9b44f 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -46,11 +46,11 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 results.push_back(
                     static_cast<double>(cb(serie.template get<double>(i), i)));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Scalar to vector
             if (serie.count() == 0) {
-                return Serie(0, 0);
+                return Serie(0, 0, serie.dimension());
             }
             auto first_result = cb(serie.template get<double>(0), 0);
             size_t itemSize = first_result.size();
@@ -68,7 +68,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     } else {
         // Input is vector
@@ -81,11 +81,11 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
             for (uint32_t i = 0; i < serie.count(); ++i) {
                 results.push_back(cb(serie.template get<Array>(i), i));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Vector to vector
             if (serie.count() == 0) {
-                return Serie(0, 0);
+                return Serie(0, 0, serie.dimension());
             }
             auto first_result = cb(serie.template get<Array>(0), 0);
             size_t itemSize = first_result.size();
@@ -103,7 +103,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     }
 }
@@ -119,6 +119,8 @@ auto map(F &&callback, const Args &...args) {
                       "All arguments after callback must be Series");
 
         auto counts = utils::countAndCheck(args...);
+        const uint dimension =
+            std::get<0>(std::forward_as_tuple(args...)).dimension();
 
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
@@ -133,7 +135,7 @@ auto map(F &&callback, const Args &...args) {
             for (uint32_t i = 1; i < counts[0]; ++i) {
                 results.push_back(callback(args.template get<Array>(i)..., i));
             }
-            result = Serie(1, results);
+            result = Serie(1, results, dimension);
         } else {
             // Callback returns Array
             const size_t itemSize = first_result.size();
@@ -151,7 +153,7 @@ auto map(F &&callback, const Args &...args) {
                 flattened.insert(flattened.end(), result_i.begin(),
                                  result_i.end());
             }
-            result = Serie(itemSize, flattened);
+            result = Serie(itemSize, flattened, dimension);
         }
         return result;
 
diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 0e3a843..36f9658 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -37,7 +37,7 @@ inline Serie add(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 2b97bd7..c40ba95 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -36,7 +36,7 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..5d7428a 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -133,8 +133,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         double eigen_val[2];
         double m[3];
 
-        Serie values(2, serie.count());
-        Serie vectors(4, serie.count());
+        Serie values(2, serie.count(), serie.dimension());
+        Serie vectors(4, serie.count(), serie.dimension());
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             Array mat = serie.get<Array>(i);
@@ -155,8 +155,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         double eigen_val[3];
         double m[6];
 
-        Serie values(3, serie.count());
-        Serie vectors(9, serie.count());
+        Serie values(3, serie.count(), serie.dimension());
+        Serie vectors(9, serie.count(), serie.dimension());
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             Array mat = serie.get<Array>(i);
diff --git a/src/functional/math/mult.cxx b/src/functional/math/mult.cxx
index 04b1c92..83965bc 100644
--- a/src/functional/math/mult.cxx
+++ b/src/functional/math/mult.cxx
@@ -59,7 +59,7 @@ Serie mult(const Serie &serie, const Serie &multiplier) {
         for (uint32_t i = 0; i < a1.size(); ++i) {
             a3[i] = a1[i] * a2[i];
         }
-        return Serie(1, a3);
+        return Serie(1, a3, serie.dimension());
     }
 
     return serie.map(
-- 
2.43.0


From 483f2a161b8523273a56a033393c4caa067fbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 09/49] fix: bins rejects values below the first bin and
 handles empty and constant Series

---
 src/functional/stats/bins.cxx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..1f79ad0 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -31,6 +31,9 @@ namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
     auto [min, max] = math::minMax(serie);
+    if (min.empty()) {
+        return bins(serie, nb, 0, 0);
+    }
     return bins(serie, nb, min[0], max[0]);
 }
 
@@ -48,15 +51,13 @@ Serie bins(const Serie &serie, uint nb, double start, double stop) {
     // binning
     Array b = createArray(nb, 0);
     serie.forEach([&](double v, uint32_t) {
-        uint32_t i = std::trunc((v - start) / size);
-        if (i >= nb) {
-            i = nb - 1;
-        }
-        if (i < 0 || i >= nb) {
+        double pos = size > 0 ? std::trunc((v - start) / size) : 0;
+        if (!(v >= start)) {
             throw std::invalid_argument(
-                "bins: index for bin (" + std::to_string(i) +
+                "bins: index for bin (" + std::to_string(pos) +
                 ") out of bounds (0, " + std::to_string(nb) + ")");
         }
+        uint32_t i = pos >= nb ? nb - 1 : pos;
         b[i]++;
     });
 
-- 
2.43.0


From 40bb506ff8e3b59f71aa46d0be7781d092f0ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 10/49] fix: quantile of an empty Serie is rejected instead of
 reading out of bounds

---
 src/functional/stats/quantile.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..35a58ba 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -39,6 +39,9 @@ double quantile(const Serie &s, double q) {
     if (s.itemSize() != 1) {
         throw std::invalid_argument("quantile algorithm: itemSize must be 1");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile of an empty Serie");
+    }
     if (q < 0 || q > 1) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
-- 
2.43.0


From 70e83784a37e3c30930d4a031a9a6941cba81450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 11/49] fix: normalizing an empty Serie returns an empty Serie

---
 src/functional/math/normalize.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..06894fa 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -37,6 +37,10 @@ Serie normalize(const Serie &serie) {
         throw std::invalid_argument("Serie is invalid");
     }
 
+    if (serie.count() == 0) {
+        return serie;
+    }
+
     if (serie.itemSize() == 1) {
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
-- 
2.43.0


From a93feebeece26bf4b597813361960407e337d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 12/49] fix: minMax of a scalar Serie accounts for infinite
 values

---
 src/functional/math/minMax.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functional/math/minMax.cxx b/src/functional/math/minMax.cxx
index 8804042..c692b87 100644
--- a/src/functional/math/minMax.cxx
+++ b/src/functional/math/minMax.cxx
@@ -37,8 +37,8 @@ MinMax minMax(const Serie &serie) {
 
     if (serie.itemSize() == 1) {
         // Scalar case
-        double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::lowest();
+        double min = std::numeric_limits<double>::infinity();
+        double max = -std::numeric_limits<double>::infinity();
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             double v = serie.template get<double>(i);
-- 
2.43.0


From 459746c29ae424767506f1a325c2000ebfa0b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 13/49] fix: sorting a scalar Serie honours the given
 comparator

---
 include/dataframe/functional/utils/sort.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index fc84d51..3fc6e43 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -40,7 +40,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        std::sort(values.begin(), values.end());
+        if constexpr (std::is_same_v<std::decay_t<Comparator>, std::less<>>) {
+            std::sort(values.begin(), values.end());
+        } else {
+            std::sort(values.begin(), values.end(), [&](double a, double b) {
+                return comp(Array{a}, Array{b});
+            });
+        }
         return Serie(1, values, serie.dimension());
     } else {
         std::vector<Array> values;
-- 
2.43.0


From 2a60020917152aa7a1bf3ea40fb2ef951aeb5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 14/49] fix: mapping over several empty Series gives an empty
 Serie

---
 include/dataframe/functional/map.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index ff9b44f..caee405 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -122,6 +122,13 @@ auto map(F &&callback, const Args &...args) {
         const uint dimension =
             std::get<0>(std::forward_as_tuple(args...)).dimension();
 
+        if (counts[0] == 0) {
+            using ResultType =
+                decltype(callback(args.template get<Array>(0)..., 0));
+            return Serie(std::is_arithmetic_v<ResultType> ? 1 : 0, 0u,
+                         dimension);
+        }
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
-- 
2.43.0


From e28bbb76f9359ccd7609ac20aef112434f5f2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 15/49] fix: Matrix owns its values instead of referring to a
 temporary

---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From 19b034f27ee7cb5fefc921db6c01a865c9d9a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 16/49] fix: Vector::norm no longer accumulates in an int

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From 6483fdf291fcf43244507fb2cb706a4b39bd7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 17/49] fix: Decomposer has a virtual destructor, Manager
 deletes through it

---
 include/dataframe/attributes/Decomposer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..5ac707b 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,7 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
-- 
2.43.0


From e6d7fa1a99a64fced36cf5dae2139933af9a9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 18/49] fix: UserDefinedDecomposer stores its callback instead
 of a dangling reference

---
 include/dataframe/attributes/UserDefinedDecomposer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..0eb26fa 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,13 +41,13 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        std::decay_t<F> cb_;
     };
 
     // ------------------------------------------------------------
 
     template <typename F>
-    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::move(cb))
+    inline UserDefinedDecomposer<F>::UserDefinedDecomposer(uint itemSize, const String &name, F &&cb) : itemSize_(itemSize), name_(name), cb_(std::forward<F>(cb))
     {
     }
 
-- 
2.43.0


From a8c95129729c86c98d4950895c2b7d89c8bf9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 19/49] fix: EigenValues and EigenVectors decomposers resolve
 the names they list

---
 src/attributes/EigenValues.cxx  |  2 +-
 src/attributes/EigenVectors.cxx | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..e5a7125 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -55,7 +55,7 @@ namespace df
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name.empty() ? 0 : name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..3b4b71c 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -50,26 +50,23 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
-            return Serie();
-        }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name.empty() ? 0 : name[name.size() - 1] - '0';
 
         if (serie.isValid() == false) {
             return Serie();
         }
 
         if (serie.dimension() == 2) {
-            if (serie.itemSize() != 3) {
+            if (serie.itemSize() != 3 || itemSize != 2) {
                 return Serie();
             }
             if (id < 1 || id > 2) {
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.itemSize() != 6 || itemSize != 3) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
@@ -77,8 +74,9 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, itemSize](const Array& item, uint32_t) {
+            auto first = item.begin() + (id - 1) * itemSize;
+            return Array(first, first + itemSize);
         });
     }
 
-- 
2.43.0


From dcca3dc40cdc2141dadde6cffe8b6f9b42175f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 20/49] fix: Components picks the component its suffix names
 and bounds it by the itemSize

---
 src/attributes/Components.cxx | 144 ++++++++++------------------------
 1 file changed, 43 insertions(+), 101 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..1cc3b07 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -50,55 +50,56 @@ static Strings smatrix3Names{"xx", "xy", "xz", "yy", "yz", "zz"};
 static Strings matrix3Names{"xx", "xy", "xz", "yx", "yy",
                             "yz", "zx", "zy", "zz"};
 
-Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
-                          const Serie &serie, const String &name) const {
-    if (name == "positions" || name == "indices") {
-        return Strings();
-    }
-
-    // Passed name is, e.g., 'U' && itemSize=3 && dimension=3
-    String sname = nameOfSerie(dataframe, serie);
-    if (name == sname && serie.itemSize() == 1) {
-        return Strings();
-    }
-
-    if (itemSize > 1) {
+// Suffixes of the components of a Serie, in the order of the components.
+// Integers are used when the Serie is neither a vector nor a matrix.
+static Strings suffixes(const Serie &serie) {
+    if (serie.itemSize() <= 1) {
         return Strings();
     }
-
     if (serie.dimension() == 2) {
         switch (serie.itemSize()) {
         case 2:
-            return _map(vector2Names,
-                        [name](const String &n) { return name + n; });
+            return vector2Names;
         case 3:
-            return _map(smatrix2Names, [name](const String &n) { return name + n; });
+            return smatrix2Names;
         case 4:
-            return _map(matrix2Names, [name](const String &n) { return name + n; }
-                       );
+            return matrix2Names;
         }
     } else {
-        Strings result;
-
         switch (serie.itemSize()) {
         case 3:
-            return _map(vector3Names,
-                       [name](const String &n) { return name + n; });
+            return vector3Names;
         case 6:
-            return _map(smatrix3Names,
-                       [name](const String &n) { return name + n; });
+            return smatrix3Names;
         case 9:
-            return _map(matrix3Names,
-                       [name](const String &n) { return name + n; });
+            return matrix3Names;
         }
     }
+    Strings result;
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
+        result.push_back(std::to_string(i));
+    }
+    return result;
+}
 
-    Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
-        names.push_back(name + std::to_string(i));
+Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
+                          const Serie &serie, const String &name) const {
+    if (name == "positions" || name == "indices") {
+        return Strings();
     }
 
-    return names;
+    // Passed name is, e.g., 'U' && itemSize=3 && dimension=3
+    String sname = nameOfSerie(dataframe, serie);
+    if (name == sname && serie.itemSize() == 1) {
+        return Strings();
+    }
+
+    if (itemSize > 1) {
+        return Strings();
+    }
+
+    return _map(suffixes(serie),
+                [name](const String &n) { return name + n; });
 }
 
 Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
@@ -107,76 +108,17 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
         return Serie();
     }
 
-    // vector2 / vector3
-    auto newName = name.substr(0, name.size() - 1);
-    auto serie = dataframe[newName];
-
-    if (serie.isValid()) {
-        if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < vector2Names.size(); ++i) {
-                if (name == newName + vector2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        } else {
-            for (uint32_t i = 0; i < vector3Names.size(); ++i) {
-                if (name == newName + vector3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        }
-    }
-
-    // (smatrix2 and matrix2) / (smatrix3 and matrix3)
-    newName = name.substr(0, name.size() - 2);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        if (serie.dimension() == 2) {
-            for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
-                if (name == newName + smatrix2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-            for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
-                if (name == newName + matrix2Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-        } else {
-            for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
-                if (name == newName + smatrix3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
-            for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
-                if (name == newName + matrix3Names[i]) {
-                    return serie.map([i](const Array &item, uint32_t index) {
-                        return Array{item[i]};
-                    });
-                }
-            }
+    // The name is the one of a stored Serie followed by a suffix
+    for (size_t n = 1; n <= name.size(); ++n) {
+        const Serie &serie = dataframe[name.substr(0, name.size() - n)];
+        if (!serie.isValid()) {
+            continue;
         }
-    }
-
-    // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
-            if (name == newName + std::to_string(i)) {
-                return serie.map([i](const Array &item, uint32_t index) {
-                    return Array{item[i]};
-                });
+        const Strings all = suffixes(serie);
+        for (uint32_t i = 0; i < all.size(); ++i) {
+            if (name.substr(name.size() - n) == all[i]) {
+                return serie.map(
+                    [i](const Array &item, uint32_t) { return item[i]; });
             }
         }
     }
@@ -184,4 +126,4 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     return Serie();
 }
 
-} // namespace df
\ No newline at end of file
+} // namespace df
-- 
2.43.0


From 6eeb83862d9b155e35bfcb744ce9501843035494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 21/49] fix: mesh decomposers only list names they can resolve

---
 src/attributes/Areas.cxx   |  2 +-
 src/attributes/Normals.cxx |  2 +-
 src/attributes/Valence.cxx | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..e248724 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..f67ee39 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..c5324bf 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
@@ -54,16 +54,16 @@ namespace df
 
         const Serie& positions = dataframe["positions"];
         const Serie& indices = dataframe["indices"];
-        if (!positions.isValid() || !indices.isValid()) {
+        if (!positions.isValid() || indices.itemSize() != 3) {
             return Serie();
         }
 
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
-            ids[t[0]]++;
-            ids[t[1]]++;
-            ids[t[2]]++;
+            ids.at(t[0])++;
+            ids.at(t[1])++;
+            ids.at(t[2])++;
         });
 
         return Serie(1, ids);
-- 
2.43.0


From 0f72d47d0535c27369632c39106f8f888536b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 22/49] fix: Coordinates does not read more coordinates than
 positions or names have

---
 src/attributes/Coordinates.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..68bd5fb 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1 || name != "positions") {
             return Strings();
         }
-        return names_;
+        return Strings(names_.begin(), names_.begin() + std::min<size_t>(names_.size(), serie.itemSize()));
     }
 
     Serie Coordinates::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
@@ -46,10 +46,10 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
-                        return Array{item[i]};
+                        return item[i];
                     });
                 }
             }
-- 
2.43.0


From db93841c49b392588d282b96e63cdc3d2dc277e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 23/49] fix: geo::areas divides the norm by two

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 8f71a0a428ab971e8aa3f96a0bb1afda7ef844ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 24/49] fix: norm and norm2 of a scalar Serie are not the value
 itself

---
 src/functional/algebra/norm.cxx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..a1ea4c3 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -38,10 +38,6 @@ Serie norm2(const Serie &s) {
         return Serie();
     }
 
-    if (s.itemSize() == 1) {
-        return s.clone();
-    }
-
     Array data = createArray(1, s.count());
 
     for (uint32_t i = 0; i < s.count(); ++i) {
-- 
2.43.0


From 927eaa40aa57e4e1a491a3593896e7fa8481311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 25/49] fix: dot and cross reject Series that do not match

---
 src/functional/algebra/cross.cxx | 3 +++
 src/functional/algebra/dot.cxx   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/functional/algebra/cross.cxx b/src/functional/algebra/cross.cxx
index 366245c..f64feb7 100644
--- a/src/functional/algebra/cross.cxx
+++ b/src/functional/algebra/cross.cxx
@@ -39,6 +39,9 @@ Serie cross(const Serie &a, const Serie &b) {
     if (b.itemSize() != 3) {
         throw std::invalid_argument("cross: serie b must have itemSize=3");
     }
+    if (a.count() != b.count()) {
+        throw std::invalid_argument("cross: series must have same count");
+    }
 
     return a.map([&](const Array &A, uint32_t i) {
         auto B = b.value(i);
diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..70ceed8 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -27,6 +27,9 @@ namespace df {
 namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
+    if (a.count() != b.count() || a.itemSize() != b.itemSize()) {
+        throw std::invalid_argument("dot: series must have same itemSize and count");
+    }
     uint32_t itemSize = a.itemSize();
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
@@ -39,7 +42,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From 239d278630f0223427efc74162b0e28aba6e15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 26/49] fix: norm2 allocates one value per item instead of
 writing past the end

---
 src/functional/algebra/norm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index a1ea4c3..b184499 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -38,7 +38,7 @@ Serie norm2(const Serie &s) {
         return Serie();
     }
 
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
-- 
2.43.0


From 4aa37f757db289362b0a8affd6a7d73f06c2bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 27/49] fix: sub over several Series subtracts, and add.h and
 sub.h can be included together

---
 include/dataframe/functional/math/add.h |  2 +-
 include/dataframe/functional/math/sub.h | 18 ++++--------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 36f9658..9de5c04 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -66,7 +66,7 @@ template <typename... Series> Serie add(const Series &...series) {
 
     auto first = std::get<0>(std::tuple<const Series &...>(series...));
 
-    Serie result = Serie(first.itemSize(), first.count());
+    Serie result = Serie(first.itemSize(), first.count(), first.dimension());
     ((result = add(result, series)), ...);
     return result;
 }
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index c40ba95..c1fb381 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -54,20 +54,10 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
-
-    Serie result = Serie(first.itemSize(), first.count());
-    ((result = sub(result, series)), ...);
-    return result;
+template <typename... Series>
+Serie sub(const Serie &s1, const Serie &s2, const Serie &s3,
+          const Series &...rest) {
+    return sub(sub(s1, s2), s3, rest...);
 }
 
 MAKE_OP(sub);
-- 
2.43.0


From 01308e17a669e1b16d5ede02f2f25c7117de0fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 28/49] fix: dot.h declares make_dot, and can be included with
 det.h

---
 include/dataframe/functional/algebra/dot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..767d888 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP(dot);
 
 } // namespace algebra
 } // namespace df
-- 
2.43.0


From 3bf14d857a9a48b655ebaa572af30a9f7944bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 29/49] fix: Serie::pipe with a single operation applies it to
 the Serie

---
 include/dataframe/inline/Serie.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index b3efa07..52129e1 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -54,7 +54,7 @@ template <typename F> auto Serie::filter(F &&predicate) const {
 }
 
 template <typename F> auto Serie::pipe(F &&op) const {
-    return df::pipe(op, *this);
+    return df::pipe(*this, op);
 }
 
 template <typename F, typename... Fs>
-- 
2.43.0


From 3124c98693da249855af90799cd5d649399b1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 30/49] fix: partition_n of a single Serie rejects zero parts

---
 include/dataframe/functional/utils/partition_n.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 4db41eb..9ec7008 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -42,6 +42,10 @@ namespace utils {
  * ```
  */
 Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
+
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From 36e4405c14074f7d95556392284a91a3e37e260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 31/49] fix: parallel_execute of an empty Serie gives what the
 sequential call gives

---
 include/dataframe/functional/utils/parallel_execute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..1bddc96 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -69,7 +69,7 @@ Serie parallel_execute(Functor &&fct, const Serie &serie, uint nbCores) {
         throw std::invalid_argument("NnCores must be >= 1");
     }
 
-    if (nbCores == 1) {
+    if (nbCores == 1 || serie.count() == 0) {
         return fct(serie);
     }
 
-- 
2.43.0


From 6e8979f084bb83f3c10dcdcfd44b0d954e4fc1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 32/49] fix: memoize distinguishes inputs by itemSize,
 dimension and exact values

---
 include/dataframe/functional/utils/memoize.h | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..824421c 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -21,6 +21,8 @@
  *
  */
 #pragma once
+#include <cstdint>
+#include <cstring>
 #include <dataframe/Serie.h>
 #include <map>
 #include <utility>
@@ -48,18 +50,16 @@ template <typename F> class Memoized {
 
   private:
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable std::map<std::vector<uint64_t>, Serie> cache;
 
-    // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
-        for (uint32_t i = 0; i < s.count(); ++i) {
-            if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
-            } else {
-                const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
-            }
+    // Helper to create cache key from Series: its shape, then the bits of its
+    // values (doubles are not ordered when there is a NaN, and 0 equals -0)
+    std::vector<uint64_t> make_key(const Serie &s) const {
+        std::vector<uint64_t> key{s.itemSize(), s.count(), s.dimension()};
+        for (double v : s.asArray()) {
+            uint64_t bits;
+            std::memcpy(&bits, &v, sizeof(bits));
+            key.push_back(bits);
         }
         return key;
     }
-- 
2.43.0


From f9d79b681e6fe0550f377e3807f0cfdb441eb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 33/49] fix: stream operators write to the given stream

---
 include/dataframe/inline/Serie.hxx | 16 ++++++++--------
 include/dataframe/types.h          | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 52129e1..384e462 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -67,19 +67,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
     if (s.count() > 0) {
-        std::cerr << "  values   : [";
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..7fba2ad 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -51,15 +51,15 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
     if (a.size() > 0) {
+        o << "[";
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
+        o << a.back() << "]";
     }
     else {
-        std::cout << "[]";
+        o << "[]";
     }
 
     return o;
@@ -67,8 +67,8 @@ inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From eca8010334331078b093c24b011ea25ec1d9918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 34/49] fix: functions defined in headers are inline, so two
 translation units can include them

---
 include/dataframe/functional/geo/cartesian_grid.h | 2 +-
 include/dataframe/functional/merge.h              | 2 +-
 include/dataframe/functional/utils/concat.h       | 2 +-
 include/dataframe/functional/utils/partition_n.h  | 2 +-
 include/dataframe/functional/utils/unzip.h        | 2 +-
 include/dataframe/functional/utils/zip.h          | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/functional/geo/cartesian_grid.h b/include/dataframe/functional/geo/cartesian_grid.h
index 9073fca..bd4e657 100644
--- a/include/dataframe/functional/geo/cartesian_grid.h
+++ b/include/dataframe/functional/geo/cartesian_grid.h
@@ -110,7 +110,7 @@ inline Serie from_dims(const std::vector<uint32_t> &npts,
  * auto cube = df::grid::cartesian::from_points({3,3,3}, {0,0,0}, {1,1,1});
  * ```
  */
-Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
+inline Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
                             const Array &p2) {
     if (npts.empty() || npts.size() > 3) {
         throw std::invalid_argument("npts must have 1, 2 or 3 components");
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index 9df525f..9193755 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -32,7 +32,7 @@ namespace df {
 /**
  * If concatenate is false, interleave is used to merge the series
  */
-Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
+inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     if (s1.itemSize() != s2.itemSize()) {
         throw std::invalid_argument("Series must have same itemSize");
     }
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index ffc215e..94fa74b 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -33,7 +33,7 @@ namespace utils {
 /**
  * Concatenate 2 or more series
  */
-Serie concat(const std::vector<Serie> &series) {
+inline Serie concat(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("concat requires at least one Serie");
     }
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 9ec7008..bfa9693 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -41,7 +41,7 @@ namespace utils {
  *  // parts[2]: {8,9,10}
  * ```
  */
-Series partition_n(uint32_t n, const Serie &serie) {
+inline Series partition_n(uint32_t n, const Serie &serie) {
     if (n == 0) {
         throw std::invalid_argument("n must be > 0");
     }
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index 21d219c..b028d91 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -35,7 +35,7 @@ namespace utils {
  * @param itemSizes Vector containing the itemSize for each output Serie
  * @return Series The unzipped Series
  */
-Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
+inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
     if (itemSizes.empty()) {
         throw std::invalid_argument("itemSizes cannot be empty");
     }
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 60513f1..c225701 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -109,7 +109,7 @@ MAKE_OP(zip);
  * auto result = zipVector(series);
  * ```
  */
-Serie zipVector(const std::vector<Serie> &series) {
+inline Serie zipVector(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("zipVector requires at least one Serie");
     }
-- 
2.43.0


From 6794e03ef67f70e0c7cb60b96de38e5f69033c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 35/49] fix: unzip rejects item sizes whose sum wraps around

---
 include/dataframe/functional/utils/unzip.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b028d91..fcca39e 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -40,8 +40,8 @@ inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes)
         throw std::invalid_argument("itemSizes cannot be empty");
     }
 
-    uint32_t totalItemSize =
-        std::accumulate(itemSizes.begin(), itemSizes.end(), 0u);
+    uint64_t totalItemSize =
+        std::accumulate(itemSizes.begin(), itemSizes.end(), uint64_t{0});
     if (totalItemSize != zipped.itemSize()) {
         throw std::invalid_argument("Total itemSize mismatch");
     }
-- 
2.43.0


From b63f9e6544a218354a167080370d659d62972b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 36/49] fix: a Serie stored under the empty name is contained
 in its Dataframe

---
 src/Dataframe.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Dataframe.cxx b/src/Dataframe.cxx
index f1385f0..4dc4a33 100644
--- a/src/Dataframe.cxx
+++ b/src/Dataframe.cxx
@@ -22,7 +22,6 @@
  */
 
 #include <dataframe/Dataframe.h>
-#include <dataframe/utils/nameOfSerie.h>
 #include <iostream>
 
 namespace df
@@ -133,8 +132,14 @@ namespace df
 
     bool Dataframe::contains(const Serie &serie) const
     {
-        String name = nameOfSerie(*this, serie);
-        return name.size() == 0 ? false : true;
+        for (auto it = series_.cbegin(); it != series_.cend(); ++it)
+        {
+            if (&it->second == &serie)
+            {
+                return true;
+            }
+        }
+        return false;
     }
 
     bool Dataframe::contains(const String &name) const
-- 
2.43.0


From e272adc32020eb5f6f99c70f5ba5047a0c48cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 37/49] fix: Manager::serie lets a decomposer of another item
 size hide the right one

---
 src/attributes/Manager.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index 6786242..8201d8d 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -71,15 +71,22 @@ namespace df
             }
         }
 
+        // A decomposer answering with another item size never hides one which
+        // has the requested item size
+        Serie other;
         for (auto d : ds_)
         {
             Serie serie = d->serie(df_, itemSize, name);
-            if (serie.isValid())
+            if (serie.isValid() && serie.itemSize() == itemSize)
             {
                 return serie;
             }
+            if (serie.isValid() && !other.isValid())
+            {
+                other = serie;
+            }
         }
-        return Serie();
+        return other;
     }
 
     Strings Manager::names(uint32_t itemSize) const
-- 
2.43.0


From a661b5865210db7cc3f408a643b74c24e2cbb106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 38/49] fix: mult rejects a multiplier of another item size
 also when there are no items

---
 src/functional/math/mult.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/functional/math/mult.cxx b/src/functional/math/mult.cxx
index 83965bc..d2778f4 100644
--- a/src/functional/math/mult.cxx
+++ b/src/functional/math/mult.cxx
@@ -62,6 +62,14 @@ Serie mult(const Serie &serie, const Serie &multiplier) {
         return Serie(1, a3, serie.dimension());
     }
 
+    if (multiplier.itemSize() != 1 &&
+        multiplier.itemSize() != serie.itemSize()) {
+        throw std::invalid_argument(
+            "(math/mult) itemSize of multiplier should be the same as the "
+            "serie's itemSize. Got " +
+            std::to_string(multiplier.itemSize()));
+    }
+
     return serie.map(
         [serie, multiplier](const Array &a, uint32_t i) { // ieme item
             if (multiplier.itemSize() == 1) {
@@ -72,12 +80,6 @@ Serie mult(const Serie &serie, const Serie &multiplier) {
                 }
                 return r;
             } else {
-                if (multiplier.itemSize() != serie.itemSize()) {
-                    throw std::invalid_argument(
-                        "(math/mult) itemSize of multiplier should be teh same "
-                        "as the serie's itemSize. Got " +
-                        std::to_string(multiplier.itemSize()));
-                }
                 Array d = multiplier.value(i);
                 Array r = a;
                 for (uint32_t j = 0; j < a.size(); ++j) {
-- 
2.43.0


From 8d7deedc406409b6a5002fe4e087c870602cf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 39/49] fix: inv of a full matrix computes entry (2,3) from its
 own cofactor

---
 src/functional/algebra/inv.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/inv.cxx b/src/functional/algebra/inv.cxx
index 23ef040..d7da24f 100644
--- a/src/functional/algebra/inv.cxx
+++ b/src/functional/algebra/inv.cxx
@@ -87,7 +87,7 @@ Serie inv(const Serie &serie) {
         inv[2] = (xy * yz - xz * yy) * invDet; // xz
         inv[3] = (yz * zx - yx * zz) * invDet; // yx
         inv[4] = (xx * zz - xz * zx) * invDet; // yy
-        inv[5] = (zx * xy - xx * zy) * invDet; // yz
+        inv[5] = (yx * xz - xx * yz) * invDet; // yz
         inv[6] = (yx * zy - yy * zx) * invDet; // zx
         inv[7] = (xy * zx - xx * zy) * invDet; // zy
         inv[8] = (xx * yy - xy * yx) * invDet; // zz
-- 
2.43.0


From b0650dfdc6c211b116acb51e7db84e65857fce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 40/49] fix: eigen functions reject a dimension other than 2 or
 3 instead of reading past the item

---
 src/functional/algebra/eigen.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index 5d7428a..bab0092 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -29,7 +29,8 @@ namespace algebra {
 void symmetricEigen(const double *, int, double *, double *);
 
 Serie eigenValues(const Serie &serie) {
-    if (serie.dimension() == 2 && serie.itemSize() != 3) {
+    if ((serie.dimension() != 2 && serie.dimension() != 3) ||
+        (serie.dimension() == 2 && serie.itemSize() != 3)) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
@@ -68,7 +69,8 @@ Serie eigenValues(const Serie &serie) {
 }
 
 Serie eigenVectors(const Serie &serie) {
-    if (serie.dimension() == 2 && serie.itemSize() != 3) {
+    if ((serie.dimension() != 2 && serie.dimension() != 3) ||
+        (serie.dimension() == 2 && serie.itemSize() != 3)) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
@@ -118,7 +120,8 @@ Serie eigenVectors(const Serie &serie) {
  * ```
  */
 EigenSystem eigenSystem(const Serie &serie) {
-    if (serie.dimension() == 2 && serie.itemSize() != 3) {
+    if ((serie.dimension() != 2 && serie.dimension() != 3) ||
+        (serie.dimension() == 2 && serie.itemSize() != 3)) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-- 
2.43.0


From 0d0884e135375603115a8d6ecd7817f37a811fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 41/49] fix: quantile rejects a level that is not a number

---
 src/functional/stats/quantile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index 35a58ba..a3e5648 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -42,7 +42,7 @@ double quantile(const Serie &s, double q) {
     if (s.count() == 0) {
         throw std::invalid_argument("quantile of an empty Serie");
     }
-    if (q < 0 || q > 1) {
+    if (!(q >= 0 && q <= 1)) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
 
-- 
2.43.0


From 3492f2548754778ecd16013e0a89dbf12b445663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 42/49] fix: Vector operations reject vectors of another length
 instead of reading past their end

---
 src/view/Vector.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index dbdeb05..df41e39 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -23,6 +23,7 @@
 #include <dataframe/view/Vector.h>
 #include <cmath>
 #include <numeric>
+#include <stdexcept>
 
 namespace df
 {
@@ -81,6 +82,10 @@ namespace df
 
     Vector &Vector::mult(const Vector &s)
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for product vector vector");
+        }
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x * s[id++]; };
@@ -90,6 +95,10 @@ namespace df
 
     Vector &Vector::add(const Vector &s)
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for sum vector vector");
+        }
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x + s[id++]; };
@@ -99,6 +108,10 @@ namespace df
 
     Vector &Vector::sub(const Vector &s)
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for difference vector vector");
+        }
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x - s[id++]; };
@@ -108,6 +121,10 @@ namespace df
 
     double Vector::dot(const Vector &s) const
     {
+        if (s.length() != length())
+        {
+            throw std::invalid_argument("size mismatch for product vector vector");
+        }
         double d = 0;
         for (uint32_t i = 0; i < v_.size(); ++i)
         {
-- 
2.43.0


From 52d0fe584174cbe34c0b59c4017c1576593b1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 43/49] fix: Valence lists its name for every mesh of triangles
 it can resolve, whatever the size of the positions

---
 src/attributes/Valence.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index c5324bf..a139bdd 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
+        if (!dataframe["positions"].isValid() || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
-- 
2.43.0


From 04615b726efa1fc273ac7c63b46033df6b4edf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 44/49] fix: if_then_else compiles, and applies the function
 its check chooses to each item

---
 include/dataframe/functional/conditional/if.h | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c69728d..199e823 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,7 +22,10 @@
  */
 
 #pragma once
-#include "../Serie.h"
+#include <dataframe/Serie.h>
+#include <dataframe/functional/map.h>
+#include <type_traits>
+#include <utility>
 
 namespace df {
 namespace cond {
@@ -55,16 +58,36 @@ namespace cond {
 template <typename Check, typename True, typename False>
 Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
                    False &&false_fn) {
-    return map(serie, [check_fn = std::forward<Check>(check_fn),
-                       true_fn = std::forward<True>(true_fn),
-                       false_fn = std::forward<False>(false_fn),
-                       &serie](const auto &value, uint32_t i) {
-        return check_fn(value) ? true_fn(value, i, serie)
-                               : false_fn(value, i, serie);
-    });
+    if constexpr (std::is_invocable_v<Check, const Array &>) {
+        // Input is vector
+        return map(
+            [&](const Array &value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    } else {
+        // Input is scalar
+        return map(
+            [&](double value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    }
 }
 
-MAKE_OP(if_then_else);
+/**
+ * @brief Creates a reusable if_then_else function
+ */
+template <typename Check, typename True, typename False>
+auto make_if_then_else(Check &&check_fn, True &&true_fn, False &&false_fn) {
+    return [check_fn = std::forward<Check>(check_fn),
+            true_fn = std::forward<True>(true_fn),
+            false_fn = std::forward<False>(false_fn)](const Serie &serie) {
+        return if_then_else(serie, check_fn, true_fn, false_fn);
+    };
+}
 
 } // namespace cond
 } // namespace df
-- 
2.43.0


From 38f76ecfa136c81f532c225de5a36ac2d1931e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 45/49] fix: MAKE_OP also serves operations that take the Serie
 first

---
 include/dataframe/functional/macros.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/macros.h b/include/dataframe/functional/macros.h
index 8098925..4e8e6b4 100644
--- a/include/dataframe/functional/macros.h
+++ b/include/dataframe/functional/macros.h
@@ -41,5 +41,11 @@
     template <typename F> \
     auto make_##op(F &&cb) \
     { \
-        return [cb = std::forward<F>(cb)](const auto &serie) { return op(cb, serie); }; \
+        return [cb = std::forward<F>(cb)](const auto &serie) { \
+            if constexpr (requires { op(cb, serie); }) { \
+                return op(cb, serie); \
+            } else { \
+                return op(serie, cb); \
+            } \
+        }; \
     }
-- 
2.43.0


From 0a5bfc607260996f9c3b4afcd9efdcbad60988d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 46/49] fix: make_filter, make_filterAll and make_rejectAll
 apply to several Series

---
 include/dataframe/functional/filter.h       | 8 ++++----
 include/dataframe/functional/utils/reject.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index e579b83..2996ed5 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -204,8 +204,8 @@ template <typename F> auto make_filter(F &&cb) {
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Filter predicate must return bool");
 
-    return [cb = std::forward<F>(cb)](const auto &serie) {
-        return filter(cb, serie);
+    return [cb = std::forward<F>(cb)](const auto &...series) {
+        return filter(cb, series...);
     };
 }
 
@@ -270,8 +270,8 @@ template <typename F> auto make_filterAll(F &&cb) {
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Filter predicate must return bool");
 
-    return [cb = std::forward<F>(cb)](const auto &serie) {
-        return filterAll(cb, serie);
+    return [cb = std::forward<F>(cb)](const auto &...series) {
+        return filterAll(cb, series...);
     };
 }
 
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index a6bb057..f219dbc 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -157,8 +157,8 @@ template <typename F> auto make_rejectAll(F &&cb) {
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Reject predicate must return bool");
 
-    return [cb = std::forward<F>(cb)](const auto &serie) {
-        return rejectAll(cb, serie);
+    return [cb = std::forward<F>(cb)](const auto &...series) {
+        return rejectAll(cb, series...);
     };
 }
 
-- 
2.43.0


From 0f1a36981dc041dd3458b9779445e76f23c30846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 47/49] fix: approximatelyEqualsAll compiles for three Series
 and more

---
 include/dataframe/functional/math/equals.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/functional/math/equals.h b/include/dataframe/functional/math/equals.h
index 00a883f..5aabe16 100644
--- a/include/dataframe/functional/math/equals.h
+++ b/include/dataframe/functional/math/equals.h
@@ -26,6 +26,7 @@
 #include <cmath>
 #include <dataframe/Serie.h>
 #include <limits>
+#include <type_traits>
 
 namespace df {
 namespace math {
@@ -96,14 +97,21 @@ inline bool approximatelyEqualsAll(const Serie &serie,
 
 /**
  * @brief Recursive case for approximatelyEqualsAll
+ * @param rest The other Series, possibly followed by the epsilon
  */
-template <typename... Series>
+template <typename... Rest>
 bool approximatelyEqualsAll(const Serie &first, const Serie &second,
-                            const Series &...rest,
-                            double epsilon = DEFAULT_EPSILON) {
+                            const Rest &...rest) {
+    double epsilon = DEFAULT_EPSILON;
+    (
+        [&epsilon](const auto &arg) {
+            if constexpr (std::is_arithmetic_v<std::decay_t<decltype(arg)>>)
+                epsilon = arg;
+        }(rest),
+        ...);
     if (!approximatelyEquals(first, second, epsilon))
         return false;
-    return approximatelyEqualsAll(second, rest..., epsilon);
+    return approximatelyEqualsAll(second, rest...);
 }
 
 /**
-- 
2.43.0


From 4dfbfb53c382ac9ae1492581ad4b0a06c0c98e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 48/49] fix: add and mult accept an int or a number first, so
 make_add and make_mult do too

---
 include/dataframe/functional/math/add.h  | 8 +++++++-
 include/dataframe/functional/math/mult.h | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 9de5c04..88c900e 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -23,7 +23,9 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/macros.h>
 #include <dataframe/utils.h>
+#include <type_traits>
 
 namespace df {
 namespace math {
@@ -55,7 +57,11 @@ inline Serie add(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
+inline Serie add(double v, const Serie &serie) { return add(serie, v); }
+
+template <typename... Series>
+    requires(std::is_same_v<Series, Serie> && ...)
+Serie add(const Series &...series) {
     if constexpr (sizeof...(series) < 1) {
         throw std::invalid_argument(
             "Number of arguments (Serie) must be greater than 1. Got " +
diff --git a/include/dataframe/functional/math/mult.h b/include/dataframe/functional/math/mult.h
index 1025ff0..7848000 100644
--- a/include/dataframe/functional/math/mult.h
+++ b/include/dataframe/functional/math/mult.h
@@ -31,6 +31,8 @@ namespace math {
 Serie mult(const Serie &serie, double);
 Serie mult(const Serie &serie, const Serie &divider);
 
+inline Serie mult(double v, const Serie &serie) { return mult(serie, v); }
+
 MAKE_OP(mult);
 
 // TODO:
-- 
2.43.0


From d254c965a336c70abe226efed390c4554eeaa4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 49/49] fix: Serie::dump threw for scalar Series

---
 src/Serie.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index e271412..140b4cb 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -75,13 +75,13 @@ uint32_t Serie::itemSize() const { return itemSize_; }
 uint Serie::dimension() const { return dimension_; }
 
 void Serie::dump() const {
-    forEach([](const Array &t, uint32_t i) {
+    for (uint32_t i = 0; i < count_; ++i) {
         std::cerr << i << ": ";
-        for (auto tt : t) {
+        for (auto tt : value(i)) {
             std::cerr << tt << " ";
         }
         std::cerr << std::endl;
-    });
+    }
 
     std::cerr << std::endl;
 }
-- 
2.43.0

