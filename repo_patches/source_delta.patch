From 1ac449a84ededa0336f009f4068abbaad24460a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 01/13] fix: NICH add_repeated_value on a nonempty group

The mean moves by count * (value - mean) / total, not by
(count * value - mean) / total, and the sum of squares by count times
the product of the two deviations.
---
 distributions/dbg/models/nich.py      | 6 +++---
 distributions/hp/models/nich.pyx      | 6 +++---
 include/distributions/models/nich.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 69c3d0c..874b147 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -139,9 +139,9 @@ class Group(GroupIoMixin):
 
     def add_repeated_value(self, shared, value, count):
         self.count += count
-        delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        delta = value - self.mean
+        self.mean += delta * count / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 622b296..6be1574 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -134,9 +134,9 @@ cdef class _Group:
 
     def add_repeated_value(self, _Shared shared, double value, int count):
         self.count += count
-        cdef double delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        cdef double delta = value - self.mean
+        self.mean += delta * count / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 1283ef3..6b6d923 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -138,9 +138,9 @@ struct Group : GroupMixin<Model> {
             const int & count,
             rng_t &) {
         this->count += count;
-        float delta = count * value - mean;
-        mean += delta / this->count;
-        count_times_variance += delta * (value - mean);
+        float delta = value - mean;
+        mean += delta * count / this->count;
+        count_times_variance += count * delta * (value - mean);
     }
 
     void remove_value(
-- 
2.43.0


From 08ef6786031e7257c0c291dcdc0596dec889bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 02/13] fix: merging two empty NICH groups

The merged mean was 0 / 0.
---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 874b147..b9adab4 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -157,6 +157,8 @@ class Group(GroupIoMixin):
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, shared, source):
+        if source.count == 0:
+            return
         count = self.count + source.count
         delta = source.mean - self.mean
         source_part = float(source.count) / count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 6be1574..2d444d5 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -152,6 +152,8 @@ cdef class _Group:
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, _Shared shared, _Group source):
+        if source.count == 0:
+            return
         cdef size_t count = self.count + source.count
         cdef double delta = source.mean - self.mean
         cdef double source_part = <double> source.count / count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 6b6d923..26a4ae9 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -168,6 +168,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        if (source.count == 0) {
+            return;
+        }
         auto total_count = count + source.count;
         float delta = source.mean - mean;
         float source_part = static_cast<float>(source.count) / total_count;
-- 
2.43.0


From 1d0b9032171dd53c6da0f848ae9cbb307f5925c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 03/13] fix: DirichletDiscrete Group::merge updates count_sum

Scorers of a merged group used the old total.
---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index feb81e9..ec05c23 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -155,6 +155,7 @@ struct Group : GroupMixin<Model> {
         for (Value value = 0; value < dim; ++value) {
             counts[value] += source.counts[value];
         }
+        count_sum += source.count_sum;
     }
 
     float score_value(
-- 
2.43.0


From 55843ece2456008d8fb2c6f71b7683798ac850c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 04/13] fix: merging sparse counters counted the total twice

add() already updates the total for every key merged.
---
 distributions/dbg/models/dpd.py  | 1 -
 include/distributions/sparse.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 7aec7cd..22ae180 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -229,7 +229,6 @@ class Group(GroupIoMixin):
     def merge(self, shared, source):
         for i, count in source.counts.iteritems():
             self.add_repeated_value(shared, i, count)
-        self.total += source.total
 
     def load(self, raw):
         self.counts = {}
diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 17723a8..7939b15 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -164,7 +164,6 @@ class SparseCounter {
         for (auto & i : other.map_) {
             add(i.first, i.second);
         }
-        total_ += other.total_;
     }
 
     void rename(key_t old_key, key_t new_key) {
-- 
2.43.0


From 8895a43ebe25440fd84efc4e5ca7163e5f1275de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 05/13] fix: a new SparseCounter has total zero

The total was left uninitialised until clear() was called.
---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 7939b15..d6746e5 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -120,6 +120,8 @@ class SparseCounter {
     typedef Value value_t;
     typedef typename map_t::const_iterator iterator;
 
+    SparseCounter() : total_(0) {}
+
     void clear() {
         map_.clear();
         total_ = 0;
-- 
2.43.0


From c9c1f28197f7aef1edeac99aacca58583f41105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 06/13] fix: LowEntropy.score_remove_value scores the reduced
 state

---
 distributions/dbg/clustering.py      | 3 +++
 include/distributions/clustering.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index c576a4e..1c3aa98 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -226,6 +226,9 @@ class LowEntropy(SharedIoMixin):
         assert sample_size > 0
 
         group_size -= 1
+        if group_size == 0:
+            nonempty_group_count -= 1
+        sample_size -= 1
         return -self.score_add_value(
             group_size,
             nonempty_group_count,
diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index b13d554..d782993 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -301,6 +301,11 @@ struct LowEntropy {
         }
 
         group_size -= 1;
+        if (group_size == 0) {
+            nonempty_group_count -= 1;
+        }
+        sample_size -= 1;
+
         return -score_add_value(
             group_size,
             nonempty_group_count,
-- 
2.43.0


From 496a433e728fd3fd6ce2faa91bf312f0c0bbc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 07/13] fix: LowEntropy.score_counts ignores empty groups and
 scores empty data

---
 distributions/dbg/clustering.py | 7 +++++--
 src/clustering.cc               | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index 1c3aa98..d14f5d0 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -154,15 +154,18 @@ class LowEntropy(SharedIoMixin):
         '''
         score = 0.0
         sample_size = 0
+        nonempty_group_count = 0
         for count in counts:
             sample_size += count
+            if count:
+                nonempty_group_count += 1
             if count > 1:
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
-        if sample_size != self.dataset_size:
+        if sample_size != 0 and sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
-            score += log_factor * (len(counts) - 1)
+            score += log_factor * (nonempty_group_count - 1)
             score += self._approximate_dataprob_correction(sample_size)
         score -= self.log_partition_function(sample_size)
         return score
diff --git a/src/clustering.cc b/src/clustering.cc
index 8578081..c536037 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -230,17 +230,21 @@ float Clustering<count_t>::LowEntropy::score_counts(
         const std::vector<count_t> & counts) const {
     float score = 0.0;
     count_t sample_size = 0;
+    count_t nonempty_group_count = 0;
     for (count_t count : counts) {
         sample_size += count;
+        if (count) {
+            nonempty_group_count += 1;
+        }
         if (count > 1) {
             score += count * fast_log(count);
         }
     }
     DIST_ASSERT_LE(sample_size, dataset_size);
 
-    if (sample_size != dataset_size) {
+    if (sample_size != 0 and sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
-        score += log_factor * (counts.size() - 1);
+        score += log_factor * (nonempty_group_count - 1);
         score += _approximate_dataprob_correction(sample_size);
     }
     score -= log_partition_function(sample_size);
-- 
2.43.0


From fd1810056f1deb7b02aef6d8fe904f02f8e0a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 08/13] fix: SparseCounter::rename erased the old key before
 rejecting a duplicate new key

---
 include/distributions/sparse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index d6746e5..9b0c0e1 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -172,9 +172,11 @@ class SparseCounter {
         auto i = map_.find(old_key);
         if (i != map_.end()) {
             value_t value = i->second;
+            DIST_ASSERT1(
+                new_key == old_key or map_.find(new_key) == map_.end(),
+                "duplicate key: " << new_key);
             map_.erase(i);
-            bool success = map_.insert(std::make_pair(new_key, value)).second;
-            DIST_ASSERT1(success, "duplicate key: " << new_key);
+            map_.insert(std::make_pair(new_key, value));
         }
     }
 
-- 
2.43.0


From 804f976c3823cf65def54d15f2e26148b6a0465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 09/13] fix: fast_exp clamps arguments that do not fit in an
 int

---
 include/distributions/vendor/fmath.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/distributions/vendor/fmath.hpp b/include/distributions/vendor/fmath.hpp
index b7bc029..f5a68bb 100644
--- a/include/distributions/vendor/fmath.hpp
+++ b/include/distributions/vendor/fmath.hpp
@@ -444,10 +444,11 @@ inline float exp(float x)
 #if 1
 	__m128 x1 = _mm_set_ss(x);
 
-	int limit = _mm_cvtss_si32(x1) & 0x7fffffff;
-	if (limit > ExpVar<>::f88) {
-		x1 = _mm_min_ss(x1, _mm_load_ss(expVar.maxX));
-		x1 = _mm_max_ss(x1, _mm_load_ss(expVar.minX));
+	// the conversion yields INT_MIN when x does not fit in an int
+	int limit = _mm_cvtss_si32(x1);
+	if (limit > ExpVar<>::f88 || limit < 0) {
+		x1 = _mm_min_ss(_mm_load_ss(expVar.maxX), x1);
+		x1 = _mm_max_ss(_mm_load_ss(expVar.minX), x1);
 	}
 
 	int r = _mm_cvtss_si32(_mm_mul_ss(x1, _mm_load_ss(expVar.a)));
-- 
2.43.0


From da566a7ac1eb0c43e54823c37e0a9e5b9af6bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 10/13] fix: sample_normal_inverse_wishart scales only the
 covariance of the mean by 1/lambda

---
 include/distributions/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index c4b8e59..f1a6822 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -253,8 +253,9 @@ inline std::pair<Vector, Matrix> sample_normal_inverse_wishart(
         const Matrix & psi,
         float nu,
         rng_t & rng) {
-    Matrix cov = 1./lambda * sample_inverse_wishart(nu, psi, rng);
-    Vector mu = sample_multivariate_normal(mu0, cov, rng);
+    Matrix cov = sample_inverse_wishart(nu, psi, rng);
+    const Matrix mu_cov = cov / lambda;
+    Vector mu = sample_multivariate_normal(mu0, mu_cov, rng);
     return std::make_pair(std::move(mu), std::move(cov));
 }
 
-- 
2.43.0


From 0ccebc4dc1963cfb1c4eefdcffa4168b95eed35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 11/13] fix: fast_log_factorial of the largest count must not
 wrap to lgamma(0)

n + 1 was computed in uint32_t, so n = 0xFFFFFFFF gave lgamma(0) = inf.
---
 include/distributions/special.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 1781e32..64067bd 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -209,7 +209,7 @@ inline float fast_log_factorial(const uint32_t & n) {
     if (n < 64) {
         return detail::log_factorial_table[n];
     } else {
-        return fast_lgamma(n + 1);
+        return fast_lgamma(n + 1.0);
     }
 }
 
-- 
2.43.0


From 783240ea6e0131bd77af355b84ada96a0b61bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 12/13] fix: fast_exp must clamp large arguments as documented

The clamp compared the integer part of x with the bit pattern of 88.0f,
so arguments above 88 were never clamped and fast_exp(96) was negative.
---
 include/distributions/vendor/fmath.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/distributions/vendor/fmath.hpp b/include/distributions/vendor/fmath.hpp
index f5a68bb..44c6fdb 100644
--- a/include/distributions/vendor/fmath.hpp
+++ b/include/distributions/vendor/fmath.hpp
@@ -446,7 +446,7 @@ inline float exp(float x)
 
 	// the conversion yields INT_MIN when x does not fit in an int
 	int limit = _mm_cvtss_si32(x1);
-	if (limit > ExpVar<>::f88 || limit < 0) {
+	if (limit > 88 || limit < 0) {
 		x1 = _mm_min_ss(_mm_load_ss(expVar.maxX), x1);
 		x1 = _mm_max_ss(_mm_load_ss(expVar.minX), x1);
 	}
-- 
2.43.0


From 4a54d687244a7069838846bcc2874cc9f3ccedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 13/13] fix: sample_invwishart passed floats as array shapes
 and raised TypeError

---
 distributions/vendor/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/vendor/stats.py b/distributions/vendor/stats.py
index 7fbbac6..12d6758 100644
--- a/distributions/vendor/stats.py
+++ b/distributions/vendor/stats.py
@@ -165,10 +165,10 @@ def sample_invwishart(S,nu):
     chol = np.linalg.cholesky(S)
 
     if (nu <= 81+n) and (nu == np.round(nu)):
-        x = np.random.randn(nu,n)
+        x = np.random.randn(int(nu),n)
     else:
         x = np.diag(np.sqrt(np.atleast_1d(stats.chi2.rvs(nu-np.arange(n)))))
-        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)/2)
+        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)//2)
     R = np.linalg.qr(x,'r')
     T = scipy.linalg.solve_triangular(R.T,chol.T,lower=True).T
     return np.dot(T,T.T)
-- 
2.43.0

