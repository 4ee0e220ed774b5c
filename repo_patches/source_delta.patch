From 020fbc73dd41af7a69cf7cf2ce1fe173d7fbe0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:30 +0000
Subject: [PATCH 01/11] fix: range and knot number of even order interpolation

load_knots() took an interior knot as the upper end of the range of an
aperiodic dimension of even order, so at() and derivative_at() rejected valid
coordinates. The offset was there to make up for a superfluous knot of even
order periodic dimensions, which in turn let a coordinate wrapped onto the end
of the range select a segment without control points (out of bounds read with
INTP_CELL_LAYOUT) and gave eval_proxy() wrong strides in 2D or higher.
---
 src/include/BSpline.hpp       | 2 +-
 src/include/Interpolation.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..aa539c9 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,7 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1];
     }
 
 #ifdef INTP_CELL_LAYOUT
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..bd71a80 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -335,15 +335,17 @@ class InterpolationFunction {
         dx_[dim_ind] =
             (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
 
-        const size_t extra = periodic ? 2 * order + (1 - order % 2) : order + 1;
+        const size_t extra = periodic ? 2 * order : order + 1;
 
         std::vector<coord_type> xs(n + extra, x_range.first);
 
         if (periodic) {
+            // knots of even order spline locate in the middle of data points
             for (size_type i = 0; i < xs.size(); ++i) {
                 xs[i] = x_range.first +
                         (static_cast<coord_type>(i) -
-                         coord_type{.5} * static_cast<coord_type>(extra)) *
+                         coord_type{.5} * static_cast<coord_type>(
+                                              extra + (1 - order % 2))) *
                             dx_[dim_ind];
             }
         } else {
@@ -392,7 +394,7 @@ class InterpolationFunction {
         (void)mesh_dimension;
 #endif
         typename spline_type::KnotContainer xs(
-            periodic ? n + 2 * order + (1 - order % 2) : n + order + 1);
+            periodic ? n + 2 * order : n + order + 1);
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-- 
2.43.0


From 7cd04ef988aeab0785fbe198c338b9707e6d60d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 02/11] fix: BandMatrix multiplication used the transposed
 storage

operator*() read bands_(i, j) as the j-th band element of row i, but bands are
aligned by column, so the result was the product with the transposed matrix
(and out of bounds for unequal band widths).
---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..db65499 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += operator()(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From 852bf72e3c55e5299da27359ce7d5896536f147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 03/11] fix: BandLU::compute must not move from an lvalue
 matrix

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..046fb73 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From 16403470cc0ae64ed72f8c032b72b27d0183ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 04/11] fix: default range of periodic 1D template without
 dummy point

Use the same range as InterpolationFunction1D: f_length intervals if the
repeated last point is implicit.
---
 src/include/InterpolationTemplate.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..92a1e94 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -592,7 +592,14 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(
+                      f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                      - (periodicity ? 0 : 1)
+#else
+                      - 1
+#endif
+                          )),
               f_length,
               periodicity) {}
 
-- 
2.43.0


From f752e20b6e0e25c2fe45edc7e7d84734e8fde8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 05/11] fix: lost wakeup and data race in thread pool
 termination

The flag was written without synchronization, so a worker could check it, get
preempted before waiting on the condition variable, and miss the notification;
joining it then never returns.
---
 src/include/DedicatedThreadPool.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..950d6d7 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            request_termination();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        request_termination();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,20 @@ class DedicatedThreadPool {
         }
     };
 
+    /**
+     * @brief Tell all threads to stop. The flag is set while holding the mutex,
+     * otherwise a thread having just found it unset could miss the
+     * notification and sleep forever.
+     *
+     */
+    void request_termination() {
+        {
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +272,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From e568ae6411687afaf559723786039ca335da5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 06/11] fix: AlignedAllocator must fail if the requested size
 overflows

---
 src/include/aligned-allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 3330666..65982ae 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -14,6 +14,8 @@
 
 #include <cstddef>
 #include <cstdlib>
+#include <memory>  // addressof
+#include <new>     // bad_alloc
 
 namespace intp {
 
@@ -97,6 +99,7 @@ class AlignedAllocator {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = nullptr) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
@@ -151,6 +154,7 @@ class AlignedAllocator<const T, Align> {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = 0) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
-- 
2.43.0


From 5e1c5823eff62a4b51d0a0324d6ce211deaba419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 07/11] fix: Mesh line iteration on const mesh and comparison
 of iterators

const end(dim, indices), operator-> and the relational operators of the line
iterator did not compile when used.
---
 src/include/Mesh.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..5aea13f 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -161,7 +161,7 @@ class Mesh {
         // forward iterator requirement
 
         reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        pointer operator->() { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -216,7 +216,7 @@ class Mesh {
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 54eb11505b133af60330f0a191cc19dedb16b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 08/11] fix: nonuniform aperiodic interpolation of order 0

The moving average of zero coordinates divided by zero and the input iterator
was advanced past its end.
---
 src/include/Interpolation.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index bd71a80..11a7991 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -417,6 +417,19 @@ class InterpolationFunction {
                 xs[i] = xs[n + i - 1] - period;
                 xs[xs.size() - i - 1] = xs[xs.size() - i - n] + period;
             }
+        } else if (order == 0) {
+            // Internal knots of piecewise constant function are in the middle
+            // of data points, as in uniform case.
+
+            auto it = x_range.first;
+            input_coord.push_back(*it);
+            xs.front() = input_coord.back();
+            for (size_type i = 1; i < n; ++i) {
+                coord_type present = *(++it);
+                xs[i] = coord_type{.5} * (input_coord.back() + present);
+                input_coord.push_back(present);
+            }
+            xs.back() = input_coord.back();
         } else {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
-- 
2.43.0


From 26e0739d70641c74c4d362cf043046f22048d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:51 +0000
Subject: [PATCH 09/11] fix: periodic coordinate exactly on a lower image of
 the range begin is the range begin

---
 src/include/BSpline.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index aa539c9..3bd11f8 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -130,9 +130,11 @@ class BSpline {
         if (periodicity_[dim_ind]) {
             const knot_type period =
                 range(dim_ind).second - range(dim_ind).first;
+            // a coordinate a whole number of periods below the range has zero
+            // remainder and belongs to the beginning of it, not to the end
+            const knot_type rem = std::fmod(x - range(dim_ind).first, period);
             x = range(dim_ind).first +
-                std::fmod(x - range(dim_ind).first, period) +
-                (x < range(dim_ind).first ? period : knot_type{});
+                (rem < knot_type{} ? rem + period : rem);
         }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
-- 
2.43.0


From 143de1ac518b9685d74dae7ab9ec4abd0ca267cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:09 +0000
Subject: [PATCH 10/11] fix: define static members odr-used before C++17

---
 src/include/BSpline.hpp       |  9 +++++++++
 src/include/Interpolation.hpp | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3bd11f8..cfa2d90 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -761,6 +761,15 @@ class BSpline {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// Before C++17 static data members that are bound to a reference need a
+// definition.
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::dim;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::order;
+#endif
+
 }  // namespace intp
 
 #endif
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 11a7991..e6635fb 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -521,6 +521,17 @@ class InterpolationFunction {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// Before C++17 static data members that are bound to a reference need a
+// definition.
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::dim;
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::order;
+#endif
+
 template <std::size_t O = std::size_t{3},
           typename T = double,
           typename U = double>
-- 
2.43.0


From 268ef9ba3ee7f928a16fd9ece363714368ae3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:16 +0000
Subject: [PATCH 11/11] fix: BSpline constructor read knots before checking
 their number

A knot vector shorter than order+1 was read out of bounds before the
consistency assertion could reject it.
---
 src/include/BSpline.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index cfa2d90..18c02bb 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -195,19 +195,20 @@ class BSpline {
           knots_{
               KnotContainer(knot_iter_pairs.first, knot_iter_pairs.second)...},
 #ifdef INTP_CELL_LAYOUT
-          control_points_(generate_cell_layout(ctrl_pts)),
+          control_points_(generate_cell_layout(ctrl_pts))
 #else
-          control_points_(std::move(ctrl_pts)),
+          control_points_(std::move(ctrl_pts))
 #endif
-          range_{std::make_pair(
-              (knot_iter_pairs.first)[order],
-              (knot_iter_pairs.second)[-static_cast<int>(order) - 1])...} {
+    {
         for (size_type d = 0; d < dim; ++d) {
             INTP_ASSERT(knots_[d].size() - ctrl_pts.dim_size(d) ==
                             (periodicity_[d] ? 2 * order + 1 : order + 1),
                         std::string("Inconsistency between knot number and "
                                     "control point number at dimension ") +
                             std::to_string(d));
+            // only a knot vector of proper length has these elements
+            range_[d].first = knots_[d][order];
+            range_[d].second = knots_[d][knots_[d].size() - order - 1];
         }
     }
 
-- 
2.43.0

