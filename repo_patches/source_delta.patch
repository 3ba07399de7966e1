From 0272729ffab8d401f3d792504cbc9d6c692659da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 01/48] fix: sign of the nodal phase correction of 2SM2

2SM2 = 2 S2 - M2, hence u(2SM2) = -u(M2) = -2 xi + 2 nu, as documented.
---
 include/fes/wave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..81a40c3 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From bfd2f48c505d981f95c6e488f22aa850439dcee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 02/48] fix: signs of the T^3 and T^4 terms of the Meeus mean
 elongation

Astronomical Algorithms, formula 47.2: D = 297.8501921 + 445267.1114034 T
- 0.0018819 T^2 + T^3/545868 - T^4/113065000.
---
 include/fes/angle/astronomic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/angle/astronomic.hpp b/include/fes/angle/astronomic.hpp
index faa91a6..e2affe7 100644
--- a/include/fes/angle/astronomic.hpp
+++ b/include/fes/angle/astronomic.hpp
@@ -500,7 +500,7 @@ FES_MATH_CONSTEXPR auto Astronomic::meeus(const double epoch,
   // Jean Meeus, Astronomical Algorithms, 2nd ed., 1998., Willmann-Bell, Inc.
   // Formula 47.2, page 338.
   auto d = detail::math::horner(jc, 297.8501921, 445267.1114034, -0.0018819,
-                                -1.0 / 545868.0, 1.0 / 113065000.0);
+                                1.0 / 545868.0, -1.0 / 113065000.0);
 
   // Mean longitude of sun (h)
   h_ = s_ - d;
-- 
2.43.0


From 577db7119e527f1576c753721f4d8c36ca5f1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 03/48] fix: list the known constituents in the order of their
 identifiers

A wave table is filled by position from this list: the waves of identifiers
67 to 74 (Sa1, Sta, Mm1, Mf1, A5, M0, Mm2, Mf2) were stored under the
identifier of another one.
---
 src/library/constituent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..30f1e47 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -37,9 +37,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From 90b2ff110911469e86e60bdedc62c8c226f58f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 04/48] fix: parallel_for divided by zero when there was
 nothing to process

With a size of 0 the number of threads was reduced to 0 and the division
size / num_threads raised SIGFPE; the same happened where the number of CPUs
is unknown (hardware_concurrency() == 0).
---
 include/fes/detail/thread.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..fda90d7 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -31,8 +31,10 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Adjust num_threads to not exceed the size
   num_threads = std::min(num_threads, static_cast<size_t>(size));
 
-  // If num_threads is 1, no parallel computing code is used
-  if (num_threads == 1) {
+  // If num_threads is 1, no parallel computing code is used. There is also
+  // nothing to share out if the vectors are empty or if the number of CPUs is
+  // unknown.
+  if (num_threads <= 1) {
     callable(0, size);
     return;
   }
-- 
2.43.0


From 930da8d640d6b258cdaac8340f29a5354105e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 05/48] fix: data race on the exception of parallel_for

The threads that failed stored their exception in the same exception_ptr
without synchronisation.
---
 include/fes/detail/thread.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index fda90d7..85934f0 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -41,7 +41,8 @@ void parallel_for(const Lambda& callable, const size_t size,
 
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
-  std::exception_ptr exception = nullptr;
+  // Each thread stores its own error: they may fail at the same time.
+  std::vector<std::exception_ptr> exceptions(num_threads, nullptr);
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -52,11 +53,11 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, &exceptions, ix]() {
       try {
         callable(start, end);
       } catch (...) {
-        exception = std::current_exception();
+        exceptions[ix] = std::current_exception();
       }
     });
     start += shift;
@@ -69,9 +70,11 @@ void parallel_for(const Lambda& callable, const size_t size,
     }
   }
 
-  // Rethrow the last exception caught
-  if (exception) {
-    std::rethrow_exception(exception);
+  // Rethrow one of the exceptions caught
+  for (auto&& exception : exceptions) {
+    if (exception) {
+      std::rethrow_exception(exception);
+    }
   }
 }
 
-- 
2.43.0


From fbe2370e2268d759ab90f69cb824937053e1aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 06/48] fix: tide_from_mapping added the tide to an
 uninitialised matrix

---
 src/library/wave/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..0103a64 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -417,7 +417,7 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         "wave must contain as many elements as the number of waves in the "
         "table");
   }
-  auto result = Eigen::MatrixXd(wave.cols(), wave.rows());
+  Eigen::MatrixXd result = Eigen::MatrixXd::Zero(wave.cols(), wave.rows());
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-- 
2.43.0


From 5a1eca078c2c372d48ac9a9d172e987eae6fb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 07/48] fix: parallel_for terminated the program when a thread
 could not be created

The exception raised by std::thread destroyed the joinable threads already
launched, which calls std::terminate. The calling thread now processes the
part that could not be given to a new one.
---
 include/fes/detail/thread.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 85934f0..334b4c1 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,9 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
+#include <exception>
+#include <system_error>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -53,13 +56,20 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exceptions, ix]() {
+    auto task = [&callable, start, end, &exceptions, ix]() {
       try {
         callable(start, end);
       } catch (...) {
         exceptions[ix] = std::current_exception();
       }
-    });
+    };
+    try {
+      threads.emplace_back(task);
+    } catch (const std::system_error&) {
+      // The system refuses to create more threads: the current one does the
+      // work.
+      task();
+    }
     start += shift;
   }
 
-- 
2.43.0


From fad22a3e15b9950ab3ef828d21267f5e8d7268f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 08/48] fix: copying a wave table shared its waves

Table::tide_from_tide_series, tide_from_mapping and compute_nodal_modulations
work on a copy of the table because the table has to stay unchanged, but the
copy shared the waves of the original: the calls modified them, and calls
running at the same time on the same table (the threads of
tide_from_mapping, for instance) raced.
---
 include/fes/wave/table.hpp | 15 +++++++++++++++
 src/library/wave/table.cpp | 20 ++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..213530f 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -120,6 +120,21 @@ class Table {
   /// Build a table from a list of constituent identifiers
   explicit Table(const std::vector<Constituent>& waves);
 
+  /// Copy constructor: the copy owns its own waves.
+  Table(const Table& rhs);
+
+  /// Move constructor
+  Table(Table&& rhs) noexcept = default;
+
+  /// Copy assignment operator: the copy owns its own waves.
+  auto operator=(const Table& rhs) -> Table&;
+
+  /// Move assignment operator
+  auto operator=(Table&& rhs) noexcept -> Table& = default;
+
+  /// Default destructor
+  ~Table() = default;
+
   /// Create a wave properties from its identifier
   /// @param[in] ident Wave identifier
   /// @return Wave properties
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 0103a64..e681959 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -226,6 +226,26 @@ Table::Table(const std::vector<Constituent>& waves) {
   *this = Table(wave_names);
 }
 
+Table::Table(const Table& rhs)
+    : getter_(rhs.getter_), wave_index_(rhs.wave_index_) {
+  waves_.reserve(rhs.waves_.size());
+  for (const auto& item : rhs.waves_) {
+    auto wave = std::shared_ptr<Wave>();
+    if (item) {
+      wave = Table::wave_factory(item->ident());
+      *wave = *item;
+    }
+    waves_.emplace_back(std::move(wave));
+  }
+}
+
+auto Table::operator=(const Table& rhs) -> Table& {
+  if (this != &rhs) {
+    *this = Table(rhs);
+  }
+  return *this;
+}
+
 void Table::admittance() {
   // Arrays who contains the spline coefficients needed to compute MU2, NU2,
   // L2, T2 and Lambda2 by admittance.
-- 
2.43.0


From 4bc5ce64adb7961a55a5f327efaae367d7122cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 09/48] fix: an undefined date was evaluated with the angles of
 another date

The comparison of a NaN with the date of the angles in cache is false, hence
the tide of the date processed before was returned.
---
 include/fes/abstract_tidal_model.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..d5e2469 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -103,7 +103,8 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    // An undefined date is never close to another one.
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_)) {
       angle_.first = epoch;
       angle_.second.update(epoch, leap_seconds);
     }
-- 
2.43.0


From 856a8fc6392e150ee48b00ef6b40b1f5a84da1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 10/48] fix: the cached angles did not depend on the leap
 seconds

Two requests of the same date with different leap second counts were both
evaluated with the count of the first one.
---
 include/fes/abstract_tidal_model.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index d5e2469..ac803ff 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -104,8 +104,10 @@ class Accelerator {
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
     // An undefined date is never close to another one.
-    if (!(std::abs(epoch - angle_.first) <= time_tolerance_)) {
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_) ||
+        leap_seconds != leap_seconds_) {
       angle_.first = epoch;
+      leap_seconds_ = leap_seconds;
       angle_.second.update(epoch, leap_seconds);
     }
     return angle_.second;
@@ -119,6 +121,9 @@ class Accelerator {
   /// @brief The last angle used to evaluate the tidal constituents.
   std::pair<double, angle::Astronomic> angle_;
 
+  /// @brief The number of leap seconds used to calculate the last angle.
+  uint16_t leap_seconds_{0};
+
   /// @brief The tidal constituent values interpolated at the last point.
   ConstituentValues values_;
 };
-- 
2.43.0


From aeaefe9ac9ca360a88b1bbd2f87222a60711ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 11/48] fix: circular axis lookup in the cell closing the
 circle and of NaN

find_index returned -1 (or the last index if bounded) for the longitudes of
the closing cell whose nearest point is at the other end of the axis, and
find_indices framed an undefined longitude by the last and first points.
---
 include/fes/axis.hpp | 16 ++++++++++++----
 src/library/axis.cpp | 14 +++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/fes/axis.hpp b/include/fes/axis.hpp
index 363c9cd..31ccfdf 100644
--- a/include/fes/axis.hpp
+++ b/include/fes/axis.hpp
@@ -114,15 +114,23 @@ class Axis : public std::enable_shared_from_this<Axis> {
   FES_MATH_CONSTEXPR auto find_index(const double coordinate,
                                      const bool bounded = false) const noexcept
       -> int64_t {
-    auto index = static_cast<int64_t>(
-        std::round((normalize_coordinate(coordinate) - start_) / step_));
+    const auto index =
+        std::round((normalize_coordinate(coordinate) - start_) / step_);
+    // The coordinate is not a number.
+    if (index != index) {
+      return -1;
+    }
+    // On a circle, the point that follows the last one is the first one.
+    if (is_circular_) {
+      return detail::math::remainder(static_cast<int64_t>(index), size_);
+    }
     if (index < 0) {
       return bounded ? 0 : -1;
     }
-    if (index >= this->size_) {
+    if (index >= static_cast<double>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
   /// @brief Given a coordinate position, find grids elements around it.
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..31859c6 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -101,17 +101,21 @@ auto Axis::find_indices(double coordinate) const
   auto length = size_;
   auto i0 = find_index(coordinate, false);
 
-  /// If the value is outside the circle, then the value is between the last
-  /// and first index.
+  // The value is outside the axis or is not a number.
   if (i0 == -1) {
-    return is_circular_ ? optional_t(std::make_tuple(
-                              static_cast<int64_t>(length - 1), 0LL))
-                        : optional_t();
+    return optional_t();
   }
 
   // Given the delta between the found coordinate and the given coordinate,
   // chose the other index that frames the coordinate
   auto delta = coordinate - (*this)(i0);
+
+  // If the nearest point has to be reached by crossing the origin of the
+  // circle, then the value is between the last and first index.
+  if (is_circular_ && std::abs(delta) > std::abs(step_)) {
+    return optional_t(
+        std::make_tuple(static_cast<int64_t>(length - 1), int64_t{0}));
+  }
   auto i1 = i0;
   if (delta == 0) {
     // The requested coordinate is located on an element of the axis.
-- 
2.43.0


From 877796e8231c853e846562745b7d243a3325c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 12/48] fix: the ends of an axis could be reported as outside
 the axis

start + (size - 1) * step is sometimes one ulp smaller than the last value
given; find_indices found nothing for this value.
---
 src/library/axis.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 31859c6..572a680 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -117,7 +117,9 @@ auto Axis::find_indices(double coordinate) const
         std::make_tuple(static_cast<int64_t>(length - 1), int64_t{0}));
   }
   auto i1 = i0;
-  if (delta == 0) {
+  // The values of the axis are calculated: the coordinate of a point can
+  // differ from its calculated value by a rounding error.
+  if (detail::math::is_almost_zero(delta, std::abs(step_) * 1e-9)) {
     // The requested coordinate is located on an element of the axis.
     i1 == length - 1 ? --i0 : ++i1;
   } else {
-- 
2.43.0


From 145b128c83c91761dc26ae2ac5e54cfe2fb2f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 13/48] fix: undefined bilinear interpolation reported as
 extrapolated

On an undefined grid node (or on an edge between two of them) the defined
points of the cell have a zero weight: the value is NaN but it was said to be
extrapolated from the other points.
---
 include/fes/detail/math.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..93c1926 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -295,8 +295,12 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
-  return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+  // The defined points have no weight: the value is undefined.
+  if (!(std::abs(sum_w) > 0)) {
+    n = 0;
+    return std::numeric_limits<T>::quiet_NaN();
+  }
+  return result / sum_w;
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From a06a16e5d6ea51e0f7d2e56db5be77801263c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 14/48] fix: interpolation in the cell closing a descending
 circular axis

In half of this cell the axis returns its points from east to west, the
unwrapped cell was then 360 degrees minus one step wide and the value was
(almost) the one of the western point all over it.
---
 include/fes/tidal_model/cartesian.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..024f123 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -131,6 +131,12 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   int64_t j2;
   std::tie(i1, i2) = *lon_index;
   std::tie(j1, j2) = *lat_index;
+  // The longitudes are unwrapped eastward from the first one: on a descending
+  // axis, the indices that frame the point in the cell closing the circle go
+  // westward.
+  if (!lon_.is_ascending() && i1 == lon_.size() - 1 && i2 == 0) {
+    std::swap(i1, i2);
+  }
   const auto x1 = lon_(i1);
   const auto x2 = lon_(i2);
   const auto y1 = lat_(j1);
-- 
2.43.0


From 12873c56dea14a563eccd566cb48c104c7eb8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 15/48] fix: quality of a Cartesian model was the one of its
 last constituent

When the constituents do not have the same mask, a tide could be NaN although
the quality said that the point was interpolated.
---
 include/fes/tidal_model/cartesian.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 024f123..63e401b 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -141,7 +141,8 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto x2 = lon_(i2);
   const auto y1 = lat_(j1);
   const auto y2 = lat_(j2);
-  auto n = int64_t{0};
+  // Number of points used by the constituent that has the least of them.
+  auto min_n = this->data_.empty() ? int64_t{0} : int64_t{4};
 
   auto wxy = detail::math::bilinear_weights(
       detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
@@ -152,17 +153,19 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
       static_cast<size_t>(lat_.size()), row_major_);
   for (const auto& item : this->data_) {
     grid.data(item.second.data());
+    auto n = int64_t{0};
     auto value = detail::math::bilinear_interpolation<std::complex<double>>(
         std::get<0>(wxy), std::get<1>(wxy), std::get<2>(wxy), std::get<3>(wxy),
         grid(i1, j1), grid(i1, j2), grid(i2, j1), grid(i2, j2), n);
     acc->emplace_back(item.first, value);
+    min_n = std::min(min_n, n);
   }
 
-  quality = (n == 4)   ? Quality::kInterpolated
-            : (n == 3) ? Quality::kExtrapolated3
-            : (n == 2) ? Quality::kExtrapolated2
-            : (n == 1) ? Quality::kExtrapolated1
-                       : Quality::kUndefined;
+  quality = (min_n == 4)   ? Quality::kInterpolated
+            : (min_n == 3) ? Quality::kExtrapolated3
+            : (min_n == 2) ? Quality::kExtrapolated2
+            : (min_n == 1) ? Quality::kExtrapolated1
+                           : Quality::kUndefined;
   return acc->values();
 }
 
-- 
2.43.0


From f40150c244628d2083896392793fe60ed7d89e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 16/48] fix: order of the longitudes framing a point of a
 descending axis

Detect the westward cells from the position of the point instead of the
indices: a point within a rounding error of a node of a descending axis, or
an axis of two points, can be framed in either order.
---
 include/fes/tidal_model/cartesian.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 63e401b..c39fc7a 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -131,10 +131,11 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   int64_t j2;
   std::tie(i1, i2) = *lon_index;
   std::tie(j1, j2) = *lat_index;
-  // The longitudes are unwrapped eastward from the first one: on a descending
-  // axis, the indices that frame the point in the cell closing the circle go
-  // westward.
-  if (!lon_.is_ascending() && i1 == lon_.size() - 1 && i2 == 0) {
+  // The longitudes are unwrapped eastward from the first point. A point that
+  // lies beyond the second one shows that the axis gave them from east to west
+  // (descending axis).
+  if (detail::math::normalize_angle(point.lon(), lon_(i1)) >
+      detail::math::normalize_angle(lon_(i2), lon_(i1))) {
     std::swap(i1, i2);
   }
   const auto x1 = lon_(i1);
-- 
2.43.0


From 6cadc932d1df6e8d53e77916d0cde85a84a99804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 17/48] fix: values of the vertices of the LGP models

The codes of a LGP1 model were read beyond the row of the triangle for its
second and third vertices, and a point of the mesh located on a vertex was
reported as extrapolated.
---
 include/fes/tidal_model/lgp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..0f2ddc2 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -367,18 +367,18 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
   // Get the LGP codes for the triangle
   const auto& codes = codes_.row(selected_triangle.index);
 
-  // In the case of extrapolation, if the projected point is one of the vertices
-  // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // If the point, projected on the triangle in the case of extrapolation, is one
+  // of the vertices of the triangle, then we return values associated with this
+  // vertex. The LGP code of vertex k is at index N * k.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
-    quality = Quality::kExtrapolated1;
+    quality = selected_triangle.inside ? Quality::kInterpolated
+                                       : Quality::kExtrapolated1;
     return lgp_acc->values();
   }
 
-- 
2.43.0


From 43f8f45b7670ed6a4b5f116d2e4b920aa0d22448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 18/48] fix: undefined values of a LGP model reported as
 interpolated

The quality did not tell that the model holds undefined values at the nodes of
the triangle, unlike the Cartesian models.
---
 include/fes/tidal_model/lgp.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 0f2ddc2..f2fc159 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <Eigen/Core>
 #include <algorithm>
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <map>
@@ -182,6 +183,16 @@ class LGP : public fes::AbstractTidalModel<T> {
   auto setstate_instance(const string_view& data);
 
  private:
+  /// @brief The quality is undefined if one of the interpolated values is.
+  static auto set_undefined(const ConstituentValues& values, Quality& quality)
+      -> void {
+    for (const auto& item : values) {
+      if (std::isnan(item.second.real()) || std::isnan(item.second.imag())) {
+        quality = Quality::kUndefined;
+      }
+    }
+  }
+
   /// Expected data size for each data set
   int expected_data_size_{};
 
@@ -379,6 +390,7 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
     }
     quality = selected_triangle.inside ? Quality::kInterpolated
                                        : Quality::kExtrapolated1;
+    set_undefined(lgp_acc->values(), quality);
     return lgp_acc->values();
   }
 
@@ -401,6 +413,7 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
     lgp_acc->emplace_back(item.first, dot);
   }
   quality = Quality::kInterpolated;
+  set_undefined(lgp_acc->values(), quality);
   return lgp_acc->values();
 }
 
-- 
2.43.0


From 118c357d4b637679b4dd9868148a6e7e65e5ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 19/48] fix: the state of the models did not hold the dynamic
 constituents

A restored model (copy, pickle) inferred or left in the equilibrium tide the
constituents that the original one declares as dynamic.
---
 include/fes/detail/serialize.hpp      | 29 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       |  2 ++
 3 files changed, 33 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..d386d47 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -81,6 +82,34 @@ auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   return data;
 }
 
+/// Write a vector to the stream.
+///
+/// @tparam T Type of data to write
+/// @param[in] ss Stream to write to
+/// @param[in] data Data to write
+template <typename T>
+auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// Read a vector from the stream.
+///
+/// @tparam T Type of data to read
+/// @param[in] ss Stream to read from
+/// @return Data read from the stream
+template <typename T>
+auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+  auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.push_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 /// @brief Write the map of constituents to a stringstream
 /// @tparam T The type of the constituents
 /// @tparam U The type of the data
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index c39fc7a..7102907 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -179,6 +179,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -196,6 +197,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f2fc159..0c1a25b 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -426,6 +426,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -440,6 +441,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From d9b3c23a605f9a4bf0c0c89fb332c600ed113937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 20/48] fix: a restored LGP model refused any constituent

The expected size of the data was not restored.
---
 include/fes/tidal_model/lgp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 0c1a25b..593200f 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -183,6 +183,10 @@ class LGP : public fes::AbstractTidalModel<T> {
   auto setstate_instance(const string_view& data);
 
  private:
+  /// @brief Check that the codes match the mesh index and deduce from them the
+  /// expected size of the data.
+  auto initialize() -> void;
+
   /// @brief The quality is undefined if one of the interpolated values is.
   static auto set_undefined(const ConstituentValues& values, Quality& quality)
       -> void {
@@ -321,6 +325,12 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  initialize();
+}
+
+// /////////////////////////////////////////////////////////////////////////////
+template <typename T, int N>
+auto LGP<T, N>::initialize() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -442,6 +452,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+  initialize();
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From 8fbb6bcfe79cbf12387aaacdab14e91345fe22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 21/48] fix: sizes read from a damaged state were used
 unchecked

Negative or huge sizes led to reading outside the state or to allocating
without limit, and a matrix that does not have the number of columns expected
was accepted.
---
 include/fes/detail/isviewstream.hpp | 13 ++++++++++---
 include/fes/detail/serialize.hpp    | 14 +++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..7c3eaf4 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -80,15 +80,22 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   explicit isviewstream(const string_view& str)
       : sviewbuf(str), std::istream(static_cast<std::streambuf*>(this)) {}
 
+  /// @brief Get the number of characters that remain to be read.
+  /// @return The number of characters.
+  auto available() const -> std::streamsize {
+    return this->egptr() - this->gptr();
+  }
+
   /// @brief Extract a string_view from the stream.
   /// @param[in] count The number of characters to extract.
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
-    auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto avail = available();
+    // The size read from a damaged state can be negative.
+    auto size = count < 0 ? std::streamsize{0} : std::min(count, avail);
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (count < 0 || avail < count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index d386d47..b243d66 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
 #include "fes/detail/isviewstream.hpp"
@@ -77,6 +78,14 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  // The dimensions must be those of the type of matrix requested, and the
+  // stream must hold all the values.
+  if (rows < 0 || cols < 0 || (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (COLS != Eigen::Dynamic && cols != COLS) ||
+      (cols != 0 &&
+       rows > ss.available() / static_cast<Eigen::Index>(sizeof(T)) / cols)) {
+    throw std::invalid_argument("invalid matrix dimensions");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
@@ -136,7 +145,10 @@ auto read_constituent_map(detail::isviewstream& ss)
     -> std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>> {
   auto size = read_data<Eigen::Index>(ss);
   auto data = std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>>{};
-  for (auto ix = 0; ix < size; ++ix) {
+  if (size < 0) {
+    throw std::invalid_argument("invalid number of constituents");
+  }
+  for (Eigen::Index ix = 0; ix < size; ++ix) {
     auto constituent = read_data<T>(ss);
     auto map = read_matrix<U, Eigen::Dynamic, 1>(ss);
     data.emplace(constituent, map);
-- 
2.43.0


From 8db0795d8db05bdd05dcac1fc6d4f3ba772a1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 22/48] fix: states whose parts are inconsistent were accepted

A damaged state could be restored as an axis, a Cartesian or a LGP model whose
values are then read out of bounds.
---
 include/fes/abstract_tidal_model.hpp  | 21 +++++++++++++++++++++
 include/fes/detail/serialize.hpp      | 14 ++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  1 +
 include/fes/tidal_model/lgp.hpp       |  1 +
 src/library/axis.cpp                  | 15 +++++++++++++--
 5 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index ac803ff..616fa00 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -6,7 +6,9 @@
 /// @brief Abstract tidal model.
 #pragma once
 #include <complex>
+#include <cstdint>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -247,6 +249,25 @@ class AbstractTidalModel
   constexpr auto tide_type() const -> TideType { return tide_type_; }
 
  protected:
+  /// @brief Check the properties restored from a state.
+  ///
+  /// @param[in] size The number of values expected for each constituent.
+  /// @throw std::invalid_argument if the properties are inconsistent.
+  auto check_state(const int64_t size) const -> void {
+    if (tide_type_ != kTide && tide_type_ != kRadial) {
+      throw std::invalid_argument("invalid tide type");
+    }
+    for (const auto& item : data_) {
+      constituents::name(item.first);
+      if (item.second.size() != size) {
+        throw std::invalid_argument("wave size does not match expected size");
+      }
+    }
+    for (const auto& item : dynamic_) {
+      constituents::name(item);
+    }
+  }
+
   /// Tidal constituents handled by the model.
   std::map<Constituent, Vector<std::complex<T>>> data_{};
 
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index b243d66..b4dafd5 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -6,6 +6,7 @@
 /// @brief Serialization utilities.
 #pragma once
 #include <Eigen/Core>
+#include <cstdint>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -37,6 +38,19 @@ auto read_data(detail::isviewstream& ss) -> T {
   return data;
 }
 
+/// Read a boolean from the stream.
+///
+/// @param[in] ss Stream to read from
+/// @return The boolean read from the stream
+template <>
+inline auto read_data<bool>(detail::isviewstream& ss) -> bool {
+  const auto data = read_data<uint8_t>(ss);
+  if (data > 1) {
+    throw std::invalid_argument("invalid boolean");
+  }
+  return data == 1;
+}
+
 /// @brief Write a string to a stringstream
 /// @param[in] ss The stringstream to write to
 /// @param[in] data The string to write
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 7102907..27b4128 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -198,6 +198,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
     model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+    model.check_state(model.lon_.size() * model.lat_.size());
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 593200f..307aec0 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -453,6 +453,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
   initialize();
+  this->check_state(expected_data_size_);
 }
 
 }  // namespace tidal_model
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 572a680..492e592 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -4,6 +4,8 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/axis.hpp"
 
+#include <cmath>
+
 #include "fes/detail/isviewstream.hpp"
 #include "fes/detail/math.hpp"
 #include "fes/detail/serialize.hpp"
@@ -163,8 +165,17 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
-    return Axis(is_circular, is_ascending, start, size, step);
-  } catch (const std::ios_base::failure&) {
+    auto result = Axis(is_circular, is_ascending, start, size, step);
+    // The properties of an axis depend on each other.
+    if (!(result == Axis()) &&
+        (size < 2 || !std::isfinite(start) || !std::isfinite(step) ||
+         step == 0 || is_ascending != (step > 0) ||
+         (is_circular && std::fabs(std::fabs(step) * size - 360.0) >
+                             std::fabs(step)))) {
+      throw std::invalid_argument("inconsistent axis");
+    }
+    return result;
+  } catch (const std::exception&) {
     throw std::invalid_argument("invalid axis state");
   }
 }
-- 
2.43.0


From e8b2787f5b2c31cb4d9ad0c600a14c6beb75c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 23/48] fix: a wave table ignored the names it does not know

A misspelt name, or a name in another case than the reference one, gave a table
that does not hold the requested constituent, or that holds none.
---
 src/library/wave/table.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index e681959..4cbb462 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -189,12 +189,17 @@ inline auto create_sparse_table(
     const std::vector<std::string>& known_constituents,
     const std::vector<std::string>& waves,
     std::vector<std::shared_ptr<Wave>>& table) -> void {
+  // The names are case insensitive. The unknown ones are refused.
+  auto identifiers = std::vector<Constituent>{};
+  identifiers.reserve(waves.size());
+  for (const auto& wave : waves) {
+    identifiers.emplace_back(constituents::parse(wave));
+  }
   for (const auto& constituent : known_constituents) {
-    auto selected =
-        std::find(waves.begin(), waves.end(), constituent) != waves.end();
-    table.emplace_back(
-        selected ? Table::wave_factory(constituents::parse(constituent))
-                 : nullptr);
+    auto ident = constituents::parse(constituent);
+    auto selected = std::find(identifiers.begin(), identifiers.end(), ident) !=
+                    identifiers.end();
+    table.emplace_back(selected ? Table::wave_factory(ident) : nullptr);
   }
 }
 
-- 
2.43.0


From ab14d33157c11ba58a5b358a4030c4c4784da798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 24/48] fix: the Python tide_from_tide_series ignored the
 formulae

The series was always predicted with the default astronomic formulae.
---
 src/python/core/wave/table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/core/wave/table.cpp b/src/python/core/wave/table.cpp
index 9175597..59301c4 100644
--- a/src/python/core/wave/table.cpp
+++ b/src/python/core/wave/table.cpp
@@ -73,7 +73,8 @@ Returns:
             auto epoch = fes::python::npdatetime64_to_epoch(dates);
             {
               py::gil_scoped_release gil;
-              return self.tide_from_tide_series(epoch, leap_seconds, wave);
+              return self.tide_from_tide_series(epoch, leap_seconds, wave,
+                                                formulae);
             }
           },
           py::arg("dates"), py::arg("leap_seconds"), py::arg("wave"),
-- 
2.43.0


From 3436bbfc38d809fe6e8e8e5f38c6ad2a681dd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 25/48] fix: LGP1 configurations were loaded as LGP2 models

---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c2c843..7c20105 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -393,7 +393,7 @@ class LGP(Common):
 
     def _lgp_class(self, dtype: numpy.dtype) -> LGPModel:
         """Return the class of the LGP tidal model."""
-        if self.type == LGPType.LGP1.name:
+        if self.type == LGPType.LGP1.value:
             if dtype == numpy.complex64:
                 return core.tidal_model.LGP1Complex64
             if dtype == numpy.complex128:
-- 
2.43.0


From c4ba7534ce706b46523ec4c99febd5a0ea1b0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 26/48] fix: Cartesian grids differing between constituents
 were accepted

---
 src/python/pyfes/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c20105..8fb738c 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -256,9 +256,9 @@ class Cartesian(Common):
             def __ne__(self, other: Any) -> bool:
                 if not isinstance(other, GridProperties):
                     return NotImplemented
-                return (self.dtype != other.dtype and self.shape != other.shape
-                        and not numpy.allclose(self.lon, other.lon)
-                        and not numpy.allclose(self.lat, other.lat))
+                return (self.dtype != other.dtype or self.shape != other.shape
+                        or not numpy.allclose(self.lon, other.lon)
+                        or not numpy.allclose(self.lat, other.lat))
 
         # The tidal model instance consists of the tidal model and the grid
         # properties.
-- 
2.43.0


From 407e5ea0cd35d53167a17e4b143385c3dcb5eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 27/48] fix: units of the phases of the LGP models

The same units are recognised for Cartesian and LGP models.
---
 src/python/pyfes/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 8fb738c..077456a 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -427,7 +427,9 @@ class LGP(Common):
                 pha: Vector = numpy.ma.filled(ds.variables[pha_name][:],
                                               numpy.nan)
 
-                if ds.variables[pha_name].units in ['degree', 'degrees']:
+                if ds.variables[pha_name].units.lower() in [
+                        'degree', 'degrees', 'deg'
+                ]:
                     pha = numpy.radians(pha)
 
                 wave: Vector = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
-- 
2.43.0


From 481aaa0acef637e93e99747c27a64ef3a3076d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 28/48] fix: a '$' left after the interpolation is not a
 recursion

---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 077456a..a59bf81 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -104,7 +104,7 @@ def _expand(rawval: str) -> str:
         else:
             raise InterpolationError(
                 f"The shell variable {name!r} doesn't exist.")
-    if '$' in result and interpolation:
+    if interpolation and PATTERN(result):
         raise InterpolationDepthError(
             f'Value interpolation too deeply recursive: {rawval!r}.')
     return result
-- 
2.43.0


From de1b0c636d28a7723021d042599a5302663c1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 29/48] fix: nodal modulations of a list of dates ignored the
 formulae

---
 src/python/pyfes/wave_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index e1fe2fc..6e5bcbe 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -54,7 +54,8 @@ class WaveTable(core.WaveTable):
             datetime64: VectorDateTime64 = numpy.array(
                 [core.datemanip.as_int64(item) for item in dates],
                 dtype='datetime64[us]')
-            return super().compute_nodal_modulations(datetime64, leap_seconds)
+            return super().compute_nodal_modulations(datetime64, leap_seconds,
+                                                     formulae)
         # The method throws an error if the dates are not datetime64
         return super().compute_nodal_modulations(
             dates,  # type: ignore
-- 
2.43.0


From 195e4faa2d681acd69cf103ad4a8a091a6360b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 30/48] fix: WaveDict.tide_from_tide_series looked up waves,
 not names

---
 src/python/pyfes/wave_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index 6e5bcbe..36347bf 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -181,6 +181,6 @@ class WaveDict(WaveTable):
             raise ValueError('wave must contain as many items as tidal '
                              'constituents loaded')
         wave_properties: VectorComplex128 = numpy.array(
-            [wave[item] for item in self])
+            [wave[item] for item in self.keys()])
         return super().tide_from_tide_series(dates, leap_seconds,
                                              wave_properties, formulae)
-- 
2.43.0


From 8980e4797b60d137272db823e675def56dfd089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 31/48] fix: leap seconds of single dates out of the range of
 nanoseconds

---
 src/python/pyfes/leap_seconds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 732b86a..8335d44 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -168,7 +168,7 @@ def get_leap_seconds(
     if isinstance(utc, datetime.datetime):
         utc = numpy.datetime64(utc)
     if isinstance(utc, numpy.datetime64):
-        utc = numpy.array([utc], dtype='datetime64[ns]')
+        utc = numpy.array([utc])
     if numpy.any(utc < numpy.datetime64('1972-01-01')):
         raise ValueError('Cannot compute leap seconds before 1972.')
 
-- 
2.43.0


From 2a76d3159ac5b220848f1e79bfd54c9d8409267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 32/48] fix: the order of the dates was applied to the leap
 second table

---
 src/python/pyfes/leap_seconds.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 8335d44..dfddae1 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -173,8 +173,7 @@ def get_leap_seconds(
         raise ValueError('Cannot compute leap seconds before 1972.')
 
     table = _load_leap_second_file()
-    index: numpy.ndarray = numpy.searchsorted(table['utc'],
-                                              utc,
-                                              side='right',
-                                              sorter=sorter)
+    # The table is sorted: the order of the dates does not matter, and `sorter`
+    # does not apply to the table.
+    index: numpy.ndarray = numpy.searchsorted(table['utc'], utc, side='right')
     return table['seconds'][index - 1]
-- 
2.43.0


From b6b6ac856c9f4791172f66ce1b1e628413d28534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 33/48] fix: an expired leap second file was unusable without
 network

---
 src/python/pyfes/leap_seconds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index dfddae1..bb0aa0a 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -121,7 +121,7 @@ def _load_leap_second_file() -> NDArrayStructured:
             'Downloading a new version.', UserWarning)
         try:
             expires, lines = _read_leap_second_file(download=True)
-        except RuntimeError:
+        except (OSError, RuntimeError):
             warnings.warn(
                 'Failed to download new leap second file. '
                 'Using expired file.', UserWarning)
-- 
2.43.0


From 63dd05d290ec5634daf010dd246f03f54ff15931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 34/48] fix: the number of variables of a value is not the
 depth of its recursion

---
 src/python/pyfes/config.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index a59bf81..0f4c946 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -84,27 +84,22 @@ def _expand(rawval: str) -> str:
     result: str = rawval
     if '$' not in result:
         return result
-    interpolation = False
+    # Every pass replaces the variables of one level of nesting.
     depth = MAX_INTERPOLATION_DEPTH
-    while depth:
+    while depth and PATTERN(result):
         depth -= 1
+        expanded: str = ''
         match: Match[str] | None = PATTERN(result)
-        if not match:
-            break
-
-        istart: int
-        iend: int
-        istart, iend = match.span(0)
-        name: str = match.group(1)
-        if name in os.environ:
-            interpolation = True
-            tail: str = result[iend:]
-            result = result[:istart] + os.environ[name]
-            result += tail
-        else:
-            raise InterpolationError(
-                f"The shell variable {name!r} doesn't exist.")
-    if interpolation and PATTERN(result):
+        while match:
+            name: str = match.group(1)
+            if name not in os.environ:
+                raise InterpolationError(
+                    f"The shell variable {name!r} doesn't exist.")
+            expanded += result[:match.start()] + os.environ[name]
+            result = result[match.end():]
+            match = PATTERN(result)
+        result = expanded + result
+    if PATTERN(result):
         raise InterpolationDepthError(
             f'Value interpolation too deeply recursive: {rawval!r}.')
     return result
-- 
2.43.0


From 728d4c11de3467162dd49f35dba4a8be69727394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 35/48] fix: a failed download emptied the leap second file

---
 src/python/pyfes/leap_seconds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index bb0aa0a..26aa11e 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -68,9 +68,10 @@ def _download_leap_second_file() -> None:
         raise RuntimeError(
             f'Failed to download leap second file: {response.status} '
             f'{response.reason}')
+    contents = response.read()
     LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
     with LEAP_SECOND_FILE.open('wb') as stream:
-        stream.write(response.read())
+        stream.write(contents)
 
 
 def _read_leap_second_file(
-- 
2.43.0


From 83fa2a01907f4f9853f453522a6ea71e64841606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 36/48] fix: accept a circular axis given across a wrap between
 its first two points

The direction of the axis was deduced from its first two points: an axis such
as 350, 0, 10, ... was taken for a descending one and refused (or misread).
---
 src/library/axis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 492e592..dc12347 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -52,6 +52,10 @@ auto Axis::normalize_longitude(const Eigen::VectorXd& points)
   }
 
   if (!monotonic) {
+    // The first two points may be the ones that lie on either side of the wrap:
+    // the direction of the axis is the one of the shortest way between them.
+    ascending = detail::math::normalize_angle(points[1] - points[0]) > 0;
+
     auto result = std::make_unique<Eigen::VectorXd>(points);
     auto cross = false;
 
-- 
2.43.0


From 2a829f31aeb3ed1ee9a3da1f0501f17492ff6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 37/48] fix: undefined constituents of a Cartesian model were
 interpolated as zero

std::numeric_limits is not specialised for complex numbers: its quiet NaN is
zero, so that a constituent without any defined node was not NaN.
---
 include/fes/detail/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index 93c1926..6b61aeb 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -298,7 +298,8 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   // The defined points have no weight: the value is undefined.
   if (!(std::abs(sum_w) > 0)) {
     n = 0;
-    return std::numeric_limits<T>::quiet_NaN();
+    // NaN for both parts of a complex number, for which numeric_limits gives 0.
+    return T(0) * std::numeric_limits<double>::quiet_NaN();
   }
   return result / sum_w;
 }
-- 
2.43.0


From 3419ae0ab06018b5f76405397adfef2c4e90343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 38/48] fix: unwrap the triangles that cross the antimeridian
 before testing them

Boost.Geometry misjudged positions on the meridian of a vertex (up to
rounding errors) and projections on an edge lying on the equator when the
longitudes of the triangle jump at the antimeridian.
---
 include/fes/geometry/triangle.hpp | 15 +++------------
 src/library/geometry/triangle.cpp | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index a4dc4ea..7e87530 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -83,9 +83,7 @@ class Triangle : public triangle_t {
   /// the calculation of the angles of the reference triangle is also carried
   /// out in this space. The search carried out in geodesic space can cause
   /// inconsistencies between these two spaces and generate erroneous values.
-  inline auto covered_by(const geometry::Point &point) const -> bool {
-    return boost::geometry::covered_by(point, *this);
-  }
+  auto covered_by(const geometry::Point &point) const -> bool;
 
   /// Check if the triangle is valid (in the OGC sense)
   inline auto is_valid() const -> bool {
@@ -101,9 +99,7 @@ class Triangle : public triangle_t {
   ///
   /// @param[in] point The point.
   /// @return The distance between the triangle and the point in meters.
-  inline auto distance(const Point &point) const -> double {
-    return detail::geometry::distance(point, *this);
-  }
+  auto distance(const Point &point) const -> double;
 
   /// Calculate the area of the triangle.
   ///
@@ -139,12 +135,7 @@ class Triangle : public triangle_t {
   ///
   /// @param[in] point The point.
   /// @return The projection of the point on the triangle.
-  inline auto project(const Point &point) const -> Point {
-    boost::geometry::model::segment<Point> segment;
-
-    detail::geometry::closest_points(point, *this, segment);
-    return point == segment.second ? segment.first : segment.second;
-  }
+  auto project(const Point &point) const -> Point;
 };
 
 }  // namespace geometry
diff --git a/src/library/geometry/triangle.cpp b/src/library/geometry/triangle.cpp
index fc99753..5be4f10 100644
--- a/src/library/geometry/triangle.cpp
+++ b/src/library/geometry/triangle.cpp
@@ -4,6 +4,8 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/geometry/triangle.hpp"
 
+#include <cmath>
+
 #include "fes/detail/math.hpp"
 
 namespace fes {
@@ -25,6 +27,34 @@ inline auto shift(const Point& point, const Triangle& triangle) -> Triangle {
   return {Point(lon1, v1.lat()), Point(lon2, v2.lat()), Point(lon3, v3.lat())};
 }
 
+/// Unwrap the longitudes of the vertices next to the given point.
+///
+/// The special cases of Boost.Geometry (point on the meridian of a vertex, edge
+/// on the equator) are wrong for triangles whose longitudes jump at the
+/// antimeridian.
+static auto unwrap(const Triangle& triangle, const Point& point) -> Triangle {
+  const auto near = [&point](const Point& vertex) -> Point {
+    return {point.lon() + std::remainder(vertex.lon() - point.lon(), 360.0),
+            vertex.lat()};
+  };
+  return {near(triangle.v1()), near(triangle.v2()), near(triangle.v3())};
+}
+
+auto Triangle::covered_by(const Point& point) const -> bool {
+  return boost::geometry::covered_by(point, unwrap(*this, point));
+}
+
+auto Triangle::distance(const Point& point) const -> double {
+  return detail::geometry::distance(point, unwrap(*this, point));
+}
+
+auto Triangle::project(const Point& point) const -> Point {
+  boost::geometry::model::segment<Point> segment;
+
+  detail::geometry::closest_points(point, unwrap(*this, point), segment);
+  return point == segment.second ? segment.first : segment.second;
+}
+
 auto Triangle::reference_right_angled(const Point& point) const
     -> std::tuple<double, double> {
   auto const vertices = shift(point, *this).outer();
-- 
2.43.0


From b18fdf44d2da5f8f9bd58228817d81a76514e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 39/48] fix: select all the triangles that share the last
 vertices visited

Only 11 (vertex, triangle) pairs were looked at, whatever the number of
triangles that share the vertices: positions inside the mesh, in particular
those equidistant from several vertices, were reported outside.
---
 src/library/mesh/index.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index bfaf9e3..8113241 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -83,23 +83,32 @@ Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
 
 auto Index::search(const geometry::Point& point,
                    const double max_distance) const -> SelectedTriangle {
-  constexpr size_t kMaxNeighbors = 11;
+  constexpr size_t kMinNeighbors = 11;
   auto min_distance = std::numeric_limits<double>::max();
   auto triangle_indices = std::set<int>();
 
   // Query position in ECEF coordinates
   auto cartesian_point = static_cast<geometry::EarthCenteredEarthFixed>(point);
-  // Find the nearest triangles
-  std::for_each(rtree_.qbegin(boost::geometry::index::nearest(cartesian_point,
-                                                              kMaxNeighbors)),
-                rtree_.qend(),
-                [&cartesian_point, &min_distance,
-                 &triangle_indices](const auto& item) -> void {
-                  triangle_indices.emplace(item.second.second);
-                  min_distance = std::min(
-                      min_distance,
-                      boost::geometry::distance(cartesian_point, item.first));
-                });
+  // Find the nearest triangles. The vertices are visited from the nearest to
+  // the farthest; once enough neighbors have been visited, the search goes on
+  // with those located at the same distance as the last one, otherwise only
+  // some of the triangles that share the last vertices would be selected.
+  auto neighbors = size_t(0);
+  auto last_distance = double(0);
+  for (auto it = rtree_.qbegin(
+           boost::geometry::index::nearest(cartesian_point, rtree_.size()));
+       it != rtree_.qend(); ++it) {
+    const auto distance =
+        boost::geometry::distance(cartesian_point, it->first);
+    // Distances are considered accurate to 1 cm
+    if (neighbors >= kMinNeighbors && distance > last_distance + 1e-2) {
+      break;
+    }
+    triangle_indices.emplace(it->second.second);
+    min_distance = std::min(min_distance, distance);
+    last_distance = distance;
+    ++neighbors;
+  }
 
   // We consider the distance accurate to 1 cm
   if (min_distance < 1e-2) {
-- 
2.43.0


From 237b44c94948900fa308fb4f8f91dfe2eb808e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:21 +0000
Subject: [PATCH 40/48] fix: a position on a vertex of the mesh is inside the
 mesh

Rounding errors may put such a position outside of all the triangles that
share the vertex; it was then extrapolated or not located.
---
 src/library/mesh/index.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index 8113241..f203fae 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -125,9 +125,13 @@ auto Index::search(const geometry::Point& point,
 
   auto result = SelectedTriangle{};
 
+  // A point that is a vertex of the mesh belongs to it, even if the rounding
+  // errors put it outside of all the triangles that share this vertex.
+  const auto is_vertex = min_distance == 0;
+
   // If the nearest vertex is it not too far away, looking for the nearest
   // triangle.
-  if (min_distance < max_distance) {
+  if (is_vertex || min_distance < max_distance) {
     min_distance = std::numeric_limits<double>::max();
 
     for (auto& ix : triangle_indices) {
@@ -140,7 +144,8 @@ auto Index::search(const geometry::Point& point,
         result.triangle = std::move(triangle);
       }
     }
-    result.point = result.triangle.project(point);
+    result.inside = is_vertex;
+    result.point = is_vertex ? point : result.triangle.project(point);
   }
   return result;
 }
-- 
2.43.0


From 71b1e015f2234ff59d912472c4a372e0fa48f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 41/48] fix: refuse a Cartesian state whose number of nodes
 overflows

The product of the sizes of the axes read from a damaged state wrapped
around: a state with axes far larger than its data could be accepted,
and the data was then read out of bounds.
---
 include/fes/tidal_model/cartesian.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 27b4128..47f09a8 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -198,6 +198,12 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
     model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+    // The sizes read from a damaged state can be arbitrarily large.
+    if (model.lat_.size() > 0 &&
+        model.lon_.size() >
+            std::numeric_limits<int64_t>::max() / model.lat_.size()) {
+      throw std::invalid_argument("invalid axis size");
+    }
     model.check_state(model.lon_.size() * model.lat_.size());
     return model;
   } catch (const std::exception&) {
-- 
2.43.0


From 96bdf462bc64e451ff0fe2cd66f3f730831b5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 42/48] fix: refuse LGP codes equal to 2^31 - 1

The number of values expected, one more than the largest code, overflowed.
---
 include/fes/tidal_model/lgp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 307aec0..9d75ea5 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -352,6 +352,10 @@ auto LGP<T, N>::initialize() -> void {
     throw std::invalid_argument("codes_t must be positive");
   }
 
+  if (max_index == std::numeric_limits<int>::max()) {
+    throw std::invalid_argument("codes_t must be less than 2^31 - 1");
+  }
+
   // Store the expected data size to interpolate
   expected_data_size_ = max_index + 1;
 }
-- 
2.43.0


From 8ec1a5e563dc64768165c5bf4a34fdf25b9bddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 43/48] fix: do not project on a triangle that was not found

When the distances to the selected triangles are not defined (positions of
the mesh that are not finite), the search projected the position on an empty
triangle and read through a null pointer.
---
 src/library/mesh/index.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index f203fae..3079c2b 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -144,8 +144,12 @@ auto Index::search(const geometry::Point& point,
         result.triangle = std::move(triangle);
       }
     }
-    result.inside = is_vertex;
-    result.point = is_vertex ? point : result.triangle.project(point);
+    // No triangle is selected if none of the distances is defined: the mesh
+    // contains vertices that are not finite positions.
+    if (result.index != -1) {
+      result.inside = is_vertex;
+      result.point = is_vertex ? point : result.triangle.project(point);
+    }
   }
   return result;
 }
-- 
2.43.0


From 51082562f83d14760896e6a8c6619cc800696485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 44/48] fix: a download that is no leap second file replaced it

The answer of the server was written over the file before it was looked at, in
place: an error page, a connection cut short or a full disk made the library
unusable from then on. Some of these errors were not expected either.
---
 src/python/pyfes/leap_seconds.py | 39 +++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 26aa11e..6f95921 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 from collections.abc import Callable
 import datetime
 import functools
+import http.client
 import pathlib
 import re
 from re import Match
@@ -69,23 +70,22 @@ def _download_leap_second_file() -> None:
             f'Failed to download leap second file: {response.status} '
             f'{response.reason}')
     contents = response.read()
+    # Only a leap second file replaces the current one, at once.
+    _expiration_date(contents.decode('utf-8').splitlines())
     LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
-    with LEAP_SECOND_FILE.open('wb') as stream:
-        stream.write(contents)
+    temporary = LEAP_SECOND_FILE.with_name(f'{LEAP_SECOND_FILE.name}.part')
+    try:
+        temporary.write_bytes(contents)
+        temporary.replace(LEAP_SECOND_FILE)
+    finally:
+        temporary.unlink(missing_ok=True)
 
 
-def _read_leap_second_file(
-        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
-    """Read the IERS leap second file."""
+def _expiration_date(lines: list[str]) -> numpy.datetime64:
+    """Get the expiration date of the IERS leap second file."""
     re_expires: Callable[[str], Match[str] | None] = re.compile(
         r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$').match
 
-    if not LEAP_SECOND_FILE.exists() or download:
-        _download_leap_second_file()
-
-    with LEAP_SECOND_FILE.open('r') as stream:
-        lines = stream.readlines()
-
     expires: numpy.datetime64 | None = None
     for line in lines:
         match = re_expires(line)
@@ -99,7 +99,19 @@ def _read_leap_second_file(
         raise RuntimeError(
             f'Did not find expiration date in {LEAP_SECOND_FILE.name}')
 
-    return expires, lines
+    return expires
+
+
+def _read_leap_second_file(
+        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
+    """Read the IERS leap second file."""
+    if not LEAP_SECOND_FILE.exists() or download:
+        _download_leap_second_file()
+
+    with LEAP_SECOND_FILE.open('r') as stream:
+        lines = stream.readlines()
+
+    return _expiration_date(lines), lines
 
 
 @functools.lru_cache(maxsize=1)
@@ -122,7 +134,8 @@ def _load_leap_second_file() -> NDArrayStructured:
             'Downloading a new version.', UserWarning)
         try:
             expires, lines = _read_leap_second_file(download=True)
-        except (OSError, RuntimeError):
+        except (OSError, RuntimeError, ValueError,
+                http.client.HTTPException):
             warnings.warn(
                 'Failed to download new leap second file. '
                 'Using expired file.', UserWarning)
-- 
2.43.0


From 18c7daca5a0e179bb49926aed0b37d17caeede0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 45/48] fix: square grids stored by latitude were loaded
 transposed

The storage order was deduced from the shape of the grid, which says nothing
when there are as many longitudes as latitudes.
---
 src/python/pyfes/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 0f4c946..2407c33 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -154,8 +154,15 @@ def load_cartesian_model(
                 'degree', 'degrees', 'deg'
         ]:
             pha = numpy.radians(pha)
+        # The shape of a square grid does not tell its storage order: it is
+        # loaded in longitude-major order.
+        transposed: bool = (len(lon) == len(lat)
+                            and ds.variables[amp_name].dimensions[0]
+                            == ds.variables[lat_name].dimensions[0])
 
     wave: Matrix = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
+    if transposed:
+        wave = wave.T
 
     return lon, lat, wave
 
-- 
2.43.0


From 631eed1cfeb5516b51e56c79d05dd8b283417cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 46/48] fix: keywords beside the model of a section were
 ignored

A keyword given at the wrong level, or a second model, had no effect at all
whereas unknown keywords are refused everywhere else.
---
 src/python/pyfes/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 2407c33..298fe75 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -486,6 +486,11 @@ def _load_model(settings: dict[str, Any], tidal_type: str) -> TidalModel:
             raise TypeError(f'{section}.__init__() got an '
                             "unexpected keyword argument 'tidal_type'")
 
+    # A section describes one model and nothing else.
+    if len(settings) > 1:
+        raise ValueError(f'Too many keywords in section {tidal_type!r}: '
+                         f'{", ".join(map(repr, settings))}. Expected either '
+                         '"cartesian" or "lgp".')
     if 'cartesian' in settings:
         tidal_type_exists(settings, 'cartesian')
         settings['cartesian'].update(tidal_type=tidal_type)
-- 
2.43.0


From bb87aeeb216615994910c542bc5bd7d3eb490183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 47/48] fix: NaT was converted to a date

The prediction of a tide at a date that is missing was a number.
---
 include/fes/python/datetime64.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/python/datetime64.hpp b/include/fes/python/datetime64.hpp
index 1888890..4104081 100644
--- a/include/fes/python/datetime64.hpp
+++ b/include/fes/python/datetime64.hpp
@@ -9,6 +9,8 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <cstdint>
+#include <limits>
 #include <string>
 
 namespace fes {
@@ -67,7 +69,10 @@ static inline auto npdatetime64_to_epoch(const pybind11::array& array)
   {
     pybind11::gil_scoped_release release;
     for (pybind11::ssize_t ix = 0; ix < ptr.size(); ++ix) {
-      result(ix) = ptr(ix) * scale;
+      // NaT is the smallest 64-bit integer.
+      result(ix) = ptr(ix) == std::numeric_limits<int64_t>::min()
+                       ? std::numeric_limits<double>::quiet_NaN()
+                       : ptr(ix) * scale;
     }
   }
   return result;
-- 
2.43.0


From 09b7171ab7045245ecb7e9f2f8e4b5b440ff6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 48/48] fix: negative leap seconds were accepted by
 AstronomicAngle.update

They became numbers above 32767, while these numbers were refused.
---
 src/python/core/astronomic_angle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/core/astronomic_angle.cpp b/src/python/core/astronomic_angle.cpp
index 0bcc447..b6883ad 100644
--- a/src/python/core/astronomic_angle.cpp
+++ b/src/python/core/astronomic_angle.cpp
@@ -30,7 +30,7 @@ Args:
       .def(
           "update",
           [](fes::angle::Astronomic& self, const py::handle& date,
-             const int16_t leap_seconds) {
+             const uint16_t leap_seconds) {
             self.update(fes::python::datemanip::as_float64(date), leap_seconds);
           },
           py::arg("date"), py::arg("leap_seconds"),
-- 
2.43.0

