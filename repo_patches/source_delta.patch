From bc85742b7fbe50b908727ef4e94954419c839020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 01/49] fix: compare polynomials of different size without
 aborting

Polynomial::operator== handed vectors of different length to Eigen, which
asserts (or reads out of bounds without assertions).
---
 .../include/mav_trajectory_generation/polynomial.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..a2b505b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -63,7 +63,7 @@ class Polynomial {
   int N() const { return N_; }
 
   inline bool operator==(const Polynomial& rhs) const {
-    return coefficients_ == rhs.coefficients_;
+    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;
   }
   inline bool operator!=(const Polynomial& rhs) const {
     return !operator==(rhs);
-- 
2.43.0


From c00f392b5b8e7672673f0cfcd01ac9f54bcc002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/49] fix: report incomplete root finding instead of silently
 losing extrema

The Jenkins-Traub search can give up part way.  findRootsJenkinsTraub then
returned a shortened list (or left it untouched) and the callers went on with
the interval ends only, presenting them as the global extrema.  Report the
failure, as the headers document.
---
 .../src/polynomial.cpp                          |  4 ++--
 .../src/rpoly/rpoly_ak1.cpp                     | 17 +++++++----------
 .../mav_trajectory_generation/src/segment.cpp   |  6 ++++--
 .../src/trajectory.cpp                          |  4 +++-
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/polynomial.cpp b/subpackages/mav_trajectory_generation/src/polynomial.cpp
index 3f0d06a..e9996ad 100644
--- a/subpackages/mav_trajectory_generation/src/polynomial.cpp
+++ b/subpackages/mav_trajectory_generation/src/polynomial.cpp
@@ -74,12 +74,12 @@ bool Polynomial::computeMinMaxCandidates(
   Eigen::VectorXcd roots;
   bool success = getRoots(derivative + 1, &roots);
   if (!success) {
-    VLOG(1) << "Couldn't find roots, polynomial may be constant.";
+    LOG(WARNING) << "Couldn't find all roots, candidates are incomplete.";
   }
   if (!selectMinMaxCandidatesFromRoots(t_start, t_end, roots, candidates)) {
     return false;
   }
-  return true;
+  return success;
 }
 
 bool Polynomial::selectMinMaxFromRoots(
diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index e9d1240..fb87144 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -38,6 +38,7 @@
 // data in via
 // the console.
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <cctype>
@@ -97,23 +98,19 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
     polynomial[i] = coefficients_decreasing(i);
   }
 
+  // On return, degree holds the number of roots that were found.
   rpolyWrapper(polynomial, &degree, roots_real, roots_imag);
-  if (degree > 0) {
-    roots->resize(degree);
-    for (int i = 0; i < degree; ++i) {
-      (*roots)[i] = std::complex<double>(roots_real[i], roots_imag[i]);
-    }
+  roots->resize(std::max(degree, 0));
+  for (int i = 0; i < degree; ++i) {
+    (*roots)[i] = std::complex<double>(roots_real[i], roots_imag[i]);
   }
 
   delete[] polynomial;
   delete[] roots_real;
   delete[] roots_imag;
 
-  if (degree > 0) {
-    return true;
-  } else {
-    return false;
-  }
+  // The search may give up before all roots are found.
+  return degree == n_coefficients - 1;
 }
 
 namespace rpoly_impl {
diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..22af6e2 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -140,8 +140,10 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..77451f4 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -395,7 +395,9 @@ bool Trajectory::scaleSegmentTimesToMeetConstraints(double v_max,
     // Quadrotors Using Safe Flight Corridors in 3-D Complex Environments." IEEE
     // Robotics and Automation Letters 2.3 (2017).
     double v_max_actual, a_max_actual;
-    computeMaxVelocityAndAcceleration(&v_max_actual, &a_max_actual);
+    if (!computeMaxVelocityAndAcceleration(&v_max_actual, &a_max_actual)) {
+      return false;
+    }
 
     // Reevaluate constraint/bound violation
     double velocity_violation = v_max_actual / v_max;
-- 
2.43.0


From badbae87b1ac83d10dfbb757ec028b91bd5eef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 03/49] fix: find the minimum magnitude of a single dimension
 at its zero crossings

With one dimension only the extrema of the signed value were candidates, so a
sign change was missed: the minimum of |v| was reported as positive.  Reject an
out-of-range dimension there as for several dimensions.
---
 .../mav_trajectory_generation/src/segment.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 22af6e2..d957111 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -123,12 +123,25 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
       return false;
     }
   } else {
+    const int dim = dimensions[0];
+    if (dim < 0 || dim >= D_) {
+      LOG(WARNING) << "Specified dimension " << dim << " is out of bounds [0.."
+                   << D_ - 1 << "]." << std::endl;
+      return false;
+    }
     // For dimension.size() == 1  we can simply evaluate the roots of the
-    // derivative.
-    if (!polynomials_[dimensions[0]].computeMinMaxCandidates(
-            t_start, t_end, derivative, candidate_times)) {
+    // derivative. The magnitude is also minimal where the value crosses zero.
+    if (!polynomials_[dim].computeMinMaxCandidates(t_start, t_end, derivative,
+                                                   candidate_times)) {
+      return false;
+    }
+    std::vector<double> zero_crossings;
+    if (!polynomials_[dim].computeMinMaxCandidates(
+            t_start, t_end, derivative - 1, &zero_crossings)) {
       return false;
     }
+    candidate_times->insert(candidate_times->end(), zero_crossings.begin(),
+                            zero_crossings.end());
   }
   return true;
 }
-- 
2.43.0


From 2836ff2a0d748bbd501b2e505a2fc1d6b0aa9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 04/49] fix: sample ranges from their start time and within the
 trajectory

evaluateRange counted its time from the start of the segment in which t_start
lies: the reported times were wrong and samples ran past t_end.  t_start equal
to the end time read behind the last segment, and reversed intervals requested
a negative reserve.
---
 .../src/trajectory.cpp                        | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 77451f4..589e9f9 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -82,13 +82,19 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
                                int derivative_order,
                                std::vector<Eigen::VectorXd>* result,
                                std::vector<double>* sampling_times) const {
-  const size_t expected_number_of_samples = (t_end - t_start) / dt + 1;
-
   result->clear();
-  result->reserve(expected_number_of_samples);
-
   if (sampling_times != nullptr) {
     sampling_times->clear();
+  }
+  if (segments_.empty() || t_end < t_start || dt <= 0.0) {
+    LOG(ERROR) << "Nothing to sample: empty trajectory, end time before start "
+                  "time or non-positive sampling interval!";
+    return;
+  }
+
+  const size_t expected_number_of_samples = (t_end - t_start) / dt + 1;
+  result->reserve(expected_number_of_samples);
+  if (sampling_times != nullptr) {
     sampling_times->reserve(expected_number_of_samples);
   }
 
@@ -112,11 +118,19 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
     LOG(ERROR) << "Start time out of range of the trajectory!";
     return;
   }
+  // Make sure we don't go off the end of the segments (can happen if t_start is
+  // equal to trajectory max time).
+  if (i >= segments_.size()) {
+    i = segments_.size() - 1;
+  }
 
   // Go back to the start of this segment.
   accumulated_time -= segments_[i].getTime();
   double time_in_segment = t_start - accumulated_time;
 
+  // From here on, this is the trajectory time of the next sample.
+  accumulated_time = t_start;
+
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
     if (time_in_segment > segments_[i].getTime()) {
-- 
2.43.0


From 447c1aba543e54435a6c9279ff4f94369421880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 05/49] fix: append dimensions of different order with their
 common time scale

The time-scaled copies were dropped when the number of coefficients differs, so
the shorter of the two changed its shape.
---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index d957111..bbec3e0 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -258,12 +258,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
+        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
-- 
2.43.0


From a8818f8a83be309ec30cf2a557bee83b9c2afcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 06/49] fix: keep the segment times of a single dimension of a
 trajectory

The segments returned by getTrajectoryWithSingleDimension had no duration.
---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 589e9f9..bc30c7c 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -164,6 +164,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From 73adca93f7173a757f90626e44b66e3235bffd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 07/49] fix: report unreadable or inconsistent trajectories
 instead of aborting

trajectoryFromFile and trajectoryFromYaml ran into CHECKs for missing or empty
files and segments of different shape; segmentFromYaml accepted segments whose
coefficients do not fit N and D.
---
 .../include/mav_trajectory_generation/io.h    | 10 +++++---
 .../mav_trajectory_generation/src/io.cpp      | 24 +++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..06dbf46 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -39,6 +39,11 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment);
 bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments);
 bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory);
 
+// Returns false, leaving the trajectory as it is, if the segments do not form a
+// trajectory: none at all or segments of different shape.
+bool trajectoryFromSegments(const Segment::Vector& segments,
+                            Trajectory* trajectory);
+
 bool segmentsToFile(const std::string& filename,
                     const mav_trajectory_generation::Segment::Vector& segments);
 
@@ -57,9 +62,8 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
-  trajectory->setSegments(segments);
-  return success;
+  if (!segmentsFromFile(filename, &segments)) return false;
+  return trajectoryFromSegments(segments, trajectory);
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..96a9d84 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -87,12 +87,16 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
   if (!node[kCoefficientsKey]) return false;
   if (!node[kCoefficientsKey].IsSequence()) return false;
 
-  *segment =
-      Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());
+  const int N = node[kNumCoefficientsKey].as<int>();
+  const int D = node[kDimKey].as<int>();
+  // Coefficients and dimensions have to coincide.
+  if (N < 0 || D < 0 || node[kCoefficientsKey].size() != D) return false;
+  *segment = Segment(N, D);
 
   for (size_t i = 0; i < segment->D(); ++i) {
     Eigen::VectorXd coeffs;
     if (!coefficientsFromYaml(node[kCoefficientsKey][i], &coeffs)) return false;
+    if (coeffs.size() != N) return false;
     (*segment)[i] = coeffs;
   }
 
@@ -118,6 +122,19 @@ bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
 
   Segment::Vector segments;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
+  return trajectoryFromSegments(segments, trajectory);
+}
+
+bool trajectoryFromSegments(const Segment::Vector& segments,
+                            Trajectory* trajectory) {
+  CHECK_NOTNULL(trajectory);
+  if (segments.empty()) return false;
+  for (const Segment& segment : segments) {
+    if (segment.D() != segments.front().D() ||
+        segment.N() != segments.front().N()) {
+      return false;
+    }
+  }
   trajectory->setSegments(segments);
 
   return true;
@@ -189,6 +206,9 @@ bool segmentsFromFile(const std::string& filename,
         // Header.
         int N = segments_yaml[i][kNumCoefficientsKey].as<int>();
         int D = segments_yaml[i][kDimKey].as<int>();
+        if (N < 0 || D < 0) {
+          return false;  // There is no such segment.
+        }
         mav_trajectory_generation::Segment segment(N, D);
         uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();
         segment.setTimeNSec(t);
-- 
2.43.0


From f8ec9562d3f1c61aa416c047a1d47993b9db4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 08/49] fix: do not write segment times behind the table of
 sampled states

Short trajectories have fewer samples than segments.
---
 subpackages/mav_trajectory_generation/src/io.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 96a9d84..977cdac 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -22,6 +22,7 @@
 #include "mav_trajectory_generation/trajectory_sampling.h"
 
 #include <yaml-cpp/yaml.h>
+#include <algorithm>
 #include <fstream>
 
 const std::string kSegmentsKey = "segments";
@@ -252,7 +253,9 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   // Layout: [t, x, y, z, vx, vy, vz, jx, jy, jz, sx, sy, sz, qw, qx, qy, qz,
   // wx, wy, wz, ax, ay, az, tm]
   const unsigned int dim = 3;
-  Eigen::MatrixXd output(trajectory_points.size(), 8 * dim + 3);
+  // The segment times take one row each, too.
+  Eigen::MatrixXd output(
+      std::max<int>(trajectory_points.size(), trajectory.K()), 8 * dim + 3);
   output.setZero();
   for (int i = 0; i < trajectory_points.size(); ++i) {
     const mav_msgs::EigenTrajectoryPoint state = trajectory_points[i];
-- 
2.43.0


From 2d02719bf871fc38909647d859b3508ab5b3d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 09/49] fix: drop free constraints of an earlier problem on a
 new setup

Setting up a fully constrained problem on a used optimiser aborted: the free
constraints still had the size of the earlier problem.
---
 .../impl/polynomial_optimization_linear_impl.h                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..ff8c892 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -232,6 +232,9 @@ void PolynomialOptimization<_N>::setupConstraintReorderingMatrix() {
 
   for (Eigen::VectorXd& df : fixed_constraints_compact_)
     df.resize(n_fixed_constraints_, Eigen::NoChange);
+  // Values of an earlier problem are meaningless for this one.
+  for (Eigen::VectorXd& dp : free_constraints_compact_)
+    dp.setZero(n_free_constraints_);
 
   int row = 0;
   int col = 0;
-- 
2.43.0


From 79fc2f250dcc195a5eed69b09cce7d9a9b49797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 10/49] fix: solve the linear optimisation on equilibrated
 constraints

SparseQR took the large differences between the columns of Rpp for rank
deficiency and left free derivatives at zero: with 10 or 12 coefficients and
segments of different duration the result missed the optimum by up to 90%.
---
 .../impl/polynomial_optimization_linear_impl.h       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index ff8c892..c5c022a 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -367,14 +367,24 @@ bool PolynomialOptimization<_N>::solveLinear() {
               n_free_constraints_);
   Eigen::SparseQR<Eigen::SparseMatrix<double>, Eigen::COLAMDOrdering<int>>
       solver;
+  // The entries of Rpp differ by many orders of magnitude (a change in position
+  // costs far more than one in a high derivative).  Scale to unit diagonal, for
+  // the solver to not mistake that for rank deficiency.
+  Eigen::VectorXd scale = Rpp.diagonal();
+  for (int i = 0; i < scale.size(); ++i) {
+    scale[i] = scale[i] > 0.0 ? 1.0 / std::sqrt(scale[i]) : 1.0;
+  }
+  Rpp = scale.asDiagonal() * Rpp * scale.asDiagonal();
   solver.compute(Rpp);
 
   // Compute dp_opt for every dimension.
   for (size_t dimension_idx = 0; dimension_idx < dimension_; ++dimension_idx) {
     Eigen::VectorXd df =
         -Rpf * fixed_constraints_compact_[dimension_idx];  // Rpf = Rfp^T
+    df = df.cwiseProduct(scale).eval();
+    const Eigen::VectorXd dp_scaled = solver.solve(df);
     free_constraints_compact_[dimension_idx] =
-        solver.solve(df);  // dp = -Rpp^-1 * Rpf * df
+        dp_scaled.cwiseProduct(scale);  // dp = -Rpp^-1 * Rpf * df
   }
 
   updateSegmentsFromCompactConstraints();
-- 
2.43.0


From cc0b7e207551f02298a1750ac34bba9ffc07dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 11/49] fix: bound the free derivatives that a magnitude limit
 is about

---
 .../impl/polynomial_optimization_nonlinear_impl.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index b8bd10f..abc7511 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -806,7 +806,6 @@ void PolynomialOptimizationNonLinear<_N>::
 
   const size_t n_free_constraints = poly_opt_.getNumberFreeConstraints();
   const size_t dim = poly_opt_.getDimension();
-  const int derivative_to_optimize = poly_opt_.getDerivativeToOptimize();
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
@@ -825,7 +824,9 @@ void PolynomialOptimizationNonLinear<_N>::
     const double value_hc = constraint_data->value;
 
     for (size_t v = 0; v < vertices.size(); ++v) {
-      for (int deriv = 0; deriv <= derivative_to_optimize; ++deriv) {
+      // Every derivative that is not fixed is a free one, also those above the
+      // derivative to optimize.
+      for (int deriv = 0; deriv < N / 2; ++deriv) {
         if (!vertices[v].hasConstraint(deriv)) {
           if (deriv == derivative_hc) {
             for (size_t k = 0; k < dim; ++k) {
-- 
2.43.0


From 383af5d9a4c642e564ffd05f12d07f906b346d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 12/49] fix: return the best solution of the nonlinear
 optimisation, not the last one tried

---
 .../polynomial_optimization_nonlinear_impl.h  | 35 +++++++++++++++++--
 .../polynomial_optimization_nonlinear.h       |  4 +++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index abc7511..9c4862f 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -161,9 +161,14 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     result = nlopt_->optimize(segment_times, final_cost);
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
+  // The last point nlopt evaluated is not necessarily the best one it found.
+  evaluateSolution(
+      &PolynomialOptimizationNonLinear<N>::objectiveFunctionTime,
+      segment_times);
+
   return result;
 }
 
@@ -206,6 +211,8 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
                << ". This likely means the optimization aborted early."
                << std::endl;
     if (final_cost == std::numeric_limits<double>::max()) {
+      poly_opt_.updateSegmentTimes(original_segment_times);
+      poly_opt_.solveLinear();
       return nlopt::FAILURE;
     }
 
@@ -220,6 +227,10 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
     }
   }
 
+  // The last point nlopt evaluated is not necessarily the best one it found.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+
   // Scaling of segment times
   std::vector<double> relative_segment_times;
   poly_opt_.getSegmentTimes(&relative_segment_times);
@@ -516,9 +527,14 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
     timer_solve.Stop();
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
+  // The last point nlopt evaluated is not necessarily the best one it found.
+  evaluateSolution(&PolynomialOptimizationNonLinear<
+                       N>::objectiveFunctionTimeAndConstraints,
+                   initial_solution);
+
   return result;
 }
 
@@ -844,6 +860,21 @@ void PolynomialOptimizationNonLinear<_N>::
   }
 }
 
+template <int _N>
+void PolynomialOptimizationNonLinear<_N>::evaluateSolution(
+    nlopt::vfunc objective, const std::vector<double>& x) {
+  // This is not an iteration of the optimization.
+  const int n_iterations = optimization_info_.n_iterations;
+  std::vector<double> no_gradient;
+  objective(x, no_gradient, this);
+  if (!optimization_parameters_.use_soft_constraints) {
+    for (const auto& constraint : inequality_constraints_) {
+      evaluateMaximumMagnitudeConstraint(x, no_gradient, constraint.get());
+    }
+  }
+  optimization_info_.n_iterations = n_iterations;
+}
+
 template <int _N>
 double PolynomialOptimizationNonLinear<_N>::computeTotalTrajectoryTime(
     const std::vector<double>& segment_times) {
diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
index 1ae2377..651850b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
@@ -285,6 +285,10 @@ class PolynomialOptimizationNonLinear {
   // Computes the gradients by doing forward difference!
   double getCostAndGradientMellinger(std::vector<double>* gradients);
 
+  // Makes x, the result of the optimization, the current solution and updates
+  // the optimization info with its costs.
+  void evaluateSolution(nlopt::vfunc objective, const std::vector<double>& x);
+
   // Computes the total trajectory time.
   static double computeTotalTrajectoryTime(
       const std::vector<double>& segment_times);
-- 
2.43.0


From 7b91477edb19d6fb7093abbd6cfffc1899db9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 13/49] fix: do not scale times to limits that were never set

---
 .../impl/polynomial_optimization_nonlinear_impl.h             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 9c4862f..b0ea5d0 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -381,8 +381,8 @@ void PolynomialOptimizationNonLinear<_N>::scaleSegmentTimesWithViolation() {
   poly_opt_.getTrajectory(&traj);
 
   // Get constraints
-  double v_max = 0.0;
-  double a_max = 0.0;
+  double v_max = std::numeric_limits<double>::infinity();
+  double a_max = std::numeric_limits<double>::infinity();
   for (const auto& constraint : inequality_constraints_) {
     if (constraint->derivative == derivative_order::VELOCITY) {
       v_max = constraint->value;
-- 
2.43.0


From ff10c6ec1bd5ef1c55938c9d242b7b245043bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 14/49] fix: apply the time factor of the velocity ramp
 estimate

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..4f3b15d 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -245,7 +245,7 @@ std::vector<double> estimateSegmentTimesVelocityRamp(
     vertices[i].getConstraint(derivative_order::POSITION, &start);
     vertices[i + 1].getConstraint(derivative_order::POSITION, &end);
     double t = computeTimeVelocityRamp(start, end, v_max, a_max);
-    t = std::max(kMinSegmentTime, t);
+    t = std::max(kMinSegmentTime, time_factor * t);
     segment_times.push_back(t);
   }
 
-- 
2.43.0


From e03e1ec486ffe6fdd206cf267aee736cf1991330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 15/49] fix: estimate a positive time between vertices at the
 same position

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index 4f3b15d..bff6bee 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -258,6 +258,11 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  // The optimization needs segments that take time, also between vertices at
+  // the same position.
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -283,6 +288,7 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From bab86852bdfdf816b7e9ce9014809efa268cebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 16/49] fix: do not take a reflection for a rotation matrix

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index be02f20..6c83556 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -178,7 +178,7 @@ inline bool isRotationMatrix(const Eigen::Matrix3d& mat){
     return false;
   }  
   // Check that det(R) = 1
-  if (mat.determinant() - 1.0 > kSmallValueCheck){
+  if (std::abs(mat.determinant() - 1.0) > kSmallValueCheck){
     std::cerr << "[mav_msgs::common] Rotation matrix requirement violated (det(R) = 1)" << std::endl;
     return false;
   }  
-- 
2.43.0


From 4fbf6b9c674f682c6c253f1a77ce8059252ff05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 17/49] fix: recover rotation vectors of rotations close to
 half a turn

---
 .../include/mav_msgs/common.hpp               | 27 +++----------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 6c83556..ec98a70 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -208,9 +208,6 @@ inline void matrixFromRotationVector(const Eigen::Vector3d& vec,
 // Brescianini 2018
 inline bool vectorFromRotationMatrix(const Eigen::Matrix3d& mat,
                                      Eigen::Vector3d* vec) {
-  // [r] = phi / 2sin(phi) * (R - R^T)
-  // where [r] is the skew matrix of r vector
-  // and phi satisfies 1 + 2cos(phi) = trace(R)
   assert(vec);
   
   if (!isRotationMatrix(mat)){
@@ -223,26 +220,10 @@ inline bool vectorFromRotationMatrix(const Eigen::Matrix3d& mat,
     return true;
   }
   
-  // Compute cosine of angle and clamp in range [-1, 1]
-  double cos_phi = (mat.trace() - 1.0) / 2.0;
-  // double cos_phi_clamped = boost::algorithm::clamp(cos_phi, -1.0, 1.0);
-  // use not boost
-  double cos_phi_clamped = std::max(-1.0, std::min(1.0, cos_phi));
-   
-  double phi = std::acos(cos_phi_clamped);
-  
-  if (phi < kSmallValueCheck){
-    *vec = Eigen::Vector3d::Zero();
-  } else{
-    Eigen::Matrix3d vec_skew = (mat - mat.transpose()) * phi / (2.0 * std::sin(phi));
-    Eigen::Vector3d vec_unskewed;
-    if (vectorFromSkewMatrix(vec_skew, &vec_unskewed)){
-      *vec = vec_unskewed;
-    }else{
-      return false;
-    }
-    
-  }
+  // [r] = phi / 2sin(phi) * (R - R^T) is singular at phi = pi, the angle and axis
+  // of the rotation are not.
+  const Eigen::AngleAxisd angle_axis(mat);
+  *vec = angle_axis.angle() * angle_axis.axis();
   return true;
 }
 
-- 
2.43.0


From 0e3c47319f676cec05f976f339c4c26d79c1093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 18/49] fix: return a pitch of 90 degrees as a number

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index ec98a70..aaafd5a 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -145,7 +145,8 @@ inline void getEulerAnglesFromQuaternion(const Eigen::Quaternion<double>& q,
 
     *euler_angles << std::atan2(2.0 * (q.w() * q.x() + q.y() * q.z()),
                            1.0 - 2.0 * (q.x() * q.x() + q.y() * q.y())),
-        std::asin(2.0 * (q.w() * q.y() - q.z() * q.x())),
+        // rounding may take the argument out of [-1, 1] at a pitch of 90 degrees
+        std::asin(std::max(-1.0, std::min(1.0, 2.0 * (q.w() * q.y() - q.z() * q.x())))),
         std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()),
               1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
   }
-- 
2.43.0


From 4a7c767e214af20f16c59a3c369402d0c522b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 19/49] fix: mark timestamps that were not given as invalid

---
 .../include/mav_msgs/eigen_mav_msgs.hpp                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
index a2a9ae6..04b698c 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
@@ -186,7 +186,8 @@ struct EigenTrajectoryPoint {
                        const Eigen::Vector3d& _angular_velocity,
                        const Eigen::Vector3d& _angular_acceleration,
                        const MavActuation& _degrees_of_freedom = MavActuation::DOF4)
-      : time_from_start_ns(_time_from_start_ns),
+      : timestamp_ns(-1),
+        time_from_start_ns(_time_from_start_ns),
         position_W(_position),
         velocity_W(_velocity),
         acceleration_W(_acceleration),
@@ -291,7 +292,8 @@ struct EigenOdometry {
                 const Eigen::Quaterniond& _orientation,
                 const Eigen::Vector3d& _velocity_body,
                 const Eigen::Vector3d& _angular_velocity)
-      : position_W(_position),
+      : timestamp_ns(-1),
+        position_W(_position),
         orientation_W_B(_orientation),
         velocity_B(_velocity_body),
         angular_velocity_B(_angular_velocity) {}
-- 
2.43.0


From 9717467bf5403aecedfb662b69feac0594f5c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 20/49] fix: complete the second derivative of waypoint
 modifications

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..e9ae819 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From 34e60dd976234b9ec12b8693a3234ee485bbf439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 21/49] fix: ignore modifications of a waypoint at the very
 time it is passed

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index e9ae819..49e7775 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,8 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    // there is no time left to react if the waypoint is being passed right now
+    if (sigma_ <= 0 || std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
     {
       return 0;
     }
-- 
2.43.0


From 7c1670cf8ed6ca7bd06b7889379cbe9f0f9f3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 22/49] fix: initialise waypoint and vehicle positions

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 2 +-
 src/dynamic_waypoint.cpp                                    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..2ddf896 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -92,7 +92,7 @@ class DynamicTrajectory {
   const int dimension_ = 3;
   std::atomic_bool from_scratch_ = true;
   const double a_max_ = MAV_MAX_ACCEL;
-  Eigen::Vector3d vehicle_position_;
+  Eigen::Vector3d vehicle_position_ = Eigen::Vector3d::Zero();
 
   mutable std::mutex traj_mutex_;
   mutable std::mutex future_mutex_;
diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..d92e5e6 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -3,7 +3,8 @@
 namespace dynamic_traj_generator
 {
   DynamicWaypoint::DynamicWaypoint()
-      : vertex_(mav_trajectory_generation::Vertex(3)){};
+      : vertex_(mav_trajectory_generation::Vertex(3)), original_position_(Eigen::Vector3d::Zero()),
+        current_position_(Eigen::Vector3d::Zero()){};
 
   DynamicWaypoint::DynamicWaypoint(const mav_trajectory_generation::Vertex &vertex, int index, const std::string &name)
       : DynamicWaypoint(vertex, name)
-- 
2.43.0


From 7311826fc51b4ed6a03f053c5d7e1a20b7a9c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 23/49] fix: report the maximum of samples that are all
 negative

---
 .../include/mav_trajectory_generation/timing.h                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..651b1cd 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -42,7 +42,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
+        max_(std::numeric_limits<T>::lowest()) {}
 
   void Add(T sample) {
     if (window_samples_ < N) {
-- 
2.43.0


From 05db8548e271200421fbc366986e20b954d05c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 24/49] fix: let several threads use timers at the same time

---
 .../mav_trajectory_generation/timing.h        |  5 +++++
 .../mav_trajectory_generation/src/timing.cpp  | 20 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index 651b1cd..06c0ccc 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -27,6 +27,7 @@
 #include <chrono>
 #include <limits>
 #include <map>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -175,6 +176,10 @@ class Timing {
 
   typedef std::vector<TimerMapValue> list_t;
 
+  // Timers are used by all threads that optimize trajectories.
+  static std::unique_lock<std::recursive_mutex> Lock();
+
+  std::recursive_mutex mutex_;
   list_t timers_;
   map_t tag_map_;
   size_t max_tag_length_;
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..61c8bed 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -37,12 +37,17 @@ Timing& Timing::Instance() {
   return t;
 }
 
+std::unique_lock<std::recursive_mutex> Timing::Lock() {
+  return std::unique_lock<std::recursive_mutex>(Instance().mutex_);
+}
+
 Timing::Timing() : max_tag_length_(0) {}
 
 Timing::~Timing() {}
 
 // Static functions to query the timers:
 size_t Timing::GetHandle(std::string const& tag) {
+  const auto lock = Lock();
   // Search for an existing tag.
   map_t::iterator i = Instance().tag_map_.find(tag);
   if (i == Instance().tag_map_.end()) {
@@ -61,6 +66,7 @@ size_t Timing::GetHandle(std::string const& tag) {
 }
 
 std::string Timing::GetTag(size_t handle) {
+  const auto lock = Lock();
   std::string tag;
 
   // Perform a linear search for the tag.
@@ -104,40 +110,47 @@ void Timer::Stop() {
 bool Timer::IsTiming() const { return timing_; }
 
 void Timing::AddTime(size_t handle, double seconds) {
+  const auto lock = Lock();
   timers_[handle].acc_.Add(seconds);
 }
 
 double Timing::GetTotalSeconds(size_t handle) {
+  const auto lock = Lock();
   return Instance().timers_[handle].acc_.Sum();
 }
 double Timing::GetTotalSeconds(std::string const& tag) {
   return GetTotalSeconds(GetHandle(tag));
 }
 double Timing::GetMeanSeconds(size_t handle) {
+  const auto lock = Lock();
   return Instance().timers_[handle].acc_.Mean();
 }
 double Timing::GetMeanSeconds(std::string const& tag) {
   return GetMeanSeconds(GetHandle(tag));
 }
 size_t Timing::GetNumSamples(size_t handle) {
+  const auto lock = Lock();
   return Instance().timers_[handle].acc_.TotalSamples();
 }
 size_t Timing::GetNumSamples(std::string const& tag) {
   return GetNumSamples(GetHandle(tag));
 }
 double Timing::GetVarianceSeconds(size_t handle) {
+  const auto lock = Lock();
   return Instance().timers_[handle].acc_.LazyVariance();
 }
 double Timing::GetVarianceSeconds(std::string const& tag) {
   return GetVarianceSeconds(GetHandle(tag));
 }
 double Timing::GetMinSeconds(size_t handle) {
+  const auto lock = Lock();
   return Instance().timers_[handle].acc_.Min();
 }
 double Timing::GetMinSeconds(std::string const& tag) {
   return GetMinSeconds(GetHandle(tag));
 }
 double Timing::GetMaxSeconds(size_t handle) {
+  const auto lock = Lock();
   return Instance().timers_[handle].acc_.Max();
 }
 double Timing::GetMaxSeconds(std::string const& tag) {
@@ -145,6 +158,7 @@ double Timing::GetMaxSeconds(std::string const& tag) {
 }
 
 double Timing::GetHz(size_t handle) {
+  const auto lock = Lock();
   return 1.0 / Instance().timers_[handle].acc_.RollingMean();
 }
 
@@ -157,6 +171,7 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::Print(std::ostream& out) {
+  const auto lock = Lock();
   map_t& tagMap = Instance().tag_map_;
 
   if (tagMap.empty()) {
@@ -197,7 +212,10 @@ std::string Timing::Print() {
   return ss.str();
 }
 
-void Timing::Reset() { Instance().tag_map_.clear(); }
+void Timing::Reset() {
+  const auto lock = Lock();
+  Instance().tag_map_.clear();
+}
 
 }  // namespace timing
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From a2f4d8693e53bf4b24e490fe4d3298f01776db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 25/49] fix: keep requests that arrive while a trajectory is
 generated

---
 src/dynamic_trajectory.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..2cd9a44 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,18 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    // the waypoint may also be one that still waits for its trajectory
+    for (auto pending : {&waypoints_to_be_set_, &waypoints_to_be_added_}) {
+      for (auto & waypoint : *pending) {
+        if (waypoint.getName() == name && name != "") {
+          waypoint.resetWaypoint(position);
+        }
+      }
+    }
+    if (generate_new_traj) {
+      // never withdraw the request of an earlier call
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
@@ -246,7 +257,7 @@ namespace dynamic_traj_generator
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
+          computing_new_trajectory_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -274,7 +285,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -608,6 +618,9 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
+    // requests that arrive from now on need another trajectory
+    computing_new_trajectory_ = true;
+    generate_new_traj_ = false;
     return next_trajectory_waypoints;
   }
 
@@ -676,7 +689,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 189ff9b68b2964414e0d1def4d0cda50ad8c7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 26/49] fix: keep the time evaluated last when the trajectory
 is swapped

---
 src/dynamic_trajectory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 2cd9a44..b72dc72 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -410,8 +410,13 @@ namespace dynamic_traj_generator
           traj_, arg1, arg2));
     }
 
+    // the user may have gone on evaluating since the generation began
     parameters_mutex_.lock();
-    parameters_ = new_parameters_;
+    parameters_.t_offset = new_parameters_.t_offset;
+    parameters_.global_time_last_trajectory_generated =
+        new_parameters_.global_time_last_trajectory_generated;
+    parameters_.last_local_time_evaluated = parameters_.last_global_time_evaluated -
+                                            parameters_.global_time_last_trajectory_generated;
     parameters_mutex_.unlock();
 
     traj_ = std::move(new_trajectory);
-- 
2.43.0


From 8be3bf2d544f4555fb4c088d445b7631203de121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 27/49] fix: fit the time of a new trajectory without the
 displacements of the old one

---
 src/dynamic_trajectory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index b72dc72..253caed 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -749,17 +749,16 @@ namespace dynamic_traj_generator
     const double step = 0.1f;
     const double max_eval_time = 1.5 * TRAJECTORY_COMPUTATION_TIME;
 
+    // the new trajectory already goes through modified waypoints, its references
+    // are not displaced by the modifications of the current one
     double min_time = 0.0f;
-    double global_time = min_time + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_time, min_time, 0);
+    Eigen::Vector3d pos = traj.evaluate(min_time);
 
     double min_distance = (pos - vehicle_position).norm();
 
     for (double t = step; t < max_eval_time; t += step)
     {
-    double global_t = t + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
-      // pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
+      pos = traj.evaluate(std::min(t, traj.getMaxTime()));
       double distance = (pos - vehicle_position).norm();
       if (distance <= min_distance)
       {
-- 
2.43.0


From 719a75b127fd58c71342d3868a1d49708c9e22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 28/49] fix: keep all waypoints ahead when a trajectory is
 stitched

---
 src/dynamic_trajectory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 253caed..09350b2 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -515,6 +515,7 @@ namespace dynamic_traj_generator
       }
       else
       {
+        local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
         // references = getReferences(traj_, convertIntoGlobalTime(local_eval_t), local_eval_t, true);
         references = getReferences(traj_, convertIntoGlobalTime(local_eval_t), local_eval_t);
         for (int i = 0; i < 1; i++)
@@ -529,9 +530,8 @@ namespace dynamic_traj_generator
       //                 computeSecurityTime(n_waypoints, new_parameters_.algorithm_time_constant);
       //
       // local_eval_t += 0.5f;  // FIXME: hardcoded
-      local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
     }
-    // append the rest of the waypoints
+    // append the rest of the waypoints, those after the last point appended above
 
     double global_eval_t = convertIntoGlobalTime(local_eval_t);
     for (auto &waypoint : waypoints)
@@ -579,7 +579,7 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
-      if (it->getTime() < last_t_eval) // && it->getTime() != 0.0f)
+      if (it->getTime() <= last_t_eval) // && it->getTime() != 0.0f)
       {
         DYNAMIC_LOG("Removing waypoint ");
         it = waypoints.erase(it);
@@ -716,7 +716,7 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
-- 
2.43.0


From 5b571be48632db5cd4eedfec10964a8bbcc1d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 29/49] fix: swap trajectories in one thread at a time

---
 src/dynamic_trajectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 09350b2..e07e0c3 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -128,6 +128,7 @@ namespace dynamic_traj_generator
   {
     // if (!checkIfTrajectoryIsAlreadyGenerated()) return false;
     // DYNAMIC_LOG("Evaluating trajectory");
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     checkTrajectoryGenerated();
 
     double global_time = t;
@@ -170,6 +171,7 @@ namespace dynamic_traj_generator
 
   double DynamicTrajectory::getMaxTime()
   {
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     if (!checkIfTrajectoryIsAlreadyGenerated())
     {
       waitUntilTrajectoryIsGenerated();
@@ -179,6 +181,7 @@ namespace dynamic_traj_generator
 
   double DynamicTrajectory::getMinTime()
   {
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     if (!checkIfTrajectoryIsAlreadyGenerated())
     {
       waitUntilTrajectoryIsGenerated();
@@ -188,6 +191,7 @@ namespace dynamic_traj_generator
 
   DynamicWaypoint::Deque DynamicTrajectory::getDynamicWaypoints()
   {
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     checkTrajectoryGenerated();
     std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     return dynamic_waypoints_;
-- 
2.43.0


From 9e3035153280c32c513abfa4128c24029df54a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 30/49] fix: compare and copy shared trajectories under their
 lock

---
 .../thread_safe_trajectory.hpp                | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
index 9549dd0..677d472 100644
--- a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
@@ -25,6 +25,12 @@ private:
     trajectory_ptr_ = std::move(trajectory);
   }
 
+  std::shared_ptr<mav_trajectory_generation::Trajectory> get() const
+  {
+    std::lock_guard<std::mutex> lock(evaluate_mutex_);
+    return trajectory_ptr_;
+  }
+
 public:
   ThreadSafeTrajectory(){
   };
@@ -36,19 +42,19 @@ public:
   ThreadSafeTrajectory(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
   };
 
   ThreadSafeTrajectory(ThreadSafeTrajectory &&other)
   {
     /* std::cout<<"ThreadSafeTrajectory move constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
   };
 
   ThreadSafeTrajectory &operator=(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy assignment"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
     return *this;
   };
 
@@ -92,19 +98,19 @@ public:
 
   bool operator==(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ == trajectory_ptr_;
+    return other.get() == get();
   }
   bool operator!=(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ != trajectory_ptr_;
+    return other.get() != get();
   }
   bool operator==(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ == nullptr;
+    return get() == nullptr;
   }
   bool operator!=(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ != nullptr;
+    return get() != nullptr;
   }
 
   Eigen::VectorXd evaluate(double t, int derivative_order = 0) const
-- 
2.43.0


From b05f645e07510adba0abee1bc9668b3b7d4f661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 31/49] fix: wait for a running generation before members are
 destroyed

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 2ddf896..ca27908 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // a generation still running uses members that are destroyed before the future
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From e9af68028c45174e07e1b90dec11402c63512958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 32/49] fix: read pending requests and parameters under their
 locks

---
 .../dynamic_trajectory.hpp                             |  1 +
 src/dynamic_trajectory.cpp                             | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index ca27908..70fc602 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -210,6 +210,7 @@ class DynamicTrajectory {
   bool checkStitchTrajectory();
   bool checkInSecurityZone();
   bool checkTrajectoryModifiers();
+  bool hasWaypointsToModify();
 
   bool checkTrajectoryGenerated();
   bool checkIfTrajectoryIsAlreadyGenerated() { return traj_ != nullptr; };
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index e07e0c3..bd8a1f9 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -249,6 +249,12 @@ namespace dynamic_traj_generator
     return t + parameters_.global_time_last_trajectory_generated;
   };
 
+  bool DynamicTrajectory::hasWaypointsToModify()
+  {
+    const std::lock_guard<std::mutex> lock(todo_mutex);
+    return waypoints_to_be_modified_.size() > 0;
+  }
+
   void DynamicTrajectory::todoThreadLoop()
   {
     while (!stop_process_)
@@ -280,7 +286,7 @@ namespace dynamic_traj_generator
           from_scratch_ = false;
           DYNAMIC_LOG("stitching new trajectory");
           next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
-              parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+              new_parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
         }
         else
         {
@@ -291,7 +297,7 @@ namespace dynamic_traj_generator
         generateTrajectory(next_trajectory_waypoint_, false);
       }
 
-      else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
+      else if (hasWaypointsToModify() && !computing_new_trajectory_)
       {
         // DYNAMIC_LOG("Modifying waypoints");
         const std::lock_guard<std::mutex> lock(todo_mutex);
-- 
2.43.0


From 2b006a7c73a299a495cecabf7ec3223b81e3c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 33/49] fix: do not access segments of an empty trajectory

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index bc30c7c..d6d8225 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -46,6 +46,11 @@ bool Trajectory::operator==(const Trajectory& rhs) const {
 }
 
 Eigen::VectorXd Trajectory::evaluate(double t, int derivative_order) const {
+  if (segments_.empty()) {
+    LOG(ERROR) << "Cannot evaluate a trajectory without segments!";
+    return Eigen::VectorXd::Zero(D(), 1);
+  }
+
   double accumulated_time = 0.0;
 
   // Look for the correct segment.
-- 
2.43.0


From a01041a3abb2ede70ae7de3b4b43e8911b151260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 34/49] fix: allow results to replace the objects they are made
 from

---
 .../mav_trajectory_generation/trajectory.h    |  8 ++++++--
 .../mav_trajectory_generation/src/segment.cpp | 20 +++++++++++--------
 .../src/trajectory.cpp                        |  7 ++++---
 .../mav_trajectory_generation/src/vertex.cpp  | 11 +++++-----
 4 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/trajectory.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/trajectory.h
index f487474..9e7ffc1 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/trajectory.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/trajectory.h
@@ -57,9 +57,11 @@ class Trajectory {
     D_ = segments.front().D();
     N_ = segments.front().N();
     max_time_ = 0.0;
+    // The segments may be the ones of this trajectory.
+    const Segment::Vector new_segments = segments;
     segments_.clear();
 
-    addSegments(segments);
+    addSegments(new_segments);
   }
 
   void addSegments(const Segment::Vector& segments) {
@@ -68,7 +70,9 @@ class Trajectory {
       CHECK_EQ(segment.N(), N_);
       max_time_ += segment.getTime();
     }
-    segments_.insert(segments_.end(), segments.begin(), segments.end());
+    // The segments may be the ones of this trajectory.
+    const Segment::Vector new_segments = segments;
+    segments_.insert(segments_.end(), new_segments.begin(), new_segments.end());
   }
 
   void getSegments(Segment::Vector* segments) const {
diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index bbec3e0..4f14e72 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -207,9 +207,11 @@ bool Segment::getSegmentWithSingleDimension(int dimension,
     return false;
   }
 
-  *new_segment = Segment(N_, 1);
-  (*new_segment)[0] = polynomials_[dimension];
-  new_segment->setTime(time_);
+  // The new segment may replace this one.
+  Segment result(N_, 1);
+  result[0] = polynomials_[dimension];
+  result.setTime(time_);
+  *new_segment = result;
   return true;
 }
 
@@ -244,14 +246,15 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     }
   }
 
-  *new_segment = Segment(new_N, new_D);
+  // The new segment may replace one of the given ones.
+  Segment result(new_N, new_D);
 
   if (N_ == segment_to_append.N()) {
     for (int i = 0; i < new_D; i++) {
       if (i < D_) {
-        (*new_segment)[i] = current_segment[i];
+        result[i] = current_segment[i];
       } else {
-        (*new_segment)[i] = segment_to_append_temp[i - D_];
+        result[i] = segment_to_append_temp[i - D_];
       }
     }
   } else {
@@ -268,11 +271,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
           return false;
         }
       }
-      (*new_segment)[i] = polynomial_to_append;
+      result[i] = polynomial_to_append;
     }
   }
 
-  new_segment->setTime(new_time);
+  result.setTime(new_time);
+  *new_segment = result;
   return true;
 }
 
diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index d6d8225..57e82fb 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -257,8 +257,8 @@ std::vector<double> Trajectory::getSegmentTimes() const {
 bool Trajectory::addTrajectories(const std::vector<Trajectory>& trajectories,
                                  Trajectory* merged) const {
   CHECK_NOTNULL(merged);
-  merged->clear();
-  *merged = *this;
+  // The result may replace one of the trajectories that are added.
+  Trajectory result = *this;
 
   for (const Trajectory& t : trajectories) {
     // Check dimensions and coefficients.
@@ -273,9 +273,10 @@ bool Trajectory::addTrajectories(const std::vector<Trajectory>& trajectories,
     // Add segments.
     Segment::Vector segments;
     t.getSegments(&segments);
-    merged->addSegments(segments);
+    result.addSegments(segments);
   }
 
+  *merged = result;
   return true;
 }
 
diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index bff6bee..db575d8 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -185,24 +185,25 @@ bool Vertex::getSubdimension(const std::vector<size_t>& subdimensions,
                              int max_derivative_order,
                              Vertex* subvertex) const {
   CHECK_NOTNULL(subvertex);
-  *subvertex = Vertex(subdimensions.size());
-
   // Check if all subdimensions exist.
   for (size_t subdimension : subdimensions)
     if (subdimension >= D_) return false;
 
-  // Copy constraints up to maximum derivative order.
+  // Copy constraints up to maximum derivative order. The new vertex may replace
+  // this one.
+  Vertex result(subdimensions.size());
   for (Constraints::const_iterator it = constraints_.begin();
        it != constraints_.end(); ++it) {
     int derivative_order = it->first;
     if (derivative_order > max_derivative_order) continue;
     const ConstraintValue& original_constraint = it->second;
-    ConstraintValue subsconstraint(subvertex->D());
+    ConstraintValue subsconstraint(result.D());
     for (size_t i = 0; i < subdimensions.size(); i++) {
       subsconstraint[i] = original_constraint[subdimensions[i]];
     }
-    subvertex->addConstraint(derivative_order, subsconstraint);
+    result.addConstraint(derivative_order, subsconstraint);
   }
+  *subvertex = result;
   return true;
 }
 
-- 
2.43.0


From 3cfc66fda1ebddba1500d315400838aa7f4add45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:43 +0000
Subject: [PATCH 35/49] fix: compare vertices of different dimension without
 aborting

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index db575d8..69c3e49 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -168,6 +168,7 @@ bool Vertex::hasConstraint(int derivative_order) const {
 }
 
 bool Vertex::isEqualTol(const Vertex& rhs, double tol) const {
+  if (D_ != rhs.D_) return false;
   if (constraints_.size() != rhs.constraints_.size()) return false;
   // loop through lhs constraint map
   for (typename Constraints::const_iterator it = cBegin(); it != cEnd(); ++it) {
-- 
2.43.0


From 9dee23daaf93958c18a9c8399a90d41bf2e150ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 36/49] fix: add polynomials of different size without aborting

---
 .../include/mav_trajectory_generation/polynomial.h     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index a2b505b..8b402d0 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -69,10 +69,16 @@ class Polynomial {
     return !operator==(rhs);
   }
   inline Polynomial operator+(const Polynomial& rhs) const {
-    return Polynomial(coefficients_ + rhs.coefficients_);
+    Polynomial result(*this);
+    result += rhs;
+    return result;
   }
   inline Polynomial& operator+=(const Polynomial& rhs) {
-    this->coefficients_ += rhs.coefficients_;
+    if (N_ < rhs.N_) {
+      coefficients_.conservativeResizeLike(Eigen::VectorXd::Zero(rhs.N_));
+      N_ = rhs.N_;
+    }
+    this->coefficients_.head(rhs.N_) += rhs.coefficients_;
     return *this;
   }
   // The product of two polynomials is the convolution of their coefficients.
-- 
2.43.0


From 43147cbfef36c9cdf0889fbb554f9b3d8efc426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:13 +0000
Subject: [PATCH 37/49] fix: accept a pair of real roots only if both are roots

---
 .../mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index fb87144..5d3d500 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -716,6 +716,12 @@ void QuadIT_ak1(int N, int* NZ, double uu, double vv, double* szr, double* szi,
 
     mp = fabs(-((*szr) * (*b)) + (*a)) + fabs((*szi) * (*b));
 
+    // The value at one of two real zeros says nothing about the other one
+    if (*szi == 0.0) {
+      t = fabs(-((*lzr) * (*b)) + (*a));
+      mp = ((t > mp) ? t : mp);
+    }  // End if (*szi == 0.0)
+
     // Compute a rigorous bound on the rounding error in evaluating p
 
     zm = sqrt(fabs(v));
-- 
2.43.0


From 34487d33adc40a38501b516df9281405f6f23975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 38/49] fix: draw the updates that arrive while the plotter is
 drawing

---
 include/dynamic_trajectory_generator/utils/plotting_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/plotting_utils.hpp b/include/dynamic_trajectory_generator/utils/plotting_utils.hpp
index 1ab38d0..6b972ea 100644
--- a/include/dynamic_trajectory_generator/utils/plotting_utils.hpp
+++ b/include/dynamic_trajectory_generator/utils/plotting_utils.hpp
@@ -271,6 +271,9 @@ class TrajectoryPlotter {
         continue;
       }
 
+      // an update that arrives while drawing has to be drawn afterwards
+      update_plot_ = false;
+
       clear3dGraph();
       clear2dGraph();
       mutex_.lock();
@@ -289,7 +292,6 @@ class TrajectoryPlotter {
       mutex_.unlock();
 
       plt::show(false);
-      update_plot_ = false;
     }
     plotUAVrefs();
     DYNAMIC_LOG("Close figure to continue");
-- 
2.43.0


From be866e4b807e2c620bb6c88f5bef0538fe597fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 39/49] fix: initialise the plotter's flags before its thread
 reads them

---
 .../dynamic_trajectory_generator/utils/plotting_utils.hpp    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dynamic_trajectory_generator/utils/plotting_utils.hpp b/include/dynamic_trajectory_generator/utils/plotting_utils.hpp
index 6b972ea..8838002 100644
--- a/include/dynamic_trajectory_generator/utils/plotting_utils.hpp
+++ b/include/dynamic_trajectory_generator/utils/plotting_utils.hpp
@@ -43,7 +43,6 @@ class TrajectoryPlotter {
     static_plots_2d_.clear();
 
     plot_thread_ = std::thread(&TrajectoryPlotter::plot, this);
-    ended_ = false;
   }
   ~TrajectoryPlotter() {
     ended_ = true;
@@ -74,8 +73,8 @@ class TrajectoryPlotter {
                         >>
       static_plots_2d_;
 
-  std::atomic_bool ended_;
-  std::atomic_bool update_plot_;
+  std::atomic_bool ended_{false};
+  std::atomic_bool update_plot_{false};
 
   std::thread plot_thread_;
 
-- 
2.43.0


From 928d1dafb94f9e5b257df8f19a93b8fed7b889a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:00 +0000
Subject: [PATCH 40/49] fix: let waypoints without a name hold back the next
 trajectory like others

Close to the next waypoint no new trajectory is begun, since stitching drops
the waypoints within that time. Waypoints without a name were not looked at,
and so got lost when one of them was close.
---
 src/dynamic_trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index bd8a1f9..17ac721 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -730,7 +730,7 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
-      if (waypoint.getName() != "" && waypoint.getTime() > last_t_eval)
+      if (waypoint.getTime() > last_t_eval)
       {
         if (waypoint.getTime() - last_t_eval > SECURITY_TIME_BEFORE_WAYPOINT)
         {
-- 
2.43.0


From 84f7d1bd1db45dd06ed4347f9abee425e156c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:08 +0000
Subject: [PATCH 41/49] fix: plan the next trajectory for the time compensated,
 as it is flown

Which waypoints are passed and whether the trajectory is over was asked for
the time evaluated without its compensation. After a trajectory that was taken
over late (a compensation of -0.9 s, say) waypoints not yet passed got lost, and
a trajectory still flown was replaced by one starting at rest.
---
 src/dynamic_trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 17ac721..015c006 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -585,7 +585,7 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
@@ -661,7 +661,7 @@ namespace dynamic_traj_generator
 
     DYNAMIC_LOG("loading parameters");
     parameters_mutex_.lock();
-    double last_global_t_eval = parameters_.last_global_time_evaluated;
+    double last_global_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     double previous_t_global = parameters_.global_time_last_trajectory_generated;
     parameters_mutex_.unlock();
     DYNAMIC_LOG("parameters loaded");
-- 
2.43.0


From 09e6bfb07d0e978e7e0cc157da43e28af645ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:58 +0000
Subject: [PATCH 42/49] fix: displace the reference from where it is when a
 waypoint is moved

The displacement's width was taken from the time evaluated without its
compensation, at which the reference is not: it jumped when a waypoint was
moved, and never reached a waypoint that is ahead only for the compensated
time.
---
 src/dynamic_trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 015c006..645d935 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -488,7 +488,8 @@ namespace dynamic_traj_generator
       if (waypoint.getName() == name && waypoint.getName() != "")
       {
         const std::lock_guard<std::mutex> lock3(parameters_mutex_);
-        waypoint.setCurrentPosition(position, parameters_.last_global_time_evaluated);
+        waypoint.setCurrentPosition(
+          position, parameters_.last_global_time_evaluated + parameters_.t_offset);
         modified = true;
         trajectory_regenerated_ = true;
       }
-- 
2.43.0


From e6c64d21c61247c6ccdc6f43f3bf86eae3ec8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:44 +0000
Subject: [PATCH 43/49] fix: forget the time and displacements of a waypoint
 that is asked for again

A waypoint from the list of an earlier trajectory kept its time and its
displacements when it was set or appended: stitching took it for passed and
dropped it, or the reference was displaced beside it.
---
 src/dynamic_trajectory.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 645d935..763343f 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -45,6 +45,14 @@ namespace dynamic_traj_generator
     return value;
   }
 
+  // a waypoint asked for may come from the list of an earlier trajectory, whose
+  // time and displacements do not belong to the next one
+  static void forgetTrajectory(DynamicWaypoint &waypoint)
+  {
+    waypoint.resetWaypointWithCurrentPosition();
+    waypoint.setTime(0.0);
+  }
+
   static void calculateIndexDynamicWaypoints(DynamicWaypoint::Deque &dynamic_vector)
   {
     for (int i = 0; i < dynamic_vector.size(); i++)
@@ -68,6 +76,7 @@ namespace dynamic_traj_generator
     for (auto &waypoint : waypoints)
     {
       waypoints_to_be_set_.emplace_back(waypoint);
+      forgetTrajectory(waypoints_to_be_set_.back());
     }
     generate_new_traj_ = true;
   };
@@ -76,6 +85,7 @@ namespace dynamic_traj_generator
   {
     const std::lock_guard<std::mutex> lock(todo_mutex);
     waypoints_to_be_added_.emplace_back(waypoint);
+    forgetTrajectory(waypoints_to_be_added_.back());
     generate_new_traj_ = true;
   }
 
-- 
2.43.0


From 4c91ebeda2bbf4b5fbaac910297c4c7316f769f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:25 +0000
Subject: [PATCH 44/49] fix: report trajectories that could not be written to a
 file

---
 subpackages/mav_trajectory_generation/src/io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 977cdac..c5ec626 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -181,7 +181,8 @@ bool segmentsToFile(
   fout << out.c_str();
   fout.close();
 
-  return true;
+  // Writing fails e.g. on a full disk.
+  return !fout.fail();
 }
 
 bool segmentsFromFile(const std::string& filename,
@@ -298,7 +299,9 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   }
   fs << output;
   fs.close();
-  return true;
+
+  // Writing fails e.g. on a full disk.
+  return !fs.fail();
 }
 
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 0dbde1ff62051cf747ca5ef9a766d7c0bd39841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:25 +0000
Subject: [PATCH 45/49] fix: refuse a directory where segments are to be read
 from

---
 subpackages/mav_trajectory_generation/src/io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index c5ec626..ab34dc0 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -194,6 +194,11 @@ bool segmentsFromFile(const std::string& filename,
   if (!in.good()) {
     return false;
   }
+  // A directory can be opened, but not read.
+  in.peek();
+  if (in.bad()) {
+    return false;
+  }
   segments->clear();
 
   // Parse YAML.
-- 
2.43.0


From 1ab163bced3e5afb5e762de966d354c1ddc12743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:39 +0000
Subject: [PATCH 46/49] fix: prepare the next trajectory for one evaluated
 time, after the last was taken over

---
 src/dynamic_trajectory.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 763343f..8eebcd5 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -281,9 +281,8 @@ namespace dynamic_traj_generator
           continue;
         }
         parameters_mutex_.lock();
-        new_parameters_ = parameters_;
         new_parameters_.global_time_last_trajectory_generated =
-            parameters_.last_global_time_evaluated;
+            new_parameters_.last_global_time_evaluated;
         parameters_mutex_.unlock();
 
         DYNAMIC_LOG("generate new trajectory");
@@ -596,7 +595,7 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
+    double last_t_eval = new_parameters_.last_global_time_evaluated + new_parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
@@ -672,7 +671,7 @@ namespace dynamic_traj_generator
 
     DYNAMIC_LOG("loading parameters");
     parameters_mutex_.lock();
-    double last_global_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
+    double last_global_t_eval = new_parameters_.last_global_time_evaluated + new_parameters_.t_offset;
     double previous_t_global = parameters_.global_time_last_trajectory_generated;
     parameters_mutex_.unlock();
     DYNAMIC_LOG("parameters loaded");
@@ -737,7 +736,7 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
+    double last_t_eval = new_parameters_.last_global_time_evaluated + new_parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
@@ -759,7 +758,15 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::checkIfTrajectoryCanBeGenerated()
   {
-    return !checkInSecurityZone() && !computing_new_trajectory_;
+    if (computing_new_trajectory_)
+      return false;
+
+    // the user may go on evaluating while the next trajectory is being prepared,
+    // all that is decided about it is decided for the same time
+    parameters_mutex_.lock();
+    new_parameters_ = parameters_;
+    parameters_mutex_.unlock();
+    return !checkInSecurityZone();
   }
 
   void DynamicTrajectory::timeFittingWithVehiclePosition(ThreadSafeTrajectory &traj, const Eigen::Vector3d vehicle_position)
-- 
2.43.0


From 19b7b021ca13a7e0c58029289bdd5e302735c053 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:54:53 +0000
Subject: [PATCH 47/49] fix: report each change of the trajectory to
 getWasTrajectoryRegenerated once

A change between the reading of the flag and its being reset was never reported.
---
 src/dynamic_trajectory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 8eebcd5..eadf982 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -235,9 +235,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From dcabfad3c59d8e3a1e738160e3192127e6ef6206 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:54:53 +0000
Subject: [PATCH 48/49] fix: report a new trajectory once its waypoints have
 been taken over

A thread that was told of the new trajectory could still be given the waypoints
of the one before.
---
 src/dynamic_trajectory.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index eadf982..d0a910a 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -437,8 +437,6 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
 
     traj_ = std::move(new_trajectory);
-
-    trajectory_regenerated_ = true;
     DYNAMIC_LOG("Trajectory swapped");
   };
 
@@ -711,6 +709,7 @@ namespace dynamic_traj_generator
       {
         swapTrajectory();
         swapDynamicWaypoints();
+        trajectory_regenerated_ = true;
         computing_new_trajectory_ = false;
       }
     }
-- 
2.43.0


From cb178b721040b42eea8909cde1dfef1e72086f73 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:54:53 +0000
Subject: [PATCH 49/49] fix: do not let a modification in between displace only
 some of the references

Position, velocity and acceleration were each computed under a lock of their own.
---
 src/dynamic_trajectory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d0a910a..0abbd43 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -164,6 +164,8 @@ namespace dynamic_traj_generator
                                               double local_time, const bool only_positions)
   {
     References refs;
+    // a modification applied in between would displace only some of the references
+    const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     for (short int i = 0; i < 3; i++)
     {
       refs[i] = evaluateModifiedTrajectory(traj, global_time, local_time, i);
@@ -423,8 +425,8 @@ namespace dynamic_traj_generator
       auto arg1 = parameters_.last_global_time_evaluated + parameters_.t_offset;
       auto arg2 = parameters_.last_local_time_evaluated + parameters_.t_offset;
       parameters_mutex_.unlock();
-      timeFittingWithVehiclePosition(new_trajectory,evaluateModifiedTrajectory(
-          traj_, arg1, arg2));
+      timeFittingWithVehiclePosition(new_trajectory,getReferences(
+          traj_, arg1, arg2, true).position);
     }
 
     // the user may have gone on evaluating since the generation began
@@ -469,7 +471,6 @@ namespace dynamic_traj_generator
 
     if (global_time > 0)
     {
-      dynamic_waypoints_mutex_.lock();
       for (auto &waypoint : dynamic_waypoints_)
       {
         if (waypoint.getName() == "")
@@ -478,7 +479,6 @@ namespace dynamic_traj_generator
         }
         refs += waypoint.trajectoryCompensation(global_time, order);
       }
-      dynamic_waypoints_mutex_.unlock();
     }
     return refs;
   }
-- 
2.43.0

