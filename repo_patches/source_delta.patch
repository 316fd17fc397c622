From ad0c17488badf173df921b97986736e054e4a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 001/146] fix: angle between parallel vectors is NaN when
 rounding pushes the cosine out of range

---
 src/math_physics/math/vector_template_functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..89b9433 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -143,6 +143,9 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
+  // Rounding can push the cosine of (anti-)parallel vectors slightly out of [-1, 1]
+  if (cos > 1.0) cos = 1.0;
+  if (cos < -1.0) cos = -1.0;
   return acos(cos);
 }
 
-- 
2.43.0


From c829f6cc9ff259d43edae585ceedcb70e89344ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 002/146] fix: rotation between (anti-)parallel vectors aborts
 or loses accuracy by rounding

---
 src/math_physics/math/quaternion.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index d2f28f0..39ebb5b 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -34,19 +34,22 @@ Quaternion::Quaternion(const Vector<3>& vector_before, const Vector<3>& vector_a
   // outer product (rotation rotation_axis for converting vector_before to vector_after)
   Vector<3> op = OuterProduct(normalized_v_before, normalized_v_after);
 
-  if (ip > 1.0 - DBL_EPSILON) {  // if theta=0, then rotation is not need
+  // The rotation axis is numerically undefined when the outer product is at rounding level
+  const double op_norm = op.CalcNorm();
+  const bool is_parallel = op_norm < 1e-8;
+
+  if (is_parallel && ip > 0.0) {  // if theta=0, then rotation is not need
     quaternion_[0] = 0.0;
     quaternion_[1] = 0.0;
     quaternion_[2] = 0.0;
     quaternion_[3] = 1.0;
-  } else if (ip < -1.0 + DBL_EPSILON) {
+  } else if (is_parallel) {
     // if theta=180deg, the rotation rotation_axis can't be defined, so rotate vector_before manually
     Vector<3> rotation_axis = GenerateOrthogonalUnitVector(vector_before);
     quaternion_[0] = rotation_axis[0], quaternion_[1] = rotation_axis[1], quaternion_[2] = rotation_axis[2], quaternion_[3] = 0.0;
   } else {
-    assert(op.CalcNorm() > 0.0);
-    Vector<3> rotation_axis = 1.0 / op.CalcNorm() * op;
-    double rotation_angle = acos(ip);
+    Vector<3> rotation_axis = 1.0 / op_norm * op;
+    double rotation_angle = atan2(op_norm, ip);
     quaternion_[0] = rotation_axis[0] * sin(0.5 * rotation_angle);
     quaternion_[1] = rotation_axis[1] * sin(0.5 * rotation_angle);
     quaternion_[2] = rotation_axis[2] * sin(0.5 * rotation_angle);
-- 
2.43.0


From e56a9ce6e7dedcf913e0985bd914da7d2eb5b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 003/146] fix: wrapping a huge angle into [0, 2pi] never
 terminates

---
 src/math_physics/math/s2e_math.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/math_physics/math/s2e_math.cpp b/src/math_physics/math/s2e_math.cpp
index fb4e53e..6d22e1d 100644
--- a/src/math_physics/math/s2e_math.cpp
+++ b/src/math_physics/math/s2e_math.cpp
@@ -5,19 +5,17 @@
 
 #include "s2e_math.hpp"
 
+#include <cmath>
 #include <math_physics/math/constants.hpp>
 
 namespace s2e::math {
 double WrapTo2Pi(const double angle_rad) {
   double angle_out = angle_rad;
   if (angle_out < 0.0) {
-    while (angle_out < 0.0) {
-      angle_out += math::tau;
-    }
+    angle_out = fmod(angle_out, math::tau);
+    if (angle_out < 0.0) angle_out += math::tau;
   } else if (angle_out > math::tau) {
-    while (angle_out > math::tau) {
-      angle_out -= math::tau;
-    }
+    angle_out = fmod(angle_out, math::tau);
   } else {
     // nothing to do
   }
-- 
2.43.0


From 1f5548c23a2985dd8fa6e57b1a875701bcc88cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 004/146] fix: decoding a SLIP frame cut inside an escape
 sequence or an empty one reads out of bounds

---
 src/utilities/slip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..03783cc 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,11 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    if (fesc_itr + 1 == out.end()) {
+      // The frame ends in the middle of an escape sequence
+      out.erase(fesc_itr);
+      break;
+    }
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -44,6 +49,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
   std::vector<uint8_t> in_without_header = in;
+  if (in_without_header.empty()) return in_without_header;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
 }
-- 
2.43.0


From 43c49e0c4e097eb9076e23b262c4287642163b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 005/146] fix: byte-order copy of zero bytes writes one byte

---
 src/utilities/endian.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..8bb894f 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,9 +15,8 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
-  }
+  if (size == 0) return dst;
+  size--;
 
   for (i = 0; i <= size; i++) {
     *(dst_ + (size - i)) = *(src_ + i);
-- 
2.43.0


From 11723bffdd5244d6063dcc33f664e5443de3d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 006/146] fix: quantization overflows int when a value spans
 many resolution steps

---
 src/utilities/quantization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utilities/quantization.cpp b/src/utilities/quantization.cpp
index 1cfd326..0e815d7 100644
--- a/src/utilities/quantization.cpp
+++ b/src/utilities/quantization.cpp
@@ -5,11 +5,13 @@
 
 #include "quantization.hpp"
 
+#include <cmath>
+
 namespace s2e::utilities {
 
 double quantization(const double continuous_number, const double resolution) {
-  int bin_num = (int)((double)continuous_number / resolution);
-  return (double)bin_num * resolution;
+  const double bin_num = std::trunc(continuous_number / resolution);
+  return bin_num * resolution;
 }
 
 float quantization_float(const double continuous_number, const double resolution) { return (float)quantization(continuous_number, resolution); }
-- 
2.43.0


From 36efb276235faf9bfbc3ddab1e64277118284bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 007/146] fix: shuffled generator never uses its mixing table
 because the index is always zero

---
 ...imal_standard_linear_congruential_generator_with_shuffle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..0deece8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -31,7 +31,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From 9541f5193f115211d539ae2aafe8a3305be7a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 008/146] fix: reseeded shuffled and normal generators keep
 state of the previous seed

---
 ...nimal_standard_linear_congruential_generator_with_shuffle.cpp | 1 +
 src/math_physics/randomization/normal_randomization.hpp          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 0deece8..e630dc6 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -26,6 +26,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
   for (size_t i = 0; i < kTableSize; i++) {
     mixing_table_[i] = minimal_lcg_;
   }
+  table_position_ = 0;
 }
 
 MinimalStandardLcgWithShuffle::operator double() {
diff --git a/src/math_physics/randomization/normal_randomization.hpp b/src/math_physics/randomization/normal_randomization.hpp
index b230680..555ef49 100644
--- a/src/math_physics/randomization/normal_randomization.hpp
+++ b/src/math_physics/randomization/normal_randomization.hpp
@@ -94,6 +94,7 @@ class NormalRand {
     average_ = average;
     standard_deviation_ = standard_deviation;
     randomizer_.InitSeed(seed);
+    is_empty_ = true;  // Discard the second value made from the previous seed
   }
 
  private:
-- 
2.43.0


From 9c7faed778560229b956c00fb6da01a5bf3fdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 009/146] fix: congruential generator leaves its range for
 seeds that are multiples of or far beyond its modulus

---
 ...minimal_standard_linear_congruential_generator.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
index c1821e9..2ab27f3 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
@@ -13,16 +13,13 @@ const double MinimalStandardLcg::a_m_ = 1.0 / MinimalStandardLcg::kM;
 
 MinimalStandardLcg::MinimalStandardLcg() : seed_(0xdeadbeef) {}
 
-MinimalStandardLcg::MinimalStandardLcg(const long seed) : seed_(seed) {
-  if (seed == 0) {
-    throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
-  }
-}
+MinimalStandardLcg::MinimalStandardLcg(const long seed) : seed_(1) { Initialize(seed); }
 void MinimalStandardLcg::Initialize(const long seed) {
-  if (seed == 0) {
+  // Seeds are equivalent modulo kM. The generator is stuck at zero when the seed is a multiple of kM
+  seed_ = seed % kM;
+  if (seed_ == 0) {
     throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
   }
-  seed_ = seed;
 }
 
 MinimalStandardLcg::operator double() {
-- 
2.43.0


From a3cc2e737f70330896cf3ac627306543ba03a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 010/146] fix: position data list of axis 3 reads out of bounds

---
 src/math_physics/orbit/interpolation_orbit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/interpolation_orbit.hpp b/src/math_physics/orbit/interpolation_orbit.hpp
index 8391357..0d603f5 100644
--- a/src/math_physics/orbit/interpolation_orbit.hpp
+++ b/src/math_physics/orbit/interpolation_orbit.hpp
@@ -69,7 +69,7 @@ class InterpolationOrbit {
    * @note return id=2 data when the input axis is over 3.
    */
   inline std::vector<double> GetPositionDataList(const size_t axis) const {
-    if (axis > 3) {
+    if (axis >= 3) {
       return interpolation_position_[2].GetDependentVariables();
     }
     return interpolation_position_[axis].GetDependentVariables();
-- 
2.43.0


From 73467d525cbb8fbe227034f25cf132c76e8477bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 011/146] fix: step width control makes the step infinite when
 the estimated error is zero

---
 .../embedded_runge_kutta_implementation.hpp                      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
index f4e794a..27e45e0 100644
--- a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
+++ b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
@@ -32,6 +32,7 @@ void EmbeddedRungeKutta<N>::Integrate() {
 
 template <size_t N>
 void EmbeddedRungeKutta<N>::ControlStepWidth(const double error_tolerance) {
+  if (local_truncation_error_ <= 0.0) return;  // The step width cannot be estimated from zero error
   double updated_step_width = pow(error_tolerance / local_truncation_error_, 1.0 / ((double)(this->approximation_order_ + 1))) * this->step_width_;
   if (updated_step_width <= 0.0) return;  // TODO: Error handling
   this->step_width_ = updated_step_width;
-- 
2.43.0


From fcec4a847f39aa33d43df301149e20ee3c93cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 012/146] fix: sum and difference of epoch times can have a
 fraction of a whole second

---
 src/math_physics/time_system/epoch_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..8acd084 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
@@ -72,6 +72,10 @@ EpochTime EpochTime::operator-(const EpochTime& right_side) const {
     fraction_s += 1.0;
     time_s -= 1;
   }
+  if (fraction_s >= 1.0) {  // A tiny negative difference is rounded to 1.0
+    fraction_s -= 1.0;
+    time_s += 1;
+  }
   EpochTime result(time_s, fraction_s);
   return result;
 }
-- 
2.43.0


From 39d9c7dc2d81d424f9cdee33ce1beef6ad153dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 013/146] fix: epoch time made from an invalid date is
 uninitialized

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index 8acd084..4e1a5c9 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -9,7 +9,7 @@
 
 namespace s2e::time_system {
 
-EpochTime::EpochTime(const DateTime date_time) {
+EpochTime::EpochTime(const DateTime date_time) : time_s_(0), fraction_s_(0.0) {
   // No leap second calculation
   const int doy[] = {1, 32, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335};  //!< Day of Year for the 1st day of each month
   // Parse Calender
-- 
2.43.0


From 42ca85b269d176e1d6597fce4dd92c92554aa2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 014/146] fix: printed date drops the second's digits below 0.1
 ms

---
 src/math_physics/time_system/date_time_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/date_time_format.cpp b/src/math_physics/time_system/date_time_format.cpp
index d470bfe..8e6ebd7 100644
--- a/src/math_physics/time_system/date_time_format.cpp
+++ b/src/math_physics/time_system/date_time_format.cpp
@@ -50,7 +50,7 @@ std::string DateTime::GetAsString() const {
 
   stream << std::setw(2) << std::setfill('0') << (int)hour_ << ":";
   stream << std::setw(2) << std::setfill('0') << (int)minute_ << ":";
-  stream << second_;
+  stream << std::setprecision(15) << second_;
   std::string output = stream.str();
   return output;
 }
-- 
2.43.0


From 5ca217f440bd5c1cc1532a2c1fc88175e71a30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 015/146] fix: updates are one step late when rounding makes
 counter times step less than the period

---
 src/environment/global/simulation_time.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 6438e50..9b60602 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -140,31 +140,33 @@ void SimulationTime::UpdateTime(void) {
   JdToDecyear(current_jd_, &current_decyear_);
   ConvJDtoCalendarDay(current_jd_);
 
+  // The product of counter and step can be slightly smaller than the interval due to rounding
+  const double kCounterTolerance = 1e-6;
   attitude_update_flag_ = false;
-  if (double(attitude_update_counter_) * step_sec_ >= attitude_update_interval_sec_) {
+  if ((double(attitude_update_counter_) + kCounterTolerance) * step_sec_ >= attitude_update_interval_sec_) {
     attitude_update_counter_ = 0;
     attitude_update_flag_ = true;
   }
 
   orbit_update_flag_ = false;
-  if (double(orbit_update_counter_) * step_sec_ >= orbit_update_interval_sec_) {
+  if ((double(orbit_update_counter_) + kCounterTolerance) * step_sec_ >= orbit_update_interval_sec_) {
     orbit_update_counter_ = 0;
     orbit_update_flag_ = true;
   }
 
   thermal_update_flag_ = false;
-  if (double(thermal_update_counter_) * step_sec_ >= thermal_update_interval_sec_) {
+  if ((double(thermal_update_counter_) + kCounterTolerance) * step_sec_ >= thermal_update_interval_sec_) {
     thermal_update_counter_ = 0;
     thermal_update_flag_ = true;
   }
 
   component_update_flag_ = false;
-  if (double(component_update_counter_) * step_sec_ >= component_update_interval_sec_) {
+  if ((double(component_update_counter_) + kCounterTolerance) * step_sec_ >= component_update_interval_sec_) {
     component_update_counter_ = 0;
     component_update_flag_ = true;
   }
 
-  if (double(log_counter_) * step_sec_ >= log_output_interval_sec_) {
+  if ((double(log_counter_) + kCounterTolerance) * step_sec_ >= log_output_interval_sec_) {
     log_counter_ = 0;
     state_.log_output = true;
   }
-- 
2.43.0


From e0d0c2bea5ab25f42a556b02d3ba646dcc7972d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 016/146] fix: geodetic altitude is wrong near the poles

---
 src/math_physics/geodesy/geodetic_position.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..8f7b2d8 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,9 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  // This form is accurate at any latitude, while r_m / cos(latitude) is not near the poles
+  altitude_m_ = r_m * cos(lat_tmp_rad) + position_ecef_m[2] * sin(lat_tmp_rad) -
+                earth_radius_m * sqrt(1.0 - e2 * sin(lat_tmp_rad) * sin(lat_tmp_rad));
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From 3e5d9c5dd7829cc0e57a9355647f463c5e083cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 017/146] fix: keep the printed date's six significant digits
 of the second, which existing users of the format expect

---
 src/math_physics/time_system/date_time_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/date_time_format.cpp b/src/math_physics/time_system/date_time_format.cpp
index 8e6ebd7..d470bfe 100644
--- a/src/math_physics/time_system/date_time_format.cpp
+++ b/src/math_physics/time_system/date_time_format.cpp
@@ -50,7 +50,7 @@ std::string DateTime::GetAsString() const {
 
   stream << std::setw(2) << std::setfill('0') << (int)hour_ << ":";
   stream << std::setw(2) << std::setfill('0') << (int)minute_ << ":";
-  stream << std::setprecision(15) << second_;
+  stream << second_;
   std::string output = stream.str();
   return output;
 }
-- 
2.43.0


From 52e754d8cf898dfcf55708978de6b8099a43ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 018/146] fix: tick count of a new clock generator is
 uninitialized

---
 src/environment/global/clock_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/clock_generator.hpp b/src/environment/global/clock_generator.hpp
index 87361d7..f3192c2 100644
--- a/src/environment/global/clock_generator.hpp
+++ b/src/environment/global/clock_generator.hpp
@@ -56,7 +56,7 @@ class ClockGenerator {
 
  private:
   std::vector<components::ITickable*> components_;  //!< Component list fot tick
-  unsigned int timer_count_;                        //!< Timer count TODO: change to long?
+  unsigned int timer_count_ = 0;                    //!< Timer count TODO: change to long?
 };
 
 }  // namespace s2e::environment
-- 
2.43.0


From d815cd6d45d87c1765964374dc2bb796846484b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 019/146] fix: switch state of a new power port with ID is
 uninitialized

---
 src/components/ports/power_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.hpp b/src/components/ports/power_port.hpp
index 98d0a74..f444319 100644
--- a/src/components/ports/power_port.hpp
+++ b/src/components/ports/power_port.hpp
@@ -126,7 +126,7 @@ class PowerPort {
 
   double voltage_V_;              //!< Voltage of the power line[V]
   double current_consumption_A_;  //!< Current consumption calculated by I = P/V[A]
-  bool is_on_;                    //!< Power switch state
+  bool is_on_ = false;                    //!< Power switch state
 
   /**
    * @fn Initialize
-- 
2.43.0


From bd506cad21cf90f13a995c19112046b4e143cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 020/146] fix: geomagnetic coefficients stay those of the first
 requested date

---
 src/math_physics/geomagnetic/igrf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..6c90844 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -84,6 +84,9 @@ static double vgh[MxOD + 1][MxOD + 1], vght[MxOD + 1][MxOD + 1];
 
 // coeff file path
 static char coeff_file[256];
+// coeff file and period of the coefficients in use
+static char loaded_file[256];
+static double loaded_from = 0.0, loaded_until = 0.0;
 
 static void fcalc(void);
 
@@ -417,6 +420,9 @@ void gigrf(int gen, double year) {
       exit(1);
     }
   }
+  strcpy(loaded_file, coeff_file);
+  loaded_from = (l == 2) ? -HUGE_VAL : ((l == ncol) ? yr2 : yr1);
+  loaded_until = (l == ncol) ? HUGE_VAL : yr2;
   if (l == ncol)
     tzero = yr2;
   else {
@@ -466,14 +472,12 @@ int TransMagaxisToECI(const double *mag, double *pos, double lonrad, double thet
 // IGRFの計算を実行するメインルーチン
 // Output	:	mag[3]	ECI座標での磁界の値[nT]
 void IgrfCalc(double decyear, double latrad, double lonrad, double alt, double side, double *mag) {
-  static bool first_flg = true;
-
-  if (first_flg == true) {
+  // Read the coefficients again when the year leaves their period
+  if (!(loaded_from <= decyear && decyear < loaded_until) || strcmp(loaded_file, coeff_file) != 0) {
     // gigrf(10,decyear);	//ファイル読み込み
     // gigrf(11, decyear);
     // gigrf(12, decyear);
     gigrf(13, decyear);
-    first_flg = false;
   }
   tyear(decyear);  // 実行年の設定
   igrfc(latrad * RAD2DEG, lonrad * RAD2DEG, alt,
-- 
2.43.0


From e5fe58f5697d6ab60df5b21e013429f5fd64ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 021/146] fix: geomagnetic field noise is shared by all
 spacecraft with the first one's settings

---
 src/environment/local/geomagnetic_field.cpp | 14 ++++----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..1f35355 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,6 +18,8 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()),
       igrf_file_name_(igrf_file_name) {
   set_file_path(igrf_file_name_.c_str());
 }
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..c4ac7a0 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -77,6 +79,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_standard_deviation_nT_;  //!< Standard deviation of Random Walk [nT]
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk noise
+  randomization::NormalRand white_noise_;     //!< White noise
   std::string igrf_file_name_;                //!< Path to the initialize file
 
   /**
-- 
2.43.0


From a2498b5da9206d7d989cf25b976829e44b7178aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 022/146] fix: geomagnetic field is NaN at the poles

---
 src/math_physics/geomagnetic/igrf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 6c90844..eb88c7c 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -250,6 +250,8 @@ void mfldg(double alat, double alon, double ahi, double *ax, double *ay, double
     rrm = (re4 * clat2 + rp4 * slat2) / rm2;
     r = sqrt(rrm + 2. * hi * rm + hi * hi);
     cth = slat * (hi + rp2 / rm) / r;
+    if (cth > 1.) cth = 1.;
+    if (cth < -1.) cth = -1.;
     sth = sqrt(1. - cth * cth);
     /*** force sin(colat) non-zero to avoid DIV-by-0 error ***/
     if (sth < 0.00000015) sth = 0.00000015;
-- 
2.43.0


From e29a120bf8b3b28a285fcb85b05aa640446e4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 023/146] fix: simple air density is zero at exactly 1000 km

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From e1e70da04d24c7589a477558633c09ce6e6c0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 024/146] fix: Harris-Priester density outside its table has a
 wrong unit or reads past the table

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..d219928 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,8 +55,12 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;  // Unit conversion g/km3 -> kg/m^3
+  // Extrapolate from the last layer above the table
+  if (min_density_itr == harris_priester_min_density_table.end()) {
+    min_density_itr = prev(min_density_itr);
+    max_density_itr = prev(max_density_itr);
+  }
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From 43f484f4709e10187539d9cd0d6564d1ad6cd528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 025/146] fix: space weather table updated in December reads
 out of bounds

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index c467efe..87161f2 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -275,7 +275,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
 
         // After 1.5 month from the update date, the data is updated once per month. So calculate the decimal year of the date
         int days_month[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
-        decyear_monthly = decyear_updated + (days_month[month_updated] + 14) / 365.0;
+        decyear_monthly = decyear_updated + (days_month[month_updated % 12] + 14) / 365.0;
       }
       continue;
     }
-- 
2.43.0


From 0ffddee8dc7d66bf15c303d447490033ce64a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 026/146] fix: three-digit Ap index loses its first digit

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 87161f2..9ae768e 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -294,7 +294,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
     line_data.year = year;
     line_data.month = month;
     line_data.day = day;
-    line_data.Ap_avg = atof(line.substr(80, 3).c_str());
+    line_data.Ap_avg = atof(line.substr(79, 3).c_str());
     line_data.F107_adj = atof(line.substr(93, 5).c_str());
     line_data.Ctr81_adj = atof(line.substr(101, 5).c_str());
     line_data.Lst81_adj = atof(line.substr(107, 5).c_str());
-- 
2.43.0


From b45bc153cf45020b0e8c32e07c23d00b474a0f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 027/146] fix: air density noise never reaches the users of the
 density

---
 src/environment/local/atmosphere.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..27023f3 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -75,7 +75,8 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  air_density_kg_m3_ = AddNoise(air_density_kg_m3_);
+  return air_density_kg_m3_;
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
-- 
2.43.0


From e68388c729d0919ca92c539391cc881f819e9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 028/146] fix: diurnal bulge of the Harris-Priester model does
 not follow the Sun as the Earth turns

---
 src/environment/local/atmosphere.cpp                  | 6 ++++--
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 +++---
 src/math_physics/atmosphere/harris_priester_model.hpp | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 27023f3..28c173f 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -68,8 +68,10 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
                                         manual_average_f107_, manual_ap_);
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
-    math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    const CelestialInformation& celestial_information = local_celestial_information_->GetGlobalInformation();
+    math::Vector<3> sun_direction_eci = celestial_information.GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
+    math::Vector<3> sun_direction_ecef = celestial_information.GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index d219928..d63faf7 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -28,7 +28,7 @@ double CalcScaleHeight_km(const std::map<double, double>::const_iterator density
  */
 double CalcApexDensity_g_km3(const std::map<double, double>::const_iterator density_itr, const double altitude_km);
 
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7, const double exponent_parameter) {
   // Altitude
   double altitude_km = geodetic_position.GetAltitude_m() / 1000.0;
@@ -39,8 +39,8 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   // Phi: angle between the satellite position and apex of the diurnal bulge
   double sun_ra_rad;   //!< Right ascension of the sun phi
   double sun_dec_rad;  //!< Declination of the sun theta
-  sun_ra_rad = atan2(sun_direction_eci[1], sun_direction_eci[0]);
-  sun_dec_rad = atan2(sun_direction_eci[2], sqrt(sun_direction_eci[0] * sun_direction_eci[0] + sun_direction_eci[1] * sun_direction_eci[1]));
+  sun_ra_rad = atan2(sun_direction_ecef[1], sun_direction_ecef[0]);
+  sun_dec_rad = atan2(sun_direction_ecef[2], sqrt(sun_direction_ecef[0] * sun_direction_ecef[0] + sun_direction_ecef[1] * sun_direction_ecef[1]));
   math::Vector<3> apex_direction;
   const double lag_angle_rad = 30.0 * math::deg_to_rad;
   double apex_ra_rad = sun_ra_rad + lag_angle_rad;
diff --git a/src/math_physics/atmosphere/harris_priester_model.hpp b/src/math_physics/atmosphere/harris_priester_model.hpp
index 8b64550..acb89c9 100644
--- a/src/math_physics/atmosphere/harris_priester_model.hpp
+++ b/src/math_physics/atmosphere/harris_priester_model.hpp
@@ -15,12 +15,12 @@ namespace s2e::atmosphere {
  * @fn CalcAirDensityWithHarrisPriester
  * @brief Calculate atmospheric density with Harris-Priester method
  * @param [in] geodetic_position: Spacecraft geodetic position
- * @param [in] sun_direction_eci: Sun direction unit vector in ECI frame
+ * @param [in] sun_direction_ecef: Sun direction unit vector in ECEF frame
  * @param [in] f10_7: F10.7 radiation index (not used now)
  * @param [in] exponent_parameter: n in the equation. n=2 for low inclination orbit and n=6 for polar orbit.
  * @return Atmospheric density [kg/m^3]
  */
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7 = 100.0, const double exponent_parameter = 4);
 
 }  // namespace s2e::atmosphere
-- 
2.43.0


From eea166787e81d9c74834633bed521bbdace05659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 029/146] fix: decimal year and its inverse disagree, so
 NRLMSISE-00 gets a local time hours off

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 7 ++-----
 src/math_physics/orbit/sgp4/sgp4ext.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 9ae768e..2ca82b2 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -88,10 +88,7 @@ void ConvertDecyearToDate(double decyear, int* date) {
 
   // month day
   double days_d = reminder * days_per_year;
-  int days = (int)days_d;
-  if (days == 0) {
-    days = 1;
-  }
+  int days = (int)days_d + 1;  // Day of year starts at 1
   reminder = days_d - (int)days_d;
 
   // hours
@@ -185,7 +182,7 @@ double CalcNRLMSISE00(double decyear, double latrad, double lonrad, double alt,
 
   ConvertDecyearToDate(decyear, date);
 
-  input.doy = (int)((decyear - (int)decyear) * 365.25);
+  input.doy = (int)((decyear - (int)decyear) * (LeapYear((int)decyear) ? 366 : 365)) + 1;
   input.year = 0; /* without effect */
   input.sec = date[3] * 60.0 * 60.0 + date[4] * 60.0 + date[5];
   input.alt = alt / 1000.0;
diff --git a/src/math_physics/orbit/sgp4/sgp4ext.cpp b/src/math_physics/orbit/sgp4/sgp4ext.cpp
index 593a93c..8793f49 100644
--- a/src/math_physics/orbit/sgp4/sgp4ext.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4ext.cpp
@@ -750,5 +750,6 @@ void JdToDecyear(double jd, double* decyear) {
     days = temp - ((year - 1900) * 365.0 + leapyrs);
   }
 
-  *decyear = year + days / 365.25;
+  // days starts at 1.0 at the beginning of the year
+  *decyear = year + (days - 1.0) / ((year % 4) == 0 ? 366.0 : 365.0);
 }  // end JdToDecyear
-- 
2.43.0


From e0ac2758b6ae0b30ff781b058cd770ce671dda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 030/146] fix: transposed digits in the simple air density of
 the 350 km layer make the density rise at 400 km

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index 7b89adf..109e33b 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -50,7 +50,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
     scale_height_km = 53.298;
     base_height_km = 350.0;
-    base_rho_kg_m3 = 9.158E-12;
+    base_rho_kg_m3 = 9.518E-12;
   } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
     scale_height_km = 53.628;
     base_height_km = 300.0;
-- 
2.43.0


From aa47fde5cdb891ac083be874e20e120f0912535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 031/146] fix: only the first of several third shadow sources
 is used

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..371d188 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From 62711e5a8a41211f3ca567c4a295959f945a2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 032/146] fix: annular eclipse cancels the shadow of the other
 sources

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 371d188..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From 86f85d11a00d08c947f5a637346b5c39027b4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 033/146] fix: shadow angle is measured at the shadow source
 instead of the spacecraft, and is NaN on exact alignment

---
 .../local/solar_radiation_pressure_environment.cpp     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..390144f 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -72,9 +72,13 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double sd_sun = asin(sun_radius_m_ / distance_sat_to_sun);                     // Apparent radius of the sun
   const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
 
-  // Angle of deviation from shadow source center to sun center
-  math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  // A body beyond the sun does not cover it
+  const double distance_sat_to_source = r_sc2source_eci.CalcNorm();
+  if (distance_sat_to_source >= distance_sat_to_sun) return;
+
+  // Angle of deviation from shadow source center to sun center seen from the spacecraft
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_sc2sun_eci) / distance_sat_to_source / distance_sat_to_sun;
+  const double delta = acos(std::min(std::max(cos_delta, -1.0), 1.0));
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
-- 
2.43.0


From f3975820264bd1366e5345d7686b08837127a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 034/146] fix: shadow coefficient is NaN at the contacts of the
 discs

---
 .../solar_radiation_pressure_environment.cpp  | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 390144f..b717e2a 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -79,24 +79,26 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   // Angle of deviation from shadow source center to sun center seen from the spacecraft
   const double cos_delta = InnerProduct(r_sc2source_eci, r_sc2sun_eci) / distance_sat_to_source / distance_sat_to_sun;
   const double delta = acos(std::min(std::max(cos_delta, -1.0), 1.0));
-  // The angle between the center of the sun and the common chord
-  const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
-  // The length of the common chord of the apparent solar disk and apparent telestial disk
-  const double y = sqrt(std::max(sd_sun * sd_sun - x * x, 0.0));
-
   const double a = sd_sun;
   const double b = sd_source;
   const double c = delta;
 
-  if (c < fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
+  if (c <= fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
   {
     shadow_coefficient_ *= 0.0;
-  } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
+  } else if (c <= fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
     shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
-  } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
+  } else if (fabs(a - b) < c && c < (a + b))  // spacecraft is in penumbra
   {
-    double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
+    // The angle between the center of the sun and the common chord
+    const double x = (c * c + a * a - b * b) / (2.0 * c);
+    // The length of the common chord of the apparent solar disk and apparent telestial disk
+    const double y = sqrt(std::max(a * a - x * x, 0.0));
+    // Keep the ratios inside the domain of acos at the inner and outer contacts
+    const double x_a = std::min(std::max(x / a, -1.0), 1.0);
+    const double x_b = std::min(std::max((c - x) / b, -1.0), 1.0);
+    double A = a * a * acos(x_a) + b * b * acos(x_b) - c * y;  // The area of the occulted segment of the apparent solar disk
     shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
   } else {  // no occultation takes place
     if (c < (a + b)) {
-- 
2.43.0


From 4bb88bcedd1cd1428dcaf4d90c9049b371d49f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 035/146] fix: body velocity seen from the rotating body frame
 mixes body and inertial components

---
 src/environment/local/local_celestial_information.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..f534308 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -115,13 +115,10 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
   }
 
   // convert body rate vector into that in inertial coordinate
-  math::Vector<3> wb;
-  for (int i = 0; i < 3; i++) {
-    wb[i] = angular_velocity_b[i];
-  }
+  math::Vector<3> wi = quaternion_i2b.InverseFrameConversion(angular_velocity_b);
 
   // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
+  math::Vector<3> wxposition_i = OuterProduct(wi, ri);
   // compute dr/dt + wxr
   for (int i = 0; i < 3; i++) {
     vi[i] = vi[i] - wxposition_i[i];
-- 
2.43.0


From 500da6571806b2a4a5bd8c5f8ea9f24cecf90519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 036/146] fix: first index past the selected bodies reads
 outside the tables

---
 src/environment/global/celestial_information.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/celestial_information.hpp b/src/environment/global/celestial_information.hpp
index ea04e56..bcfaf7b 100644
--- a/src/environment/global/celestial_information.hpp
+++ b/src/environment/global/celestial_information.hpp
@@ -77,7 +77,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetPositionFromCenter_i_m(const unsigned int id) const {
     math::Vector<3> pos(0.0);
-    if (id > number_of_selected_bodies_) return pos;
+    if (id >= number_of_selected_bodies_) return pos;
     for (int i = 0; i < 3; i++) pos[i] = celestial_body_position_from_center_i_m_[id * 3 + i];
     return pos;
   }
@@ -112,7 +112,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetVelocityFromCenter_i_m_s(const unsigned int id) const {
     math::Vector<3> vel(0.0);
-    if (id > number_of_selected_bodies_) return vel;
+    if (id >= number_of_selected_bodies_) return vel;
     for (int i = 0; i < 3; i++) vel[i] = celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
     return vel;
   }
@@ -164,7 +164,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetRadii_m(const unsigned int id) const {
     math::Vector<3> radii(0.0);
-    if (id > number_of_selected_bodies_) return radii;
+    if (id >= number_of_selected_bodies_) return radii;
     for (int i = 0; i < 3; i++) radii[i] = celestial_body_planetographic_radii_m_[id * 3 + i];
     return radii;
   }
-- 
2.43.0


From 76854b8522508d654ec092c318c0200a7375c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 037/146] fix: rotation from TEME to ECEF stays the identity

---
 src/environment/global/earth_rotation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/environment/global/earth_rotation.cpp b/src/environment/global/earth_rotation.cpp
index f7eedde..9db35a1 100644
--- a/src/environment/global/earth_rotation.cpp
+++ b/src/environment/global/earth_rotation.cpp
@@ -139,6 +139,7 @@ void EarthRotation::Update(const double julian_date) {
     double equinox_rad = d_psi_rad_ * cos(epsilon_rad_ + d_epsilon_rad_);  // Equation of equinoxes [rad]
     double gast_rad = gmst_rad + equinox_rad;                              // Greenwich 'Apparent' Sidereal Time [rad]
     dcm_rotation = AxialRotation(gast_rad);
+    dcm_teme_to_ecef_ = AxialRotation(gmst_rad);
     // Polar motion (is not considered so far, even without polar motion, the result agrees well with the matlab reference)
     double x_p = 0.0;
     double y_p = 0.0;
@@ -150,6 +151,7 @@ void EarthRotation::Update(const double julian_date) {
     // In this case, only Axial Rotation is executed, with its argument replaced from G'A'ST to G'M'ST
     // FIXME: Not suitable when the center body is not the earth
     dcm_j2000_to_ecef_ = AxialRotation(gmst_rad);
+    dcm_teme_to_ecef_ = AxialRotation(gmst_rad);
   } else {
     // Leave the DCM as unit Matrix(diag{1,1,1})
     return;
-- 
2.43.0


From 1d5f816fa1085a78b3b3250e10afc177ba3c10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 038/146] fix: rounding in the penumbra makes the shadow
 coefficient negative

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index b717e2a..bec70b0 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -99,7 +99,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     const double x_a = std::min(std::max(x / a, -1.0), 1.0);
     const double x_b = std::min(std::max((c - x) / b, -1.0), 1.0);
     double A = a * a * acos(x_a) + b * b * acos(x_b) - c * y;  // The area of the occulted segment of the apparent solar disk
-    shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
+    shadow_coefficient_ *= std::min(std::max(1.0 - A / (math::pi * a * a), 0.0), 1.0);
   } else {  // no occultation takes place
     if (c < (a + b)) {
       std::cout << "[Error SRP Environment]: The calculation error was occurred at the shadow calculation." << std::endl;
-- 
2.43.0


From b09fc6fb944aacd790ecacae8e2db8a8e1356ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 039/146] fix: query of a GNSS satellite that is not calculated
 reads outside the list

---
 src/environment/global/gnss_satellites.cpp | 4 ++--
 src/environment/global/gnss_satellites.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..34471ce 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -77,7 +77,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -95,7 +95,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 065dc58..9371f29 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -116,8 +116,8 @@ class GnssSatellites : public logger::ILoggable {
   bool is_calc_enabled_ = false;  //!< Flag to manage the GNSS satellite position calculation
 
   std::vector<gnss::Sp3FileReader> sp3_files_;   //!< List of SP3 files
-  size_t number_of_calculated_gnss_satellites_;  //!< Number of calculated GNSS satellites
-  size_t sp3_file_id_;                           //!< Current SP3 file ID
+  size_t number_of_calculated_gnss_satellites_ = 0;  //!< Number of calculated GNSS satellites
+  size_t sp3_file_id_ = 0;                       //!< Current SP3 file ID
   time_system::EpochTime reference_time_;        //!< Reference start time of the SP3 handling
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
-- 
2.43.0


From d2de2eea6aa7eac3fca8e6b944f001b0714471da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 040/146] fix: GNSS satellites read outside the SP3 file list
 at the end of the files or without a matching file

---
 src/environment/global/gnss_satellites.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 34471ce..f5569c9 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -66,6 +66,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
                                           (size_t)current_utc.minute, current_utc.second);
   current_epoch_time_ = time_system::EpochTime(current_date_time);
 
+  // Nothing to update when the SP3 files do not cover the start time
+  if (orbit_.empty()) return;
+
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
@@ -128,6 +131,8 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
+  if (sp3_file_id_ >= sp3_files_.size()) return false;  // No more data
+
   Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-- 
2.43.0


From 23e38cf62048b9feedfff7087bfe8fc1061bed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 041/146] fix: interpolation window of GNSS satellites lags
 behind when the time advances by more than one SP3 epoch

---
 src/environment/global/gnss_satellites.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index f5569c9..344569d 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -71,9 +71,8 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > orbit_[0].GetTimeList()[kNumberOfInterpolation / 2]) {
+    if (!UpdateInterpolationInformation()) break;
   }
 
   return;
-- 
2.43.0


From baba608c232228659ee92a0fc32a6e890686ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 042/146] fix: SP3 reader adds an empty satellite to files with
 one satellite and reads outside files with one epoch

---
 src/math_physics/gnss/sp3_file_reader.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..02a4cd1 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -116,12 +116,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
-- 
2.43.0


From fa749c7d6ccfea719fba614f22232a692264a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 043/146] fix: SP3 velocity mode is not recognized

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 02a4cd1..6113726 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -156,7 +156,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
-- 
2.43.0


From 0e165f49dcf5d3bf96acfe84f2c11dbfdd00eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 044/146] fix: SP3 epoch past the end reads outside the list

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 6113726..f8a0f59 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -16,7 +16,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
-- 
2.43.0


From 47870783c337577d6608a4785644594d53afddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 045/146] fix: SP3 velocity standard deviations are read from
 wrong columns

---
 src/math_physics/gnss/sp3_file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index f8a0f59..5b2e3e3 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -389,7 +389,7 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   if (line.size() > 60) {
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
     velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
-- 
2.43.0


From 40cd982434438376ecf76f2da90878b38f8d500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 046/146] fix: GNSS satellite positions are NaN when the
 simulation starts near the end of the SP3 data

---
 src/environment/global/gnss_satellites.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 344569d..e088d43 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -39,6 +39,14 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   if (nearest_epoch_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
+  // Shift the first interpolation window backward when the remaining epochs are not enough to fill it
+  size_t number_of_remaining_epochs = 0;
+  for (size_t i = sp3_file_id_; i < sp3_files_.size(); i++) {
+    number_of_remaining_epochs += sp3_files_[i].GetNumberOfEpoch();
+  }
+  if (reference_interpolation_id_ + kNumberOfInterpolation > number_of_remaining_epochs) {
+    reference_interpolation_id_ = number_of_remaining_epochs > kNumberOfInterpolation ? number_of_remaining_epochs - kNumberOfInterpolation : 0;
+  }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
   // Initialize orbit
-- 
2.43.0


From 3c826e13873e43050f221a2fd54d8818f6aefc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 047/146] fix: UTC seconds become slightly negative at whole
 minutes and the GNSS time collapses to zero

---
 src/environment/global/simulation_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 9b60602..e87af5c 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -245,7 +245,7 @@ void SimulationTime::ConvJDtoCalendarDay(const double JD) {
   current_utc_.day = (unsigned int)(day);
   current_utc_.hour = (unsigned int)(hr);
   current_utc_.minute = (unsigned int)(minute);
-  current_utc_.second = sec;
+  current_utc_.second = (sec < 0.0) ? 0.0 : sec;  // Rounding error can make a whole minute slightly negative
 }
 
 SimulationTime* InitSimulationTime(std::string file_name) {
-- 
2.43.0


From a34c2876c442e46980e233acfbc799024c464844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 048/146] fix: GNSS satellite positions are zero at the first
 SP3 epoch when UTC is rounded down

---
 src/environment/global/gnss_satellites.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index e088d43..6263922 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -20,6 +20,7 @@ using namespace s2e::gnss;
 namespace s2e::environment {
 
 const size_t kNumberOfInterpolation = 9;
+const double kTimeTolerance_s = 1e-3;  //!< Tolerance for the rounding error of the current UTC derived from the Julian date
 
 void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, const time_system::EpochTime start_time) {
   sp3_files_ = sp3_files;
@@ -98,7 +99,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
   }
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  if (diff_s < 0.0 || diff_s > 1e6) return math::Vector<3>(0.0);
+  if (diff_s < -kTimeTolerance_s || diff_s > 1e6) return math::Vector<3>(0.0);
 
   const double kOrbitalPeriodCorrection_s = 24 * 60 * 60 * 1.003;  // See http://acc.igs.org/orbits/orbit-interp_gpssoln03.pdf
   return orbit_[gnss_satellite_id].CalcPositionWithTrigonometric(diff_s, math::tau / kOrbitalPeriodCorrection_s);
@@ -116,7 +117,7 @@ double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_sys
   }
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  if (diff_s < 0.0 || diff_s > 1e6) return 0.0;
+  if (diff_s < -kTimeTolerance_s || diff_s > 1e6) return 0.0;
 
   return clock_[gnss_satellite_id].CalcPolynomial(diff_s) * 1e-6;
 }
-- 
2.43.0


From d33e0143260d62c222b4161ced02190d747ac93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 049/146] fix: ANTEX and Bias SINEX readers never return for
 truncated files

---
 src/math_physics/gnss/antex_file_reader.cpp   | 21 +++++++++--
 src/math_physics/gnss/antex_file_reader.hpp   |  1 +
 .../gnss/bias_sinex_file_reader.cpp           | 35 +++++++++++++++----
 .../gnss/bias_sinex_file_reader.hpp           |  1 +
 4 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 4a3c74f..9c733ee 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -83,6 +83,11 @@ bool AntexFileReader::ReadFile(const std::string file_name) {
 
   // Read epoch wise data
   antex_file.close();
+
+  if (is_truncated_) {
+    std::cout << "[Warning] File is truncated: " << file_name << std::endl;
+    return false;
+  }
   return true;
 }
 
@@ -91,7 +96,10 @@ void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
 
   std::string line;
   while (1) {
-    std::getline(antex_file, line);
+    if (!std::getline(antex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
 
     // Type and Serial No.
     if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
@@ -106,6 +114,7 @@ void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
         // GNSS satellite
         AntexSatelliteData antex_satellite_data;
         antex_satellite_data = ReadAntexSatelliteData(antex_file);
+        if (is_truncated_) break;
         antex_satellite_data.SetAntennaType(antenna_type);
         antex_satellite_data.SetSerialNumber(serial_number);
         antex_satellite_data_[satellite_index].push_back(antex_satellite_data);
@@ -122,7 +131,10 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
 
   std::string line;
   while (1) {
-    std::getline(antex_file, line);
+    if (!std::getline(antex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
 
     // End antenna data
     if (line.find("END OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
@@ -161,7 +173,10 @@ AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_f
   AntexPhaseCenterData phase_center_data;
   std::string line;
   while (1) {
-    std::getline(antex_file, line);
+    if (!std::getline(antex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
 
     // End antenna data
     if (line.find("END OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
diff --git a/src/math_physics/gnss/antex_file_reader.hpp b/src/math_physics/gnss/antex_file_reader.hpp
index b463c5f..2830161 100644
--- a/src/math_physics/gnss/antex_file_reader.hpp
+++ b/src/math_physics/gnss/antex_file_reader.hpp
@@ -303,6 +303,7 @@ class AntexFileReader {
   };
 
  private:
+  bool is_truncated_ = false;                                               //!< Set when the file ends inside of a block
   bool is_file_read_succeeded_;                                             //!< File read success flag
   std::map<size_t, std::vector<AntexSatelliteData>> antex_satellite_data_;  //!< ANTEX data list for GNSS satellite
   // TODO: Implement data for Receivers
diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..0d8eae7 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -69,13 +69,21 @@ bool BiasSinexFileReader::ReadFile(const std::string file_name) {
 
   // Read epoch wise data
   bias_sinex_file.close();
+
+  if (is_truncated_) {
+    std::cout << "[Warning] File is truncated: " << file_name << std::endl;
+    return false;
+  }
   return true;
 }
 
 void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
   std::string line;
   while (1) {
-    std::getline(bias_sinex_file, line);
+    if (!std::getline(bias_sinex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
     // End of data
     if (line.find("-FILE/REFERENCE") == 0) {
       break;
@@ -87,7 +95,10 @@ void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
 void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
   std::string line;
   while (1) {
-    std::getline(bias_sinex_file, line);
+    if (!std::getline(bias_sinex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
     // End of data
     if (line.find("-FILE/COMMENT") == 0) {
       break;
@@ -99,7 +110,10 @@ void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
 void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_file) {
   std::string line;
   while (1) {
-    std::getline(bias_sinex_file, line);
+    if (!std::getline(bias_sinex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
     // End of data
     if (line.find("-INPUT/ACKNOWLEDGMENTS") == 0) {
       break;
@@ -111,7 +125,10 @@ void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_fil
 void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
   std::string line;
   while (1) {
-    std::getline(bias_sinex_file, line);
+    if (!std::getline(bias_sinex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
     // End of data
     if (line.find("-BIAS/DESCRIPTION") == 0) {
       break;
@@ -123,7 +140,10 @@ void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
 void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_file) {
   std::string line;
   while (1) {
-    std::getline(bias_sinex_file, line);
+    if (!std::getline(bias_sinex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
     // End of data
     if (line.find("-BIAS/RECEIVER_INFORMATION") == 0) {
       break;
@@ -136,7 +156,10 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
   std::string line;
 
   while (1) {
-    std::getline(bias_sinex_file, line);
+    if (!std::getline(bias_sinex_file, line)) {
+      is_truncated_ = true;
+      break;
+    }
     // End of data
     if (line.find("-BIAS/SOLUTION") == 0) {
       break;
diff --git a/src/math_physics/gnss/bias_sinex_file_reader.hpp b/src/math_physics/gnss/bias_sinex_file_reader.hpp
index 694a9bc..8389ae2 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.hpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.hpp
@@ -137,6 +137,7 @@ class BiasSinexFileReader {
   inline BiasSolutionData GetBiasData(const size_t index) const { return solution_data_[index]; }
 
  private:
+  bool is_truncated_ = false;                    //!< Set when the file ends inside of a block
   bool is_file_read_succeeded_;                  //!< File read success flag
   std::vector<BiasSolutionData> solution_data_;  //!< List of solution data
 
-- 
2.43.0


From 9652ad4a64e2666526f6fa8882489045eafc01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 050/146] fix: truncated SP3 files are read outside of their
 data

---
 src/math_physics/gnss/sp3_file_reader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 5b2e3e3..f73161a 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -31,6 +31,9 @@ Sp3PositionClock Sp3FileReader::GetPositionClock(const size_t epoch_id, const si
   if (satellite_id >= position_clock_.size()) {
     return zero;
   }
+  if (epoch_id >= position_clock_[satellite_id].size()) {
+    return zero;
+  }
 
   return position_clock_[satellite_id][epoch_id];
 }
@@ -124,9 +127,11 @@ size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime time) {
   size_t nearest_epoch_id = 0;
 
   // Get header info
-  const size_t num_epoch = header_.number_of_epoch_;
+  const size_t num_epoch = epoch_.size();
   const double interval_s = header_.epoch_interval_s_;
 
+  if (num_epoch == 0) return nearest_epoch_id;
+
   // Check range
   time_system::EpochTime start_epoch(epoch_[0]);
   if (start_epoch > time) {
-- 
2.43.0


From 46dd2271f0cb932efeb88f62c8e0f1f09a36635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 051/146] fix: SP3 records without trailing spaces or velocity
 standard deviations throw an exception

---
 src/math_physics/gnss/sp3_file_reader.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index f73161a..aa2e7ed 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -13,6 +13,9 @@
 
 namespace s2e::gnss {
 
+const size_t kStandardDeviationEnd = 73;  //!< Number of characters until the end of the standard deviations
+const size_t kFullLineLength = 80;        //!< Number of characters in a full line
+
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
@@ -322,6 +325,7 @@ Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
 
   // Standard deviations
   if (line.size() > 61) {
+    if (line.size() < kStandardDeviationEnd) line.resize(kStandardDeviationEnd, ' ');  // Trailing spaces can be omitted
     math::Vector<3> position_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
       try {
@@ -340,6 +344,7 @@ Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
 
   // Flags
   if (line.size() > 73) {
+    line.resize(kFullLineLength, ' ');  // Trailing spaces can be omitted
     if (line.substr(74, 1) == "E") {
       position_clock.clock_event_flag_ = true;
     }
@@ -391,13 +396,22 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   velocity_clock_rate.clock_rate_ = stod(line.substr(46, 14));
 
   // Standard deviations
-  if (line.size() > 60) {
+  if (line.size() > 61) {
+    if (line.size() < kStandardDeviationEnd) line.resize(kStandardDeviationEnd, ' ');  // Trailing spaces can be omitted
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From 4abbaa5725000b083fa0037481d40ed98258e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 052/146] fix: IGS product name functions cannot be included
 from more than one source file

---
 src/math_physics/gnss/igs_product_name_handling.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math_physics/gnss/igs_product_name_handling.hpp b/src/math_physics/gnss/igs_product_name_handling.hpp
index 01c923f..2fcb85e 100644
--- a/src/math_physics/gnss/igs_product_name_handling.hpp
+++ b/src/math_physics/gnss/igs_product_name_handling.hpp
@@ -21,7 +21,7 @@ namespace s2e::gnss {
  * @param [in] file_type: File type and extensions (ex. ORB.SP3)
  * @return: file name
  */
-std::string GetOrbitClockFinalFileName(const std::string header, const size_t year_doy, const std::string period = "15M",
+inline std::string GetOrbitClockFinalFileName(const std::string header, const size_t year_doy, const std::string period = "15M",
                                        const std::string file_type = "ORB.SP3") {
   std::string file_name = header + "_" + std::to_string(year_doy) + "0000_01D_" + period + "_" + file_type;
 
@@ -35,7 +35,7 @@ std::string GetOrbitClockFinalFileName(const std::string header, const size_t ye
  * @param [in] doy: 3-digit Day of year
  * @return: Merged number
  */
-size_t MergeYearDoy(const size_t year, const size_t doy) { return year * 1000 + doy; }
+inline size_t MergeYearDoy(const size_t year, const size_t doy) { return year * 1000 + doy; }
 
 /**
  * @fn PerseYearFromYearDoy
@@ -43,7 +43,7 @@ size_t MergeYearDoy(const size_t year, const size_t doy) { return year * 1000 +
  * @param [in] year_doy: Merged number of year(YYY) and day of year(DDD) (YYYYDDD)
  * @return: year
  */
-size_t PerseYearFromYearDoy(const size_t year_doy) { return year_doy / 1000; }
+inline size_t PerseYearFromYearDoy(const size_t year_doy) { return year_doy / 1000; }
 
 /**
  * @fn PerseDoyFromYearDoy
@@ -51,7 +51,7 @@ size_t PerseYearFromYearDoy(const size_t year_doy) { return year_doy / 1000; }
  * @param [in] year_doy: Merged number of year(YYY) and day of year(DDD) (YYYYDDD)
  * @return: day of year
  */
-size_t PerseDoyFromYearDoy(const size_t year_doy) {
+inline size_t PerseDoyFromYearDoy(const size_t year_doy) {
   size_t year = PerseYearFromYearDoy(year_doy);
   return year_doy - year * 1000;
 }
@@ -62,7 +62,7 @@ size_t PerseDoyFromYearDoy(const size_t year_doy) {
  * @param [in] year_doy: Merged number of year(YYY) and day of year(DDD) (YYYYDDD)
  * @return: Incremented value
  */
-size_t IncrementYearDoy(const size_t year_doy) {
+inline size_t IncrementYearDoy(const size_t year_doy) {
   size_t output = year_doy + 1;
   size_t doy = PerseDoyFromYearDoy(output);
 
-- 
2.43.0


From e111532513cdf6b9aa53d583a00237d0fea2e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 053/146] fix: SP3 reader never returns or repeats records when
 the file ends inside of a line

---
 src/math_physics/gnss/sp3_file_reader.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index aa2e7ed..d42ed0a 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -72,14 +72,14 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
       std::cout << "[Warning] SP3 file Epoch line first character error: " << line << std::endl;
       return false;
     }
-    size_t year, month, day, hour, minute;
-    double second;
+    size_t year = 0, month = 0, day = 0, hour = 0, minute = 0;
+    double second = 0.0;
     sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
     epoch_.push_back(time_system::DateTime(year, month, day, hour, minute, second));
 
     // Orbit and Clock information
     for (size_t satellite_id = 0; satellite_id < header_.number_of_satellites_; satellite_id++) {
-      std::getline(sp3_file, line);
+      if (!std::getline(sp3_file, line)) return false;
       // Position and Clock
       if (line.find("P") != 0) {
         std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
@@ -100,7 +100,7 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
 
       // Velocity and Clock rate
       if (header_.mode_ == Sp3Mode::kVelocity) {
-        std::getline(sp3_file, line);
+        if (!std::getline(sp3_file, line)) return false;
         // Position and Clock
         if (line.find("V") != 0) {
           std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
@@ -170,8 +170,8 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     header_.mode_ = Sp3Mode::kOther;
     std::cout << "[Warning] SP3 file mode is undefined: " << line << std::endl;
   }
-  size_t year, month, day, hour, minute;
-  double second;
+  size_t year = 0, month = 0, day = 0, hour = 0, minute = 0;
+  double second = 0.0;
   sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
   header_.start_epoch_ = time_system::DateTime(year, month, day, hour, minute, second);
   header_.number_of_epoch_ = std::stoi(line.substr(32, 7));
@@ -225,7 +225,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
       header_.satellite_ids_.push_back(line.substr(9 + i * 3, 3));
     }
     line_number++;
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return 0;
   }
   if (header_.satellite_ids_.size() != header_.number_of_satellites_) {
     std::cout << "[Warning] SP3 file number of satellite and size of satellite ID are incompatible." << std::endl;
@@ -246,7 +246,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
       header_.satellite_accuracy_.push_back((uint8_t)stoi(line.substr(9 + i * 3, 3)));
     }
     line_number++;
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return 0;
   }
   if (header_.satellite_accuracy_.size() != header_.number_of_satellites_) {
     std::cout << "[Warning] SP3 file number of satellite and size of accuracy are incompatible." << std::endl;
@@ -302,7 +302,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   do {
     line_number++;
     pos = sp3_file.tellg();
-    std::getline(sp3_file, line);
+    if (!std::getline(sp3_file, line)) return 0;
   } while (line.find("/*") == 0);
 
   sp3_file.seekg(pos);
-- 
2.43.0


From 28fc05ffa7c427cd4fdef20ae45021d6b1536a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 054/146] fix: the last zenith grid of ANTEX data is lost by
 rounding

---
 src/math_physics/gnss/antex_file_reader.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 9c733ee..5c6e491 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -20,16 +20,17 @@ AntexGridDefinition::AntexGridDefinition(const double zenith_start_angle_deg, co
       zenith_end_angle_deg_(zenith_end_angle_deg),
       zenith_step_angle_deg_(zenith_step_angle_deg),
       azimuth_step_angle_deg_(azimuth_step_angle_deg) {
-  if (zenith_step_angle_deg_ <= 0.0) {
+  const double kRoundingTolerance = 1e-6;
+  if (zenith_step_angle_deg_ <= 0.0 || zenith_end_angle_deg_ < zenith_start_angle_deg_) {
     number_of_zenith_grid_ = 0;
   } else {
-    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_) + 1;
+    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_ + kRoundingTolerance) + 1;
   }
 
   if (azimuth_step_angle_deg_ <= 0.0) {
     number_of_azimuth_grid_ = 0;
   } else {
-    number_of_azimuth_grid_ = size_t(360.0 / azimuth_step_angle_deg_) + 1;
+    number_of_azimuth_grid_ = size_t(360.0 / azimuth_step_angle_deg_ + kRoundingTolerance) + 1;
   }
 }
 
@@ -143,7 +144,7 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
     }
     // Grid angle definition
     if (line.find("ZEN1 / ZEN2 / DZEN") == ANTEX_LINE_TYPE_POSITION) {
-      double start, end, step;
+      double start = 0.0, end = 0.0, step = 0.0;
       sscanf(line.substr(0, 60).c_str(), "%lf %lf %lf", &start, &end, &step);
       grid = AntexGridDefinition(start, end, step);
     }
@@ -208,8 +209,8 @@ AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_f
 }
 
 time_system::DateTime AntexFileReader::ReadDateTime(std::string line) {
-  size_t year, month, day, hour, minute;
-  double second;
+  size_t year = 0, month = 0, day = 0, hour = 0, minute = 0;
+  double second = 0.0;
   sscanf(line.c_str(), "%zu %2zu %2zu %2zu %2zu %10lf", &year, &month, &day, &hour, &minute, &second);
   return time_system::DateTime(year, month, day, hour, minute, second);
 }
-- 
2.43.0


From 2b65259e7dca92c28e7404069d5b62f5a0f36a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 055/146] fix: standard deviation of the Bias SINEX slope is
 skipped at the end of the line

---
 src/math_physics/gnss/bias_sinex_file_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index 0d8eae7..8b3ab37 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -216,12 +216,12 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
     solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
     read_point += read_size + 1;
 
-    if (read_point + 21 < line.size()) {
+    if (read_point + 21 <= line.size()) {
       read_size = 21;
       solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
     }
-    if (read_point + 12 < line.size()) {
+    if (read_point + 12 <= line.size()) {
       read_size = 12;
       solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
-- 
2.43.0


From 3f0931b1ba553ff25407020e746c5c85d5182707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 056/146] fix: ANTEX serial numbers of receivers which look
 like a navigation system throw an exception

---
 src/math_physics/gnss/gnss_satellite_number.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math_physics/gnss/gnss_satellite_number.cpp b/src/math_physics/gnss/gnss_satellite_number.cpp
index 2241db8..66dfe76 100644
--- a/src/math_physics/gnss/gnss_satellite_number.cpp
+++ b/src/math_physics/gnss/gnss_satellite_number.cpp
@@ -5,9 +5,13 @@
 
 #include "gnss_satellite_number.hpp"
 
+#include <cctype>
+
 namespace s2e::gnss {
 
 size_t ConvertGnssSatelliteNumberToIndex(const std::string satellite_number) {
+  // The navigation system must be followed by the number
+  if (satellite_number.size() < 2 || !std::isdigit((unsigned char)satellite_number[1])) return UINT32_MAX;
   switch (satellite_number.front()) {
     case 'G':
       return stoi(satellite_number.substr(1)) + kGpsIndexBegin - 1;
-- 
2.43.0


From 4c069ed2e8547dbbc3e6687cf499bb50f7121872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 057/146] fix: an uninitialised star is added at the end of the
 Hipparcos catalogue

---
 src/environment/global/hipparcos_catalogue.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..2caa735 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -32,11 +32,9 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
   std::string title;
   ifs >> title;  // Skip title
-  while (!ifs.eof()) {
+  std::string line;
+  while (ifs >> line) {
     HipparcosData hipparcos_data;
-
-    std::string line;
-    ifs >> line;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
-- 
2.43.0


From 0a22bc3f80fb8212a3a5720d342677ec283c8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 058/146] fix: bodies are shifted on a telescope image with an
 odd number of pixels

---
 src/components/real/mission/telescope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..6a3ea80 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -106,8 +106,8 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
   if (abs(arg_x) < x_field_of_view_rad && abs(arg_y) < y_field_of_view_rad) {
-    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2;
-    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2;
+    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
+    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
-- 
2.43.0


From 9d3d863dc4887fa328e259245de60b5ce2c88ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 059/146] fix: telescope reads beyond an empty star catalogue

---
 src/components/real/mission/telescope.cpp | 29 ++++++++++-------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 6a3ea80..2bdea4b 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -120,7 +120,7 @@ void Telescope::ObserveStars() {
   star_list_in_sight.clear();  // Clear first
   size_t count = 0;            // Counter for while loop
 
-  while (star_list_in_sight.size() < number_of_logged_stars_) {
+  while (star_list_in_sight.size() < number_of_logged_stars_ && count < hipparcos_->GetCatalogueSize()) {
     math::Vector<3> target_b = hipparcos_->GetStarDirection_b(count, quaternion_i2b);
     math::Vector<3> target_c = quaternion_b2c_.FrameConversion(target_b);
 
@@ -140,23 +140,18 @@ void Telescope::ObserveStars() {
     }
 
     count++;
+  }
+  // If read all catalogue, fill -1
+  while (star_list_in_sight.size() < number_of_logged_stars_) {
+    Star star;
+    star.hipparcos_data.hipparcos_id = -1;
+    star.hipparcos_data.visible_magnitude = -1;
+    star.hipparcos_data.right_ascension_deg = -1;
+    star.hipparcos_data.declination_deg = -1;
+    star.position_image_sensor[0] = -1;
+    star.position_image_sensor[1] = -1;
 
-    // If read all catalogue, fill -1 and break the loop
-    if (count >= hipparcos_->GetCatalogueSize()) {
-      while (star_list_in_sight.size() < number_of_logged_stars_) {
-        Star star;
-        star.hipparcos_data.hipparcos_id = -1;
-        star.hipparcos_data.visible_magnitude = -1;
-        star.hipparcos_data.right_ascension_deg = -1;
-        star.hipparcos_data.declination_deg = -1;
-        star.position_image_sensor[0] = -1;
-        star.position_image_sensor[1] = -1;
-
-        star_list_in_sight.push_back(star);
-      }
-
-      break;
-    }
+    star_list_in_sight.push_back(star);
   }
 }
 
-- 
2.43.0


From 9fbb30df4605108af867ff465033c6828827194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 060/146] fix: telescope judges the ground point by its
 previous position and on one side of the image only

---
 src/components/real/mission/telescope.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index 2bdea4b..fb71599 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -160,13 +160,6 @@ void Telescope::ObserveGroundPositionDeviation() {
   if (orbit_ == nullptr) {
     return;
   }
-  // Check if the ground point is in the image sensor
-  if (ground_position_x_image_sensor_ > x_number_of_pix_ || ground_position_y_image_sensor_ > y_number_of_pix_) {
-    ground_position_x_image_sensor_ = -1;
-    ground_position_y_image_sensor_ = -1;
-    return;
-  }
-
   math::Quaternion quaternion_i2b = attitude_->GetQuaternion_i2b();
   math::Vector<3> spacecraft_position_ecef_m = orbit_->GetPosition_ecef_m();
   math::Vector<3> direction_ecef = (initial_ground_position_ecef_m_ - spacecraft_position_ecef_m).CalcNormalizedVector();
@@ -177,8 +170,14 @@ void Telescope::ObserveGroundPositionDeviation() {
 
   // Ground position in the image sensor in the satellite frame
   double ground_angle_z_rad = atan2(target_c[2], target_c[0]);
-  ground_position_x_image_sensor_ = ground_angle_z_rad / x_fov_per_pix_;
   double ground_angle_y_rad = atan2(target_c[1], target_c[0]);
+  // Check if the ground point is in the image sensor
+  if (abs(ground_angle_z_rad) >= x_field_of_view_rad || abs(ground_angle_y_rad) >= y_field_of_view_rad) {
+    ground_position_x_image_sensor_ = -1;
+    ground_position_y_image_sensor_ = -1;
+    return;
+  }
+  ground_position_x_image_sensor_ = ground_angle_z_rad / x_fov_per_pix_;
   ground_position_y_image_sensor_ = ground_angle_y_rad / y_fov_per_pix_;
 }
 
-- 
2.43.0


From f02c298697596b9bd91d023f3e467fd4e24048f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 061/146] fix: surface force is not a number for a plate that
 faces the source squarely

---
 src/disturbances/surface_force.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..a2a0ef1 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,9 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -52,7 +55,7 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
     cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
-    sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
+    sin_theta_[i] = sqrt(std::max(0.0, 1.0 - cos_theta_[i] * cos_theta_[i]));
   }
 }
 
-- 
2.43.0


From f324e59c2cb423e2f4999fa4a29e64dcf80d388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 062/146] fix: air drag used the molar weight in grams as the
 mass of one molecule

---
 src/disturbances/air_drag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..7febdd5 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,9 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  const double avogadro_constant_1_mol = 6.02214076e23;
+  const double molecular_mass_kg = molecular_weight_g_mol_ * 1e-3 / avogadro_constant_1_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
-- 
2.43.0


From 512f141d705cd7050fc9ab0db9a4d8a9f34261a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 063/146] fix: lunar gravity field copies the celestial
 information, which frees pointers that the copy never set

---
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..872a005 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -89,7 +89,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation &global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
-- 
2.43.0


From 645ca352a5bdf108b650a7fb543d28fea5b9e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 064/146] fix: geopotential coefficient file that is too short
 or malformed writes outside of the tables

---
 src/disturbances/geopotential.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..e83d12d 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -62,7 +62,10 @@ bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
     std::string line;
     getline(coeff_file, line);
     std::istringstream streamline(line);
-    streamline >> n >> m >> c_nm_norm >> s_nm_norm;
+    if (!(streamline >> n >> m >> c_nm_norm >> s_nm_norm) || n < 0 || n > degree_ || m < 0 || m > n) {
+      std::cerr << "File format error: Geopotential\n";
+      return false;
+    }
 
     c_[n][m] = c_nm_norm;
     s_[n][m] = s_nm_norm;
-- 
2.43.0


From cf07264460c0acbf1e23061d7c1783d36e685719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 065/146] fix: gravity field of a degree above the limit reads
 outside of the coefficient tables

---
 src/disturbances/geopotential.cpp        | 2 +-
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index e83d12d..bf1dd4d 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 872a005..1bdbc80 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From 57a506bd819d91ba843458e4b2c35dc69976617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 066/146] fix: orbit around the Moon closer to it than the
 radius of the Earth ends the simulation

---
 src/dynamics/orbit/orbit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/orbit.cpp b/src/dynamics/orbit/orbit.cpp
index dbdcb77..40caae6 100644
--- a/src/dynamics/orbit/orbit.cpp
+++ b/src/dynamics/orbit/orbit.cpp
@@ -44,8 +44,8 @@ void Orbit::TransformEciToEcef(void) {
 
 void Orbit::TransformEcefToGeodetic(void) {
   spacecraft_geodetic_position_.UpdateFromEcef(spacecraft_position_ecef_m_);
-  // Check altitude
-  if (spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
+  // Check altitude (the geodetic position is meaningful around the Earth only)
+  if (celestial_information_->GetCenterBodyName() == "EARTH" && spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
     std::cout << "[Error Orbit]: The spacecraft altitude is smaller than zero." << std::endl;
     std::cout << "               The orbit or disturbance setting may have something wrong." << std::endl;
     std::exit(1);
-- 
2.43.0


From 3c6e9e861f5f6cac09e2bae63250021baf5673aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:44 +0000
Subject: [PATCH 067/146] fix: residual magnetic moment of every spacecraft
 fluctuates by the settings of the first one

---
 src/disturbances/magnetic_disturbance.cpp | 16 ++++++----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..00118ef 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,14 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()), math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),
+      random_noise_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +34,12 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
 
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + random_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..7040c3a 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of RMM [FIXME] step width is constant
+  randomization::NormalRand random_noise_;                              //!< White noise of RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From 366ce92c8a2123c4be35881734c7f82e0fda77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 068/146] fix: local celestial information is not ready or
 stale at steps which propagate only the orbit

---
 src/environment/local/local_environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/local_environment.cpp b/src/environment/local/local_environment.cpp
index 5a1768d..057ebff 100644
--- a/src/environment/local/local_environment.cpp
+++ b/src/environment/local/local_environment.cpp
@@ -57,8 +57,8 @@ void LocalEnvironment::Update(const dynamics::Dynamics* dynamics, const Simulati
   auto& orbit = dynamics->GetOrbit();
   auto& attitude = dynamics->GetAttitude();
 
-  // Update local environments that depend on the attitude (and the position)
-  if (simulation_time->GetAttitudePropagateFlag()) {
+  // Update local environments that depend on the attitude and the position
+  if (simulation_time->GetAttitudePropagateFlag() || simulation_time->GetOrbitPropagateFlag()) {
     celestial_information_->UpdateAllObjectsInformation(orbit.GetPosition_i_m(), orbit.GetVelocity_i_m_s(), attitude.GetQuaternion_i2b(),
                                                         attitude.GetAngularVelocity_b_rad_s());
     geomagnetic_field_->CalcMagneticField(simulation_time->GetCurrentDecimalYear(), simulation_time->GetCurrentSiderealTime(),
-- 
2.43.0


From 2b76c3a088601da087d17be46282dafc6158da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 069/146] fix: attitude with cantilever vibration drifts when
 the update period is not a multiple of the integration step

---
 .../attitude/attitude_with_cantilever_vibration.cpp        | 5 +++--
 .../numerical_integration/numerical_integrator.hpp         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..771c4b8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -86,12 +86,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..bc44b02 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,13 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width
+   * @param[in] step_width: Step width. The unit is depending on the independent variable
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From 1d327e7c4732f35d2ef458229f237ae2b592141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 070/146] fix: attitude with cantilever vibration keeps the
 initial inertia tensor when the structure changes

---
 src/dynamics/attitude/attitude_with_cantilever_vibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index 771c4b8..16fed47 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -81,6 +81,9 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
   math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * angular_velocity_b_rad_s_;
   attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
   attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(inertia_tensor_kgm2_));
+  math::Matrix<3, 3> total_inertia_tensor_kgm2 = inertia_tensor_kgm2_ + attitude_ode_.GetInertiaTensorCantilever_kgm2();
+  attitude_ode_.SetInverseTotalInertiaTensor(CalcInverseMatrix(total_inertia_tensor_kgm2));
+  attitude_ode_.SetInverseEquivalentInertiaTensorCantilever(attitude_ode_.GetInverseInertiaTensor() * total_inertia_tensor_kgm2);
   attitude_ode_.SetTorque_b_Nm(torque_b_Nm_);
   attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(angular_momentum_reaction_wheel_b_Nms_);
 
-- 
2.43.0


From 75e6b07a7fc3e73ea8e9b16865f0b63034232613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 071/146] fix: initial torque of the settings file is cleared
 before the first attitude propagation

---
 src/dynamics/attitude/attitude.hpp | 5 +++++
 src/dynamics/dynamics.cpp          | 4 +++-
 src/dynamics/dynamics.hpp          | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/attitude.hpp b/src/dynamics/attitude/attitude.hpp
index 59076b6..9e27bec 100644
--- a/src/dynamics/attitude/attitude.hpp
+++ b/src/dynamics/attitude/attitude.hpp
@@ -48,6 +48,11 @@ class Attitude : public logger::ILoggable, public simulation::SimulationObject {
    * @brief Return attitude quaternion from the inertial frame to the body fixed frame
    */
   inline math::Quaternion GetQuaternion_i2b() const { return quaternion_i2b_; }
+  /**
+   * @fn GetTorque_b_Nm
+   * @brief Return torque in the body fixed frame [Nm]
+   */
+  inline math::Vector<3> GetTorque_b_Nm() const { return torque_b_Nm_; }
   /**
    * @fn GetTotalAngularMomentNorm_Nms
    * @brief Return norm of total angular momentum of the spacecraft [Nms]
diff --git a/src/dynamics/dynamics.cpp b/src/dynamics/dynamics.cpp
index 209bdab..c039687 100644
--- a/src/dynamics/dynamics.cpp
+++ b/src/dynamics/dynamics.cpp
@@ -30,6 +30,7 @@ void Dynamics::Initialize(const simulation::SimulationConfiguration* simulation_
   attitude_ = attitude::InitAttitude(simulation_configuration->spacecraft_file_list_[spacecraft_id], orbit_, &local_celestial_information,
                                      simulation_time->GetAttitudeRkStepTime_s(), structure->GetKinematicsParameters().GetInertiaTensor_b_kgm2(),
                                      spacecraft_id);
+  initial_torque_b_Nm_ = attitude_->GetTorque_b_Nm();
   temperature_ = thermal::InitTemperature(simulation_configuration->spacecraft_file_list_[spacecraft_id], simulation_time->GetThermalRkStepTime_s(),
                                           &(local_environment_->GetSolarRadiationPressure()), &(local_environment_->GetEarthAlbedo()),
                                           &(local_environment_->GetEarthInfrared()));
@@ -42,6 +43,7 @@ void Dynamics::Update(const environment::SimulationTime* simulation_time, const
   // Attitude propagation
   if (simulation_time->GetAttitudePropagateFlag()) {
     attitude_->Propagate(simulation_time->GetElapsedTime_s());
+    initial_torque_b_Nm_ = math::Vector<3>(0.0);
   }
   // Orbit Propagation
   if (simulation_time->GetOrbitPropagateFlag()) {
@@ -58,7 +60,7 @@ void Dynamics::Update(const environment::SimulationTime* simulation_time, const
 
 void Dynamics::ClearForceTorque(void) {
   math::Vector<3> zero(0.0);
-  attitude_->SetTorque_b_Nm(zero);
+  attitude_->SetTorque_b_Nm(initial_torque_b_Nm_);
   orbit_->SetAcceleration_i_m_s2(zero);
 }
 
diff --git a/src/dynamics/dynamics.hpp b/src/dynamics/dynamics.hpp
index 4bfd916..660d45f 100644
--- a/src/dynamics/dynamics.hpp
+++ b/src/dynamics/dynamics.hpp
@@ -120,6 +120,7 @@ class Dynamics {
   thermal::Temperature* temperature_;                       //!< Thermal dynamics
   const spacecraft::Structure* structure_;                  //!< Structure information
   const environment::LocalEnvironment* local_environment_;  //!< Local environment
+  math::Vector<3> initial_torque_b_Nm_{0.0};                //!< Initial torque added until the first attitude propagation [Nm]
 
   /**
    * @fn Initialize
-- 
2.43.0


From b7d42383e4986750dceb0314ac41a01af7a89e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 072/146] fix: angular velocity of controlled attitude is
 reversed when the sign of the quaternion flips

---
 src/dynamics/attitude/controlled_attitude.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..8533a18 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -171,6 +171,8 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
+    // q and -q represent the same rotation. Choose the one with the shortest rotation.
+    if (q_diff[3] < 0.0) q_diff = -1.0 * q_diff;
     q_diff = (2.0 / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
-- 
2.43.0


From 5e8e5a8b7cf70b690d3bf8c129e4d2455c880866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 073/146] fix: torque of controlled attitude is calculated with
 inverse inertia tensor and reversed acceleration

---
 src/dynamics/attitude/controlled_attitude.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 8533a18..34024fd 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -178,10 +178,10 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
       angular_velocity_b_rad_s_[i] = q_diff[i];
-      angular_acc_b_rad_s2_[i] = (previous_omega_b_rad_s_[i] - angular_velocity_b_rad_s_[i]) / time_diff_sec;
+      angular_acc_b_rad_s2_[i] = (angular_velocity_b_rad_s_[i] - previous_omega_b_rad_s_[i]) / time_diff_sec;
     }
-    math::Matrix<3, 3> inv_inertia_tensor = CalcInverseMatrix(inertia_tensor_kgm2_);
-    controlled_torque_b_Nm = inv_inertia_tensor * angular_acc_b_rad_s2_;
+    controlled_torque_b_Nm =
+        inertia_tensor_kgm2_ * angular_acc_b_rad_s2_ + OuterProduct(angular_velocity_b_rad_s_, inertia_tensor_kgm2_ * angular_velocity_b_rad_s_);
   } else {
     angular_velocity_b_rad_s_ = math::Vector<3>(0.0);
     controlled_torque_b_Nm = math::Vector<3>(0.0);
-- 
2.43.0


From 94d6f30a5138567222fd729aa2bce6a413fd643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 074/146] fix: controlled attitude is broken when the target
 direction is set without normalization

---
 src/dynamics/attitude/controlled_attitude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 34024fd..5bbd02b 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -127,7 +127,7 @@ void ControlledAttitude::PointingControl(const math::Vector<3> main_direction_i,
 math::Matrix<3, 3> ControlledAttitude::CalcDcm(const math::Vector<3> main_direction, const math::Vector<3> sub_direction) {
   // Calc basis vectors
   math::Vector<3> ex, ey, ez;
-  ex = main_direction;
+  ex = main_direction.CalcNormalizedVector();
   math::Vector<3> tmp1 = OuterProduct(ex, sub_direction);
   math::Vector<3> tmp2 = OuterProduct(tmp1, ex);
   ey = tmp2.CalcNormalizedVector();
-- 
2.43.0


From e8f812537faf8d008ad7c54038d165ff7dd20ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 075/146] fix: altitude of the Earth surface pointing target is
 not read

---
 src/dynamics/attitude/initialize_attitude.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..25b5f8e 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -41,7 +41,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     Attitude* attitude_temp = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b,
@@ -96,7 +96,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     attitude = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b, inertia_tensor_kgm2,
-- 
2.43.0


From fedc3b530a6470edf4b2dfb4368d349189a728bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 076/146] fix: second simulation initialized with controlled
 attitude stops because the temporary attitude is not deleted

---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 25b5f8e..ca75dae 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0


From 004b17ddfb32d2d3e0d465ab255f133d91fc4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 077/146] fix: angular momentum and kinetic energy of
 controlled attitude stay zero

---
 src/dynamics/attitude/controlled_attitude.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 5bbd02b..47ea498 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -192,6 +192,8 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
   previous_calc_time_s_ = current_time_s;
   previous_quaternion_i2b_ = quaternion_i2b_;
   previous_omega_b_rad_s_ = angular_velocity_b_rad_s_;
+  // Update information
+  CalcAngularMomentum();
 }
 
 }  // namespace s2e::dynamics::attitude
-- 
2.43.0


From 522c0477be391c647cd66d8f3367b5965ecaf945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 078/146] fix: the Kepler and Encke orbits report their
 propagation mode

---
 src/dynamics/orbit/encke_orbit_propagation.cpp  | 1 +
 src/dynamics/orbit/kepler_orbit_propagation.cpp | 1 +
 src/dynamics/orbit/orbit.hpp                    | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..9bcb931 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -19,6 +19,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       gravity_constant_m3_s2_(gravity_constant_m3_s2),
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
+  propagate_mode_ = OrbitPropagateMode::kEncke;
   propagation_time_s_ = 0.0;
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
diff --git a/src/dynamics/orbit/kepler_orbit_propagation.cpp b/src/dynamics/orbit/kepler_orbit_propagation.cpp
index 4e90508..53f417d 100644
--- a/src/dynamics/orbit/kepler_orbit_propagation.cpp
+++ b/src/dynamics/orbit/kepler_orbit_propagation.cpp
@@ -13,6 +13,7 @@ namespace s2e::dynamics::orbit {
 KeplerOrbitPropagation::KeplerOrbitPropagation(const environment::CelestialInformation* celestial_information, const double current_time_jd,
                                                KeplerOrbit kepler_orbit)
     : Orbit(celestial_information), KeplerOrbit(kepler_orbit) {
+  propagate_mode_ = OrbitPropagateMode::kKepler;
   UpdateState(current_time_jd);
 }
 
diff --git a/src/dynamics/orbit/orbit.hpp b/src/dynamics/orbit/orbit.hpp
index c51f0dc..0889b89 100644
--- a/src/dynamics/orbit/orbit.hpp
+++ b/src/dynamics/orbit/orbit.hpp
@@ -192,7 +192,7 @@ class Orbit : public logger::ILoggable {
 
   // Settings
   bool is_calc_enabled_ = false;       //!< Calculate flag
-  OrbitPropagateMode propagate_mode_;  //!< Propagation mode
+  OrbitPropagateMode propagate_mode_ = OrbitPropagateMode::kRk4;  //!< Propagation mode
 
   math::Vector<3> spacecraft_position_i_m_;                      //!< Spacecraft position in the inertial frame [m]
   math::Vector<3> spacecraft_position_ecef_m_;                   //!< Spacecraft position in the ECEF frame [m]
-- 
2.43.0


From 8b47ae5a9050a12ad51cd8e6f7aeb82f34bdf8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 079/146] fix: orbit accelerations start at zero

---
 src/dynamics/orbit/orbit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/orbit.hpp b/src/dynamics/orbit/orbit.hpp
index 0889b89..138c0b1 100644
--- a/src/dynamics/orbit/orbit.hpp
+++ b/src/dynamics/orbit/orbit.hpp
@@ -202,7 +202,7 @@ class Orbit : public logger::ILoggable {
   math::Vector<3> spacecraft_velocity_b_m_s_;     //!< Spacecraft velocity in the body frame [m/s]
   math::Vector<3> spacecraft_velocity_ecef_m_s_;  //!< Spacecraft velocity in the ECEF frame [m/s]
 
-  math::Vector<3> spacecraft_acceleration_i_m_s2_;  //!< Spacecraft acceleration in the inertial frame [m/s2]
+  math::Vector<3> spacecraft_acceleration_i_m_s2_{0.0};  //!< Spacecraft acceleration in the inertial frame [m/s2]
                                                     //!< NOTE: Clear to zero at the end of the Propagate function
 
   // Frame Conversion TODO: consider other planet
-- 
2.43.0


From 52de3f95a9ba67903429239b1ab638d4fb356cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 080/146] fix: Newton iteration of the Kepler equation updates
 the estimate it evaluates

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..929472a 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -87,7 +87,7 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
   double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  double u_rad = mean_anomaly_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From 8a211f89dd6bbeb8b1307099f61c682f173dee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 081/146] fix: right ascension of the ascending node in all
 quadrants from position and velocity

---
 src/math_physics/orbit/orbital_elements.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..a330d1f 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -45,8 +45,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
   semi_major_axis_m_ = gravity_constant_m3_s2 / (2.0 * gravity_constant_m3_s2 / r_m - v2_m2_s2);
 
   // inclination
-  math::Vector<3> h_direction = h.CalcNormalizedVector();
-  inclination_rad_ = acos(h_direction[2]);
+  inclination_rad_ = atan2(sqrt(h[0] * h[0] + h[1] * h[1]), h[2]);
 
   // RAAN
   double norm_h = sqrt(h[0] * h[0] + h[1] * h[1]);
@@ -54,7 +53,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From dcc03027d7e6b495b38a1a05a3efb28d5e23cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 082/146] fix: Encke rectification starts the new reference
 orbit at the time of the rectified state and keeps the acceleration

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 7 ++++++-
 src/dynamics/orbit/encke_orbit_propagation.hpp | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 9bcb931..39277a4 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -34,7 +34,10 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
   double norm_difference_position_m = difference_position_i_m_.CalcNorm();
   if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+    // The spacecraft position and velocity are the values at the end of the previous propagation
+    const math::Vector<3> acceleration_i_m_s2 = spacecraft_acceleration_i_m_s2_;
+    Initialize(propagation_time_jd_, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+    spacecraft_acceleration_i_m_s2_ = acceleration_i_m_s2;
   }
 
   // Update reference orbit
@@ -51,6 +54,7 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   SetStepWidth(end_time_s - propagation_time_s_);  // Adjust the last propagation Δt
   Update();
   propagation_time_s_ = end_time_s;
+  propagation_time_jd_ = current_time_jd;
 
   difference_position_i_m_[0] = GetState()[0];
   difference_position_i_m_[1] = GetState()[1];
@@ -88,6 +92,7 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
   // General
+  propagation_time_jd_ = current_time_jd;
   spacecraft_acceleration_i_m_s2_.FillUp(0.0);
 
   // reference orbit
diff --git a/src/dynamics/orbit/encke_orbit_propagation.hpp b/src/dynamics/orbit/encke_orbit_propagation.hpp
index 68542f1..34a0722 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.hpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.hpp
@@ -63,6 +63,7 @@ class EnckeOrbitPropagation : public Orbit, public math::OrdinaryDifferentialEqu
   const double error_tolerance_;         //!< Error tolerance ratio
   double propagation_step_s_;            //!< Propagation step width for RK4
   double propagation_time_s_;            //!< Simulation current time for numerical integration by RK4
+  double propagation_time_jd_;           //!< Julian day of the current spacecraft position and velocity [day]
 
   // reference orbit
   math::Vector<3> reference_position_i_m_;         //!< Reference orbit position in the inertial frame [m]
-- 
2.43.0


From 7dfe7b3697805e76da6d922381fd57f04c9c3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 083/146] fix: Encke method evaluates the reference orbit at
 the time of each integration stage

---
 .../orbit/encke_orbit_propagation.cpp         | 35 +++++++++++--------
 .../orbit/encke_orbit_propagation.hpp         |  5 ++-
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 39277a4..02251e9 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -5,8 +5,6 @@
 
 #include "encke_orbit_propagation.hpp"
 
-#include <utilities/macros.hpp>
-
 #include "../../math_physics/orbit/orbital_elements.hpp"
 
 namespace s2e::dynamics::orbit {
@@ -40,12 +38,10 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
     spacecraft_acceleration_i_m_s2_ = acceleration_i_m_s2;
   }
 
-  // Update reference orbit
-  reference_kepler_orbit.CalcOrbit(current_time_jd);
-  reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
-  reference_velocity_i_m_s_ = reference_kepler_orbit.GetVelocity_i_m_s();
-
   // Propagate difference orbit
+  end_time_s_ = end_time_s;
+  end_time_jd_ = current_time_jd;
+  Setup(propagation_time_s_, GetState());
   SetStepWidth(propagation_step_s_);  // Re-set propagation Δt
   while (end_time_s - propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     Update();  // Propagation methods of the OrdinaryDifferentialEquation class
@@ -56,6 +52,11 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   propagation_time_s_ = end_time_s;
   propagation_time_jd_ = current_time_jd;
 
+  // Update reference orbit
+  reference_kepler_orbit.CalcOrbit(current_time_jd);
+  reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
+  reference_velocity_i_m_s_ = reference_kepler_orbit.GetVelocity_i_m_s();
+
   difference_position_i_m_[0] = GetState()[0];
   difference_position_i_m_[1] = GetState()[1];
   difference_position_i_m_[2] = GetState()[2];
@@ -68,18 +69,22 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
 
 // Functions for OrdinaryDifferentialEquation
 void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>& state, math::Vector<6>& rhs) {
-  UNUSED(t);
   math::Vector<3> difference_position_i_m_m, difference_acc_i_m_s2;
   for (int i = 0; i < 3; i++) {
     difference_position_i_m_m[i] = state[i];
   }
 
-  double q_func = CalcQFunction(difference_position_i_m_m);
-  double r_m = reference_position_i_m_.CalcNorm();
+  // Reference orbit and spacecraft position at the time of evaluation
+  reference_kepler_orbit.CalcOrbit(end_time_jd_ - (end_time_s_ - t) / (24.0 * 60.0 * 60.0));
+  const math::Vector<3> reference_position_i_m = reference_kepler_orbit.GetPosition_i_m();
+  const math::Vector<3> position_i_m = reference_position_i_m + difference_position_i_m_m;
+
+  double q_func = CalcQFunction(position_i_m, difference_position_i_m_m);
+  double r_m = reference_position_i_m.CalcNorm();
   double r_m3 = pow(r_m, 3.0);
 
   difference_acc_i_m_s2 =
-      -(gravity_constant_m3_s2_ / r_m3) * (q_func * spacecraft_position_i_m_ + difference_position_i_m_m) + spacecraft_acceleration_i_m_s2_;
+      -(gravity_constant_m3_s2_ / r_m3) * (q_func * position_i_m + difference_position_i_m_m) + spacecraft_acceleration_i_m_s2_;
 
   rhs[0] = state[3];
   rhs[1] = state[4];
@@ -106,7 +111,7 @@ void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> r
   difference_velocity_i_m_s_.FillUp(0.0);
 
   math::Vector<6> zero(0.0f);
-  Setup(0.0, zero);
+  Setup(propagation_time_s_, zero);
 
   UpdateSatOrbit();
 }
@@ -119,12 +124,12 @@ void EnckeOrbitPropagation::UpdateSatOrbit() {
   TransformEcefToGeodetic();
 }
 
-double EnckeOrbitPropagation::CalcQFunction(math::Vector<3> difference_position_i_m) {
+double EnckeOrbitPropagation::CalcQFunction(const math::Vector<3> position_i_m, const math::Vector<3> difference_position_i_m) {
   double r2;
-  r2 = InnerProduct(spacecraft_position_i_m_, spacecraft_position_i_m_);
+  r2 = InnerProduct(position_i_m, position_i_m);
 
   math::Vector<3> dr_2r;
-  dr_2r = difference_position_i_m - 2.0 * spacecraft_position_i_m_;
+  dr_2r = difference_position_i_m - 2.0 * position_i_m;
 
   double q = InnerProduct(difference_position_i_m, dr_2r) / r2;
 
diff --git a/src/dynamics/orbit/encke_orbit_propagation.hpp b/src/dynamics/orbit/encke_orbit_propagation.hpp
index 34a0722..d43a4d4 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.hpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.hpp
@@ -64,6 +64,8 @@ class EnckeOrbitPropagation : public Orbit, public math::OrdinaryDifferentialEqu
   double propagation_step_s_;            //!< Propagation step width for RK4
   double propagation_time_s_;            //!< Simulation current time for numerical integration by RK4
   double propagation_time_jd_;           //!< Julian day of the current spacecraft position and velocity [day]
+  double end_time_s_;                    //!< Simulation time at the end of the propagation [s]
+  double end_time_jd_;                   //!< Julian day at the end of the propagation [day]
 
   // reference orbit
   math::Vector<3> reference_position_i_m_;         //!< Reference orbit position in the inertial frame [m]
@@ -91,9 +93,10 @@ class EnckeOrbitPropagation : public Orbit, public math::OrdinaryDifferentialEqu
   /**
    * @fn CalcQFunction
    * @brief Calculate Q function
+   * @param [in] position_i_m: Spacecraft position in the inertial frame [m]
    * @param [in] difference_position_i_m: Difference of position in the inertial frame [m]
    */
-  double CalcQFunction(const math::Vector<3> difference_position_i_m);
+  double CalcQFunction(const math::Vector<3> position_i_m, const math::Vector<3> difference_position_i_m);
 };
 
 }  // namespace s2e::dynamics::orbit
-- 
2.43.0


From e13753301677dc07c778bf71a4fd5332815359ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 084/146] fix: SGP4 divisor for an inclination of 180 degrees
 is not zero

---
 src/math_physics/orbit/sgp4/sgp4unit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/orbit/sgp4/sgp4unit.cpp b/src/math_physics/orbit/sgp4/sgp4unit.cpp
index 55e8f25..fa1a2a9 100644
--- a/src/math_physics/orbit/sgp4/sgp4unit.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4unit.cpp
@@ -1179,7 +1179,7 @@ int sgp4init(gravconsttype whichconst, const int satn, const double epoch, const
 
   /* ------------------------ initialization --------------------- */
   // sgp4fix divisor for divide by zero check on inclination
-  const double temp4 = 1.0 + cos(pi - 1.0e-9);
+  const double temp4 = 1.5e-12;
 
   /* ----------- set all near earth variables to zero ------------ */
   satrec.isimp = 0;
@@ -1511,7 +1511,7 @@ int sgp4(gravconsttype whichconst, elsetrec& satrec, double tsince, double r[3],
 
   /* ------------------ set mathematical constants --------------- */
   // sgp4fix divisor for divide by zero check on inclination
-  const double temp4 = 1.0 + cos(pi - 1.0e-9);
+  const double temp4 = 1.5e-12;
   twopi = 2.0 * pi;
   x2o3 = 2.0 / 3.0;
   // sgp4fix identify constants and allow alternate values
-- 
2.43.0


From eb8e9d12fe42ce9a12fd5673097b22e8de7c9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 085/146] fix: inertial velocity of a relative orbit includes
 the rotation of the LVLH frame

---
 src/dynamics/orbit/relative_orbit.cpp | 24 ++++++++++++++----------
 src/dynamics/orbit/relative_orbit.hpp |  5 +++++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/relative_orbit.cpp b/src/dynamics/orbit/relative_orbit.cpp
index 6f4b260..6691cfc 100644
--- a/src/dynamics/orbit/relative_orbit.cpp
+++ b/src/dynamics/orbit/relative_orbit.cpp
@@ -40,12 +40,7 @@ void RelativeOrbit::InitializeState(math::Vector<3> relative_position_lvlh_m, ma
   // Disturbance acceleration are not considered in relative orbit propagation
   spacecraft_acceleration_i_m_s2_ *= 0.0;
 
-  math::Vector<3> reference_sat_position_i = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().GetPosition_i_m();
-  math::Vector<3> reference_sat_velocity_i = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().GetVelocity_i_m_s();
-  math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
-  math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
-  spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  UpdateSatOrbit();
 
   initial_state_[0] = relative_position_lvlh_m[0];
   initial_state_[1] = relative_position_lvlh_m[1];
@@ -110,15 +105,24 @@ void RelativeOrbit::Propagate(const double end_time_s, const double current_time
     PropagateStm(end_time_s);
   }
 
+  UpdateSatOrbit();
+  TransformEciToEcef();
+  TransformEcefToGeodetic();
+}
+
+void RelativeOrbit::UpdateSatOrbit() {
   math::Vector<3> reference_sat_position_i = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().GetPosition_i_m();
   math::Vector<3> reference_sat_velocity_i = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().GetVelocity_i_m_s();
   math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
-
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
-  TransformEciToEcef();
-  TransformEcefToGeodetic();
+  // The relative velocity is seen in the LVLH frame, which rotates with the reference orbit
+  const double reference_sat_radius_m = reference_sat_position_i.CalcNorm();
+  const math::Vector<3> lvlh_angular_velocity_i_rad_s =
+      (1.0 / (reference_sat_radius_m * reference_sat_radius_m)) * OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i) +
+                               reference_sat_velocity_i;
 }
 
 void RelativeOrbit::PropagateRk4(double elapsed_sec) {
diff --git a/src/dynamics/orbit/relative_orbit.hpp b/src/dynamics/orbit/relative_orbit.hpp
index 313ac94..6b7ff9d 100644
--- a/src/dynamics/orbit/relative_orbit.hpp
+++ b/src/dynamics/orbit/relative_orbit.hpp
@@ -116,6 +116,11 @@ class RelativeOrbit : public Orbit, public math::OrdinaryDifferentialEquation<6>
    * @param [in] elapsed_sec: Elapsed time [sec]
    */
   void CalculateStm(s2e::orbit::StmModel stm_model_type, const Orbit* reference_sat_orbit, double gravity_constant_m3_s2, double elapsed_sec);
+  /**
+   * @fn UpdateSatOrbit
+   * @brief Update position and velocity in the inertial frame from the relative state
+   */
+  void UpdateSatOrbit();
   /**
    * @fn PropagateRk4
    * @brief Propagate relative orbit with RK4
-- 
2.43.0


From d1c413f2ac5bed52007c5edccc4839fe51f4eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:11 +0000
Subject: [PATCH 086/146] fix: ECEF velocity uses the spin axis of the current
 Earth rotation

---
 src/dynamics/orbit/orbit.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/orbit.cpp b/src/dynamics/orbit/orbit.cpp
index 40caae6..583a3a5 100644
--- a/src/dynamics/orbit/orbit.cpp
+++ b/src/dynamics/orbit/orbit.cpp
@@ -35,8 +35,10 @@ void Orbit::TransformEciToEcef(void) {
   spacecraft_position_ecef_m_ = dcm_i_to_xcxf * spacecraft_position_i_m_;
 
   // convert velocity vector in ECI to the vector in ECEF
-  math::Vector<3> earth_angular_velocity_i_rad_s{0.0};
-  earth_angular_velocity_i_rad_s[2] = environment::earth_mean_angular_velocity_rad_s;
+  // the Earth rotates around the z-axis of the ECEF frame
+  math::Vector<3> earth_angular_velocity_ecef_rad_s{0.0};
+  earth_angular_velocity_ecef_rad_s[2] = environment::earth_mean_angular_velocity_rad_s;
+  math::Vector<3> earth_angular_velocity_i_rad_s = dcm_i_to_xcxf.Transpose() * earth_angular_velocity_ecef_rad_s;
   math::Vector<3> we_cross_r = OuterProduct(earth_angular_velocity_i_rad_s, spacecraft_position_i_m_);
   math::Vector<3> velocity_we_cross_r = spacecraft_velocity_i_m_s_ - we_cross_r;
   spacecraft_velocity_ecef_m_s_ = dcm_i_to_xcxf * velocity_we_cross_r;
-- 
2.43.0


From 32431616995b52d0af241a8567ad2d9735bc3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:11 +0000
Subject: [PATCH 087/146] fix: initial position and velocity are read from the
 requested section

---
 src/dynamics/orbit/initialize_orbit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/initialize_orbit.cpp b/src/dynamics/orbit/initialize_orbit.cpp
index e039adb..32c7f08 100644
--- a/src/dynamics/orbit/initialize_orbit.cpp
+++ b/src/dynamics/orbit/initialize_orbit.cpp
@@ -31,7 +31,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize RK4 orbit propagator
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -91,7 +91,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize orbit for Encke's method
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -116,7 +116,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
 
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
-- 
2.43.0


From 85a3fc35fde26ab67a6766f545f6b468d74a4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 088/146] fix: time series orbit interpolates over the whole
 file for every step width and start time

---
 .../time_series_file_orbit_propagation.cpp    | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..fb7e87f 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -5,6 +5,7 @@
 
 #include "time_series_file_orbit_propagation.hpp"
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -33,22 +34,26 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   setting_file_reader::IniAccess time_series_file(time_series_file_path);
   time_series_file.ReadCsvDoubleWithHeader(time_series_data_, 7, 1, 0);
 
+  number_of_interpolation_ = std::min(number_of_interpolation_, static_cast<int>(time_series_data_.size()));
+
   // Get general info
   size_t nearest_ephemeris_time_id = SearchNearestEphemerisTimeId(current_time_jd);
 
-  const size_t half_interpolation_number = number_of_interpolation / 2;
+  const size_t half_interpolation_number = number_of_interpolation_ / 2;
   if (nearest_ephemeris_time_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
+  // The interpolation window has to be filled with the available data
+  reference_interpolation_id_ = std::min(reference_interpolation_id_, time_series_data_.size() - number_of_interpolation_);
 
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
   // Initialize orbit
-  orbit_position_i_m_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation));
-  orbit_velocity_i_m_s_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation));
+  orbit_position_i_m_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation_));
+  orbit_velocity_i_m_s_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation_));
 
   // Initialize interpolation
-  for (int i = 0; i < number_of_interpolation; i++) {
+  for (int i = 0; i < number_of_interpolation_; i++) {
     UpdateInterpolationInformation();
   }
   spacecraft_acceleration_i_m_s2_ *= 0.0;
@@ -67,8 +72,8 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 
   // Get the nearest ephemeris time ID
   for (size_t i = 0; i < time_series_data_.size(); i++) {
+    nearest_ephemeris_time_id = i;
     if (start_ephemris_time < time_series_data_[i][0]) {
-      nearest_ephemeris_time_id = i;
       break;
     }
   }
@@ -76,7 +81,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
@@ -90,8 +95,8 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id = static_cast<size_t>(number_of_interpolation_ / 2);
+  while (reference_interpolation_id_ < time_series_data_.size() && diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id]) {
     UpdateInterpolationInformation();
   }
   if (diff_s < 0.0) {
@@ -103,7 +108,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_.back()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From 9422b4458c4ca6bef4ead5ed1db92973347c1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 089/146] fix: view factor of a thermal node is defined at the
 edges of Earth visibility

---
 src/dynamics/thermal/node.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..7e55b51 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -54,7 +55,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  const double lamda = acos(clamp(InnerProduct(sat2earth_direction_b, normal_vector_b_), -1.0, 1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -67,8 +68,8 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
     if (lamda <= math::pi / 2.0 - phi_m) {
       view_factor = cos(lamda) / H / H;
     } else if (lamda <= math::pi / 2.0 + phi_m) {
-      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
-                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
+      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(min(b / (H * sin(lamda)), 1.0)) +
+                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(clamp(-b / tan(lamda), -1.0, 1.0)) - b * sqrt(max(1.0 - pow(H * cos(lamda), 2.0), 0.0)));
     } else {
       view_factor = 0.0;
     }
@@ -98,7 +99,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  const double lamda = acos(clamp(InnerProduct(earth_direction_b, normal_vector_b_), -1.0, 1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -112,8 +113,8 @@ double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, do
     if (lamda <= math::pi / 2.0 - phi_m) {
       view_factor = cos(lamda) / H / H;
     } else if (lamda <= math::pi / 2.0 + phi_m) {
-      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
-                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
+      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(min(b / (H * sin(lamda)), 1.0)) +
+                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(clamp(-b / tan(lamda), -1.0, 1.0)) - b * sqrt(max(1.0 - pow(H * cos(lamda), 2.0), 0.0)));
     } else {
       view_factor = 0.0;
     }
-- 
2.43.0


From 1f945fa381cc9a9b4d5882cb4cc6364bf49414b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 090/146] fix: Earth infrared heat load starts at zero

---
 src/dynamics/thermal/heatload.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..dc0eb48 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -15,6 +15,7 @@ Heatload::Heatload(int node_id, std::vector<double> time_table_s, std::vector<do
   elapsed_time_idx_ = 0;
   solar_heatload_W_ = 0.0;
   albedo_heatload_W_ = 0.0;
+  earth_infrared_heatload_W_ = 0.0;
   internal_heatload_W_ = 0.0;
   heater_heatload_W_ = 0.0;
   total_heatload_W_ = 0.0;
-- 
2.43.0


From b4edbb07eeee10710b5df33e62f0c7387665c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 091/146] fix: heat load table is repeated after its last time
 and may have a single entry

---
 src/dynamics/thermal/heatload.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index dc0eb48..05a15fa 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -29,6 +29,10 @@ Heatload::Heatload(int node_id, std::vector<double> time_table_s, std::vector<do
 Heatload::~Heatload() {}
 
 void Heatload::CalcInternalHeatload(void) {
+  if (time_table_s_.size() < 2) {
+    internal_heatload_W_ = internal_heatload_table_W_[0];  // constant heatload
+    return;
+  }
   double time_table_lower_s = time_table_s_[elapsed_time_idx_];      // Time in time_table_s_ that is below and closest to elapsed_time_s_ [s]
   double time_table_upper_s = time_table_s_[elapsed_time_idx_ + 1];  // Time in time_table_s_ that is above and closest to elapsed_time_s_ [s]
 
@@ -44,13 +48,13 @@ void Heatload::CalcInternalHeatload(void) {
 
 void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
+  if (time_table_s_.size() < 2) return;  // constant heatload
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
-
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  if (residual_elapsed_time_s_ < time_table_s_[elapsed_time_idx_]) {
+    elapsed_time_idx_ = 0;  // the table is repeated
+  }
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From c92cf5b9aa17b1b2cb96dec008dd5e72589c202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 092/146] fix: thermal Runge-Kutta stages use the temperatures
 of the stage

---
 src/dynamics/thermal/temperature.cpp | 7 ++-----
 src/dynamics/thermal/temperature.hpp | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 46a39b0..e6f6952 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -138,9 +138,6 @@ void Temperature::CalcRungeOneStep(double time_now_s, double time_step_s, const
 
 vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperatures_K, double t,
                                                          const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
-  // TODO: consider the following unused arguments are really needed
-  UNUSED(temperatures_K);
-
   math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
   vector<double> differentials_K_s(node_num);
   for (size_t i = 0; i < node_num; i++) {
@@ -167,9 +164,9 @@ vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperat
       double conductive_heat_input_W = 0;
       double radiative_heat_input_W = 0;
       for (size_t j = 0; j < node_num; j++) {
-        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (nodes_[j].GetTemperature_K() - nodes_[i].GetTemperature_K());
+        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (temperatures_K[j] - temperatures_K[i]);
         radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] *
-                                  (pow(nodes_[j].GetTemperature_K(), 4) - pow(nodes_[i].GetTemperature_K(), 4));
+                                  (pow(temperatures_K[j], 4) - pow(temperatures_K[i], 4));
       }
       double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
       differentials_K_s[i] = total_heat_input_W / nodes_[i].GetCapacity_J_K();
diff --git a/src/dynamics/thermal/temperature.hpp b/src/dynamics/thermal/temperature.hpp
index 200d213..dd4496d 100644
--- a/src/dynamics/thermal/temperature.hpp
+++ b/src/dynamics/thermal/temperature.hpp
@@ -66,7 +66,7 @@ class Temperature : public logger::ILoggable {
    * @fn CalcTemperatureDifferentials
    * @brief Calculate differential of thermal equilibrium equation
    *
-   * @param temperatures_K: [UNUSED] Temperatures of each node [K]
+   * @param temperatures_K: Temperatures of each node [K]
    * @param time_now_s: Current elapsed time [s]
    * @param[in] local_celestial_information: LocalCelestialInformation object for calculating radiation
    * @param node_num: Number of nodes
-- 
2.43.0


From 9c6dac6ca6b174f716cf8d969a4ec2e292286912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 093/146] fix: attitude observers draw their noise from the
 global seed

---
 src/components/ideal/attitude_observer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/components/ideal/attitude_observer.cpp b/src/components/ideal/attitude_observer.cpp
index a77c1b4..7c719f6 100644
--- a/src/components/ideal/attitude_observer.cpp
+++ b/src/components/ideal/attitude_observer.cpp
@@ -6,14 +6,16 @@
 #include "attitude_observer.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
 
 AttitudeObserver::AttitudeObserver(const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad,
                                    const dynamics::attitude::Attitude& attitude)
-    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad), attitude_(attitude) {
-  direction_noise_.SetParameters(0.0, 1.0);
+    : Component(prescaler, clock_generator), attitude_(attitude) {
+  angle_noise_.SetParameters(0.0, standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 void AttitudeObserver::MainRoutine(const int time_count) {
-- 
2.43.0


From f226c2cb3daa970955550a5989ef1132c159bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 094/146] fix: each reaction wheel owns its jitter model

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..39aa76a 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From 6374284e6edd4c0f795b0ab7c4a74c46b6c6a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 095/146] fix: reaction wheel jitter force getter can be linked

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39aa76a..47bd344 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -126,7 +126,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
    * @fn GetJitterForce_b_N
    * @brief Return output force by jitter in the body fixed frame [N]
    */
-  inline const math::Vector<3> GetJitterForce_b_N() const;
+  const math::Vector<3> GetJitterForce_b_N() const;
   /**
    * @fn GetDriveFlag
    * @brief Return drive flag
-- 
2.43.0


From dfb70da23472115320f8911dee7f9d70309b31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 096/146] fix: coasting friction follows the documented
 polynomial

---
 src/components/real/aocs/reaction_wheel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..503ab03 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -111,7 +111,7 @@ math::Vector<3> ReactionWheel::CalcTorque() {
     double abs_angular_velocity_rad_s = abs(angular_velocity_rad_s_);
     double coasting_acceleration_rad_s2 = 0.0;
     for (size_t i = 0; i < coasting_friction_coefficients_.size(); i++) {
-      coasting_acceleration_rad_s2 += coasting_friction_coefficients_[i] * pow(abs_angular_velocity_rad_s, i);
+      coasting_acceleration_rad_s2 += coasting_friction_coefficients_[i] * pow(abs_angular_velocity_rad_s, i + 1);
     }
 
     double rotation_direction = 1.0;
-- 
2.43.0


From e1eea02c4519515cb006adeb079f6384e04d86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 097/146] fix: coasting friction does not reverse the rotation
 of the reaction wheel

---
 src/components/real/aocs/reaction_wheel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 503ab03..897e7d8 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -114,6 +114,10 @@ math::Vector<3> ReactionWheel::CalcTorque() {
       coasting_acceleration_rad_s2 += coasting_friction_coefficients_[i] * pow(abs_angular_velocity_rad_s, i + 1);
     }
 
+    // The friction only stops the rotor, it never reverses the rotation
+    const double stop_acceleration_rad_s2 = abs_angular_velocity_rad_s / step_width_s_;
+    if (coasting_acceleration_rad_s2 > stop_acceleration_rad_s2) coasting_acceleration_rad_s2 = stop_acceleration_rad_s2;
+
     double rotation_direction = 1.0;
     if (abs_angular_velocity_rad_s < stop_limit_angular_velocity_rad_s_) {
       // Stop rotation
-- 
2.43.0


From b811ca002df19ff69a65b9c467733de0d9525655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 098/146] fix: reaction wheel without power generates no torque

---
 src/components/real/aocs/reaction_wheel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 897e7d8..1369daf 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,12 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  // The rotor keeps its angular velocity, so no torque is generated
+  generated_angular_acceleration_rad_s2_ = 0.0;
+  output_torque_b_Nm_ = math::Vector<3>(0.0);
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From 5dddc295cbda4fa9ed9496dd02e7d0fddae4d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 099/146] fix: reaction wheel angular momentum is initialised

---
 src/components/real/aocs/reaction_wheel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 1369daf..17bb6bf 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -80,6 +80,7 @@ void ReactionWheel::Initialize() {
 
   angular_velocity_rad_s_ = ode_angular_velocity_.GetAngularVelocity_rad_s();
   angular_velocity_rpm_ = angular_velocity_rad_s_ * math::rad_s_to_rpm;
+  angular_momentum_b_Nms_ = rotor_inertia_kgm2_ * angular_velocity_rad_s_ * rotation_axis_b_;
 
   // Turn on RW jitter calculation
   if (is_calculated_jitter_) {
-- 
2.43.0


From e31b2c43b1f8bd82ac9d2d8e60f182c48be81602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 100/146] fix: reaction wheel jitter phases come from the
 global seed

---
 src/components/real/aocs/reaction_wheel_jitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/reaction_wheel_jitter.cpp b/src/components/real/aocs/reaction_wheel_jitter.cpp
index c7edc49..cddca51 100644
--- a/src/components/real/aocs/reaction_wheel_jitter.cpp
+++ b/src/components/real/aocs/reaction_wheel_jitter.cpp
@@ -6,6 +6,7 @@
 #include "reaction_wheel_jitter.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <random>
 #include <utilities/macros.hpp>
 
@@ -26,8 +27,7 @@ ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double>> radial
       considers_structural_resonance_(considers_structural_resonance) {
   UNUSED(structural_resonance_frequency_Hz_);  // TODO: implement algorithm to use this variable
   // Generate random number for initial rotation phase
-  std::random_device seed_gen;
-  std::default_random_engine engine(seed_gen());
+  std::default_random_engine engine((unsigned int)randomization::global_randomization.MakeSeed());
   std::uniform_real_distribution<double> dist(0.0, math::tau);
   // Initialize RW rotation phase
   for (size_t i = 0; i < radial_force_harmonics_coefficients_.size(); i++) {
-- 
2.43.0


From 6601674f746b249d7ddd61788e0e23f539474417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 101/146] fix: magnetorquer errors are not accumulated over
 ticks

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..47177a1 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -67,6 +67,7 @@ void Magnetorquer::MainRoutine(const int time_count) {
 
 void Magnetorquer::PowerOffRoutine() {
   torque_b_Nm_ *= 0.0;
+  ordered_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
@@ -74,6 +75,7 @@ void Magnetorquer::PowerOffRoutine() {
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
   for (size_t i = 0; i < kMtqDimension; ++i) {
     // Limit Check
+    output_magnetic_moment_c_Am2_[i] = ordered_magnetic_moment_c_Am2_[i];
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
       output_magnetic_moment_c_Am2_[i] = max_magnetic_moment_c_Am2_[i];
     } else if (output_magnetic_moment_c_Am2_[i] < min_magnetic_moment_c_Am2_[i]) {
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..48497b6 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { ordered_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> ordered_magnetic_moment_c_Am2_{0.0};  //!< Ordered magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From ccb438de1dbfee05e3bb57529a62165791c20bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 102/146] fix: magnetorquer noise is seeded from the global
 seed

---
 src/components/real/aocs/magnetorquer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 47177a1..2e6e780 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -32,7 +32,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
@@ -55,7 +55,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
-- 
2.43.0


From d1e6dcb7c0f23b8b9ca03c5baadc3dca6dc1bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 103/146] fix: thrust direction error does not depend on the
 thrust direction

---
 src/components/real/propulsion/simple_thruster.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..e6b7f51 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -125,10 +125,7 @@ double SimpleThruster::CalcThrustMagnitude() {
 math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
-    math::Vector<3> ex;  // Fixme: to use outer product to generate orthogonal vector
-    ex[0] = 1.0;
-    ex[1] = 0.0;
-    ex[2] = 0.0;
+    math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
     int flag = rand() % 2;
     double make_axis_rot_rad;
     if (flag == 0) {
-- 
2.43.0


From 4612945272cd52e1e386b999c31c0319db532db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 104/146] fix: thruster direction and magnitude errors come
 from the global seed

---
 src/components/real/propulsion/simple_thruster.cpp | 13 ++++---------
 src/components/real/propulsion/simple_thruster.hpp |  1 +
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index e6b7f51..3f1acac 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -55,8 +55,9 @@ SimpleThruster::SimpleThruster(const int prescaler, environment::ClockGenerator*
 SimpleThruster::~SimpleThruster() {}
 
 void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
-  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N);
-  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad);
+  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N, randomization::global_randomization.MakeSeed());
+  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  direction_axis_random_.InitSeed(randomization::global_randomization.MakeSeed());
   thrust_direction_b_ = thrust_direction_b_.CalcNormalizedVector();
 }
 
@@ -126,13 +127,7 @@ math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
     math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
-    int flag = rand() % 2;
-    double make_axis_rot_rad;
-    if (flag == 0) {
-      make_axis_rot_rad = math::pi * (double)rand() / RAND_MAX;
-    } else {
-      make_axis_rot_rad = -math::pi * (double)rand() / RAND_MAX;
-    }
+    double make_axis_rot_rad = math::tau * direction_axis_random_;
 
     math::Quaternion make_axis_rot(thrust_dir_b_true, make_axis_rot_rad);
     math::Vector<3> axis_rot = make_axis_rot.FrameConversion(ex);
diff --git a/src/components/real/propulsion/simple_thruster.hpp b/src/components/real/propulsion/simple_thruster.hpp
index c852650..3f43869 100644
--- a/src/components/real/propulsion/simple_thruster.hpp
+++ b/src/components/real/propulsion/simple_thruster.hpp
@@ -126,6 +126,7 @@ class SimpleThruster : public Component, public logger::ILoggable {
   double direction_noise_standard_deviation_rad_ = 0.0;  //!< Standard deviation of thrust direction error [rad]
   randomization::NormalRand magnitude_random_noise_;     //!< Normal random for thrust magnitude error
   randomization::NormalRand direction_random_noise_;     //!< Normal random for thrust direction error
+  randomization::MinimalStandardLcgWithShuffle direction_axis_random_;  //!< Uniform random for the axis of the thrust direction error
   // Delay parameters
   const double dead_time_s_;                       //!< Dead time [s]
   const double step_width_s_;                      //!< Step width for simulation [s]
-- 
2.43.0


From 32045c7425b27095ff49eafe2f48bcc5f0180655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 105/146] fix: direction error of ideal force and torque
 generators is a rotation

---
 src/components/ideal/force_generator.cpp  | 2 ++
 src/components/ideal/torque_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..a5db493 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -100,6 +100,8 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis = rotation_axis.CalcNormalizedVector();
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..9290bd6 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -74,6 +74,8 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis = rotation_axis.CalcNormalizedVector();
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
-- 
2.43.0


From 24d8d9c03f66a36c80fd9130d9db7c72d8985e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 106/146] fix: ideal force and torque generators draw their
 noise from the global seed

---
 src/components/ideal/force_generator.cpp  | 5 +++--
 src/components/ideal/torque_generator.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index a5db493..68a8824 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -6,6 +6,7 @@
 #include "force_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -14,10 +15,10 @@ namespace s2e::components {
 ForceGenerator::ForceGenerator(const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N,
                                const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_N),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  magnitude_noise_.SetParameters(0.0, magnitude_error_standard_deviation_N, randomization::global_randomization.MakeSeed());
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 ForceGenerator::~ForceGenerator() {}
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index 9290bd6..5ed105a 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -6,6 +6,7 @@
 #include "torque_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -15,10 +16,10 @@ TorqueGenerator::TorqueGenerator(const int prescaler, environment::ClockGenerato
                                  const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad,
                                  const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  magnitude_noise_.SetParameters(0.0, magnitude_error_standard_deviation_Nm, randomization::global_randomization.MakeSeed());
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 TorqueGenerator::~TorqueGenerator() {}
-- 
2.43.0


From aba56aacc66b39357d82ec0317490df199b95f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 107/146] fix: sun sensor judges the detection with the current
 illuminance

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..76294d5 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -67,6 +67,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -94,8 +95,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From 35284d7b31cf4cf8f3b1b54aa9b4e0f9f7291f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 108/146] fix: sun sensor noise is seeded from the global seed

---
 src/components/real/aocs/sun_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 76294d5..373e772 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -52,8 +52,8 @@ void SunSensor::Initialize(const double random_noise_standard_deviation_rad, con
   bias_noise_beta_rad_ += nr;
 
   // Normal Random
-  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad);  // global_randomization.MakeSeed()
-  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad);   // global_randomization.MakeSeed()
+  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
 }
 void SunSensor::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From 689daf930f09466c8ef7c5817d2ce22c1485d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 109/146] fix: star sensor outputs the quaternion delayed by
 the configured time

---
 src/components/real/aocs/star_sensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..ae1d9de 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -73,8 +73,7 @@ void StarSensor::Initialize() {
   measured_quaternion_i2c_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
 
   // Decide delay buffer size
-  max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  max_delay_ = (int)output_delay_ + 1;
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -95,9 +94,9 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
                                const dynamics::attitude::Attitude* attitude) {
   update(local_celestial_information, attitude);  // update delay buffer
   if (update_count_ == 0) {
-    int hist = buffer_position_ - output_delay_ - 1;
+    int hist = buffer_position_ - (int)output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From ad4d39bc7b0704ecd117ff9b0a1a1f484f043ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 110/146] fix: star sensor uses the apparent radius of the
 Earth

---
 src/components/real/aocs/star_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index ae1d9de..fdd5bd6 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -154,8 +154,7 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(min(environment::earth_equatorial_radius_m / earth_b.CalcNorm(), 1.0));  // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From 39ad85e19d8d66d5586a51403157ed38fcc6598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 111/146] fix: star sensor angle is defined for parallel
 vectors

---
 src/components/real/aocs/star_sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index fdd5bd6..24cb1d3 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -206,7 +206,7 @@ double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>&
   math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
 
   double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
-  double theta_rad = acos(cosTheta);
+  double theta_rad = acos(max(-1.0, min(1.0, cosTheta)));
   return theta_rad;
 }
 
-- 
2.43.0


From 70ace12a030a157480afdd2b93db9af068deb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 112/146] fix: GNSS receiver reports negative latitudes below
 the antenna plane

---
 src/components/real/aocs/gnss_receiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/gnss_receiver.cpp b/src/components/real/aocs/gnss_receiver.cpp
index 8acf578..354c95e 100644
--- a/src/components/real/aocs/gnss_receiver.cpp
+++ b/src/components/real/aocs/gnss_receiver.cpp
@@ -173,7 +173,7 @@ void GnssReceiver::SetGnssInfo(const math::Vector<3> antenna_to_satellite_i_m, c
   double distance_m = antenna_to_satellite_i_m.CalcNorm();
   double longitude_rad = AcTan(antenna_to_satellite_direction_c[1], antenna_to_satellite_direction_c[0]);
   double latitude_rad =
-      AcTan(antenna_to_satellite_direction_c[2], sqrt(pow(antenna_to_satellite_direction_c[0], 2.0) + pow(antenna_to_satellite_direction_c[1], 2.0)));
+      atan2(antenna_to_satellite_direction_c[2], sqrt(pow(antenna_to_satellite_direction_c[0], 2.0) + pow(antenna_to_satellite_direction_c[1], 2.0)));
 
   GnssInfo gnss_info_new = {gnss_system_id, latitude_rad, longitude_rad, distance_m};
   gnss_information_list_.push_back(gnss_info_new);
-- 
2.43.0


From 688aa17f12319428a2865f691f1924b8c369e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 113/146] fix: GNSS receiver does not see satellites behind the
 near limb of the Earth

---
 src/components/real/aocs/gnss_receiver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/components/real/aocs/gnss_receiver.cpp b/src/components/real/aocs/gnss_receiver.cpp
index 354c95e..915dede 100644
--- a/src/components/real/aocs/gnss_receiver.cpp
+++ b/src/components/real/aocs/gnss_receiver.cpp
@@ -132,10 +132,11 @@ void GnssReceiver::CheckAntennaCone(const math::Vector<3> position_true_eci_m, c
 
     // Check GNSS satellites are visible from the receiver(not care antenna direction)
     bool is_gnss_satellite_visible_from_receiver = false;
-    double inner1 = InnerProduct(antenna_position_i_m, gnss_satellite_position_i_m);
-    if (inner1 > 0.0) {  // GNSS satellite and receiver are in the same hemisphere
+    const bool is_above_receiver = InnerProduct(antenna_position_i_m, antenna_to_gnss_satellite_direction_i) >= 0.0;
+    const bool is_in_front_of_earth = InnerProduct(gnss_satellite_position_i_m, antenna_to_gnss_satellite_direction_i) <= 0.0;
+    if (is_above_receiver || is_in_front_of_earth) {  // The line of sight does not have the closest point to the Earth on its way
       is_gnss_satellite_visible_from_receiver = true;
-    } else {  // GNSS satellite is in the another hemisphere
+    } else {  // The line of sight passes the closest point to the Earth
       double angle_bw_earth_center_and_edge_rad = asin(environment::earth_equatorial_radius_m / antenna_position_i_m.CalcNorm());
       double angle_bw_earth_center_and_gnss_rad =
           acos(InnerProduct(-antenna_position_i_m.CalcNormalizedVector(), antenna_to_gnss_satellite_direction_i));
-- 
2.43.0


From 7f11f05464c59111f106eb21bc81d175807bb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 114/146] fix: seeds made from the global randomization give
 unrelated random sequences

---
 .../randomization/global_randomization.cpp            | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/randomization/global_randomization.cpp b/src/math_physics/randomization/global_randomization.cpp
index 5c1bdef..1e294e0 100644
--- a/src/math_physics/randomization/global_randomization.cpp
+++ b/src/math_physics/randomization/global_randomization.cpp
@@ -5,6 +5,8 @@
 
 #include "global_randomization.hpp"
 
+#include <cstdint>
+
 namespace s2e::randomization {
 
 GlobalRandomization global_randomization;
@@ -18,8 +20,13 @@ void GlobalRandomization::SetSeed(const long seed) {
 
 long GlobalRandomization::MakeSeed() {
   double rand = base_randomizer_;
-  long seed = (long)((rand - 0.5) * kMaxSeed);
-  if (seed == 0) {
+  // Scramble the random value. Sequences seeded by consecutive values of the congruential generator are the same sequence with a delay
+  uint32_t scrambled = (uint32_t)(rand * kMaxSeed);
+  scrambled = (scrambled ^ (scrambled >> 16)) * 0x85ebca6b;
+  scrambled = (scrambled ^ (scrambled >> 13)) * 0xc2b2ae35;
+  scrambled = scrambled ^ (scrambled >> 16);
+  long seed = (long)((int64_t)scrambled - (int64_t)(kMaxSeed / 2));
+  if (seed % MinimalStandardLcg::kM == 0) {
     seed = 0xdeadbeef;
   }
   return seed;
-- 
2.43.0


From a20b8c21386ad58a580bc6dd5e6362a866a4b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 115/146] fix: battery starts without charge current and with
 the voltage of its initial depth of discharge

---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..a0173bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -21,8 +21,11 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cc_charge_current_C_(cc_charge_c_rate * cell_capacity_Ah * number_of_parallel),
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
+      charge_current_A_(0.0),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -35,8 +38,11 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cc_charge_current_C_(cc_charge_c_rate * cell_capacity_Ah * number_of_parallel),
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
+      charge_current_A_(0.0),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From 05de2e9c40eaef1a01c3e2b26f132cd02e876d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 116/146] fix: CSV scenario is zero before its first row

---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..7c787e3 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -89,8 +89,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;  // There is no data before the query
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From 12368d296fb690b05733e1251a615b846a2fef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 117/146] fix: CSV scenario rejects rows with missing columns

---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 7c787e3..f319379 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -82,7 +82,7 @@ std::vector<std::vector<double>> CsvScenarioInterface::ReadCsvData(const std::st
 void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std::vector<std::vector<double>>& data) {
   auto line_num = buffer_line_id_.at(buffer_name);
   for (const auto& line : data) {
-    buffers_[buffer_name][line[0]] = line[line_num];
+    buffers_[buffer_name][line.at(0)] = line.at(line_num);
   }
 }
 
-- 
2.43.0


From 2a4472fa7949d44bbc6dedd310f0198c39be9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 118/146] fix: CSV scenario does not mix in rows of a scenario
 read before

---
 src/components/real/power/csv_scenario_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index f319379..d2e6356 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -81,6 +81,7 @@ std::vector<std::vector<double>> CsvScenarioInterface::ReadCsvData(const std::st
 
 void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std::vector<std::vector<double>>& data) {
   auto line_num = buffer_line_id_.at(buffer_name);
+  buffers_[buffer_name].clear();  // Remove data of the scenario read before
   for (const auto& line : data) {
     buffers_[buffer_name][line.at(0)] = line.at(line_num);
   }
-- 
2.43.0


From 83a579413fe18cce0f9eb9e36b558e3e175c0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 119/146] fix: serial port of the OBC gives each direction its
 own buffer size

---
 src/components/base/uart_communication_with_obc.cpp    | 2 +-
 src/components/real/cdh/on_board_computer.cpp          | 2 +-
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..55eeda8 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -113,7 +113,7 @@ void UartCommunicationWithObc::InitializeObcComBase() {
     case SimulationMode::kError:
       break;
     case SimulationMode::kSils:
-      ret = obc_->ConnectComPort(sils_port_id_, tx_buffer_size_, rx_buffer_size_);
+      ret = obc_->ConnectComPort(sils_port_id_, rx_buffer_size_, tx_buffer_size_);  // TX of the OBC is RX of the component
       if (ret != 0) {
         std::cout << "Already connected: ObcCommunication ConnectComPort ID:" << sils_port_id_ << "\n";
         is_connected_ = false;
diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..d6a52bc 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -32,7 +32,7 @@ int OnBoardComputer::ConnectComPort(int port_id, int tx_buffer_size, int rx_buff
     // Port already used
     return -1;
   }
-  uart_ports_[port_id] = new UartPort(tx_buffer_size, rx_buffer_size);
+  uart_ports_[port_id] = new UartPort(rx_buffer_size, tx_buffer_size);
   return 0;
 }
 
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..9e8ff6b 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -86,7 +86,7 @@ int ObcWithC2a::ConnectComPort(int port_id, int tx_buffer_size, int rx_buffer_si
     // Port already used
     return -1;
   }
-  com_ports_c2a_[port_id] = new UartPort(tx_buffer_size, rx_buffer_size);
+  com_ports_c2a_[port_id] = new UartPort(rx_buffer_size, tx_buffer_size);
   return 0;
 }
 
-- 
2.43.0


From 8751906acd89c61862438eacfb86c01342bcee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 120/146] fix: serial command reception at an offset stays
 inside the buffer

---
 src/components/base/uart_communication_with_obc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 55eeda8..e4e9db7 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -140,7 +140,8 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
   if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size == 0) return 0;
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
-- 
2.43.0


From 2db27e63739962774f9426652a2dc79166602ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 121/146] fix: serial telemetry is limited by the telemetry
 buffer, not by the command buffer

---
 src/components/base/uart_communication_with_obc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index e4e9db7..2dc910b 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -162,8 +162,9 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
+  if (tlm_size == 0) return 0;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From 44425851d4d3305dc9b8992d733aa1e19328ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 122/146] fix: I2C access of components addresses the selected
 device and consecutive registers

---
 src/components/real/cdh/on_board_computer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index d6a52bc..46820bc 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -96,7 +96,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
@@ -104,7 +104,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
   return 0;
 }
-- 
2.43.0


From 793235afb6921c51a877cc2362ab31dd30e6b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 123/146] fix: I2C access on a port which is not connected is
 refused

---
 src/components/real/cdh/on_board_computer.cpp          | 3 +++
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 46820bc..1cad0d2 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,6 +95,7 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -103,6 +104,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -110,6 +112,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 9e8ff6b..aa44eda 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,12 +156,14 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,6 +187,7 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -192,6 +196,7 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -199,6 +204,7 @@ int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_ad
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From a6c4113957eb7af9105abae7d555d2ffe85901b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 124/146] fix: sample serial component reports its whole memory

---
 .../examples/example_serial_communication_with_obc.cpp         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/examples/example_serial_communication_with_obc.cpp b/src/components/examples/example_serial_communication_with_obc.cpp
index 3017ea9..236c18d 100644
--- a/src/components/examples/example_serial_communication_with_obc.cpp
+++ b/src/components/examples/example_serial_communication_with_obc.cpp
@@ -44,8 +44,7 @@ int ExampleSerialCommunicationWithObc::GenerateTelemetry() {
   for (int i = 0; i < kMaxMemoryLength; i++) {
     tx_buffer_[i] = (unsigned char)memory_[i];
   }
-  tx_buffer_.assign(std::begin(tx_buffer_), std::end(tx_buffer_));
-  return sizeof(tx_buffer_);
+  return kMaxMemoryLength;
 }
 void ExampleSerialCommunicationWithObc::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From b206121b6cd12de9665e000402d57e0fb6b31181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 125/146] fix: link calculation looks up gains in the antenna
 frames

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..18ef915 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -79,7 +79,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -87,7 +87,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 827c9c5d58827f03f724cdf9c8c6d1c397a7543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 126/146] fix: antenna pattern distinguishes directions with
 negative longitude

---
 .../real/communication/antenna_radiation_pattern.cpp   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index b1a3bce..e9f26bd 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -26,6 +26,16 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   // Argument check
   double theta_rad_clipped = theta_rad;
   double phi_rad_clipped = phi_rad;
+  if (phi_rad_clipped < 0.0) {
+    if (phi_max_rad_ > math::pi + math::tau / 8.0) {
+      // The table covers all longitudes
+      phi_rad_clipped += math::tau;
+    } else {
+      // The table is made of full cuts: the other side of the Z axis is found at theta larger than pi
+      phi_rad_clipped += math::pi;
+      theta_rad_clipped = math::tau - theta_rad_clipped;
+    }
+  }
   if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
   if (theta_rad_clipped > theta_max_rad_) theta_rad_clipped = theta_max_rad_;
   if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
-- 
2.43.0


From 9ac3675587552b2a48135c076ae152e57e4538fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 127/146] fix: ground stations read their own setting file

---
 src/simulation/ground_station/ground_station.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/ground_station/ground_station.cpp b/src/simulation/ground_station/ground_station.cpp
index 2c06c7b..85903a0 100644
--- a/src/simulation/ground_station/ground_station.cpp
+++ b/src/simulation/ground_station/ground_station.cpp
@@ -27,7 +27,9 @@ GroundStation::GroundStation(const simulation::SimulationConfiguration* configur
 GroundStation::~GroundStation() {}
 
 void GroundStation::Initialize(const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
-  std::string gs_ini_path = configuration->ground_station_file_list_[0];
+  const std::vector<std::string>& file_list = configuration->ground_station_file_list_;
+  // Stations without their own file are read from the first one
+  std::string gs_ini_path = (ground_station_id < file_list.size()) ? file_list[ground_station_id] : file_list[0];
   auto conf = setting_file_reader::IniAccess(gs_ini_path);
 
   const char* section_base = "GROUND_STATION_";
-- 
2.43.0


From e616d95c0fcba6ba6829031832152ac54635f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 128/146] fix: relative attitude converts from the reference
 body frame to the target body frame

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..aeb3226 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -121,7 +121,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From 0e00c0e0655d764754bf3c6c0715719633a9db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 129/146] fix: antenna angle on the boresight is not NaN

---
 .../real/communication/ground_station_calculator.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 18ef915..80fb015 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -5,6 +5,7 @@
 
 #include "ground_station_calculator.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -81,7 +82,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  double theta_on_sc_antenna_rad = acos(std::max(-1.0, std::min(1.0, gs_direction_on_sc_frame[2])));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +90,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos(std::max(-1.0, std::min(1.0, sc_direction_on_gs_frame[2])));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From e89e551a422b3288307c4ca8d857ca6a7c84bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 130/146] fix: restore the sample serial component as it was
 (reverts a6c4113)

---
 .../examples/example_serial_communication_with_obc.cpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/examples/example_serial_communication_with_obc.cpp b/src/components/examples/example_serial_communication_with_obc.cpp
index 236c18d..3017ea9 100644
--- a/src/components/examples/example_serial_communication_with_obc.cpp
+++ b/src/components/examples/example_serial_communication_with_obc.cpp
@@ -44,7 +44,8 @@ int ExampleSerialCommunicationWithObc::GenerateTelemetry() {
   for (int i = 0; i < kMaxMemoryLength; i++) {
     tx_buffer_[i] = (unsigned char)memory_[i];
   }
-  return kMaxMemoryLength;
+  tx_buffer_.assign(std::begin(tx_buffer_), std::end(tx_buffer_));
+  return sizeof(tx_buffer_);
 }
 void ExampleSerialCommunicationWithObc::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From ab419705fb7e3b6d5846b9a204fdebec9260fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 131/146] fix: relative information works with any spacecraft
 numbers after removals

---
 .../relative_information.cpp                  | 65 +++++++++++++------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index aeb3226..b00937a 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -12,8 +12,10 @@ RelativeInformation::RelativeInformation() {}
 RelativeInformation::~RelativeInformation() {}
 
 void RelativeInformation::Update() {
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < dynamics_database_.size(); reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
       // Position
       math::Vector<3> target_sat_pos_i = dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
       math::Vector<3> reference_sat_pos_i = dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
@@ -51,29 +53,41 @@ void RelativeInformation::RemoveDynamicsInfo(const size_t spacecraft_id) {
 
 std::string RelativeInformation::GetLogHeader() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m/s", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m/s", 3);
     }
@@ -84,26 +98,38 @@ std::string RelativeInformation::GetLogHeader() const {
 
 std::string RelativeInformation::GetLogValue() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativePosition_i_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativeVelocity_i_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativePosition_rtn_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
+      if (reference_spacecraft_id >= target_spacecraft_id) break;
       str_tmp += logger::WriteVector(GetRelativeVelocity_rtn_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
   }
@@ -157,7 +183,8 @@ math::Vector<3> RelativeInformation::CalcRelativeVelocity_rtn_m_s(const size_t t
 }
 
 void RelativeInformation::ResizeLists() {
-  size_t size = dynamics_database_.size();
+  // The lists are accessed by the spacecraft ID, which may not be consecutive
+  size_t size = dynamics_database_.empty() ? 0 : dynamics_database_.rbegin()->first + 1;
   relative_position_list_i_m_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_velocity_list_i_m_s_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_distance_list_m_.assign(size, std::vector<double>(size, 0.0));
-- 
2.43.0


From 5680fd3938cd6369c7c82691a0196795ff5d7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 132/146] fix: characters read from settings files are
 terminated

---
 src/setting_file_reader/initialize_file_access.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 187b559..44138b8 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -19,11 +19,13 @@ namespace s2e::setting_file_reader {
 #ifdef WIN32
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path) {
   // strcpy_s(file_path_char_, (size_t)_countof(file_path_char_), file_path_.c_str());
-  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength);
+  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength - 1);
+  file_path_char_[kMaxCharLength - 1] = '\0';
 }
 #else
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path), ini_reader_(file_path) {
-  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength);
+  strncpy(file_path_char_, file_path_.c_str(), kMaxCharLength - 1);
+  file_path_char_[kMaxCharLength - 1] = '\0';
 
   std::string ext = ".ini";
   if (file_path_.size() < 4 || !std::equal(std::rbegin(ext), std::rend(ext), std::rbegin(file_path_))) {
@@ -149,7 +151,9 @@ void IniAccess::ReadChar(const char* section_name, const char* key_name, const i
   GetPrivateProfileStringA(section_name, key_name, 0, data, size, file_path_char_);
 #else
   std::string string_data = ReadString(section_name, key_name);
-  strncpy(data, string_data.c_str(), size);
+  if (size <= 0) return;
+  strncpy(data, string_data.c_str(), size - 1);
+  data[size - 1] = '\0';
 #endif
 }
 
-- 
2.43.0


From 149fd4635414b2be0f5335eedff22e3f23ee596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 133/146] fix: C2A command database lines with missing columns
 are not read out of range

---
 src/setting_file_reader/c2a_command_database.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/setting_file_reader/c2a_command_database.cpp b/src/setting_file_reader/c2a_command_database.cpp
index 7811b36..32668a5 100644
--- a/src/setting_file_reader/c2a_command_database.cpp
+++ b/src/setting_file_reader/c2a_command_database.cpp
@@ -25,19 +25,27 @@ C2aCommandInformation::C2aCommandInformation(const std::string cmd_db_line) {
     tokens.push_back(token);
   }
 
-  // Command name
-  command_name_ = tokens[1];
-  if (command_name_.empty()) return;
+  // Lines without the columns of the command are not commands
+  if (tokens.size() < 5) return;
+  if (tokens[1].empty()) return;
 
   // Command ID
   command_id_ = std::stoul(tokens[3], nullptr, 0);
 
   // Arguments
   number_of_arguments_ = std::stoul(tokens[4], nullptr, 0);
+  if (number_of_arguments_ > (tokens.size() - 5 + 1) / 2) {
+    std::cerr << "C2A Command DB error: arguments of " << tokens[1] << " are missing." << std::endl;
+    number_of_arguments_ = 0;
+    return;
+  }
   for (size_t arg_id = 0; arg_id < number_of_arguments_; arg_id++) {
     std::string argment_type_name = tokens[5 + 2 * arg_id];
     argument_type_info_.push_back(ConvertArgumentType(argment_type_name));
   }
+
+  // Command name
+  command_name_ = tokens[1];
 }
 
 C2aArgumentType C2aCommandInformation::GetArgumentType(const size_t argument_id) {
@@ -91,6 +99,7 @@ C2aCommandDatabase::C2aCommandDatabase(const std::string file_path) {
 }
 
 void DecodeC2aCommandArgument(const C2aArgumentType type, const std::string argument_string, uint8_t* param, size_t& size_param) {
+  size_param = 0;
   switch (type) {
     case C2aArgumentType::kUint8t: {
       size_param = 1;
-- 
2.43.0


From 5cd54e8c55c58464053b57cdf59c0d4d66afa393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 134/146] fix: WINGS command sender does not execute incomplete
 or unknown commands

---
 .../wings_command_sender_to_c2a.cpp           | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index ae3989f..161c277 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -7,6 +7,7 @@
 
 #include "wings_command_sender_to_c2a.hpp"
 
+#include <iostream>
 #include <regex>
 #include <setting_file_reader/initialize_file_access.hpp>
 #include <utilities/macros.hpp>
@@ -53,10 +54,12 @@ void WingsCommandSenderToC2a::ExecuteCommandLine(const std::string line) {
     tokens.push_back(token);
   }
 
+  if (tokens.empty()) return;
+
   // Handle WINGS commands
   if (tokens[0].find("wait_sec") == 0) {
     // wait process
-    wait_s_ = std::stod(tokens[1]);
+    wait_s_ = (tokens.size() >= 2) ? std::stod(tokens[1]) : 0.0;
   } else if (tokens[0].find("check_value") == 0) {
     // TODO: Support check_value
     wait_s_ = 0;
@@ -77,7 +80,7 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   size_t first_underscore_position = tokens[0].find('_');
   if (first_underscore_position == std::string::npos) return;
   size_t first_dot_position = tokens[0].find('.');
-  if (first_underscore_position == std::string::npos) return;
+  if (first_dot_position == std::string::npos) return;
 
   std::string target_name = tokens[0].substr(0, first_underscore_position);
   // TODO check target?
@@ -87,7 +90,8 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   // Get command code
   s2e::setting_file_reader::C2aCommandInformation cmd_info = c2a_command_database_.GetCommandInformation(command_name);
   if (cmd_info.GetCommandName() == "Error") {
-    // TODO: error handling
+    std::cerr << "WINGS operation file: command " << command_name << " is not in the command database." << std::endl;
+    return;
   }
   CMD_CODE cmd_id = (CMD_CODE)cmd_info.GetCommandId();
 
@@ -97,23 +101,25 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
     if (tokens[i].find("{") == 0) return;  // let command is not supported now TODO: support let command
     arguments.push_back(tokens[i]);
   }
+  // Read TI
+  uint32_t ti = 0;
+  if ((command_type == "TL" || command_type == "BL") && !arguments.empty()) {
+    ti = (uint32_t)std::stoul(arguments[0]);
+    arguments.erase(arguments.begin());
+  }
   // Check number of arguments
   if (arguments.size() != cmd_info.GetNumberOfArgument()) {
-    // TODO: error handling
+    std::cerr << "WINGS operation file: number of arguments of " << command_name << " is wrong." << std::endl;
+    return;
   }
 
   // Decode arguments
-  // Read TI
-  uint32_t ti = 0;
-  if (command_type == "TL" || command_type == "BL") {
-    ti = (uint32_t)std::stoi(arguments[0]);
-    arguments.erase(arguments.begin());
-  }
   // Read arguments
   uint8_t param[CSP_MAX_LEN];
   uint16_t param_len = 0;
   for (size_t arg_num = 0; arg_num < arguments.size(); arg_num++) {
     size_t len = 0;
+    if (param_len + sizeof(uint64_t) > sizeof(param)) return;
     s2e::setting_file_reader::DecodeC2aCommandArgument(cmd_info.GetArgumentType(arg_num), arguments[arg_num], param + param_len, len);
     param_len += (uint16_t)len;
   }
-- 
2.43.0


From b025038cdbed70a59c26c9ca74de59f46cf539af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 135/146] fix: settings lines longer than the limit are
 rejected instead of split

---
 ExtLibraries/inih/ini.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ExtLibraries/inih/ini.c b/ExtLibraries/inih/ini.c
index f323a17..6546425 100644
--- a/ExtLibraries/inih/ini.c
+++ b/ExtLibraries/inih/ini.c
@@ -132,6 +132,17 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler, void*
 
     lineno++;
 
+    /* If line exceeded the buffer, discard till end of line. */
+    if (strlen(line) == (size_t)max_line - 1 && line[max_line - 2] != '\n') {
+      int next = 0;
+      char abyss[16];
+      while (reader(abyss, sizeof(abyss), stream) != NULL) {
+        next = 1;
+        if (strchr(abyss, '\n')) break;
+      }
+      if (next && !error) error = lineno;
+    }
+
     start = line;
 #if INI_ALLOW_BOM
     if (lineno == 1 && (unsigned char)start[0] == 0xEF && (unsigned char)start[1] == 0xBB && (unsigned char)start[2] == 0xBF) {
-- 
2.43.0


From 8db85a2ab045064b7d2d498c9aa3d5a7a35d9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 136/146] fix: settings values with many lines are read without
 recursion

---
 .../initialize_file_access.cpp                | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/setting_file_reader/initialize_file_access.cpp b/src/setting_file_reader/initialize_file_access.cpp
index 44138b8..e5e9c80 100644
--- a/src/setting_file_reader/initialize_file_access.cpp
+++ b/src/setting_file_reader/initialize_file_access.cpp
@@ -10,12 +10,22 @@
 #include <algorithm>
 #include <cstring>
 #include <limits>
-#include <regex>
 
 #include "../utilities/macros.hpp"
 
 namespace s2e::setting_file_reader {
 
+namespace {
+/**
+ * @brief Replace all words in the text
+ */
+void ReplaceAll(std::string& text, const std::string& word, const std::string& replacement) {
+  for (size_t position = text.find(word); position != std::string::npos; position = text.find(word, position + replacement.length())) {
+    text.replace(position, word.length(), replacement);
+  }
+}
+}  // namespace
+
 #ifdef WIN32
 IniAccess::IniAccess(const std::string file_path) : file_path_(file_path) {
   // strcpy_s(file_path_char_, (size_t)_countof(file_path_char_), file_path_.c_str());
@@ -167,18 +177,20 @@ std::string IniAccess::ReadString(const char* section_name, const char* key_name
   value = ini_reader_.GetString(section_name, key_name, "NULL");
 #endif
   // Special characters
-  // Inline comments
-  std::regex inline_comment_pattern("\\s*//.*");
-  value = std::regex_replace(value, inline_comment_pattern, "");
+  // Inline comments (up to the end of the line)
+  const char* white_space = " \t\n\v\f\r";
+  for (size_t begin = value.find("//"); begin != std::string::npos; begin = value.find("//", begin)) {
+    const size_t end = value.find_first_of("\n\r", begin);
+    const size_t last_character = (begin == 0) ? std::string::npos : value.find_last_not_of(white_space, begin - 1);
+    begin = (last_character == std::string::npos) ? 0 : last_character + 1;
+    value.erase(begin, (end == std::string::npos) ? std::string::npos : end - begin);
+  }
   // INI_FILE_DIR
-  std::string ini_path = SETTINGS_DIR_FROM_EXE;
-  value = std::regex_replace(value, std::regex("SETTINGS_DIR_FROM_EXE"), ini_path);
+  ReplaceAll(value, "SETTINGS_DIR_FROM_EXE", SETTINGS_DIR_FROM_EXE);
   // EXT_LIB_DIR
-  std::string ext_lib_path = EXT_LIB_DIR_FROM_EXE;
-  value = std::regex_replace(value, std::regex("EXT_LIB_DIR_FROM_EXE"), ext_lib_path);
+  ReplaceAll(value, "EXT_LIB_DIR_FROM_EXE", EXT_LIB_DIR_FROM_EXE);
   // CORE_DIR
-  std::string s2e_core_path = CORE_DIR_FROM_EXE;
-  value = std::regex_replace(value, std::regex("CORE_DIR_FROM_EXE"), s2e_core_path);
+  ReplaceAll(value, "CORE_DIR_FROM_EXE", CORE_DIR_FROM_EXE);
 
   return value;
 }
-- 
2.43.0


From a41ff7b6ca025a6c7002ce31f1ab1bba8c44b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 137/146] fix: position columns of different ground stations
 have different names in the log

---
 src/simulation/ground_station/ground_station.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/ground_station/ground_station.cpp b/src/simulation/ground_station/ground_station.cpp
index 85903a0..38ea0af 100644
--- a/src/simulation/ground_station/ground_station.cpp
+++ b/src/simulation/ground_station/ground_station.cpp
@@ -81,7 +81,7 @@ std::string GroundStation::GetLogHeader() const {
     std::string legend = head + "sc" + std::to_string(i) + "_visible_flag";
     str_tmp += logger::WriteScalar(legend);
   }
-  str_tmp += logger::WriteVector("ground_station_position", "eci", "m", 3);
+  str_tmp += logger::WriteVector(head + "position", "eci", "m", 3);
   return str_tmp;
 }
 
-- 
2.43.0


From a87d1316b25a80e5bcf79e1ef22d66893b3b2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 138/146] fix: each geomagnetic field uses its own coefficient
 file

---
 src/environment/local/geomagnetic_field.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 1f35355..822ec82 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -33,6 +33,7 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
   const double alt_m = position.GetAltitude_m();
 
   double magnetic_field_array_i_nT[3];
+  set_file_path(igrf_file_name_.c_str());
   IgrfCalc(decimal_year, lat_rad, lon_rad, alt_m, sidereal_day, magnetic_field_array_i_nT);
   AddNoise(magnetic_field_array_i_nT);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From 99d9406746dbbcd4e0b3708acca949ca7f4408a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 139/146] fix: air density noise has its own random sequence
 instead of reseeding from the global generator every step

---
 src/environment/local/atmosphere.cpp | 6 +++---
 src/environment/local/atmosphere.hpp | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 28c173f..2cb2ee1 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -26,6 +26,7 @@ Atmosphere::Atmosphere(const std::string model, const std::string space_weather_
       manual_average_f107_(manual_f107a),
       manual_ap_(manual_ap),
       gauss_standard_deviation_rate_(gauss_standard_deviation_rate),
+      noise_(0.0, 1.0, randomization::global_randomization.MakeSeed()),
       local_celestial_information_(local_celestial_information) {
   if (model_ == "STANDARD") {
     // Standard
@@ -83,10 +84,9 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
   // RandomWalk rw(rho_kg_m3*rw_stepwidth_,rho_kg_m3*rw_stddev_,rho_kg_m3*rw_limit_);
-  randomization::NormalRand nr(0.0, rho_kg_m3 * gauss_standard_deviation_rate_, randomization::global_randomization.MakeSeed());
-  double nrd = nr;
+  double nrd = noise_;
 
-  return rho_kg_m3 + nrd;
+  return rho_kg_m3 * (1.0 + gauss_standard_deviation_rate_ * nrd);
 }
 
 std::string Atmosphere::GetLogValue() const {
diff --git a/src/environment/local/atmosphere.hpp b/src/environment/local/atmosphere.hpp
index 81dd063..ebd5bc0 100644
--- a/src/environment/local/atmosphere.hpp
+++ b/src/environment/local/atmosphere.hpp
@@ -14,6 +14,7 @@
 #include "logger/loggable.hpp"
 #include "math_physics/atmosphere/wrapper_nrlmsise00.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
 
 namespace s2e::environment {
 
@@ -91,6 +92,7 @@ class Atmosphere : public logger::ILoggable {
 
   // Noise Information
   double gauss_standard_deviation_rate_;  //!< Standard deviation of density noise (defined as percentage)
+  randomization::NormalRand noise_;       //!< Normalized density noise
   // TODO: Add random walk noise
   //  double rw_stepwidth_;
   //  double rw_stddev_;
-- 
2.43.0


From df87446bb0cdfac9005b9700e977b5d734f25a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 140/146] fix: the date from which a space weather table is
 monthly belongs to that table

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 7 ++++---
 src/math_physics/atmosphere/wrapper_nrlmsise00.hpp | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 2ca82b2..c45afc6 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -29,8 +29,6 @@ namespace s2e::atmosphere {
 /* ------------------------------ DEFINES ---------------------------- */
 /* ------------------------------------------------------------------- */
 
-static double decyear_monthly;
-
 int LeapYear(int year) { return ((year % 4 == 0) && (year % 100 != 0)) || (year % 400 == 0); }
 
 void ConvertDaysToMonthDay(int days, int is_leap_year, int* month_day) {
@@ -203,7 +201,7 @@ double CalcNRLMSISE00(double decyear, double latrad, double lonrad, double alt,
 
     // search table index
     for (i = 0; i < table.size(); i++) {
-      if (decyear < decyear_monthly) {
+      if (decyear < table[i].decyear_monthly) {
         // Match year, month, date
         if ((date[0] == table[i].year) && (date[1] == table[i].month) && (date[2] == table[i].day)) {
           idx = i;
@@ -255,6 +253,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
     cerr << "Year must be between 2015 and 2043 for NRLMSISE00 atmosphere model" << endl;
   }
 
+  double decyear_monthly = 0.0;
   string line;
   while (getline(ifs, line)) {
     nrlmsise_table line_data;
@@ -299,6 +298,8 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
     line_data.Ctr81_obs = atof(line.substr(119, 5).c_str());
     line_data.Lst81_obs = atof(line.substr(125, 5).c_str());
 
+    line_data.decyear_monthly = decyear_monthly;
+
     table.push_back(line_data);
   }
 
diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.hpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.hpp
index ea1e6e4..b34a7f4 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.hpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.hpp
@@ -30,6 +30,8 @@ struct nrlmsise_table {
   double F107_obs;   //!< Observed F10.7
   double Ctr81_obs;  //!< Centered 81-day arithmetic average of F10.7 (observed)
   double Lst81_obs;  //!< Last 81-day arithmetic average of F10.7 (observed).
+
+  double decyear_monthly;  //!< Decimal year from which the table this row belongs to has monthly data
 };
 
 /**
-- 
2.43.0


From 46f97589edc86e035dd424482ac309f62bb2865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 141/146] fix: uniformly randomized quaternions follow the
 uniform distribution of orientations

---
 .../initialize_monte_carlo_parameters.cpp                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..f9e28fc 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -261,7 +261,8 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   for (int i = 0; i < 3; i++) {
     first_cnv[i] = op[i];
   }
-  first_cnv[3] = cos_angle_between;
+  first_cnv[3] = 1.0 + cos_angle_between;  // Ratio of the vector part to this is the tangent of the half angle
+  first_cnv.Normalize();
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From 6542a6e97b3bc422a1cc1a4b855be0066ad35553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 142/146] fix: setting the Monte Carlo seed discards the stored
 normal random value

---
 .../initialize_monte_carlo_parameters.cpp                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index f9e28fc..adf76da 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -36,6 +36,8 @@ void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_determ
   } else {
     InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
   }
+  // Discard the second normal random value made from the previous seed
+  if (InitializedMonteCarloParameters::normal_distribution_ != nullptr) InitializedMonteCarloParameters::normal_distribution_->reset();
 }
 
 void InitializedMonteCarloParameters::GetRandomizedScalar(double& destination) const {
-- 
2.43.0


From 9b29eb05c3eb9760c7cce002371e49582904ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 143/146] fix: a Monte Carlo seed set before the first
 parameter is defined is kept

---
 .../initialize_monte_carlo_parameters.cpp                     | 4 +++-
 .../initialize_monte_carlo_parameters.hpp                     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index adf76da..5ee3072 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -15,12 +15,13 @@ random_device InitializedMonteCarloParameters::randomizer_;
 mt19937 InitializedMonteCarloParameters::mt_;
 uniform_real_distribution<>* InitializedMonteCarloParameters::uniform_distribution_;
 normal_distribution<>* InitializedMonteCarloParameters::normal_distribution_;
+bool InitializedMonteCarloParameters::is_seed_set_ = false;
 
 InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
   // Generate object when the first execution
   static bool initial_setup_done = false;
   if (!initial_setup_done) {
-    SetSeed();
+    if (!is_seed_set_) SetSeed();
     InitializedMonteCarloParameters::uniform_distribution_ = new uniform_real_distribution<>(0.0, 1.0);
     InitializedMonteCarloParameters::normal_distribution_ = new normal_distribution<>(0.0, 1.0);
     initial_setup_done = true;
@@ -31,6 +32,7 @@ InitializedMonteCarloParameters::InitializedMonteCarloParameters() {
 }
 
 void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_deterministic) {
+  is_seed_set_ = true;
   if (is_deterministic) {
     InitializedMonteCarloParameters::mt_.seed(seed);
   } else {
diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
index e4bc346..136c1c2 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
@@ -94,6 +94,7 @@ class InitializedMonteCarloParameters {
   static std::mt19937 mt_;                                         //!< Deterministic random number generator
   static std::uniform_real_distribution<>* uniform_distribution_;  //!< Uniform random number generator
   static std::normal_distribution<>* normal_distribution_;         //!< Normal random number generator
+  static bool is_seed_set_;                                        //!< The seed is already set
 
   /**
    * @fn Generate1dUniform
-- 
2.43.0


From fe0dcab705073e4602f82aeec9fa188b94c964ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:17 +0000
Subject: [PATCH 144/146] fix: conversion to Euler angles at a pitch of 90
 degrees keeps the rotation

---
 src/math_physics/math/quaternion.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/math/quaternion.cpp b/src/math_physics/math/quaternion.cpp
index 39ebb5b..9b4a6b2 100644
--- a/src/math_physics/math/quaternion.cpp
+++ b/src/math_physics/math/quaternion.cpp
@@ -190,9 +190,16 @@ Quaternion Quaternion::ConvertFromDcm(const Matrix<3, 3> dcm) {
 Vector<3> Quaternion::ConvertToEuler(void) const {
   auto dcm = this->ConvertToDcm();
   Vector<3> euler;
-  euler[0] = atan2(dcm[1][2], dcm[2][2]);
-  euler[1] = atan2(-dcm[0][2], sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]));
-  euler[2] = atan2(dcm[0][1], dcm[0][0]);
+  double cos_pitch = sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]);
+  euler[1] = atan2(-dcm[0][2], cos_pitch);
+  if (cos_pitch > 1.0e-8) {
+    euler[0] = atan2(dcm[1][2], dcm[2][2]);
+    euler[2] = atan2(dcm[0][1], dcm[0][0]);
+  } else {
+    // Gimbal lock: only the sum or the difference of the first and third angles is determined
+    euler[0] = 0.0;
+    euler[2] = atan2(-dcm[1][0], dcm[1][1]);
+  }
   return euler;
 }
 
-- 
2.43.0


From f11e012847a322981b995bc74deb260a4ed6b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:52 +0000
Subject: [PATCH 145/146] fix: pacing to a simulation speed waits for the
 wall-clock time

---
 src/environment/global/simulation_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index e87af5c..33e919f 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -95,8 +95,8 @@ void SimulationTime::UpdateTime(void) {
   elapsed_time_sec_ += step_sec_;
   if (simulation_speed_ > 0) {
     chrono::system_clock clk;
-    int toWaitTime = (int)(elapsed_time_sec_ * 1000 -
-                           chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count() * simulation_speed_);
+    int toWaitTime = (int)(elapsed_time_sec_ * 1000 / simulation_speed_ -
+                           chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count());
     if (toWaitTime <= 0) {
       // When the execution time is larger than specified step_sec
 
-- 
2.43.0


From 845e69f56f269850249401d14de5bf0f56a01b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:52 +0000
Subject: [PATCH 146/146] fix: falling behind is measured from the start of the
 run before the first step in time

---
 src/environment/global/simulation_time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 33e919f..8bd6c3f 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -179,7 +179,10 @@ void SimulationTime::UpdateTime(void) {
   state_.running = true;
 }
 
-void SimulationTime::ResetClock(void) { clock_start_time_millisec_ = chrono::system_clock::now(); }
+void SimulationTime::ResetClock(void) {
+  clock_start_time_millisec_ = chrono::system_clock::now();
+  clock_last_time_completed_step_in_time_ = clock_start_time_millisec_;
+}
 
 void SimulationTime::PrintStartDateTime(void) const {
   int sec_int = int(start_sec_ + 0.5);
-- 
2.43.0

