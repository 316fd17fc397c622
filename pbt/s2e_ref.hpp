// Conversions between s2e types and the reference types.
#pragma once
#include <math_physics/math/matrix.hpp>
#include <math_physics/math/quaternion.hpp>
#include <math_physics/math/vector.hpp>
#include "pbt.hpp"
#include "ref.hpp"
namespace s2e_ref {
using ref::M3;
using ref::Q4;
using ref::V3;
using ref::operator+;
using ref::operator-;
using ref::operator*;
using ref::operator/;
inline s2e::math::Vector<3> S(const V3& v) {
  s2e::math::Vector<3> r;
  for (int i = 0; i < 3; i++) r[i] = v[i];
  return r;
}
inline V3 R(const s2e::math::Vector<3>& v) { return {v[0], v[1], v[2]}; }
inline s2e::math::Quaternion S(const Q4& q) { return s2e::math::Quaternion(q[0], q[1], q[2], q[3]); }
inline Q4 R(const s2e::math::Quaternion& q) { return {q[0], q[1], q[2], q[3]}; }
inline M3 R(const s2e::math::Matrix<3, 3>& m) {
  M3 r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = m[i][j];
  return r;
}
inline s2e::math::Matrix<3, 3> S(const M3& m) {
  s2e::math::Matrix<3, 3> r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = m[i][j];
  return r;
}
inline std::string Str(const V3& v) {
  std::ostringstream s;
  s.precision(17);
  s << "(" << v[0] << ", " << v[1] << ", " << v[2] << ")";
  return s.str();
}
inline std::string Str(const Q4& v) {
  std::ostringstream s;
  s.precision(17);
  s << "(" << v[0] << ", " << v[1] << ", " << v[2] << ", " << v[3] << ")";
  return s.str();
}
// |got - want| <= abs + rel |want|
inline void Near3(pbt::Case& c, const V3& got, const V3& want, double abs_tol, double rel_tol, const std::string& key, const std::string& what = "") {
  c.checks++;
  const double e = ref::Norm(ref::operator-(got, want)), t = abs_tol + rel_tol * ref::Norm(want);
  if (!(e <= t)) c.Fail(key, what, " got ", Str(got), " want ", Str(want), " error ", e, " tolerance ", t);
}
inline void NearAttitude(pbt::Case& c, const Q4& got, const Q4& want, double tol_rad, const std::string& key, const std::string& what = "") {
  c.checks++;
  const double n = got[0] * got[0] + got[1] * got[1] + got[2] * got[2] + got[3] * got[3];
  if (!(std::fabs(n - 1) < 1e-6)) c.Fail(key, what, " quaternion not of unit length: ", Str(got));
  const double e = ref::AttitudeAngle(got, want);
  if (!(e <= tol_rad)) c.Fail(key, what, " got ", Str(got), " want ", Str(want), " angle ", e, " tolerance ", tol_rad);
}
inline void ProperRotation(pbt::Case& c, const M3& m, double tol, const std::string& key, const std::string& what = "") {
  c.checks++;
  const M3 p = ref::operator*(m, ref::T(m));
  double e = std::fabs(ref::Det(m) - 1);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) e = std::max(e, std::isfinite(p[i][j]) ? std::fabs(p[i][j] - (i == j)) : 1e300);
  if (!(e <= tol)) c.Fail(key, what, " not a proper rotation, defect ", e);
}
}  // namespace s2e_ref
