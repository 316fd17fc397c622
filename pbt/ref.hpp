// Independent reference algebra used by the oracles (no s2e code).
#pragma once
#include <array>
#include <cmath>
#include <vector>
namespace ref {
using V3 = std::array<double, 3>;
using Q4 = std::array<double, 4>;  // x, y, z, w
using M3 = std::array<std::array<double, 3>, 3>;
inline V3 operator+(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator-(const V3& a) { return {-a[0], -a[1], -a[2]}; }
inline V3 operator*(double s, const V3& a) { return {s * a[0], s * a[1], s * a[2]}; }
inline V3 operator/(const V3& a, double s) { return {a[0] / s, a[1] / s, a[2] / s}; }
inline double Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 Cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double Norm(const V3& a) { return std::sqrt(Dot(a, a)); }
inline V3 Unit(const V3& a) { return a / Norm(a); }
inline double Angle(const V3& a, const V3& b) { return std::atan2(Norm(Cross(a, b)), Dot(a, b)); }
inline V3 operator*(const M3& m, const V3& v) { return {Dot(m[0], v), Dot(m[1], v), Dot(m[2], v)}; }
inline M3 operator*(const M3& a, const M3& b) {
  M3 r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j];
  return r;
}
inline M3 T(const M3& a) {
  M3 r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = a[j][i];
  return r;
}
inline double Det(const M3& m) { return Dot(m[0], Cross(m[1], m[2])); }
inline M3 Inv(const M3& m) {
  const V3 a = Cross(m[1], m[2]), b = Cross(m[2], m[0]), c = Cross(m[0], m[1]);
  const double d = Dot(m[0], a);
  M3 r{};
  for (int i = 0; i < 3; i++) r[i] = {a[i] / d, b[i] / d, c[i] / d};
  return r;
}
// frame rotations (passive): coordinates in the frame rotated by t about the axis
inline M3 Rx(double t) { return {{{1, 0, 0}, {0, std::cos(t), std::sin(t)}, {0, -std::sin(t), std::cos(t)}}}; }
inline M3 Ry(double t) { return {{{std::cos(t), 0, -std::sin(t)}, {0, 1, 0}, {std::sin(t), 0, std::cos(t)}}}; }
inline M3 Rz(double t) { return {{{std::cos(t), std::sin(t), 0}, {-std::sin(t), std::cos(t), 0}, {0, 0, 1}}}; }
// active rotation of v by unit quaternion q:  v + 2 w (u x v) + 2 u x (u x v)
inline V3 Rotate(const Q4& q, const V3& v) {
  const V3 u{q[0], q[1], q[2]};
  const V3 t = 2.0 * Cross(u, v);
  return v + q[3] * t + Cross(u, t);
}
inline Q4 Conj(const Q4& q) { return {-q[0], -q[1], -q[2], q[3]}; }
// coordinates of v in the frame whose attitude is q
inline V3 ToFrame(const Q4& q, const V3& v) { return Rotate(Conj(q), v); }
inline Q4 Mul(const Q4& a, const Q4& b) {
  const V3 u{a[0], a[1], a[2]}, v{b[0], b[1], b[2]};
  const V3 w = a[3] * v + b[3] * u + Cross(u, v);
  return {w[0], w[1], w[2], a[3] * b[3] - Dot(u, v)};
}
inline Q4 AxisAngle(const V3& axis, double ang) {
  const double s = std::sin(ang / 2);
  return {axis[0] * s, axis[1] * s, axis[2] * s, std::cos(ang / 2)};
}
inline Q4 Normalized(const Q4& q) {
  const double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  return {q[0] / n, q[1] / n, q[2] / n, q[3] / n};
}
// rotation angle between two attitudes
inline double AttitudeAngle(const Q4& a, const Q4& b) {
  const Q4 d = Mul(Conj(a), b);
  return 2 * std::atan2(std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), std::fabs(d[3]));
}
inline M3 Dcm(const Q4& q) {  // inertial -> frame
  M3 m{};
  for (int j = 0; j < 3; j++) {
    V3 e{};
    e[j] = 1;
    const V3 c = ToFrame(q, e);
    for (int i = 0; i < 3; i++) m[i][j] = c[i];
  }
  return m;
}
// fixed-step RK4 on a vector state with callable f(t, x) -> dx
template <class F>
std::vector<double> Rk4(std::vector<double> x, double t, double dt, long n, F f) {
  const size_t m = x.size();
  std::vector<double> y(m);
  for (long s = 0; s < n; s++) {
    auto k1 = f(t, x);
    for (size_t i = 0; i < m; i++) y[i] = x[i] + dt / 2 * k1[i];
    auto k2 = f(t + dt / 2, y);
    for (size_t i = 0; i < m; i++) y[i] = x[i] + dt / 2 * k2[i];
    auto k3 = f(t + dt / 2, y);
    for (size_t i = 0; i < m; i++) y[i] = x[i] + dt * k3[i];
    auto k4 = f(t + dt, y);
    for (size_t i = 0; i < m; i++) x[i] += dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
    t += dt;
  }
  return x;
}
}  // namespace ref
