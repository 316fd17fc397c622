// Two-body motion from elements, independent of s2e.
#pragma once
#include <sstream>
#include "pbt.hpp"
#include "ref.hpp"
namespace orbit_ref {
using ref::M3;
using ref::V3;
using ref::operator+;
using ref::operator-;
using ref::operator*;
using ref::operator/;
struct Elements {
  double mu, a, e, i, raan, argp;
};
struct State {
  V3 r, v;
  double t;
};
inline std::string Str(const Elements& x) {
  std::ostringstream s;
  s.precision(17);
  s << "mu " << x.mu << " a " << x.a << " e " << x.e << " i " << x.i << " raan " << x.raan << " argp " << x.argp;
  return s.str();
}
// eccentric anomaly by bisection and polishing
inline double Eccentric(double e, double m) {
  const double turns = std::floor((m + M_PI) / (2 * M_PI));
  m -= turns * 2 * M_PI;
  double lo = m - 1, hi = m + 1;
  for (int k = 0; k < 60; k++) {
    const double x = (lo + hi) / 2;
    (x - e * std::sin(x) < m ? lo : hi) = x;
  }
  double x = (lo + hi) / 2;
  for (int k = 0; k < 2; k++) x -= (x - e * std::sin(x) - m) / (1 - e * std::cos(x));
  return x + turns * 2 * M_PI;
}
// state t seconds after perigee passage
inline State At(const Elements& x, double t) {
  const double n = std::sqrt(x.mu / x.a) / x.a, E = Eccentric(x.e, n * t), q = std::sqrt(1 - x.e * x.e), rr = 1 - x.e * std::cos(E);
  const V3 p{x.a * (std::cos(E) - x.e), x.a * q * std::sin(E), 0};
  const V3 v{-x.a * n * std::sin(E) / rr, x.a * n * q * std::cos(E) / rr, 0};
  const M3 m = ref::T(ref::Rz(x.argp) * (ref::Rx(x.i) * ref::Rz(x.raan)));
  return {m * p, m * v, t};
}
// bound orbits with perigee above 6.6e6 m in every orientation
inline Elements AnyOrbit(pbt::Case& c, double max_e = 0.9) {
  Elements x;
  x.mu = c.Bool() ? 3.986004415e14 : c.LogReal(1e12, 1e16);
  x.e = c.Of<double>({0, 1e-9, 1e-3, -1, -1, -1, -1});
  if (x.e < 0) x.e = c.Bool() ? c.Real(0, max_e) : c.LogReal(1e-6, max_e);
  x.a = c.LogReal(6.7e6, 1e8) / (1 - x.e);
  const double pi = M_PI;
  x.i = c.Chance(0.3) ? c.Of<double>({0, pi, pi / 2, 1e-6, pi - 1e-6}) : std::acos(2 * c.Unit() - 1);
  x.raan = c.Chance(0.2) ? c.Of<double>({0, pi / 2, pi, 3 * pi / 2}) : c.Real(0, 2 * pi);
  x.argp = c.Chance(0.2) ? c.Of<double>({0, pi / 2, pi, 3 * pi / 2}) : c.Real(0, 2 * pi);
  return x;
}
}  // namespace orbit_ref
