// SGP4 written from the published theory (Spacetrack Report 3 with the 2006 revision), independent of the code under test.
#pragma once
#include <cmath>
#include <optional>
#include "ref.hpp"
#include "sdp4_ref.hpp"
namespace sgp4_ref {
struct Gravity {
  double re, mu, xke, j2, j3, j4;
};
inline Gravity Constants(int setting) {
  Gravity g{6378.135, 398600.8, 0, 0.001082616, -0.00000253881, -0.00000165597};
  if (setting == 2) g = {6378.137, 398600.5, 0, 0.00108262998905, -0.00000253215306, -0.00000161098761};
  g.xke = setting == 0 ? 0.0743669161 : 60 / std::sqrt(g.re * g.re * g.re / g.mu);
  return g;
}
struct Mean {  // radians, revolutions per day, per Earth radius
  double incl, node, ecc, argp, anomaly, revs, bstar, jd;
};
struct Result {
  ref::V3 r, v;  // m, m/s
  bool deep, decayed;
  double perigee_km, period_min;
};
inline double Cube(double x) { return x * x * x; }
// osculating position and velocity of mean elements: long-period, Kepler, short-period
inline Result Position(Result out, const Gravity& g, double am, double nm, double e, double inc, double node, double w, double M) {
  const double k2 = g.j2 / 2, c = std::cos(inc), s = std::sin(inc), th2 = c * c, x3thm1 = 3 * th2 - 1, x1mth2 = 1 - th2, a30 = -g.j3;
  // long period terms
  const double lp = 1 / (am * (1 - e * e)), axn = e * std::cos(w), den = std::fabs(1 + c) > 1.5e-12 ? 1 + c : 1.5e-12;
  const double ayn = e * std::sin(w) + lp * a30 / (4 * k2) * s;
  const double U = std::remainder(M + w + lp * a30 / (8 * k2) * s * (3 + 5 * c) / den * axn, 2 * M_PI);
  // Kepler's equation in (axn, ayn) by bisection of a monotonic function
  double lo = U - 1.5, hi = U + 1.5;
  for (int k = 0; k < 60; k++) {
    const double x = (lo + hi) / 2;
    (x - axn * std::sin(x) + ayn * std::cos(x) < U ? lo : hi) = x;
  }
  const double F = (lo + hi) / 2, ce = axn * std::cos(F) + ayn * std::sin(F), se = axn * std::sin(F) - ayn * std::cos(F), el2 = axn * axn + ayn * ayn;
  const double pl = am * (1 - el2), rl = am * (1 - ce), bl = std::sqrt(1 - el2);
  const double su = am / rl * (std::sin(F) - ayn - axn * se / (1 + bl)), cu = am / rl * (std::cos(F) - axn + ayn * se / (1 + bl)), u = std::atan2(su, cu);
  const double s2 = 2 * su * cu, c2 = 1 - 2 * su * su;
  const double kp = k2 / pl, kp2 = kp / pl;
  // short period terms
  const double r = rl * (1 - 1.5 * kp2 * bl * x3thm1) + 0.5 * kp * x1mth2 * c2, uk = u - 0.25 * kp2 * (7 * th2 - 1) * s2;
  const double nk = node + 1.5 * kp2 * c * s2, ik = inc + 1.5 * kp2 * c * s * c2;
  const double rd = std::sqrt(am) * se / rl - nm * kp * x1mth2 * s2 / g.xke, rf = std::sqrt(pl) / rl + nm * kp * (x1mth2 * c2 + 1.5 * x3thm1) / g.xke;
  using ref::V3;
  const V3 P{-std::sin(nk) * std::cos(ik), std::cos(nk) * std::cos(ik), std::sin(ik)}, Q{std::cos(nk), std::sin(nk), 0};
  for (int i = 0; i < 3; i++) {
    const double ui = P[i] * std::sin(uk) + Q[i] * std::cos(uk), vi = P[i] * std::cos(uk) - Q[i] * std::sin(uk);
    out.r[i] = r * ui * g.re * 1e3, out.v[i] = (rd * ui + rf * vi) * g.re * g.xke / 60 * 1e3;
  }
  out.decayed = out.decayed || r < 1 || pl < 0;
  return out;
}
inline Result Propagate(const Mean& m, const Gravity& g, double t) {
  const double k2 = g.j2 / 2, c = std::cos(m.incl), s = std::sin(m.incl), th2 = c * c, b2 = 1 - m.ecc * m.ecc, b = std::sqrt(b2);
  const double x3thm1 = 3 * th2 - 1;
  // recover the original mean motion and semi-major axis
  const double n_kozai = m.revs * 2 * M_PI / 1440;
  const double a1 = std::pow(g.xke / n_kozai, 2. / 3), d1 = 1.5 * k2 * x3thm1 / (a1 * a1 * b * b2);
  const double a0 = a1 * (1 - d1 * (1. / 3 + d1 * (1 + 134. / 81 * d1))), d0 = 1.5 * k2 * x3thm1 / (a0 * a0 * b * b2);
  const double n0 = n_kozai / (1 + d0), a = std::pow(g.xke / n0, 2. / 3);
  Result out{};
  out.period_min = 2 * M_PI / n0;
  out.deep = out.period_min >= 225;
  out.perigee_km = (a * (1 - m.ecc) - 1) * g.re;
  // atmosphere parameters
  double star = 78, q0 = 120 - 78;
  if (out.perigee_km < 156) star = out.perigee_km < 98 ? 20 : out.perigee_km - 78, q0 = 120 - star;
  const double q4 = std::pow(q0 / g.re, 4), sp = star / g.re + 1, xi = 1 / (a - sp), eta = a * m.ecc * xi, eta2 = eta * eta, ee = m.ecc * eta;
  const double psi2 = std::fabs(1 - eta2), coef = q4 * std::pow(xi, 4), coef1 = coef / std::pow(psi2, 3.5);
  const double C2 = coef1 * n0 * (a * (1 + 1.5 * eta2 + ee * (4 + eta2)) + 0.75 * k2 * xi / psi2 * x3thm1 * (8 + 3 * eta2 * (8 + eta2)));
  const double C1 = m.bstar * C2, a30 = -g.j3, x1mth2 = 1 - th2;
  const double C3 = m.ecc > 1e-4 ? coef * xi * a30 / k2 * n0 * s / m.ecc : 0;
  const double C4 = 2 * n0 * coef1 * a * b2 *
                    (eta * (2 + eta2 / 2) + m.ecc * (0.5 + 2 * eta2) -
                     2 * k2 * xi / (a * psi2) * (-3 * x3thm1 * (1 - 2 * ee + eta2 * (1.5 - 0.5 * ee)) + 0.75 * x1mth2 * (2 * eta2 - ee * (1 + eta2)) * std::cos(2 * m.argp)));
  const double C5 = 2 * coef1 * a * b2 * (1 + 2.75 * (eta2 + ee) + ee * eta2);
  // secular rates
  const double p2 = 1 / (a * a * b2 * b2), r1 = 3 * k2 * p2 * n0, r2 = r1 * k2 * p2, r3 = 1.25 * (-0.375 * g.j4) * p2 * p2 * n0;
  const double mdot = n0 + 0.5 * r1 * b * x3thm1 + 0.0625 * r2 * b * (13 - 78 * th2 + 137 * th2 * th2);
  const double wdot = -0.5 * r1 * (1 - 5 * th2) + 0.0625 * r2 * (7 - 114 * th2 + 395 * th2 * th2) + r3 * (3 - 36 * th2 + 49 * th2 * th2);
  const double hdot = -r1 * c, odot = hdot + (0.5 * r2 * (4 - 19 * th2) + 2 * r3 * (3 - 7 * th2)) * c;
  const bool simple = out.perigee_km < 220 || out.deep;
  double M = m.anomaly + mdot * t, w = m.argp + wdot * t, node = m.node + odot * t + 3.5 * b2 * hdot * C1 * t * t;
  double A = 1 - C1 * t, E = m.bstar * C4 * t, L = 1.5 * C1 * t * t;
  if (!simple) {
    const double D2 = 4 * a * xi * C1 * C1, D3 = D2 * xi * C1 / 3 * (17 * a + sp), D4 = 0.5 * (D2 * xi * C1 / 3) * a * xi * (221 * a + 31 * sp) * C1;
    const double dw = m.bstar * C3 * std::cos(m.argp) * t;
    const double dm = m.ecc > 1e-4 ? -2. / 3 * coef * m.bstar / ee * (Cube(1 + eta * std::cos(M)) - Cube(1 + eta * std::cos(m.anomaly))) : 0;
    M += dw + dm, w -= dw + dm;
    A -= D2 * t * t + D3 * t * t * t + D4 * t * t * t * t;
    E += m.bstar * C5 * (std::sin(M) - std::sin(m.anomaly));
    L += (D2 + 2 * C1 * C1) * t * t * t + 0.25 * (3 * D3 + C1 * (12 * D2 + 10 * C1 * C1)) * std::pow(t, 4) +
         0.2 * (3 * D4 + 12 * C1 * D3 + 6 * D2 * D2 + 15 * C1 * C1 * (2 * D2 + C1 * C1)) * std::pow(t, 5);
  }
  double e = m.ecc, inc = m.incl, n = n0;
  std::optional<Deep> deep;
  if (out.deep) deep.emplace(m.jd, m.incl, m.node, m.ecc, m.argp, m.anomaly, n0, g.xke, mdot, wdot, odot), deep->Secular(t, e, inc, node, w, M, n);
  const double am = std::pow(g.xke / n, 2. / 3) * A * A, nm = g.xke / std::pow(am, 1.5);
  e -= E;
  out.decayed = e >= 1 || e < -0.001 || am < 0.95;
  if (e < 0) e = 1e-6;
  M += n0 * L;
  if (deep) {
    const double longitude = std::fmod(M + w + node, 2 * M_PI);
    node = std::fmod(node, 2 * M_PI), w = std::fmod(w, 2 * M_PI), M = std::fmod(longitude - w - node, 2 * M_PI);
    deep->Periodics(t, e, inc, node, w, M);
    out.decayed = out.decayed || e < 0 || e > 1;
  }
  return Position(out, g, am, nm, e, inc, node, w, M);
}
}  // namespace sgp4_ref
