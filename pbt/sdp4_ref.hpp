// Deep-space part of SGP4 (Hujsak's lunar-solar and resonance theory in the form of the 2006 revision), written from the published equations.
#pragma once
#include <cmath>
#include <cstdlib>
namespace sgp4_ref {
// what one perturbing body (Sun or Moon) contributes: secular rates and the coefficients of its long-period terms
struct Body {
  double rate, ecc, phase;                                   // mean motion [rad/min], eccentricity of its orbit, mean anomaly at the epoch
  double e2, e3, i2, i3, l2, l3, l4, gh2, gh3, gh4, h2, h3;  // periodic
  double de, di, dl, dgh, dh;                                // secular (dgh and dh before the division by the sine of the inclination)
  void Set(double strength, double cg, double sg, double ci, double si, double ch, double sh, double inc, double ecc0, double argp, double n) {
    const double c = std::cos(inc), s = std::sin(inc), e2_ = ecc0 * ecc0, beta2 = 1 - e2_, beta = std::sqrt(beta2);
    // direction cosines of the body in the orbit's frame: rows p, q of its orbit
    const double u[3] = {cg * ch + sg * ci * sh, -cg * sh + sg * ci * ch, sg * si};
    const double w[3] = {-sg * ch + cg * ci * sh, sg * sh + cg * ci * ch, cg * si};
    const double a1 = u[0], a2 = c * u[1] + s * u[2], a5 = -s * u[1] + c * u[2], a3 = w[0], a4 = c * w[1] + s * w[2], a6 = -s * w[1] + c * w[2];
    const double cw = std::cos(argp), sw = std::sin(argp);
    const double x1 = a1 * cw + a2 * sw, x2 = a3 * cw + a4 * sw, x3 = a2 * cw - a1 * sw, x4 = a4 * cw - a3 * sw, x5 = a5 * sw, x6 = a6 * sw, x7 = a5 * cw, x8 = a6 * cw;
    const double z31 = 12 * x1 * x1 - 3 * x3 * x3, z32 = 24 * x1 * x2 - 6 * x3 * x4, z33 = 12 * x2 * x2 - 3 * x4 * x4;
    // z += z + beta^2 z3x
    const double z1 = 2 * (3 * (a1 * a1 + a2 * a2) + z31 * e2_) + beta2 * z31, z2 = 2 * (6 * (a1 * a3 + a2 * a4) + z32 * e2_) + beta2 * z32,
                 z3 = 2 * (3 * (a3 * a3 + a4 * a4) + z33 * e2_) + beta2 * z33;
    const double z11 = -6 * a1 * a5 - e2_ * (24 * x1 * x7 + 6 * x3 * x5), z13 = -6 * a3 * a6 - e2_ * (24 * x2 * x8 + 6 * x4 * x6);
    const double z12 = -6 * (a1 * a6 + a3 * a5) - e2_ * (24 * (x2 * x7 + x1 * x8) + 6 * (x3 * x6 + x4 * x5));
    const double z21 = 6 * a2 * a5 + e2_ * (24 * x1 * x5 - 6 * x3 * x7), z23 = 6 * a4 * a6 + e2_ * (24 * x2 * x6 - 6 * x4 * x8);
    const double z22 = 6 * (a4 * a5 + a2 * a6) + e2_ * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8));
    const double s3 = strength / n, s2 = -0.5 * s3 / beta, s4 = s3 * beta, s1 = -15 * ecc0 * s4;
    const double s5 = x1 * x3 + x2 * x4, s6 = x2 * x3 + x1 * x4, s7 = x2 * x4 - x1 * x3;
    e2 = 2 * s1 * s6, e3 = 2 * s1 * s7;
    i2 = 2 * s2 * z12, i3 = 2 * s2 * (z13 - z11);
    l2 = -2 * s3 * z2, l3 = -2 * s3 * (z3 - z1), l4 = 2 * s3 * (21 + 9 * e2_) * ecc;
    gh2 = 2 * s4 * z32, gh3 = 2 * s4 * (z33 - z31), gh4 = -18 * s4 * ecc;
    h2 = -2 * s2 * z22, h3 = -2 * s2 * (z23 - z21);
    de = s1 * rate * s5, di = s2 * rate * (z11 + z13), dl = -rate * s3 * (z1 + z3 - 14 - 6 * e2_), dgh = s4 * rate * (z31 + z33 - 6), dh = -rate * s2 * (z21 + z23);
    if (inc < 0.052359877 || inc > M_PI - 0.052359877) dh = 0;
  }
  void Periodic(double t, double p[5]) const {
    const double m = phase + rate * t, f = m + 2 * ecc * std::sin(m), sf = std::sin(f), f2 = 0.5 * sf * sf - 0.25, f3 = -0.5 * sf * std::cos(f);
    p[0] += e2 * f2 + e3 * f3, p[1] += i2 * f2 + i3 * f3, p[2] += l2 * f2 + l3 * f3 + l4 * sf, p[3] += gh2 * f2 + gh3 * f3 + gh4 * sf, p[4] += h2 * f2 + h3 * f3;
  }
};
struct Deep {
  Body sun{1.19459e-5, 0.01675}, moon{1.5835218e-4, 0.05490};
  double de, di, dm, dw, dn, theta0;
  int resonance = 0;
  double sync[3], half[10], lambda0, drift, n0, argp, wdot;
  static constexpr double kTurn = 4.37526908801129966e-3;
  Deep(double jd, double inc, double node, double ecc, double w, double m, double n, double xke, double mdot, double wdot_, double odot) {
    const double day = jd - 2415020.0;  // since 1900 January 0.5
    // the Moon's orbit in the equatorial frame
    const double nm = 4.5236020 - 9.2422029e-4 * day, ci = 0.91375164 - 0.03568096 * std::cos(nm), si = std::sqrt(1 - ci * ci), sh = 0.089683511 * std::sin(nm) / si,
                 ch = std::sqrt(1 - sh * sh), gamma = 5.8351514 + 0.0019443680 * day;
    const double zx = std::atan2(0.39785416 * std::sin(nm) / si, ch * std::cos(nm) + 0.91744867 * sh * std::sin(nm)), g = gamma + zx - std::fmod(nm, 2 * M_PI);
    const double sn = std::sin(node), cn = std::cos(node);
    sun.phase = 6.2565837 + 0.017201977 * day, moon.phase = 4.7199672 + 0.22997150 * day - gamma;
    sun.Set(2.9864797e-6, 0.1945905, -0.98088458, 0.91744867, 0.39785416, cn, sn, inc, ecc, w, n);
    moon.Set(4.7968065e-7, std::cos(g), std::sin(g), ci, si, ch * cn + sh * sn, sn * ch - cn * sh, inc, ecc, w, n);
    const double s = std::sin(inc), c = std::cos(inc), hs = s != 0 ? (sun.dh + moon.dh) / s : 0;
    de = sun.de + moon.de, di = sun.di + moon.di, dm = sun.dl + moon.dl, dw = sun.dgh + moon.dgh - c * hs, dn = hs;
    // sidereal time of the epoch, referred to 1970
    const double ts = jd - 2433281.5 - 7305, whole = std::floor(ts + 1e-8), frac = ts - whole, c1 = 1.72027916940703639e-2;
    theta0 = 1.7321343856509374 + c1 * whole + (c1 + 2 * M_PI) * frac + ts * ts * 5.07551419432269442e-15;
    n0 = n, argp = w, wdot = wdot_;
    const double e2 = ecc * ecc, e3 = ecc * e2, ainv = std::pow(n / xke, 2. / 3), ainv2 = ainv * ainv, s2 = s * s, c2 = c * c;
    if (n > 0.0034906585 && n < 0.0052359877) {
      resonance = 1;
      const double g200 = 1 + e2 * (-2.5 + 0.8125 * e2), g310 = 1 + 2 * e2, g300 = 1 + e2 * (-6 + 6.60937 * e2);
      const double f220 = 0.75 * (1 + c) * (1 + c), f311 = 0.9375 * s2 * (1 + 3 * c) - 0.75 * (1 + c), f330 = 1.875 * (1 + c) * (1 + c) * (1 + c), k = 3 * n * n * ainv2;
      sync[0] = k * f311 * g310 * 2.1460748e-6 * ainv, sync[1] = 2 * k * f220 * g200 * 1.7891679e-6, sync[2] = 3 * k * f330 * g300 * 2.2123015e-7 * ainv;
      lambda0 = m + node + w - theta0, drift = mdot + wdot_ + odot - kTurn + dm + dw + dn - n;
    } else if (n >= 8.26e-3 && n <= 9.24e-3 && ecc >= 0.5) {
      resonance = 2;
      auto poly = [&](double a, double b, double cc, double d) { return a + b * ecc + cc * e2 + d * e3; };
      const bool low = ecc <= 0.65, mid = ecc < 0.7;
      const double g201 = -0.306 - 0.440 * (ecc - 0.64);
      const double g211 = low ? poly(3.616, -13.2470, 16.2900, 0) : poly(-72.099, 331.819, -508.738, 266.724);
      const double g310 = low ? poly(-19.302, 117.3900, -228.4190, 156.5910) : poly(-346.844, 1582.851, -2415.925, 1246.113);
      const double g322 = low ? poly(-18.9068, 109.7927, -214.6334, 146.5816) : poly(-342.585, 1554.908, -2366.899, 1215.972);
      const double g410 = low ? poly(-41.122, 242.6940, -471.0940, 313.9530) : poly(-1052.797, 4758.686, -7193.992, 3651.957);
      const double g422 = low ? poly(-146.407, 841.8800, -1629.014, 1083.4350) : poly(-3581.690, 16178.110, -24462.770, 12422.520);
      const double g520 = low ? poly(-532.114, 3017.977, -5740.032, 3708.2760) : ecc > 0.715 ? poly(-5149.66, 29936.92, -54087.36, 31324.56) : poly(1464.74, -4664.75, 3763.64, 0);
      const double g533 = mid ? poly(-919.22770, 4988.6100, -9064.7700, 5542.21) : poly(-37995.780, 161616.52, -229838.20, 109377.94);
      const double g521 = mid ? poly(-822.71072, 4568.6173, -8491.4146, 5337.524) : poly(-51752.104, 218913.95, -309468.16, 146349.42);
      const double g532 = mid ? poly(-853.66600, 4690.2500, -8624.7700, 5341.4) : poly(-40023.880, 170470.89, -242699.48, 115605.82);
      const double f220 = 0.75 * (1 + c) * (1 + c), f221 = 1.5 * s2, f321 = 1.875 * s * (1 - 2 * c - 3 * c2), f322 = -1.875 * s * (1 + 2 * c - 3 * c2), f441 = 35 * s2 * f220, f442 = 39.375 * s2 * s2;
      const double f522 = 9.84375 * s * (s2 * (1 - 2 * c - 5 * c2) + (-2 + 4 * c + 6 * c2) / 3), f523 = s * (4.92187512 * s2 * (-2 - 4 * c + 10 * c2) + 6.56250012 * (1 + 2 * c - 3 * c2));
      const double f542 = 29.53125 * s * (2 - 8 * c + c2 * (-12 + 8 * c + 10 * c2)), f543 = 29.53125 * s * (-2 - 8 * c + c2 * (12 + 8 * c - 10 * c2));
      const double k2 = 3 * n * n * ainv2, k3 = k2 * ainv, k4 = k3 * ainv, k5 = k4 * ainv;
      const double r22 = 1.7891679e-6, r32 = 3.7393792e-7, r44 = 7.3636953e-9, r52 = 1.1428639e-7, r54 = 2.1765803e-9;
      const double h[10] = {k2 * r22 * f220 * g201,     k2 * r22 * f221 * g211, k3 * r32 * f321 * g310, k3 * r32 * f322 * g322,     2 * k4 * r44 * f441 * g410,
                            2 * k4 * r44 * f442 * g422, k5 * r52 * f522 * g520, k5 * r52 * f523 * g532, 2 * k5 * r54 * f542 * g521, 2 * k5 * r54 * f543 * g533};
      for (int i = 0; i < 10; i++) half[i] = h[i];
      lambda0 = m + 2 * node - 2 * theta0, drift = mdot + dm + 2 * (odot + dn - kTurn) - n;
    }
  }
  // rates of the resonance argument at (lambda, mean motion, time since the epoch)
  void Rates(double lambda, double n, double at, double& ldot, double& ndot, double& nddot) const {
    ndot = nddot = 0;
    auto term = [&](double k, double a, int l) { ndot += k * std::sin(a), nddot += l * k * std::cos(a); };
    if (resonance == 1) {
      term(sync[0], lambda - 0.13130908, 1), term(sync[1], 2 * (lambda - 2.8843198), 2), term(sync[2], 3 * (lambda - 0.37448087), 3);
    } else {
      const double o = argp + wdot * at;
      const double g22 = 5.7686396, g32 = 0.95240898, g44 = 1.8014998, g52 = 1.0508330, g54 = 4.4108898;
      const int ko[10] = {2, 0, 1, -1, 2, 0, 1, -1, 1, -1}, kl[10] = {1, 1, 1, 1, 2, 2, 1, 1, 2, 2};
      const double ph[10] = {g22, g22, g32, g32, g44, g44, g52, g52, g54, g54};
      for (int i = 0; i < 10; i++) term(half[i], ko[i] * o + kl[i] * lambda - ph[i], kl[i]);
    }
    ldot = n + drift, nddot *= ldot;
  }
  // secular effects: changes the mean elements and gives the mean motion
  void Secular(double t, double& e, double& inc, double& node, double& w, double& m, double& n) const {
    e += de * t, inc += di * t, w += dw * t, node += dn * t, m += dm * t, n = n0;
    if (!resonance) return;
    double lambda = lambda0, nn = n0, at = 0, ld, nd, ndd;
    const double step = t < 0 ? -720 : 720;
    Rates(lambda, nn, at, ld, nd, ndd);
    while (std::fabs(t - at) >= 720) {
      lambda += ld * step + nd * step * step / 2, nn += nd * step + ndd * step * step / 2, at += step;
      Rates(lambda, nn, at, ld, nd, ndd);
    }
    const double f = t - at;
    n = nn + nd * f + ndd * f * f / 2;
    const double l = lambda + ld * f + nd * f * f / 2, theta = std::fmod(theta0 + t * kTurn, 2 * M_PI);
    m = resonance == 1 ? l - node - w + theta : l - 2 * node + 2 * theta;
  }
  static double Turn(double x) { return x = std::fmod(x, 2 * M_PI), x < 0 ? x + 2 * M_PI : x; }
  void Periodics(double t, double& e, double& inc, double& node, double& w, double& m) const {
    double p[5] = {};
    sun.Periodic(t, p), moon.Periodic(t, p);
    inc += p[1], e += p[0];
    const double s = std::sin(inc), c = std::cos(inc);
    if (inc >= 0.2) {
      w += p[3] - c * p[4] / s, node += p[4] / s, m += p[2];
    } else {  // Lyddane's modification
      const double x = s * std::sin(node) + p[4] * std::cos(node) + p[1] * c * std::sin(node), y = s * std::cos(node) - p[4] * std::sin(node) + p[1] * c * std::cos(node);
      node = Turn(node);
      const double sum = m + w + c * node + p[2] + p[3] - p[1] * node * s, before = node;
      node = Turn(std::atan2(x, y));
      if (std::fabs(before - node) > M_PI) node += node < before ? 2 * M_PI : -2 * M_PI;
      m += p[2], w = sum - m - c * node;
    }
    if (inc < 0) inc = -inc, node += M_PI, w -= M_PI;
  }
};
}  // namespace sgp4_ref
