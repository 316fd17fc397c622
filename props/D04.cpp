// link: sim
#include <math_physics/orbit/sgp4/sgp4io.h>

#include <dynamics/orbit/relative_orbit.hpp>
#include <dynamics/orbit/sgp4_orbit_propagation.hpp>
#include <math_physics/orbit/kepler_orbit.hpp>
#include <math_physics/orbit/relative_orbit_models.hpp>

#include "mission.hpp"
#include "orbit_ref.hpp"
#include "rig.hpp"
#include "sgp4_ref.hpp"
using pbt::Case;
using namespace rig;
using orbit_ref::Elements;
namespace ob = s2e::dynamics::orbit;
static const double kDay = 86400;
static double Wrap(double x) { return std::remainder(x, 2 * M_PI); }
// elements from a position and velocity describe that position and velocity
static void Extraction(Case& c) {
  const Elements el = orbit_ref::AnyOrbit(c, 0.95);
  const double n = std::sqrt(el.mu / el.a) / el.a, jd = 2451545.0 + c.Real(0, 9000);
  const auto s = orbit_ref::At(el, c.Chance(0.3) ? (double)c.Int(-2, 2) * M_PI / 2 / n : c.Real(-1, 1) * M_PI / n);
  V3 r = s.r, v = s.v;
  c.Note(orbit_ref::Str(el), " r ", Str(r), " v ", Str(v));
  if (el.i > M_PI / 2 || s.v[2] < 0) c.NonTrivial();
  const s2e::orbit::OrbitalElements got(el.mu, jd, S(r), S(v));
  const V3 h = ref::Cross(r, v), ev = ref::Cross(v, h) / el.mu - ref::Unit(r);
  const double a = 1 / (2 / ref::Norm(r) - ref::Dot(v, v) / el.mu), e = ref::Norm(ev), q = 1 / (1 - el.e);
  c.Near(got.GetSemiMajorAxis_m(), a, 0, 1e-13 * q, "semi-major-axis", "semi-major axis");
  c.Near(got.GetEccentricity(), e, 1e-13 * q, 0, "eccentricity", "eccentricity");
  c.Near(got.GetInclination_rad(), std::atan2(std::hypot(h[0], h[1]), h[2]), 1e-7, 0, "inclination", "inclination");
  const double node = std::hypot(h[0], h[1]) / ref::Norm(h);
  if (node > 1e-5) {
    const V3 N{-h[1], h[0], 0};
    c.Near(Wrap(got.GetRaan_rad() - std::atan2(N[1], N[0])), 0, 1e-14 / node, 0, "raan", "ascending node");
    if (e > 1e-6) {
      const double w = std::atan2(ref::Dot(ref::Cross(N, ev), h) / ref::Norm(h), ref::Dot(N, ev));
      c.Near(Wrap(got.GetArgPerigee_rad() - w), 0, 1e-13 * q * (1 / node + 1 / e), 0, "argument-of-perigee", "argument of perigee");
    }
  }
  const double t = (jd - got.GetEpoch_jday()) * kDay, period = 2 * M_PI / n;
  c.Check(t > -1e-3 - 1e-9 * period && t < period * (1 + 1e-9) + 1e-3, "epoch", "perigee passage " + mission::Num(t) + " s before the state, period " + mission::Num(period));
  if (e > 1e-5) c.Near(std::remainder((t - s.t) * n, 2 * M_PI) / n, 0, 1e-4 + 1e-13 * q * q / e / n, 0, "perigee-time", "time since perigee");
  const double vp = std::sqrt(el.mu / el.a * (1 + el.e) / (1 - el.e)), g = el.mu / ref::Dot(r, r);
  const Elements ge{el.mu, got.GetSemiMajorAxis_m(), got.GetEccentricity(), got.GetInclination_rad(), got.GetRaan_rad(), got.GetArgPerigee_rad()};
  const auto back = orbit_ref::At(ge, t);
  Near3(c, back.r, r, 5e-5 * vp + 1e-12 * q * q * el.a, 0, "round-trip-position", "position from the elements");
  Near3(c, back.v, v, 5e-5 * g + 1e-12 * q * q * vp, 0, "round-trip-velocity", "velocity from the elements");
  s2e::orbit::KeplerOrbit k(el.mu, got);
  k.CalcOrbit(jd);
  Near3(c, R(k.GetPosition_i_m()), r, 5e-5 * vp + 1e-8 * q * el.a, 0, "kepler-round-trip-position");
  Near3(c, R(k.GetVelocity_i_m_s()), v, 5e-5 * g + 1e-8 * q * vp, 0, "kepler-round-trip-velocity");
  // the same motion seen from a rotated frame has rotated elements
  const double turn = c.Real(-M_PI, M_PI);
  const M3 rot = ref::T(ref::Rz(turn));
  const s2e::orbit::OrbitalElements turned(el.mu, jd, S(rot * r), S(rot * v));
  c.Near(turned.GetSemiMajorAxis_m(), got.GetSemiMajorAxis_m(), 0, 1e-12 * q, "turned-semi-major-axis", "after a turn about z");
  c.Near(turned.GetInclination_rad(), got.GetInclination_rad(), 1e-7, 0, "turned-inclination", "after a turn about z");
  if (node > 1e-5) c.Near(Wrap(turned.GetRaan_rad() - got.GetRaan_rad() - turn), 0, 1e-13 / node, 0, "turned-raan", "after a turn about z");
}
using State = std::vector<double>;
static State Hill(const State& x, double n) { return {x[3], x[4], x[5], 3 * n * n * x[0] + 2 * n * x[4], -2 * n * x[3], -n * n * x[2]}; }
static void Linear(Case& c) {
  const double mu = c.Bool() ? 3.986004415e14 : c.LogReal(1e12, 1e16), radius = c.LogReal(6.6e6, 1e8), n = std::sqrt(mu / radius) / radius;
  const double t1 = c.EdgeReal(-2, 6) * M_PI / n, t2 = c.EdgeReal(-2, 6) * M_PI / n;
  const V3 dir = c.Dir(), vdir = c.Dir();
  c.Note("mu ", mu, " radius ", radius, " times ", t1, " ", t2);
  c.NonTrivial();
  const auto A = s2e::orbit::CalcHillSystemMatrix(radius, mu);
  const auto F1 = s2e::orbit::CalcHcwStm(radius, mu, t1), F2 = s2e::orbit::CalcHcwStm(radius, mu, t2), F12 = s2e::orbit::CalcHcwStm(radius, mu, t1 + t2),
             F0 = s2e::orbit::CalcHcwStm(radius, mu, 0);
  // scaled so that every entry is dimensionless
  auto sc = [&](int i, int j) { return (i >= 3 ? 1 / n : 1.0) * (j >= 3 ? n : 1.0); };
  State x{dir[0], dir[1], dir[2], n * vdir[0], n * vdir[1], n * vdir[2]};
  const State dx = Hill(x, n);
  const double scale = 30 * (1 + std::fabs(n * t1)) * (1 + std::fabs(n * t2));
  for (int i = 0; i < 6; i++) {
    double ax = 0;
    for (int j = 0; j < 6; j++) {
      ax += A[i][j] * x[j];
      c.Near(F0[i][j], i == j, 0, 0, "identity", "transition over no time");
      double prod = 0;
      for (int k = 0; k < 6; k++) prod += F1[i][k] * F2[k][j];
      c.Near(sc(i, j) * prod, sc(i, j) * F12[i][j], 1e-12 * scale, 0, "composition", "transition over t1 + t2, entry " + std::to_string(i) + std::to_string(j));
    }
    c.Near(ax * (i >= 3 ? 1 / n / n : 1 / n), dx[i] * (i >= 3 ? 1 / n / n : 1 / n), 1e-13, 0, "system-matrix", "rate " + std::to_string(i));
  }
  const State y = ref::Rk4(x, 0, t1 / 400, 400, [&](double, const State& s) { return Hill(s, n); });
  for (int i = 0; i < 6; i++) {
    double got = 0;
    for (int j = 0; j < 6; j++) got += F1[i][j] * x[j];
    c.Near(got * (i >= 3 ? 1 / n : 1), y[i] * (i >= 3 ? 1 / n : 1), 1e-4 * (1 + std::fabs(n * t1)), 0, "solution", "integrated equations, state " + std::to_string(i));
  }
  // the linear model is the limit of the true motion of two neighbours
  Elements el{mu, radius, 0, std::acos(2 * c.Unit() - 1), c.Real(0, 2 * M_PI), 0};
  const double d = radius * c.LogReal(1e-6, 1e-4), tt = c.Real(0, 1) * 2 * M_PI / n;
  const auto s0 = orbit_ref::At(el, 0), s1 = orbit_ref::At(el, tt);
  auto frame = [](const orbit_ref::State& s) {
    const V3 z = ref::Unit(ref::Cross(s.r, s.v)), xx = ref::Unit(s.r), yy = ref::Cross(z, xx);
    return M3{{{{xx[0], xx[1], xx[2]}}, {{yy[0], yy[1], yy[2]}}, {{z[0], z[1], z[2]}}}};
  };
  const V3 rel = d * dir, relv = n * d * vdir, w{0, 0, n};
  const M3 D0 = frame(s0), D1 = frame(s1);
  State neighbour{0, 0, 0, 0, 0, 0};
  const V3 p = s0.r + ref::T(D0) * rel, v = s0.v + ref::T(D0) * (relv + ref::Cross(w, rel));
  for (int i = 0; i < 3; i++) neighbour[i] = p[i], neighbour[3 + i] = v[i];
  neighbour = ref::Rk4(neighbour, 0, tt / 2000, 2000, [&](double, const State& s) {
    const double r2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2], k = mu / r2 / std::sqrt(r2);
    return State{s[3], s[4], s[5], -k * s[0], -k * s[1], -k * s[2]};
  });
  const auto F = s2e::orbit::CalcHcwStm(radius, mu, tt);
  const V3 truth = D1 * (V3{neighbour[0], neighbour[1], neighbour[2]} - s1.r);
  const V3 truthv = D1 * (V3{neighbour[3], neighbour[4], neighbour[5]} - s1.v) - ref::Cross(w, truth);
  for (int i = 0; i < 3; i++) {
    double gr = 0, gv = 0;
    for (int j = 0; j < 3; j++) gr += F[i][j] * rel[j] + F[i][3 + j] * relv[j], gv += F[3 + i][j] * rel[j] + F[3 + i][3 + j] * relv[j];
    const double tol = 3000 * d * d / radius + 1e-9 * radius;
    c.Near(gr, truth[i], tol, 0, "neighbour-position", "axis " + std::to_string(i));
    c.Near(gv / n, truthv[i] / n, tol, 0, "neighbour-velocity", "axis " + std::to_string(i));
  }
}
static std::string Fmt(const char* f, double x) {
  char b[64];
  snprintf(b, sizeof b, f, x);
  return b;
}
struct Tle {
  std::string l1, l2;
  sgp4_ref::Mean m;
  double jd;
};
static std::string Exponent(double x) {  // " 12345-4"
  if (x == 0) return " 00000-0";
  int ex = (int)std::floor(std::log10(std::fabs(x))) + 1;
  long mant = std::lround(std::fabs(x) / std::pow(10, ex) * 1e5);
  if (mant == 100000) mant = 10000, ex++;
  char b[16];
  snprintf(b, sizeof b, "%c%05ld%c%d", x < 0 ? '-' : ' ', mant, ex <= 0 ? '-' : '+', std::abs(ex));
  return b;
}
static double FromExponent(const std::string& s) {
  const double mant = std::stod(s.substr(1, 5)) * 1e-5, ex = std::stod(s.substr(7, 1)) * (s[6] == '-' ? -1 : 1);
  return (s[0] == '-' ? -1 : 1) * mant * std::pow(10, ex);
}
static Tle MakeTle(Case& c, bool deep) {
  Tle t;
  const long year = c.Of<long>({1957, 1980, 1999, 2000, 2004, 2015, 2021, 2024, 2056});
  const bool leap = year % 4 == 0;
  const double day = c.Bool() ? (double)c.Int(1, leap ? 366 : 365) : c.Real(1, leap ? 366.99 : 365.99);
  const double incl = deep ? (c.Chance(0.3) ? c.Of<double>({0, 0.01, 0.05, 63.4, 90, 179}) : c.Chance(0.3) ? c.Real(0.01, 15) : c.Real(0, 180)) : c.Chance(0.2) ? c.Of<double>({0, 0.5, 63.4, 90, 98.2, 116.6, 179, 180}) : c.Real(0, 180);
  const double node = c.Chance(0.1) ? 0 : c.Real(0, 359.99), argp = c.Chance(0.1) ? 0 : c.Real(0, 359.99), ma = c.Chance(0.1) ? 0 : c.Real(0, 359.99);
  double ecc, revs;
  if (deep) {
    const long kind = c.Int(0, 3);
    revs = kind == 0 ? c.Real(0.8, 1.2) : kind == 1 ? c.Real(1.9, 2.1) : kind == 2 ? c.Of<double>({1.0027, 2.0057}) : c.Real(0.9, 6.3);
    const double a = std::pow(398600.8 * std::pow(86400 / revs / 2 / M_PI, 2), 1. / 3), top = std::min(0.75, 1 - 6800 / a);
    ecc = revs > 1.5 && revs < 2.5 && c.Chance(0.8) ? (c.Chance(0.2) ? c.Of<double>({0.5, 0.65, 0.7, 0.715}) : c.Real(0.48, top)) : c.Chance(0.5) ? c.LogReal(1e-4, 0.05) : c.Real(0.0001, top);
  } else {
    const double hp = c.Chance(0.2) ? c.Real(100, 230) : c.LogReal(180, 3000);
    ecc = c.Bool() ? c.LogReal(1e-6, 0.02) : c.Real(0, 0.3);
    double a = (6378 + hp) / (1 - ecc);
    revs = 86400 / 2 / M_PI * std::sqrt(398600.8 / a) / a;
  }
  const double bstar = c.Chance(0.2) ? 0 : (c.Chance(0.1) ? -1 : 1) * c.LogReal(1e-7, 2e-3);
  const std::string si = Fmt("%8.4f", incl), sn = Fmt("%8.4f", node), se = Fmt("%07.0f", ecc * 1e7), sw = Fmt("%8.4f", argp), sm = Fmt("%8.4f", ma), sr = Fmt("%11.8f", revs),
                    sd = Fmt("%012.8f", day), sb = Exponent(bstar);
  t.l1 = "1 25544U 98067A   " + Fmt("%02.0f", (double)(year % 100)) + sd + c.Of<std::string>({"  .00016717", " -.00002182", "  .00000000"}) + "  00000-0 " + sb + " 0  9000";
  t.l2 = "2 25544 " + si + " " + sn + " " + se + " " + sw + " " + sm + " " + sr + "56353";
  for (std::string* l : {&t.l1, &t.l2}) {
    int sum = 0;
    for (size_t k = 0; k < 68 && k < l->size(); k++) sum += std::isdigit((*l)[k]) ? (*l)[k] - '0' : (*l)[k] == '-';
    l->resize(68, ' '), *l += (char)('0' + sum % 10);
  }
  const double rad = M_PI / 180;
  t.m = {std::stod(si) * rad, std::stod(sn) * rad, std::stod(se) * 1e-7, std::stod(sw) * rad, std::stod(sm) * rad, std::stod(sr), FromExponent(sb), 0};
  // day 1.0 is midnight at the start of the first of January
  const long y = year - 1;
  const double jan0 = 1721424.5 + 365.0 * (double)y + (double)(y / 4 - y / 100 + y / 400);
  t.jd = t.m.jd = jan0 + std::stod(sd);
  return t;
}
static void TwoLine(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  const bool deep = c.Chance(0.4);
  const Tle tle = MakeTle(c, deep);
  const int wgs = (int)c.Int(0, 2);
  c.Note(tle.l1, " | ", tle.l2, " constants ", wgs);
  const auto g = sgp4_ref::Constants(wgs);
  std::vector<double> times;  // minutes
  const long count = c.Int(1, 8);
  for (long k = 0; k < count; k++) times.push_back(c.Chance(0.1) ? 0 : c.Bool() ? c.Real(-1440 * (deep ? 10 : 1), 1440 * (deep ? 20 : 5)) : c.EdgeReal(-200, 200));
  for (double t : times)
    if (sgp4_ref::Propagate(tle.m, g, t).decayed || ref::Norm(sgp4_ref::Propagate(tle.m, g, t).r) < 6.45e6) {
      c.Skip();
      return;
    }
  c.NonTrivial();
  c.Label(deep ? "deep" : sgp4_ref::Propagate(tle.m, g, 0).perigee_km < 220 ? "low" : "near");
  auto make = [&](double minutes) {
    std::vector<char> a(tle.l1.begin(), tle.l1.end()), b(tle.l2.begin(), tle.l2.end());
    a.resize(130, 0), b.resize(130, 0);
    auto o = std::make_unique<ob::Sgp4OrbitPropagation>(&rig.global, a.data(), b.data(), wgs, tle.jd + minutes / 1440);
    o->SetIsCalcEnabled(true);
    return o;
  };
  auto o = make(times[0]);
  c.Check((int)o->GetPropagateMode() == (int)ob::OrbitPropagateMode::kSgp4, "mode", "propagation mode reported");
  for (size_t k = 0; k < times.size(); k++) {
    const double jd = tle.jd + times[k] / 1440, t = (jd - tle.jd) * 1440;
    if (k) o->Propagate(c.Real(0, 1e6), jd);  // the simulation time plays no part
    const auto want = sgp4_ref::Propagate(tle.m, g, t);
    const V3 r = R(((ob::Orbit&)*o).GetPosition_i_m()), v = R(((ob::Orbit&)*o).GetVelocity_i_m_s());
    const double vn = ref::Norm(want.v), gg = g.mu * 1e9 / ref::Dot(want.r, want.r);
    const std::string at = "at " + mission::Num(t) + " minutes";
    Near3(c, r, want.r, 2e-4 * vn + 1e-2, 0, want.deep ? "deep-position" : "sgp4-position", at);
    Near3(c, v, want.v, 2e-4 * gg + 1e-5, 0, want.deep ? "deep-velocity" : "sgp4-velocity", at);
    if (want.deep) {
      // velocity is the rate (the theory itself is not smooth near the equator) of change of position
      const double h = tle.m.incl > 0.22 && tle.m.incl < 2.9 ? 0.01 : 0;
      auto p = make(times[0]), q = make(times[0]);
      p->Propagate(0, jd + h / 1440), q->Propagate(0, jd - h / 1440);
      if (h > 0) {
        const V3 rate = (R(((ob::Orbit&)*p).GetPosition_i_m()) - R(((ob::Orbit&)*q).GetPosition_i_m())) / (120 * h);
        Near3(c, rate, v, 2e-3 * vn + 2, 0, "deep-rate", at);
      }
      // and does not depend on the path taken to this time
      auto direct = make(times[k]);
      Near3(c, r, R(((ob::Orbit&)*direct).GetPosition_i_m()), 1 + 1e-6 * ref::Norm(r), 0, "deep-path", at);
    }
    // specific energy and plane stay those of the elements to first order in J2
    const double n = tle.m.revs * 2 * M_PI / kDay, a = std::pow(g.mu * 1e9 / n / n, 1. / 3), rp = a * (1 - tle.m.ecc);
    if (std::fabs(t) < 300 && std::fabs(tle.m.bstar) < 1e-4) {
      const double k2 = 0.006 * std::pow(g.re * 1e3 / rp, 2) + 0.005;
      c.Near(ref::Dot(v, v) / 2 - g.mu * 1e9 / ref::Norm(r), -g.mu * 1e9 / 2 / a, k2 * g.mu * 1e9 / rp, 0, "sgp4-energy", at);
    }
  }
}
// formation flight in a mission: the relative state follows the linear model around the reference orbit
static void Formation(Case& c) {
  mission::Quiet quiet;
  const double mu = fake::GM(399) * 1e9;
  Elements el = orbit_ref::AnyOrbit(c);
  el.mu = mu, el.a = el.a * (1 - el.e), el.e = 0;
  const double n = std::sqrt(mu / el.a) / el.a, d = c.LogReal(1, 1e4);
  const bool stm = c.Bool();
  const V3 rel = d * c.Dir(), relv = (c.Bool() ? n * d : 0.0) * c.Dir();
  const double step = c.Of<double>({1, 5, 10}), rk = step * c.Of<double>({1, 0.5, 0.3});
  c.Note(orbit_ref::Str(el), stm ? " transition matrix" : " integrated", " relative ", Str(rel), " ", Str(relv), " step ", step, " integration ", rk);
  c.NonTrivial();
  mission::Settings s(c);
  mission::SetTime(s, "2021/05/06 07:08:09.0", 1000, step, step, step, step, rk, 1000, 1000, step, 1000);
  s.AddSpacecraft(1);
  double jd0 = 0;
  jday(2021, 5, 6, 7, 8, 9.0, jd0);
  for (int k = 0; k < 2; k++) {
    const std::string ini = s.Sat(k) + "satellite.ini", dist = s.Sat(k) + "disturbance.ini";
    for (const char* x : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"})
      s.Set(dist, x, "calculation", false);
    s.Set(ini, "ORBIT", "propagate_mode", k ? "RELATIVE" : "KEPLER");
    s.Set(ini, "ORBIT", "initialize_mode", "ORBITAL_ELEMENTS");
    s.Set(ini, "ORBIT", "epoch_jday", jd0), s.Set(ini, "ORBIT", "semi_major_axis_m", el.a), s.Set(ini, "ORBIT", "eccentricity", 0.0), s.Set(ini, "ORBIT", "inclination_rad", el.i);
    s.Set(ini, "ORBIT", "raan_rad", el.raan), s.Set(ini, "ORBIT", "argument_of_perigee_rad", el.argp);
    s.Set(ini, "ORBIT", "relative_orbit_update_method", stm ? 1 : 0), s.Set(ini, "ORBIT", "relative_dynamics_model_type", 0), s.Set(ini, "ORBIT", "stm_model_type", 0);
    s.SetVec(ini, "ORBIT", "initial_relative_position_lvlh_m", rel), s.SetVec(ini, "ORBIT", "initial_relative_velocity_lvlh_m_s", relv);
    s.Set(ini, "ORBIT", "reference_satellite_id", 0);
  }
  mission::Mission m(s, nullptr, true);
  m.Initialize();
  State x{rel[0], rel[1], rel[2], relv[0], relv[1], relv[2]};
  double t = 0;
  for (int k = 0; k < 12; k++) {
    const double now = k ? m.Time().GetElapsedTime_s() : 0;
    if (now > t) x = ref::Rk4(x, 0, (now - t) / 4, 4, [&](double, const State& y) { return Hill(y, n); }), t = now;
    const auto &a = m.Sc(0).Dyn().GetOrbit(), &b = m.Sc(1).Dyn().GetOrbit();
    const V3 r0 = R(a.GetPosition_i_m()), v0 = R(a.GetVelocity_i_m_s()), z = ref::Unit(ref::Cross(r0, v0)), ex = ref::Unit(r0), ey = ref::Cross(z, ex);
    const V3 dr = R(b.GetPosition_i_m()) - r0, dv = R(b.GetVelocity_i_m_s()) - v0 - ref::Cross(n * z, dr);
    const V3 got{ref::Dot(dr, ex), ref::Dot(dr, ey), ref::Dot(dr, z)}, gotv{ref::Dot(dv, ex), ref::Dot(dv, ey), ref::Dot(dv, z)};
    Near3(c, got, V3{x[0], x[1], x[2]}, 1e-6 * d + 1e-6, 0, "formation-position", "at " + mission::Num(now));
    Near3(c, gotv, V3{x[3], x[4], x[5]}, 1e-6 * d * n + 1e-9 * n * el.a * 1e-3 + 1e-9, 0, "formation-velocity", "at " + mission::Num(now));
    if (k) {
      Near3(c, R(m.Rel().GetRelativePosition_rtn_m(1, 0)), got, 1e-6 * d + 1e-6, 0, "formation-reported-position");
      Near3(c, R(m.Rel().GetRelativeVelocity_rtn_m_s(1, 0)), gotv, 1e-6 * d * n + 1e-8, 0, "formation-reported-velocity");
    }
    m.Step();
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D04", "retrograde or descending state; relative motion or a propagated element set",
                   {{"extraction", Extraction, 4000, 200000, 200}, {"linear", Linear, 600, 15000, 30}, {"two-line", TwoLine, 8000, 60000, 50}, {"formation", Formation, 80, 1500, 4, 60}});
}
