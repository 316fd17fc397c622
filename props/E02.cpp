// link: sim
#include <environment/global/celestial_information.hpp>
#include <environment/global/earth_rotation.hpp>
#include <environment/global/moon_rotation.hpp>
#include <math_physics/planet_rotation/moon_rotation_utilities.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
using pbt::Case;
using namespace s2e_ref;
static const double kAs = M_PI / 648000;  // arcsecond
// Independent model: IAU 1976 precession, the largest IAU nutation terms (multipliers of l, l', F, D, Om), GMST 1982.
static double Gmst(double jd) {
  const double d = jd - 2451545.0, T = d / 36525;
  // whole turns removed day by day to keep precision
  const long double turns = 67310.54841L / 86400 + std::fmod((long double)d, 1.0L) + (8640184.812866L * T + 0.093104L * T * T - 6.2e-6L * T * T * T) / 86400;
  return (double)(2 * 3.14159265358979323846264338327950288L * (turns - std::floor(turns)));
}
static M3 Full(double jd, M3* teme = nullptr) {
  const double T = (jd + 32.184 / 86400 - 2451545.0) / 36525, T2 = T * T, T3 = T2 * T, T4 = T3 * T;
  const double zeta = (2306.2181 * T + 0.30188 * T2 + 0.017998 * T3) * kAs, theta = (2004.3109 * T - 0.42665 * T2 - 0.041833 * T3) * kAs, z = (2306.2181 * T + 1.09468 * T2 + 0.018203 * T3) * kAs;
  const M3 P = ref::Rz(-z) * ref::Ry(theta) * ref::Rz(-zeta);
  auto arg = [&](double deg, double a, double b, double c3, double d) { return deg * M_PI / 180 + std::fmod((a * T + b * T2 + c3 * T3 + d * T4), 1296000.0) * kAs; };
  const double A[5] = {arg(134.96340251, 1717915923.2178, 31.8792, 0.051635, -0.00024470), arg(357.52910918, 129596581.0481, -0.5532, 0.000136, -0.00001149),
                       arg(93.27209062, 1739527262.8478, -12.7512, -0.001037, 0.00000417), arg(297.85019547, 1602961601.2090, -6.3706, 0.006593, -0.00003169),
                       arg(125.04455501, -6962890.5431, 7.4722, 0.007702, -0.00005939)};
  static const struct { int k[5]; double psi, eps; } terms[] = {
      {{0, 0, 0, 0, 1}, -17.206, 9.205}, {{0, 0, 2, -2, 2}, -1.317, 0.573}, {{0, 0, 2, 0, 2}, -0.228, 0.098},  {{0, 0, 0, 0, 2}, 0.207, -0.090}, {{0, 1, 0, 0, 0}, 0.148, 0.007},
      {{0, 1, 2, -2, 2}, -0.052, 0.022}, {{1, 0, 0, 0, 0}, 0.071, -0.001},  {{1, 0, 2, 0, 2}, -0.030, 0.013}, {{0, -1, 2, -2, 2}, 0.022, -0.010}};
  double psi = 0, de = 0;
  for (auto& t : terms) {
    double a = 0;
    for (int i = 0; i < 5; i++) a += t.k[i] * A[i];
    psi += t.psi * kAs * std::sin(a), de += t.eps * kAs * std::cos(a);
  }
  const double e = 23.4392911 * M_PI / 180 + (-46.8150 * T - 0.00059 * T2 + 0.001813 * T3) * kAs;
  const M3 N = ref::Rx(-(e + de)) * ref::Rz(-psi) * ref::Rx(e);
  if (teme) *teme = ref::Rz(Gmst(jd));
  return ref::Rz(Gmst(jd) + psi * std::cos(e + de)) * N * P;
}
static void NearM(Case& c, const M3& got, const M3& want, double tol, const std::string& key, const std::string& what = "") {
  for (int i = 0; i < 3; i++) Near3(c, got[i], want[i], tol, 0, key, what + " row " + std::to_string(i));
}
static double AnyJd(Case& c) {
  const double a = 2440587.5, b = 2488069.5;  // 1970 .. 2099
  switch (c.Int(0, 3)) {
    case 0: return 2451545.0 + c.Of<double>({0, 1, -1, 36525, 0.5, 1e-5, 365.25 * 18.6});
    case 1: return a + (double)c.Int(0, (int64_t)(b - a)) + c.Of<double>({0, 0.5});
    default: return c.Real(a, b);
  }
}
using s2e::environment::EarthRotation;
using s2e::environment::EarthRotationMode;
static void Earth(Case& c) {
  EarthRotation full(EarthRotationMode::kFull), simple(EarthRotationMode::kSimple), idle(EarthRotationMode::kIdle);
  const M3 I = ref::Rz(0);
  NearM(c, R(full.GetDcmJ2000ToEcef()), I, 0, "before-first-update");
  // any order of epochs
  double jd = AnyJd(c);
  const int n = (int)c.Int(1, 5);
  for (int k = 0; k < n; k++) {
    c.Note("jd ", jd);
    full.Update(jd), simple.Update(jd), idle.Update(jd);
    const M3 f = R(full.GetDcmJ2000ToEcef()), s = R(simple.GetDcmJ2000ToEcef());
    M3 teme;
    const M3 want = Full(jd, &teme);
    ProperRotation(c, f, 1e-12, "proper-rotation"), ProperRotation(c, s, 1e-12, "proper-rotation");
    // angles about the pole carry the rounding of the Julian date, the pole itself does not
    NearM(c, f, want, 4e-9, "full-model"), Near3(c, f[2], want[2], 2e-10, 0, "full-model", "pole");
    NearM(c, s, teme, 4e-9, "simple-model");
    NearM(c, R(idle.GetDcmJ2000ToEcef()), I, 0, "idle-model");
    NearM(c, R(full.GetDcmTemeToEcef()), teme, 4e-9, "teme"), NearM(c, R(simple.GetDcmTemeToEcef()), teme, 4e-9, "teme");
    // one turn per sidereal day about the axis, smoothly
    const double dt = c.Of<double>({1, 60, 600, 86164.0905});  // s
    EarthRotation later(EarthRotationMode::kFull);
    later.Update(jd + dt / 86400);
    const M3 d = R(later.GetDcmJ2000ToEcef()) * ref::T(f), turn = ref::Rz(std::fmod(7.29211585e-5 * dt, 2 * M_PI));
    NearM(c, d, turn, 2.5e-11 * dt + 4e-8, "rotation-rate");
    jd = c.Bool() ? AnyJd(c) : jd + c.Real(-1, 1);
  }
  c.NonTrivial();
}
static M3 MoonSimple(const V3& p, const V3& v) {
  const V3 x = ref::Unit(-p), z = ref::Unit(ref::Cross(p, v)), y = ref::Cross(z, x);
  const M3 me{x, y, z};
  return ref::Rz(67.573 * kAs) * ref::Ry(78.580 * kAs) * ref::Rx(0.285 * kAs) * me;
}
static void Moon(Case& c) {
  const V3 p = c.LogReal(1e5, 1e9) * c.Dir();
  V3 v = c.LogReal(1, 1e4) * c.Dir();
  if (ref::Norm(ref::Cross(ref::Unit(p), ref::Unit(v))) < 1e-3) v = v + ref::Norm(v) * ref::Unit(ref::Cross(p, V3{0.3, -0.2, 0.9}));
  c.Note("moon ", Str(p), Str(v));
  const M3 m = R(s2e::planet_rotation::CalcDcmEciToPrincipalAxis(S(p), S(v)));
  ProperRotation(c, m, 1e-11, "proper-rotation");
  NearM(c, m, MoonSimple(p, v), 1e-10, "principal-axis");
  const M3 me = R(s2e::planet_rotation::CalcDcmEciToMeanEarth(S(p), S(v)));
  ProperRotation(c, me, 1e-11, "proper-rotation");
  Near3(c, me * p, {-ref::Norm(p), 0, 0}, 0, 1e-12, "faces-the-earth");
  c.Check((me * ref::Cross(p, v))[2] > 0, "spin-sense");
  ProperRotation(c, R(s2e::planet_rotation::CalcDcmMeanEarthToPrincipalAxis()), 1e-14, "proper-rotation");
  c.NonTrivial();
}
// as configured in the settings, over simulated time, whatever the order of bodies and the centre
static void Configured(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  char start[64];
  snprintf(start, sizeof start, "%d/%d/%d %d:%d:0.0", (int)c.Int(1970, 2098), (int)c.Int(1, 12), (int)c.Int(1, 28), (int)c.Int(0, 23), (int)c.Int(0, 59));
  const double step = c.Of<double>({1, 10, 60});
  mission::SetTime(s, start, 1e5, step, step, step, step, step, step, step, step, step);
  const std::string center = c.Chance(0.7) ? "EARTH" : c.Of<const char*>({"MOON", "SUN"});
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "center_object", center);
  for (const char* k : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "AIR_DRAG", "THIRD_BODY_GRAVITY"}) s.Set("sample_satellite/disturbance.ini", k, "calculation", "DISABLE");
  std::vector<std::string> names = {"EARTH", "SUN", "MOON"};
  for (const char* extra : {"MERCURY", "VENUS", "MARS", "JUPITER"})
    if (c.Bool()) names.push_back(extra);
  for (size_t i = names.size(); i-- > 1;) std::swap(names[i], names[c.Int(0, (int64_t)i)]);
  const std::string em = c.Of<const char*>({"IDLE", "SIMPLE", "FULL", "OTHER"}), mm = c.Of<const char*>({"IDLE", "SIMPLE", "IAU_MOON", "OTHER"});
  const std::string S1 = "CELESTIAL_INFORMATION";
  s.Set(s.kBase, S1, "number_of_selected_body", (int)names.size());
  for (size_t i = 0; i < names.size(); i++) {
    s.Set(s.kBase, S1, "selected_body_name(" + std::to_string(i) + ")", names[i]);
    s.Set(s.kBase, S1, "rotation_mode(" + std::to_string(i) + ")", names[i] == "EARTH" ? em : names[i] == "MOON" ? mm : c.Of<const char*>({"DISABLE", "FULL", "SIMPLE", "IAU_MOON"}));
  }
  c.Note(start, " step ", step, " earth ", em, " moon ", mm, " first ", names[0], " centre ", center);
  mission::Mission m(s);
  m.Initialize();
  const M3 I = ref::Rz(0);
  for (int k = 0; k < 4; k++) {
    m.Step();
    const auto& cel = m.Env().GetCelestialInformation();
    const double jd = m.Time().GetCurrentTime_jd(), et = m.Time().GetCurrentEphemerisTime();
    M3 teme;
    const M3 full = Full(jd, &teme);
    NearM(c, R(cel.GetEarthRotation().GetDcmJ2000ToEcef()), em == "FULL" ? full : em == "SIMPLE" ? teme : I, 3e-8, "configured-earth", em);
    const auto e = fake::BodyState(399, et), b = fake::BodyState(301, et);
    const M3 moon = R(cel.GetMoonRotation().GetDcmJ2000ToMcmf());
    ProperRotation(c, moon, 1e-11, "proper-rotation");
    if (mm == "SIMPLE") {
      NearM(c, moon, MoonSimple({b[0] - e[0], b[1] - e[1], b[2] - e[2]}, {b[3] - e[3], b[4] - e[4], b[5] - e[5]}), 1e-9, "configured-moon", mm);
    } else if (mm == "IAU_MOON") {
      const auto x = fake::MoonRot(et);
      NearM(c, moon, {V3{x[0], x[1], x[2]}, V3{x[3], x[4], x[5]}, V3{x[6], x[7], x[8]}}, 1e-12, "configured-moon", mm);
    } else {
      NearM(c, moon, I, 0, "configured-moon", mm);
    }
    // the spacecraft's Earth-fixed position uses it
    const auto& o = m.Sc().Dyn().GetOrbit();
    Near3(c, R(o.GetPosition_ecef_m()), R(cel.GetEarthRotation().GetDcmJ2000ToEcef()) * R(o.GetPosition_i_m()), 1e-3, 1e-9, "earth-fixed-position");
  }
  c.NonTrivial(em == "FULL" || em == "SIMPLE" || mm == "SIMPLE" || mm == "IAU_MOON");
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E02", "an epoch; a moving Moon; a configured rotation other than none",
                   {{"earth", Earth, 40000, 1000000, 500}, {"moon", Moon, 20000, 500000, 1000}, {"configured", Configured, 300, 5000, 10, 60}});
}
