// link: sim
#include <environment/global/celestial_information.hpp>
#include <environment/local/local_environment.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
using pbt::Case;
using namespace s2e_ref;
static constexpr double kC = 299792458.0, kFlux = 1366.0, kAu = 149597870700.0, kSigma = 5.670374419e-8;
// visible fraction of a disc of radius a behind a disc of radius b, centres c apart (flat discs), by integration along chords
static double Visible(double a, double b, double c) {
  if (c >= a + b) return 1;
  if (c + a <= b) return 0;
  if (c + b <= a) return 1 - b * b / (a * a);
  // overlap: integrate over x the smaller half chord; sun centre at 0, source at c
  const double lo = std::max(-a, c - b), hi = std::min(a, c + b), h = hi - lo;
  const int n = 4000;
  double s = 0;
  for (int i = 0; i < n; i++) {
    const double u = (1 - std::cos(M_PI * (i + 0.5) / n)) / 2, x = lo + h * u, w = M_PI / 2 * std::sin(M_PI * (i + 0.5) / n) * h / n;
    s += w * 2 * std::sqrt(std::max(0.0, std::min(a * a - x * x, b * b - (x - c) * (x - c))));
  }
  return 1 - s / (M_PI * a * a);
}
// rounding of the closed form: the separation is an arc cosine (area changes by at most the chord per radian) and so are the half angles of the
// lens, whose errors are scaled by the squared radii; positions held relative to a far centre are rounded by the angle offset
static double Rounding(double a, double b, double c, double offset = 0) {
  if (c >= (a + b) * (1 + 1e-6) + 1e-7) return 0;
  const double x = (c * c + a * a - b * b) / (2 * std::max(c, 1e-12)), y = std::sqrt(std::max(0.0, a * a - x * x)), ec = std::min(5e-8, 1e-15 / std::max(c, 1e-15)) + offset;
  auto half = [&](double r) { return r * r * std::min(5e-8, 1e-15 * r / std::max(y, 1e-15)); };
  return (2 * std::min(a, b) * ec + half(a) + half(b)) / (M_PI * a * a) + 1e-7;
}
struct Src {
  int id;
  const char* name;
};
static const Src kSrc[] = {{301, "MOON"}, {399, "EARTH"}, {199, "MERCURY"}, {299, "VENUS"}};
struct Scene {
  std::unique_ptr<s2e::environment::CelestialInformation> g;
  std::unique_ptr<s2e::environment::LocalCelestialInformation> local;
};
// Everything is placed relative to the spacecraft; positions are forced into the ephemeris.
static void Geometry(Case& c) {
  mission::Quiet quiet;
  const double sun_r = c.Bool() ? 696000e3 : c.LogReal(1e7, 2e9), sun_d = std::max(c.Bool() ? kAu : c.LogReal(1e10, 1e13), 2 * sun_r);
  const int n = (int)c.Int(1, 3);
  int perm[4] = {0, 1, 2, 3};
  for (int i = 3; i > 0; i--) std::swap(perm[i], perm[c.Int(0, i)]);
  const V3 sun_dir = c.Dir();
  V3 side = ref::Unit(ref::Cross(sun_dir, std::fabs(sun_dir[0]) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}));
  const V3 sun = sun_d * sun_dir;
  std::map<int, V3> pos;
  std::map<int, double> rad;
  pos[10] = sun, rad[10] = sun_r;
  const double a = std::asin(sun_r / sun_d);
  std::string kind;
  for (int i = 0; i < n; i++) {
    const int id = kSrc[perm[i]].id;
    // apparent radius relative to the Sun's, separation relative to the contacts
    const double b = c.Chance(0.1) ? a : std::min(1.5, a * c.LogReal(0.05, i == 0 ? 300 : 3));
    double sep;
    const double in = std::fabs(a - b), out = a + b;
    switch (c.Int(0, 5)) {
      case 0: sep = c.Of<double>({0, 0.5, 1 - 1e-6, 1 - 1e-9, 1}) * in, kind += "inside "; break;
      case 1: sep = in * c.Of<double>({1 + 1e-9, 1 + 1e-6}), kind += "inner contact "; break;
      case 2: sep = out * c.Of<double>({1, 1 - 1e-9, 1 + 1e-9, 1 - 1e-6, 1 + 1e-6}), kind += "outer contact "; break;
      case 3: sep = c.Real(out, M_PI), kind += "clear "; break;
      default: sep = c.Real(in, out), kind += "partial ";
    }
    sep = std::min(sep, M_PI);
    side = ref::Rotate(ref::AxisAngle(sun_dir, c.Real(0, 2 * M_PI)), side);
    const V3 dir = std::cos(sep) * sun_dir + std::sin(sep) * side;
    const bool behind = c.Chance(0.1);
    const double dist = behind ? sun_d * c.Real(1.01, 3) : std::min(sun_d * 0.95, sun_d * c.LogReal(1e-5, 0.9));
    pos[id] = dist * dir, rad[id] = dist * std::sin(b);
    if (behind) kind += "behind ";
  }
  // centre: first source, or the Sun itself
  const bool heliocentric = c.Chance(0.2);
  const std::string center = heliocentric ? "SUN" : kSrc[perm[0]].name;
  const int center_id = heliocentric ? 10 : kSrc[perm[0]].id;
  const double k = 1e-3;
  fake::state_override = [&](int id, double, fake::State& st) {
    if (!pos.count(id)) return false;
    for (int i = 0; i < 3; i++) st[i] = pos[id][i] * k;
    return true;
  };
  fake::radii_override = [&](int id, std::array<double, 3>& r) {
    if (!rad.count(id)) return false;
    r = {rad[id] * k, rad[id] * k, rad[id] * k};
    return true;
  };
  int* ids = new int[n + 1];
  const int sun_at = (int)c.Int(0, n);
  for (int i = 0, j = 0; i <= n; i++) ids[i] = i == sun_at ? 10 : kSrc[perm[j++]].id;
  s2e::environment::CelestialInformation g("J2000", "NONE", center, n + 1, ids, std::vector<std::string>(n + 1, "IDLE"));
  s2e::environment::LocalCelestialInformation local(&g);
  s2e::environment::SimulationTime t(100, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/01/01 00:00:00.0", 0);
  g.UpdateAllObjectsInformation(t);
  local.UpdateAllObjectsInformation(S(-pos[center_id]), s2e::math::Vector<3>(0.0), S(Q4{0, 0, 0, 1}), s2e::math::Vector<3>(0.0));
  s2e::environment::SolarRadiationPressureEnvironment srp(&local);
  const int sun_listed = c.Chance(0.1) ? (int)c.Int(1, n) : -1;  // the Sun does not shadow itself, wherever it is listed
  for (int i = heliocentric ? 0 : 1; i <= n; i++) {
    if (i == sun_listed) srp.AddShadowSource("SUN");
    if (i < n) srp.AddShadowSource(kSrc[perm[i]].name);
  }
  srp.IsCalcEnabled = true;
  for (int twice = 0; twice < 2; twice++) srp.UpdateAllStates();
  double want = 1, slack = 1e-12;
  for (int i = 0; i < n; i++) {
    const int id = kSrc[perm[i]].id;
    const V3 p = pos[id];
    if (ref::Norm(p) >= sun_d) continue;
    const double b = std::asin(rad[id] / ref::Norm(p)), sep = ref::Angle(p, sun);
    want *= Visible(a, b, sep);
    slack += Rounding(a, b, sep, 1e-15 * ref::Norm(pos[center_id]) / ref::Norm(p));
  }
  const double got = srp.GetShadowCoefficient();
  c.Note(kind, " sources ", n, " centre ", center, " apparent sun ", a, " sun distance ", sun_d);
  c.Check(got >= 0 && got <= 1, "range", got);
  c.Near(got, want, slack, 0, "shadow", kind);
  const double p = kFlux / kC / ((sun_d / kAu) * (sun_d / kAu));
  c.Near(srp.GetPressureWithoutEclipse_Nm2(), p, 0, 1e-9, "pressure");
  c.Near(srp.GetPressure_N_m2(), p * got, 1e-30, 1e-9, "scaled-pressure");
  c.Near(srp.GetPowerDensity_W_m2(), p * got * kC, 1e-30, 1e-9, "power-density");
  c.Check(srp.GetIsEclipsed() == (got < 1), "eclipse-flag");
  if (want > 0.001 && want < 0.999) c.Label("partial");
  c.NonTrivial(want < 1);
  fake::state_override = nullptr, fake::radii_override = nullptr;
}
// In missions: bodies from the settings, albedo and infrared too
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  char start[64];
  snprintf(start, sizeof start, "%d/%d/%d %d:%d:0.0", (int)c.Int(1990, 2050), (int)c.Int(1, 12), (int)c.Int(1, 28), (int)c.Int(0, 23), (int)c.Int(0, 59));
  const int att = (int)c.Int(1, 3), orb = c.Bool() ? 1 : (int)c.Int(1, 3);
  mission::SetTime(s, start, 1000, 1, att, 1, orb, 1, 1, 1, 1, 1);
  const std::string le = "sample_satellite/local_environment.ini", sat = "sample_satellite/satellite.ini", P = "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", C1 = "CELESTIAL_INFORMATION";
  std::vector<Src> third = {kSrc[0], kSrc[2], kSrc[3]};
  for (size_t i = third.size(); i-- > 1;) std::swap(third[i], third[c.Int(0, (int64_t)i)]);
  third.resize(c.Int(0, 3));
  s.Set(s.kBase, C1, "number_of_selected_body", 5);
  const bool enabled = !c.Chance(0.1), albedo = !c.Chance(0.2), ir = !c.Chance(0.2);
  const double factor = c.Real(0, 1), hot = c.Real(200, 400), cold = c.Real(100, 300);
  s.Set(le, P, "calculation", enabled), s.Set(le, P, "number_of_third_shadow_source", (int)third.size());
  for (size_t i = 0; i < third.size(); i++) s.Set(le, P, "third_shadow_source_name(" + std::to_string(i) + ")", third[i].name);
  s.Set(le, "EARTH_ALBEDO", "calculation", albedo), s.Set(le, "EARTH_ALBEDO", "earth_albedo_factor", factor);
  s.Set(le, "EARTH_INFRARED", "calculation", ir), s.Set(le, "EARTH_INFRARED", "earth_infrared_temperature_hot_side_K", hot), s.Set(le, "EARTH_INFRARED", "earth_infrared_temperature_cold_side_K", cold);
  mission::Mission* made = nullptr;
  // where is the Sun at the start
  int y, mo, d, hh, mi;
  sscanf(start, "%d/%d/%d %d:%d", &y, &mo, &d, &hh, &mi);
  const double jd = 367.0 * y - std::floor(7 * (y + std::floor((mo + 9) / 12.0)) * 0.25) + std::floor(275 * mo / 9.0) + d + 1721013.5 + (hh + mi / 60.0) / 24;
  const double et = (jd - 2451545.0) * 86400 + fake::kTdbMinusUtc;
  auto rel = [&](int id, double at) {
    const auto a = fake::BodyState(id, at), b = fake::BodyState(399, at);
    return V3{(a[0] - b[0]) * 1e3, (a[1] - b[1]) * 1e3, (a[2] - b[2]) * 1e3};
  };
  const V3 sun = rel(10, et);
  // now and then a third body is placed in front of the Sun
  int moved = -1;
  V3 moved_at{};
  // a position around the shadow's edge, or anywhere
  const double r = c.Bool() ? c.Real(6.7e6, 1e7) : c.LogReal(6.7e6, 4e8);
  double ang = c.Real(0, M_PI);
  if (c.Bool()) ang = M_PI - std::asin(6371e3 / r) + c.Real(-0.006, 0.006);
  const V3 axis = ref::Unit(ref::Cross(sun, c.Bool() ? V3{0, 0, 1} : V3{1, 0.2, 0.1}));
  const V3 pos = r * ref::Rotate(ref::AxisAngle(axis, ang), ref::Unit(sun));
  if (!third.empty() && c.Bool()) {
    const Src& b = c.From(third);
    moved = b.id;
    const double rb = fake::Radii(b.id)[0] * 1e3, ap = 0.00465 * c.LogReal(0.2, 3), dist = rb / std::sin(ap);
    const V3 to_sun = ref::Unit(sun - pos), off = ref::Unit(ref::Cross(to_sun, V3{0.3, 0.8, -0.4}));
    const double sep = c.Real(0, 0.00465 + ap);
    moved_at = pos + dist * (std::cos(sep) * to_sun + std::sin(sep) * off);
  }
  fake::state_override = [&](int id, double at, fake::State& st) {
    if (id != moved) return false;
    const auto e = fake::BodyState(399, at);
    for (int i = 0; i < 3; i++) st[i] = e[i] + moved_at[i] / 1e3;
    return true;
  };
  const V3 vel = std::sqrt(3.986e14 / r) * ref::Unit(ref::Cross(pos, axis));
  s.SetVec(sat, "ORBIT", "initial_position_i_m", pos), s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", vel);
  c.Note(start, " position ", Str(pos), " third bodies ", third.size(), " moved ", moved, " enabled ", enabled, albedo, ir);
  mission::Mission m(s);
  made = &m;
  (void)made;
  m.Initialize();
  for (int k = 0; k < (orb == 1 ? 4 : 6); k++) {
    const V3 sc = R(m.Sc().Dyn().GetOrbit().GetPosition_i_m());
    auto all_values = [&] {
      const auto& l = m.Sc().Local();
      return std::vector<double>{l.GetSolarRadiationPressure().GetShadowCoefficient(), l.GetSolarRadiationPressure().GetPressure_N_m2(), l.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2(), l.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2()};
    };
    const auto before = all_values();
    m.Step();
    if (!m.Time().GetOrbitPropagateFlag()) {
      c.Check(all_values() == before, "kept-between-updates", "step ", k);
      continue;
    }
    const double now = m.Time().GetCurrentEphemerisTime();
    const auto& L = m.Sc().Local();
    const V3 to_sun = rel(10, now) - sc;
    const double D = ref::Norm(to_sun), a = std::asin(696000e3 / D);
    double want = 1, slack = 1e-6;
    std::vector<Src> all = third;
    all.push_back({399, "EARTH"});
    for (auto& b : all) {
      const auto rr = fake::Radii(b.id);
      const V3 p = rel(b.id, now) - sc;
      if (ref::Norm(p) >= D) continue;
      const double bb = std::asin(1e3 * std::cbrt(rr[0] * rr[1] * rr[2]) / ref::Norm(p)), sep = ref::Angle(p, to_sun);
      want *= Visible(a, bb, sep);
      slack += Rounding(a, bb, sep);
    }
    const double flux = kFlux / ((D / kAu) * (D / kAu));
    const auto& e = L.GetSolarRadiationPressure();
    if (!enabled) {
      c.Near(e.GetShadowCoefficient(), 1, 0, 0, "disabled");
      continue;
    }
    c.Near(e.GetShadowCoefficient(), want, slack, 0, "mission-shadow");
    const double got = e.GetShadowCoefficient();
    c.Near(e.GetPressure_N_m2(), flux / kC * got, 1e-20, 1e-9, "mission-pressure");
    c.Near(L.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2(), albedo ? flux * got * factor : 0, 1e-12, 1e-9, "albedo");
    c.Near(L.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2(), ir ? kSigma * std::pow(got < 1 ? cold : hot, 4) : 0, 0, 1e-9, "infrared");
    c.NonTrivial(want < 1);
  }
  fake::state_override = nullptr;
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E03", "some of the Sun is hidden",
                   {{"geometry", Geometry, 30000, 600000, 200}, {"mission", Mission, 1000, 10000, 5, 60}});
}
