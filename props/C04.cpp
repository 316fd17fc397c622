// link: sim
#include <components/ports/power_port.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <memory>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace co = s2e::components;
using mission::Num;
static const double kDeg = M_PI / 180, kAu = 149597870700.0, kEarth = 6378136.6;
template <class T>
static std::string List(const std::string& key, const T& v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += key + "(" + std::to_string(i) + ")=" + Num(v[i]) + "\n";
  return s;
}
static const char* kPower = "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
static void Seed(long s) { s2e::randomization::global_randomization.SetSeed(s); }
// a direction at the given angle from an axis
static V3 Aside(Case& c, const V3& axis, double angle) {
  V3 e = ref::Cross(axis, c.Dir());
  while (ref::Norm(e) < 1e-3) e = ref::Cross(axis, V3{1, 0, 0}), e = ref::Norm(e) < 1e-3 ? ref::Cross(axis, V3{0, 1, 0}) : e;
  return std::cos(angle) * axis + std::sin(angle) * ref::Unit(e);
}
// true, false, or undecided within the tolerance
static int Less(double a, double b, double tol) { return std::fabs(a - b) <= tol ? -1 : a < b; }
static int And(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
static int Or(int a, int b) { return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0; }
// ---------------------------------------------------------------- sun sensor
static std::string SunIni(int id, int p, const Q4& q, double fov_deg, double white, double bias, double percent) {
  return "[SUN_SENSOR_" + std::to_string(id) + "]\nprescaler=" + std::to_string(p) + "\n" + List("quaternion_b2c", q, 4) + "field_of_view_deg=" + Num(fov_deg) + "\nwhite_noise_standard_deviation_deg=" + Num(white) +
         "\nbias_standard_deviation_deg=" + Num(bias) + "\nintensity_lower_threshold_percent=" + Num(percent) + "\n" + kPower;
}
static void SunSensor(Case& c) {
  mission::Quiet quiet;
  Rig rig("IDLE", "2020/01/01 00:00:00.0", {399, 10, 301});
  s2e::environment::SolarRadiationPressureEnvironment srp(&rig.local);
  srp.IsCalcEnabled = true;
  const bool eclipses = c.Bool();
  if (eclipses) srp.AddShadowSource("EARTH");
  const int id = (int)c.Int(0, 12), p = (int)c.Int(0, 3), step = std::max(1, p);
  const Q4 q = c.Int(0, 4) ? c.Quat() : Q4{0, 0, 0, 1};
  const double fov = c.Int(0, 3) ? c.Real(1, 89) : c.Of<double>({90, 120, 180, 55}), percent = c.Int(0, 2) ? c.Real(0.1, 99) : c.Of<double>({0.1, 30, 120});
  const std::string f = c.TempDir() + "/s.ini";
  mission::Spit(f, SunIni(id, p, q, fov, 0, 0, percent));
  const bool powered = c.Bool();
  co::PowerPort port(1, 10.0);
  co::SunSensor sensor = powered ? co::InitSunSensor(&rig.clock, &port, id, f, &srp, &rig.local) : co::InitSunSensor(&rig.clock, id, f, &srp, &rig.local);
  if (powered) port.SetVoltage_V(5);
  c.Note("sun sensor q ", Str(q), " field of view ", fov, " threshold ", percent, " prescaler ", p, powered ? " powered" : "", eclipses ? " with eclipses" : "");
  c.Check(!sensor.GetSunDetectedFlag(), "initial", "sun detected before the first tick");
  bool on = true;
  V3 want{0, 0, 0}, kept{0, 0, 0};
  for (int n = (int)c.Int(1, 12), k = 0; k < n; k++) {
    rig.body[10] = kAu * c.Of<double>({0.9833, 1, 1.0167}) * c.Dir();
    const V3 su = ref::Unit(rig.body[10]);
    V3 r = c.LogReal(6.6e6, 4e7) * c.Dir();
    if (eclipses && c.Chance(0.3)) r = c.Real(6.6e6, 9e6) * Aside(c, -1 * su, c.Real(0, 1.3));
    // attitude that puts the Sun at a chosen angle from the sight
    const double angle = c.Int(0, 3) == 0 ? fov * kDeg + c.Signed(1e-9, 0.1) : c.Int(0, 5) == 0 ? 0 : c.Int(0, 1) ? c.Real(0, fov * kDeg) : c.Real(0, M_PI);
    const V3 goal = Aside(c, V3{0, 0, 1}, std::min(M_PI, std::max(0.0, angle)));  // in the component frame
    const V3 dir = ref::Unit(rig.body[10] - r);
    const V3 gb = ref::Rotate(q, goal);  // in the body frame
    // q_i2b with ToFrame(q_i2b, dir) = gb
    const V3 ax = ref::Cross(gb, dir);
    Q4 att = ref::Norm(ax) < 1e-9 ? (ref::Dot(gb, dir) > 0 ? Q4{0, 0, 0, 1} : ref::AxisAngle(ref::Unit(std::fabs(dir[0]) < 0.7 ? ref::Cross(dir, V3{1, 0, 0}) : ref::Cross(dir, V3{0, 1, 0})), M_PI)) : ref::AxisAngle(ref::Unit(ax), ref::Angle(gb, dir));
    rig.Update(r, V3{0, 0, 0}, att);
    srp.UpdateAllStates();
    if (powered && c.Chance(0.2)) on = c.Int(0, 2) > 0, port.SetVoltage_V(on ? c.Real(3.3, 12) : c.Real(0, 3.2));
    rig.clock.TickToComponents();
    const V3 got = R(sensor.GetMeasuredSunDirection_c());
    const std::string at = "tick " + std::to_string(k);
    if (k % step || !on) {
      Near3(c, got, kept, 0, 0, "held", at);
      continue;
    }
    const V3 d = ref::ToFrame(q, ref::ToFrame(att, dir));
    const double off = ref::Angle(d, V3{0, 0, 1}), power = srp.GetPowerDensity_W_m2(), light = power * std::max(0.0, std::cos(off)), least = percent / 100 * srp.GetSolarConstant_W_m2();
    c.Near(sensor.GetSolarIlluminance_W_m2(), light, 1e-7 * power, 1e-9, "illuminance", at);
    const int see = And(Less(off, fov * kDeg, 1e-7), Less(least, light, 1e-7 * least));
    const bool saw = sensor.GetSunDetectedFlag();
    if (see >= 0) c.Check(saw == see, "detection", at, ": ", saw ? "" : "not ", "detected at ", off / kDeg, " of ", fov, " deg, light ", light, " of ", least);
    if (see == 1 && power < 0.999 * srp.GetSolarConstant_W_m2()) c.Label("penumbra or distance");
    if (see == 0 && off < fov * kDeg) c.Label("too dark");
    if (saw) {
      Near3(c, got, d, 1e-9 / std::max(1e-3, d[2]), 0, "direction", at);
      Near3(c, R(sensor.GetMeasuredSunDirection_b()), ref::ToFrame(att, dir), 1e-9 / std::max(1e-3, d[2]), 0, "direction-body", at);
      c.Near(std::tan(sensor.GetSunAngleAlpha_rad()), d[0] / d[2], 1e-9, 1e-7 / std::max(1e-3, d[2]), "alpha", at);
      c.Near(std::tan(sensor.GetSunAngleBeta_rad()), d[1] / d[2], 1e-9, 1e-7 / std::max(1e-3, d[2]), "beta", at);
      c.NonTrivial();
    } else {
      Near3(c, got, {0, 0, 0}, 0, 0, "no-direction", at);
      c.Check(sensor.GetSunAngleAlpha_rad() == 0 && sensor.GetSunAngleBeta_rad() == 0, "no-direction", at, ": angles");
    }
    kept = got;
    auto log = rig::Numbers(rig::LogValue(sensor));
    c.Check(log.size() == 4 && log[3] == (saw ? 1 : 0), "log", "flag");
    for (int i = 0; i < 3; i++) c.Near(log[i], got[i], 1e-12, 2e-5, "log", at);
  }
}
// ---------------------------------------------------------------- star sensor
struct Star {
  int id = 1, prescaler = 1;
  Q4 q{0, 0, 0, 1};
  double orth = 0, sight = 0, delay = 0, interval = 0, sun = 10, earth = 10, moon = 10, rate = 10;
  std::string Ini() const {
    return "[STAR_SENSOR_" + std::to_string(id) + "]\nprescaler=" + std::to_string(prescaler) + "\n" + List("quaternion_b2c", q, 4) + "standard_deviation_orthogonal_direction_rad=" + Num(orth) +
           "\nstandard_deviation_sight_direction_rad=" + Num(sight) + "\noutput_delay_s=" + Num(delay) + "\noutput_interval_s=" + Num(interval) + "\nsun_exclusion_angle_deg=" + Num(sun) +
           "\nearth_exclusion_angle_deg=" + Num(earth) + "\nmoon_exclusion_angle_deg=" + Num(moon) + "\nangular_rate_limit_deg_s=" + Num(rate) + "\n" + kPower;
  }
};
struct Sky {
  mission::Settings s;
  mission::Mission m;
  std::map<int, V3> body;
  explicit Sky(Case& c) : s(c), m(s) {
    m.Initialize();
    fake::state_override = [this](int id, double, fake::State& st) {
      auto it = body.find(id);
      if (it == body.end()) return false;
      for (int i = 0; i < 3; i++) st[i] = it->second[i] / 1e3, st[3 + i] = 0;
      return true;
    };
  }
  ~Sky() { fake::state_override = nullptr; }
  // positions are relative to the Earth
  void Put(const V3& r, const Q4& q, const V3& w) {
    const_cast<s2e::environment::CelestialInformation&>(m.Env().GetCelestialInformation()).UpdateAllObjectsInformation(m.Time());
    auto& dyn = m.Sc(0).Dyn();
    dyn.SetAttitude().SetQuaternion_i2b(S(q)), dyn.SetAttitude().SetAngularVelocity_b_rad_s(S(w));
    const_cast<s2e::environment::LocalCelestialInformation&>(m.Sc(0).Local().GetCelestialInformation()).UpdateAllObjectsInformation(S(r), s2e::math::Vector<3>(0.0), S(q), S(w));
  }
};
static void StarSensor(Case& c) {
  mission::Quiet quiet;
  Sky sky(c);
  const std::string f = c.TempDir() + "/s.ini";
  for (int round = (int)c.Int(1, 6); round-- > 0;) {
    s2e::environment::ClockGenerator clock;
    Star t;
    t.id = (int)c.Int(0, 12), t.prescaler = (int)c.Int(0, 3), t.q = c.Int(0, 4) ? c.Quat() : Q4{0, 0, 0, 1};
    const double step = c.Of<double>({0.0625, 0.25, 1, 4}), dt = step * std::max(1, t.prescaler);
    const int nd = (int)c.Int(0, 8), ni = (int)c.Int(0, 4);
    t.delay = c.Bool() && std::max(1, t.prescaler) != 3 ? nd * dt : (nd + c.Real(0.1, 0.9)) * dt;
    t.interval = c.Bool() && std::max(1, t.prescaler) != 3 ? ni * dt : (ni + c.Real(0.1, 0.9)) * dt;
    const int delay = std::max(1, nd), interval = std::max(1, ni);
    t.sun = c.Real(0, 60), t.earth = c.Real(0, 40), t.moon = c.Real(0, 30), t.rate = c.LogReal(0.01, 10);
    mission::Spit(f, t.Ini());
    const bool powered = c.Bool();
    co::PowerPort port(1, 10.0);
    auto& dyn = sky.m.Sc(0).Dyn();
    auto& local = sky.m.Sc(0).Local();
    co::StarSensor sensor = powered ? co::InitStarSensor(&clock, &port, t.id, f, step, &dyn, &local) : co::InitStarSensor(&clock, t.id, f, step, &dyn, &local);
    if (powered) port.SetVoltage_V(5);
    c.Note("star sensor q ", Str(t.q), " step ", dt, " delay ", delay, " interval ", interval, " exclusion ", t.sun, " ", t.earth, " ", t.moon, " rate ", t.rate, " prescaler ", t.prescaler, powered ? " powered" : "");
    c.Check(sensor.GetErrorFlag(), "initial", "no error before the first measurement");
    std::vector<Q4> truth;
    Q4 now{0, 0, 0, 1};
    bool on = true, flag = true;
    const V3 sight{1, 0, 0};
    for (int n = (int)c.Int(1, 30), k = 0; k < n; k++) {
      const Q4 att = c.Quat();
      const V3 boresight = ref::Rotate(att, ref::Rotate(t.q, sight));  // inertial
      const double d = c.Int(0, 2) ? c.Real(6.5e6, 9e6) : c.LogReal(6.4e6, 4e8);
      const double size = std::asin(kEarth / d);
      auto aim = [&](double limit) {
        const double a = c.Int(0, 2) == 0 ? limit + c.Signed(1e-9, 0.05) : c.Int(0, 8) == 0 ? 0 : c.Int(0, 2) ? c.Real(limit, M_PI) : c.Real(0, M_PI);
        return Aside(c, boresight, std::min(M_PI, std::max(0.0, a)));
      };
      const V3 r = -d * aim(t.earth * kDeg + size);
      sky.body[399] = {0, 0, 0};
      sky.body[10] = r + kAu * aim(t.sun * kDeg);
      sky.body[301] = r + 3.8e8 * aim(t.moon * kDeg);
      const double w = c.Int(0, 3) ? t.rate * kDeg * c.Real(0, 1) : t.rate * kDeg * c.Real(0.9, 1.2);
      sky.Put(r, att, w * c.Dir());
      if (powered && c.Chance(0.1)) on = c.Int(0, 2) > 0, port.SetVoltage_V(on ? c.Real(3.3, 12) : c.Real(0, 3.2));
      clock.TickToComponents();
      const std::string at = "tick " + std::to_string(k);
      if (k % std::max(1, t.prescaler) == 0 && on) {
        truth.push_back(ref::Mul(att, t.q));
        const size_t count = truth.size() - 1;
        if (count % interval == 0) now = count >= (size_t)delay ? truth[count - delay] : Q4{0, 0, 0, 1};
        if (count >= (size_t)delay) c.NonTrivial();
        const double es = ref::Angle(-1 * r, boresight), ss = ref::Angle(sky.body[10] - r, boresight), ms = ref::Angle(sky.body[301] - r, boresight);
        const int bad = Or(Or(Less(es, t.earth * kDeg + size, 1e-7), Less(ss, t.sun * kDeg, 1e-7)), Or(Less(ms, t.moon * kDeg, 1e-7), Less(t.rate * kDeg, w, 1e-12)));
        flag = sensor.GetErrorFlag();
        if (bad >= 0)
          c.Check(flag == bad, "error-flag", at, ": ", flag ? "error" : "no error", " with Sun at ", ss / kDeg, " of ", t.sun, ", Earth's edge at ", (es - size) / kDeg, " of ", t.earth, ", Moon at ", ms / kDeg, " of ", t.moon, ", rate ",
                  w / kDeg, " of ", t.rate);
        c.Label(bad == 1 ? "error" : bad == 0 ? "clear" : "edge");
      } else {
        c.Check(flag == sensor.GetErrorFlag(), "held", at, ": flag");
      }
      NearAttitude(c, R(sensor.GetMeasuredQuaternion_i2c()), now, 1e-9, "quaternion", at);
      auto log = rig::Numbers(rig::LogValue(sensor));
      c.Check(log.size() == 5 && log[4] == (flag ? 1 : 0), "log", "flag");
      for (int i = 0; i < 4; i++) c.Near(log[i], R(sensor.GetMeasuredQuaternion_i2c())[i], 1e-12, 2e-5, "log", at);
    }
  }
}
// ---------------------------------------------------------------- errors
struct Stat {
  double n = 0, s = 0, ss = 0;
  void Add(double x) { n++, s += x, ss += x * x; }
  double Mean() const { return s / n; }
  double Std() const { return std::sqrt(std::max(0.0, ss / n - Mean() * Mean())); }
};
static void SunErrors(Case& c) {
  mission::Quiet quiet;
  const long seed = c.Int(1, 100000000);
  const int n = 1000;
  Rig rig;
  s2e::environment::SolarRadiationPressureEnvironment srp(&rig.local);
  srp.IsCalcEnabled = true;
  rig.body[10] = {kAu, 0, 0};
  const double white[2] = {c.LogReal(0.01, 1), c.LogReal(0.01, 1)}, bias[2] = {c.LogReal(0.01, 1), c.LogReal(0.01, 1)};
  const V3 d = Aside(c, V3{0, 0, 1}, c.Real(0, 0.7));
  const V3 ax = ref::Cross(d, V3{1, 0, 0});
  rig.Update({0, 7e6, 0}, {0, 0, 0}, ref::AxisAngle(ref::Unit(ax), ref::Angle(d, V3{1, 0, 0})));
  srp.UpdateAllStates();
  const V3 t = ref::ToFrame(R(rig.attitude.GetQuaternion_i2b()), ref::Unit(rig.body[10] - V3{0, 7e6, 0}));
  const double a0 = std::atan2(t[0], t[2]), b0 = std::atan2(t[1], t[2]);
  const std::string f = c.TempDir() + "/s";
  c.Note("seed ", seed, " white ", white[0], " ", white[1], " bias ", bias[0], " ", bias[1], " Sun ", Str(t));
  std::vector<std::vector<double>> runs;
  for (int run = 0; run < 2; run++) {
    Seed(seed);
    s2e::environment::ClockGenerator clock;
    std::vector<std::unique_ptr<co::SunSensor>> s;
    for (int i = 0; i < 2; i++) {
      mission::Spit(f, SunIni(1, 1, {0, 0, 0, 1}, 80, white[i], bias[i], 1));
      s.emplace_back(new co::SunSensor(co::InitSunSensor(&clock, 1, f, &srp, &rig.local)));
    }
    std::vector<double> all;
    for (int k = 0; k < (run ? 40 : n); k++) {
      clock.TickToComponents();
      for (auto& x : s) all.push_back(x->GetSunAngleAlpha_rad() - a0), all.push_back(x->GetSunAngleBeta_rad() - b0);
    }
    runs.push_back(all);
  }
  for (size_t i = 0; i < runs[1].size(); i++) c.Check(runs[1][i] == runs[0][i], "repeatable", "the same seed gives another noise at ", i);
  for (int i = 0; i < 4; i++) {
    Stat st;
    for (int k = 0; k < n; k++) st.Add(runs[0][4 * k + i]);
    const double w = white[i / 2] * kDeg, b = bias[i / 2] * kDeg;
    c.Near(st.Std(), w, 7 * w / std::sqrt(2.0 * n), 0, "white-noise", "channel " + std::to_string(i));
    c.Near(st.Mean(), 0, 7 * b + 7 * w / std::sqrt(n), 0, "bias", "channel " + std::to_string(i));
    c.Check(std::fabs(st.Mean()) > 1e-9 * b, "bias", "no bias in channel ", i);
    for (int j = 0; j < i; j++) {
      Stat o;
      for (int k = 0; k < n; k++) o.Add(runs[0][4 * k + j]);
      double cor = 0;
      for (int k = 0; k < n; k++) cor += (runs[0][4 * k + i] - st.Mean()) * (runs[0][4 * k + j] - o.Mean()) / (n * st.Std() * o.Std());
      c.Near(cor, 0, 7 / std::sqrt(n), 0, "independent", "channels " + std::to_string(j) + " and " + std::to_string(i));
    }
  }
  c.NonTrivial();
}
// the biases over many sensors have the configured deviation
static void SunBias(Case& c) {
  mission::Quiet quiet;
  const long seed = c.Int(1, 100000000);
  const int n = 300;
  Rig rig;
  s2e::environment::SolarRadiationPressureEnvironment srp(&rig.local);
  srp.IsCalcEnabled = true;
  rig.body[10] = {0, 0, kAu};
  rig.Update({0, 0, 7e6}, {0, 0, 0}, {0, 0, 0, 1});
  srp.UpdateAllStates();
  const double bias = c.LogReal(0.01, 1);
  const std::string f = c.TempDir() + "/s";
  mission::Spit(f, SunIni(1, 1, {0, 0, 0, 1}, 80, 0, bias, 1));
  Seed(seed);
  c.Note("seed ", seed, " bias ", bias);
  Stat a, b;
  double both = 0;
  for (int i = 0; i < n; i++) {
    s2e::environment::ClockGenerator clock;
    co::SunSensor s = co::InitSunSensor(&clock, 1, f, &srp, &rig.local);
    clock.TickToComponents();
    const double x = s.GetSunAngleAlpha_rad();
    clock.TickToComponents();
    c.Check(s.GetSunAngleAlpha_rad() == x, "bias-constant", "bias changes");
    a.Add(x), b.Add(s.GetSunAngleBeta_rad());
    both += x * s.GetSunAngleBeta_rad() / n;
  }
  c.Near(both / (a.Std() * b.Std()), 0, 7 / std::sqrt(n), 0, "bias-independent", "correlation of the two biases");
  for (auto* s : {&a, &b}) c.Near(s->Mean(), 0, 7 * bias * kDeg / std::sqrt(n), 0, "bias-mean"), c.Near(s->Std(), bias * kDeg, 7 * bias * kDeg / std::sqrt(2.0 * n), 0, "bias-deviation");
  c.NonTrivial();
}
// near the edge of the field of view an error never throws the measured direction to the other side
static void SunEdge(Case& c) {
  mission::Quiet quiet;
  Seed(c.Int(1, 100000000));
  Rig rig;
  s2e::environment::SolarRadiationPressureEnvironment srp(&rig.local);
  srp.IsCalcEnabled = true;
  rig.body[10] = {0, 0, kAu};
  const V3 sc{0, 7e6, 0}, sun = ref::Unit(rig.body[10] - sc);
  const double white = c.LogReal(0.01, 3), bias = c.Bool() ? 0 : c.LogReal(0.01, 1);
  const std::string f = c.TempDir() + "/s";
  mission::Spit(f, SunIni(1, 1, {0, 0, 0, 1}, 90, white, bias, 0));
  s2e::environment::ClockGenerator clock;
  co::SunSensor s = co::InitSunSensor(&clock, 1, f, &srp, &rig.local);
  c.Note("white ", white, " bias ", bias);
  const double reach = (7 * white + 7 * bias) * kDeg;
  for (int k = 0; k < 12; k++) {
    // the Sun at an angle just within 90 degrees of the boresight, towards an axis or between the axes
    const double angle = M_PI / 2 - (c.Bool() ? c.LogReal(1e-4, 0.05) : c.Real(0, 0.3)), towards = c.Bool() ? c.Int(0, 3) * M_PI / 2 + c.Real(-0.01, 0.01) : c.Real(-M_PI, M_PI);
    const V3 t{std::sin(angle) * std::cos(towards), std::sin(angle) * std::sin(towards), std::cos(angle)};
    const V3 ax = ref::Cross(t, sun);
    rig.Update(sc, {0, 0, 0}, ref::AxisAngle(ref::Unit(ax), ref::Angle(t, sun)));
    srp.UpdateAllStates();
    const V3 seen = ref::ToFrame(R(rig.attitude.GetQuaternion_i2b()), sun);
    clock.TickToComponents();
    if (!s.GetSunDetectedFlag()) continue;
    c.NonTrivial();
    const double a = s.GetSunAngleAlpha_rad(), b = s.GetSunAngleBeta_rad(), a0 = std::atan2(seen[0], seen[2]), b0 = std::atan2(seen[1], seen[2]);
    c.Check(std::fabs(a) <= M_PI / 2 + 1e-15 && std::fabs(b) <= M_PI / 2 + 1e-15, "edge-range", "angles ", a, " ", b);
    c.Near(a, a0, reach + 1e-9, 0, "edge-error", "alpha"), c.Near(b, b0, reach + 1e-9, 0, "edge-error", "beta");
    const V3 d = R(s.GetMeasuredSunDirection_c()), want = ref::Unit(V3{std::tan(a), std::tan(b), 1});
    if (std::fabs(a) < M_PI / 2 - 1e-6 && std::fabs(b) < M_PI / 2 - 1e-6)
      for (int i = 0; i < 3; i++) c.Near(d[i], want[i], 1e-9, 0, "edge-direction", "axis " + std::to_string(i));
  }
}
static void StarErrors(Case& c) {
  mission::Quiet quiet;
  const long seed = c.Int(1, 100000000);
  const int n = 1000;
  Sky sky(c);
  sky.body[399] = {0, 0, 0}, sky.body[10] = {kAu, 0, 0}, sky.body[301] = {0, 3.8e8, 0};
  const Q4 att = c.Quat();
  sky.Put({7e6, 0, 0}, att, {0, 0, 0});
  Star t[2];
  const std::string f = c.TempDir() + "/s";
  for (auto& x : t) x.q = c.Quat(), x.orth = c.LogReal(1e-6, 1e-2), x.sight = c.LogReal(1e-6, 1e-2), x.interval = 1, x.delay = 0, c.Note("across ", x.orth, " about ", x.sight);
  c.Note("seed ", seed);
  std::vector<V3> e[2][2];
  for (int run = 0; run < 2; run++) {
    Seed(seed);
    s2e::environment::ClockGenerator clock;
    std::vector<std::unique_ptr<co::StarSensor>> s;
    for (auto& x : t) mission::Spit(f, x.Ini()), s.emplace_back(new co::StarSensor(co::InitStarSensor(&clock, 1, f, 1, &sky.m.Sc(0).Dyn(), &sky.m.Sc(0).Local())));
    clock.TickToComponents();
    for (int k = 0; k < (run ? 40 : n); k++) {
      clock.TickToComponents();
      for (int i = 0; i < 2; i++) {
        Q4 d = ref::Mul(ref::Conj(ref::Mul(att, t[i].q)), R(s[i]->GetMeasuredQuaternion_i2c()));
        if (d[3] < 0)
          for (double& x : d) x = -x;
        const V3 v{d[0], d[1], d[2]};
        const double vn = ref::Norm(v);
        e[run][i].push_back(vn > 0 ? (2 * std::atan2(vn, d[3]) / vn) * v : v);  // in the component frame
      }
    }
  }
  for (int i = 0; i < 2; i++) {
    for (size_t k = 0; k < e[1][i].size(); k++) Near3(c, e[1][i][k], e[0][i][k], 0, 0, "repeatable", "the same seed");
    Stat x, y, z;
    for (auto& v : e[0][i]) x.Add(v[0]), y.Add(v[1]), z.Add(v[2]);
    const double o = t[i].orth, s = t[i].sight, mix = 0.6 * o * s + 1e-8;  // the two rotations do not quite commute
    c.Near(x.Mean(), 0, 7 * s / std::sqrt(n) + mix, 0, "sight-noise", "mean"), c.Near(x.Std(), s, 7 * s / std::sqrt(2.0 * n) + mix, 0, "sight-noise", "deviation");
    for (auto* w : {&y, &z}) {
      c.Near(w->Mean(), 0, 7 * o * std::sqrt(0.5 / n) + mix, 0, "orthogonal-noise", "mean");
      c.Near(w->Std() * w->Std(), 0.5 * o * o, 7 * o * o * std::sqrt(0.875 / n) + mix * o, 0, "orthogonal-noise", "deviation");
    }
  }
  double cor = 0;
  for (int k = 0; k < n; k++) cor += e[0][0][k][0] * e[0][1][k][0] / (n * t[0].sight * t[1].sight);
  c.Near(cor, 0, 7 / std::sqrt(n), 0, "independent", "two star sensors");
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C04", "a Sun direction reported, or a star sensor quaternion reported after its delay",
                   {{"sun sensor", SunSensor, 6000, 150000, 50, 20},
                    {"star sensor", StarSensor, 600, 12000, 10, 30},
                    {"sun sensor noise", SunErrors, 100, 2000, 5, 60},
                    {"sun sensor bias", SunBias, 20, 400, 5, 60},
                    {"sun sensor edge", SunEdge, 2000, 40000, 50, 20},
                    {"star sensor noise", StarErrors, 60, 1200, 5, 60}});
}
