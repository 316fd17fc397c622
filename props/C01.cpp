// link: sim
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ports/power_port.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <environment/local/geomagnetic_field.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <memory>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace co = s2e::components;
using mission::Num;
static const std::string kIgrf = VERIF_REPO "/example/settings/environment/magnetic_field/igrf13.coef";

struct Errors {
  M3 scale;
  V3 bias{0, 0, 0}, white{0, 0, 0}, walk{0, 0, 0}, limit{0, 0, 0};
  double to_const = 0, to_zero = 0;
  bool no_scale = false;
};
static void Seed(long s) { s2e::randomization::global_randomization.SetSeed(s); }
// size of the quantity, e.g. 1 rad/s or 30000 nT
static Errors AnyErrors(Case& c, double size) {
  Errors e;
  e.scale = M3{{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};
  const int kind = (int)c.Int(0, 3);
  e.no_scale = kind == 1;
  if (kind >= 2)
    for (auto& r : e.scale)
      for (double& x : r) x = kind == 2 ? x + c.Real(-0.1, 0.1) : c.Real(-2, 2);
  if (c.Bool())
    for (double& x : e.bias) x = c.Real(-0.3, 0.3) * size;
  switch (c.Int(0, 4)) {
    case 0: e.to_const = e.to_zero = 1e9 * size; break;
    case 1: e.to_const = c.Real(0.1, 1) * size, e.to_zero = e.to_const * c.Real(1, 3); break;
    case 2: e.to_const = e.to_zero = c.Real(0.1, 1) * size; break;
    case 3: e.to_const = c.Real(0.1, 1) * size, e.to_zero = c.Real(0.05, 0.99) * e.to_const; break;  // documented repair: twice the constant range
    default: e.to_const = -c.Real(0.1, 1) * size, e.to_zero = 2.5 * e.to_const;                        // documented repair: positive
  }
  return e;
}
static std::string Text(const Errors& e) {
  return "scale " + (e.no_scale ? std::string("none") : Str(V3{e.scale[0][0], e.scale[0][1], e.scale[0][2]}) + Str(V3{e.scale[1][0], e.scale[1][1], e.scale[1][2]}) + Str(V3{e.scale[2][0], e.scale[2][1], e.scale[2][2]})) +
         " bias " + Str(e.bias) + " white " + Str(e.white) + " walk " + Str(e.walk) + " limit " + Str(e.limit) + " ranges " + Num(e.to_const) + " " + Num(e.to_zero);
}
static std::string Ini(const Errors& e, const std::string& name, const std::string& unit) {
  std::string s = "\n[SENSOR_BASE_" + name + "]\n";
  auto vec = [&](const std::string& key, const V3& v) {
    for (int i = 0; i < 3; i++) s += key + "(" + std::to_string(i) + ")=" + Num(v[i]) + "\n";
  };
  if (!e.no_scale)
    for (int i = 0; i < 9; i++) s += "scale_factor_c(" + std::to_string(i) + ")=" + Num(e.scale[i / 3][i % 3]) + "\n";
  vec("constant_bias_c_" + unit, e.bias), vec("normal_random_standard_deviation_c_" + unit, e.white);
  vec("random_walk_standard_deviation_c_" + unit, e.walk), vec("random_walk_limit_c_" + unit, e.limit);
  return s + "range_to_constant_" + unit + "=" + Num(e.to_const) + "\nrange_to_zero_" + unit + "=" + Num(e.to_zero) + "\n";
}
static std::string QuatIni(const std::string& key, const Q4& q) {
  std::string s;
  for (int i = 0; i < 4; i++) s += key + "(" + std::to_string(i) + ")=" + Num(q[i]) + "\n";
  return s;
}
// documented output of the measurement chain without random errors; border is set when rounding decides the range
static V3 Chain(const Errors& e, const V3& truth, double size, std::array<bool, 3>& border, bool& clipped) {
  double k = e.to_const, z = e.to_zero;
  if (k < 0 || z < 0) k = std::fabs(k), z = std::fabs(z);
  if (k > z) z = 2 * k;
  const M3 id{{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};
  V3 y = (e.no_scale ? id : e.scale) * truth + e.bias;
  for (int i = 0; i < 3; i++) {
    const double a = std::fabs(y[i]), tol = 1e-11 * (size + a);
    border[i] = std::fabs(a - k) < tol || std::fabs(a - z) < tol;
    if (a >= z) y[i] = 0, clipped = true;
    else if (a >= k) y[i] = std::copysign(k, y[i]), clipped = true;
  }
  return y;
}
static void CompareChain(Case& c, const Errors& e, const V3& truth, const V3& got, double size, const char* key, const std::string& what) {
  std::array<bool, 3> border;
  bool clipped = false;
  const V3 want = Chain(e, truth, size, border, clipped);
  if (clipped) c.Label("clipped");
  for (int i = 0; i < 3; i++)
    if (!border[i]) c.Near(got[i], want[i], 1e-11 * (size + std::fabs(want[i])), 0, key, what + " axis " + std::to_string(i));
}
static V3 Value(Case& c, double size) {
  switch (c.Int(0, 4)) {
    case 0: return {0, 0, 0};
    case 1: return c.LogReal(1e-6, 10) * size * c.Dir();
    default: return size * V3{c.Real(-1.5, 1.5), c.Real(-1.5, 1.5), c.Real(-1.5, 1.5)};
  }
}
static void Turn(s2e::environment::ClockGenerator& g, int ticks) {
  while (ticks-- > 0) g.TickToComponents();
}
// ---------------------------------------------------------------- deterministic part of the pipeline
static void Observer(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  Errors e = AnyErrors(c, 1);
  const int p = (int)c.Int(1, 4);
  const std::string f = c.TempDir() + "/o.ini";
  mission::Spit(f, "[COMPONENT_BASE]\nprescaler=" + std::to_string(c.Bool() ? p : p) + "\n" + Ini(e, "ANGULAR_VELOCITY_OBSERVER", "rad_s"));
  auto o = co::InitializeAngularVelocityObserver(&rig.clock, f, 0.1, rig.attitude);
  c.Note(Text(e), " prescaler ", p);
  for (int k = (int)c.Int(1, 8); k-- > 0;) {
    const V3 w = Value(c, 1);
    rig.attitude.SetAngularVelocity_b_rad_s(S(w)), rig.attitude.SetQuaternion_i2b(S(c.Quat()));
    Turn(rig.clock, p);
    CompareChain(c, e, w, R(o.GetAngularVelocity_b_rad_s()), 1, "rate-observer", "truth " + Str(w));
    auto v = rig::Numbers(rig::LogValue(o));
    c.Check(v.size() == 3, "log", "columns");
    for (int i = 0; i < 3; i++) c.Near(v[i], R(o.GetAngularVelocity_b_rad_s())[i], 1e-12, 1e-5, "log");
    c.NonTrivial();
  }
}
static void Magnetometer(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  Errors e = AnyErrors(c, 3e4);
  const int p = (int)c.Int(0, 3), id = (int)c.Int(0, 12);
  const Q4 q = c.Int(0, 5) ? c.Quat() : Q4{0, 0, 0, 1};
  const std::string name = "MAGNETOMETER_" + std::to_string(id), f = c.TempDir() + "/m.ini";
  mission::Spit(f, "[" + name + "]\nprescaler=" + std::to_string(p) + "\n" + QuatIni("quaternion_b2c", q) + Ini(e, name, "nT") + "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n");
  s2e::environment::GeomagneticField field(kIgrf, 0, 0, 0);
  const bool powered = c.Bool();
  co::PowerPort port(1, 10.0);
  co::Magnetometer m = powered ? co::InitMagnetometer(&clock, &port, id, f, 0.1, &field) : co::InitMagnetometer(&clock, id, f, 0.1, &field);
  c.Note(Text(e), " q ", Str(q), " id ", id, " prescaler ", p, powered ? " powered" : "");
  V3 added{0, 0, 0}, bias = e.bias;
  for (int k = (int)c.Int(1, 8); k-- > 0;) {
    field.CalcMagneticField(2020.5, c.Real(0, 6), s2e::geodesy::GeodeticPosition(c.Real(-1.5, 1.5), c.Real(-3, 3), c.LogReal(1e4, 2e6)), S(c.Quat()));
    if (c.Chance(0.2)) {
      const V3 b = Value(c, 1e4);
      if (c.Bool()) m.AddConstantBiasNoise_c_nT(S(b)), bias = bias + b;
      else m.SetConstantBiasNoise_c_nT(S(b)), bias = b;
      Near3(c, R(m.GetConstantBiasNoise_c_nT()), bias, 1e-9, 0, "bias", "after setting");
    }
    const bool on = !powered || c.Int(0, 3) > 0;
    if (powered) port.SetVoltage_V(on ? c.Real(3.3, 12) : c.Real(0, 3.29));
    const V3 before = R(m.GetMeasuredMagneticField_c_nT());
    Turn(clock, std::max(1, p));
    const V3 truth = R(field.GetGeomagneticField_b_nT()), got = R(m.GetMeasuredMagneticField_c_nT());
    Errors now = e;
    now.bias = bias;
    if (on) CompareChain(c, now, ref::ToFrame(q, truth), got, 3e4, "magnetometer", "field " + Str(truth));
    else Near3(c, got, before, 0, 0, "unpowered", "no new measurement without power");
    c.NonTrivial();
  }
}
static std::string GyroIni(const std::string& name, int p, const Q4& q, const Errors& e) {
  return "[" + name + "]\nprescaler=" + std::to_string(p) + "\n" + QuatIni("quaternion_b2c", q) + Ini(e, name, "rad_s") + "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
}
static void Gyro(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  mission::Mission m(s);
  m.Initialize();
  auto& dyn = m.Sc(0).Dyn();
  s2e::environment::ClockGenerator clock;
  for (int n = (int)c.Int(1, 10); n-- > 0;) {
    Errors e = AnyErrors(c, 1);
    const int p = (int)c.Int(0, 3), id = (int)c.Int(0, 12);
    const Q4 q = c.Int(0, 5) ? c.Quat() : Q4{0, 0, 0, 1};
    const std::string name = "GYRO_SENSOR_" + std::to_string(id), f = c.TempDir() + "/g.ini";
    mission::Spit(f, GyroIni(name, p, q, e));
    const bool powered = c.Bool();
    co::PowerPort port(1, 10.0);
    co::GyroSensor g = powered ? co::InitGyroSensor(&clock, &port, id, f, 0.1, &dyn) : co::InitGyroSensor(&clock, id, f, 0.1, &dyn);
    c.Note(Text(e), " q ", Str(q), " id ", id, " prescaler ", p, powered ? " powered" : "");
    for (int k = (int)c.Int(1, 5); k-- > 0;) {
      const V3 w = Value(c, 1);
      dyn.SetAttitude().SetAngularVelocity_b_rad_s(S(w)), dyn.SetAttitude().SetQuaternion_i2b(S(c.Quat()));
      const bool on = !powered || c.Int(0, 3) > 0;
      if (powered) port.SetVoltage_V(on ? c.Real(3.3, 12) : c.Real(0, 3.29));
      const V3 before = R(g.GetMeasuredAngularVelocity_c_rad_s());
      Turn(clock, std::max(1, p));
      const V3 got = R(g.GetMeasuredAngularVelocity_c_rad_s());
      if (on) CompareChain(c, e, ref::ToFrame(q, w), got, 1, "gyro", "rate " + Str(w));
      else Near3(c, got, before, 0, 0, "unpowered", "no new measurement without power");
      const auto h = rig::Split(rig::LogHeader(g));
      c.Check(h.size() == 3 && h[0].find("gyro_sensor" + std::to_string(id) + "_") == 0, "log-header", "log header");
      auto v = rig::Numbers(rig::LogValue(g));
      for (int i = 0; i < 3; i++) c.Near(v[i], got[i], 1e-12, 1e-5, "log");
      c.NonTrivial();
    }
  }
}
static void States(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  const int p = (int)c.Int(1, 3);
  const bool rtn = c.Bool();
  const std::string f = c.TempDir() + "/o.ini", g = c.TempDir() + "/a.ini";
  V3 sp{0, 0, 0}, sv{0, 0, 0};
  const bool noisy = c.Bool();
  if (noisy)
    for (int i = 0; i < 3; i++) sp[i] = c.Bool() ? c.Real(1, 1000) : 0, sv[i] = c.Bool() ? c.Real(0.1, 10) : 0;
  std::string t = std::string("[ORBIT_OBSERVER]\nnoise_frame=") + (rtn ? "RTN" : c.Bool() ? "INERTIAL" : "other") + "\n";
  for (int i = 0; i < 6; i++) t += "noise_standard_deviation(" + std::to_string(i) + ")=" + Num(i < 3 ? sp[i] : sv[i - 3]) + "\n";
  mission::Spit(f, t + "[COMPONENT_BASE]\nprescaler=" + std::to_string(p) + "\n");
  const double deg = noisy ? c.Real(0, 5) : 0;
  mission::Spit(g, "[ATTITUDE_OBSERVER]\nerror_angle_standard_deviation_deg=" + Num(deg) + "\n[COMPONENT_BASE]\nprescaler=" + std::to_string(p) + "\n");
  auto o = co::InitializeOrbitObserver(&rig.clock, f, rig.orbit);
  auto a = co::InitializeAttitudeObserver(&rig.clock, g, rig.attitude);
  c.Note(rtn ? "RTN" : "inertial", " noise ", Str(sp), " ", Str(sv), " attitude ", deg, " deg");
  for (int k = (int)c.Int(1, 6); k-- > 0;) {
    const V3 r = c.LogReal(6.6e6, 5e7) * c.Dir(), v = c.Real(100, 9000) * c.Dir();
    if (ref::Norm(ref::Cross(r, v)) < 1e-2 * ref::Norm(r) * ref::Norm(v)) continue;
    const Q4 q = c.Quat();
    rig.Update(r, v, q);
    Turn(rig.clock, p);
    V3 er = R(o.GetPosition_i_m()) - r, ev = R(o.GetVelocity_i_m_s()) - v;
    if (rtn) {
      const V3 x = ref::Unit(r), z = ref::Unit(ref::Cross(r, v)), y = ref::Cross(z, x);
      er = V3{ref::Dot(er, x), ref::Dot(er, y), ref::Dot(er, z)}, ev = V3{ref::Dot(ev, x), ref::Dot(ev, y), ref::Dot(ev, z)};
    }
    for (int i = 0; i < 3; i++) {
      c.Near(er[i], 0, 8 * sp[i] + 1e-8 * (noisy ? ref::Norm(sp) : 0) + 1e-15 * ref::Norm(r) * noisy * 8, 0, "orbit-observer-position", "axis " + std::to_string(i));
      c.Near(ev[i], 0, 8 * sv[i] + 1e-8 * (noisy ? ref::Norm(sv) : 0) + 1e-15 * ref::Norm(v) * noisy * 8, 0, "orbit-observer-velocity", "axis " + std::to_string(i));
    }
    if (!noisy) NearAttitude(c, R(a.GetQuaternion_i2b()), q, 1e-12, "attitude-observer", "without error");
    else c.Near(ref::AttitudeAngle(R(a.GetQuaternion_i2b()), q), 0, 8 * deg * M_PI / 180 + 1e-7, 0, "attitude-observer", "error angle");
    const Q4 m = R(a.GetQuaternion_i2b());
    c.Near(ref::Dot(V3{m[0], m[1], m[2]}, V3{m[0], m[1], m[2]}) + m[3] * m[3], 1, 1e-9, 0, "attitude-observer-norm");
    c.NonTrivial();
  }
}
// ---------------------------------------------------------------- random part
struct Stat {
  double n = 0, s = 0, ss = 0;
  void Add(double x) { n++, s += x, ss += x * x; }
  double Mean() const { return s / n; }
  double Std() const { return std::sqrt(std::max(0.0, ss / n - Mean() * Mean())); }
};
// bounds at seven sigma of the estimators
static void Gaussian(Case& c, const Stat& t, double sigma, const char* key, const std::string& what) {
  c.Near(t.Mean(), 0, 7 * sigma / std::sqrt(t.n) + 1e-12, 0, key, what + " mean");
  c.Near(t.Std(), sigma, 7 * sigma / std::sqrt(2 * t.n) + 1e-12, 0, key, what + " deviation");
}
static double Correlation(const std::vector<double>& a, const std::vector<double>& b) {
  double n = a.size(), sa = 0, sb = 0, saa = 0, sbb = 0, sab = 0;
  for (size_t i = 0; i < a.size(); i++) sa += a[i], sb += b[i], saa += a[i] * a[i], sbb += b[i] * b[i], sab += a[i] * b[i];
  const double va = saa - sa * sa / n, vb = sbb - sb * sb / n;
  return va <= 0 || vb <= 0 ? 0 : (sab - sa * sb / n) / std::sqrt(va * vb);
}
static void Noise(Case& c) {
  mission::Quiet quiet;
  const long seed = (long)c.Int(1, 100000000);
  const int N = 3000;
  Errors e[2];
  for (auto& x : e) {
    x.scale = M3{{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};
    x.to_const = x.to_zero = 1e9;
    for (double& s : x.white) s = c.LogReal(1e-4, 1);
  }
  const double deg[2] = {c.LogReal(0.01, 10), c.LogReal(0.01, 10)};
  V3 sp[2], sv[2];
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 3; j++) sp[i][j] = c.LogReal(1, 1e4), sv[i][j] = c.LogReal(0.01, 10);
  c.Note("seed ", seed, " ", Text(e[0]), " and ", Text(e[1]), " attitude ", deg[0], " ", deg[1]);
  const V3 r{7e6, 0, 0}, v{0, 5000, 5000};
  std::vector<std::vector<double>> runs;  // all outputs of a run
  std::vector<std::vector<double>> series;
  for (int run = 0; run < 2; run++) {
    Seed(seed);
    Rig rig;
    rig.Update(r, v, {0, 0, 0, 1});
    std::vector<std::unique_ptr<co::AngularVelocityObserver>> w;
    std::vector<std::unique_ptr<co::AttitudeObserver>> a;
    std::vector<std::unique_ptr<co::OrbitObserver>> o;
    for (int i = 0; i < 2; i++) {
      const std::string d = c.TempDir() + "/";
      mission::Spit(d + "w.ini", Ini(e[i], "ANGULAR_VELOCITY_OBSERVER", "rad_s"));
      w.emplace_back(new co::AngularVelocityObserver(co::InitializeAngularVelocityObserver(&rig.clock, d + "w.ini", 0.1, rig.attitude)));
      mission::Spit(d + "a.ini", "[ATTITUDE_OBSERVER]\nerror_angle_standard_deviation_deg=" + Num(deg[i]) + "\n");
      a.emplace_back(new co::AttitudeObserver(co::InitializeAttitudeObserver(&rig.clock, d + "a.ini", rig.attitude)));
      std::string t = "[ORBIT_OBSERVER]\nnoise_frame=RTN\n";
      for (int k = 0; k < 6; k++) t += "noise_standard_deviation(" + std::to_string(k) + ")=" + Num(k < 3 ? sp[i][k] : sv[i][k - 3]) + "\n";
      mission::Spit(d + "o.ini", t);
      o.emplace_back(new co::OrbitObserver(co::InitializeOrbitObserver(&rig.clock, d + "o.ini", rig.orbit)));
    }
    std::vector<double> all;
    const int count = run ? 50 : N;
    if (!run) series.assign(26, {});
    for (int k = 0; k < count; k++) {
      Turn(rig.clock, 1);
      int col = 0;
      auto put = [&](double x) {
        all.push_back(x);
        if (!run) series[col++].push_back(x);
      };
      for (int i = 0; i < 2; i++) {
        for (int j = 0; j < 3; j++) put(w[i]->GetAngularVelocity_b_rad_s()[j]);
        const V3 er = R(o[i]->GetPosition_i_m()) - r, ev = R(o[i]->GetVelocity_i_m_s()) - v;
        const V3 y{0, M_SQRT1_2, M_SQRT1_2}, z{0, -M_SQRT1_2, M_SQRT1_2};
        put(er[0]), put(ref::Dot(er, y)), put(ref::Dot(er, z)), put(ev[0]), put(ref::Dot(ev, y)), put(ref::Dot(ev, z));
        const Q4 q = R(a[i]->GetQuaternion_i2b());
        const double vn = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), ang = 2 * std::atan2(vn, q[3]);
        put(ang);
        for (int j = 0; j < 3; j++) put(vn > 0 ? q[j] / vn * ang : 0);
      }
    }
    runs.push_back(all);
  }
  bool same = true;
  for (size_t i = 0; i < runs[1].size(); i++) same = same && runs[0][i] == runs[1][i];
  c.Check(same, "repeatable", "the same seed gives another noise");
  for (int i = 0; i < 2; i++) {
    auto stat = [&](int col) {
      Stat t;
      for (double x : series[13 * i + col]) t.Add(x);
      return t;
    };
    for (int j = 0; j < 3; j++) Gaussian(c, stat(j), e[i].white[j], "white-noise", "rate axis " + std::to_string(j));
    for (int j = 0; j < 3; j++) Gaussian(c, stat(3 + j), sp[i][j], "orbit-noise", "position axis " + std::to_string(j)), Gaussian(c, stat(6 + j), sv[i][j], "orbit-noise", "velocity axis " + std::to_string(j));
    // the angle is half normal, its direction is uniform
    const double s = deg[i] * M_PI / 180;
    double rms = 0;
    for (double x : series[13 * i + 9]) rms += x * x / N;
    c.Near(std::sqrt(rms), s, 7 * s / std::sqrt(2.0 * N), 0, "attitude-noise", "angle");
    for (int j = 0; j < 3; j++) {
      c.Near(stat(10 + j).Mean(), 0, 7 * s / std::sqrt(3.0 * N), 0, "attitude-noise", "mean axis " + std::to_string(j));
      c.Near(stat(10 + j).Std(), s / std::sqrt(3.0), 7 * s * std::sqrt(0.2 / N), 0, "attitude-noise", "deviation axis " + std::to_string(j));
    }
  }
  // noise of separate axes and instances is unrelated
  for (int i = 0; i < 26; i++)
    for (int j = 0; j < i; j++) {
      if (i % 13 >= 9 && j % 13 >= 9 && i / 13 == j / 13) continue;  // angle and direction of one error belong together
      c.Near(Correlation(series[i], series[j]), 0, 7 / std::sqrt((double)N), 0, "independent", "columns " + std::to_string(i) + " and " + std::to_string(j));
    }
  c.NonTrivial();
}
// a rate observer, magnetometer or gyroscope of truth zero
struct Bench {
  int kind;
  std::unique_ptr<Rig> rig;
  std::unique_ptr<mission::Settings> settings;
  std::unique_ptr<mission::Mission> m;
  s2e::environment::ClockGenerator clock;
  s2e::environment::GeomagneticField field{kIgrf, 0, 0, 0};
  std::vector<std::unique_ptr<co::PowerPort>> ports;
  std::vector<std::shared_ptr<void>> sensors;
  Bench(Case& c, int k) : kind(k) {
    if (kind == 0) rig.reset(new Rig);
    if (kind == 2) {
      settings.reset(new mission::Settings(c)), m.reset(new mission::Mission(*settings)), m->Initialize();
      m->Sc(0).Dyn().SetAttitude().SetAngularVelocity_b_rad_s(s2e::math::Vector<3>(0.0));
    }
  }
  s2e::environment::ClockGenerator& Clock() { return kind ? clock : rig->clock; }
  const char* Name() const { return kind == 0 ? "rate observer" : kind == 1 ? "magnetometer" : "gyro"; }
  std::function<V3()> Make(Case& c, const Errors& e, int p, double step) {
    const std::string f = c.TempDir() + "/b" + std::to_string(sensors.size()) + ".ini";
    if (kind == 0) {
      mission::Spit(f, "[COMPONENT_BASE]\nprescaler=" + std::to_string(p) + "\n" + Ini(e, "ANGULAR_VELOCITY_OBSERVER", "rad_s"));
      std::shared_ptr<co::AngularVelocityObserver> o(new co::AngularVelocityObserver(co::InitializeAngularVelocityObserver(&rig->clock, f, step, rig->attitude)));
      sensors.push_back(o);
      return [o] { return R(o->GetAngularVelocity_b_rad_s()); };
    }
    const int id = (int)c.Int(0, 9);
    const bool powered = c.Bool();
    if (powered) ports.emplace_back(new co::PowerPort(1, 10.0, 3.3, 1.0)), ports.back()->SetVoltage_V(5);
    co::PowerPort* port = powered ? ports.back().get() : nullptr;
    const std::string name = (kind == 1 ? "MAGNETOMETER_" : "GYRO_SENSOR_") + std::to_string(id);
    mission::Spit(f, "[" + name + "]\nprescaler=" + std::to_string(p) + "\n" + QuatIni("quaternion_b2c", {0, 0, 0, 1}) + Ini(e, name, kind == 1 ? "nT" : "rad_s") +
                         "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n");
    if (kind == 1) {
      std::shared_ptr<co::Magnetometer> o(new co::Magnetometer(powered ? co::InitMagnetometer(&clock, port, id, f, step, &field) : co::InitMagnetometer(&clock, id, f, step, &field)));
      sensors.push_back(o);
      return [o] { return R(o->GetMeasuredMagneticField_c_nT()); };
    }
    auto* dyn = &m->Sc(0).Dyn();
    std::shared_ptr<co::GyroSensor> o(new co::GyroSensor(powered ? co::InitGyroSensor(&clock, port, id, f, step, dyn) : co::InitGyroSensor(&clock, id, f, step, dyn)));
    sensors.push_back(o);
    return [o] { return R(o->GetMeasuredAngularVelocity_c_rad_s()); };
  }
};
static void SensorNoise(Case& c) {
  mission::Quiet quiet;
  const long seed = (long)c.Int(1, 100000000);
  const int kind = (int)c.Int(1, 2), N = 3000, p = (int)c.Int(1, 3);
  Errors e[2];
  for (auto& x : e) {
    x.no_scale = true;
    x.to_const = x.to_zero = 1e9;
    for (double& s : x.white) s = c.LogReal(1e-4, 1);
  }
  c.Note("seed ", seed, " kind ", kind, " ", Text(e[0]), " and ", Text(e[1]));
  std::vector<double> series[6], head[2];
  for (int run = 0; run < 2; run++) {
    Seed(seed);
    Bench bench(c, kind);
    std::function<V3()> o[2];
    for (int i = 0; i < 2; i++) o[i] = bench.Make(c, e[i], p, 0.1);
    for (int k = 0; k < (run ? 40 : N); k++) {
      Turn(bench.Clock(), p);
      for (int i = 0; i < 6; i++) {
        const double x = o[i / 3]()[i % 3];
        if (k < 40) head[run].push_back(x);
        if (!run) series[i].push_back(x);
      }
    }
  }
  c.Check(head[0] == head[1], "repeatable", "the same seed gives another noise");
  for (int i = 0; i < 6; i++) {
    Stat t;
    for (double x : series[i]) t.Add(x);
    Gaussian(c, t, e[i / 3].white[i % 3], "white-noise", "sensor " + std::to_string(i / 3) + " axis " + std::to_string(i % 3));
    for (int j = 0; j < i; j++) c.Near(Correlation(series[i], series[j]), 0, 7 / std::sqrt((double)N), 0, "independent", "columns " + std::to_string(i) + " and " + std::to_string(j));
  }
  c.NonTrivial();
}
static void Walk(Case& c) {
  mission::Quiet quiet;
  Seed((long)c.Int(1, 100000000));
  const int kind = (int)c.Int(0, 2);
  Bench bench(c, kind);
  Errors e;
  e.no_scale = true, e.to_const = e.to_zero = 1e9;
  const double step = c.LogReal(0.01, 1);
  const int p = (int)c.Int(1, 3), N = 4000;
  for (int i = 0; i < 3; i++) {
    e.walk[i] = c.Chance(0.2) ? 0 : c.LogReal(1e-3, 1);
    e.limit[i] = c.Bool() ? 1e9 : step * e.walk[i] * c.Real(3, 30);
  }
  auto o = bench.Make(c, e, p, step);
  c.Note(bench.Name(), " ", Text(e), " step ", step, " prescaler ", p);
  V3 last{0, 0, 0}, top{0, 0, 0};
  Stat inc[3];
  for (int k = 0; k < N; k++) {
    Turn(bench.Clock(), p);
    const V3 x = o();
    if (!k) Near3(c, x, {0, 0, 0}, 0, 0, "walk-start");
    for (int i = 0; i < 3; i++) {
      if (k) inc[i].Add(x[i] - last[i]);
      top[i] = std::max(top[i], std::fabs(x[i]));
    }
    last = x;
  }
  for (int i = 0; i < 3; i++) {
    const double unit = e.walk[i] * step * p;  // one sigma acting for one measurement period
    if (e.walk[i] == 0) {
      c.Near(top[i], 0, 0, 0, "no-walk");
      continue;
    }
    c.Check(top[i] <= e.limit[i] + 6 * unit, "walk-limit", "walk reached " + Num(top[i]) + " with limit " + Num(e.limit[i]) + " and steps of " + Num(unit));
    // steps are a weighted average of independent excitations with the configured deviation
    c.Check(inc[i].Std() > 0.3 * unit && inc[i].Std() < 1.2 * unit, "walk-step", "step deviation " + Num(inc[i].Std()) + " for excitation " + Num(unit));
    if (e.limit[i] > 1e8) c.Near(last[i], 0, 8 * unit * std::sqrt((double)N), 0, "walk-drift", "after " + std::to_string(N) + " steps");
    else c.Check(top[i] > 0.5 * e.limit[i], "walk-range", "the walk never leaves half of its range");
    c.NonTrivial();
  }
}
// ranges of their own on every axis, of either sign and order, for any number of axes
template <size_t N>
struct Bare : co::Sensor<N> {
  using co::Sensor<N>::Sensor;
  using co::Sensor<N>::Measure;
};
template <size_t N>
static void AxisRanges(Case& c) {
  s2e::math::Matrix<N, N> scale;
  s2e::math::Vector<N> k, z, bias, zero(0.0);
  double kk[N], zz[N];
  std::string text;
  for (size_t i = 0; i < N; i++) {
    k[i] = c.Real(-1, 1), z[i] = c.Int(0, 3) ? c.Real(-2, 2) : c.Bool() ? k[i] : -k[i], bias[i] = c.Bool() ? 0 : c.Real(-0.5, 0.5);
    if (c.Chance(0.1)) k[i] = 0;
    for (size_t j = 0; j < N; j++) scale[i][j] = i == j ? 1 + c.Real(-0.1, 0.1) : c.Bool() ? 0 : c.Real(-0.3, 0.3);
    kk[i] = std::fabs(k[i]), zz[i] = std::fabs(z[i]);
    if (kk[i] > zz[i]) zz[i] = 2 * kk[i];
    text += Num(k[i]) + " " + Num(z[i]) + ", ";
  }
  c.Note(N, " axes, ranges ", text);
  Bare<N> s(scale, k, z, bias, zero, 1.0, zero, zero);
  for (int n = 0; n < 12; n++) {
    s2e::math::Vector<N> x;
    for (size_t i = 0; i < N; i++) x[i] = c.Real(-2.5, 2.5);
    const auto y = s.Measure(x);
    for (size_t i = 0; i < N; i++) {
      double v = bias[i];
      for (size_t j = 0; j < N; j++) v += scale[i][j] * x[j];
      const double a = std::fabs(v);
      if (std::fabs(a - kk[i]) < 1e-12 || std::fabs(a - zz[i]) < 1e-12) continue;
      const double want = a >= zz[i] ? 0 : a >= kk[i] ? std::copysign(kk[i], v) : v;
      if (a >= kk[i]) c.NonTrivial();
      c.Near(y[i], want, 1e-12, 0, "axis-range", "axis " + std::to_string(i) + " of " + std::to_string(N) + " value " + Num(v));
    }
  }
}
static void Ranges(Case& c) {
  mission::Quiet quiet;
  switch (c.Int(1, 4)) {
    case 1: return AxisRanges<1>(c);
    case 2: return AxisRanges<2>(c);
    case 3: return AxisRanges<3>(c);
    default: return AxisRanges<4>(c);
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C01", "at least one measurement is compared with its truth, or a noise series is analysed",
                   {{"rate-observer", Observer, 4000, 100000, 50}, {"magnetometer", Magnetometer, 1500, 40000, 25}, {"axis-ranges", Ranges, 6000, 150000, 100}, {"gyro", Gyro, 80, 1500, 4, 60}, {"states", States, 3000, 80000, 50},
                    {"noise", Noise, 24, 300, 3, 60}, {"sensor-noise", SensorNoise, 24, 300, 3, 60}, {"walk", Walk, 60, 900, 5, 60}});
}
