// link: sim
#include <components/ideal/force_generator.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/ports/power_port.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <deque>
#include <environment/local/geomagnetic_field.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <memory>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace co = s2e::components;
using mission::Num;
static const std::string kIgrf = VERIF_REPO "/example/settings/environment/magnetic_field/igrf13.coef";
static void Seed(long s) { s2e::randomization::global_randomization.SetSeed(s); }
template <class T>
static std::string List(const std::string& key, const T& v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += key + "(" + std::to_string(i) + ")=" + Num(v[i]) + "\n";
  return s;
}
static const char* kPower = "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
static bool SwitchPower(Case& c, co::PowerPort* p, bool now) {
  if (!p || !c.Chance(0.15)) return now;
  const bool on = c.Int(0, 2) > 0;
  p->SetVoltage_V(on ? c.Real(3.3, 12) : c.Real(0, 3.29));
  return on;
}
// ---------------------------------------------------------------- magnetorquer
struct Mtq {
  int id = 1, prescaler = 1;
  Q4 q{0, 0, 0, 1};
  M3 scale;
  V3 hi{0, 0, 0}, lo{0, 0, 0}, bias{0, 0, 0}, walk{0, 0, 0}, limit{0, 0, 0}, white{0, 0, 0};
  std::string Ini() const {
    std::array<double, 9> s;
    for (int i = 0; i < 9; i++) s[i] = scale[i / 3][i % 3];
    return "[MAGNETORQUER_" + std::to_string(id) + "]\nprescaler=" + std::to_string(prescaler) + "\n" + List("quaternion_b2c", q, 4) + List("scale_factor_c", s, 9) +
           List("max_output_magnetic_moment_c_Am2", hi, 3) + List("min_output_magnetic_moment_c_Am2", lo, 3) + List("constant_bias_noise_c_Am2", bias, 3) +
           List("random_walk_standard_deviation_c_Am2", walk, 3) + List("random_walk_limit_c_Am2", limit, 3) + List("white_noise_standard_deviation_c_Am2", white, 3) + kPower;
  }
};
static Mtq AnyMtq(Case& c) {
  Mtq m;
  m.id = (int)c.Int(0, 12), m.prescaler = (int)c.Int(0, 4);
  m.q = c.Int(0, 4) ? c.Quat() : Q4{0, 0, 0, 1};
  m.scale = M3{{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};
  if (c.Bool())
    for (auto& r : m.scale)
      for (double& x : r) x += c.Real(-0.5, 0.5);
  for (int i = 0; i < 3; i++) {
    m.hi[i] = c.LogReal(0.01, 10), m.lo[i] = c.Int(0, 2) ? -m.hi[i] : -c.LogReal(0.01, 10);
    if (c.Chance(0.1)) m.lo[i] = m.hi[i] * c.Real(0, 1);
  }
  if (c.Bool())
    for (double& x : m.bias) x = c.Real(-0.3, 0.3);
  return m;
}
static void Magnetorquer(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  s2e::environment::GeomagneticField field(kIgrf, 0, 0, 0);
  const Mtq p = AnyMtq(c);
  const std::string dir = c.TempDir();
  mission::Spit(dir + "/t.ini", p.Ini());
  // magnetometer disturbed by the magnetorquer
  const bool disturbed = c.Bool();
  const int degree = (int)c.Int(0, 3), mid = (int)c.Int(0, 3);
  std::vector<M3> a(degree);
  V3 base{c.Real(-100, 100), c.Real(-100, 100), c.Real(-100, 100)};
  std::string t = "[MAGNETOMETER_1]\nprescaler=1\nquaternion_b2c(3)=1\n[SENSOR_BASE_MAGNETOMETER_1]\n" + List("constant_bias_c_nT", base, 3) + "range_to_constant_nT=1e12\nrange_to_zero_nT=1e12\n";
  t += "[MTQ_MAGNETOMETER_INTERFERENCE_" + std::to_string(mid) + "]\npolynomial_degree=" + std::to_string(degree) + "\n";
  for (int k = 0; k < degree; k++) {
    std::array<double, 9> s;
    for (int i = 0; i < 9; i++) s[i] = a[k][i / 3][i % 3] = c.Real(-1e4, 1e4);
    t += List("additional_bias_by_mtq_coefficients_" + std::to_string(k + 1), s, 9);
  }
  mission::Spit(dir + "/m.ini", t);
  s2e::environment::ClockGenerator other;
  co::Magnetometer meter = co::InitMagnetometer(&other, 1, dir + "/m.ini", 0.1, &field);
  const bool powered = c.Bool();
  co::PowerPort port(1, 10.0);
  co::Magnetorquer m = powered ? co::InitMagnetorquer(&clock, &port, p.id, dir + "/t.ini", 0.1, &field) : co::InitMagnetorquer(&clock, p.id, dir + "/t.ini", 0.1, &field);
  if (powered) port.SetVoltage_V(5);
  co::MtqMagnetometerInterference link(dir + "/m.ini", meter, m, (size_t)mid);
  c.Note("q ", Str(p.q), " limits ", Str(p.lo), " ", Str(p.hi), " bias ", Str(p.bias), " prescaler ", p.prescaler, powered ? " powered" : "", " interference degree ", degree);
  V3 command{0, 0, 0}, out{0, 0, 0}, torque{0, 0, 0};
  bool on = true;
  const int step = std::max(1, p.prescaler);
  double most = 10;
  for (int n = (int)c.Int(1, 20), k = 0; k < n; k++) {
    if (c.Chance(0.6)) field.CalcMagneticField(2020.5, c.Real(0, 6), s2e::geodesy::GeodeticPosition(c.Real(-1.5, 1.5), c.Real(-3, 3), c.LogReal(1e4, 2e6)), S(c.Quat()));
    if (c.Chance(0.4)) {
      for (int i = 0; i < 3; i++) command[i] = c.Int(0, 3) ? c.Real(-1.5, 1.5) * p.hi[i] : c.Of<double>({p.hi[i], p.lo[i], 0, 100, -100});
      m.SetOutputMagneticMoment_c_Am2(S(command));
      c.Note("tick ", k, " command ", Str(command));
    }
    on = SwitchPower(c, powered ? &port : nullptr, on);
    clock.TickToComponents();
    if (k % step == 0) {
      if (on) {
        V3 x;
        for (int i = 0; i < 3; i++) {
          x[i] = std::min(p.hi[i], std::max(p.lo[i], command[i])) + p.bias[i];
          if (command[i] > p.hi[i] || command[i] < p.lo[i]) c.Label("limited");
        }
        out = p.scale * x;
        torque = 1e-9 * ref::Cross(ref::Rotate(p.q, out), R(field.GetGeomagneticField_b_nT()));
        c.NonTrivial();
      } else {
        out = torque = command = {0, 0, 0};
        c.Label("no power");
      }
    }
    const std::string at = "tick " + std::to_string(k);
    Near3(c, R(m.GetOutputMagneticMoment_c_Am2()), out, 1e-12 * most, 1e-12, "moment", at);
    Near3(c, R(m.SetOutputMagneticMoment_b_Am2()), ref::Rotate(p.q, out), 1e-12 * most, 1e-12, "moment-in-body", at);
    Near3(c, R(m.GetOutputTorque_b_Nm()), torque, 1e-12 * 1e-9 * 1e5 * most, 0, "magnetic-torque", at);
    auto log = rig::Numbers(rig::LogValue(m));
    c.Check(log.size() == 6, "log", "columns");
    for (int i = 0; i < 3; i++) c.Near(log[i], ref::Rotate(p.q, out)[i], 1e-12 * most, 2e-5, "log", at), c.Near(log[3 + i], torque[i], 1e-15 * most, 2e-5, "log", at);
    if (disturbed) {
      if (c.Chance(0.1)) {
        const V3 b = 50.0 * c.Dir();
        meter.AddConstantBiasNoise_c_nT(S(b)), base = base + b;
      }
      for (int rep = (int)c.Int(1, 2); rep-- > 0;) link.UpdateInterference();
      V3 want = base;
      double size = 100;
      for (int d = 1; d <= degree; d++) {
        V3 x;
        for (int i = 0; i < 3; i++) x[i] = std::pow(out[i], d), size += 1e4 * std::fabs(x[i]);
        want = want + a[d - 1] * x;
      }
      Near3(c, R(meter.GetConstantBiasNoise_c_nT()), want, 1e-10 * size + 1e-8 * n, 1e-9, "interference", at);
    }
  }
}
// ---------------------------------------------------------------- thruster and ideal generators in a mission
struct Jet {
  int id = 1, prescaler = 1;
  V3 pos{0, 0, 0}, dir{0, 0, 1};
  double max = 1, dmag = 0, ddir = 0, dead = 0, lag = 0, step = 0.1;
  std::string Ini() const {
    return "[THRUSTER_" + std::to_string(id) + "]\nprescaler=" + std::to_string(prescaler) + "\n" + List("thruster_position_b_m", pos, 3) + List("thruster_direction_b", dir, 3) + "thrust_magnitude_N=" + Num(max) +
           "\nthrust_error_standard_deviation_N=" + Num(dmag) + "\ndirection_error_standard_deviation_deg=" + Num(ddir) + "\ndead_time_s=" + Num(dead) + "\ntime_constant_s=" + Num(lag) + "\nstep_width_s=" + Num(step) +
           "\n" + kPower;
  }
};
static void Vehicle(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  mission::Mission m(s);
  m.Initialize();
  auto& dyn = m.Sc(0).Dyn();
  auto& str = m.Sc(0).Str();
  const V3 r = R(dyn.GetOrbit().GetPosition_i_m()), v = R(dyn.GetOrbit().GetVelocity_i_m_s());
  const V3 ex = ref::Unit(r), ez = ref::Unit(ref::Cross(r, v)), ey = ref::Cross(ez, ex);
  auto rtn = [&](const V3& a) { return V3{ref::Dot(a, ex), ref::Dot(a, ey), ref::Dot(a, ez)}; };
  const std::string dir = c.TempDir();
  for (int round = (int)c.Int(1, 6); round-- > 0;) {
    s2e::environment::ClockGenerator clock;
    Jet j;
    j.id = (int)c.Int(0, 12), j.prescaler = (int)c.Int(0, 3);
    for (double& x : j.pos) x = c.Real(-2, 2);
    j.dir = c.Chance(0.3) ? V3{c.Bool() ? 1. : -1., 0, 0} : c.LogReal(0.1, 10) * c.Dir();
    j.max = c.LogReal(1e-4, 1e2), j.step = c.LogReal(1e-3, 10);
    j.dead = c.Bool() ? (c.Int(0, 4) + c.Real(0.1, 0.9)) * j.step : 0;
    j.lag = c.Bool() ? c.LogReal(0.1, 10) * j.step : 0;
    const int fp = (int)c.Int(0, 3), tp = (int)c.Int(0, 3);
    mission::Spit(dir + "/j.ini", j.Ini());
    mission::Spit(dir + "/f.ini", "[COMPONENT_BASE]\nprescaler=" + std::to_string(fp) + "\n[FORCE_GENERATOR]\nforce_magnitude_standard_deviation_N=0\nforce_direction_standard_deviation_deg=0\n");
    mission::Spit(dir + "/t.ini", "[COMPONENT_BASE]\nprescaler=" + std::to_string(tp) + "\n[TORQUE_GENERATOR]\ntorque_magnitude_standard_deviation_Nm=0\ntorque_direction_standard_deviation_deg=0\n");
    const bool powered = c.Bool();
    co::PowerPort port(1, 10.0);
    co::SimpleThruster jet = powered ? co::InitSimpleThruster(&clock, &port, j.id, dir + "/j.ini", &str, &dyn) : co::InitSimpleThruster(&clock, j.id, dir + "/j.ini", &str, &dyn);
    if (powered) port.SetVoltage_V(5);
    co::ForceGenerator fg = co::InitializeForceGenerator(&clock, dir + "/f.ini", &dyn);
    co::TorqueGenerator tg = co::InitializeTorqueGenerator(&clock, dir + "/t.ini", &dyn);
    c.Note("thruster at ", Str(j.pos), " towards ", Str(j.dir), " max ", j.max, " step ", j.step, " dead ", j.dead, " lag ", j.lag, " prescalers ", j.prescaler, " ", fp, " ", tp, powered ? " powered" : "");
    std::deque<double> pipe((size_t)std::floor(j.dead / j.step) + 1, 0.0);
    double lagged = 0, duty = 0;
    bool on = true;
    V3 force{0, 0, 0}, torque{0, 0, 0}, order{0, 0, 0}, torder{0, 0, 0}, fb{0, 0, 0}, fi{0, 0, 0}, tb{0, 0, 0};
    Q4 q = c.Quat();
    for (int n = (int)c.Int(1, 20), k = 0; k < n; k++) {
      if (c.Chance(0.3)) q = c.Quat();
      dyn.SetAttitude().SetQuaternion_i2b(S(q));
      if (c.Chance(0.3)) {
        V3 x{c.Real(-1, 1), c.Real(-1, 1), c.Real(-1, 1)};
        str.GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(S(x));
      }
      const V3 com = R(str.GetKinematicsParameters().GetCenterOfGravity_b_m());
      if (c.Chance(0.4)) duty = c.Int(0, 2) ? c.Unit() : c.Of<double>({0, 1}), jet.SetDuty(duty), c.Note("tick ", k, " duty ", duty);
      if (c.Chance(0.4)) {
        const V3 f = c.Int(0, 4) ? c.LogReal(1e-6, 1e3) * c.Dir() : V3{0, 0, 0};
        const int frame = (int)c.Int(0, 2);
        if (frame == 0) fg.SetForce_b_N(S(f)), order = f;
        if (frame == 1) fg.SetForce_i_N(S(f)), order = ref::ToFrame(q, f);
        if (frame == 2) fg.SetForce_rtn_N(S(f)), order = ref::ToFrame(q, f[0] * ex + f[1] * ey + f[2] * ez);
      }
      if (c.Chance(0.4)) torder = c.Int(0, 4) ? c.LogReal(1e-6, 1e3) * c.Dir() : V3{0, 0, 0}, tg.SetTorque_b_Nm(S(torder));
      on = SwitchPower(c, powered ? &port : nullptr, on);
      clock.TickToComponents();
      const std::string at = "tick " + std::to_string(k);
      if (k % std::max(1, j.prescaler) == 0) {
        if (on) {
          lagged = j.lag / (j.step + j.lag) * lagged + j.step / (j.step + j.lag) * pipe.front();
          pipe.pop_front(), pipe.push_back(duty);
          force = (lagged * j.max) * ref::Unit(j.dir);
          torque = ref::Cross(j.pos - com, force);
          if (lagged > 0) c.NonTrivial();
        } else {
          force = torque = {0, 0, 0};
          c.Label("no power");
        }
      }
      Near3(c, R(jet.GetOutputThrust_b_N()), force, 1e-12 * j.max, 0, "thrust", at);
      Near3(c, R(jet.GetOutputTorque_b_Nm()), torque, 1e-11 * j.max, 0, "thrust-torque", at);
      if (k % std::max(1, fp) == 0) fb = order, fi = ref::Rotate(q, order);
      const double fs = ref::Norm(fb), tol = 1e-12 * fs;
      Near3(c, R(fg.GetGeneratedForce_b_N()), fb, tol, 0, "force-body", at);
      if (k % std::max(1, fp) == 0) {
        Near3(c, R(fg.GetGeneratedForce_i_N()), fi, tol, 0, "force-inertial", at);
        Near3(c, R(fg.GetGeneratedForce_rtn_N()), rtn(fi), tol, 0, "force-rtn", at);
      }
      if (k % std::max(1, tp) == 0) tb = torder;
      Near3(c, R(tg.GetGeneratedTorque_b_Nm()), tb, 1e-12 * ref::Norm(tb), 0, "torque-body", at);
      if (c.Chance(0.1)) {
        auto lj = rig::Numbers(rig::LogValue(jet)), lf = rig::Numbers(rig::LogValue(fg)), lt = rig::Numbers(rig::LogValue(tg));
        c.Check(lj.size() == 7 && lf.size() == 12 && lt.size() == 6, "log", "columns");
        for (int i = 0; i < 3; i++) {
          c.Near(lj[i], force[i], 1e-12 * j.max, 2e-5, "log", "thrust"), c.Near(lj[3 + i], torque[i], 1e-11 * j.max, 2e-5, "log", "thrust torque");
          c.Near(lf[i], order[i], 1e-12 * ref::Norm(order), 2e-5, "log", "ordered force"), c.Near(lf[3 + i], fb[i], tol, 2e-5, "log", "force"), c.Near(lf[6 + i], R(fg.GetGeneratedForce_i_N())[i], tol, 2e-5, "log", "force i");
          c.Near(lt[i], torder[i], 1e-12 * ref::Norm(torder), 2e-5, "log", "ordered torque"), c.Near(lt[3 + i], tb[i], 1e-12 * ref::Norm(tb), 2e-5, "log", "torque");
        }
        c.Near(lj[6], ref::Norm(force), 1e-12 * j.max, 2e-5, "log", "thrust norm");
      }
    }
    fg.PowerOffRoutine(), tg.PowerOffRoutine();
    Near3(c, R(fg.GetGeneratedForce_b_N()), {0, 0, 0}, 0, 0, "power-off", "force");
    Near3(c, R(fg.GetGeneratedForce_i_N()), {0, 0, 0}, 0, 0, "power-off", "force i");
    Near3(c, R(fg.GetGeneratedForce_rtn_N()), {0, 0, 0}, 0, 0, "power-off", "force rtn");
    Near3(c, R(tg.GetGeneratedTorque_b_Nm()), {0, 0, 0}, 0, 0, "power-off", "torque");
  }
}
// ---------------------------------------------------------------- errors
// magnitude errors are Gaussian about the command, directions deviate by a Gaussian angle about a uniform axis
static void Spread(Case& c, const std::vector<V3>& x, const V3& want, double smag, double sdir, const char* key, const std::string& what) {
  const double n = (double)x.size(), size = ref::Norm(want);
  double mean = 0, sq = 0, rms = 0;
  V3 axis{0, 0, 0};
  M3 cov{};
  const V3 d = ref::Unit(want);
  for (auto& y : x) {
    const double len = ref::Dot(y, d) < 0 ? -ref::Norm(y) : ref::Norm(y);
    mean += len - size, sq += (len - size) * (len - size);
    const V3 u = (1 / len) * y;
    const double ang = std::atan2(ref::Norm(ref::Cross(d, u)), ref::Dot(d, u));
    rms += ang * ang;
    const V3 t = ref::Norm(ref::Cross(d, u)) > 0 ? ang * ref::Unit(ref::Cross(d, u)) : V3{0, 0, 0};
    axis = axis + t;
    for (int a = 0; a < 3; a++)
      for (int b = 0; b < 3; b++) cov[a][b] += t[a] * t[b];
  }
  c.Near(mean / n, 0, 7 * smag / std::sqrt(n) + 1e-9 * size, 0, key, what + " mean of the magnitude error");
  c.Near(std::sqrt(sq / n), smag, 7 * smag / std::sqrt(2 * n) + 1e-9 * size, 0, key, what + " deviation of the magnitude error");
  c.Near(std::sqrt(rms / n), sdir, 7 * sdir / std::sqrt(2 * n) + 1e-8, 0, key, what + " angle error");
  // the error axis is uniform in the plane normal to the direction: half of the mean square along any axis of it
  V3 e1 = ref::Unit(std::fabs(d[0]) < 0.7 ? ref::Cross(d, V3{1, 0, 0}) : ref::Cross(d, V3{0, 1, 0})), e2 = ref::Cross(d, e1);
  for (const V3& e : {e1, e2, ref::Unit(e1 + e2)}) {
    c.Near(ref::Dot(axis, e) / n, 0, 7 * sdir * std::sqrt(0.5 / n) + 1e-8, 0, key, what + " mean direction error");
    c.Near(ref::Dot(e, cov * e) / n, 0.5 * sdir * sdir, 7 * sdir * sdir * std::sqrt(0.875 / n) + 1e-16, 0, key, what + " direction error along an axis");
  }
}
static void Errors(Case& c) {
  mission::Quiet quiet;
  const long seed = c.Int(1, 100000000);
  const int n = 800;
  mission::Settings s(c);
  mission::Mission m(s);
  m.Initialize();
  auto& dyn = m.Sc(0).Dyn();
  auto& str = m.Sc(0).Str();
  str.GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(S(V3{0.1, -0.2, 0.3}));
  s2e::environment::GeomagneticField field(kIgrf, 0, 0, 0);
  Jet j[2];
  V3 force[2], torque[2];
  double fm[2], fd[2], tm[2], td[2];
  Mtq q[2];
  const std::string dir = c.TempDir();
  for (int i = 0; i < 2; i++) {
    j[i].dir = c.Int(0, 2) ? c.Dir() : c.Of<V3>({{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, 0, 1}}), j[i].max = c.LogReal(1e-2, 10);
    for (double& x : j[i].pos) x = c.Real(-1, 1);
    j[i].dmag = j[i].max * c.LogReal(1e-4, 0.05), j[i].ddir = c.LogReal(0.01, 5);
    force[i] = c.LogReal(1e-2, 10) * (c.Int(0, 2) ? c.Dir() : c.Of<V3>({{1, 0, 0}, {0, 0, -1}})), fm[i] = ref::Norm(force[i]) * c.LogReal(1e-4, 0.05), fd[i] = c.LogReal(0.01, 5);
    torque[i] = c.LogReal(1e-2, 10) * (c.Int(0, 2) ? c.Dir() : c.Of<V3>({{1, 0, 0}, {0, 0, -1}})), tm[i] = ref::Norm(torque[i]) * c.LogReal(1e-4, 0.05), td[i] = c.LogReal(0.01, 5);
    q[i].scale = M3{{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};
    q[i].hi = {1, 1, 1}, q[i].lo = {-1, -1, -1};
    for (double& x : q[i].white) x = c.LogReal(1e-4, 1);
    const std::string k = std::to_string(i);
    mission::Spit(dir + "/j" + k, j[i].Ini()), mission::Spit(dir + "/m" + k, q[i].Ini());
    mission::Spit(dir + "/f" + k, "[FORCE_GENERATOR]\nforce_magnitude_standard_deviation_N=" + Num(fm[i]) + "\nforce_direction_standard_deviation_deg=" + Num(fd[i]) + "\n");
    mission::Spit(dir + "/t" + k, "[TORQUE_GENERATOR]\ntorque_magnitude_standard_deviation_Nm=" + Num(tm[i]) + "\ntorque_direction_standard_deviation_deg=" + Num(td[i]) + "\n");
    c.Note("thruster towards ", Str(j[i].dir), " force ", Str(force[i]), " torque ", Str(torque[i]), " errors ", j[i].dmag, " ", j[i].ddir, " ", fm[i], " ", fd[i], " ", tm[i], " ", td[i]);
  }
  c.Note("seed ", seed);

  std::vector<V3> x[2][5], again[2][5];
  for (int run = 0; run < 2; run++) {
    Seed(seed);
    s2e::environment::ClockGenerator clock;
    std::vector<std::unique_ptr<co::SimpleThruster>> jet;
    std::vector<std::unique_ptr<co::ForceGenerator>> fg;
    std::vector<std::unique_ptr<co::TorqueGenerator>> tg;
    std::vector<std::unique_ptr<co::Magnetorquer>> mt;
    for (int i = 0; i < 2; i++) {
      const std::string k = std::to_string(i);
      jet.emplace_back(new co::SimpleThruster(co::InitSimpleThruster(&clock, 1, dir + "/j" + k, &str, &dyn)));
      fg.emplace_back(new co::ForceGenerator(co::InitializeForceGenerator(&clock, dir + "/f" + k, &dyn)));
      tg.emplace_back(new co::TorqueGenerator(co::InitializeTorqueGenerator(&clock, dir + "/t" + k, &dyn)));
      mt.emplace_back(new co::Magnetorquer(co::InitMagnetorquer(&clock, 1, dir + "/m" + k, 0.1, &field)));
      jet[i]->SetDuty(1), fg[i]->SetForce_b_N(S(force[i])), tg[i]->SetTorque_b_Nm(S(torque[i]));
    }
    for (int k = -1; k < (run ? 30 : n); k++) {
      clock.TickToComponents();
      if (k < 0) continue;  // the thrust appears one step after its command
      for (int i = 0; i < 2; i++) {
        auto& to = run ? again[i] : x[i];
        to[0].push_back(R(jet[i]->GetOutputThrust_b_N())), to[1].push_back(R(fg[i]->GetGeneratedForce_b_N())), to[2].push_back(R(tg[i]->GetGeneratedTorque_b_Nm())), to[3].push_back(R(mt[i]->GetOutputMagneticMoment_c_Am2()));
        // the outputs in the other frames are those of the erroneous force
        const V3 fi = ref::Rotate(R(dyn.GetAttitude().GetQuaternion_i2b()), to[1].back());
        const V3 rr = ref::Unit(R(dyn.GetOrbit().GetPosition_i_m())), nn = ref::Unit(ref::Cross(rr, R(dyn.GetOrbit().GetVelocity_i_m_s())));
        const V3 in_rtn{ref::Dot(fi, rr), ref::Dot(fi, ref::Cross(nn, rr)), ref::Dot(fi, nn)};
        Near3(c, R(fg[i]->GetGeneratedForce_i_N()), fi, 1e-11 * ref::Norm(force[i]), 1e-11, "force-i", "with errors");
        Near3(c, R(fg[i]->GetGeneratedForce_rtn_N()), in_rtn, 1e-11 * ref::Norm(force[i]), 1e-11, "force-rtn", "with errors");
        // errors enter the torque through the force, not separately
        Near3(c, R(jet[i]->GetOutputTorque_b_Nm()), ref::Cross(j[i].pos - V3{0.1, -0.2, 0.3}, to[0].back()), 1e-12 * j[i].max, 1e-12, "thrust-torque", "with errors");
      }
    }
  }
  const double rad = M_PI / 180;
  for (int i = 0; i < 2; i++) {
    const std::string k = " " + std::to_string(i);
    Spread(c, x[i][0], j[i].max * ref::Unit(j[i].dir), j[i].dmag, j[i].ddir * rad, "thrust-error", "thruster" + k);
    Spread(c, x[i][1], force[i], fm[i], fd[i] * rad, "force-error", "force generator" + k);
    Spread(c, x[i][2], torque[i], tm[i], td[i] * rad, "torque-error", "torque generator" + k);
    for (int a = 0; a < 3; a++) {
      double mean = 0, sq = 0;
      for (auto& y : x[i][3]) mean += y[a] / n, sq += y[a] * y[a] / n;
      c.Near(mean, 0, 7 * q[i].white[a] / std::sqrt(n), 0, "moment-error", "mean axis " + std::to_string(a));
      c.Near(std::sqrt(sq), q[i].white[a], 7 * q[i].white[a] / std::sqrt(2.0 * n), 0, "moment-error", "deviation axis " + std::to_string(a));
    }
    for (int kind = 0; kind < 4; kind++)
      for (size_t t = 0; t < again[i][kind].size(); t++) Near3(c, again[i][kind][t], x[i][kind][t], 0, 0, "repeatable", "kind " + std::to_string(kind) + " with the same seed");
  }
  // errors of two units are unrelated: normalised magnitude errors do not coincide
  for (int kind = 0; kind < 4; kind++) {
    double same = 0;
    for (int t = 0; t < n; t++) {
      auto z = [&](int i) {
        if (kind == 3) return x[i][3][t][0] / q[i].white[0];
        const double size = kind == 0 ? j[i].max : kind == 1 ? ref::Norm(force[i]) : ref::Norm(torque[i]), sd = kind == 0 ? j[i].dmag : kind == 1 ? fm[i] : tm[i];
        return (ref::Norm(x[i][kind][t]) - size) / sd;
      };
      same += z(0) * z(1) / n;
    }
    c.Near(same, 0, 7 / std::sqrt(n), 0, "independent", "correlation of two units of kind " + std::to_string(kind));
  }
  double axes = 0;
  for (int t = 0; t < n; t++) axes += x[0][3][t][0] / q[0].white[0] * x[0][3][t][1] / q[0].white[1] / n;
  c.Near(axes, 0, 7 / std::sqrt(n), 0, "independent", "correlation of two magnetorquer axes");
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C03", "an actuator driven for at least one tick with its output compared to the commanded action",
                   {{"magnetorquer and interference", Magnetorquer, 4000, 100000, 50, 20},
                    {"thruster and ideal generators", Vehicle, 600, 15000, 10, 30},
                    {"output errors", Errors, 60, 1500, 3, 60}});
}
