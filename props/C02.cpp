// link: sim
#include <components/ports/power_port.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <complex>
#include <deque>
#include <environment/global/clock_generator.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <memory>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace co = s2e::components;
using mission::Num;
typedef std::complex<double> C1;
static const double kRpm = 2 * M_PI / 60;

struct Jit {
  bool on = false, log = true, resonance = false;
  int fast = 1;
  std::vector<std::array<double, 2>> force, torque;
  double freq = 500, damping = 0.1, bandwidth = 0.01;
};
struct Wheel {
  int id = 1, prescaler = 1;
  double inertia = 1e-4, max_torque = 1e-3, max_rpm = 6000, dead = 0, lag = 0, stop = 0.1, v0 = 0;
  bool direction = false, drive = false;
  V3 dir{0, 0, 1}, pos{0, 0, 0};
  Q4 q{0, 0, 0, 1};
  std::vector<double> friction;
  Jit j;
  V3 Axis() const { return direction ? ref::Unit(dir) : ref::Rotate(q, V3{0, 0, 1}); }
};
static std::string VecIni(const std::string& key, const double* v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += key + "(" + std::to_string(i) + ")=" + Num(v[i]) + "\n";
  return s;
}
static std::string Table(const std::vector<std::array<double, 2>>& t) {
  std::string s;
  for (auto& r : t) s += Num(r[0]) + "," + Num(r[1]) + "\n";
  return s;
}
static std::string Ini(const Wheel& w, const std::string& dir) {
  const std::string id = std::to_string(w.id), ff = dir + "/f" + id + ".csv", tf = dir + "/t" + id + ".csv";
  mission::Spit(ff, Table(w.j.force)), mission::Spit(tf, Table(w.j.torque));
  return "[REACTION_WHEEL_" + id + "]\nprescaler=" + std::to_string(w.prescaler) + "\nmoment_of_inertia_kgm2=" + Num(w.inertia) + "\nmax_output_torque_Nm=" + Num(w.max_torque) +
         "\nmax_angular_velocity_rpm=" + Num(w.max_rpm) + "\ndirection_determination_mode=" + (w.direction ? "DIRECTION" : "QUATERNION") + "\n" + VecIni("quaternion_b2c", w.q.data(), 4) +
         VecIni("direction_b", w.dir.data(), 3) + VecIni("position_b_m", w.pos.data(), 3) + "dead_time_s=" + Num(w.dead) + "\ntime_constant_s=" + Num(w.lag) +
         "\nfriction_order=" + std::to_string(w.friction.size()) + "\n" + VecIni("friction_coefficients", w.friction.data(), (int)w.friction.size()) +
         "stop_limit_angular_velocity_rad_s=" + Num(w.stop) + "\ninitial_motor_drive_flag=" + (w.drive ? "1" : "0") + "\ninitial_angular_velocity_rad_s=" + Num(w.v0) + "\n[REACTION_WHEEL_JITTER_" + id +
         "]\njitter_calculation=" + (w.j.on ? "ENABLE" : "DISABLE") + "\njitter_logging=" + (w.j.log ? "ENABLE" : "DISABLE") + "\nfast_prescaler=" + std::to_string(w.j.fast) +
         "\nradial_force_harmonics_coefficient_file=" + ff + "\nradial_torque_harmonics_coefficient_file=" + tf + "\nharmonics_degree=" + std::to_string(std::max(w.j.force.size(), w.j.torque.size())) +
         "\nconsiders_structural_resonance=" + (w.j.resonance ? "ENABLE" : "DISABLE") + "\nstructural_resonance_frequency_Hz=" + Num(w.j.freq) + "\ndamping_factor=" + Num(w.j.damping) +
         "\nbandwidth=" + Num(w.j.bandwidth) + "\n[POWER_PORT]\nminimum_voltage_V=5\nassumed_power_consumption_W=2\n";
}
static Wheel AnyWheel(Case& c, double comp_step, int id) {
  Wheel w;
  w.id = id;
  w.prescaler = (int)c.Int(1, 4);
  const double dt = comp_step * w.prescaler;
  w.inertia = c.LogReal(1e-5, 1e-2);
  w.max_rpm = c.LogReal(100, 1e4);
  const double vmax = w.max_rpm * kRpm;
  // so that the limits are reached in some histories
  w.max_torque = w.inertia * vmax / dt * c.LogReal(1e-3, 0.6);
  const int n = (int)c.Int(0, 6);
  w.dead = c.Int(0, 2) ? (n + c.Real(0.1, 0.9)) * dt : 0;
  w.lag = c.Int(0, 2) ? c.LogReal(0.1, 30) * dt : 0;
  w.direction = c.Bool();
  w.dir = c.Int(0, 5) == 0 ? V3{0, 0, c.Bool() ? 1. : -1.} : c.Int(0, 2) == 0 ? c.LogReal(0.1, 10) * c.Dir() : c.Dir();
  w.q = c.Quat();
  for (double& x : w.pos) x = c.Real(-1, 1);
  for (int k = (int)c.Int(0, 3), i = 0; i < k; i++) w.friction.push_back(c.Int(0, 4) ? c.LogReal(1e-3, 2) / dt / std::pow(vmax, i) : 0);
  w.stop = c.Int(0, 4) ? vmax * c.LogReal(1e-4, 0.2) : 0;
  w.drive = c.Bool();
  w.v0 = c.Int(0, 2) ? vmax * c.Real(-1, 1) : 0;
  return w;
}
static std::string Text(const Wheel& w) {
  std::string s = "id " + std::to_string(w.id) + " prescaler " + std::to_string(w.prescaler) + " inertia " + Num(w.inertia) + " max torque " + Num(w.max_torque) + " max rpm " + Num(w.max_rpm) + " dead " + Num(w.dead) +
                  " lag " + Num(w.lag) + " stop " + Num(w.stop) + " v0 " + Num(w.v0) + " axis " + Str(w.Axis()) + (w.direction ? " by direction" : "") + (w.drive ? " driving" : "") + " friction";
  for (double f : w.friction) s += " " + Num(f);
  return s;
}
// reference wheel
struct Model {
  Wheel w;
  double dt, v, lagged = 0, target = 0, limit;
  bool drive;
  std::deque<double> pipe;
  Model(const Wheel& wheel, double comp_step) : w(wheel), dt(comp_step * wheel.prescaler), v(wheel.v0), limit(wheel.max_rpm * kRpm), drive(wheel.drive), pipe((size_t)std::floor(wheel.dead / dt) + 1, 0.0) {}
  // the speed after one tick is between lo and hi; a single value unless the limit is crossed
  void Tick(double& lo, double& hi) {
    if (drive) {
      lagged = w.lag / (dt + w.lag) * lagged + dt / (dt + w.lag) * pipe.front();
      pipe.pop_front(), pipe.push_back(target);
      const double a = lagged, free = v + a * dt, tol = 1e-9 * limit;
      if ((v > limit + tol && a > 0) || (v < -limit - tol && a < 0)) lo = hi = v;
      else if ((a > 0 && free > limit - tol) || (a < 0 && free < -limit + tol)) lo = std::min(v, free), hi = std::max(v, free);
      else lo = hi = free;
    } else {
      for (double& x : pipe) x = 0;
      double f = 0, p = 1;
      for (double k : w.friction) p *= std::fabs(v), f += k * p;
      const double left = std::max(0.0, std::fabs(v) - f * dt);
      lo = hi = std::fabs(v) < w.stop ? 0 : std::copysign(left, v);
      if (std::fabs(std::fabs(v) - w.stop) < 1e-9 * (w.stop + limit)) lo = std::min(0.0, lo), hi = std::max(0.0, hi);  // on the edge of stopping
    }
  }
};
static void History(Case& c, bool jitter) {
  mission::Quiet quiet;
  s2e::randomization::global_randomization.SetSeed(c.Int(1, 100000));
  s2e::environment::ClockGenerator clock;
  const double step = c.Of<double>({0.001, 0.05, 0.1, 1.0});
  const std::string dir = c.TempDir();
  const int n = (int)c.Int(1, 3);
  std::vector<Wheel> ws;
  std::vector<std::unique_ptr<co::ReactionWheel>> rw;
  std::vector<std::unique_ptr<co::PowerPort>> ports;
  std::vector<Model> models;
  std::string ini;
  for (int i = 0; i < n; i++) {
    Wheel w = AnyWheel(c, step, (int)c.Int(0, 3) * 4 + i);
    if (jitter && c.Bool()) {
      w.j.on = true, w.j.fast = (int)c.Int(1, 3);
      for (int k = (int)c.Int(0, 2); k-- > 0;) w.j.force.push_back({c.Real(0.5, 10), c.LogReal(1e-8, 1e-5)});
      for (int k = (int)c.Int(0, 2); k-- > 0;) w.j.torque.push_back({c.Real(0.5, 10), c.LogReal(1e-9, 1e-6)});
    }
    ws.push_back(w), ini += Ini(w, dir);
    c.Note("wheel ", i, ": ", Text(w), w.j.on ? " jitter" : "");
  }
  mission::Spit(dir + "/rw.ini", ini);
  c.Note("component step ", step);
  for (int i = 0; i < n; i++) {
    const bool powered = c.Bool();
    ports.push_back(powered ? std::make_unique<co::PowerPort>(i, 10.0) : nullptr);
    if (powered) rw.push_back(std::make_unique<co::ReactionWheel>(co::InitReactionWheel(&clock, ports[i].get(), ws[i].id, dir + "/rw.ini", step))), ports[i]->SetVoltage_V(8);
    else rw.push_back(std::make_unique<co::ReactionWheel>(co::InitReactionWheel(&clock, ws[i].id, dir + "/rw.ini", step)));
    models.emplace_back(ws[i], step);
    Near3(c, R(rw[i]->GetAngularMomentum_b_Nms()), ws[i].inertia * ws[i].v0 * ws[i].Axis(), 1e-12 * ws[i].inertia * ws[i].max_rpm, 1e-12, "initial-momentum", "wheel " + std::to_string(i));
    c.Check(rw[i]->GetDriveFlag() == ws[i].drive, "initial-drive", "wheel ", i);
  }
  const int ticks = (int)c.Int(4, 40);
  std::vector<bool> on(n, true);
  for (int t = 0; t < ticks; t++) {
    for (int i = 0; i < n; i++) {
      Model& m = models[i];
      const double full = m.w.max_torque;
      if (c.Chance(0.25)) {
        double x = c.Int(0, 3) ? full * c.Real(-1.5, 1.5) : c.Int(0, 2) ? full * c.Of<double>({-5, -1, 1, 5}) : 0;
        const bool body = c.Bool();
        if (body) rw[i]->SetTargetTorque_b_Nm(x);
        else rw[i]->SetTargetTorque_rw_Nm(x);
        c.Note("tick ", t, " wheel ", i, body ? " body" : " wheel", " torque ", x);
        if (body) x = -x;
        if (std::fabs(x) > full) x = std::copysign(full, x), c.Label("torque limit");
        m.target = x / m.w.inertia;
      }
      if (c.Chance(0.1)) {
        const bool d = c.Int(0, 2) > 0;
        rw[i]->SetDriveFlag(d), m.drive = d;
        c.Note("tick ", t, " wheel ", i, " drive ", d);
      }
      if (c.Chance(0.05)) {
        const double l = m.w.max_rpm * c.Real(0.05, 1.5);
        rw[i]->SetVelocityLimit_rpm(l), m.limit = std::min(l, m.w.max_rpm) * kRpm;
        c.Note("tick ", t, " wheel ", i, " speed limit ", l);
      }
      if (ports[i] && c.Chance(0.1)) {
        on[i] = c.Int(0, 2) > 0;
        ports[i]->SetVoltage_V(on[i] ? c.Real(5, 9) : c.Real(0, 4.99));
        c.Note("tick ", t, " wheel ", i, " power ", (bool)on[i]);
      }
    }
    std::vector<V3> h;
    for (auto& r : rw) h.push_back(R(r->GetAngularMomentum_b_Nms()));
    std::vector<double> speed;
    for (auto& r : rw) speed.push_back(r->GetAngularVelocity_rad_s());
    clock.TickToComponents();
    for (int i = 0; i < n; i++) {
      Model& m = models[i];
      const std::string at = "wheel " + std::to_string(i) + " tick " + std::to_string(t);
      const double scale = m.w.max_rpm * kRpm, v = rw[i]->GetAngularVelocity_rad_s(), before = speed[i];
      const V3 axis = m.w.Axis(), now = R(rw[i]->GetAngularMomentum_b_Nms());
      V3 torque = R(rw[i]->GetOutputTorque_b_Nm());
      if (m.w.j.on) {
        auto log = rig::Log(*rw[i]);
        const std::string p = "rw" + std::to_string(m.w.id) + "_jitter_";
        auto body = [&](const char* k) {
          V3 x{log[p + k + "_c_x"], log[p + k + "_c_y"], log[p + k + "_c_z"]};
          return m.w.direction ? x : ref::Rotate(m.w.q, x);
        };
        const V3 f = R(rw[i]->GetJitterForce_b_N());
        if (!m.w.direction) Near3(c, f, body("force"), 1e-12, 2e-5, "jitter-log", at);
        const V3 jt = m.w.direction ? V3{0, 0, 0} : body("torque");
        torque = torque + ref::Cross(m.w.pos, f) + jt;
      }
      const bool ticked = t % m.w.prescaler == 0;
      const double jt_tol = m.w.j.on ? (m.w.direction ? 1 : 1e-4) * 4 * 1e-5 * scale * scale : 0;  // the log has limited digits
      if (!on[i]) m.drive = ticked || m.w.j.on ? rw[i]->GetDriveFlag() : m.drive;
      if (ticked && !on[i]) {
        c.Check(!rw[i]->GetDriveFlag(), "power-off", at, ": still driving");
        m.drive = false;
        c.Label("no power");
        c.Near(v, before, 1e-12 * scale, 0, "power-off", at + ": speed");
        Near3(c, torque, {0, 0, 0}, 1e-13 * m.w.inertia * scale / m.dt + jt_tol, 0, "power-off", at + ": torque");
      } else if (ticked) {
        double lo, hi;
        m.Tick(lo, hi);
        const double tol = 1e-9 * scale;
        c.Check(v >= lo - tol && v <= hi + tol, m.drive ? "driven-speed" : "coasting-speed", at, ": speed ", v, " not in ", lo, " .. ", hi, " from ", before, " limit ", m.limit);
        if (lo != hi) c.Label("speed limit");
        if (m.drive) c.NonTrivial();
        else {
          c.Check((v * before >= 0 || std::fabs(v) < 1e-12 * scale) && std::fabs(v) <= std::fabs(before), "coasting", at, ": from ", before, " to ", v);
          if (std::fabs(v) < 1e-12 * scale && before != 0) c.Label("stopped");
        }
        // exchange of momentum
        Near3(c, torque, (-1 / m.dt) * (now - h[i]), 1e-9 * m.w.inertia * scale / m.dt + jt_tol, 0, "momentum-exchange", at);
      } else {
        c.Check(v == before, "prescaler", at, ": speed changed between ticks");
      }
      Near3(c, now, m.w.inertia * v * axis, 1e-12 * m.w.inertia * scale, 1e-12, "momentum", at);
      c.Near(rw[i]->GetAngularVelocity_rpm(), v / kRpm, 1e-9 * m.w.max_rpm, 0, "rpm", at);
      m.v = v;
      if (c.Chance(0.1)) {
        auto log = rig::Numbers(rig::LogValue(*rw[i]));
        const double a = (v - before) / m.dt;
        c.Check(log.size() >= 5, "log", "columns");
        c.Near(log[0], v, 1e-9 * scale, 2e-5, "log", at + " speed");
        c.Near(log[1], v / kRpm, 1e-9 * scale, 2e-5, "log", at + " rpm");
        c.Near(log[2], m.limit / kRpm, 0, 2e-5, "log", at + " limit");
        c.Near(log[3], m.target, 1e-9 * scale / m.dt, 2e-5, "log", at + " target");
        if (ticked) c.Near(log[4], a, 1e-8 * scale / m.dt, 2e-5, "log", at + " acceleration");
      }
    }
  }
}
static void Wheels(Case& c) { History(c, false); }
static void WheelsWithJitter(Case& c) { History(c, true); }
// ---------------------------------------------------------------- jitter
static Jit AnyJitter(Case& c) {
  Jit j;
  j.on = true;
  j.fast = (int)c.Int(1, 3);
  for (int k = (int)c.Int(0, 3), i = 0; i < k; i++) j.force.push_back({0.5 + 3 * i + c.Real(0, 2), c.LogReal(1e-8, 1e-5)});
  for (int k = (int)c.Int(j.force.empty() ? 1 : 0, 3), i = 0; i < k; i++) j.torque.push_back({0.5 + 3 * i + c.Real(0, 2), c.LogReal(1e-9, 1e-6)});
  return j;
}
// finds the phases from the first samples of sum c exp(i(phase + h angle)), false when they are not determined
static bool Fit(Case& c, const std::vector<std::array<double, 2>>& t, const std::vector<double>& angle, const std::vector<C1>& y, double omega2, const std::string& what) {
  const size_t n = t.size(), m = y.size();
  if (n == 0) {
    for (auto& z : y) c.Check(std::abs(z) == 0, "jitter-zero", what);
    return true;
  }
  // least squares over all samples with partially pivoted elimination of the normal equations
  std::vector<std::vector<C1>> a(n, std::vector<C1>(n + 1, 0));
  for (size_t k = 0; k < m; k++)
    for (size_t i = 0; i < n; i++) {
      const C1 b = std::polar(1.0, -t[i][0] * angle[k]);
      for (size_t q = 0; q < n; q++) a[i][q] += b * std::polar(1.0, t[q][0] * angle[k]) / (double)m;
      a[i][n] += b * y[k] / (double)m;
    }
  for (size_t i = 0; i < n; i++) {
    size_t p = i;
    for (size_t r = i; r < n; r++)
      if (std::abs(a[r][i]) > std::abs(a[p][i])) p = r;
    std::swap(a[i], a[p]);
    if (std::abs(a[i][i]) < 1e-3) return false;
    for (size_t r = 0; r < n; r++)
      if (r != i) {
        const C1 f = a[r][i] / a[i][i];
        for (size_t q = i; q <= n; q++) a[r][q] -= f * a[i][q];
      }
  }
  double all = 0;
  for (auto& r : t) all += r[1];
  std::vector<C1> z(n);
  for (size_t i = 0; i < n; i++) {
    z[i] = a[i][n] / a[i][i];
    c.Near(std::abs(z[i]), t[i][1] * omega2, 1e-7 * all * omega2, 0, "jitter-amplitude", what + " harmonic " + std::to_string(i));
  }
  for (size_t k = 0; k < m; k++) {
    C1 want = 0;
    for (size_t i = 0; i < n; i++) want += z[i] * std::polar(1.0, t[i][0] * angle[k]);
    c.Check(std::abs(want - y[k]) < 1e-8 * all * omega2, "jitter-harmonics", what, " sample ", k, ": ", y[k].real(), ",", y[k].imag(), " instead of ", want.real(), ",", want.imag());
  }
  return true;
}
static std::vector<std::pair<V3, V3>> Sampled(const std::vector<Wheel>& ws, size_t which, long seed, const std::string& dir, double step, int ticks) {
  s2e::randomization::global_randomization.SetSeed(seed);
  s2e::environment::ClockGenerator clock;
  std::vector<std::unique_ptr<co::ReactionWheel>> rw;
  for (auto& w : ws) rw.push_back(std::make_unique<co::ReactionWheel>(co::InitReactionWheel(&clock, w.id, dir + "/rw.ini", step)));
  std::vector<std::pair<V3, V3>> out;
  for (int t = 0; t < ticks; t++) {
    clock.TickToComponents();
    if (t % ws[which].j.fast) continue;
    const V3 f = R(rw[which]->GetJitterForce_b_N());
    // constant speed: the remaining torque is the jitter
    const V3 jt = (-1.0) * (R(rw[which]->GetOutputTorque_b_Nm()) + ref::Cross(ws[which].pos, f));
    out.push_back({ref::ToFrame(ws[which].q, f), ref::ToFrame(ws[which].q, jt)});
  }
  return out;
}
// constant speed: the samples are exactly a sum of the configured harmonics, for every wheel in the file
static void Jitter(Case& c) {
  mission::Quiet quiet;
  const double step = c.LogReal(1e-4, 1e-2);
  const std::string dir = c.TempDir();
  std::vector<Wheel> ws;
  std::string ini;
  const int n = (int)c.Int(1, 3);
  for (int i = 0; i < n; i++) {
    Wheel w;
    w.id = i + 1, w.drive = true, w.q = c.Quat(), w.max_rpm = 1e5, w.prescaler = (int)c.Int(1, 4);
    w.v0 = (c.Bool() ? 1 : -1) * c.Real(20, 500);
    for (double& x : w.pos) x = c.Real(-1, 1);
    w.j = AnyJitter(c);
    ws.push_back(w), ini += Ini(w, dir);
    c.Note("wheel ", i, " speed ", w.v0, " prescaler ", w.prescaler, " fast ", w.j.fast, " force ", Table(w.j.force), " torque ", Table(w.j.torque));
  }
  mission::Spit(dir + "/rw.ini", ini);
  const long seed = c.Int(1, 100000);
  bool ok = true;
  for (int i = 0; i < n; i++) {
    const Wheel& w = ws[i];
    auto s = Sampled(ws, i, seed, dir, step, 24 * w.j.fast);
    std::vector<double> angle;
    std::vector<C1> f, t;
    for (size_t k = 0; k < s.size(); k++) {
      angle.push_back(w.v0 * step * w.j.fast * (double)k);
      f.push_back({s[k].first[1], s[k].first[0]}), t.push_back({s[k].second[1], s[k].second[0]});
      c.Near(s[k].first[2], 0, 1e-12 * ref::Norm(s[k].first) + 1e-30, 0, "jitter-radial", "force");
      c.Near(s[k].second[2], 0, 1e-9 * (ref::Norm(s[k].second) + ref::Norm(s[k].first)) + 1e-30, 0, "jitter-radial", "torque");
    }
    const double w2 = w.v0 * w.v0;
    // rounding of the torque scales with the lever of the force as well
    auto scaled = w.j.torque;
    bool small = false;
    double fs = 0, ts = 0;
    for (auto& r : w.j.force) fs += r[1];
    for (auto& r : w.j.torque) ts += r[1];
    small = ts < 1e-5 * fs;
    ok &= Fit(c, w.j.force, angle, f, w2, "force of wheel " + std::to_string(i));
    if (!small && !scaled.empty()) ok &= Fit(c, scaled, angle, t, w2, "torque of wheel " + std::to_string(i));
    auto again = Sampled(ws, i, seed, dir, step, 6);
    for (size_t k = 0; k < again.size(); k++) {
      Near3(c, again[k].first, s[k].first, 0, 0, "jitter-repeats", "force");
      Near3(c, again[k].second, s[k].second, 0, 0, "jitter-repeats", "torque");
    }
    if (n > 1 && i > 0 && !w.j.force.empty() && !ws[0].j.force.empty()) {
      auto other = Sampled(ws, 0, seed, dir, step, 1);
      const double p0 = std::atan2(other[0].first[0], other[0].first[1]), p1 = std::atan2(s[0].first[0], s[0].first[1]);
      c.Check(std::fabs(p0 - p1) > 1e-12, "jitter-phases", "wheels 0 and ", i, " start with the same phase");
    }
  }
  if (ok) c.NonTrivial();
}
// structural resonance: steady response at one harmonic has the gain of the configured resonance
static void Resonance(Case& c) {
  mission::Quiet quiet;
  const double step = c.LogReal(1e-4, 1e-3);
  const std::string dir = c.TempDir();
  Wheel w;
  w.drive = true, w.q = c.Quat(), w.max_rpm = 1e6;
  w.j.on = true, w.j.resonance = true, w.j.fast = (int)c.Int(1, 2);
  const double T = step * w.j.fast, wr = c.Real(0.05, 0.7) * M_PI / T;
  w.j.freq = wr / (2 * M_PI), w.j.damping = c.Real(0.1, 1), w.j.bandwidth = c.Real(0.2, 1);
  const double h = c.Real(0.5, 5);
  const double excite = c.Int(0, 2) ? wr * c.Real(0.5, 1.5) : c.Real(0.02, 0.9) * M_PI / T;
  w.v0 = excite / h * (c.Bool() ? 1 : -1);
  w.j.force.push_back({h, c.LogReal(1e-8, 1e-5)}), w.j.torque.push_back({h, c.LogReal(1e-8, 1e-5)});
  mission::Spit(dir + "/rw.ini", Ini(w, dir));
  // settling time of the slowest pole
  const double k = 2 / T, wa = k * std::tan(wr * T / 2);
  auto H = [&](C1 s) { return (s * s + 2 * w.j.damping * wa * s + wa * wa) / (s * s + 2 * w.j.bandwidth * w.j.damping * wa * s + wa * wa); };
  const double zeta = w.j.bandwidth * w.j.damping;
  double slowest = 0;
  {
    const double re = -zeta * wa, im2 = (1 - zeta * zeta) * wa * wa;
    const C1 p = im2 > 0 ? C1(re, std::sqrt(im2)) : C1(re + std::sqrt(-im2), 0);
    slowest = std::abs((k + p) / (k - p));
  }
  const int settle = (int)std::min(6000.0, 20 / std::max(1e-9, -std::log(slowest)));
  if (settle >= 6000) c.Skip();
  c.Note("step ", T, " resonance ", wr, " rad/s damping ", w.j.damping, " bandwidth ", w.j.bandwidth, " excited at ", excite, " settle ", settle);
  auto s = Sampled({w}, 0, c.Int(1, 100000), dir, step, (settle + 4) * w.j.fast);
  const double theta = excite * T;
  const C1 z = std::polar(1.0, theta), ss = k * (z - 1.0) / (z + 1.0);
  const double gain = std::abs(H(ss));
  for (size_t q = s.size() - 3; q < s.size(); q++) {
    c.Near(std::hypot(s[q].first[0], s[q].first[1]), gain * w.j.force[0][1] * w.v0 * w.v0, 0, 1e-5, "resonance-gain", "force");
    c.Near(std::hypot(s[q].second[0], s[q].second[1]), gain * w.j.torque[0][1] * w.v0 * w.v0, 1e-9 * w.j.force[0][1] * w.v0 * w.v0, 1e-5, "resonance-gain", "torque");
  }
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C02", "wheel driven for at least one tick with its speed, momentum and torque checked; jitter decomposed into its configured harmonics",
                   {{"command and power histories", Wheels, 6000, 150000, 50, 20},
                    {"histories with jitter", WheelsWithJitter, 2000, 40000, 25, 20},
                    {"jitter harmonics", Jitter, 1500, 30000, 20, 20},
                    {"structural resonance", Resonance, 300, 6000, 10, 30}});
}
