// link: sim
#include <dynamics/attitude/controlled_attitude.hpp>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace at = s2e::dynamics::attitude;
using Mode = at::AttitudeControlMode;
static const char* kNames[] = {"SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING"};
static const double kMu = 3.986004415e14, kDeg = 0.017453292519943295;
struct Site {
  double lat, lon, alt;
};
static Site Place(Case& c) { return {c.Real(-89, 89) * kDeg, c.Real(-179, 179) * kDeg, c.Of<double>({0, 0, 500, 8000, 35000})}; }
static V3 Ecef(const Site& s) {
  const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * std::sin(s.lat) * std::sin(s.lat));
  return {(n + s.alt) * std::cos(s.lat) * std::cos(s.lon), (n + s.alt) * std::cos(s.lat) * std::sin(s.lon), (n * (1 - e2) + s.alt) * std::sin(s.lat)};
}
// inertial direction of a target; the Earth is at the origin
static V3 Target(int mode, const V3& sun, const V3& r, const V3& v, const M3& i2ecef, const Site& site) {
  switch (mode) {
    case 0: return ref::Unit(sun - r);
    case 1: return ref::Unit(-r);
    case 2: return ref::Unit(v);
    case 3: return ref::Unit(v - ref::Cross(V3{0, 0, 7.292115e-5}, r));
    case 4: return ref::Unit(ref::Cross(r, v));
    default: return ref::Unit(ref::T(i2ecef) * Ecef(site) - r);
  }
}
static double Separation(const V3& a, const V3& b) { return std::asin(std::min(1.0, ref::Norm(ref::Cross(ref::Unit(a), ref::Unit(b))))); }
// the attitude puts the first axis on its target and the second one in the half plane of its own
static void Points(Case& c, const Q4& q, const V3& main_b, const V3& sub_b, const V3& main_i, const V3& sub_i, double tol, const std::string& key) {
  const double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  c.Near(n, 1, 1e-9, 0, key + "-unit", "quaternion length");
  const V3 got_main = ref::Rotate(q, ref::Unit(main_b)), got_sub = ref::Rotate(q, ref::Unit(sub_b));
  Near3(c, got_main, main_i, tol, 0, key + "-main", "direction of the main axis");
  // the best reachable direction of the sub axis: in the plane of both targets, on the side of the sub target
  const double body = ref::Angle(main_b, sub_b);
  const V3 side = ref::Unit(sub_i - ref::Dot(sub_i, main_i) * main_i);
  const V3 best = std::cos(body) * main_i + std::sin(body) * side;
  const double s = Separation(main_i, sub_i);
  Near3(c, got_sub, best, tol * (1 + 2 / s), 0, key + "-sub", "direction of the sub axis");
}
struct Axes {
  V3 main, sub;
};
static Axes Body(Case& c) {
  static const V3 e[6] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
  for (;;) {
    Axes a;
    a.main = c.Bool() ? e[c.Int(0, 5)] : c.Dir();
    a.sub = c.Bool() ? e[c.Int(0, 5)] : c.Dir();
    if (Separation(a.main, a.sub) < 30.5 * kDeg) a.sub = ref::Unit(ref::Cross(a.main, std::fabs(a.main[2]) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0}));
    return a;
  }
}
static void Pointing(Case& c) {
  mission::Quiet quiet;
  Rig rig(c.Of<const char*>({"IDLE", "SIMPLE", "FULL"}), c.Of<const char*>({"2020/03/01 00:00:00.0", "2022/10/01 18:30:00.0", "2008/12/31 05:00:00.0"}));
  const M3 inertia{{{c.Real(0.1, 3), 0, 0}, {0, c.Real(0.1, 3), 0}, {0, 0, c.Real(0.1, 3)}}};
  const s2e::math::Matrix<3, 3> held = S(inertia);
  const Axes b = Body(c);
  const int main = (int)c.Int(0, 5);
  int sub = (int)c.Int(0, 4);
  if (sub >= main) sub++;
  const Site site = Place(c);
  rig.body[10] = c.Bool() ? c.LogReal(1e11, 2e11) * c.Dir() : V3{c.Of<double>({1.5e11, -1.5e11}), 0, 0};
  rig.body[399] = {0, 0, 0}, rig.body[301] = 3.8e8 * c.Dir();
  const Q4 start = c.Quat();
  const double ms = c.Chance(0.3) ? c.LogReal(1e-3, 1e3) : 1, ss = c.Chance(0.3) ? c.LogReal(1e-3, 1e3) : 1;
  const bool late = c.Chance(0.3);  // axes given after construction
  at::ControlledAttitude a((Mode)(late ? 1 : main + 1), (Mode)(late ? 2 : sub + 1), S(start), S(late ? V3{1, 0, 0} : ms * b.main), S(late ? V3{0, 1, 0} : ss * b.sub), held,
                           s2e::geodesy::GeodeticPosition(site.lat, site.lon, site.alt), &rig.local, &rig.orbit, "controlled");
  if (late) a.SetMainMode((Mode)(main + 1)), a.SetSubMode((Mode)(sub + 1)), a.SetMainTargetDirection_b(S(ms * b.main)), a.SetSubTargetDirection_b(S(ss * b.sub));
  c.Note(kNames[main], " with ", Str(b.main), " / ", kNames[sub], " with ", Str(b.sub));
  NearAttitude(c, R(a.GetQuaternion_i2b()), start, 1e-12, "initial-attitude");
  Q4 q_before = start;
  V3 w_before{0, 0, 0};
  double t = c.Bool() ? 1 : c.LogReal(1e-2, 1e4), t_before = 0;
  double r0 = c.LogReal(6.6e6, 4e8);
  V3 u = c.Dir(), n = ref::Unit(ref::Cross(u, c.Bool() ? c.Dir() : V3{0.3, 0.2, 0.9}));
  if (!(ref::Norm(n) > 0.5)) n = ref::Unit(ref::Cross(u, {0.123, 0.9, 0.4}));
  const V3 w = ref::Cross(n, u);
  double phase = 0;
  const double e = c.Bool() ? 0 : c.Real(-0.3, 0.3), rate = std::sqrt(kMu / r0) / r0;
  int visited = 0;
  double sep_before = 1, sep_older = 1;
  for (int k = 0; k < 12; k++) {
    const double dt = k == 0 ? t : std::min(c.LogReal(1e-2, 300), 0.2 / rate);
    if (k) t += dt;
    phase += rate * dt;
    const V3 r = (r0 * std::cos(phase)) * u + (r0 * std::sin(phase)) * w;
    const V3 v = (r0 * rate) * ((e - std::sin(phase)) * u + (1 + 0.5 * e) * std::cos(phase) * w);
    rig.Update(r, v, q_before);
    const M3 i2e = R(rig.global.GetEarthRotation().GetDcmJ2000ToEcef());
    const V3 mi = Target(main, rig.body[10], r, v, i2e, site), si = Target(sub, rig.body[10], r, v, i2e, site);
    const bool frame = (main == 3 || sub == 3);  // the FULL rotation's spin axis differs slightly from the inertial pole
    const double sep = Separation(mi, si);
    const V3 given = c.Bool() ? V3{0, 0, 0} : c.LogReal(1e-9, 1) * c.Dir();  // torque of disturbances and components
    a.SetTorque_b_Nm(S(given));
    a.Propagate(t);
    const Q4 q = R(a.GetQuaternion_i2b());
    if (sep > 1e-3) Points(c, q, b.main, b.sub, mi, si, (frame ? 3e-3 * 7.3e-5 * r0 / ref::Norm(v - ref::Cross(V3{0, 0, 7.292115e-5}, r)) : 2e-8) + (main == 5 || sub == 5 ? 1.0 / ref::Norm(ref::T(i2e) * Ecef(site) - r) : 0), "pointing"), visited++;
    // rates and torques between consecutive updates
    const V3 wb = R(a.GetAngularVelocity_b_rad_s()), torque = R(a.GetTorque_b_Nm()) - given;
    const Q4 d = ref::Mul(ref::Conj(q_before), q);
    const double s = d[3] < 0 ? -1 : 1, half = std::atan2(ref::Norm({d[0], d[1], d[2]}), std::fabs(d[3]));
    if (k == 0) {
      c.Check(ref::Norm(wb) == 0, "first-rate", "angular velocity reported before two attitudes are known");
      c.Check(ref::Norm(torque) <= 1e-15 * ref::Norm(given), "first-torque", "torque reported before two attitudes are known");
    } else if (std::min(sep, sep_before) > 1e-3) {
      const double step = t - t_before;
      if (half < 1.5) {
        const V3 want = (2 * s / step) * V3{d[0], d[1], d[2]};
        Near3(c, wb, want, 1e-7 / step + ref::Norm(want) * (half * half), 1e-9, "rate", "angular velocity");
      }
      const V3 h = inertia * wb;
      // change of the momentum since the last update, seen from the body now
      const V3 now_i = ref::Rotate(q, h), before_i = ref::Rotate(q_before, inertia * w_before);
      const V3 change = ref::ToFrame(q, (1 / step) * (now_i - before_i));
      const double turn = (ref::Norm(wb) + ref::Norm(w_before)) * step;
      if (half < 0.5)
        Near3(c, torque, change, 1e-12 + 1e-12 * ref::Norm(given) + 1e-7 * 3 / step / step + turn * (ref::Norm(inertia * (wb - w_before)) / step + ref::Norm(wb) * ref::Norm(h)), 1e-9, "torque", "torque");
      c.Near(a.GetTotalAngularMomentNorm_Nms(), ref::Norm(h), 1e-15, 1e-9, "momentum", "angular momentum");
      c.Near(a.GetKineticEnergy_J(), ref::Dot(h, wb) / 2, 1e-25, 1e-9, "energy", "kinetic energy");
    }
    q_before = q, w_before = wb, t_before = t, sep_before = std::min(sep, sep_older), sep_older = sep;
  }
  if (visited > 6) c.NonTrivial();
}
// settings which cannot be followed keep the given attitude
static void Rejected(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  rig.body[10] = {1.5e11, 0, 0}, rig.body[399] = {0, 0, 0}, rig.body[301] = {0, 3.8e8, 0};
  const s2e::math::Matrix<3, 3> held = s2e::math::MakeIdentityMatrix<3>();
  const int kind = (int)c.Int(0, 3);
  int main = (int)c.Int(1, 6), sub = (int)c.Int(1, 6);
  if (sub == main) sub = main % 6 + 1;
  Axes b = Body(c);
  const double angle = c.Bool() ? c.Real(0, 29.9) : c.Real(30.1, 90);
  const bool near = c.Bool();
  bool follow = true;
  if (kind == 0) sub = main, follow = false;
  if (kind == 1) (c.Bool() ? main : sub) = 7, follow = false;
  if (kind == 2) main = 0, follow = false;
  if (kind == 3) {
    const V3 p = ref::Unit(ref::Cross(b.main, b.sub));
    b.sub = ref::Rotate(ref::AxisAngle(p, (near ? angle : 180 - angle) * kDeg), b.main);
    follow = angle > 30;
  }
  const Q4 start = c.Quat();
  at::ControlledAttitude a((Mode)main, (Mode)sub, S(start), S(b.main), S(b.sub), held, s2e::geodesy::GeodeticPosition(0.1, 0.2, 0), &rig.local, &rig.orbit, "controlled");
  // the same settings from another attitude
  const Q4 other = ref::Mul(start, ref::AxisAngle({0, 0.6, 0.8}, 1));
  at::ControlledAttitude twin((Mode)main, (Mode)sub, S(other), S(b.main), S(b.sub), held, s2e::geodesy::GeodeticPosition(0.1, 0.2, 0), &rig.local, &rig.orbit, "controlled twin");
  // no two targets are in line
  const V3 up = ref::Unit({c.Real(0.2, 1), c.Real(0.2, 1), c.Real(0.2, 1)}), along = ref::Unit(ref::Cross(up, {-0.3, c.Real(0.3, 1), c.Real(0.3, 1)}));
  rig.Update(7e6 * up, 7e3 * along, start);
  a.Propagate(1), twin.Propagate(1);
  c.NonTrivial();
  c.Note("kind ", kind, " main ", main, " sub ", sub, " angle ", angle);
  const double moved = ref::AttitudeAngle(R(a.GetQuaternion_i2b()), start);
  if (!follow) {
    c.Check(moved < 1e-12, "attitude-kept", "attitude moved by ", moved, " although it is not controlled");
    c.Check(ref::Norm(R(a.GetAngularVelocity_b_rad_s())) == 0 && ref::Norm(R(a.GetTorque_b_Nm())) == 0, "still", "uncontrolled attitude rotates");
    if (kind == 2) {  // the held attitude is changed while running
      const Q4 next = c.Quat();
      a.SetQuaternion_i2t(S(next));
      a.Propagate(2);
      c.Check(ref::AttitudeAngle(R(a.GetQuaternion_i2b()), next) < 1e-12, "attitude-held", "a new attitude to hold is not taken");
      c.Label("new attitude to hold");
    }
  } else {
    const double apart = ref::AttitudeAngle(R(a.GetQuaternion_i2b()), R(twin.GetQuaternion_i2b()));
    c.Check(apart < 1e-6, "attitude-followed", "attitude not controlled although its axes are separated: the result depends on the attitude before by ", apart);
  }
  const char* names[] = {"INERTIAL_STABILIZE", kNames[0], kNames[1], kNames[2], kNames[3], kNames[4], kNames[5]};
  for (int i = 0; i < 7; i++) c.Check(at::ConvertStringToCtrlMode(names[i]) == (Mode)i, "mode-name", names[i]);
  const std::string odd = c.Word("ABCDEFGHIJKLMNOPQRSTUVWXYZ_", 0, 8);
  if (std::find(names, names + 7, odd) == names + 7) c.Check(at::ConvertStringToCtrlMode(odd) == Mode::kNoControl, "unknown-name", odd);
}
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  mission::SetTime(s, "202" + std::to_string(c.Int(0, 3)) + "/0" + std::to_string(c.Int(1, 9)) + "/11 0" + std::to_string(c.Int(0, 9)) + ":00:00.0", 1000, 1, 1, 1, 1, 1, 1000, 1000, 1, 1000);
  const int crafts = (int)c.Int(1, 2);
  struct Plan {
    bool controlled, held;
    int main, sub;
    Axes b;
    Site site;
    Q4 q;
  };
  std::vector<Plan> plan;
  for (int i = 0; i < crafts; i++) {
    if (i) s.AddSpacecraft(i);
    const std::string sat = s.Sat(i) + "satellite.ini", di = s.Sat(i) + "disturbance.ini";
    for (const char* k : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"}) s.Set(di, k, "calculation", false);
    Plan p;
    p.controlled = c.Bool(), p.held = c.Chance(0.15), p.main = (int)c.Int(0, 5), p.sub = (int)c.Int(0, 4), p.b = Body(c), p.site = Place(c), p.q = c.Quat();
    if (p.sub >= p.main) p.sub++;
    const double r = c.LogReal(6.6e6, 4e7);
    const V3 u = c.Dir(), w = ref::Unit(ref::Cross(u, std::fabs(u[2]) < 0.9 ? V3{0.1, 0.2, 1} : V3{1, 0, 0.1}));
    s.SetVec(sat, "ORBIT", "initial_position_i_m", r * u), s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", std::sqrt(kMu / r) * w);
    s.Set(sat, "ATTITUDE", "propagate_mode", p.controlled ? "CONTROLLED" : "RK4"), s.Set(sat, "ATTITUDE", "initialize_mode", p.controlled && c.Bool() ? "MANUAL" : "CONTROLLED");
    s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", p.q, 4);
    s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", V3{0.1, 0.2, 0.3});
    s.Set(sat, "CONTROLLED_ATTITUDE", "main_mode", p.held ? "INERTIAL_STABILIZE" : kNames[p.main]), s.Set(sat, "CONTROLLED_ATTITUDE", "sub_mode", kNames[p.sub]);
    s.SetVec(sat, "CONTROLLED_ATTITUDE", "main_pointing_direction_b", p.b.main), s.SetVec(sat, "CONTROLLED_ATTITUDE", "sub_pointing_direction_b", p.b.sub);
    s.Set(sat, "CONTROLLED_ATTITUDE", "target_position_latitude_deg", p.site.lat / kDeg), s.Set(sat, "CONTROLLED_ATTITUDE", "target_position_longitude_deg", p.site.lon / kDeg);
    s.Set(sat, "CONTROLLED_ATTITUDE", "target_position_altitude_m", p.site.alt);
    c.Note("spacecraft ", i, p.controlled ? " controlled " : " initialised ", kNames[p.main], " / ", kNames[p.sub], "; ");
    plan.push_back(p);
  }
  mission::Mission m(s);
  m.Initialize();
  c.NonTrivial();
  auto expect = [&](int i, double tol, const V3& r, const V3& v, const char* key) {
    const Plan& p = plan[i];
    auto& g = m.Env().GetCelestialInformation();
    const V3 sun = R(g.GetPositionFromCenter_i_m("SUN"));
    const M3 i2e = R(g.GetEarthRotation().GetDcmJ2000ToEcef());
    if (p.held) {
      NearAttitude(c, R(m.Sc(i).Dyn().GetAttitude().GetQuaternion_i2b()), p.q, 1e-12, "held-attitude");
      Near3(c, R(m.Sc(i).Dyn().GetAttitude().GetAngularVelocity_b_rad_s()), {0, 0, 0}, 1e-15, 0, "held-rate");
      return;
    }
    const V3 mi = Target(p.main, sun, r, v, i2e, p.site), si = Target(p.sub, sun, r, v, i2e, p.site);
    if (Separation(mi, si) < 1e-2) return;
    if (p.main == 3 || p.sub == 3) {  // the oracle's Earth turns about the inertial Z axis, which precession and nutation move off the real one
      const V3 turn = ref::Cross(V3{0, 0, 7.292115e-5}, r);
      tol += 3e-3 * ref::Norm(turn) / ref::Norm(v - turn);
      if (tol > 0.05) return;
    }
    Points(c, R(m.Sc(i).Dyn().GetAttitude().GetQuaternion_i2b()), p.b.main, p.b.sub, mi, si, tol, key);
  };
  for (int i = 0; i < crafts; i++)
    if (!plan[i].controlled) {
      auto& o = m.Sc(i).Dyn().GetOrbit();
      expect(i, 1e-3, R(o.GetPosition_i_m()), R(o.GetVelocity_i_m_s()), "initial-pointing");
      Near3(c, R(m.Sc(i).Dyn().GetAttitude().GetAngularVelocity_b_rad_s()), {0, 0, 0}, 1e-15, 0, "initial-rate");
    }
  for (int k = 0; k < 5; k++) {
    std::vector<V3> r, v;
    for (int i = 0; i < crafts; i++) r.push_back(R(m.Sc(i).Dyn().GetOrbit().GetPosition_i_m())), v.push_back(R(m.Sc(i).Dyn().GetOrbit().GetVelocity_i_m_s()));
    m.Step();
    for (int i = 0; i < crafts; i++)
      if (plan[i].controlled) expect(i, 5e-4, r[i], v[i], "mission-pointing");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D02", "targets well separated during most of the history; uncontrollable settings; a simulated mission",
                   {{"pointing", Pointing, 2500, 60000, 20}, {"rejected", Rejected, 500, 10000, 20}, {"mission", Mission, 150, 3000, 5, 60}});
}
