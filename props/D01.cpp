// link: sim
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace at = s2e::dynamics::attitude;
using State = std::vector<double>;  // omega 3, quaternion 4, appendage rate 3, appendage angle 3
static V3 At(const State& x, int k) { return {x[k], x[k + 1], x[k + 2]}; }
static Q4 Quat(const State& x) { return {x[3], x[4], x[5], x[6]}; }
static M3 Scale(double s, M3 m) {
  for (auto& r : m) r = s * r;
  return m;
}
static M3 Add(const M3& a, const M3& b) {
  M3 r;
  for (int i = 0; i < 3; i++) r[i] = a[i] + b[i];
  return r;
}
// a physical inertia tensor: generated mass points
static M3 Inertia(Case& c, double scale) {
  const double p = c.Real(0.05, 1), q = c.Real(0.05, 1), r = c.Real(0.05, 1);
  const M3 m = ref::Dcm(c.Chance(0.2) ? Q4{0, 0, 0, 1} : c.Quat());
  const M3 d{{{scale * (q + r), 0, 0}, {0, scale * (p + r), 0}, {0, 0, scale * (p + q)}}};
  return ref::T(m) * (d * m);
}
struct Body {
  M3 inertia{}, inertia_inverse{}, inertia_rate{};
  V3 torque{}, wheel{};
  M3 appendage{};
  double damping = 0, stiffness = 0;
  bool flexible = false;
};
static State Rates(const Body& b, const State& x) {
  const V3 w = At(x, 0);
  const V3 h = b.inertia * w + b.wheel;
  const V3 n = b.torque - ref::Cross(w, h) - b.inertia_rate * w;
  State d(x.size(), 0.0);
  V3 a = b.inertia_inverse * n;
  if (b.flexible) {
    const V3 th = At(x, 10), v = At(x, 7);
    const V3 spring = b.damping * v + b.stiffness * th;
    a = b.inertia_inverse * (n + b.appendage * spring);
    const V3 t = -spring - a;  // the appendage's inertial acceleration comes from its spring alone
    for (int i = 0; i < 3; i++) d[7 + i] = t[i], d[10 + i] = v[i];
  }
  const Q4 q = ref::Mul(Quat(x), {w[0], w[1], w[2], 0});
  for (int i = 0; i < 3; i++) d[i] = a[i];
  for (int i = 0; i < 4; i++) d[3 + i] = 0.5 * q[i];
  return d;
}
// state after time t and an estimate of the error of a fourth-order method with steps of h (the last one shorter)
static State Advance(const Body& b, State x, double t, double h, double* err_w, double* err_q) {
  auto f = [&](double, const State& s) { return Rates(b, s); };
  State coarse = x;
  const long n = std::max(1L, (long)std::ceil(t / h - 1e-9));
  for (long k = 0; k < n; k++) coarse = ref::Rk4(coarse, 0, std::min(h, t - h * (double)k), 1, f);
  x = ref::Rk4(x, 0, t / (double)(4 * n), 4 * n, f);
  *err_w += ref::Norm(At(coarse, 0) - At(x, 0)) + (b.flexible ? ref::Norm(At(coarse, 7) - At(x, 7)) + ref::Norm(At(coarse, 10) - At(x, 10)) : 0);
  double e = 0;
  for (int i = 3; i < 7; i++) e += std::fabs(coarse[i] - x[i]);
  *err_q += 2 * e;
  const Q4 q = ref::Normalized(Quat(x));
  for (int i = 0; i < 4; i++) x[3 + i] = q[i];
  return x;
}
static State Start(const V3& w, const Q4& q, bool flexible) {
  State x{w[0], w[1], w[2], q[0], q[1], q[2], q[3]};
  if (flexible) x.resize(13, 0.0);
  return x;
}
static void Bookkeeping(Case& c, const at::Attitude& a, const M3& inertia, const V3& wheel) {
  const V3 w = R(a.GetAngularVelocity_b_rad_s());
  const V3 h = inertia * w;
  c.Near(a.GetTotalAngularMomentNorm_Nms(), ref::Norm(h + wheel), 1e-13 * (ref::Norm(h) + ref::Norm(wheel)), 1e-12, "momentum-norm", "total angular momentum");
  c.Near(a.GetKineticEnergy_J(), 0.5 * ref::Dot(h, w), 0, 1e-11, "energy", "kinetic energy");
  auto log = Log(a);
  c.Near(log["spacecraft_total_angular_momentum"], ref::Norm(h + wheel), 1e-5 * ref::Norm(h) + 1e-5 * ref::Norm(wheel), 1e-5, "momentum-log", "logged momentum");
  c.Near(log["spacecraft_kinematic_energy"], 0.5 * ref::Dot(h, w), 0, 1e-5, "energy-log", "logged energy");
}
// one model driven by a history of torques, wheel momenta and update periods
static void Drive(Case& c, bool flexible) {
  const double scale = c.LogReal(1e-2, 1e3);
  M3 inertia = Inertia(c, scale);
  s2e::math::Matrix<3, 3> held = S(inertia);
  const double fast = c.LogReal(1e-4, 2);  // body rate
  const V3 w = c.Chance(0.1) ? V3{0, 0, 0} : c.Chance(0.2) ? fast * ref::Unit(V3{0.01, 1, -0.01}) : fast * c.Dir();
  const Q4 q = c.Quat();
  const double h = std::min(c.LogReal(1e-3, 10), 0.1 / fast);
  Body b;
  b.flexible = flexible;
  b.inertia = inertia, b.inertia_inverse = ref::Inv(inertia);
  double omega_n = 0;
  std::unique_ptr<at::Attitude> a;
  if (flexible) {
    b.appendage = Inertia(c, scale * c.LogReal(1e-3, 0.5));
    const double zeta = c.Real(0, 0.3);
    omega_n = c.LogReal(1e-2, 1) * 0.1 / h;
    b.damping = 2 * zeta * omega_n, b.stiffness = omega_n * omega_n;
    a.reset(new at::AttitudeWithCantileverVibration(S(w), S(q), held, S(b.appendage), zeta, omega_n, S(V3{0, 0, 0}), h));
  } else {
    a.reset(new at::AttitudeRk4(S(w), S(q), held, S(V3{0, 0, 0}), h));
  }
  c.Note("w ", Str(w), " q ", Str(q), " step ", h, " inertia ", Str(inertia[0]), Str(inertia[1]), Str(inertia[2]), flexible ? " flexible" : "");
  State x = Start(w, q, flexible);
  Bookkeeping(c, *a, inertia, {0, 0, 0});
  double t = 0, ew = 0, eq = 0, slack = 0;
  const long n = c.Int(1, 8);
  const bool quiet = c.Chance(0.25), reshape = c.Chance(0.35);
  const V3 h0 = ref::Rotate(q, inertia * w);
  const double e0 = 0.5 * ref::Dot(inertia * w, w);
  if (!quiet) c.NonTrivial();
  for (long k = 0; k < n; k++) {
    const double dt = h * (c.Chance(0.1) ? c.Real(6, 80) : c.Bool() ? (double)c.Int(1, 6) : c.Real(0.3, 6));
    const double i0 = scale * fast;
    b.torque = quiet || c.Chance(0.2) ? V3{0, 0, 0} : (0.05 * i0 * c.Unit() / h) * c.Dir();
    const bool spin = !quiet && c.Chance(0.5);
    if (spin) b.wheel = (3 * i0 * c.Unit()) * c.Dir();
    double slack_w = 0;
    b.inertia_rate = M3{};
    if (reshape && !quiet && c.Chance(0.6)) {
      // deployment or fuel use: small relative change during this update
      const M3 next = Add(inertia, Scale(c.LogReal(1e-6, 2e-2), Add(Inertia(c, scale), Scale(-0.5, inertia))));
      b.inertia_rate = Scale(1 / dt, Add(next, Scale(-1, inertia)));
      // the momentum balance with the tensor varying linearly
      M3 mid = Add(Scale(0.5, inertia), Scale(0.5, next));
      double d = 0;
      for (auto& r : b.inertia_rate) d += ref::Norm(r) * dt;
      const M3 inv = ref::Inv(next);
      double s = 0;
      for (auto& r : inv) s += ref::Norm(r);
      const V3 now = At(x, 0);
      const double effort = ref::Norm(b.torque) + (ref::Norm(b.wheel) + scale * 2 * ref::Norm(now)) * ref::Norm(now) + (flexible ? scale * b.stiffness * ref::Norm(At(x, 10)) + scale * b.damping * ref::Norm(At(x, 7)) : 0);
      // treating the tensor as the old or the new one inside the update
      slack_w = 4 * s * d * (s * effort * dt + s * d * ref::Norm(now));
      inertia = next, held = S(next);
      b.inertia = mid, b.inertia_inverse = ref::Inv(mid);
      c.Label("inertia-change");
      c.Note("update ", k, " inertia change ", d);
    }
    a->SetTorque_b_Nm(S(V3{0, 0, 0}));
    a->AddTorque_b_Nm(S(0.25 * b.torque));
    a->AddTorque_b_Nm(S(0.75 * b.torque));
    a->SetRwAngularMomentum_b_Nms(S(b.wheel));
    t += dt;
    a->Propagate(t);
    x = Advance(b, x, dt, h, &ew, &eq);
    b.inertia = inertia, b.inertia_inverse = ref::Inv(inertia);
    slack += slack_w;
    const double ref_w = ref::Norm(At(x, 0)) + fast;
    const double tol_w = 20 * ew + 1e-11 * ref_w + (flexible ? 4 * slack : slack_w);
    const double tol_q = 20 * (eq + ew * t) + 1e-10 + (flexible ? 4 * slack * t : slack_w * dt);
    if (tol_w > 1e-2 * ref_w || tol_q > 1e-2) {
      c.Label("too-coarse");
      return;
    }
    Near3(c, R(a->GetAngularVelocity_b_rad_s()), At(x, 0), tol_w, 0, flexible ? "flexible-rate" : "rate", "update " + std::to_string(k));
    NearAttitude(c, R(a->GetQuaternion_i2b()), Quat(x), tol_q, flexible ? "flexible-attitude" : "attitude", "update " + std::to_string(k));
    const Q4 u = R(a->GetQuaternion_i2b());
    c.Near(u[0] * u[0] + u[1] * u[1] + u[2] * u[2] + u[3] * u[3], 1, 1e-13, 0, "unit", "squared quaternion length");
    Bookkeeping(c, *a, inertia, b.wheel);
    if (flexible) {
      auto log = Log(*a);
      for (int i = 0; i < 3; i++) {
        const std::string s(1, "xyz"[i]);
        c.Near(log["angular_velocity_cantilever_c_" + s], x[7 + i], tol_w + 1e-5 * ref::Norm(At(x, 7)), 0, "appendage-rate", "appendage rate " + s);
        c.Near(log["euler_angular_cantilever_c_" + s], x[10 + i], tol_q + tol_w / std::max(omega_n, 1e-3) + 1e-5 * ref::Norm(At(x, 10)), 0, "appendage-angle", "appendage angle " + s);
      }
    }
    if (slack_w > 0 && !flexible) {  // continue from the simulated state so that only this update's approximation counts
      const V3 v = R(a->GetAngularVelocity_b_rad_s());
      for (int i = 0; i < 3; i++) x[i] = v[i];
      for (int i = 0; i < 4; i++) x[3 + i] = u[i];
    }
    if (quiet && !flexible) {
      Near3(c, ref::Rotate(u, inertia * R(a->GetAngularVelocity_b_rad_s())), h0, (tol_w * 2 * scale + tol_q * ref::Norm(h0)) * 2, 0, "momentum", "inertial momentum without torque");
      c.Near(a->GetKineticEnergy_J(), e0, tol_w * 4 * scale * ref_w, 0, "energy-conserved", "energy without torque");
    }
    if (quiet && flexible) {
      // no external torque: the energy of body, appendage and spring never grows, the total momentum of both... is left to the reference model
    }
  }
}
static void Rigid(Case& c) { Drive(c, false); }
static void Flexible(Case& c) { Drive(c, true); }
// in a simulated mission: component torque and wheel momentum reach the attitude at the configured period
struct Pusher : s2e::spacecraft::InstalledComponents {
  std::function<V3()> torque;
  s2e::math::Vector<3> GenerateTorque_b_Nm() override { return S(torque()); }
};
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  const std::string sat = "sample_satellite/satellite.ini", st = "sample_satellite/structure.ini", di = "sample_satellite/disturbance.ini";
  const double step = c.Of<double>({0.1, 0.5, 1}), att = step * (double)c.Int(1, 3), rk = c.Of<double>({att, att / 2, att / 5, att * 0.6});
  const char* mode = c.Of<const char*>({"RK4", "RK4", "CANTILEVER_VIBRATION", "unknown"});
  const bool flexible = mode[0] == 'C';
  mission::SetTime(s, "2020/01/01 00:00:00.0", 1000, step, att, rk, step, step, 1000, 1000, step, 1000);
  for (const char* k : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"}) s.Set(di, k, "calculation", false);
  const double fast = c.LogReal(1e-3, 0.1);
  const V3 w = fast * c.Dir();
  const Q4 q = c.Quat();
  const double scale = c.LogReal(0.1, 100);
  const M3 inertia = Inertia(c, scale), app = Inertia(c, 0.1 * scale);
  auto flat = [](const M3& m) {
    std::vector<double> v;
    for (auto& r : m)
      for (double e : r) v.push_back(e);
    return v;
  };
  const double zeta = c.Real(0, 0.2), wn = c.Real(0.1, 0.5);
  const V3 first = c.Bool() ? V3{0, 0, 0} : (0.02 * scale * fast / att) * c.Dir();  // acts in the first attitude propagation only
  s.Set(sat, "ATTITUDE", "propagate_mode", mode), s.Set(sat, "ATTITUDE", "initialize_mode", "MANUAL");
  s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", q, 4), s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", w);
  s.SetVec(sat, "ATTITUDE", "initial_torque_b_Nm", first);
  s.SetVec(st, "KINEMATIC_PARAMETERS", "inertia_tensor_kgm2", flat(inertia), 9);
  s.SetVec(st, "CANTILEVER_PARAMETERS", "inertia_tensor_cantilever_kgm2", flat(app), 9);
  s.Set(st, "CANTILEVER_PARAMETERS", "damping_ratio_cantilever", zeta), s.Set(st, "CANTILEVER_PARAMETERS", "intrinsic_angular_velocity_cantilever_rad_s", wn);
  // the cantilever settings are looked up through satellite.ini
  V3 now{0, 0, 0};
  mission::Mission m(s, [&](auto*, auto*, auto*, auto*, auto*, auto*, unsigned) {
    auto* p = new Pusher;
    p->torque = [&] { return now; };
    return p;
  });
  m.Initialize();
  c.Note(mode, " step ", step, " attitude period ", att, " integration step ", rk, " w ", Str(w), " q ", Str(q));
  Body b;
  b.flexible = flexible, b.inertia = inertia, b.inertia_inverse = ref::Inv(inertia), b.appendage = app, b.damping = 2 * zeta * wn, b.stiffness = wn * wn;
  State x = Start(w, q, flexible);
  double last = 0, ew = 0, eq = 0;
  V3 extra = first;
  c.NonTrivial();
  for (int k = 0; k < 9; k++) {
    now = c.Chance(0.3) ? V3{0, 0, 0} : (0.02 * scale * fast / att) * c.Dir();
    if (c.Chance(0.4)) b.wheel = (scale * fast * c.Unit()) * c.Dir(), m.Sc().Dyn().SetAttitude().SetRwAngularMomentum_b_Nms(S(b.wheel));
    m.Step();
    auto& a = m.Sc().Dyn().GetAttitude();
    if (m.Time().GetAttitudePropagateFlag()) {
      const double t = m.Time().GetElapsedTime_s();
      b.torque = now + extra;
      x = Advance(b, x, t - last, std::min(rk, t - last), &ew, &eq);
      last = t;
    }
    const V3 applied = now + extra;
    if (last > 0) extra = {0, 0, 0};
    const double tol_w = 20 * ew + 1e-11 * fast, tol_q = 20 * (eq + ew * last) + 1e-10;
    Near3(c, R(a.GetAngularVelocity_b_rad_s()), At(x, 0), tol_w, 0, "mission-rate", "step " + std::to_string(k));
    NearAttitude(c, R(a.GetQuaternion_i2b()), Quat(x), tol_q, "mission-attitude", "step " + std::to_string(k));
    auto log = Log(a);
    for (int i = 0; i < 3; i++) {
      const std::string e(1, "xyz"[i]);
      c.Near(log["spacecraft_torque_b_" + e], applied[i], 1e-5 * ref::Norm(applied), 0, "torque-log", "logged torque " + e);
      c.Near(log["spacecraft_angular_velocity_b_" + e], x[i], tol_w + 1e-5 * fast, 0, "rate-log", "logged rate " + e);
    }
    const char* n[] = {"x", "y", "z", "w"};
    for (int i = 0; i < 4; i++) c.Near(log[std::string("spacecraft_quaternion_i2b_") + n[i]], R(a.GetQuaternion_i2b())[i], 1e-5, 0, "quaternion-log", n[i]);
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D01", "torque, wheel momentum or inertia changes act on the body; a simulated mission",
                   {{"rigid", Rigid, 6000, 150000, 50}, {"flexible", Flexible, 4000, 80000, 50}, {"mission", Mission, 150, 2500, 5, 60}});
}
