// link: sim
#include <dynamics/orbit/encke_orbit_propagation.hpp>
#include <dynamics/orbit/kepler_orbit_propagation.hpp>
#include <dynamics/orbit/rk4_orbit_propagation.hpp>
#include "mission.hpp"
#include "orbit_ref.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
using orbit_ref::Elements;
namespace ob = s2e::dynamics::orbit;
static const double kDay = 86400;
// analytic motion against the independent solution of Kepler's equation, and the invariants of the two-body problem
static void Kepler(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  const Elements el = orbit_ref::AnyOrbit(c);
  const double jd0 = 2451545.0 + c.Real(0, 9000);
  c.Note(orbit_ref::Str(el), " epoch ", mission::Num(jd0));
  s2e::orbit::OrbitalElements oe(jd0, el.a, el.e, el.i, el.raan, el.argp);
  s2e::orbit::KeplerOrbit kepler(el.mu, oe);
  ob::KeplerOrbitPropagation prop(&rig.global, jd0, kepler);
  prop.SetIsCalcEnabled(true);
  const double n = std::sqrt(el.mu / el.a) / el.a;
  const double vp = std::sqrt(el.mu / el.a * (1 + el.e) / (1 - el.e));  // fastest
  if (el.e > 0.01) c.NonTrivial();
  V3 h0{0, 0, 0}, e0{0, 0, 0};
  for (int k = 0; k < 12; k++) {
    const double t = k == 0 ? 0 : (c.Bool() ? c.Real(-1, 3) * 2 * M_PI / n : c.EdgeReal(-1, 1) * M_PI / n);
    const double jd = jd0 + t / kDay, dt = (jd - jd0) * kDay;
    const auto want = orbit_ref::At(el, dt);
    kepler.CalcOrbit(jd), prop.Propagate(t, jd);
    const V3 r = R(kepler.GetPosition_i_m()), v = R(kepler.GetVelocity_i_m_s());
    const double eps_t = 1e-9 + 1e-14 * std::fabs(dt);
    const double rn = ref::Norm(want.r), slope = 1 / (1 - el.e);
    Near3(c, r, want.r, vp * eps_t + 1e-8 * el.a * slope, 0, "kepler-position", "at " + mission::Num(dt) + " s");
    Near3(c, v, want.v, el.mu / rn / rn * eps_t + 1e-8 * vp * slope, 0, "kepler-velocity", "at " + mission::Num(dt) + " s");
    Near3(c, R(((ob::Orbit&)prop).GetPosition_i_m()), r, 0, 1e-14, "propagator-position");
    Near3(c, R(((ob::Orbit&)prop).GetVelocity_i_m_s()), v, 0, 1e-14, "propagator-velocity");
    const double energy = ref::Dot(v, v) / 2 - el.mu / ref::Norm(r);
    c.Near(energy, -el.mu / 2 / el.a, 1e-10 * vp * vp, 0, "energy", "specific energy");
    const V3 h = ref::Cross(r, v), ev = ref::Cross(v, h) / el.mu - ref::Unit(r);
    if (k == 0) h0 = h, e0 = ev;
    Near3(c, h, h0, 0, 1e-11, "angular-momentum");
    Near3(c, ev, e0, 1e-10, 0, "eccentricity-vector");
    c.Near(ref::Norm(h), std::sqrt(el.mu * el.a * (1 - el.e * el.e)), 0, 1e-11, "angular-momentum-size", "h");
  }
  // one period later
  const double jd = jd0 + 2 * M_PI / n / kDay;
  kepler.CalcOrbit(jd0);
  const V3 r = R(kepler.GetPosition_i_m());
  kepler.CalcOrbit(jd);
  Near3(c, R(kepler.GetPosition_i_m()), r, vp * 1e-4, 0, "period", "after one period");
  c.Check((int)prop.GetPropagateMode() == (int)ob::OrbitPropagateMode::kKepler, "mode", "propagation mode reported by the two-body method");
}
using State = std::vector<double>;
static State Rates(const State& x, double mu, const V3& acc) {
  const double r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], k = mu / (r2 * std::sqrt(r2));
  return {x[3], x[4], x[5], acc[0] - k * x[0], acc[1] - k * x[1], acc[2] - k * x[2]};
}
// propagates and accumulates the error estimate of a fourth-order method with steps of h
static State Advance(State x, double mu, const V3& acc, double t, double h, double* er, double* ev) {
  auto f = [&](double, const State& s) { return Rates(s, mu, acc); };
  State coarse = x;
  const long n = std::max(1L, (long)std::ceil(t / h - 1e-9));
  for (long k = 0; k < n; k++) coarse = ref::Rk4(coarse, 0, std::min(h, t - h * (double)k), 1, f);
  x = ref::Rk4(x, 0, t / (double)(3 * n), 3 * n, f);
  for (int i = 0; i < 3; i++) *er += std::fabs(coarse[i] - x[i]), *ev += std::fabs(coarse[3 + i] - x[3 + i]);
  return x;
}
static V3 Pos(const State& x) { return {x[0], x[1], x[2]}; }
static V3 Vel(const State& x) { return {x[3], x[4], x[5]}; }
static void Numerical(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  const Elements el = orbit_ref::AnyOrbit(c);
  const double n_p = std::sqrt(el.mu / std::pow(el.a * (1 - el.e), 3));  // angular rate scale at perigee
  const double h = c.LogReal(1e-5, 0.03) / n_p;
  const double n = std::sqrt(el.mu / el.a) / el.a;
  const auto s0 = orbit_ref::At(el, c.Real(0, 2 * M_PI) / n);
  const bool encke = c.Bool();
  const double jd0 = 2451545.0 + (double)c.Int(0, 9000) + 0.25 * (double)c.Int(0, 3);
  const double tolerance = c.LogReal(1e-9, 1e-2);
  std::unique_ptr<ob::Orbit> o;
  if (encke)
    o.reset(new ob::EnckeOrbitPropagation(&rig.global, el.mu, h, jd0, S(s0.r), S(s0.v), tolerance));
  else
    o.reset(new ob::Rk4OrbitPropagation(&rig.global, el.mu, h, S(s0.r), S(s0.v)));
  c.Note(encke ? "Encke " : "RK4 ", orbit_ref::Str(el), " r ", Str(s0.r), " v ", Str(s0.v), " step ", h, encke ? " rectification " + mission::Num(tolerance) : "");
  c.Check((int)o->GetPropagateMode() == (int)(encke ? ob::OrbitPropagateMode::kEncke : ob::OrbitPropagateMode::kRk4), "mode", "propagation mode reported");
  const double slack_t = encke ? 1e-4 : 0;  // resolution of the Julian date
  Near3(c, R(o->GetPosition_i_m()), s0.r, slack_t * ref::Norm(s0.v), 1e-12, "start-position");
  Near3(c, R(o->GetVelocity_i_m_s()), s0.v, slack_t * el.mu / ref::Dot(s0.r, s0.r), 1e-12, "start-velocity");
  // not enabled: nothing moves
  if (c.Chance(0.1)) {
    o->Propagate(10 * h, jd0 + 10 * h / kDay);
    Near3(c, R(o->GetPosition_i_m()), s0.r, slack_t * ref::Norm(s0.v), 1e-12, "disabled-position");
    c.Label("disabled");
    return;
  }
  o->SetIsCalcEnabled(true);
  State x{s0.r[0], s0.r[1], s0.r[2], s0.v[0], s0.v[1], s0.v[2]};
  double t = 0, er = 0, ev = 0;
  const long updates = c.Int(1, 15);
  const bool quiet_run = c.Chance(0.2);
  const V3 h0 = ref::Cross(s0.r, s0.v);
  if (!quiet_run) c.NonTrivial();
  for (long k = 0; k < updates; k++) {
    const double dt = h * (c.Chance(0.1) ? c.Real(10, 300) : c.Bool() ? (double)c.Int(1, 6) : c.Real(0.2, 6));
    const double g = el.mu / (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
    const V3 acc = quiet_run || c.Chance(0.2) ? V3{0, 0, 0} : (g * c.LogReal(1e-9, 0.03)) * c.Dir();
    // the acceleration is given in pieces: directly, as an inertial and as a body force
    const V3 a1 = c.Unit() * acc;
    const V3 f = acc - a1;
    const double mass = c.LogReal(0.1, 1e4);
    const Q4 q = c.Quat();
    o->SetAcceleration_i_m_s2(S(V3{0, 0, 0}));
    o->AddAcceleration_i_m_s2(S(a1));
    if (c.Bool())
      o->AddForce_i_N(S(mass * f), mass);
    else
      o->AddForce_b_N(S(ref::ToFrame(q, mass * f)), S(q), mass);
    t += dt;
    x = Advance(x, el.mu, acc, dt, h, &er, &ev);
    if (!(ref::Norm(Pos(x)) > 6.55e6)) return;  // about to hit the ground, where the simulation ends
    o->Propagate(t, jd0 + t / kDay);
    const double growth = 30 * (1 + 3 * n_p * t);
    const double js = slack_t * (double)(k + 2);
    const double tol_r = growth * (er + ev * std::min(t, 1 / n_p) + js * ref::Norm(Vel(x)) + 1e-13 * ref::Norm(Pos(x)));
    const double tol_v = growth * (ev + er * n_p + js * g + 1e-13 * ref::Norm(Vel(x)));
    if (tol_r > 1e-2 * ref::Norm(Pos(x))) {
      c.Label("too-coarse");
      return;
    }
    Near3(c, R(o->GetPosition_i_m()), Pos(x), tol_r, 0, encke ? "encke-position" : "rk4-position", "update " + std::to_string(k));
    Near3(c, R(o->GetVelocity_i_m_s()), Vel(x), tol_v, 0, encke ? "encke-velocity" : "rk4-velocity", "update " + std::to_string(k));
    if (quiet_run) Near3(c, ref::Cross(R(o->GetPosition_i_m()), R(o->GetVelocity_i_m_s())), h0, tol_r * ref::Norm(Vel(x)) + tol_v * ref::Norm(Pos(x)), 1e-12, "momentum", "orbital angular momentum");
  }
}
struct Pusher : s2e::spacecraft::InstalledComponents {
  std::function<V3()> force;
  s2e::math::Vector<3> GenerateForce_b_N() override { return S(force()); }
};
// the three methods in missions from the same start
static void Mission(Case& c) {
  mission::Quiet quiet;
  const double mu = 3.986004415e14;
  Elements el = orbit_ref::AnyOrbit(c);
  el.mu = fake::GM(399) * 1e9;
  const double n_p = std::sqrt(el.mu / std::pow(el.a * (1 - el.e), 3)), n = std::sqrt(el.mu / el.a) / el.a;
  (void)mu;
  const auto s0 = orbit_ref::At(el, c.Real(0, 2 * M_PI) / n);
  const double step = c.Of<double>({0.1, 1, 5}), orb = step * (double)c.Int(1, 3), rk = c.Of<double>({orb, orb / 2, orb / 5, orb * 0.6});
  const bool elements = c.Bool(), push = c.Bool();
  const double mass = c.LogReal(1, 100);
  std::vector<V3> forces;
  for (int k = 0; k < 8; k++) forces.push_back(push && !c.Chance(0.3) ? (mass * 0.1 * c.Unit()) * c.Dir() : V3{0, 0, 0});
  const Q4 q = c.Quat();
  c.Note(orbit_ref::Str(el), " step ", step, " orbit period ", orb, " integration ", rk, push ? " with thrust" : "", elements ? " from elements" : "");
  c.NonTrivial();
  struct Case1 {
    const char* mode;
    bool thrust;
  };
  for (const char* mode : {"RK4", "KEPLER", "ENCKE", "unknown"}) {
    const bool kepler = mode[0] == 'K', encke = mode[0] == 'E';
    mission::Settings s(c);
    const std::string sat = "sample_satellite/satellite.ini";
    mission::SetTime(s, "2021/05/06 07:08:09.0", 1000, step, step, step, orb, rk, 1000, 1000, step, 1000);
    for (const char* k : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"}) s.Set("sample_satellite/disturbance.ini", k, "calculation", false);
    s.Set(sat, "ORBIT", "propagate_mode", mode);
    s.Set(sat, "ORBIT", "initialize_mode", elements ? "ORBITAL_ELEMENTS" : kepler || c.Bool() ? "POSITION_VELOCITY_I" : "DEFAULT");
    s.SetVec(sat, "ORBIT", "initial_position_i_m", elements ? V3{7e6, 0, 0} : s0.r), s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", elements ? V3{0, 7e3, 0} : s0.v);
    double jd0 = 0;
    jday(2021, 5, 6, 7, 8, 9.0, jd0);
    const double t0 = s0.t;  // since perigee
    const double epoch = jd0 - t0 / kDay;
    s.Set(sat, "ORBIT", "epoch_jday", epoch);
    s.Set(sat, "ORBIT", "semi_major_axis_m", el.a), s.Set(sat, "ORBIT", "eccentricity", el.e), s.Set(sat, "ORBIT", "inclination_rad", el.i);
    s.Set(sat, "ORBIT", "raan_rad", el.raan), s.Set(sat, "ORBIT", "argument_of_perigee_rad", el.argp);
    s.Set(sat, "ORBIT", "error_tolerance", c.LogReal(1e-8, 1e-3));
    s.Set("sample_satellite/structure.ini", "KINEMATIC_PARAMETERS", "mass_kg", mass);
    s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", q, 4), s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", V3{0, 0, 0});
    size_t now = 0;
    mission::Mission m(s, [&](auto*, auto*, auto*, auto*, auto*, auto*, unsigned) {
      auto* p = new Pusher;
      p->force = [&] { return ref::ToFrame(q, forces[now]); };
      return p;
    });
    m.Initialize();
    auto& o = m.Sc().Dyn().GetOrbit();
    State x{s0.r[0], s0.r[1], s0.r[2], s0.v[0], s0.v[1], s0.v[2]};
    double last = 0, er = 0, ev = 0;
    const double js = 1e-4 * (elements || kepler || encke ? 1 : 0);
    for (now = 0; now < forces.size(); now++) {
      m.Step();
      const double t = m.Time().GetElapsedTime_s();
      if (m.Time().GetOrbitPropagateFlag()) {
        x = Advance(x, el.mu, kepler ? V3{0, 0, 0} : forces[now] / mass, t - last, std::min(rk, t - last), &er, &ev);
        last = t;
      }
      const double growth = 30 * (1 + 3 * n_p * t), g = el.mu / ref::Dot(Pos(x), Pos(x));
      const double jn = js * (double)(now + 2);
      Near3(c, R(o.GetPosition_i_m()), Pos(x), growth * (er + ev * std::min(t, 1 / n_p) + jn * ref::Norm(Vel(x)) + 1e-12 * ref::Norm(Pos(x))), 0, std::string("mission-position-") + mode, "step " + std::to_string(now));
      Near3(c, R(o.GetVelocity_i_m_s()), Vel(x), growth * (ev + er * n_p + jn * g + 1e-12 * ref::Norm(Vel(x))), 0, std::string("mission-velocity-") + mode, "step " + std::to_string(now));
    }
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D03", "eccentric orbit; accelerations act during the history; a simulated mission",
                   {{"kepler", Kepler, 3000, 80000, 50}, {"numerical", Numerical, 3000, 60000, 50}, {"mission", Mission, 60, 1200, 3, 60}});
}
