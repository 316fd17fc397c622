// link: sim
#include <disturbances/disturbance.hpp>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
static const char* kAll[] = {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"};
static mission::Settings Basic(Case& c, double att, double orb, double end) {
  mission::Settings s(c);
  const std::string sat = "sample_satellite/satellite.ini", st = "sample_satellite/structure.ini", di = "sample_satellite/disturbance.ini", le = "sample_satellite/local_environment.ini";
  mission::SetTime(s, "202" + std::to_string(c.Int(0, 4)) + "/0" + std::to_string(c.Int(1, 9)) + "/1" + std::to_string(c.Int(0, 9)) + " 11:00:00.0", end, 1, att, 0.5, orb, 1, 1e3, 100, 1, 100);
  const double r = c.Bool() ? c.Real(6.6e6, 7e6) : c.LogReal(6.6e6, 4e7);
  const V3 u = c.Dir(), w = ref::Unit(ref::Cross(u, std::fabs(u[2]) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0}));
  s.SetVec(sat, "ORBIT", "initial_position_i_m", r * u);
  s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", std::sqrt(3.986004415e14 / r) * w);
  s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4);
  s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", c.Real(0, 0.2) * c.Dir());
  for (const char* k : {"SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "ATMOSPHERE", "MAGNETIC_FIELD_ENVIRONMENT"}) s.Set(le, k, "calculation", "ENABLE");
  for (const char* k : {"magnetic_field_random_walk_standard_deviation_nT", "magnetic_field_white_noise_standard_deviation_nT"}) s.Set(le, "MAGNETIC_FIELD_ENVIRONMENT", k, 0.0);
  for (const char* key : {"rmm_random_walk_speed_Am2", "rmm_random_walk_limit_Am2", "rmm_white_noise_standard_deviation_Am2"}) s.Set(st, "RESIDUAL_MAGNETIC_MOMENT", key, 0.0);
  s.SetVec(st, "KINEMATIC_PARAMETERS", "center_of_gravity_b_m", V3{c.Real(-.3, .3), c.Real(-.3, .3), c.Real(-.3, .3)});
  s.Set(st, "KINEMATIC_PARAMETERS", "mass_kg", c.LogReal(1, 1000));
  std::string t;
  char b[100];
  for (int n = 2; n <= 4; n++)
    for (int m = 0; m <= n; m++) snprintf(b, sizeof b, "%d %d %.6e %.6e\n", n, m, n == 2 && m == 0 ? -4.8e-4 : 1e-6 * (2 * c.Unit() - 1), m ? 1e-6 * (2 * c.Unit() - 1) : 0.0), t += b;
  const std::string file = c.TempDir() + "/g.tab";
  mission::Spit(file, t);
  s.Set(di, "GEOPOTENTIAL", "coefficients_file_path", file), s.Set(di, "GEOPOTENTIAL", "degree", (int)c.Int(2, 4));
  s.Set(di, "THIRD_BODY_GRAVITY", "number_of_third_body", 2), s.Set(di, "THIRD_BODY_GRAVITY", "third_body_name(0)", "SUN"), s.Set(di, "THIRD_BODY_GRAVITY", "third_body_name(1)", "MOON");
  return s;
}
struct Total {
  V3 f, t, a;
};
static Total Read(mission::Craft& sc) { return {R(sc.Dist().GetForce_b_N()), R(sc.Dist().GetTorque_b_Nm()), R(sc.Dist().GetAcceleration_i_m_s2())}; }
static double Mag(const Total& x, int k) { return ref::Norm(k == 0 ? x.f : k == 1 ? x.t : x.a); }
// totals over three steps with the given switches; attitudes and orbits are kept frozen so that every run sees the same states
static std::vector<Total> Run(mission::Settings s, unsigned mask) {
  for (int i = 0; i < 6; i++) s.Set("sample_satellite/disturbance.ini", kAll[i], "calculation", (mask >> i & 1) != 0);
  s.Set("sample_satellite/satellite.ini", "ORBIT", "calculation", "DISABLE");
  mission::Mission m(s);
  m.Initialize();
  std::vector<Total> v;
  const V3 w{0.1, -0.2, 0.3};
  for (int k = 0; k < 3; k++) {
    m.Sc().Dyn().SetAttitude().SetQuaternion_i2b(S(ref::AxisAngle(ref::Unit(w), 0.7 * k)));
    m.Step();
    v.push_back(Read(m.Sc()));
  }
  return v;
}
static void Sums(Case& c) {
  mission::Quiet quiet;
  const double att = c.Int(1, 2);
  const mission::Settings s = Basic(c, att, att * (double)c.Int(1, 2), 100);
  std::vector<std::vector<Total>> one;
  for (int i = 0; i < 6; i++) one.push_back(Run(s, 1u << i));
  // kinds of effect: surface forces and torques, torques, accelerations
  for (int k = 0; k < 3; k++) {
    for (int i : {0, 4}) c.Check(Mag(one[i][k], 0) == 0 && Mag(one[i][k], 2) == 0, "torque-only", kAll[i]);
    for (int i : {1, 3}) c.Check(Mag(one[i][k], 2) == 0, "surface-only", kAll[i]);
    for (int i : {2, 5}) c.Check(Mag(one[i][k], 0) == 0 && Mag(one[i][k], 1) == 0, "gravity-only", kAll[i]);
  }
  // nothing moves but the attitude: position-only accelerations persist between updates and never pile up
  for (int i : {2, 5})
    for (int k = 1; k < 3; k++)
      if (Mag(one[i][k - 1], 2) > 0) Near3(c, one[i][k].a, one[i][k - 1].a, 0.05 * Mag(one[i][k - 1], 2), 0, "acceleration-persists", kAll[i]);
  for (int i : {0, 2, 3, 4, 5}) c.Check(Mag(one[i][2], i == 2 || i == 5 ? 2 : 1) > 0 || i == 0, "has-no-effect", kAll[i]);
  for (int r = 0; r < 4; r++) {
    const unsigned mask = r == 0 ? 63u : (unsigned)c.Int(0, 63);
    c.Note("mask ", mask);
    const auto got = Run(s, mask);
    for (int k = 0; k < 3; k++) {
      Total want{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
      double mag[3] = {0, 0, 0};
      for (int i = 0; i < 6; i++)
        if (mask >> i & 1) {
          want.f = want.f + one[i][k].f, want.t = want.t + one[i][k].t, want.a = want.a + one[i][k].a;
          for (int j = 0; j < 3; j++) mag[j] += Mag(one[i][k], j);
        }
      Near3(c, got[k].f, want.f, 1e-14 * mag[0], 0, "force-sum");
      Near3(c, got[k].t, want.t, 1e-14 * mag[1], 0, "torque-sum");
      Near3(c, got[k].a, want.a, 1e-14 * mag[2], 0, "acceleration-sum");
    }
    c.NonTrivial(mask != 0);
  }
}
// components with prescribed output
static V3 g_f, g_t;
static double g_mass, g_fuel;
class Thrusters : public s2e::spacecraft::InstalledComponents {
 public:
  explicit Thrusters(s2e::spacecraft::Structure* s) : s_(s) {}
  s2e::math::Vector<3> GenerateForce_b_N() override { return S(g_f); }
  s2e::math::Vector<3> GenerateTorque_b_Nm() override { return S(g_t); }
  void ComponentInterference() override {
    if (g_mass > 0) s_->GetToSetKinematicsParameters().SetMass_kg(g_mass);
    if (g_fuel != 0) s_->GetToSetKinematicsParameters().AddMass_kg(g_fuel);
  }

 private:
  s2e::spacecraft::Structure* s_;
};
static void Response(Case& c) {
  mission::Quiet quiet;
  const double att = c.Int(1, 3), orb = c.Int(1, 3);
  mission::Settings s = Basic(c, att, orb, 100);
  const unsigned mask = (unsigned)c.Int(0, 63);
  for (int i = 0; i < 6; i++) s.Set("sample_satellite/disturbance.ini", kAll[i], "calculation", (mask >> i & 1) != 0);
  g_f = g_t = {0, 0, 0}, g_mass = g_fuel = 0;
  mission::Mission m(s, [](s2e::dynamics::Dynamics*, s2e::spacecraft::Structure* st, const s2e::environment::LocalEnvironment*, const s2e::environment::GlobalEnvironment*,
                           const s2e::simulation::SimulationConfiguration*, s2e::environment::ClockGenerator*, unsigned) -> s2e::spacecraft::InstalledComponents* { return new Thrusters(st); });
  m.Initialize();
  auto& sc = m.Sc();
  c.Note("mask ", mask, " attitude period ", att, " orbit period ", orb);
  const double gm = fake::GM(399) * 1e9;
  double t_att = 0, t_orb = 0;
  for (int k = 1; k <= 8; k++) {
    const bool push = c.Chance(0.8);
    g_f = push ? c.LogReal(1e-6, 10) * c.Dir() : V3{0, 0, 0}, g_t = push && c.Chance(0.8) ? c.LogReal(1e-8, 1e-3) * c.Dir() : V3{0, 0, 0};
    g_mass = c.Chance(0.3) ? c.LogReal(1, 1000) : 0;
    // fuel is used up or taken on; more than the whole mass cannot leave
    const double before = g_mass > 0 ? g_mass : sc.Str().GetKinematicsParameters().GetMass_kg();
    g_fuel = c.Chance(0.4) ? before * c.Of<double>({c.Real(-0.5, 0), c.Real(0, 0.5), -c.Real(1.01, 3)}) : 0;
    const V3 r = R(sc.Dyn().GetOrbit().GetPosition_i_m()), v = R(sc.Dyn().GetOrbit().GetVelocity_i_m_s()), w = R(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s());
    const Q4 q = R(sc.Dyn().GetAttitude().GetQuaternion_i2b());
    m.Step();
    const Total d = Read(sc);
    const double now = m.Time().GetElapsedTime_s(), mass = sc.Str().GetKinematicsParameters().GetMass_kg();
    c.Near(mass, before + g_fuel > 0 ? before + g_fuel : before, 0, 1e-14, "mass");
    const V3 acc = d.a + (1 / mass) * ref::Rotate(q, d.f + g_f), torque = d.t + g_t;
    const bool a_now = m.Time().GetAttitudePropagateFlag(), o_now = m.Time().GetOrbitPropagateFlag();
    if (o_now) {
      const double dt = now - t_orb;
      // the perturbing velocity change stands out against the two-body motion
      using St = std::vector<double>;
      const St x = ref::Rk4(St{r[0], r[1], r[2], v[0], v[1], v[2]}, 0.0, 1.0, std::lround(dt), [&](double, const St& y) {
        const double n = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), g = -gm / (n * n * n);
        return St{y[3], y[4], y[5], g * y[0] + acc[0], g * y[1] + acc[1], g * y[2] + acc[2]};
      });
      const V3 gr = R(sc.Dyn().GetOrbit().GetPosition_i_m()), gv = R(sc.Dyn().GetOrbit().GetVelocity_i_m_s());
      Near3(c, gr, {x[0], x[1], x[2]}, 3e-15 * ref::Norm(r) + 1e-9 * ref::Norm(acc) * dt * dt, 0, "position");
      Near3(c, gv, {x[3], x[4], x[5]}, 3e-15 * ref::Norm(v) + 1e-9 * ref::Norm(acc) * dt, 0, "velocity");
      c.NonTrivial(ref::Norm(acc) * dt > 1e-10 * ref::Norm(v));
      t_orb = now;
    }
    if (a_now) {
      const M3 inertia = R(sc.Str().GetKinematicsParameters().GetInertiaTensor_b_kgm2()), inv = ref::Inv(inertia);
      using St = std::vector<double>;
      const St y = ref::Rk4(St{w[0], w[1], w[2]}, 0.0, 0.5, std::lround((now - t_att) / 0.5), [&](double, const St& z) {
        const V3 o{z[0], z[1], z[2]}, d = inv * (torque - ref::Cross(o, inertia * o));
        return St{d[0], d[1], d[2]};
      });
      const V3 x{y[0], y[1], y[2]};
      Near3(c, R(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()), x, 1e-11 * (ref::Norm(w) + ref::Norm(x)) + 1e-15, 0, "rate");
      t_att = now;
    } else
      Near3(c, R(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()), w, 0, 0, "rate-held");
    if (!o_now) Near3(c, R(sc.Dyn().GetOrbit().GetPosition_i_m()), r, 0, 0, "position-held");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "F04", "at least one disturbance or component force acts",
                   {{"sums", Sums, 120, 3000, 3, 60}, {"response", Response, 400, 10000, 5, 60}}, {"ephemeris and atmosphere stand-ins as in E01 and E05", "RK4 orbit and attitude propagation"});
}
