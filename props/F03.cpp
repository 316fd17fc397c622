// link: sim
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
static M3 Inertia(Case& c, double k, double least) {
  // any symmetric positive definite tensor
  const Q4 q = c.Quat();
  const M3 d = ref::Dcm(q);
  double p[3];
  for (double& x : p) x = k * c.Real(least, 1);
  if (c.Chance(0.15)) p[1] = p[2] = p[0];
  M3 m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      m[i][j] = 0;
      for (int l = 0; l < 3; l++) m[i][j] += d[l][i] * p[l] * d[l][j];
    }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < i; j++) m[i][j] = m[j][i];
  return m;
}
static double Size(const M3& m) {
  double s = 0;
  for (auto& r : m)
    for (double x : r) s += std::fabs(x);
  return s;
}
static void SetInertia(mission::Settings& s, const std::string& sat, const M3& m) {
  double v[9];
  for (int i = 0; i < 9; i++) v[i] = m[i / 3][i % 3];
  s.SetVec(sat + "structure.ini", "KINEMATIC_PARAMETERS", "inertia_tensor_kgm2", v, 9);
}
static void Only(mission::Settings& s, const std::string& sat, std::initializer_list<const char*> on) {
  for (const char* k : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "MAGNETIC_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"}) {
    bool e = false;
    for (const char* o : on) e |= std::string(o) == k;
    s.Set(sat + "disturbance.ini", k, "calculation", e);
  }
}
static void Torques(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  const bool moon = c.Chance(0.25);
  const double step = 1, att = step * (double)c.Int(1, 3), orb = att * (double)c.Int(1, 4);
  mission::SetTime(s, "202" + std::to_string(c.Int(0, 4)) + "/0" + std::to_string(c.Int(1, 9)) + "/1" + std::to_string(c.Int(0, 9)) + " 04:00:00.0", 100, step, att, 0.5, orb, 1, 50, 10, 50, 50);
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "center_object", moon ? "MOON" : "EARTH");
  const double gm = fake::GM(moon ? 301 : 399) * 1e9;
  const int n = (int)c.Int(1, 2);
  struct Craft {
    std::string sat;
    M3 inertia;
    double scale;
    V3 rmm;
    bool gg, mag;
  };
  std::vector<Craft> v;
  for (int i = 0; i < n; i++) {
    Craft k;
    k.sat = i ? s.AddSpacecraft(i) : s.Sat(0);
    const double r = moon ? c.LogReal(1.8e6, 2e7) : c.LogReal(6.7e6, 4.5e7);
    const V3 u = c.Dir(), w = ref::Unit(ref::Cross(u, std::fabs(u[2]) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0}));
    s.SetVec(k.sat + "satellite.ini", "ORBIT", "initial_position_i_m", r * u);
    s.SetVec(k.sat + "satellite.ini", "ORBIT", "initial_velocity_i_m_s", c.Real(0.9, 1.1) * std::sqrt(gm / r) * w);
    s.SetVec(k.sat + "satellite.ini", "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4);
    s.SetVec(k.sat + "satellite.ini", "ATTITUDE", "initial_angular_velocity_b_rad_s", c.Real(0, 0.2) * c.Dir());
    k.scale = c.LogReal(0.1, 1e4), k.inertia = Inertia(c, k.scale, 0.05);
    SetInertia(s, k.sat, k.inertia);
    k.rmm = c.LogReal(1e-3, 0.3) * c.Dir();
    s.SetVec(k.sat + "structure.ini", "RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", k.rmm);
    for (const char* key : {"rmm_random_walk_speed_Am2", "rmm_random_walk_limit_Am2", "rmm_white_noise_standard_deviation_Am2"}) s.Set(k.sat + "structure.ini", "RESIDUAL_MAGNETIC_MOMENT", key, 0.0);
    s.Set(k.sat + "local_environment.ini", "MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE");
    k.gg = c.Chance(0.7), k.mag = c.Chance(0.7);
    Only(s, k.sat, {});
    s.Set(k.sat + "disturbance.ini", "GRAVITY_GRADIENT", "calculation", k.gg), s.Set(k.sat + "disturbance.ini", "MAGNETIC_DISTURBANCE", "calculation", k.mag);
    v.push_back(k);
  }
  mission::Mission m(s);
  m.Initialize();
  c.Note(moon ? "moon " : "earth ", n, " spacecraft, attitude period ", att, " orbit period ", orb);
  c.Label(moon ? "moon" : "earth");
  std::vector<V3> gg(n, V3{0, 0, 0}), mag(n, V3{0, 0, 0});
  std::vector<double> size_gg(n, 0.0), size_mag(n, 0.0);
  for (int k = 0; k < 8; k++) {
    std::vector<V3> pos(n);
    std::vector<Q4> q(n);
    for (int i = 0; i < n; i++) {
      auto& sc = m.Sc(i);
      if (c.Chance(0.3)) {  // mass properties change in flight
        v[i].inertia = Inertia(c, v[i].scale, 0.5);
        sc.Str().GetToSetKinematicsParameters().SetInertiaTensor_b_kgm2(S(v[i].inertia));
      }
      if (c.Chance(0.3)) {  // a component changes or adds to the residual moment
        const V3 d = c.Real(0, 0.3) * c.Dir();
        if (c.Bool())
          v[i].rmm = d, sc.Str().GetToSetResidualMagneticMoment().SetRmmConstant_b_Am2(S(d));
        else
          v[i].rmm = v[i].rmm + d, sc.Str().GetToSetResidualMagneticMoment().AddRmmConstant_b_Am2(S(d));
      }
      if (c.Chance(0.3)) sc.Dyn().SetAttitude().SetQuaternion_i2b(S(c.Quat()));
      pos[i] = R(sc.Dyn().GetOrbit().GetPosition_i_m()), q[i] = R(sc.Dyn().GetAttitude().GetQuaternion_i2b());
    }
    m.Step();
    const bool active = m.Time().GetAttitudePropagateFlag() || m.Time().GetOrbitPropagateFlag();
    for (int i = 0; i < n; i++) {
      auto& sc = m.Sc(i);
      if (active) {
        const double r = ref::Norm(pos[i]);
        const V3 u = ref::ToFrame(q[i], (-1 / r) * pos[i]);
        if (v[i].gg) gg[i] = 3 * gm / (r * r * r) * ref::Cross(u, v[i].inertia * u), size_gg[i] = 3 * gm / (r * r * r) * Size(v[i].inertia);
        if (v[i].mag && !moon) {
          const V3 b = 1e-9 * R(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT());
          mag[i] = ref::Cross(v[i].rmm, b), size_mag[i] = ref::Norm(v[i].rmm) * ref::Norm(b);
        }
      }
      const double tol = 1e-13 * (size_gg[i] + size_mag[i]) + 1e-30;
      Near3(c, R(sc.Dist().GetTorque_b_Nm()), gg[i] + mag[i], tol, 0, "torque");
      Near3(c, R(sc.Dist().GetForce_b_N()), {0, 0, 0}, 0, 0, "force");
      c.NonTrivial(ref::Norm(gg[i]) > 1e-6 * size_gg[i] || ref::Norm(mag[i]) > 1e-6 * size_mag[i]);
    }
  }
}
static double Mean(const std::vector<double>& x) {
  double s = 0;
  for (double v : x) s += v;
  return s / x.size();
}
static double Cov(const std::vector<double>& x, const std::vector<double>& y) {
  const double a = Mean(x), b = Mean(y);
  double s = 0;
  for (size_t i = 0; i < x.size(); i++) s += (x[i] - a) * (y[i] - b);
  return s / x.size();
}
// several spacecraft with their own fluctuation settings, updated in one run
static void Fluctuation(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  mission::SetTime(s, "2021/03/04 04:00:00.0", 100, 10, 10, 1, 10, 10, 50, 10, 50, 50);
  mission::Mission m(s);
  m.Initialize();
  m.Step();
  auto& sc = m.Sc();
  s2e::randomization::global_randomization.SetSeed((long)c.Int(1, 1000000000));
  const int n = (int)c.Int(1, 3), steps = 800;
  struct One {
    V3 constant;
    double walk, limit, white;
    std::unique_ptr<s2e::spacecraft::ResidualMagneticMoment> rmm;
    std::unique_ptr<s2e::disturbances::MagneticDisturbance> d;
    std::vector<double> x[3];
  };
  std::vector<One> v(n);
  for (auto& o : v) {
    const double scale = c.LogReal(1e-3, 1);
    o.constant = scale * c.Dir();
    o.walk = c.Chance(0.4) ? 0 : scale * c.LogReal(1e-3, 1), o.limit = c.Bool() ? 0 : o.walk * c.LogReal(0.1, 10), o.white = c.Chance(0.4) ? 0 : scale * c.LogReal(1e-3, 1);
    o.rmm.reset(new s2e::spacecraft::ResidualMagneticMoment(S(o.constant), o.walk, o.limit, o.white));
    o.d.reset(new s2e::disturbances::MagneticDisturbance(*o.rmm, true));
    c.Note("constant ", Str(o.constant), " walk ", o.walk, " limit ", o.limit, " white ", o.white);
    c.NonTrivial(o.walk > 0 || o.white > 0);
  }
  const int change = (int)c.Int(0, steps);
  for (int k = 0; k < steps; k++) {
    if (k == change)
      for (auto& o : v) {
        const V3 add = c.Real(0, 1) * c.Dir();
        o.constant = o.constant + add, o.rmm->AddRmmConstant_b_Am2(S(add));
      }
    for (auto& o : v) {
      o.d->UpdateIfEnabled(sc.Local(), sc.Dyn());
      auto log = Log(*o.d);
      const V3 b = 1e-9 * R(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT());
      V3 got, t;
      const char* axis[3] = {"_x", "_y", "_z"};
      for (int i = 0; i < 3; i++) {
        const std::string key = std::string("spacecraft_magnetic_moment_b") + axis[i];
        c.Check(log.count(key) == 1, "log-header", key);
        got[i] = log[key];
        o.x[i].push_back(got[i] - o.constant[i]);
      }
      t = R(o.d->GetTorque_b_Nm());
      // logged with six digits
      const double size = (ref::Norm(o.constant) + ref::Norm(got)) * ref::Norm(b);
      Near3(c, t, ref::Cross(got, b), 1e-4 * size, 0, "moment-log");
      c.Check(std::fabs(ref::Dot(t, b)) <= 1e-9 * size * ref::Norm(b), "perpendicular");
    }
  }
  for (auto& o : v) {
    const double digits = 1e-5 * (ref::Norm(o.constant) + 2);
    for (int i = 0; i < 3; i++) {
      double worst = 0, mean_abs = 0;
      for (double x : o.x[i]) worst = std::max(worst, std::fabs(x)), mean_abs += std::fabs(x) / steps;
      c.Check(worst <= (o.walk > 0 ? o.limit + o.walk : 0) + 8 * o.white + digits, "stays-near-constant", worst);
      if (o.walk == 0 && o.white > 10 * digits) {
        c.Near(std::sqrt(Cov(o.x[i], o.x[i])), o.white, 6 * o.white / std::sqrt(2.0 * steps), 0, "white-noise-size");
        c.Near(Mean(o.x[i]), 0, 6 * o.white / std::sqrt((double)steps), 0, "white-noise-mean");
        for (int j = 0; j < i; j++) c.Near(Cov(o.x[i], o.x[j]) / (o.white * o.white), 0, 6.5 / std::sqrt((double)steps), 0, "axes-correlated");
      }
      if (o.walk == 0 && o.white == 0) c.Near(worst, 0, digits, 0, "no-fluctuation");
      if (o.white == 0 && o.walk > 1e3 * digits) {
        std::vector<double> inc;
        for (int k = 1; k < steps; k++) inc.push_back(o.x[i][k] - o.x[i][k - 1]);
        for (int j = 0; j < i; j++) {
          std::vector<double> other;
          for (int k = 1; k < steps; k++) other.push_back(o.x[j][k] - o.x[j][k - 1]);
          c.Near(Cov(inc, other) / std::sqrt(Cov(inc, inc) * Cov(other, other)), 0, 6.5 / std::sqrt((double)steps), 0, "walks-correlated");
        }
        const double sd = std::sqrt(Cov(inc, inc)) / (0.1 * o.walk);
        c.Check(sd > 0.2 && sd < 1.5, "random-walk-size", sd);
      }
    }
  }
  for (int a = 0; a < n; a++)
    for (int b = 0; b < a; b++)
      for (int i = 0; i < 3; i++) {
        auto &x = v[a].x[i], &y = v[b].x[i];
        if (v[a].walk || v[b].walk) continue;  // walks wander together by chance
        const double sx = v[a].white, sy = v[b].white;
        if (sx > 1e-4 * (ref::Norm(v[a].constant) + 2) && sy > 1e-4 * (ref::Norm(v[b].constant) + 2)) c.Near(Cov(x, y) / (sx * sy), 0, 6.5 / std::sqrt((double)steps), 0, "spacecraft-correlated");
      }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "F03", "a torque acts, or the residual moment fluctuates",
                   {{"torques", Torques, 400, 8000, 5, 60}, {"fluctuation", Fluctuation, 120, 2500, 5, 60}},
                   {"statistics are judged at about six standard deviations"});
}
