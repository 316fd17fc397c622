// link: sim
#include <disturbances/air_drag.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
struct Plate {
  V3 pos, normal;
  double area, refl, spec, air;
};
struct Wrench {
  V3 f{0, 0, 0}, t{0, 0, 0};
  double slack = 0;  // force of plates seen edge-on, where rounding decides
  double scale = 0;
};
template <class F>
static Wrench Sum(const std::vector<Plate>& plates, const V3& cog, const V3& source, F law) {
  const V3 d = ref::Unit(source);
  Wrench w;
  for (auto& p : plates) {
    const double c = ref::Dot(p.normal, d);
    const V3 f = law(p, c, d);
    const double m = ref::Norm(f) + 1e-300;
    if (std::fabs(c) < 2e-15) {
      w.slack += ref::Norm(law(p, 2e-15, d));
      continue;
    }
    if (c <= 0) continue;
    // rounding of cos(theta) matters near edge-on; sin(theta) is computed from it and loses digits near face-on
    w.slack += m * (std::min(6e-8, 1e-15 / (ref::Norm(ref::Cross(p.normal, d)) + 1e-300)) + std::min(1.0, 2e-15 / c));
    w.f = w.f + f, w.t = w.t + ref::Cross(p.pos - cog, f), w.scale += m;
  }
  return w;
}
static V3 SolarLaw(const Plate& p, double c, const V3& d, double pressure) {
  const double rs = p.refl * p.spec, rd = p.refl * (1 - p.spec);
  return (-p.area * pressure * c) * ((1 - rs) * d + (2 * rs * c + 2.0 / 3 * rd) * p.normal);
}
// free molecular flow on a plate, both accommodation kinds; t_w, t_m in K, m in g/mol
static V3 DragLaw(const Plate& p, double c, const V3& d, double rho, double v, double t_w, double t_m, double m) {
  const double s = v / std::sqrt(2 * 1.380649e-23 * t_w / (m * 1e-3 / 6.02214076e23));
  const double sn = s * c, q = 0.5 * rho * v * v * p.area, sp = std::sqrt(M_PI), diffuse = 1 - p.air;
  const double pi = sn * std::exp(-sn * sn) + sp * (sn * sn + 0.5) * (1 + std::erf(sn)), chi = std::exp(-sn * sn) + sp * sn * (1 + std::erf(sn));
  const double cn = (1 + p.air) / sp * pi / (s * s) + diffuse / 2 * chi / (s * s) * std::sqrt(t_w / t_m);
  const double ct_over_sin = diffuse * s * chi / (sp * s * s);
  return -q * (cn * p.normal + ct_over_sin * (d - c * p.normal));
}
static std::vector<Plate> Plates(Case& c, const V3& sun, const V3& flow) {
  std::vector<Plate> v;
  const int n = c.Int(0, 19) ? (int)c.Int(0, 8) : (int)c.Int(9, 40);
  for (int i = 0; i < n; i++) {
    Plate p;
    for (double& x : p.pos) x = c.Bool() ? c.Real(-3, 3) : 0;
    const V3 s = ref::Unit(c.Bool() ? sun : flow);
    switch (c.Int(0, 5)) {
      case 0: p.normal = s; break;
      case 1: p.normal = -s; break;
      case 2: p.normal = ref::Unit(ref::Cross(s, c.Dir())); break;                                // edge-on
      case 3: p.normal = ref::Unit(s + c.LogReal(1e-12, 1) * c.Dir()); break;                       // nearly face-on
      default: p.normal = c.Dir();
    }
    if (!(ref::Norm(p.normal) > 0.9)) p.normal = {1, 0, 0};
    p.area = c.LogReal(1e-3, 10);
    p.refl = c.EdgeReal(0, 1), p.spec = c.EdgeReal(0, 1), p.air = c.EdgeReal(0, 1);
    v.push_back(p);
  }
  return v;
}
static std::vector<s2e::spacecraft::Surface> Surfaces(const std::vector<Plate>& plates) {
  std::vector<s2e::spacecraft::Surface> v;
  for (auto& p : plates) v.emplace_back(S(p.pos), S(p.normal), p.area, p.refl, p.spec, p.air);
  return v;
}
static void CheckWrench(Case& c, s2e::disturbances::Disturbance& d, const Wrench& w, const std::string& key) {
  const double tol = 1e-9 * w.scale + w.slack + 1e-25;
  Near3(c, R(d.GetForce_b_N()), w.f, tol, 0, key + "-force");
  Near3(c, R(d.GetTorque_b_Nm()), w.t, 8 * tol, 0, key + "-torque");
}
static mission::Settings Basic(Case& c) {
  mission::Settings s(c);
  const std::string sat = "sample_satellite/satellite.ini";
  mission::SetTime(s, "2020/0" + std::to_string(c.Int(1, 9)) + "/1" + std::to_string(c.Int(0, 9)) + " 11:00:00.0", 10, 1, 1, 0.1, 1, 0.1, 1, 0.1, 1, 1);
  const double r = c.Bool() ? c.Real(6.6e6, 7.2e6) : c.LogReal(6.6e6, 4e7);
  const V3 u = ref::Unit(c.Dir()), w = ref::Unit(ref::Cross(u, std::fabs(u[2]) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0}));
  s.SetVec(sat, "ORBIT", "initial_position_i_m", r * u);
  s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", std::sqrt(3.986004e14 / r) * ref::Rotate(ref::AxisAngle(u, c.Real(0, 6.3)), w));
  s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4);
  s.Set("sample_satellite/local_environment.ini", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", "ENABLE");
  s.Set("sample_satellite/local_environment.ini", "ATMOSPHERE", "calculation", "ENABLE");
  return s;
}
// free plates in the environment of a simulated spacecraft
static void Free(Case& c) {
  mission::Quiet quiet;
  mission::Settings s = Basic(c);
  mission::Mission m(s);
  m.Initialize();
  m.Step();
  auto& sc = m.Sc();
  int lit = 0;
  for (int k = 0; k < 25; k++) {
    if (k) sc.Dyn().SetAttitude().SetQuaternion_i2b(S(c.Quat())), sc.Local().Update(&sc.Dyn(), &m.Time());
    const Q4 q = R(sc.Dyn().GetAttitude().GetQuaternion_i2b());
    const V3 sun = R(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN"));
    const M3 e2i = ref::T(R(m.Env().GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef()));
    const V3 flow = ref::ToFrame(q, e2i * R(sc.Dyn().GetOrbit().GetVelocity_ecef_m_s()));
    const double pressure = sc.Local().GetSolarRadiationPressure().GetPressure_N_m2(), rho = sc.Local().GetAtmosphere().GetAirDensity_kg_m3();
    auto plates = Plates(c, sun, flow);
    auto surfaces = Surfaces(plates);
    V3 cog{0, 0, 0};
    auto cog_s = S(cog);
    const double tw = c.Real(-100, 300), tm = c.Real(-100, 1000), mw = c.Real(1, 40);
    const bool on = c.Chance(0.95);
    s2e::disturbances::SolarRadiationPressureDisturbance srp(surfaces, cog_s, on);
    const std::string ini = c.TempDir() + "/d.ini";
    mission::Spit(ini, "[AIR_DRAG]\ncalculation=" + std::string(on ? "ENABLE" : "DISABLE") + "\nlogging=ENABLE\nwall_temperature_degC=" + mission::Num(tw) +
                           "\nmolecular_temperature_degC=" + mission::Num(tm) + "\nmolecular_weight_g_mol=" + mission::Num(mw) + "\n");
    s2e::disturbances::AirDrag drag = s2e::disturbances::InitAirDrag(ini, surfaces, cog_s);
    c.Note(plates.size(), " plates ");
    // the centre of mass moves while flying, and surfaces change
    for (int j = 0; j < 2; j++) {
      if (j || c.Bool()) {
        for (double& x : cog) x = c.Real(-0.5, 0.5);
        cog_s = S(cog);
      }
      if (j && !plates.empty()) {
        const size_t i = (size_t)c.Int(0, (int64_t)plates.size() - 1);
        plates[i].area = c.Real(0.01, 5), plates[i].pos = 2.0 * c.Dir(), plates[i].normal = c.Dir(), plates[i].refl = c.Unit(), plates[i].spec = c.Unit(), plates[i].air = c.Unit();
        surfaces[i].SetArea_m2(plates[i].area), surfaces[i].SetPosition_b_m(S(plates[i].pos)), surfaces[i].SetNormal_b(S(plates[i].normal));
        surfaces[i].SetReflectivity(plates[i].refl), surfaces[i].SetSpecularity(plates[i].spec), surfaces[i].SetAirSpecularity(plates[i].air);
      }
      srp.UpdateIfEnabled(sc.Local(), sc.Dyn());
      drag.UpdateIfEnabled(sc.Local(), sc.Dyn());
      Wrench ws, wd;
      if (on) {
        ws = Sum(plates, cog, sun, [&](const Plate& p, double x, const V3& d) { return SolarLaw(p, x, d, pressure); });
        wd = Sum(plates, cog, flow, [&](const Plate& p, double x, const V3& d) { return DragLaw(p, x, d, rho, ref::Norm(flow), tw + 273.0, tm + 273.0, mw); });
      }
      CheckWrench(c, srp, ws, "solar");
      CheckWrench(c, drag, wd, "drag");
      c.Check(ref::Dot(R(srp.GetForce_b_N()), sun) <= (1e-9 * ws.scale + ws.slack) * ref::Norm(sun) && ref::Dot(R(drag.GetForce_b_N()), flow) <= (1e-9 * wd.scale + wd.slack) * ref::Norm(flow), "thrust-toward-source");
      lit += ws.scale > 0 && wd.scale > 0;
    }
  }
  c.NonTrivial(lit > 0);
  c.Label(sc.Local().GetSolarRadiationPressure().GetPressure_N_m2() > 0 ? "sunlit" : "eclipse");
}
// plates read from the structure file, acting inside a running mission
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s = Basic(c);
  const std::string st = "sample_satellite/structure.ini", di = "sample_satellite/disturbance.ini";
  auto plates = Plates(c, {1, 0, 0}, {0, 1, 0});
  s.Set(st, "SURFACES", "number_of_surfaces", (int)plates.size());
  for (size_t i = 0; i < plates.size(); i++) {
    const std::string n = std::to_string(i);
    const Plate& p = plates[i];
    s.Set(st, "SURFACES", "area_" + n + "_m2", p.area), s.Set(st, "SURFACES", "reflectivity_" + n, p.refl), s.Set(st, "SURFACES", "specularity_" + n, p.spec);
    s.Set(st, "SURFACES", "air_specularity_" + n, p.air), s.SetVec(st, "SURFACES", "position_" + n + "_b_m", p.pos), s.SetVec(st, "SURFACES", "normal_vector_" + n + "_b", (c.Chance(0.2) ? c.Of<double>({1.0001, 1.01, 1.3, 2}) : 1.0) * p.normal);  // too long a normal is scaled down
  }
  V3 cog{c.Real(-1, 1), c.Real(-1, 1), c.Real(-1, 1)};
  s.SetVec(st, "KINEMATIC_PARAMETERS", "center_of_gravity_b_m", cog);
  const bool srp = c.Bool(), drag = c.Bool();
  for (const char* k : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "MAGNETIC_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"}) s.Set(di, k, "calculation", "DISABLE");
  s.Set(di, "AIR_DRAG", "calculation", drag), s.Set(di, "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "calculation", srp);
  const double tw = c.Real(-100, 300), tm = c.Real(-100, 1000), mw = c.Real(1, 40);
  s.Set(di, "AIR_DRAG", "wall_temperature_degC", tw), s.Set(di, "AIR_DRAG", "molecular_temperature_degC", tm), s.Set(di, "AIR_DRAG", "molecular_weight_g_mol", mw);
  mission::Mission m(s);
  m.Initialize();
  auto& sc = m.Sc();
  c.Note(plates.size(), " plates solar ", srp, " drag ", drag);
  c.Check(sc.Str().GetSurfaces().size() == plates.size(), "surfaces-read");
  for (int k = 0; k < 3; k++) {
    if (k) {
      for (double& x : cog) x = c.Real(-0.5, 0.5);
      sc.Str().GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(S(cog));
      if (!plates.empty() && c.Bool()) {
        const size_t i = (size_t)c.Int(0, (int64_t)plates.size() - 1);
        plates[i].area = c.Real(0.01, 5), plates[i].pos = 2.0 * c.Dir(), plates[i].normal = c.Dir(), plates[i].refl = c.Unit(), plates[i].spec = c.Unit(), plates[i].air = c.Unit();
        auto& surface = sc.Str().GetToSetSurfaces()[i];
        surface.SetArea_m2(plates[i].area), surface.SetPosition_b_m(S(plates[i].pos)), surface.SetNormal_b(S(plates[i].normal));
        surface.SetReflectivity(plates[i].refl), surface.SetSpecularity(plates[i].spec), surface.SetAirSpecularity(plates[i].air);
        c.Label("surface changed in flight");
      }
    }
    const Q4 q = R(sc.Dyn().GetAttitude().GetQuaternion_i2b());
    const V3 vel = R(sc.Dyn().GetOrbit().GetVelocity_ecef_m_s());
    m.Step();
    const V3 sun = R(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN"));
    const M3 e2i = ref::T(R(m.Env().GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef()));
    const V3 flow = ref::ToFrame(q, e2i * vel);
    const double pressure = sc.Local().GetSolarRadiationPressure().GetPressure_N_m2(), rho = sc.Local().GetAtmosphere().GetAirDensity_kg_m3();
    Wrench a, b;
    if (srp) a = Sum(plates, cog, sun, [&](const Plate& p, double x, const V3& d) { return SolarLaw(p, x, d, pressure); });
    if (drag) b = Sum(plates, cog, flow, [&](const Plate& p, double x, const V3& d) { return DragLaw(p, x, d, rho, ref::Norm(flow), tw + 273.0, tm + 273.0, mw); });
    const double tol = 1e-9 * (a.scale + b.scale) + a.slack + b.slack + 1e-25;
    Near3(c, R(sc.Dist().GetForce_b_N()), a.f + b.f, tol, 0, "mission-force");
    Near3(c, R(sc.Dist().GetTorque_b_Nm()), a.t + b.t, 8 * tol, 0, "mission-torque");
    c.NonTrivial(a.scale + b.scale > 0);
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "F01", "at least one surface faces the Sun or the flow",
                   {{"free", Free, 400, 8000, 5, 60}, {"mission", Mission, 400, 8000, 5, 60}},
                   {"the speed ratio of the drag law uses the wall temperature, as in the code", "surfaces within 2e-15 of edge-on may be counted either way"});
}
