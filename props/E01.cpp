// link: sim
#include <environment/global/celestial_information.hpp>
#include <environment/local/local_celestial_information.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
using pbt::Case;
using namespace s2e_ref;
struct Body {
  int id;
  const char* name;
};
static const Body kBodies[] = {{10, "SUN"},    {199, "MERCURY"}, {299, "VENUS"},  {399, "EARTH"},   {301, "MOON"}, {499, "MARS"},
                               {599, "JUPITER"}, {699, "SATURN"}, {799, "URANUS"}, {899, "NEPTUNE"}, {999, "PLUTO"}};
static void Relative(int id, int center, double et, V3& p, V3& v) {
  const fake::State a = fake::BodyState(id, et), b = fake::BodyState(center, et);
  for (int i = 0; i < 3; i++) p[i] = (a[i] - b[i]) * 1e3, v[i] = (a[i + 3] - b[i + 3]) * 1e3;
}
static std::vector<double> Numbers(const std::string& csv) {
  std::vector<double> v;
  std::istringstream s(csv);
  std::string w;
  while (std::getline(s, w, ','))
    if (!w.empty()) v.push_back(std::stod(w));
  return v;
}
static std::string Lower(std::string s) {
  for (char& c : s) c = (char)tolower(c);
  return s;
}
static int Days(Case& c) { return (int)c.Int(1, 28); }
// any list of bodies, any centre, sequences of epochs and spacecraft states
static void Global(Case& c) {
  mission::Quiet quiet;
  std::vector<int> order(std::size(kBodies));
  for (size_t i = 0; i < order.size(); i++) order[i] = (int)i;
  for (size_t i = order.size(); i-- > 1;) std::swap(order[i], order[c.Int(0, (int64_t)i)]);
  int n = (int)c.Int(1, (int64_t)order.size());
  order.resize(n);
  // the centre is one of the selected bodies that the ephemeris can use as observer
  std::vector<int> centers;
  for (int b : order)
    if (kBodies[b].id < 499) centers.push_back(b);
  if (centers.empty()) centers.push_back(order[0] = (int)c.Int(0, 4));
  const Body center = kBodies[c.From(centers)];
  std::string ini = std::string("[CELESTIAL_INFORMATION]\nlogging = ENABLE\ninertial_frame = J2000\ncenter_object = ") + center.name + "\naberration_correction = NONE\nnumber_of_selected_body = " + std::to_string(n) + "\n";
  bool earth = false, moon = false;
  for (int i = 0; i < n; i++) earth |= kBodies[order[i]].id == 399, moon |= kBodies[order[i]].id == 301;
  std::string moon_mode = "IDLE";
  for (int i = 0; i < n; i++) {
    const Body& b = kBodies[order[i]];
    ini += "selected_body_name(" + std::to_string(i) + ") = " + b.name + "\n";
    std::string mode = "DISABLE";
    if (b.id == 399) mode = c.Of<const char*>({"IDLE", "SIMPLE", "FULL"});
    if (b.id == 301) mode = moon_mode = earth ? c.Of<const char*>({"IDLE", "SIMPLE", "IAU_MOON"}) : c.Of<const char*>({"IDLE", "IAU_MOON"});
    ini += "rotation_mode(" + std::to_string(i) + ") = " + mode + "\n";
  }
  ini += "[CSPICE_KERNELS]\ntls = a.tls\ntpc1 = b.tpc\ntpc2 = c.tpc\ntpc3 = d.tpc\nbsp = e.bsp\n";
  const std::string path = c.TempDir() + "/base.ini";
  mission::Spit(path, ini);
  c.Note("centre ", center.name, " bodies");
  for (int b : order) c.Note(kBodies[b].name);
  // some odd shapes
  if (c.Bool()) {
    const double k = c.Real(0.1, 3);
    fake::radii_override = [k](int id, std::array<double, 3>& r) {
      r = {k * (1000 + id), k * (900 + 2 * id), k * (800 + 3 * id)};
      return true;
    };
  }
  fake::furnished.clear();
  std::unique_ptr<s2e::environment::CelestialInformation> g(s2e::environment::InitCelestialInformation(path));
  c.Check(fake::furnished == std::vector<std::string>({"a.tls", "b.tpc", "c.tpc", "d.tpc", "e.bsp"}), "kernels");
  s2e::environment::LocalCelestialInformation local(g.get());
  c.Check(g->GetNumberOfSelectedBodies() == n && g->GetCenterBodyName() == center.name, "selection");
  char start[64];
  snprintf(start, sizeof start, "%d/%d/%d %d:%d:%d.0", (int)c.Int(1990, 2050), (int)c.Int(1, 12), Days(c), (int)c.Int(0, 23), (int)c.Int(0, 59), (int)c.Int(0, 59));
  const double step = c.Of<double>({1, 60, 0.1, 3600});
  s2e::environment::SimulationTime t(1e6, step, step, step, step, step, step, step, step, step, start, 0);
  std::string want_head, want_local_head;
  for (int b : order)
    for (const char* k : {"position", "velocity"})
      for (char x : {'x', 'y', 'z'}) {
        const std::string u = std::string("_") + x + (*k == 'p' ? "[m]," : "[m/s],");
        want_head += Lower(kBodies[b].name) + "_" + k + "_i" + u, want_local_head += Lower(kBodies[b].name) + "_" + k + "_from_spacecraft_b" + u;
      }
  c.Check(g->GetLogHeader() == want_head, "log-header", g->GetLogHeader());
  c.Check(local.GetLogHeader() == want_local_head, "log-header", local.GetLogHeader());
  const int steps = (int)c.Int(1, 4);
  for (int k = 0; k < steps; k++) {
    t.UpdateTime();
    g->UpdateAllObjectsInformation(t);
    const double et = t.GetCurrentEphemerisTime();
    c.Check(fake::last_frame == "J2000" && fake::last_correction == "NONE", "ephemeris-frame", fake::last_frame, " ", fake::last_correction);
    const V3 sp = c.LogReal(1e6, 1e11) * c.Dir(), sv = c.LogReal(1, 1e5) * c.Dir(), w = c.LogReal(1e-6, 1) * c.Dir();
    const Q4 q = c.Quat();
    local.UpdateAllObjectsInformation(S(sp), S(sv), S(q), S(w));
    c.Note("spacecraft ", Str(sp), Str(sv), " attitude ", Str(q), " rate ", Str(w));
    const std::vector<double> log = Numbers(g->GetLogValue()), llog = Numbers(local.GetLogValue());
    c.Check(log.size() == 6u * n && llog.size() == 6u * n, "log-size", log.size(), " ", llog.size());
    for (int i = 0; i < n; i++) {
      const Body& b = kBodies[order[i]];
      V3 p, v;
      Relative(b.id, center.id, et, p, v);
      c.Check(g->GetSelectedBodyIds()[i] == b.id && g->CalcBodyIdFromName(b.name) == i, "identifier", b.name);
      Near3(c, R(g->GetPositionFromCenter_i_m(i)), p, 1e-3, 1e-12, "position-from-center", b.name);
      Near3(c, R(g->GetPositionFromCenter_i_m(b.name)), p, 1e-3, 1e-12, "position-from-center", b.name);
      Near3(c, R(g->GetVelocityFromCenter_i_m_s(i)), v, 1e-9, 1e-12, "velocity-from-center", b.name);
      Near3(c, R(g->GetVelocityFromCenter_i_m_s(b.name)), v, 1e-9, 1e-12, "velocity-from-center", b.name);
      const V3 rel = p - sp;
      Near3(c, R(local.GetPositionFromSpacecraft_i_m(b.name)), rel, 1e-3, 1e-12, "position-from-spacecraft", b.name);
      Near3(c, R(local.GetPositionFromSpacecraft_b_m(b.name)), ref::ToFrame(q, rel), 1e-3, 1e-12, "position-in-body-frame", b.name);
      const std::array<double, 3> rad = fake::Radii(b.id);
      c.NearVec(g->GetRadii_m(i), std::array<double, 3>{rad[0] * 1e3, rad[1] * 1e3, rad[2] * 1e3}, 3, 1e-6, "radii", b.name);
      c.NearVec(g->GetRadiiFromName_m(b.name), std::array<double, 3>{rad[0] * 1e3, rad[1] * 1e3, rad[2] * 1e3}, 3, 1e-6, "radii", b.name);
      c.Near(g->GetMeanRadiusFromName_m(b.name), 1e3 * std::cbrt(rad[0] * rad[1] * rad[2]), 0, 1e-12, "mean-radius", b.name);
      c.Near(g->GetGravityConstant_m3_s2(b.name), fake::GM(b.id) * 1e9, 0, 1e-14, "gravity-constant", b.name);
      const int j = (int)c.Int(0, n - 1);
      V3 rp, rv;
      Relative(b.id, kBodies[order[j]].id, et, rp, rv);
      Near3(c, R(g->GetPositionFromSelectedBody_i_m(b.name, kBodies[order[j]].name)), rp, 1e-2, 1e-12, "position-between-bodies", b.name);
      Near3(c, R(g->GetVelocityFromSelectedBody_i_m_s(b.name, kBodies[order[j]].name)), rv, 1e-8, 1e-12, "velocity-between-bodies", b.name);
      // logged rows: five significant digits
      const V3 vb = ref::ToFrame(q, v - sv) - ref::Cross(w, ref::ToFrame(q, rel)), pb = ref::ToFrame(q, rel);
      for (int a = 0; a < 3; a++) {
        c.Near(log[6 * i + a], p[a], 1e-3, 2e-5, "logged-position", b.name), c.Near(log[6 * i + 3 + a], v[a], 1e-6, 2e-5, "logged-velocity", b.name);
        c.Near(llog[6 * i + a], pb[a], 1e-3, 2e-5, "logged-body-frame-position", b.name);
        c.Near(llog[6 * i + 3 + a], vb[a], 1e-9 * (ref::Norm(vb) + ref::Norm(v)) + 1e-9, 2e-5, "logged-body-frame-velocity", b.name);
      }
    }
    V3 none{};
    Near3(c, R(g->GetPositionFromCenter_i_m((unsigned)n)), none, 0, 0, "past-the-end"), Near3(c, R(g->GetVelocityFromCenter_i_m_s((unsigned)n)), none, 0, 0, "past-the-end");
    c.Near(g->GetCenterBodyGravityConstant_m3_s2(), fake::GM(center.id) * 1e9, 0, 1e-14, "center-gravity-constant");
    Near3(c, R(local.GetCenterBodyPositionFromSpacecraft_i_m()), -sp, 1e-3, 1e-12, "center-from-spacecraft");
    Near3(c, R(local.GetCenterBodyPositionFromSpacecraft_b_m()), ref::ToFrame(q, -sp), 1e-3, 1e-12, "center-from-spacecraft");
  }
  c.NonTrivial(n > 1);
}
// in missions: the current orbit, attitude and time are used at every step, for every spacecraft
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  char start[64];
  snprintf(start, sizeof start, "%d/%d/%d %d:%d:0.0", (int)c.Int(1990, 2050), (int)c.Int(1, 12), Days(c), (int)c.Int(0, 23), (int)c.Int(0, 59));
  const double step = 0.5, att = c.Of<double>({0.5, 1, 1.5});
  mission::SetTime(s, start, 1000, step, att, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5);
  const int n = (int)c.Int(1, 2);
  if (n == 2) s.AddSpacecraft(1);
  for (int i = 0; i < n; i++) {
    const std::string sat = s.Sat(i) + "satellite.ini";
    s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4);
    s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", c.Real(0, 0.2) * c.Dir());
    const V3 dir = c.Dir();
    s.SetVec(sat, "ORBIT", "initial_position_i_m", c.Real(6.7e6, 4e7) * dir);
    s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", 7000.0 * ref::Unit(ref::Cross(dir, V3{0.3, 0.5, -0.7})));
  }
  c.Note(start, " attitude period ", att, " spacecraft ", n);
  mission::Mission m(s);
  m.Initialize();
  struct Seen {
    V3 p, v, w;
    Q4 q;
    double et;
    bool valid = false;
  };
  std::vector<Seen> seen(n), before(n);
  for (int k = 0; k < 8; k++) {
    for (int i = 0; i < n; i++) {
      const auto& d = m.Sc(i).Dyn();
      before[i] = {R(d.GetOrbit().GetPosition_i_m()), R(d.GetOrbit().GetVelocity_i_m_s()), R(d.GetAttitude().GetAngularVelocity_b_rad_s()), R(d.GetAttitude().GetQuaternion_i2b()), 0, true};
    }
    m.Step();
    for (int i = 0; i < n; i++) {
      if (m.Time().GetAttitudePropagateFlag() || m.Time().GetOrbitPropagateFlag()) seen[i] = before[i], seen[i].et = m.Time().GetCurrentEphemerisTime();
      if (!seen[i].valid) continue;
      const auto& l = m.Sc(i).Local().GetCelestialInformation();
      for (int b : {0, 3, 4}) {
        V3 p, v;
        Relative(kBodies[b].id, 399, seen[i].et, p, v);
        Near3(c, R(l.GetPositionFromSpacecraft_i_m(kBodies[b].name)), p - seen[i].p, 1e-3, 1e-12, "mission-position", kBodies[b].name);
        Near3(c, R(l.GetPositionFromSpacecraft_b_m(kBodies[b].name)), ref::ToFrame(seen[i].q, p - seen[i].p), 1e-3, 1e-12, "mission-body-position", kBodies[b].name);
      }
    }
  }
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E01", "more than one selected body; a simulated mission",
                   {{"bodies", Global, 8000, 200000, 50}, {"mission", Mission, 250, 4000, 5, 60}});
}
