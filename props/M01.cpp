// link: sim
#include "mission.hpp"
#include "orbit_ref.hpp"
#include "place.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
using s2e::simulation::RelativeInformation;
struct State {
  V3 r{0, 0, 0}, v{0, 0, 0};
  Q4 q{0, 0, 0, 1};
};
// relative state of t seen from b, in the orbital frame of b (radial, along-track, normal), which turns with the orbital rate
struct Seen {
  V3 r, v, rr, rv;
  double d;
  Seen(const State& t, const State& b) {
    r = t.r - b.r, v = t.v - b.v, d = ref::Norm(r);
    const V3 R = ref::Unit(b.r), h = ref::Cross(b.r, b.v), N = ref::Unit(h), T = ref::Cross(N, R);
    const V3 w = (1 / ref::Dot(b.r, b.r)) * h, u = v - ref::Cross(w, r);
    rr = {ref::Dot(R, r), ref::Dot(T, r), ref::Dot(N, r)};
    rv = {ref::Dot(R, u), ref::Dot(T, u), ref::Dot(N, u)};
  }
};
static State Of(const s2e::dynamics::Dynamics& d) {
  State s;
  s.r = R(d.GetOrbit().GetPosition_i_m()), s.v = R(d.GetOrbit().GetVelocity_i_m_s()), s.q = R(d.GetAttitude().GetQuaternion_i2b());
  return s;
}
static std::vector<std::string> Header(const std::vector<int>& ids) {
  std::vector<std::string> h;
  for (const char* frame : {"i", "rtn"})
    for (const char* what : {"position", "velocity"})
      for (int t : ids)
        for (int b : ids)
          if (b < t)
            for (const char* axis : {"x", "y", "z"})
              h.push_back("satellite" + std::to_string(t) + "_" + what + "_from_satellite" + std::to_string(b) + "_" + frame + "_" + axis + (*what == 'p' ? "[m]" : "[m/s]"));
  return h;
}
// everything the relative information says about the registered spacecraft
static void Compare(Case& c, const RelativeInformation& rel, const std::map<int, State>& st, const std::string& at) {
  std::vector<int> ids;
  for (auto& s : st) ids.push_back(s.first);
  auto log_h = Split(rel.GetLogHeader());
  c.Check(log_h == Header(ids), "log-header", at, ": ", rel.GetLogHeader());
  auto log = Log(rel);
  c.Check(Split(rel.GetLogValue()).size() == log_h.size(), "log-columns", at, ": ", Split(rel.GetLogValue()).size(), " values for ", log_h.size(), " columns");
  for (int t : ids)
    for (int b : ids) {
      const Seen s(st.at(t), st.at(b));
      const std::string what = at + ": " + std::to_string(t) + " from " + std::to_string(b);
      const double far = ref::Norm(st.at(t).r) + ref::Norm(st.at(b).r), fast = ref::Norm(st.at(t).v) + ref::Norm(st.at(b).v);
      const double turn = ref::Norm(st.at(b).v) / ref::Norm(st.at(b).r);
      const V3 p = R(rel.GetRelativePosition_i_m(t, b)), v = R(rel.GetRelativeVelocity_i_m_s(t, b)), pr = R(rel.GetRelativePosition_rtn_m(t, b)), vr = R(rel.GetRelativeVelocity_rtn_m_s(t, b));
      Near3(c, p, s.r, 1e-15 * far, 0, "position", what);
      Near3(c, v, s.v, 1e-15 * fast, 0, "velocity", what);
      c.Near(rel.GetRelativeDistance_m(t, b), s.d, 1e-15 * far, 1e-14, "distance", what);
      Near3(c, pr, s.rr, 1e-13 * far, 0, "position-orbital-frame", what);
      Near3(c, vr, s.rv, 1e-13 * (fast + far * turn), 0, "velocity-orbital-frame", what);
      // turning from the reference's body frame to the target's
      const Q4 q = R(rel.GetRelativeAttitudeQuaternion(t, b));
      for (int k = 0; k < 3; k++) {
        V3 e{0, 0, 0};
        e[k] = 1;
        Near3(c, ref::ToFrame(q, ref::ToFrame(st.at(b).q, e)), ref::ToFrame(st.at(t).q, e), 1e-12, 0, "attitude", what);
      }
      // relations between both views
      Near3(c, -1 * R(rel.GetRelativePosition_i_m(b, t)), p, 0, 0, "antisymmetric", what);
      Near3(c, -1 * R(rel.GetRelativeVelocity_i_m_s(b, t)), v, 0, 0, "antisymmetric", what);
      c.Check(rel.GetRelativeDistance_m(t, b) == rel.GetRelativeDistance_m(b, t), "symmetric", what);
      c.Near(ref::Norm(pr), rel.GetRelativeDistance_m(t, b), 1e-13 * far, 0, "distance-orbital-frame", what);
      if (t == b) c.Check(rel.GetRelativeDistance_m(t, t) == 0 && ref::Norm(p) == 0 && ref::Norm(v) == 0 && ref::Norm(pr) == 0 && ref::Norm(vr) == 0, "self", what);
      if (b < t) {
        const std::string n = "satellite" + std::to_string(t) + "_", f = "_from_satellite" + std::to_string(b);
        const char* ax[] = {"_x", "_y", "_z"};
        for (int k = 0; k < 3; k++) {
          c.Near(log[n + "position" + f + "_i" + ax[k]], p[k], 1e-300, 1e-5, "log", what);
          c.Near(log[n + "velocity" + f + "_i" + ax[k]], v[k], 1e-300, 1e-5, "log", what);
          c.Near(log[n + "position" + f + "_rtn" + ax[k]], pr[k], 1e-300, 1e-5, "log", what);
          c.Near(log[n + "velocity" + f + "_rtn" + ax[k]], vr[k], 1e-300, 1e-5, "log", what);
        }
      }
    }
}
static State Any(Case& c, const std::vector<State>& others) {
  State s;
  if (!others.empty() && c.Chance(0.6)) {  // a formation
    s = c.From(others);
    s.r = s.r + c.LogReal(1e-3, 1e6) * c.Dir(), s.v = s.v + c.LogReal(1e-6, 1e3) * c.Dir();
  } else {
    s.r = c.LogReal(6.6e6, 4e8) * c.Dir();
    s.v = std::sqrt(3.986e14 / ref::Norm(s.r)) * c.Real(0.2, 1.3) * c.Dir();
  }
  // an orbital frame exists and the position is above the ground
  if (ref::Norm(s.r) < 6.5e6) s.r = 6.6e6 * ref::Unit(s.r);
  if (ref::Norm(ref::Cross(ref::Unit(s.r), ref::Unit(s.v))) < 0.1) s.v = ref::Norm(s.v) * ref::Unit(ref::Cross(s.r, std::fabs(s.r[0]) < std::fabs(s.r[1]) ? V3{1, 0, 0} : V3{0, 1, 0}));
  s.q = c.Int(0, 4) ? c.Quat() : Q4{0, 0, 0, 1};
  return s;
}
static orbit_ref::Elements Earth(Case& c) {
  auto el = orbit_ref::AnyOrbit(c);
  el.mu = 3.986004415e14;
  return el;
}
// a mission with several spacecraft: relative information in every step
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  s.NoLogs();
  const int n = (int)c.Int(1, 4);
  for (int i = 1; i < n; i++) s.AddSpacecraft(i);
  s.Set(s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_ground_station", 0);
  for (int i = 0; i < n; i++) {
    const std::string f = s.Sat(i) + "satellite.ini";
    s.Set(f, "ATTITUDE", "propagate_mode", c.Of<std::string>({"RK4", "RK4", "CONTROLLED"}));
    s.Set(f, "ORBIT", "propagate_mode", c.Of<std::string>({"RK4", "KEPLER", "ENCKE"}));
    s.Set(f, "ORBIT", "initialize_mode", "POSITION_VELOCITY_I");
    const auto el = Earth(c);
    const auto rv = orbit_ref::At(el, 0);
    s.SetVec(f, "ORBIT", "initial_position_i_m", rv.r), s.SetVec(f, "ORBIT", "initial_velocity_i_m_s", rv.v);
  }
  mission::SetTime(s, "2020/01/01 00:00:00.0", 100, 1, 1, 1, 1, 1, 10, 1, 1, 1);
  mission::Mission m(s, nullptr, true);
  m.Initialize();
  bool moved = false;
  for (int steps = (int)c.Int(1, 8), k = 0; k < steps; k++) {
    std::map<int, State> st;
    if (c.Int(0, 2) == 0) {
      std::vector<State> have;
      for (int i = 0; i < n; i++) have.push_back(Any(c, have)), place::Put(m.Sc(i).Dyn(), have[i].r, have[i].v, have[i].q);
      m.Rel().Update();
    } else {
      m.Step();
      moved = true;
    }
    for (int i = 0; i < n; i++) st[i] = Of(m.Sc(i).Dyn());
    Compare(c, m.Rel(), st, "step " + std::to_string(k));
    for (int i = 0; i < n; i++) c.Check(m.Rel().GetReferenceSatDynamics(i) == &m.Sc(i).Dyn(), "registered", "spacecraft ", i);
  }
  if (n > 1 && moved) c.NonTrivial();
}
// spacecraft register and leave in any order, with any numbers
static void Registry(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  s.NoLogs();
  const int n = (int)c.Int(2, 4);
  for (int i = 1; i < n; i++) s.AddSpacecraft(i);
  s.Set(s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_ground_station", 0);
  mission::Mission m(s);
  m.Initialize();
  std::vector<State> have;
  for (int i = 0; i < n; i++) have.push_back(Any(c, have)), place::Put(m.Sc(i).Dyn(), have[i].r, have[i].v, have[i].q);
  RelativeInformation rel;
  std::map<int, int> reg;  // number -> craft
  bool gap = false;
  for (int steps = (int)c.Int(1, 40), k = 0; k < steps; k++) {
    const int op = c.Of<int>({0, 0, 0, 1, 2, 3, 3}), id = (int)c.Int(0, 6), craft = (int)c.Int(0, n - 1);
    if (op == 0 && !reg.count(id))
      rel.RegisterDynamicsInfo(id, &m.Sc(craft).Dyn()), reg[id] = craft, c.Note("register ", id, " as craft ", craft);
    else if (op == 1)
      rel.RemoveDynamicsInfo(id), gap |= reg.count(id) && id < reg.rbegin()->first, reg.erase(id), c.Note("remove ", id);
    else if (op == 2)
      have[craft] = Any(c, have), place::Put(m.Sc(craft).Dyn(), have[craft].r, have[craft].v, have[craft].q);
    else {
      rel.Update();
      std::map<int, State> st;
      for (auto& r : reg) st[r.first] = have[r.second];
      Compare(c, rel, st, "operation " + std::to_string(k));
      for (auto& r : reg) c.Check(rel.GetReferenceSatDynamics(r.first) == &m.Sc(r.second).Dyn(), "registered", "number ", r.first);
      if (reg.size() > 1 && gap) c.NonTrivial();
    }
    // header and values describe the same pairs before the next update, too
    c.Check(Split(rel.GetLogHeader()).size() == Split(rel.GetLogValue()).size(), "log-columns", "operation ", k);
  }
}
// the velocity in the orbital frame is the rate of change of the position in the orbital frame along two-body orbits
static void Rate(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  s.NoLogs();
  s.AddSpacecraft(1);
  s.Set(s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_ground_station", 0);
  mission::Mission m(s, nullptr, true);
  m.Initialize();
  for (int k = 0; k < 20; k++) {
    const auto a = Earth(c), b = Earth(c);
    const double t = c.Real(0, 1e5), h = 0.05;
    V3 p[3], v;
    for (int j = -1; j <= 1; j++) {
      const auto x = orbit_ref::At(a, t + j * h), y = orbit_ref::At(b, t + j * h);
      place::Put(m.Sc(0).Dyn(), x.r, x.v, c.Quat()), place::Put(m.Sc(1).Dyn(), y.r, y.v, c.Quat());
      m.Rel().Update();
      p[j + 1] = R(m.Rel().GetRelativePosition_rtn_m(1, 0));
      if (!j) v = R(m.Rel().GetRelativeVelocity_rtn_m_s(1, 0));
    }
    Near3(c, v, (1 / (2 * h)) * (p[2] - p[0]), 1e-4 + 3e-6 * ref::Norm(v) + 1e-13 / h * ref::Norm(p[1]), 0, "rate", "velocity in the orbital frame");
    c.NonTrivial();
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "M01", "mission: several spacecraft moving; registry: pairs compared after a removal below the highest number; rate: always",
                   {{"mission", Mission, 250, 8000, 10, 30}, {"registry", Registry, 350, 10000, 10, 30}, {"rate", Rate, 100, 2000, 5, 30}},
                   {"values are compared after an update; between registration and the next update only the shape of the log is", "a number is registered again only after its removal"});
}
