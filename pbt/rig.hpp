// A bench for single components: body positions, attitude and orbit are set directly, no propagation.
#pragma once
#include <dynamics/attitude/attitude.hpp>
#include <dynamics/orbit/orbit.hpp>
#include <environment/global/celestial_information.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <map>
#include "mission.hpp"
namespace rig {
using namespace s2e_ref;
// exposes the log of components whose overrides are private
inline std::string LogHeader(const s2e::logger::ILoggable& l) { return l.GetLogHeader(); }
inline std::string LogValue(const s2e::logger::ILoggable& l) { return l.GetLogValue(); }
inline std::vector<std::string> Split(const std::string& csv) {
  std::vector<std::string> v;
  std::istringstream s(csv);
  std::string w;
  while (std::getline(s, w, ',')) v.push_back(w);
  return v;
}
inline std::vector<double> Numbers(const std::string& csv) {
  std::vector<double> v;
  for (auto& w : Split(csv)) {
    char* e;
    const double x = strtod(w.c_str(), &e);
    v.push_back(e == w.c_str() ? std::nan("") : x);
  }
  return v;
}
// column values of a component's log by header name (prefix up to '['), first match
inline std::map<std::string, double> Log(const s2e::logger::ILoggable& l) {
  std::map<std::string, double> m;
  auto h = Split(l.GetLogHeader());
  auto v = Numbers(l.GetLogValue());
  for (size_t i = 0; i < h.size() && i < v.size(); i++) {
    std::string k = h[i].substr(0, h[i].find('['));
    m[k] = v[i];
  }
  return m;
}
class Att : public s2e::dynamics::attitude::Attitude {
 public:
  explicit Att(const s2e::math::Matrix<3, 3>& inertia) : Attitude(inertia) {}
  void Propagate(const double) override {}
};
class Orb : public s2e::dynamics::orbit::Orbit {
 public:
  explicit Orb(const s2e::environment::CelestialInformation* c) : Orbit(c) {}
  void Propagate(const double, const double) override {}
  // derives the Earth-fixed quantities from the inertial state
  void Put(const V3& r_i, const V3& v_i) {
    spacecraft_position_i_m_ = S(r_i);
    spacecraft_velocity_i_m_s_ = S(v_i);
    TransformEciToEcef();
    TransformEcefToGeodetic();
  }
};
struct Rig {
  s2e::environment::CelestialInformation global;
  s2e::environment::LocalCelestialInformation local;
  s2e::environment::SimulationTime time;
  s2e::math::Matrix<3, 3> inertia;
  Att attitude;
  Orb orbit;
  s2e::environment::ClockGenerator clock;
  std::map<int, V3> body;  // positions from the Earth [m]; bodies not listed follow the analytic ephemeris
  // Sun, Earth and Moon; the Earth is the centre
  explicit Rig(const char* earth_mode = "IDLE", const char* date = "2020/01/01 00:00:00.0", const std::vector<int>& ids = {399, 10, 301}, double end = 1e5, double step = 1)
      : global("J2000", "NONE", "EARTH", (int)ids.size(), Ids(ids), Modes(ids, earth_mode)),
        local(&global),
        time(end, step, step, step, step, step, step, step, step, step, date, 0),
        inertia(s2e::math::MakeIdentityMatrix<3>()),
        attitude(inertia),
        orbit(&global) {
    fake::state_override = [this](int id, double et, fake::State& s) {
      if (busy_ || body.empty()) return false;
      auto it = body.find(id);
      if (it != body.end()) {
        for (int i = 0; i < 3; i++) s[i] = it->second[i] / 1e3, s[3 + i] = 0;
        return true;
      }
      busy_ = true;
      const fake::State a = fake::BodyState(id, et), e = fake::BodyState(399, et);
      busy_ = false;
      for (int i = 0; i < 6; i++) s[i] = a[i] - e[i];
      return true;
    };
    attitude.SetQuaternion_i2b(s2e::math::Quaternion(0, 0, 0, 1));
    attitude.SetAngularVelocity_b_rad_s(s2e::math::Vector<3>(0.0));
  }
  ~Rig() { fake::state_override = nullptr; }
  // recomputes everything for the current body positions and this spacecraft state
  void Update(const V3& r_i, const V3& v_i, const Q4& q_i2b, const V3& w_b = {0, 0, 0}) {
    global.UpdateAllObjectsInformation(time);
    orbit.Put(r_i, v_i);
    attitude.SetQuaternion_i2b(S(q_i2b));
    attitude.SetAngularVelocity_b_rad_s(S(w_b));
    orbit.UpdateByAttitude(S(q_i2b));
    local.UpdateAllObjectsInformation(S(r_i), S(v_i), S(q_i2b), S(w_b));
  }

 private:
  bool busy_ = false;
  static int* Ids(const std::vector<int>& ids) {
    int* p = new int[ids.size()];
    std::copy(ids.begin(), ids.end(), p);
    return p;
  }
  static std::vector<std::string> Modes(const std::vector<int>& ids, const char* earth) {
    std::vector<std::string> m;
    for (int id : ids) m.push_back(id == 399 ? earth : "IDLE");
    return m;
  }
};
}  // namespace rig
