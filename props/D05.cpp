// link: sim
#include <algorithm>
#include <dynamics/orbit/initialize_orbit.hpp>
#include <dynamics/orbit/time_series_file_orbit_propagation.hpp>
#include "mission.hpp"
#include "orbit_ref.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
using orbit_ref::Elements;
namespace ob = s2e::dynamics::orbit;
static const double kDay = 86400, kSpin = 7.292115e-5, kRadius = 6378136.6, kFlat = 3.352797e-3;
// Earth-fixed position of a geodetic position on the simulator's ellipsoid
static V3 FromGeodetic(double lat, double lon, double alt) {
  const double e2 = kFlat * (2 - kFlat), n = kRadius / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
  return {(n + alt) * std::cos(lat) * std::cos(lon), (n + alt) * std::cos(lat) * std::sin(lon), (n * (1 - e2) + alt) * std::sin(lat)};
}
static M3 Lvlh(const V3& r, const V3& v) {
  const V3 x = ref::Unit(r), z = ref::Unit(ref::Cross(r, v)), y = ref::Cross(z, x);
  return M3{{{{x[0], x[1], x[2]}}, {{y[0], y[1], y[2]}}, {{z[0], z[1], z[2]}}}};
}
// relations that hold between the descriptions of one state; q is the current attitude
static void Consistent(Case& c, const ob::Orbit& o, const M3& earth, const Q4& q, const std::string& when, double stale_m = 0) {
  const V3 r = R(o.GetPosition_i_m()), v = R(o.GetVelocity_i_m_s()), re = R(o.GetPosition_ecef_m());
  const double rn = ref::Norm(r), vn = ref::Norm(v);
  Near3(c, re, earth * r, 1e-12 * rn + stale_m, 0, "ecef-position", when);
  const V3 w{0, 0, kSpin};
  Near3(c, R(o.GetVelocity_ecef_m_s()), earth * v - ref::Cross(w, earth * r), 1e-12 * (vn + kSpin * rn) + stale_m * kSpin, 0, "ecef-velocity", when);
  const auto g = o.GetGeodeticPosition();
  Near3(c, FromGeodetic(g.GetLatitude_rad(), g.GetLongitude_rad(), g.GetAltitude_m()), re, 0.5 + 1e-9 * rn, 0, "geodetic", when);
  c.Check(std::fabs(g.GetLatitude_rad()) <= M_PI / 2 + 1e-12, "latitude-range", "latitude " + mission::Num(g.GetLatitude_rad()));
  c.Near(o.GetLatitude_rad(), g.GetLatitude_rad(), 0, 0, "latitude", when), c.Near(o.GetLongitude_rad(), g.GetLongitude_rad(), 0, 0, "longitude", when);
  c.Near(o.GetAltitude_m(), g.GetAltitude_m(), 0, 0, "altitude", when);
  const auto lla = o.GetLatLonAlt();
  Near3(c, R(lla), V3{g.GetLatitude_rad(), g.GetLongitude_rad(), g.GetAltitude_m()}, 0, 0, "latlonalt", when);
  Near3(c, R(o.GetVelocity_b_m_s()), ref::ToFrame(q, v), 1e-9 * vn, 0, "body-velocity", when);
  if (ref::Norm(ref::Cross(r, v)) > 1e-3 * rn * vn) {
    const M3 l = Lvlh(r, v);
    const Q4 ql = R(o.CalcQuaternion_i2lvlh());
    for (const V3& e : {V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}}) Near3(c, ref::ToFrame(ql, e), l * e, 1e-7, 0, "lvlh", when);
  }
}
static void Frames(Case& c) {
  mission::Quiet quiet;
  const char* mode = c.Of<const char*>({"FULL", "SIMPLE", "IDLE"});
  char date[40];
  snprintf(date, sizeof date, "%04d/%02d/%02d %02d:%02d:%02d.0", (int)c.Int(1995, 2045), (int)c.Int(1, 12), (int)c.Int(1, 28), (int)c.Int(0, 23), (int)c.Int(0, 59), (int)c.Int(0, 59));
  Rig rig(mode, date);
  const double alt = c.Bool() ? c.LogReal(3e4, 1e8) : c.EdgeReal(3e4, 4e7);
  const V3 r = (6.4e6 + alt) * c.Dir(), v = c.LogReal(1, 1.2e4) * c.Dir();
  const Q4 q = c.Quat();
  c.Note("rotation ", mode, " ", date, " r ", Str(r), " v ", Str(v), " q ", Str(q));
  if (mode[0] != 'I') c.NonTrivial();
  rig.Update(r, v, q);
  const M3 earth = R(rig.global.GetEarthRotation().GetDcmJ2000ToEcef());
  Consistent(c, rig.orbit, earth, q, mode);
  // the Earth-fixed velocity is the rate of the Earth-fixed position while the Earth turns
  if (mode[0] != 'I') {
    s2e::environment::EarthRotation turning(mode[0] == 'F' ? s2e::environment::EarthRotationMode::kFull : s2e::environment::EarthRotationMode::kSimple);
    const double jd = rig.time.GetCurrentTime_jd();
    double h = 20;
    turning.Update(jd + h / kDay);
    const M3 later = R(turning.GetDcmJ2000ToEcef());
    turning.Update(jd - h / kDay);
    const M3 before = R(turning.GetDcmJ2000ToEcef());
    const V3 rate = (later * (r + h * v) - before * (r - h * v)) / (2 * h);
    const double rn = ref::Norm(r), vn = ref::Norm(v);
    Near3(c, R(rig.orbit.GetVelocity_ecef_m_s()), rate, rn * kSpin * 2e-6 + (rn * kSpin + vn) * std::pow(kSpin * h, 2) + 1e-6, 0, "ecef-rate", mode);
  }
  // forces in body axes act in the direction the body points to
  const double mass = c.LogReal(0.1, 1e4);
  const V3 f = c.LogReal(1e-6, 1e2) * c.Dir();
  rig.orbit.SetAcceleration_i_m_s2(S(V3{0, 0, 0}));
  rig.orbit.AddForce_b_N(S(f), S(q), mass);
  const auto log = Log(rig.orbit);
  V3 a;
  for (int i = 0; i < 3; i++) a[i] = log.at(std::string("spacecraft_acceleration_i_") + "xyz"[i]);
  Near3(c, a, ref::Rotate(q, f) / mass, 0, 1e-8, "body-force", "acceleration");
}
// ephemeris file: values at the samples, between them and outside of the table
static void TimeSeries(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  Elements el = orbit_ref::AnyOrbit(c, 0.2);
  const bool trig = c.Bool();
  if (trig) el.e = 0;
  const double n = std::sqrt(el.mu / el.a) / el.a, period = 2 * M_PI / n;
  const long points = c.Int(3, 9), samples = points + c.Int(0, 60);
  const double spacing = std::floor(period / c.Real(40, 300)) + 1;
  const bool uneven = c.Chance(0.2) && !trig;
  const double t0 = std::floor(c.Real(0, 9000) * kDay);  // since J2000
  std::vector<double> t;
  for (long k = 0; k < samples; k++) t.push_back(t0 + spacing * ((double)k + (uneven ? c.Real(-0.3, 0.3) : 0.0)));
  auto truth = [&](double time) { return orbit_ref::At(el, time - t0 + 1000); };
  auto dir = c.TempDir();
  const std::string file = dir + "/orbit.csv";
  std::ostringstream csv;
  csv << "time,x,y,z,vx,vy,vz\n";
  for (double x : t) {
    const auto s = truth(x);
    csv << mission::Num(x);
    for (int i = 0; i < 3; i++) csv << "," << mission::Num(s.r[i]);
    for (int i = 0; i < 3; i++) csv << "," << mission::Num(s.v[i]);
    csv << "\n";
  }
  mission::Spit(file, csv.str());
  const double span = t.back() - t.front();
  std::vector<double> at{t.front() + (c.Chance(0.15) ? c.Real(-0.5, 0) : c.Chance(0.15) ? c.Real(0.9, 1.2) : c.Real(0, 0.9)) * span};
  const double mean_step = c.Bool() ? spacing * c.LogReal(0.05, 8) : span * c.Real(0.01, 0.3);
  for (int k = 0; k < 25; k++) at.push_back(at.back() + mean_step * (c.Bool() ? 1.0 : c.Real(0.1, 2)));
  c.Note(orbit_ref::Str(el), trig ? " trigonometric " : " polynomial ", points, " of ", samples, " samples every ", spacing, uneven ? " unevenly" : "", " from ", t0, " start ", at[0] - t.front(), " steps ", mean_step);
  c.NonTrivial();
  std::unique_ptr<ob::TimeSeriesFileOrbitPropagation> o;
  double worst = 0;
  for (size_t k = 0; k < at.size(); k++) {
    const double jd = 2451545.0 + at[k] / kDay, now = (jd - 2451545.0) * kDay;
    if (k == 0) {
      o.reset(new ob::TimeSeriesFileOrbitPropagation(&rig.global, file, (int)points, trig ? 1 : c.Of<int>({0, 0, 7}), period, jd));
      o->SetIsCalcEnabled(true);
      c.Check((int)o->GetPropagateMode() == (int)ob::OrbitPropagateMode::kTimeSeriesFile, "mode", "propagation mode reported");
    } else
      o->Propagate(now - at[0], jd);
    const V3 r = R(((ob::Orbit&)*o).GetPosition_i_m()), v = R(((ob::Orbit&)*o).GetVelocity_i_m_s());
    const std::string when = "sample " + std::to_string(k) + " at " + mission::Num(now - t.front()) + " s of " + mission::Num(span);
    if (now < t.front() || now > t.back()) {
      const auto s = truth(now < t.front() ? t.front() : t.back());
      if (std::fabs(now - t.front()) < 1e-3 || std::fabs(now - t.back()) < 1e-3) continue;
      Near3(c, r, s.r, 0, 1e-12, "held-position", when), Near3(c, v, s.v, 0, 1e-12, "held-velocity", when);
      c.Label("outside");
      continue;
    }
    // interpolation error bound: product of the distances to the nodes in use, worst over windows that contain the time
    const double x = n * spacing * 1.6 / std::pow(1 - el.e, 1.5);
    double err = 1;
    for (long m = 1; m <= points; m++) err *= x * (double)m / (double)m;
    if (trig) err = points % 2 ? 1e-9 : 1e-9;
    const auto s = truth(now);
    const double vp = std::sqrt(el.mu / el.a * (1 + el.e) / (1 - el.e)), g = el.mu / ref::Dot(s.r, s.r);
    if (!trig && err > 0.02) continue;
    if (!trig) {
      // polynomial through the samples around the time: windows shifted by one sample from the centred one are accepted
      const long j = std::lower_bound(t.begin(), t.end(), now) - t.begin();
      double er = 0, ev = 0;
      for (long shift = -1; shift <= 1; shift++) {
        const long first = std::max(0L, std::min(j - points / 2 + shift, samples - points));
        V3 lr{0, 0, 0}, lv{0, 0, 0};
        for (long a = first; a < first + points; a++) {
          double w = 1;
          for (long b = first; b < first + points; b++)
            if (a != b) w *= (now - t[b]) / (t[a] - t[b]);
          const auto node = truth(t[a]);
          lr = lr + w * node.r, lv = lv + w * node.v;
        }
        er = std::max(er, ref::Norm(lr - s.r)), ev = std::max(ev, ref::Norm(lv - s.v));
      }
      Near3(c, r, s.r, 3 * er + 1e-4 * vp + 1e-8 * el.a, 0, "centred-position", when);
      Near3(c, v, s.v, 3 * ev + 1e-4 * g + 1e-8 * vp, 0, "centred-velocity", when);
    }
    Near3(c, r, s.r, 2 * err * el.a + 1e-4 * vp + 1e-8 * el.a, 0, "series-position", when);
    Near3(c, v, s.v, 2 * err * vp * 2 + 1e-4 * g + 1e-8 * vp, 0, "series-velocity", when);
    c.Label("inside");
  }
}
static const char* kModes[] = {"RK4", "KEPLER", "ENCKE", "SGP4", "TIME_SERIES_FILE", "RELATIVE"};
static void MissionFrames(Case& c) {
  mission::Quiet quiet;
  const int mode = (int)c.Int(0, 5);
  const double mu = fake::GM(399) * 1e9;
  Elements el = orbit_ref::AnyOrbit(c, 0.3);
  el.mu = mu;
  if (mode == 5) el.a *= 1 - el.e, el.e = 0;
  const double n_p = std::sqrt(mu / std::pow(el.a * (1 - el.e), 3));
  const double step = 2 + (double)c.Int(0, 8);
  const bool elements = c.Bool(), disturbed = c.Bool();
  const char* rotation = c.Of<const char*>({"FULL", "SIMPLE"});
  c.Note(kModes[mode], " ", orbit_ref::Str(el), " step ", step, " Earth ", rotation, elements ? " from elements" : "", disturbed ? " disturbed" : "");
  c.NonTrivial();
  c.Label(kModes[mode]);
  mission::Settings s(c);
  mission::SetTime(s, "2021/05/06 07:08:09.0", 1000, step, step, step, step, step / 2, 1000, 1000, step, step);
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "rotation_mode(0)", rotation);
  double jd0 = 0;
  jday(2021, 5, 6, 7, 8, 9.0, jd0);
  const auto s0 = orbit_ref::At(el, c.Real(0, 6000));
  const int craft = mode == 5 ? 2 : 1, me = craft - 1;
  if (me) s.AddSpacecraft(1);
  V3 start = s0.r, startv = s0.v;
  const double d = c.LogReal(1, 1e4);
  const V3 rel = d * c.Dir(), relv = n_p * d * c.Dir();
  for (int k = 0; k < craft; k++) {
    const std::string ini = s.Sat(k) + "satellite.ini", dist = s.Sat(k) + "disturbance.ini";
    for (const char* x : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"}) s.Set(dist, x, "calculation", disturbed && k == me);
    s.Set(ini, "ORBIT", "propagate_mode", k == me ? kModes[mode] : "KEPLER");
    s.Set(ini, "ORBIT", "initialize_mode", elements ? "ORBITAL_ELEMENTS" : "POSITION_VELOCITY_I");
    s.Set(ini, "ORBIT", "epoch_jday", jd0 - s0.t / kDay), s.Set(ini, "ORBIT", "semi_major_axis_m", el.a), s.Set(ini, "ORBIT", "eccentricity", el.e);
    s.Set(ini, "ORBIT", "inclination_rad", el.i), s.Set(ini, "ORBIT", "raan_rad", el.raan), s.Set(ini, "ORBIT", "argument_of_perigee_rad", el.argp);
    s.SetVec(ini, "ORBIT", "initial_position_i_m", elements ? V3{7e6, 0, 0} : s0.r), s.SetVec(ini, "ORBIT", "initial_velocity_i_m_s", elements ? V3{0, 7e3, 0} : s0.v);
    s.Set(ini, "ORBIT", "relative_orbit_update_method", (int)c.Int(0, 1)), s.Set(ini, "ORBIT", "relative_dynamics_model_type", 0), s.Set(ini, "ORBIT", "stm_model_type", 0);
    s.SetVec(ini, "ORBIT", "initial_relative_position_lvlh_m", rel), s.SetVec(ini, "ORBIT", "initial_relative_velocity_lvlh_m_s", relv);
    s.Set(ini, "ORBIT", "reference_satellite_id", 0);
    const std::string file = s.Path("series.csv");
    if (mode == 4) {
      std::ostringstream csv;
      csv << "h\n";
      const double e0 = std::floor((jd0 - 2451545.0) * kDay);
      for (int i = 0; i < 40; i++) {
        const double t = e0 - 100 + 20.0 * i;
        const auto x = orbit_ref::At(el, s0.t + (t - (jd0 - 2451545.0) * kDay));
        csv << mission::Num(t);
        for (int a = 0; a < 3; a++) csv << "," << mission::Num(x.r[a]);
        for (int a = 0; a < 3; a++) csv << "," << mission::Num(x.v[a]);
        csv << "\n";
      }
      s.Text("series.csv") = csv.str();
      s.Set(ini, "ORBIT", "time_series_file_path", file);
      s.Set(ini, "ORBIT", "number_of_interpolation", (int)c.Int(6, 9)), s.Set(ini, "ORBIT", "interpolation_method", 0), s.Set(ini, "ORBIT", "orbital_period_correction_s", 6000.0);
    }
    s.SetVec(ini, "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4), s.SetVec(ini, "ATTITUDE", "initial_angular_velocity_b_rad_s", V3(0.02 * c.Dir()));
  }
  if (mode == 5) {
    const M3 l = ref::T(Lvlh(s0.r, s0.v));
    start = s0.r + l * rel, startv = s0.v + l * relv + ref::Cross(ref::Cross(s0.r, s0.v) / ref::Dot(s0.r, s0.r), l * rel);
  }
  mission::Mission m(s, nullptr, mode == 5);
  m.Initialize();
  auto& o = m.Sc(me).Dyn().GetOrbit();
  const double v0 = ref::Norm(s0.v), g0 = mu / std::pow(el.a * (1 - el.e), 2);
  if (mode != 3) {  // the sample element set decides otherwise
    Near3(c, R(o.GetPosition_i_m()), start, 2e-4 * v0 + 1e-7 * el.a, 0, "start-position", kModes[mode]);
    Near3(c, R(o.GetVelocity_i_m_s()), startv, 2e-4 * g0 + 1e-7 * v0, 0, "start-velocity", kModes[mode]);
  }
  std::vector<V3> r, v, re, ve;
  for (int k = 0; k < 7; k++) {
    if (k) m.Step();
    const std::string when = std::string(kModes[mode]) + " step " + std::to_string(k);
    const M3 earth = R(m.Env().GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
    if (k) Consistent(c, o, earth, R(m.Sc(me).Dyn().GetAttitude().GetQuaternion_i2b()), when);
    r.push_back(R(o.GetPosition_i_m())), v.push_back(R(o.GetVelocity_i_m_s())), re.push_back(R(o.GetPosition_ecef_m())), ve.push_back(R(o.GetVelocity_ecef_m_s()));
    if (k) {
      const auto log = Log(o);
      V3 lr, le, lb;
      for (int i = 0; i < 3; i++)
        lr[i] = log.at(std::string("spacecraft_position_i_") + "xyz"[i]), le[i] = log.at(std::string("spacecraft_position_ecef_") + "xyz"[i]), lb[i] = log.at(std::string("spacecraft_velocity_b_") + "xyz"[i]);
      Near3(c, lr, r.back(), 0, 1e-14, "log-position"), Near3(c, le, re.back(), 0, 1e-14, "log-ecef"), Near3(c, lb, R(o.GetVelocity_b_m_s()), 0, 1e-8, "log-body-velocity");
      c.Near(log.at("spacecraft_altitude"), o.GetAltitude_m(), 1, 1e-3, "log-altitude", when);
    }
  }
  const double jitter = mode == 0 ? 0 : 6e-5;  // resolution of the Julian date
  const double tol = std::pow(n_p * step, 2) * v0 / 3 + 2 * jitter * v0 / step + 1e-6 + (mode == 3 ? 5 : 0) + (mode == 4 ? 1e-5 * v0 : 0);
  for (size_t k = 2; k + 1 < r.size(); k++) {
    Near3(c, (r[k + 1] - r[k - 1]) / (2 * step), v[k], tol, 0, "inertial-rate", std::string(kModes[mode]) + " step " + std::to_string(k));
    Near3(c, (re[k + 1] - re[k - 1]) / (2 * step), ve[k], tol + 1e-6 * v0 + kSpin * ref::Norm(r[k]) * (kSpin * kSpin * step * step + 1.2e-4 / step), 0, "fixed-rate", std::string(kModes[mode]) + " step " + std::to_string(k));
  }
}
// orbits read from another section of the file than the customary one
static void Section(Case& c) {
  mission::Quiet quiet;
  Rig rig;
  const Elements el = orbit_ref::AnyOrbit(c), other = orbit_ref::AnyOrbit(c);
  const char* mode = c.Of<const char*>({"RK4", "ENCKE", "KEPLER", "none"});
  const bool elements = c.Bool();
  const double jd = 2451545.0 + c.Real(0, 9000), since = c.Real(0, 5000);
  const std::string wanted = c.Of<std::string>({"ORBIT", "ORBIT_B", "TARGET"});
  c.Note(mode, " section ", wanted, " ", orbit_ref::Str(el), elements ? " elements" : " state");
  c.NonTrivial();
  auto dir = c.TempDir();
  std::ostringstream ini;
  for (const std::string& sec : {std::string("ORBIT"), std::string("ORBIT_B"), std::string("TARGET")}) {
    const Elements& x = sec == wanted ? el : other;
    const auto st = orbit_ref::At(x, since);
    ini << "[" << sec << "]\ncalculation=" << (sec == wanted ? "ENABLE" : "DISABLE") << "\nlogging=ENABLE\npropagate_mode=" << (sec == wanted ? mode : "RK4") << "\n";
    ini << "initialize_mode=" << (elements ? "ORBITAL_ELEMENTS" : "POSITION_VELOCITY_I") << "\n";
    ini << "semi_major_axis_m=" << mission::Num(x.a) << "\neccentricity=" << mission::Num(x.e) << "\ninclination_rad=" << mission::Num(x.i) << "\nraan_rad=" << mission::Num(x.raan)
        << "\nargument_of_perigee_rad=" << mission::Num(x.argp) << "\nepoch_jday=" << mission::Num(jd - since / kDay) << "\nerror_tolerance=0.0001\n";
    for (int i = 0; i < 3; i++) ini << "initial_position_i_m(" << i << ")=" << mission::Num(st.r[i]) << "\ninitial_velocity_i_m_s(" << i << ")=" << mission::Num(st.v[i]) << "\n";
  }
  mission::Spit(dir + "/orbit.ini", ini.str());
  std::unique_ptr<ob::Orbit> o(ob::InitOrbit(&rig.global, dir + "/orbit.ini", 1, jd, el.mu, wanted));
  const auto want = orbit_ref::At(el, since);
  const double q = 1 / (1 - el.e), vp = std::sqrt(el.mu / el.a * (1 + el.e) / (1 - el.e)), g = el.mu / ref::Dot(want.r, want.r);
  Near3(c, R(o->GetPosition_i_m()), want.r, 1e-4 * vp + 1e-8 * q * el.a, 0, "section-position", mode);
  Near3(c, R(o->GetVelocity_i_m_s()), want.v, 1e-4 * g + 1e-8 * q * vp, 0, "section-velocity", mode);
  c.Check(o->GetIsCalcEnabled(), "enabled", "calculation is enabled by the settings");
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D05", "the Earth rotates or an orbit is propagated or initialised from settings",
                   {{"frames", Frames, 2500, 80000, 100}, {"time-series", TimeSeries, 1500, 12000, 20}, {"mission", MissionFrames, 90, 1500, 3, 60}, {"section", Section, 200, 3000, 20}});
}
