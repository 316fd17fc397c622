// link: sim
#include <components/ports/power_port.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <environment/global/gnss_satellites.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <memory>
#include "mission.hpp"
#include "place.hpp"
#include "rig.hpp"
#include "sp3.hpp"
using pbt::Case;
using namespace s2e_ref;
namespace co = s2e::components;
using mission::Num;
static const double kDeg = M_PI / 180, kEarth = 6378137.0;
// the results which have no getter
struct Receiver : co::GnssReceiver {
  explicit Receiver(const co::GnssReceiver& g) : co::GnssReceiver(g) {}
  bool Fixed() const { return is_gnss_visible_; }
  size_t Count() const { return visible_satellite_number_; }
  size_t ListSize() const { return gnss_information_list_.size(); }
  unsigned Week() const { return gps_time_week_; }
  double Seconds() const { return gps_time_s_; }
  s2e::environment::UTC Utc() const { return utc_; }
};
template <class T>
static std::string List(const std::string& key, const T& v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += key + "(" + std::to_string(i) + ")=" + Num(v[i]) + "\n";
  return s;
}
struct Set {
  int id = 1, prescaler = 1;
  V3 at{0, 0, 0}, sp{0, 0, 0}, sv{0, 0, 0};
  Q4 q{0, 0, 0, 1};
  bool cone = false;
  double half = 60;
  std::string Ini() const {
    return "[GNSS_RECEIVER_" + std::to_string(id) + "]\nprescaler=" + std::to_string(prescaler) + "\n" + List("antenna_position_b_m", at, 3) + List("quaternion_b2c", q, 4) + "antenna_model=" +
           (cone ? "CONE" : "SIMPLE") + "\nantenna_half_width_deg=" + Num(half) + "\n" + List("white_noise_standard_deviation_position_ecef_m", sp, 3) +
           List("white_noise_standard_deviation_velocity_ecef_m_s", sv, 3) + "[POWER_PORT]\nminimum_voltage_V=3.3\nassumed_power_consumption_W=1\n";
  }
};
static Set Generate(Case& c) {
  Set s;
  s.id = (int)c.Int(0, 12), s.prescaler = (int)c.Int(0, 3);
  for (double& x : s.at) x = c.Int(0, 2) ? c.Signed(0.01, 5) : 0;
  if (c.Int(0, 4)) s.q = c.Quat();
  s.half = c.Int(0, 2) ? c.Real(5, 120) : c.Of<double>({90, 180, 60, 80});
  return s;
}
static V3 Aside(Case& c, const V3& axis, double angle) {
  V3 e = ref::Cross(axis, c.Dir());
  while (ref::Norm(e) < 1e-3) e = ref::Norm(ref::Cross(axis, V3{1, 0, 0})) < 1e-3 ? ref::Cross(axis, V3{0, 1, 0}) : ref::Cross(axis, V3{1, 0, 0});
  return std::cos(angle) * axis + std::sin(angle) * ref::Unit(e);
}
static int Less(double a, double b, double tol) { return std::fabs(a - b) <= tol ? -1 : a < b; }
// an SP3 file with satellites at rest in the Earth-fixed frame
static sp3::File File(long day, const std::vector<V3>& at) {
  sp3::File f;
  f.start_unix = day * 86400;
  f.interval = 900;
  for (size_t s = 0; s < at.size(); s++) {
    char id[4] = {'G', (char)('0' + (s + 1) / 10), (char)('0' + (s + 1) % 10), 0};
    f.ids.push_back(id), f.accuracy.push_back(2);
  }
  for (int e = 0; e < 12; e++) {
    std::vector<sp3::Record> row(at.size());
    for (size_t s = 0; s < at.size(); s++)
      for (int i = 0; i < 3; i++) row[s].x[i] = at[s][i] / 1000;
    f.rec.push_back(row);
  }
  return f;
}
struct Bench {
  mission::Settings s;
  long day;
  double sod;
  std::unique_ptr<mission::Mission> m;
  explicit Bench(Case& c, double end = 1000, double step = 1) : s(c) {
    day = sp3::Days(c.Int(1981, 2037), c.Int(1, 12), c.Int(1, 28));
    sod = c.Int(0, 2) ? (double)c.Int(0, 7000) : c.Of<double>({0, 1, 59, 3599, 60});
    const sp3::Date d = sp3::FromUnix(day * 86400 + (long)sod);
    char b[80];
    snprintf(b, sizeof b, "%04ld/%02ld/%02ld %02ld:%02ld:%04.1f", d.y, d.mo, d.d, d.h, d.mi, d.s);
    mission::SetTime(s, b, end, step, step, step, step, step, step, step, step, step);
    s.Set("sample_satellite/satellite.ini", "ORBIT", "calculation", "DISABLE");
    m.reset(new mission::Mission(s));
    m->Initialize();
    c.Note("start ", b);
  }
};
static void Fix(Case& c, const Set& s, const Receiver& r, const s2e::dynamics::Dynamics& d, const std::string& at) {
  (void)s;
  Near3(c, R(r.GetMeasuredPosition_ecef_m()), R(d.GetOrbit().GetPosition_ecef_m()), 1e-9, 1e-15, "position", at);
  Near3(c, R(r.GetMeasuredVelocity_ecef_m_s()), R(d.GetOrbit().GetVelocity_ecef_m_s()), 1e-12, 1e-15, "velocity", at);
}
static void Geodetic(Case& c, const Receiver& r, const std::string& at) {
  const auto g = r.GetMeasuredGeodeticPosition();
  s2e::geodesy::GeodeticPosition want;
  want.UpdateFromEcef(r.GetMeasuredPosition_ecef_m());
  c.Near(g.GetLatitude_rad(), want.GetLatitude_rad(), 1e-12, 0, "geodetic", at + ": latitude");
  c.Near(g.GetLongitude_rad(), want.GetLongitude_rad(), 1e-12, 0, "geodetic", at + ": longitude");
  c.Near(g.GetAltitude_m(), want.GetAltitude_m(), 1e-6, 0, "geodetic", at + ": altitude");
}
static void Time(Case& c, const Bench& b, const Receiver& r, double elapsed, const std::string& at) {
  // days since 1980-01-06 of the civil calendar
  const double t = (double)((b.day - sp3::Days(1980, 1, 6)) * 86400) + b.sod + elapsed;
  const double got = r.Week() * 604800.0 + r.Seconds();
  c.Near(got, t, 1e-4, 0, "gps-time", at);
  c.Check(r.Seconds() >= 0 && r.Seconds() < 604800 + 1e-4, "gps-week", at, ": ", r.Week(), " weeks ", r.Seconds(), " s");
  const auto u = r.Utc();
  const double civil = (double)(sp3::Days(u.year, u.month, u.day) * 86400 + u.hour * 3600 + u.minute * 60) + u.second;
  c.Near(civil, (double)(b.day * 86400) + b.sod + elapsed, 1e-4, 0, "utc", at);
}
// ---------------------------------------------------------------- receiver outputs over histories
static void Outputs(Case& c) {
  mission::Quiet quiet;
  const double dt = c.Of<double>({0.1, 1, 10, 100});
  Bench b(c, 1000 * dt, dt);
  Set s = Generate(c);
  s.cone = c.Bool();
  s2e::environment::EarthRotation er(s2e::environment::EarthRotationMode::kIdle);
  s2e::environment::GnssSatellites gnss(er, s.cone || c.Chance(0.3));
  auto& d = b.m->Sc(0).Dyn();
  std::vector<V3> sat;
  if (gnss.IsCalcEnabled()) {
    const int n = (int)c.Int(1, 32);
    const double radius = c.Of<double>({26559800, 25510000, 42164000, 29600000});
    for (int i = 0; i < n; i++) sat.push_back(radius * c.Dir());
    const std::string f = c.TempDir() + "/a.sp3";
    const sp3::File file = File(b.day, sat);
    mission::Spit(f, file.Text());
    std::vector<s2e::gnss::Sp3FileReader> files{s2e::gnss::Sp3FileReader(f)};
    const sp3::Date t = sp3::FromUnix(b.day * 86400 + (long)b.sod);
    gnss.Initialize(files, s2e::time_system::EpochTime(s2e::time_system::DateTime(t.y, t.mo, t.d, t.h, t.mi, t.s)));
    c.Check(gnss.GetNumberOfCalculatedSatellite() == sat.size(), "constellation", "not loaded");
  }
  const bool powered = c.Bool();
  co::PowerPort port(1, 10.0);
  s2e::environment::ClockGenerator clock;
  const std::string f = c.TempDir() + "/r.ini";
  mission::Spit(f, s.Ini());
  Receiver r(powered ? co::InitGnssReceiver(&clock, &port, s.id, f, &d, &gnss, &b.m->Time()) : co::InitGnssReceiver(&clock, s.id, f, &d, &gnss, &b.m->Time()));
  if (powered) port.SetVoltage_V(5);
  c.Note(s.cone ? "cone of " : "simple, ", s.half, " deg, ", sat.size(), " satellites, antenna q ", Str(s.q), " at ", Str(s.at), " prescaler ", s.prescaler, powered ? " powered" : "");
  const int step = std::max(1, s.prescaler);
  bool on = true, fixed = false;
  int fixes = 0, losses = 0;
  for (int k = 0, n = (int)c.Int(1, 10); k < n; k++) {
    const std::string at = "tick " + std::to_string(k);
    auto& env = b.m->Env();
    env.Update();
    const V3 pos = (c.Int(0, 3) ? c.LogReal(6.45e6, 9e6) : c.Real(6.6e6, 6e7)) * c.Dir(), vel = c.Real(3000, 8000) * c.Dir();
    // the antenna looks roughly up, or anywhere
    const V3 up = ref::Unit(pos), look = c.Int(0, 2) ? Aside(c, up, c.Real(0, 1.7)) : c.Dir();
    Q4 q_i2c = c.Quat();  // component z axis to look
    {
      const V3 z = ref::ToFrame(q_i2c, look), ax = ref::Cross(V3{0, 0, 1}, z);
      if (ref::Norm(ax) > 1e-6) q_i2c = ref::Mul(q_i2c, ref::AxisAngle(ref::Unit(ax), ref::Angle(z, V3{0, 0, 1})));
    }
    const Q4 q = ref::Mul(q_i2c, ref::Conj(s.q));
    place::Put(d, pos, vel, q);
    const V3 rec_before = R(r.GetMeasuredPosition_ecef_m());
    const V3 vel_before = R(r.GetMeasuredVelocity_ecef_m_s());
    if (powered && c.Chance(0.2)) on = c.Int(0, 2) > 0, port.SetVoltage_V(on ? c.Real(3.3, 12) : c.Real(0, 3.2));
    clock.TickToComponents();
    const double elapsed = b.m->Time().GetElapsedTime_s();
    if (k % step || !on) {
      Near3(c, R(r.GetMeasuredPosition_ecef_m()), rec_before, 0, 0, "held", at);
      c.Check(r.Fixed() == fixed, "held-flag", at);
      continue;
    }
    Time(c, b, r, elapsed, at);
    int want;  // fix expected
    if (!s.cone) {
      const V3 z = ref::Rotate(q, ref::Rotate(s.q, V3{0, 0, 1}));
      const double up_cos = ref::Dot(z, up);
      want = Less(0, up_cos, 1e-9);
      c.Check(r.ListSize() == 0, "simple-list", at);
    } else {
      const V3 a = pos + ref::Rotate(q, s.at), z = ref::Rotate(q, ref::Rotate(s.q, V3{0, 0, 1}));
      size_t sure = 0, open = 0, next = 0;
      for (size_t i = 0; i < sat.size(); i++) {
        const V3 g = R(gnss.GetPosition_eci_m(i)), los = g - a;
        const double range = ref::Norm(los);
        const V3 u = ref::Unit(los);
        // nearest point of the line of sight to the Earth's centre
        const double along = std::min(range, std::max(0.0, -ref::Dot(a, u)));
        const int clear = Less(kEarth, ref::Norm(a + along * u), 10);
        const int in = Less(ref::Angle(u, z), s.half * kDeg, 1e-7);
        const int see = clear == 0 || in == 0 ? 0 : clear < 0 || in < 0 ? -1 : 1;
        if (clear == 0 && in == 1) c.Label("behind the Earth");
        if (clear == 0 && in == 1 && ref::Dot(a, g) > 0) c.Label("behind the near limb");
        if (clear == 1 && in == 1 && ref::Dot(a, g) < 0) c.Label("beyond the limb");
        const bool listed = next < r.ListSize() && r.GetGnssInfo(next).gnss_id == i;
        if (see >= 0) c.Check(listed == see, "visible", at, ": satellite ", i, " is ", listed ? "" : "not ", "listed; limb clearance ", ref::Norm(a + along * u) - kEarth, " m, ", ref::Angle(u, z) / kDeg, " deg off boresight");
        if (see == 1) sure++;
        if (see < 0) open++;
        if (!listed) continue;
        const auto x = r.GetGnssInfo(next++);
        c.Near(x.distance_m, range, 1e-6, 1e-14, "range", at);
        const V3 dir{std::cos(x.latitude_rad) * std::cos(x.longitude_rad), std::cos(x.latitude_rad) * std::sin(x.longitude_rad), std::sin(x.latitude_rad)};
        Near3(c, dir, ref::ToFrame(s.q, ref::ToFrame(q, u)), 1e-11, 0, "direction", at);
        c.Check(std::fabs(x.latitude_rad) <= M_PI / 2 + 1e-12, "latitude-range", at, ": ", x.latitude_rad);
      }
      c.Check(next == r.ListSize(), "list", at, ": extra or unordered entries");
      c.Check(r.Count() == r.ListSize(), "count", at, ": ", r.Count(), " counted, ", r.ListSize(), " listed");
      want = sure >= 4 ? 1 : sure + open < 4 ? 0 : -1;
      if (sure > 0 && sure < 4) c.Label("one to three satellites");
    }
    if (want >= 0) c.Check(r.Fixed() == want, "fix", at, ": ", r.Fixed() ? "fix" : "no fix", " with ", r.Count(), " satellites");
    fixed = r.Fixed();
    if (fixed) Fix(c, s, r, d, at), fixes++;
    else Near3(c, R(r.GetMeasuredPosition_ecef_m()), rec_before, 0, 0, "lost", at), Near3(c, R(r.GetMeasuredVelocity_ecef_m_s()), vel_before, 0, 0, "lost", at), losses++;
    if (fixes) Geodetic(c, r, at);
    const auto log = rig::Numbers(r.GetLogValue());
    const auto head = rig::Split(r.GetLogHeader());
    c.Check(log.size() == 17 && head.size() == 17, "log", "columns");
    if (log.size() == 17) {
      c.Check(log[15] == (double)fixed && log[16] == (double)r.Count(), "log", "flags");
      for (int i = 0; i < 3; i++) c.Near(log[6 + i], R(r.GetMeasuredPosition_ecef_m())[i], 1e-6, 1e-9, "log", "position"), c.Near(log[9 + i], R(r.GetMeasuredVelocity_ecef_m_s())[i], 1e-6, 1e-9, "log", "velocity");
    }
  }
  c.NonTrivial(fixes > 0);
  if (fixes && losses) c.Label("fix lost and regained");
}
// ---------------------------------------------------------------- noise
static void Noise(Case& c) {
  mission::Quiet quiet;
  Bench b(c);
  auto& d = b.m->Sc(0).Dyn();
  const long seed = (long)c.Int(1, 100000000);
  Set s[2];
  for (auto& x : s) {
    x.prescaler = 1;
    for (double& v : x.sp) v = c.LogReal(0.1, 1e4);
    for (double& v : x.sv) v = c.LogReal(0.01, 10);
  }
  const V3 pos = c.LogReal(6.6e6, 4e7) * c.Dir(), vel = 7000. * c.Dir(), up = ref::Unit(pos);
  const V3 ax = ref::Cross(V3{0, 0, 1}, up);
  place::Put(d, pos, vel, ref::Norm(ax) > 1e-6 ? ref::AxisAngle(ref::Unit(ax), ref::Angle(V3{0, 0, 1}, up)) : Q4{up[2] > 0 ? 0. : 1., 0, 0, up[2] > 0 ? 1. : 0.});
  c.Note("seed ", seed, " ", Str(s[0].sp), Str(s[0].sv), Str(s[1].sp), Str(s[1].sv));
  const V3 p0 = R(d.GetOrbit().GetPosition_ecef_m()), v0 = R(d.GetOrbit().GetVelocity_ecef_m_s());
  s2e::environment::EarthRotation er(s2e::environment::EarthRotationMode::kIdle);
  s2e::environment::GnssSatellites gnss(er, false);
  const int N = 3000;
  std::vector<std::vector<double>> x(12);
  for (int run = 0; run < 2; run++) {
    s2e::randomization::global_randomization.SetSeed(seed);
    s2e::environment::ClockGenerator clock;
    std::vector<std::unique_ptr<Receiver>> r;
    for (auto& t : s) {
      const std::string f = c.TempDir() + "/r.ini";
      mission::Spit(f, t.Ini());
      r.emplace_back(new Receiver(co::InitGnssReceiver(&clock, t.id, f, &d, &gnss, &b.m->Time())));
    }
    for (int k = 0; k < (run ? 40 : N); k++) {
      clock.TickToComponents();
      for (int i = 0; i < 2; i++) {
        c.Check(r[i]->Fixed(), "noise-fix", "no fix");
        const V3 ep = R(r[i]->GetMeasuredPosition_ecef_m()) - p0, ev = R(r[i]->GetMeasuredVelocity_ecef_m_s()) - v0;
        for (int j = 0; j < 3; j++) {
          if (run) {
            c.Check(x[6 * i + j][k] == ep[j] && x[6 * i + 3 + j][k] == ev[j], "repeatable", "the same seed gives another noise at ", k);
          } else {
            x[6 * i + j].push_back(ep[j]), x[6 * i + 3 + j].push_back(ev[j]);
          }
        }
      }
      if (k < 5) Geodetic(c, *r[0], "noise");
    }
  }
  for (int a = 0; a < 12; a++) {
    const double sigma = a % 6 < 3 ? s[a / 6].sp[a % 3] : s[a / 6].sv[a % 3];
    double m = 0, v = 0;
    for (double e : x[a]) m += e / N, v += e * e / N;
    c.Near(m, 0, 7 * sigma / std::sqrt(N) + 1e-6, 0, "noise-mean", "column " + std::to_string(a));
    c.Near(std::sqrt(v), sigma, 7 * sigma / std::sqrt(2.0 * N) + 1e-6, 0, "noise-deviation", "column " + std::to_string(a));
    for (int e = 0; e <= a; e++) {
      const double se = e % 6 < 3 ? s[e / 6].sp[e % 3] : s[e / 6].sv[e % 3];
      double rho = 0;  // against the other column, or against itself one sample later
      for (int k = 1; k < N; k++) rho += x[a][k] * x[e][a == e ? k - 1 : k] / (sigma * se * N);
      c.Near(rho, 0, 7 / std::sqrt(N), 0, "noise-correlation", std::to_string(a) + " with " + std::to_string(e));
    }
  }
  c.NonTrivial();
}
// without computed GNSS satellites the cone model falls back to the simple one
static void Fallback(Case& c) {
  mission::Quiet quiet;
  Bench b(c);
  auto& d = b.m->Sc(0).Dyn();
  s2e::environment::EarthRotation er(s2e::environment::EarthRotationMode::kIdle);
  s2e::environment::GnssSatellites gnss(er, false);
  s2e::environment::ClockGenerator clock;
  Set s = Generate(c);
  s.cone = c.Bool(), s.prescaler = 1;
  const std::string f = c.TempDir() + "/r.ini";
  mission::Spit(f, s.Ini());
  Receiver r(co::InitGnssReceiver(&clock, s.id, f, &d, &gnss, &b.m->Time()));
  for (int k = 0; k < 20; k++) {
    const V3 pos = 7e6 * c.Dir();
    const Q4 q = c.Quat();
    place::Put(d, pos, 7000. * c.Dir(), q);
    clock.TickToComponents();
    const int want = Less(0, ref::Dot(ref::Rotate(q, ref::Rotate(s.q, V3{0, 0, 1})), ref::Unit(pos)), 1e-9);
    if (want >= 0) c.Check(r.Fixed() == want, "fix-simple", "tick ", k);
    if (r.Fixed()) Fix(c, s, r, d, "tick " + std::to_string(k));
  }
  c.NonTrivial(s.cone);
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C05", "the receiver had a fix during the case (noise: a full sample was drawn; fallback: a cone antenna without computed satellites)",
                   {{"outputs", Outputs, 800, 20000, 25}, {"noise", Noise, 40, 800, 4, 60}, {"fallback", Fallback, 150, 3000, 20}});
}
