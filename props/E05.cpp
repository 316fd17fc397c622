// link: sim
#include <environment/local/geomagnetic_field.hpp>
#include <fstream>
#include <map>
#include <math_physics/geomagnetic/igrf.h>
#include <math_physics/randomization/global_randomization.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
using pbt::Case;
using namespace s2e_ref;

// Independent reference: table, Schmidt potential (std::assoc_legendre), numerical gradient in long double.
static const char* kFile = VERIF_REPO "/example/settings/environment/magnetic_field/igrf13.coef";
struct Table {
  std::vector<double> years;
  double sv_from = 0;
  std::map<std::pair<int, int>, std::vector<double>> g, h;
  Table() {
    std::ifstream f(kFile);
    std::string line, w;
    std::getline(f, line);
    std::getline(f, line);
    std::istringstream hd(line);
    hd >> w >> w >> w;
    while (hd >> w)
      if (w.find('-') == std::string::npos) years.push_back(std::stod(w));
    while (std::getline(f, line)) {
      std::istringstream s(line);
      std::string k;
      int n, m;
      if (!(s >> k >> n >> m)) continue;
      std::vector<double> v;
      double x;
      while (s >> x) v.push_back(x);
      (k == "g" ? g : h)[{n, m}] = v;
    }
  }
  double At(const std::vector<double>& v, double year) const {
    const size_t k = years.size();
    if (year >= years[k - 1]) return v[k - 1] + v[k] * (year - years[k - 1]);
    size_t i = 0;
    while (i + 2 < k && year >= years[i + 1]) i++;
    return v[i] + (v[i + 1] - v[i]) * (year - years[i]) / (years[i + 1] - years[i]);
  }
};
static const Table& T0() {
  static const Table t;
  return t;
}
struct Field {
  std::vector<std::array<double, 4>> c;  // n, m, g, h
  explicit Field(double year) {
    for (auto& e : T0().g) {
      auto it = T0().h.find(e.first);
      c.push_back({(double)e.first.first, (double)e.first.second, T0().At(e.second, year), it == T0().h.end() ? 0 : T0().At(it->second, year)});
    }
  }
  long double V(long double x, long double y, long double z) const {
    const long double a = 6371.2L, r = std::sqrt(x * x + y * y + z * z), mu = z / r, phi = std::atan2(y, x);
    // normalised Legendre values by n, m
    long double s = 0;
    static const auto schmidt = [] {
      std::array<std::array<long double, 14>, 14> f{};
      for (int n = 1; n < 14; n++)
        for (int m = 0; m <= n; m++) {
          long double q = m ? 2 : 1;
          for (int i = n - m + 1; i <= n + m; i++) q /= i;
          f[n][m] = std::sqrt(q);
        }
      return f;
    }();
    for (auto& e : c) {
      const int n = (int)e[0], m = (int)e[1];
      if (e[2] == 0 && e[3] == 0) continue;
      s += std::pow(a / r, (long double)(n + 1)) * schmidt[n][m] * std::assoc_legendre((unsigned)n, (unsigned)m, mu) * (e[2] * std::cos(m * phi) + e[3] * std::sin(m * phi));
    }
    return a * s;
  }
  V3 B(const V3& p_km) const {
    const long double h = 0.02L;
    V3 b;
    for (int i = 0; i < 3; i++) {
      long double u[3] = {p_km[0], p_km[1], p_km[2]}, d[4];
      const long double k[4] = {-2, -1, 1, 2};
      for (int j = 0; j < 4; j++) {
        u[i] = p_km[i] + k[j] * h;
        d[j] = V(u[0], u[1], u[2]);
      }
      b[i] = -(double)((d[0] - 8 * d[1] + 8 * d[2] - d[3]) / (12 * h));
    }
    return b;
  }
};
static V3 Ecef_km(double lat, double lon, double alt_m) {
  const double a = 6378.137, f = 1 / 298.25722, e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat)), h = alt_m / 1000;
  return {(n + h) * std::cos(lat) * std::cos(lon), (n + h) * std::cos(lat) * std::sin(lon), (n * (1 - e2) + h) * std::sin(lat)};
}
struct Query {
  double year, lat, lon, alt, gmst;
};
static Query AnyQuery(Case& c, const std::vector<Query>& past) {
  Query q;
  q.year = c.Chance(0.3) ? (double)c.Int(1900, 2029) : c.Chance(0.2) ? 1900 + 5.0 * (double)c.Int(0, 25) + c.Of<double>({0, 1e-6, -1e-6}) : c.Real(1900, 2030);
  q.lat = c.Chance(0.1) ? c.Of<double>({M_PI / 2, -M_PI / 2, 0.0, 1.5707, -1.5707, 1.39626, 1.3963}) : std::asin(c.Real(-1, 1));
  q.lon = c.Chance(0.1) ? c.Of<double>({0.0, M_PI, -M_PI, 2 * M_PI, M_PI / 2}) : c.Real(-M_PI, 2 * M_PI);
  q.alt = c.Bool() ? c.Real(0, 2e6) : c.LogReal(1, 4e7);
  q.gmst = c.Real(0, 2 * M_PI);
  // parts of earlier queries again
  if (!past.empty() && c.Chance(0.5)) {
    const Query& o = c.From(past);
    const int m = (int)c.Int(0, 31);
    if (m & 1) q.year = o.year;
    if (m & 2) q.lat = o.lat;
    if (m & 4) q.lon = o.lon;
    if (m & 8) q.alt = o.alt;
    if (m & 16) q.gmst = o.gmst;
  }
  return q;
}
static V3 Want(const Query& q) { return ref::T(ref::Rz(q.gmst)) * Field(q.year).B(Ecef_km(q.lat, q.lon, q.alt)); }
// near the poles the code evaluates the east component with a clamped sine
static double PoleSlack(const Query& q) { return std::fabs(std::fabs(q.lat) - M_PI / 2) < 1e-4 ? 0.05 : 0; }
static void Model(Case& c) {
  set_file_path(kFile);
  std::vector<Query> past;
  const int n = (int)c.Int(1, 6);
  for (int i = 0; i < n; i++) {
    const Query q = AnyQuery(c, past);
    c.Note("year ", q.year, " lat ", q.lat, " lon ", q.lon, " alt ", q.alt, " gmst ", q.gmst);
    double m[3];
    IgrfCalc(q.year, q.lat, q.lon, q.alt, q.gmst, m);
    const V3 w = Want(q);
    Near3(c, {m[0], m[1], m[2]}, w, 2e-4 + PoleSlack(q), 2e-8, "igrf-field", "query " + std::to_string(i));
    past.push_back(q);
    if (i && past[i - 1].year != q.year) c.NonTrivial();
  }
}
static void Maxwell(Case& c) {
  set_file_path(kFile);
  const double year = c.Real(1900, 2030), h = 2e3;  // metres
  const double lat = std::asin(c.Real(-0.99, 0.99)), lon = c.Real(-3, 3), alt = c.Real(5e4, 3e6);
  c.Note("year ", year, " lat ", lat, " lon ", lon, " alt ", alt);
  const V3 p = 1000.0 * Ecef_km(lat, lon, alt);
  const double a = 6378137.0, f = 1 / 298.25722, e2 = f * (2 - f);
  auto at = [&](const V3& x) {
    const double rho = std::hypot(x[0], x[1]);
    double la = std::atan2(x[2], rho * (1 - e2)), n = a;
    for (int i = 0; i < 60; i++) {
      n = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
      la = std::atan2(x[2] + e2 * n * std::sin(la), rho);
    }
    n = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
    const double hh = std::fabs(std::cos(la)) > 0.1 ? rho / std::cos(la) - n : x[2] / std::sin(la) - n * (1 - e2);
    double m[3];
    IgrfCalc(year, la, std::atan2(x[1], x[0]), hh, 0, m);
    return V3{m[0], m[1], m[2]};
  };
  double J[3][3];
  for (int j = 0; j < 3; j++) {
    V3 hi = p, lo = p;
    hi[j] += h, lo[j] -= h;
    const V3 d = (at(hi) - at(lo)) / (2 * h);
    for (int i = 0; i < 3; i++) J[i][j] = d[i];
  }
  double mag = 0;
  for (auto& r : J)
    for (double v : r) mag = std::max(mag, std::fabs(v));
  c.Near((J[0][0] + J[1][1] + J[2][2]) / mag, 0, 2e-4, 0, "divergence");
  c.Near((J[1][0] - J[0][1]) / mag, 0, 2e-4, 0, "curl");
  c.Near((J[2][0] - J[0][2]) / mag, 0, 2e-4, 0, "curl");
  c.Near((J[2][1] - J[1][2]) / mag, 0, 2e-4, 0, "curl");
  c.NonTrivial();
}
static void Environment(Case& c) {
  // several spacecraft, any order of calls; only the noisy ones are noisy
  const int n = (int)c.Int(1, 4);
  std::vector<s2e::environment::GeomagneticField> f;
  std::vector<double> white, walk, limit;
  for (int i = 0; i < n; i++) {
    const bool noisy = c.Bool();
    white.push_back(noisy && c.Bool() ? c.Real(1, 100) : 0), walk.push_back(noisy ? c.Real(0, 50) : 0), limit.push_back(c.Real(1, 400));
    f.emplace_back(kFile, walk[i], limit[i], white[i]);
    c.Note("field ", i, " walk ", walk[i], " limit ", limit[i], " white ", white[i]);
  }
  std::vector<Query> past;
  for (int k = 0; k < 12; k++) {
    const int i = (int)c.Int(0, n - 1);
    const Query q = AnyQuery(c, past);
    past.push_back(q);
    const Q4 att = c.Quat();
    f[i].IsCalcEnabled = !c.Chance(0.1);
    const V3 before = R(f[i].GetGeomagneticField_i_nT()), before_b = R(f[i].GetGeomagneticField_b_nT());
    f[i].CalcMagneticField(q.year, q.gmst, s2e::geodesy::GeodeticPosition(q.lat, q.lon, q.alt), S(att));
    const V3 gi = R(f[i].GetGeomagneticField_i_nT()), gb = R(f[i].GetGeomagneticField_b_nT());
    if (!f[i].IsCalcEnabled) {
      Near3(c, gi, before, 0, 0, "disabled");
      Near3(c, gb, before_b, 0, 0, "disabled");
      continue;
    }
    Near3(c, gb, ref::ToFrame(att, gi), 1e-7, 1e-12, "body-field");
    // walk: at most 8 sigma per 0.1 s step so far; white: 8 sigma
    const double slack = 2e-4 + PoleSlack(q) + std::sqrt(3.0) * (8 * white[i] + 8 * 0.1 * walk[i] * (k + 1));
    Near3(c, gi, Want(q), slack, 2e-8, "environment-field", "spacecraft " + std::to_string(i));
    if (white[i] == 0 && walk[i] == 0) c.NonTrivial(n > 1);
  }
}
static void Noise(Case& c) {
  s2e::randomization::global_randomization.SetSeed((long)c.Int(1, 1000000));
  const double w0 = c.LogReal(1, 200), w1 = c.LogReal(1, 200);
  const bool walk = c.Bool();
  const double wk = walk ? c.Real(1, 20) : 0, lim = c.Real(5, 50);
  s2e::environment::GeomagneticField a(kFile, wk, lim, w0), b(kFile, 0, 1, w1);
  const Query q = AnyQuery(c, {});
  c.Note("white ", w0, " ", w1, " walk ", wk, " limit ", lim);
  c.NonTrivial();
  const V3 w = Want(q);
  const int N = 2000;
  std::vector<V3> steps;
  V3 last{};
  double s1[3] = {}, s2[3] = {}, t2[3] = {}, t1[3] = {}, cross[3] = {}, serial = 0, axes = 0;
  V3 prev{};
  for (int k = 0; k < N; k++) {
    const s2e::geodesy::GeodeticPosition g(q.lat, q.lon, q.alt);
    a.CalcMagneticField(q.year, q.gmst, g, S(Q4{0, 0, 0, 1}));
    b.CalcMagneticField(q.year, q.gmst, g, S(Q4{0, 0, 0, 1}));
    const V3 da = R(a.GetGeomagneticField_i_nT()) - w, db = R(b.GetGeomagneticField_i_nT()) - w;
    for (int i = 0; i < 3; i++) s1[i] += da[i], s2[i] += da[i] * da[i], t1[i] += db[i], t2[i] += db[i] * db[i], cross[i] += da[i] * db[i];
    serial += db[0] * prev[0], axes += db[0] * db[1];
    prev = db;
    if (k) steps.push_back(da - last);
    last = da;
    if (walk)
      for (int i = 0; i < 3; i++) c.Check(std::fabs(da[i]) <= lim + 0.1 * wk * 8 + 8 * w0 + 1, "walk-limit", da[i], " limit ", lim);
  }
  // standard errors: mean sigma/sqrt(N), sigma relative 1/sqrt(2N); 7 sigma bounds
  for (int i = 0; i < 3; i++) {
    c.Near(t1[i] / N, 0, 7 * w1 / std::sqrt(N) + 0.06, 0, "noise-mean");
    c.Near(std::sqrt(t2[i] / N), w1, 0.06, 7 / std::sqrt(2.0 * N), "noise-deviation");
    if (!walk) {
      c.Near(std::sqrt(s2[i] / N), w0, 0.06, 7 / std::sqrt(2.0 * N), "noise-deviation");
      c.Near(cross[i] / N / (w0 * w1), 0, 7 / std::sqrt(N) + 0.01, 0, "noise-independence", "between spacecraft");
    } else if (wk * 0.1 * std::sqrt(N) < lim / 4) {
      c.Check(s2[i] / N < 3 * (w0 * w0 + lim * lim), "walk-spread");
    }
  }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < i; j++) {
      double ii = 0, jj = 0, ij = 0;
      for (auto& d : steps) ii += d[i] * d[i], jj += d[j] * d[j], ij += d[i] * d[j];
      c.Near(ij / std::sqrt(ii * jj), 0, 9 / std::sqrt((double)N), 0, "axes-correlated", "noise and walk of two axes");
    }
  c.Near(serial / N / (w1 * w1), 0, 7 / std::sqrt(N) + 0.01, 0, "noise-independence", "in time");
  c.Near(axes / N / (w1 * w1), 0, 7 / std::sqrt(N) + 0.01, 0, "noise-independence", "between axes");
}
// settings file and mission: field at the spacecraft's place and attitude
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  char start[64];
  const int y = (int)c.Int(1975, 2029), mo = (int)c.Int(1, 12);
  snprintf(start, sizeof start, "%d/%d/%d %d:%d:0.0", y, mo, (int)c.Int(1, 28), (int)c.Int(0, 23), (int)c.Int(0, 59));
  mission::SetTime(s, start, 1000, 1, c.Bool() ? 1.0 : (double)c.Int(1, 4), 1, c.Bool() ? 1.0 : (double)c.Int(1, 4), 1, 1, 1, 1, 1);
  const bool moon = c.Chance(0.1);
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "center_object", moon ? "MOON" : "EARTH");
  for (const char* k : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "THIRD_BODY_GRAVITY"}) s.Set("sample_satellite/disturbance.ini", k, "calculation", "DISABLE");
  const std::string le = "sample_satellite/local_environment.ini", sat = "sample_satellite/satellite.ini";
  const bool asked = !c.Chance(0.2), enabled = asked && !moon;
  s.Set(le, "MAGNETIC_FIELD_ENVIRONMENT", "calculation", asked);
  for (const char* k : {"magnetic_field_random_walk_standard_deviation_nT", "magnetic_field_white_noise_standard_deviation_nT"}) s.Set(le, "MAGNETIC_FIELD_ENVIRONMENT", k, 0.0);
  s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4);
  s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", 0.05 * c.Dir());
  const V3 dir = c.Dir();
  const V3 pos = c.Real(6.6e6, 2e7) * dir, vel = 7000.0 * ref::Unit(ref::Cross(dir, V3{0.3, 0.5, -0.7}));
  s.SetVec(sat, "ORBIT", "initial_position_i_m", pos);
  s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", vel);
  c.Note(start, " enabled ", enabled, " position ", Str(pos));
  mission::Mission m(s);
  m.Initialize();
  for (int k = 0; k < 6; k++) {
    const auto& o = m.Sc().GetDynamics().GetOrbit();
    const V3 before_i = R(m.Sc().GetLocalEnvironment().GetGeomagneticField().GetGeomagneticField_i_nT()), before_b = R(m.Sc().GetLocalEnvironment().GetGeomagneticField().GetGeomagneticField_b_nT());
    const Query q{0, o.GetGeodeticPosition().GetLatitude_rad(), o.GetGeodeticPosition().GetLongitude_rad(), o.GetGeodeticPosition().GetAltitude_m(), 0};
    const Q4 att = R(m.Sc().GetDynamics().GetAttitude().GetQuaternion_i2b());
    m.Step();
    if (!m.Time().GetOrbitPropagateFlag() && !m.Time().GetAttitudePropagateFlag()) {
      Near3(c, R(m.Sc().GetLocalEnvironment().GetGeomagneticField().GetGeomagneticField_i_nT()), before_i, 0, 0, "kept-between-updates");
      Near3(c, R(m.Sc().GetLocalEnvironment().GetGeomagneticField().GetGeomagneticField_b_nT()), before_b, 0, 0, "kept-between-updates");
      continue;
    }
    Query at = q;
    at.year = m.Time().GetCurrentDecimalYear(), at.gmst = m.Time().GetCurrentSiderealTime();
    const V3 w = enabled ? Want(at) : V3{};
    const auto& g = m.Sc().GetLocalEnvironment().GetGeomagneticField();
    Near3(c, R(g.GetGeomagneticField_i_nT()), w, 0.05, 1e-7, "mission-field");
    Near3(c, R(g.GetGeomagneticField_b_nT()), ref::ToFrame(att, w), 0.05, 1e-7, "mission-body-field");
  }
  c.NonTrivial(enabled);
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E05", "a history that changes the date; noiseless field beside noisy ones; enabled field",
                   {{"model", Model, 6000, 100000, 20},
                    {"maxwell", Maxwell, 3000, 60000, 100},
                    {"environment", Environment, 1200, 20000, 10},
                    {"noise", Noise, 400, 6000, 5},
                    {"mission", Mission, 200, 3000, 5, 60}});
}
