// link: sim
#include <environment/local/atmosphere.hpp>
#include <math_physics/atmosphere/harris_priester_model.hpp>
#include <math_physics/atmosphere/simple_air_density_model.hpp>
#include <math_physics/atmosphere/wrapper_nrlmsise00.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
using pbt::Case;
using namespace s2e_ref;
// reference tables
static const double kVallado[][3] = {  // base altitude km, base density, scale height km
    {0, 1.225, 7.249}, {25, 0.03899, 6.349}, {30, 0.01774, 6.682}, {40, 0.003972, 7.554}, {50, 0.001057, 8.382}, {60, 0.0003206, 7.714}, {70, 8.77e-05, 6.549}, {80, 1.905e-05, 5.799}, {90, 3.396e-06, 5.382}, {100, 5.297e-07, 5.877}, {110, 9.661e-08, 7.263}, {120, 2.438e-08, 9.473}, {130, 8.484e-09, 12.636}, {140, 3.845e-09, 16.149}, {150, 2.07e-09, 22.523}, {180, 5.464e-10, 29.74}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.17e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268}};
static const double kHp[][3] = {  // altitude km, minimum and maximum density g/km3
    {100, 497400.0, 497400.0}, {120, 24900.0, 24900.0}, {130, 8377.0, 8710.0}, {140, 3899.0, 4059.0}, {150, 2122.0, 2215.0}, {160, 1263.0, 1344.0}, {170, 800.8, 875.8}, {180, 528.3, 601.0}, {190, 361.7, 429.7}, {200, 255.7, 316.2}, {210, 183.9, 239.6}, {220, 134.1, 185.3}, {230, 99.49, 145.5}, {240, 74.88, 115.7}, {250, 57.09, 93.08}, {260, 44.03, 75.55}, {270, 34.30, 61.82}, {280, 26.97, 50.95}, {290, 21.39, 42.26}, {300, 17.08, 35.26}, {320, 10.99, 25.11}, {340, 7.214, 18.19}, {360, 4.824, 13.37}, {380, 3.274, 9.955}, {400, 2.249, 7.492}, {420, 1.558, 5.684}, {440, 1.091, 4.355}, {460, 0.7701, 3.362}, {480, 0.5474, 2.612}, {500, 0.3916, 2.042}, {520, 0.2819, 1.605}, {540, 0.2042, 1.267}, {560, 0.1488, 1.005}, {580, 0.1092, 0.7997}, {600, 0.08070, 0.6390}, {620, 0.06012, 0.5123}, {640, 0.04519, 0.4121}, {660, 0.03430, 0.3325}, {680, 0.02632, 0.2691}, {700, 0.02043, 0.2185}, {720, 0.01607, 0.1779}, {740, 0.01281, 0.1452}, {760, 0.01036, 0.1190}, {780, 0.008496, 0.09776}, {800, 0.007069, 0.08059}, {840, 0.004680, 0.05741}, {880, 0.003200, 0.04210}, {920, 0.002210, 0.03130}, {960, 0.001560, 0.02360}, {1000, 0.001150, 0.01810}};
static double Simple(double km) {
  if (km < 0) return 0;
  size_t i = 0;
  while (i + 1 < std::size(kVallado) && km >= kVallado[i + 1][0]) i++;
  return kVallado[i][1] * std::exp((kVallado[i][0] - km) / kVallado[i][2]);
}
static double Interp(int col, double km) {  // log-linear in altitude
  const size_t n = std::size(kHp);
  if (km <= kHp[0][0]) return kHp[0][col];
  size_t i = 0;
  while (i + 2 < n && km >= kHp[i + 1][0]) i++;
  const double t = (km - kHp[i][0]) / (kHp[i + 1][0] - kHp[i][0]);
  return std::exp(std::log(kHp[i][col]) * (1 - t) + std::log(kHp[i + 1][col]) * t);
}
static V3 Ecef(double lat, double lon, double alt) {
  const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
  return {(n + alt) * std::cos(lat) * std::cos(lon), (n + alt) * std::cos(lat) * std::sin(lon), (n * (1 - e2) + alt) * std::sin(lat)};
}
static double Hp(double lat, double lon, double alt, const V3& sun_ecef, double exponent = 4) {
  const V3 apex = ref::T(ref::Rz(30 * M_PI / 180)) * ref::Unit(sun_ecef);
  const double psi = ref::Angle(Ecef(lat, lon, alt), apex);
  const double lo = Interp(1, alt / 1e3), hi = Interp(2, alt / 1e3);
  return (lo + (hi - lo) * std::pow(std::cos(psi / 2), exponent)) * 1e-12;
}
// the bulge function vanishes opposite to the bulge: rounding of the angle to it is amplified there when the night-side density is far below the day-side one
static double HpRounding(double lat, double lon, double alt, const V3& sun_ecef, double exponent = 4) {
  const V3 apex = ref::T(ref::Rz(30 * M_PI / 180)) * ref::Unit(sun_ecef);
  const double psi = ref::Angle(Ecef(lat, lon, alt), apex), d = 1e-8;  // the ellipsoids differ by centimetres
  return 1e-12 * std::fabs(Interp(2, alt / 1e3) - Interp(1, alt / 1e3)) * (std::pow(std::fabs(std::cos(psi / 2)) + d, exponent) - std::pow(std::fabs(std::cos(psi / 2)), exponent));
}
static double AnyAltitude_km(Case& c) {
  switch (c.Int(0, 4)) {
    case 0: return kVallado[c.Int(0, std::size(kVallado) - 1)][0] + c.Of<double>({0, 1e-9, -1e-9, 0.5, -0.5});
    case 1: return kHp[c.Int(0, std::size(kHp) - 1)][0] + c.Of<double>({0, 1e-9, -1e-9, 0.5, -0.5});
    case 2: return c.EdgeReal(100, 1000);
    case 3: return c.EdgeReal(0, 2000);
    default: return c.LogReal(0.001, 40000);
  }
}
static double Lat(Case& c) { return c.Chance(0.1) ? c.Of<double>({0.0, M_PI / 2, -M_PI / 2}) : std::asin(c.Real(-1, 1)); }
static double Lon(Case& c) { return c.Real(-M_PI, 2 * M_PI); }

static void Models(Case& c) {
  double km = AnyAltitude_km(c);
  if (c.Chance(0.05)) km = -c.LogReal(1e-6, 10);
  const double lat = Lat(c), lon = Lon(c);
  const V3 sun = c.LogReal(1e-3, 1e12) * c.Dir();
  c.Note("altitude km ", km, " lat ", lat, " lon ", lon, " sun ", Str(sun));
  c.NonTrivial(km > 0);
  const double s = s2e::atmosphere::CalcAirDensityWithSimpleModel(km * 1e3);
  c.Near(s, Simple(km * 1e3 / 1e3), 0, 1e-9, "layered-model");
  auto hp = [&](double k, double e) { return s2e::atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(s2e::geodesy::GeodeticPosition(lat, lon, k * 1e3), S(sun), 100, e); };
  const double h = s2e::atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(s2e::geodesy::GeodeticPosition(lat, lon, km * 1e3), S(sun));
  c.Near(h, Hp(lat, lon, km * 1e3, sun), HpRounding(lat, lon, km * 1e3, sun), 1e-7, "bulge-model");
  const double e = c.Real(2, 6);
  c.Near(hp(km, e), Hp(lat, lon, km * 1e3, sun, e), HpRounding(lat, lon, km * 1e3, sun, e), 1e-7, "bulge-model", "exponent " + std::to_string(e));
  if (km < 0) return;
  c.Check(s > 0 && h > 0, "positive", s, " ", h);
  // higher is never denser
  const double up = c.Bool() ? km + c.LogReal(1e-6, 100) : std::fabs(AnyAltitude_km(c));
  const double a = std::min(km, up), b = std::max(km, up);
  c.Check(s2e::atmosphere::CalcAirDensityWithSimpleModel(b * 1e3) <= s2e::atmosphere::CalcAirDensityWithSimpleModel(a * 1e3) * 1.002, "not-increasing", "layered ", a, " ", b);
  c.Check(hp(b, 4) <= hp(a, 4) * 1.001, "not-increasing", "bulge ", a, " ", b);
}
// ---- space weather -------------------------------------------------------------------------------------------------------------
static int64_t Days(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
struct Ymd {
  int y, m, d;
};
static Ymd Civil(int64_t z) {
  z += 719468;
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100),
                mp = (5 * doy + 2) / 153;
  Ymd r;
  r.d = (int)(doy - (153 * mp + 2) / 5 + 1), r.m = (int)(mp < 10 ? mp + 3 : mp - 9), r.y = (int)(yoe + era * 400 + (r.m <= 2));
  return r;
}
struct Row {
  Ymd at;
  int ap;
  double f107, f107a, other[4];
};
static std::string Line(const Row& r) {
  char b[200];
  std::string s;
  snprintf(b, sizeof b, "%4d %02d %02d%5d%3d", r.at.y, r.at.m, r.at.d, 2400, 7);
  s += b;
  for (int i = 0; i < 8; i++) snprintf(b, sizeof b, "%3d", 10 + i), s += b;
  snprintf(b, sizeof b, "%4d", 150), s += b;
  for (int i = 0; i < 8; i++) snprintf(b, sizeof b, "%4d", r.ap), s += b;
  snprintf(b, sizeof b, "%4d%4.1f%2d%4d%6.1f%2d%6.1f%6.1f%6.1f%6.1f%6.1f", r.ap, 0.5, 2, 33, r.f107, 0, r.f107a, r.other[0], r.other[1], r.other[2], r.other[3]);
  return s + b + "\n";
}
static double DecYear(double unix_days) {
  const Ymd t = Civil((int64_t)std::floor(unix_days));
  const int64_t a = Days(t.y, 1, 1), b = Days(t.y + 1, 1, 1);
  return t.y + (unix_days - (double)a) / (double)(b - a);
}
struct Weather {
  int64_t first = 0, updated = 0, monthly = 0, end = 0;  // day numbers; daily rows until monthly, then one row a month
  std::vector<Row> rows;
  std::string text;
  const Row& On(int64_t day) const {
    const Ymd t = Civil(day);
    const Row* best = nullptr;
    for (auto& r : rows) {
      if (r.at.y == t.y && r.at.m == t.m && r.at.d == t.d) return r;
      if (r.at.y == t.y && r.at.m == t.m && !best && r.at.d == 1) best = &r;
    }
    return *best;
  }
};
static Weather AnyWeather(Case& c, int64_t start, int64_t stop) {
  Weather w;
  const bool predicted = c.Bool();  // the mission lies in the monthly part
  const Ymd s0 = Civil(start);
  w.first = Days(s0.m < 3 ? s0.y - 1 : s0.y, s0.m < 3 ? s0.m + 10 : s0.m - 2, 1);
  w.updated = predicted ? w.first - c.Int(50, 400) : stop + 10 + c.Int(0, 100);
  auto row = [&](int64_t day) {
    Row r;
    r.at = Civil(day);
    r.ap = (int)c.Of<int64_t>({c.Int(0, 20), c.Int(0, 400)});
    r.f107 = (double)c.Int(600, 3000) / 10, r.f107a = (double)c.Int(600, 3000) / 10;
    for (double& o : r.other) o = (double)c.Int(600, 3000) / 10;
    w.rows.push_back(r);
  };
  for (int64_t d = w.first; d <= stop + 40; d++)
    if (!predicted || Civil(d).d == 1) row(d);
  static const char* kMon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  const Ymd u = Civil(w.updated);
  char b[120];
  snprintf(b, sizeof b, "UPDATED %4d %s %02d 10:00:00 UTC\n#\n# yyyy mm dd ...\n\n", u.y, kMon[u.m - 1], u.d);
  w.text = std::string("DATATYPE CssiSpaceWeather\nVERSION 1.2\n") + b + "NUM_OBSERVED_POINTS " + std::to_string(w.rows.size()) + "\nBEGIN OBSERVED\n";
  for (auto& r : w.rows) w.text += Line(r);
  w.text += "END OBSERVED\n";
  return w;
}
static void CheckInput(Case& c, double unix_days, double lat, double lon, double alt, double f107, double f107a, double ap, double got) {
  const nrlmsise_input& in = fake::last_msis_input;
  const Ymd t = Civil((int64_t)std::floor(unix_days));
  const double day = (double)(Days(t.y, t.m, t.d) - Days(t.y, 1, 1) + 1), sec = (unix_days - std::floor(unix_days)) * 86400;
  c.Near(in.alt, alt / 1e3, 1e-9, 1e-12, "altitude"), c.Near(in.g_lat, lat * 180 / M_PI, 1e-9, 0, "latitude"), c.Near(in.g_long, lon * 180 / M_PI, 1e-9, 0, "longitude");
  c.Near(in.doy + in.sec / 86400, day + sec / 86400, 1.2 / 86400, 0, "time-of-year");
  c.Check(in.sec >= 0 && in.sec < 86400 && in.doy >= 1 && in.doy <= 366, "time-range", in.doy, " ", in.sec);
  c.Near(std::remainder(in.lst - (sec / 3600 + lon * 12 / M_PI), 24), 0, 1e-3, 0, "local-solar-time");
  c.Near(in.f107, f107, 1e-9, 0, "daily-f107"), c.Near(in.f107A, f107a, 1e-9, 0, "average-f107"), c.Near(in.ap, ap, 1e-9, 0, "ap");
  for (double a : fake::last_msis_ap.a) c.Near(a, ap, 1e-9, 0, "ap-array");
  c.Near(got, fake::MsisDensity(in), 0, 1e-12, "density");
}
static void SpaceWeather(Case& c) {
  mission::Quiet quiet;
  // a few space weather files one after the other (constellations, several missions in one program)
  const int n = (int)c.Int(1, 2);
  for (int k = 0; k < n; k++) {
    int64_t start = Days(c.Int(2015, 2042), (int)c.Int(1, 12), 1) + (c.Chance(0.4) ? c.Of<int64_t>({0, -1, 1}) : c.Int(0, 27));
    if (c.Chance(0.15)) start = Days(c.Int(2015, 2042), c.Of<int>({1, 3, 12}), 1) - 1;
    if (start < Days(2015, 1, 1)) start += 31;
    const double length_s = c.Bool() ? c.Real(0, 86400) : c.Real(0, 40 * 86400), from = (double)start + c.EdgeReal(1e-4, 0.9999);
    const int64_t stop = (int64_t)std::floor(from + length_s / 86400);
    const Weather w = AnyWeather(c, start, stop);
    const std::string path = c.TempDir() + "/sw" + std::to_string(k) + ".txt";
    mission::Spit(path, w.text);
    std::vector<s2e::atmosphere::nrlmsise_table> table;
    c.Note("updated ", Civil(w.updated).y, "/", Civil(w.updated).m, "/", Civil(w.updated).d, " start ", Civil(start).y, "/", Civil(start).m, "/", Civil(start).d, " length d ", length_s / 86400);
    const size_t rows = s2e::atmosphere::GetSpaceWeatherTable_(DecYear(from), length_s, path, table);
    c.Check(rows > 0 && rows == table.size(), "no-rows");
    for (int i = 0; i < 6; i++) {
      double t = i == 0 ? from : i == 1 ? from + length_s / 86400 : from + c.Unit() * length_s / 86400;
      const int64_t day = (int64_t)std::floor(t);
      if (t - day < 2e-5 || t - day > 1 - 2e-5) t = day + 0.5;  // second is truncated: keep clear of midnight
      const double lat = Lat(c), lon = Lon(c), alt = AnyAltitude_km(c) * 1e3;
      const Row& r = w.On(day);
      const double got = s2e::atmosphere::CalcNRLMSISE00(DecYear(t), lat, lon, alt, table, false, 1, 2, 3);
      c.Note("query day ", Civil(day).y, "/", Civil(day).m, "/", Civil(day).d);
      CheckInput(c, t, lat, lon, alt, r.f107, r.f107a, r.ap, got);
    }
    c.NonTrivial();
  }
}
// settings and missions
static void Mission(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  const int y = (int)c.Int(2015, 2042), mo = (int)c.Int(1, 12), d = (int)c.Int(1, 28), hh = (int)c.Int(0, 23), mi = (int)c.Int(1, 58);
  char start[64];
  snprintf(start, sizeof start, "%d/%d/%d %d:%d:0.0", y, mo, d, hh, mi);
  const int att = (int)c.Int(1, 3), orb = c.Bool() ? 1 : (int)c.Int(1, 3);
  mission::SetTime(s, start, 1000, 1, att, 1, orb, 1, 1, 1, 1, 1);
  const bool moon = c.Chance(0.1);
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "center_object", moon ? "MOON" : "EARTH");
  for (const char* k : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "THIRD_BODY_GRAVITY"}) s.Set("sample_satellite/disturbance.ini", k, "calculation", "DISABLE");
  const std::string le = "sample_satellite/local_environment.ini", sat = "sample_satellite/satellite.ini", A = "ATMOSPHERE";
  const bool asked = !c.Chance(0.15), enabled = asked && !moon, manual = c.Bool();
  const std::string model = c.Of<const char*>({"STANDARD", "NRLMSISE00", "HARRIS_PRIESTER", "NONE"});
  const double sd = orb > 1 || c.Bool() ? 0 : c.Real(0.001, 0.3);
  double f = c.Real(30, 300), fa = c.Real(30, 300), ap = c.Real(0, 400);
  s.Set(le, A, "calculation", asked), s.Set(le, A, "model", model), s.Set(le, A, "is_manual_parameter_used", manual);
  s.Set(le, A, "manual_daily_f107", f), s.Set(le, A, "manual_average_f107", fa), s.Set(le, A, "manual_ap", ap), s.Set(le, A, "air_density_standard_deviation", sd);
  const int64_t day = Days(y, mo, d);
  const bool missing = !manual && c.Chance(0.1);  // unreadable table: layered model instead
  Weather w;
  if (!manual) {
    w = AnyWeather(c, day, day);
    if (!missing) s.Text("environment/space_weather/SpaceWeather-v1.2.txt") = w.text;
  }
  if (f < 50) f = 150;
  if (fa < 50) fa = 150;
  const V3 dir = c.Dir(), pos = (6378137.0 + std::max(60.0, AnyAltitude_km(c)) * 1e3) * dir;
  s.SetVec(sat, "ORBIT", "initial_position_i_m", pos);
  s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", 7500.0 * ref::Unit(ref::Cross(dir, V3{0.3, 0.5, -0.7})));
  c.Note(start, " ", model, " enabled ", enabled, moon ? " moon" : "", " manual ", manual, " missing ", missing, " sd ", sd, " position ", Str(pos));
  c.NonTrivial(enabled && model != "NONE");
  mission::Mission m(s);
  m.Initialize();
  const auto& o = m.Sc().Dyn().GetOrbit();
  double sum = 0, sum2 = 0;
  const int N = sd > 0 ? 60 : orb > 1 ? 7 : 4;
  for (int k = 0; k < N; k++) {
    const auto& g = o.GetGeodeticPosition();
    const double lat = g.GetLatitude_rad(), lon = g.GetLongitude_rad(), alt = g.GetAltitude_m();
    const long calls = fake::msis_calls;
    const double before = m.Sc().Local().GetAtmosphere().GetAirDensity_kg_m3();
    m.Step();
    const double got = m.Sc().Local().GetAtmosphere().GetAirDensity_kg_m3();
    if (!m.Time().GetOrbitPropagateFlag()) {
      c.Check(got == before && fake::msis_calls == calls, "kept-between-updates", "step ", k, " ", before, " to ", got);
      continue;
    }
    double want = 0;
    const double t = (double)day + (hh * 3600.0 + mi * 60.0 + k + 1) / 86400;
    const std::string used = model == "NRLMSISE00" && missing ? "STANDARD" : model;
    if (enabled && used == "STANDARD") want = Simple(alt / 1e3);
    if (enabled && used == "HARRIS_PRIESTER") {
      const auto& cel = m.Env().GetCelestialInformation();
      V3 sun = R(cel.GetPositionFromSelectedBody_i_m("SUN", "EARTH"));
      want = Hp(lat, lon, alt, R(cel.GetEarthRotation().GetDcmJ2000ToEcef()) * sun);
    }
    if (enabled && used == "NRLMSISE00") {
      c.Check(fake::msis_calls == calls + 1, "external-model-called", fake::msis_calls - calls);
      want = fake::MsisDensity(fake::last_msis_input);
      const bool man = manual;
      const Row* r = man ? nullptr : &w.On(day);
      CheckInput(c, t, lat, lon, alt, man ? f : r->f107, man ? fa : r->f107a, man ? ap : r->ap, want);
    } else {
      c.Check(fake::msis_calls == calls, "external-model-called");
    }
    if (want == 0) {
      c.Near(got, 0, 0, 0, "no-density");
    } else if (sd == 0) {
      c.Near(got, want, 0, 1e-6, "mission-density");
    } else {
      const double z = (got / want - 1) / sd;
      c.Check(std::fabs(z) < 7, "noise-size", z);
      sum += z, sum2 += z * z;
    }
  }
  if (enabled && sd > 0 && sum2 > 0) {
    c.Near(sum / N, 0, 7 / std::sqrt(N), 0, "noise-mean");
    c.Near(sum2 / N, 1, 7 * std::sqrt(2.0 / N), 0, "noise-deviation");
  }
  if (enabled && sd > 0 && model != "NONE") c.Check(sum2 > 0, "noise-missing");
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E04", "an altitude above ground; a generated space-weather file; an enabled model",
                   {{"models", Models, 60000, 1500000, 500}, {"space weather", SpaceWeather, 8000, 100000, 50}, {"mission", Mission, 800, 8000, 5, 60}});
}
