// link: sim
#include <environment/global/gnss_satellites.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
#include "sp3.hpp"
using pbt::Case;
using namespace s2e_ref;
using s2e::environment::GnssSatellites;
using s2e::gnss::Sp3FileReader;
using s2e::time_system::EpochTime;
static const double kW = 2 * M_PI / (86400 * 1.003);
struct Truth {  // trigonometric polynomial of order 4 plus an optional higher harmonic; clock: polynomial
  double a[3][5], b[3][5], hi[3] = {0, 0, 0}, hp[3] = {0, 0, 0}, clk[4];
  int order = 0;
  V3 Pos(double t) const {
    V3 r{};
    for (int i = 0; i < 3; i++) {
      for (int k = 0; k < 5; k++) r[i] += a[i][k] * std::cos(k * kW * t) + b[i][k] * std::sin(k * kW * t);
      r[i] += hi[i] * std::cos(order * kW * t + hp[i]);
    }
    return r;
  }
  double Clock_s(double t) const { return 1e-6 * (clk[0] + t / 1e4 * (clk[1] + t / 1e4 * (clk[2] + t / 1e4 * clk[3]))); }
};
struct World {
  long t0;         // unix time of the first epoch
  double dt;       // SP3 interval
  size_t total;    // epochs altogether
  std::vector<sp3::File> files;
  std::vector<Truth> sats;
  double End() const { return dt * (double)(total - 1); }
};
static World Make(Case& c, bool daily) {
  World w;
  w.dt = daily ? c.Of<double>({900, 1800, 3600}) : c.Of<double>({900, 300, 1800, 60, 450});
  const long day = sp3::Days(c.Int(1995, 2035), c.Int(1, 12), c.Int(1, 28));
  w.t0 = day * 86400 + (daily ? 0 : 60 * c.Int(0, 1439));
  const size_t per_day = (size_t)(86400 / w.dt);
  const size_t nf = daily ? c.Int(1, 3) : 1;
  w.total = daily ? nf * per_day : (size_t)c.Int(9, 40);
  const size_t ns = c.Chance(0.1) ? c.Chance(0.3) ? c.Int(19, 130) : 18 : c.Int(1, 3);
  const int order = c.Chance(0.5) ? (int)c.Int(6, 10) : 0;
  for (size_t s = 0; s < ns; s++) {
    Truth t;
    for (int i = 0; i < 3; i++)
      for (int k = 0; k < 5; k++) {
        const double m = k == 1 || k == 2 ? 1.8e7 : k == 3 ? 1e6 : 1e5;
        t.a[i][k] = c.Real(-m, m), t.b[i][k] = c.Real(-m, m);
      }
    t.order = order;
    if (order)
      for (int i = 0; i < 3; i++) t.hi[i] = c.Real(2e6, 1e7), t.hp[i] = c.Real(0, 6.28);
    t.clk[0] = c.Real(-500, 500), t.clk[1] = c.Real(-1, 1), t.clk[2] = c.Real(-0.1, 0.1), t.clk[3] = c.Real(-0.01, 0.01);
    w.sats.push_back(t);
  }
  const size_t per_file = daily ? per_day : w.total;
  for (size_t f = 0; f < nf; f++) {
    sp3::File x;
    x.start_unix = w.t0 + (long)(w.dt * (double)(f * per_file));
    x.interval = w.dt;
    x.comments = (int)c.Int(0, 5);
    for (size_t s = 0; s < ns; s++) {
      const size_t no = s % 32 + 1;
      char id[4] = {"GRECJSI"[s / 32], (char)('0' + no / 10), (char)('0' + no % 10), 0};
      x.ids.push_back(id), x.accuracy.push_back(2);
    }
    for (size_t e = 0; e < per_file; e++) {
      std::vector<sp3::Record> row(ns);
      const double t = w.dt * (double)(f * per_file + e);
      for (size_t s = 0; s < ns; s++) {
        const V3 p = w.sats[s].Pos(t);
        for (int i = 0; i < 3; i++) row[s].x[i] = p[i] / 1000;
        row[s].clock = w.sats[s].Clock_s(t) * 1e6;
      }
      x.rec.push_back(row);
    }
    w.files.push_back(x);
  }
  c.Note("interval ", w.dt, " epochs ", w.total, " files ", nf, " satellites ", ns, " harmonic ", order);
  return w;
}
// largest error of nine-point trigonometric interpolation within one interval of the middle node
static double ReferenceError(const Truth& t, double dt, double around) {
  double worst = 0;
  for (int n = 0; n < 24; n++) {
    const double x = (n / 24.0 * 2 - 1) * dt;
    V3 y{};
    for (int i = -4; i <= 4; i++) {
      double p = 1;
      for (int j = -4; j <= 4; j++)
        if (j != i) p *= std::sin(kW / 2 * (x - j * dt)) / std::sin(kW / 2 * (i - j) * dt);
      y = y + p * t.Pos(around + i * dt);
    }
    worst = std::max(worst, ref::Norm(y - t.Pos(around + x)));
  }
  return worst;
}
static double MaxReferenceError(const World& w, const Truth& t) {
  if (!t.order) return 0;
  double e = 0;
  for (int k = 0; k < 12; k++) e = std::max(e, ReferenceError(t, w.dt, k * 2 * M_PI / (t.order * kW) / 12));
  return e;
}
static std::string Text(long unix_s, double frac) {
  const sp3::Date d = sp3::FromUnix(unix_s, 0);
  char b[80];
  snprintf(b, sizeof b, "%04ld/%02ld/%02ld %02ld:%02ld:%09.6f", d.y, d.mo, d.d, d.h, d.mi, d.s + frac);
  return b;
}
static void Run(Case& c, const World& w, GnssSatellites& g, s2e::environment::EarthRotation& er, s2e::environment::SimulationTime& time, double start, int steps) {
  c.Check(g.GetNumberOfCalculatedSatellite() == w.sats.size(), "number-of-satellites", "got ", g.GetNumberOfCalculatedSatellite(), " want ", w.sats.size());
  std::vector<double> bound;
  for (auto& t : w.sats) bound.push_back(MaxReferenceError(w, t));
  int crossed = 0;
  double file0 = 0;  // the first window does not reach back into the file before the one of the start time
  for (auto& f : w.files)
    if ((double)(f.start_unix - w.t0) <= start) file0 = (double)(f.start_unix - w.t0);
  for (int n = 0; n <= steps; n++) {
    if (n > 0) {
      time.UpdateTime();
      g.Update(time);
    } else {
      time.SetParameters();
      if (c.Bool()) g.Update(time);
    }
    er.Update(time.GetCurrentTime_jd());
    const double t = start + time.GetElapsedTime_s();
    if (t > w.End()) break;
    if (n && std::floor(t / w.dt) > std::floor(start / w.dt)) crossed++;
    const bool central = t > file0 + 5 * w.dt && t < w.End() - 5 * w.dt;
    for (size_t s = 0; s < w.sats.size(); s++) {
      const Truth& tr = w.sats[s];
      const V3 got = R(g.GetPosition_ecef_m(s)), want = tr.Pos(t);
      // 1 mm quantisation of the file and the 40 microsecond resolution of the Julian date at up to 15 km/s
      const double tol = 2.0;
      if (!tr.order)
        Near3(c, got, want, tol, 0, "position", "satellite " + std::to_string(s) + " at " + std::to_string(t) + " s");
      else if (central)
        Near3(c, got, want, tol + 3 * bound[s], 0, "position-window", "satellite " + std::to_string(s) + " at " + std::to_string(t) + " s, reference error " + std::to_string(bound[s]));
      c.Near(g.GetClock_s(s), tr.Clock_s(t), 1e-10, 0, "clock", "satellite " + std::to_string(s) + " at " + std::to_string(t));
      Near3(c, R(g.GetPosition_eci_m(s)), ref::T(R(er.GetDcmJ2000ToEcef())) * got, 1e-6, 1e-14, "position-eci");
    }
    // explicitly requested instants around the current one
    if (!w.sats[0].order && c.Chance(0.3)) {
      const double q = t + c.Real(-1, 1) * w.dt;
      if (q >= file0 && q <= w.End()) {
        const double u = (double)w.t0 + q;
        const EpochTime e((uint64_t)u, u - std::floor(u));
        const size_t s = c.Int(0, w.sats.size() - 1);
        Near3(c, R(g.GetPosition_ecef_m(s, e)), w.sats[s].Pos(q), 2.0, 0, "position-at", "at " + std::to_string(q) + " current " + std::to_string(t));
        c.Near(g.GetClock_s(s, e), w.sats[s].Clock_s(q), 1e-10, 0, "clock-at");
      }
    }
    // out of range
    const size_t bad = w.sats.size() + (size_t)c.Of<int>({0, 1, 14, 1000});
    Near3(c, R(g.GetPosition_ecef_m(bad)), {0, 0, 0}, 0, 0, "unknown-satellite");
    Near3(c, R(g.GetPosition_eci_m(bad)), {0, 0, 0}, 0, 0, "unknown-satellite-eci");
    c.Check(g.GetClock_s(bad) == 0, "unknown-satellite-clock");
    const EpochTime before((uint64_t)(w.t0 - 1 - c.Int(0, 100000)), 0.0), after((uint64_t)(w.t0 + 3000000 + c.Int(0, 100000)), 0.0);
    Near3(c, R(g.GetPosition_ecef_m(0, before)), {0, 0, 0}, 0, 0, "position-before-window");
    Near3(c, R(g.GetPosition_ecef_m(0, after)), {0, 0, 0}, 0, 0, "position-after-window");
    c.Check(g.GetClock_s(0, before) == 0 && g.GetClock_s(0, after) == 0, "clock-outside-window");
  }
  c.NonTrivial(crossed > 0);
  if (crossed) c.Label("crosses SP3 epochs");
  // the log names the first 32 satellites whatever the file contains
  const std::string h = g.GetLogHeader(), v = g.GetLogValue();
  c.Check(std::count(h.begin(), h.end(), ',') == 128 && std::count(v.begin(), v.end(), ',') == 128, "log-columns");
}
struct Plan {
  double start, step;
  int steps;
};
static Plan MakePlan(Case& c, const World& w) {
  Plan p;
  switch (c.Int(0, 3)) {
    case 0: p.start = std::floor(c.Real(0, 4) * w.dt); break;
    case 1: p.start = std::floor(w.End() - c.Real(0, 6) * w.dt); break;
    case 2: p.start = w.dt * (double)c.Int(0, w.total - 1); break;
    default: p.start = std::floor(c.Real(0, w.End())); break;
  }
  if (p.start < 0) p.start = 0;
  p.step = c.Of<double>({1, 10, 60, w.dt / 3, w.dt, w.dt * 2.5, w.dt * 7, 0.1});
  p.steps = (int)c.Int(1, 40);
  if (c.Chance(0.3)) p.start += c.Of<double>({0.25, 0.5, 0.125});
  if (p.start > w.End()) p.start = w.End();
  c.Note("start ", p.start, " step ", p.step, " steps ", p.steps);
  return p;
}
static s2e::environment::SimulationTime MakeTime(const World& w, const Plan& p) {
  const double u = (double)w.t0 + p.start;
  const std::string text = Text((long)std::floor(u), u - std::floor(u));
  return s2e::environment::SimulationTime(1e7, p.step, p.step, p.step, p.step, p.step, p.step, p.step, p.step, p.step, text.c_str(), 0);
}
static void Direct(Case& c) {
  mission::Quiet q;
  const World w = Make(c, c.Chance(0.15));
  const std::string dir = c.TempDir();
  std::vector<Sp3FileReader> r;
  for (size_t i = 0; i < w.files.size(); i++) {
    const std::string p = dir + "/f" + std::to_string(i) + ".sp3";
    mission::Spit(p, w.files[i].Text());
    r.emplace_back(p);
  }
  s2e::environment::EarthRotation er(s2e::environment::EarthRotationMode::kSimple);
  const Plan p = MakePlan(c, w);
  auto time = MakeTime(w, p);
  GnssSatellites g(er, true, true);
  const double u = (double)w.t0 + p.start;
  g.Initialize(r, EpochTime((uint64_t)u, u - std::floor(u)));
  Run(c, w, g, er, time, p.start, p.steps);
}
static void FromIni(Case& c) {
  mission::Quiet q;
  const World w = Make(c, true);
  const std::string dir = c.TempDir();
  auto yd = [](long unix_s) {
    const sp3::Date d = sp3::FromUnix(unix_s, 0);
    return d.y * 1000 + sp3::Days(d.y, d.mo, d.d) - sp3::Days(d.y, 1, 1) + 1;
  };
  const std::string head = c.Of<const char*>({"IGS0OPSFIN", "COD0MGXFIN"}), period = w.dt == 900 ? "15M" : w.dt == 1800 ? "30M" : "01H";
  for (auto& f : w.files) mission::Spit(dir + "/" + head + "_" + std::to_string(yd(f.start_unix)) + "0000_01D_" + period + "_ORB.SP3", f.Text());
  std::ostringstream ini;
  const bool on = !c.Chance(0.1);
  ini << "[GNSS_SATELLITES]\ndirectory_path=" << dir << "/\ncalculation=" << (on ? "ENABLE" : "DISABLE") << "\nlogging=ENABLE\nfile_name_header=" << head << "\norbit_data_period=" << period
      << "\nclock_file_name_footer=" << period << "_ORB.SP3\nstart_date=" << yd(w.files[0].start_unix) << "\nend_date=" << yd(w.files.back().start_unix) << "\n";
  mission::Spit(dir + "/gnss.ini", ini.str());
  s2e::environment::EarthRotation er(s2e::environment::EarthRotationMode::kFull);
  const Plan p = MakePlan(c, w);
  auto time = MakeTime(w, p);
  std::unique_ptr<GnssSatellites> g(s2e::environment::InitGnssSatellites(dir + "/gnss.ini", er, time));
  c.Check(g->IsCalcEnabled() == on && g->is_log_enabled_ == on, "flags");
  if (on) {
    Run(c, w, *g, er, time, p.start, p.steps);
  } else {
    time.SetParameters();
    g->Update(time);
    c.Check(g->GetNumberOfCalculatedSatellite() == 0, "disabled-number");
    Near3(c, R(g->GetPosition_ecef_m(0)), {0, 0, 0}, 0, 0, "disabled-position");
    c.Check(g->GetClock_s(c.Int(0, 40)) == 0, "disabled-clock");
    g->GetLogValue();
  }
}
// a mission whose settings name the files: the satellites move with the simulated time and are logged
static void Flight(Case& c) {
  mission::Quiet q;
  World w = Make(c, true);
  for (auto& t : w.sats) t.order = 0, t.hi[0] = t.hi[1] = t.hi[2] = 0;
  for (size_t f = 0, e = 0; f < w.files.size(); f++)
    for (auto& row : w.files[f].rec) {
      for (size_t k = 0; k < w.sats.size(); k++) {
        const V3 x = w.sats[k].Pos(w.dt * (double)e);
        for (int i = 0; i < 3; i++) row[k].x[i] = x[i] / 1000;
      }
      e++;
    }
  mission::Settings s(c);
  auto yd = [](long unix_s) {
    const sp3::Date d = sp3::FromUnix(unix_s, 0);
    return d.y * 1000 + sp3::Days(d.y, d.mo, d.d) - sp3::Days(d.y, 1, 1) + 1;
  };
  const std::string period = w.dt == 900 ? "15M" : w.dt == 1800 ? "30M" : "01H", dir = s.Dir() + "/gnss";
  for (auto& f : w.files) mission::Spit(dir + "/IGS0OPSFIN_" + std::to_string(yd(f.start_unix)) + "0000_01D_" + period + "_ORB.SP3", f.Text());
  const char* ini = "environment/sample_gnss.ini";
  const bool log = !c.Chance(0.2);
  const char* G = "GNSS_SATELLITES";
  s.Set(ini, G, "directory_path", dir + "/"), s.Set(ini, G, "calculation", true), s.Set(ini, G, "logging", log), s.Set(ini, G, "file_name_header", "IGS0OPSFIN");
  s.Set(ini, G, "orbit_data_period", period), s.Set(ini, G, "clock_file_name_footer", period + "_ORB.SP3");
  s.Set(ini, G, "start_date", (int)yd(w.files[0].start_unix)), s.Set(ini, G, "end_date", (int)yd(w.files.back().start_unix));
  Plan p = MakePlan(c, w);
  p.step = c.Of<double>({1, 10, 60, 300, 900});
  p.steps = (int)c.Int(1, 12);
  p.start = std::floor(p.start);
  const double u = (double)w.t0 + p.start;
  mission::SetTime(s, Text((long)u, 0), p.step * p.steps, p.step, p.step, p.step, p.step, p.step, p.step, p.step, p.step, p.step);
  s.Set("sample_satellite/satellite.ini", "ORBIT", "calculation", "DISABLE");
  double at = 0;
  {
    mission::Mission m(s);
    m.after_update = [&](mission::Mission& x) {
      const double t = p.start + x.Time().GetElapsedTime_s();
      if (t > w.End()) return;
      const auto& g = x.Env().GetGnssSatellites();
      for (size_t k = 0; k < w.sats.size(); k++) {
        Near3(c, R(g.GetPosition_ecef_m(k)), w.sats[k].Pos(t), 2.0, 0, "mission-position", "satellite " + std::to_string(k) + " at " + std::to_string(t));
        Near3(c, R(g.GetPosition_eci_m(k)), ref::T(R(x.Env().GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef())) * R(g.GetPosition_ecef_m(k)), 1e-6, 1e-14, "mission-eci");
        c.Near(g.GetClock_s(k), w.sats[k].Clock_s(t), 1e-10, 0, "mission-clock");
      }
      at++;
    };
    m.Initialize();
    m.Main();
  }
  std::istringstream in(mission::ReadLog(s.LogDir()));
  std::vector<std::string> head;
  std::map<std::string, size_t> col;
  std::string l, cell;
  std::getline(in, l);
  for (std::istringstream is(l); std::getline(is, cell, ',');) col[cell] = head.size(), head.push_back(cell);
  c.Check((col.count("GPS0_position_ecef_x[m]") == 1) == log, "mission-log-switch", "logging ", log);
  if (log) {
    int row = 0;
    while (std::getline(in, l)) {
      std::vector<double> v;
      for (std::istringstream is(l); std::getline(is, cell, ',');) v.push_back(strtod(cell.c_str(), nullptr));
      const double t = p.start + row * p.step;
      for (size_t k = 0; k < 32 && t <= w.End(); k++) {
        const std::string n = "GPS" + std::to_string(k);
        V3 want{0, 0, 0}, got{0, 0, 0};
        if (k < w.sats.size()) want = w.sats[k].Pos(t);
        for (int i = 0; i < 3; i++) got[i] = v.at(col.at(n + "_position_ecef_" + "xyz"[i] + "[m]"));
        Near3(c, got, want, 2.0, 0, "mission-log-position", n + " row " + std::to_string(row));
        c.Near(v.at(col.at(n + "_clock_offset[s]")), k < w.sats.size() ? w.sats[k].Clock_s(t) : 0.0, 1e-9, 1e-5, "mission-log-clock", n);
      }
      row++;
    }
    c.Check(row == p.steps + 1 || row == p.steps, "mission-log-rows", "got ", row, " want ", p.steps);
  }
  c.NonTrivial(at > 1);
}
static void Uncovered(Case& c) {  // start times outside of the data
  mission::Quiet q;
  World w = Make(c, c.Bool());
  const std::string dir = c.TempDir();
  std::vector<Sp3FileReader> r;
  for (size_t i = 0; i < w.files.size(); i++) {
    mission::Spit(dir + "/f" + std::to_string(i), w.files[i].Text());
    r.emplace_back(dir + "/f" + std::to_string(i));
  }
  s2e::environment::EarthRotation er(s2e::environment::EarthRotationMode::kSimple);
  Plan p{0, c.Of<double>({1, 60, 3600}), (int)c.Int(1, 10)};
  p.start = c.Bool() ? -std::floor(c.LogReal(1, 1e6)) : std::floor((double)(w.files.back().start_unix - w.t0) + 86400 + c.LogReal(1, 1e6));
  c.Note("start ", p.start);
  auto time = MakeTime(w, p);
  GnssSatellites g(er, true, true);
  g.Initialize(r, EpochTime((uint64_t)((double)w.t0 + p.start), 0.0));
  time.SetParameters();
  for (int i = 0; i < p.steps; i++) {
    g.Update(time);
    Near3(c, R(g.GetPosition_ecef_m(c.Int(0, 3))), {0, 0, 0}, 0, 0, "uncovered-position");
    c.Check(g.GetClock_s(0) == 0, "uncovered-clock");
    time.UpdateTime();
  }
  g.GetLogValue();
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E06",
                   "a case counts when the simulated time crosses SP3 epochs after the first interpolation window was built (or, in the uncovered facet, starts outside of the data; flights: several steps)",
                   {{"direct", Direct, 1500, 30000}, {"ini", FromIni, 300, 6000, 10}, {"uncovered", Uncovered, 200, 2000}, {"flight", Flight, 120, 2500, 4, 60}},
                   {"UTC and the epochs of SP3 files are compared on one axis (s2e-core applies no leap seconds here)"});
}
