// link: sim
#include <math_physics/randomization/global_randomization.hpp>
#include "rig.hpp"
#include "suite.hpp"
using pbt::Case;
using namespace rig;
using mission::Quiet;
// ---- a generated mission
struct World {
  mission::Settings s;
  int craft = 1, stations = 0, steps = 1;
  bool relative = false;
  double push = 0;
  std::vector<unsigned> masks;
  explicit World(Case& c) : s(c) {}
};
// a magnetic field table of another planet
static const std::string& OtherField(int kind) {
  static std::string text[3];
  std::string& t = text[kind];
  if (!t.empty()) return t;
  std::istringstream is(mission::Slurp(VERIF_REPO "/example/settings/environment/magnetic_field/igrf13.coef"));
  std::string l;
  for (int n = 0; std::getline(is, l); n++) {
    if (n >= 2 && (l[0] == 'g' || l[0] == 'h')) {
      std::istringstream w(l);
      std::string a, b, k;
      w >> a >> b >> k;
      std::string out = a + " " + b + " " + k;
      double v;
      while (w >> v) out += " " + mission::Num(std::round(v * (kind == 1 ? 0.5 : -1.25) * 100) / 100);
      l = out + " ";
    }
    t += l + "\n";
  }
  return t;
}
// a space weather table; rows for every day or (predictions) the first day of each month. The number of points line is not needed
static std::string SpaceWeather(Case& c, bool predicted) {
  std::string t = "DATATYPE CssiSpaceWeather\nVERSION 1.2\n";
  t += predicted ? "UPDATED 2021 Jan 05 10:00:00 UTC\n" : "UPDATED 2022 Mar 05 10:00:00 UTC\n";
  t += "BEGIN OBSERVED\n";
  char b[240];
  for (int m = 4; m <= 7; m++)
    for (int d = 1; d <= (predicted ? 1 : 28); d++) {
      std::string l;
      snprintf(b, sizeof b, "%4d %02d %02d%5d%3d", 2021, m, d, 2400, 7), l += b;
      const int ap = (int)c.Int(0, 200);
      for (int i = 0; i < 8; i++) l += " 10";
      l += " 150";
      for (int i = 0; i < 8; i++) snprintf(b, sizeof b, "%4d", ap), l += b;
      snprintf(b, sizeof b, "%4d%4.1f%2d%4d%6.1f%2d%6.1f%6.1f%6.1f%6.1f%6.1f", ap, 0.5, 2, 33, c.Real(60, 300), 0, c.Real(60, 300), 100., 100., 100., 100.);
      t += l + b + "\n";
    }
  return t + "END OBSERVED\n";
}
static void Dress(Case& c, World& w, int i) {
  mission::Settings& s = w.s;
  if (i) s.AddSpacecraft(i);
  const std::string d = s.Sat(i), sat = d + "satellite.ini", loc = d + "local_environment.ini", dis = d + "disturbance.ini";
  const int field = c.Of<int>({0, 0, 1, 2});
  if (field) s.Text(d + "own_igrf13.coef") = OtherField(field), s.Set(loc, "MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", "SETTINGS_DIR_FROM_EXE/" + d + "own_igrf13.coef");
  s.Set(loc, "MAGNETIC_FIELD_ENVIRONMENT", "calculation", c.Chance(0.85));
  s.Set(loc, "EARTH_ALBEDO", "calculation", (bool)c.Bool());
  const char* air = c.Of<const char*>({"STANDARD", "NRLMSISE00", "NRLMSISE00", "HARRIS_PRIESTER"});
  s.Set(loc, "ATMOSPHERE", "model", air), s.Set(loc, "ATMOSPHERE", "calculation", c.Chance(0.85));
  const bool manual = c.Chance(0.3);
  s.Set(loc, "ATMOSPHERE", "is_manual_parameter_used", manual);
  if (!manual) s.Text(d + "weather.txt") = SpaceWeather(c, c.Bool()), s.Set(loc, "ATMOSPHERE", "nrlmsise00_table_file", "SETTINGS_DIR_FROM_EXE/" + d + "weather.txt");
  s.Set(loc, "ATMOSPHERE", "air_density_standard_deviation", c.Chance(0.5) ? c.Real(0.01, 0.3) : 0.0);
  for (const char* sec : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"}) s.Set(dis, sec, "calculation", c.Chance(0.8));
  s.Set(dis, "THIRD_BODY_GRAVITY", "number_of_third_body", 2), s.Set(dis, "THIRD_BODY_GRAVITY", "third_body_name(0)", "SUN"), s.Set(dis, "THIRD_BODY_GRAVITY", "third_body_name(1)", "MOON");
  const Q4 q = c.Quat();
  s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", q, 4);
  s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", V3{c.Real(-0.05, 0.05), c.Real(-0.05, 0.05), c.Real(-0.05, 0.05)});
  s.Set(sat, "ATTITUDE", "propagate_mode", c.Of<const char*>({"RK4", "RK4", "CONTROLLED", "CANTILEVER_VIBRATION"}));
  const V3 dir = c.Dir(), r = c.Real(6.75e6, 7.4e6) * dir;
  const V3 side = ref::Unit(ref::Cross(dir, std::fabs(dir[2]) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0}));
  s.SetVec(sat, "ORBIT", "initial_position_i_m", r), s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", 7500.0 * side);
  s.Set(sat, "ORBIT", "propagate_mode", c.Of<const char*>({"RK4", "RK4", "KEPLER", "ENCKE", "SGP4"}));
  if (c.Chance(0.3)) s.Set(sat, "THERMAL", "calculation", true);
  if (c.Chance(0.4)) s.Set(d + "components/reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_calculation", true), s.Set(d + "components/reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_logging", true);
  for (const char* f : {"gyro_sensor", "magnetometer", "star_sensor", "sun_sensor", "gnss_receiver", "magnetorquer", "battery", "solar_array_panel", "pcu_initial_study"}) {
    std::string& t = s.Text(d + "components/" + std::string(f) + ".ini");
    for (size_t at; (at = t.find("prescaler = 10\n")) != std::string::npos;) t.replace(at, 15, "prescaler = " + std::to_string(c.Int(1, 3)) + "\n");
  }
  w.masks.push_back((unsigned)(c.Chance(0.2) ? (1u << suite::kParts) - 1 : c.Int(0, (1 << (suite::kParts + 1)) - 1)));
}
static World Generate(Case& c, int craft) {
  World w(c);
  mission::Settings& s = w.s;
  w.craft = craft, w.stations = (int)c.Int(0, 2), w.steps = (int)c.Int(2, 9), w.push = c.Real(-1, 1);
  const double step = c.Of<double>({0.1, 0.5, 1, 2});
  mission::SetTime(s, "2021/06/" + std::to_string(c.Int(10, 20)) + " 10:20:30.5", step * w.steps, step, step, 0.01, step, step, step, step, step, step);
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "number_of_selected_body", 3);
  for (int i = 0; i < 3; i++) {
    static const char* kBody[] = {"EARTH", "SUN", "MOON"};
    s.Set(s.kBase, "CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", kBody[i]);
    s.Set(s.kBase, "CELESTIAL_INFORMATION", "rotation_mode(" + std::to_string(i) + ")", i == 0 ? c.Of<const char*>({"FULL", "SIMPLE"}) : "DISABLE");
  }
  if (c.Chance(0.2)) {
    std::string t = "hip,mag,ra,dec\n";
    for (int i = 0; i < 100; i++) t += std::to_string(i + 1) + "," + mission::Num(0.01 * i) + "," + mission::Num(c.Real(0, 360)) + "," + mission::Num(c.Real(-90, 90)) + "\n";
    s.Text("stars.csv") = t;
    s.Set(s.kBase, "HIPPARCOS_CATALOGUE", "calculation", true), s.Set(s.kBase, "HIPPARCOS_CATALOGUE", "catalogue_file_path", "SETTINGS_DIR_FROM_EXE/stars.csv");
  }
  s.Set(s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_ground_station", w.stations);
  for (int g = 0; g < w.stations; g++) {
    const std::string sec = "GROUND_STATION_" + std::to_string(g), gs = "sample_ground_station/ground_station.ini";
    s.Set(gs, sec, "latitude_deg", c.Real(-80, 80)), s.Set(gs, sec, "longitude_deg", c.Real(-180, 180)), s.Set(gs, sec, "height_m", c.Real(0, 3000));
    s.Set(gs, sec, "elevation_limit_angle_deg", c.Real(0, 30));
  }
  for (int i = 0; i < craft; i++) Dress(c, w, i);
  w.relative = craft > 1 && c.Bool();
  return w;
}
// every random contribution off
static void Silence(mission::Settings& s, bool components_too) {
  for (auto& f : s.Files()) {
    const bool component = f.first.find("/components/") != std::string::npos;
    if (f.first.size() < 4 || f.first.substr(f.first.size() - 4) != ".ini" || (component && !components_too)) continue;
    std::istringstream is(f.second);
    std::string out, l;
    while (std::getline(is, l)) {
      const size_t e = l.find('=');
      if (e != std::string::npos && l[0] != '/' && (l.substr(0, e).find("standard_deviation") != std::string::npos || l.substr(0, e).find("rmm_random_walk_speed") != std::string::npos)) l = l.substr(0, e) + "= 0.0";
      if (l.compare(0, 18, "jitter_calculation") == 0) l = "jitter_calculation=DISABLE";
      out += l + "\n";
    }
    f.second = out;
  }
}
static std::string Run(World& w, long seed) {
  Quiet quiet;
  s2e::randomization::global_randomization.SetSeed(seed);
  mission::fs::remove_all(w.s.LogDir());
  {
    suite::Fleet fleet;
    mission::Mission m(w.s, fleet.Make(w.masks), w.relative);
    m.after_update = [&](mission::Mission&) {
      for (auto f : fleet.of) f->Drive(w.push);
    };
    m.Initialize();
    m.Main();
  }
  return mission::ReadLog(w.s.LogDir());
}
// ---- logs as columns; the nth column of a name has the key "name#n"
struct Table {
  std::vector<std::string> order;
  std::map<std::string, std::vector<std::string>> col;
  size_t rows = 0;
};
static Table Parse(Case& c, const std::string& text) {
  Table g;
  std::istringstream is(text);
  std::string l, w;
  std::map<std::string, int> n;
  bool head = true;
  while (std::getline(is, l)) {
    size_t i = 0;
    std::istringstream cells(l);
    while (std::getline(cells, w, ',')) {
      if (head)
        g.order.push_back(w + "#" + std::to_string(n[w]++));
      else if (i < g.order.size())
        g.col[g.order[i]].push_back(w);
      i++;
    }
    if (!head) g.rows++;
    head = false;
  }
  c.Check(g.rows >= 2 && g.order.size() >= 20, "no-log", "log has ", g.rows, " rows of ", g.order.size(), " columns");
  return g;
}
static bool Moves(const Table& g) {
  for (auto& k : g.col)
    if (k.first.compare(0, 20, "spacecraft_position_") == 0 && k.second.front() != k.second.back()) return true;
  return false;
}
static bool SameCell(const std::string& a, const std::string& b) {  // an angle of zero about a random axis may have either sign of zero
  auto zero = [](const std::string& s) { return s == "0" || s == "-0"; };
  return a == b || (zero(a) && zero(b));
}
static void SameColumn(Case& c, const Table& a, const std::string& ka, const Table& b, const std::string& kb, const char* key, const char* what) {
  auto i = a.col.find(ka), j = b.col.find(kb);
  c.Check(i != a.col.end() && j != b.col.end(), key, what, ": column ", ka, i == a.col.end() ? " is missing" : " has no counterpart");
  c.Check(i->second.size() == j->second.size(), key, what, ": column ", ka, " has ", i->second.size(), " and ", j->second.size(), " rows");
  for (size_t r = 0; r < i->second.size(); r++) c.Check(SameCell(i->second[r], j->second[r]), key, what, ": column ", ka, " row ", r, ": ", i->second[r], " and ", j->second[r]);
}
static std::string WithoutRank(const std::string& k) { return k.substr(0, k.rfind('#')); }
static void FirstDifference(Case& c, const std::string& a, const std::string& b, const char* key, const char* what) {
  if (a == b) return;
  const Table x = Parse(c, a), y = Parse(c, b);
  for (auto& k : x.order) SameColumn(c, x, k, y, k, key, what);
  const bool same_shape = x.order == y.order && x.rows == y.rows;
  c.Check(same_shape, key, what, ": the logs have different columns");
}
// ---- the same settings again, after other missions
static void Again(Case& c) {
  World a = Generate(c, (int)c.Int(1, 3));
  const long seed = (long)c.Int(1, 1 << 30);
  const std::string first = Run(a, seed);
  const int others = (int)c.Int(0, 2);
  for (int i = 0; i < others; i++) {
    World b = Generate(c, (int)c.Int(1, 2));
    Run(b, (long)c.Int(1, 1 << 30));
  }
  c.Note(a.craft, " spacecraft, ", a.steps, " steps, ", others, " other missions in between");
  FirstDifference(c, first, Run(a, seed), "repeat", "the same mission again");
  if (Moves(Parse(c, first)) && others) c.NonTrivial();
}
// ---- a spacecraft in company
static bool OfMission(const std::string& name) {  // columns that do not belong to a spacecraft
  for (const char* b : {"earth", "sun", "moon"})
    for (const char* q : {"_position_i_", "_velocity_i_"})
      if (name.compare(0, strlen(b) + strlen(q), std::string(b) + q) == 0) return true;
  return name.compare(0, 14, "ground_station") == 0 || name.compare(0, 4, "time") == 0 || name == "elapsed_time[s]" || name.compare(0, 9, "satellite") == 0;
}
static void Company(Case& c) {
  World all = Generate(c, (int)c.Int(2, 3));
  const int who = (int)c.Int(0, all.craft - 1);
  // the generators of a later spacecraft are seeded after those of the earlier ones, so only the first keeps its noise
  if (who) Silence(all.s, true);
  World one = all;
  one.craft = 1, one.relative = false, one.masks = {all.masks[who]};
  one.s.Set(one.s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_spacecraft", 1);
  one.s.Set(one.s.kBase, "SIMULATION_SETTINGS", "spacecraft_file(0)", "SETTINGS_DIR_FROM_EXE/" + all.s.Sat(who) + "satellite.ini");
  const long seed = (long)c.Int(1, 1 << 30);
  c.Note("spacecraft ", who, " of ", all.craft, ", ", all.steps, " steps");
  const std::string ta = Run(all, seed), to = Run(one, seed);
  const Table a = Parse(c, ta), o = Parse(c, to);
  // which of the columns of one name is ours: those of the earlier spacecraft come first
  std::vector<Table> before;
  for (int i = 0; i < who; i++) {
    World w = one;
    w.masks = {all.masks[i]};
    w.s.Set(w.s.kBase, "SIMULATION_SETTINGS", "spacecraft_file(0)", "SETTINGS_DIR_FROM_EXE/" + all.s.Sat(i) + "satellite.ini");
    before.push_back(Parse(c, Run(w, seed)));
  }
  size_t compared = 0;
  for (auto& k : o.order) {
    const std::string name = WithoutRank(k);
    std::string there = k;
    if (name.compare(0, 14, "ground_station") == 0) {
      const size_t at = k.find("_sc0_");
      if (at != std::string::npos) there = k.substr(0, at) + "_sc" + std::to_string(who) + k.substr(at + 4);
    } else if (!OfMission(name)) {
      int rank = 0;
      for (auto& b : before) rank += (int)b.col.count(name + "#0");
      there = name + "#" + std::to_string(rank);
    }
    SameColumn(c, o, k, a, there, "company", "alone and in company");
    compared++;
  }
  if (compared > 60 && Moves(o)) c.NonTrivial();
}
// ---- another component on board
static constexpr unsigned kSensors = 1u << suite::kGyro | 1u << suite::kMag | 1u << suite::kStt | 1u << suite::kSun | 1u << suite::kGnss | 1u << suite::kTelescope | 1u << suite::kRate | 1u << suite::kAttitude | 1u << suite::kOrbit;
static void Instance(Case& c) {
  World a = Generate(c, 1);
  const bool silent = c.Bool();
  if (silent) Silence(a.s, true);
  World b = a;
  if (silent) {
    b.masks[0] |= kSensors & (unsigned)c.Int(1, 0xffff);
  } else {
    const unsigned low = (1u << c.Int(1, suite::kParts - 1)) - 1;
    a.masks[0] &= low;
    b.masks[0] = a.masks[0] | (kSensors & ~low & (unsigned)c.Int(1, 0xffff));
  }
  const long seed = (long)c.Int(1, 1 << 30);
  c.Note("components ", a.masks[0], " and ", b.masks[0], silent ? ", no noise" : "");
  const Table x = Parse(c, Run(a, seed)), y = Parse(c, Run(b, seed));
  for (auto& k : x.order) SameColumn(c, x, k, y, k, "instance", "without and with more sensors");
  if (a.masks[0] != b.masks[0] && a.masks[0]) c.NonTrivial();
}
// ---- other seeds
static void Seeds(Case& c) {
  World w = Generate(c, (int)c.Int(1, 2));
  const bool silent = c.Chance(0.4);
  Silence(w.s, silent);
  if (!silent)
    for (auto& m : w.masks) m &= kSensors;  // actuators would carry their noise into the motion
  const long seed = (long)c.Int(1, 1 << 30), other = seed + c.Of<int64_t>({1, 2, 7919, 1 << 20});
  c.Note(silent ? "no noise" : "sensor noise", ", components ", w.masks[0], ", ", w.steps, " steps");
  const std::string ta = Run(w, seed), tb = Run(w, other);
  if (silent) {
    FirstDifference(c, ta, tb, "seed-matters", "a mission without noise, another seed");
    c.NonTrivial();
    return;
  }
  const Table a = Parse(c, ta), b = Parse(c, tb);
  auto Noisy = [](const std::string& k) {
    for (const char* p : {"gyro_sensor1", "magnetometer1", "stt1", "sun_sensor1", "gnss_receiver1", "angular_velocity_observer", "attitude_observer", "orbit_observer"})
      if (k.compare(0, strlen(p), p) == 0) return true;
    return false;
  };
  size_t fixed = 0;
  for (auto& k : a.order)
    if (!Noisy(k)) SameColumn(c, a, k, b, k, "seed-matters", "a quantity without noise, another seed"), fixed++;
  for (const char* name : {"gyro_sensor1_measured_angular_velocity_c_x[rad/s]#0", "magnetometer1_measured_magnetic_field_c_y[nT]#0", "gnss_receiver1_measured_velocity_ecef_x[m/s]#0"})
    if (a.col.count(name)) {
      bool live = false;
      for (auto& v : a.col.at(name)) live |= v != a.col.at(name)[0];
      if (live) c.Check(a.col.at(name) != b.col.at(name), "seed-ignored", "random column ", name, " is the same with seeds ", seed, " and ", other), c.NonTrivial();
    }
  // what is random is random also from row to row and between the axes
  const std::string g = "gyro_sensor1_measured_angular_velocity_c_";
  if (a.col.count(g + "x[rad/s]#0")) c.Check(a.col.at(g + "x[rad/s]#0") != a.col.at(g + "y[rad/s]#0"), "same-noise", "two gyro axes read the same");
  c.Check(fixed > 30, "columns", "only ", fixed, " columns without noise");
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "S03",
                   "again: at least one other mission in between and a moving spacecraft; company: more than 60 columns compared; instance: sensors were added to a spacecraft that has components; "
                   "seeds: noise-free missions, or sensors whose random columns changed",
                   {{"again", Again, 120, 2500, 10, 180}, {"company", Company, 150, 3000, 10, 180}, {"instance", Instance, 120, 2500, 10, 180}, {"seeds", Seeds, 150, 3000, 10, 180}},
                   {"The ephemeris and the NRLMSISE-00 density come from analytic stand-ins.", "Generators are seeded from the global one in the order of construction: an instance constructed later may shift the noise of those after it, never of those before it."});
}
