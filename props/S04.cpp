// link: sim
#include <logger/initialize_log.hpp>
#include <logger/log_utility.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <set>
#include "rig.hpp"
#include "suite.hpp"
using pbt::Case;
using namespace rig;
using mission::Quiet;
using suite::Columns;
namespace lg = s2e::logger;
static std::vector<std::string> Lines(const std::string& t) {
  std::vector<std::string> v;
  std::istringstream s(t);
  std::string l;
  while (std::getline(s, l)) v.push_back(l);
  return v;
}
// cells of a line; every cell, the last one included, is followed by a comma
static bool Cells(const std::string& l, std::vector<std::string>& v) {
  v.clear();
  std::string w;
  for (char ch : l) {
    if (ch == ',')
      v.push_back(w), w.clear();
    else
      w += ch;
  }
  return w.empty();
}
static bool Number(const std::string& s, double& v) {
  char* e;
  v = strtod(s.c_str(), &e);
  return !s.empty() && *e == 0;
}
static bool Same(double got, double want, int digits) {
  if (std::isnan(want)) return std::isnan(got);
  return got == want || std::fabs(got - want) <= (0.5001 * std::pow(10.0, 1 - digits) + 4e-16) * std::max(std::fabs(got), std::fabs(want)) + 1e-300;
}
static double AnyNumber(Case& c) { return c.Chance(0.15) ? c.Of<double>({0.0, -0.0, 1.0, -1.0, 999999.5, 1e-5, 123456.5, 1e15, 1e-300, -1e300, 0.1, 100000.0}) : c.Signed(1e-12, 1e12); }

// ---- the cell writers
template <size_t N>
static void VectorOf(Case& c, int digits) {
  s2e::math::Vector<N> v;
  for (size_t i = 0; i < N; i++) v[i] = AnyNumber(c);
  std::vector<std::string> h, x;
  c.Check(Cells(lg::WriteVector("name", "frame", "unit", N), h) && h.size() == N, "vector-header", "size ", N, ", header has ", h.size());
  c.Check(Cells(lg::WriteVector(v, digits), x) && x.size() == N, "vector-cells", "size ", N, ", row has ", x.size());
  c.Check(std::set<std::string>(h.begin(), h.end()).size() == N, "vector-names", "repeated column name");
  for (size_t i = 0; i < N; i++) {
    double g = 0;
    c.Check(Number(x[i], g) && Same(g, v[i], digits), "vector-value", "element ", i, " is ", mission::Num(v[i]), ", written ", x[i], " with ", digits, " digits");
    const std::string want = N == 3 ? std::string("name_frame_") + "xyz"[i] + "[unit]" : "name_frame(" + std::to_string(i) + ")[unit]";
    c.Check(h[i] == want, "vector-name", h[i]);
  }
}
template <size_t A, size_t B>
static void MatrixOf(Case& c, int digits) {
  s2e::math::Matrix<A, B> m;
  for (size_t i = 0; i < A; i++)
    for (size_t j = 0; j < B; j++) m[i][j] = AnyNumber(c);
  std::vector<std::string> h, x;
  c.Check(Cells(lg::WriteMatrix("name", "frame", "unit", A, B), h) && h.size() == A * B, "matrix-header", A, "x", B, ", header has ", h.size());
  c.Check(Cells(lg::WriteMatrix(m, digits), x) && x.size() == A * B, "matrix-cells", A, "x", B, ", row has ", x.size());
  for (size_t i = 0; i < A; i++)
    for (size_t j = 0; j < B; j++) {
      double g = 0;
      c.Check(Number(x[i * B + j], g) && Same(g, m[i][j], digits), "matrix-value", "element ", i, ",", j, " is ", mission::Num(m[i][j]), ", written ", x[i * B + j]);
      c.Check(h[i * B + j] == "name_frame(" + std::to_string(i) + std::to_string(j) + ")[unit]", "matrix-name", h[i * B + j]);
    }
}
static void Writers(Case& c) {
  const int digits = (int)c.Int(1, 17);
  switch (c.Int(0, 7)) {
    case 0: VectorOf<1>(c, digits); break;
    case 1: VectorOf<2>(c, digits); break;
    case 2: VectorOf<3>(c, digits); break;
    case 3: VectorOf<6>(c, digits); break;
    case 4: MatrixOf<3, 3>(c, digits); break;
    case 5:
      MatrixOf<2, 5>(c, digits);
      VectorOf<12>(c, digits);
      VectorOf<31>(c, digits);
      VectorOf<130>(c, digits);
      MatrixOf<12, 3>(c, digits);
      break;
    case 6: {
      const Q4 q = {AnyNumber(c), AnyNumber(c), AnyNumber(c), AnyNumber(c)};
      std::vector<std::string> h, x;
      c.Check(Cells(lg::WriteQuaternion("name", "frame"), h) && h == std::vector<std::string>({"name_frame_x", "name_frame_y", "name_frame_z", "name_frame_w"}), "quaternion-header", "names");
      c.Check(Cells(lg::WriteQuaternion(s2e::math::Quaternion(q[0], q[1], q[2], q[3]), digits), x) && x.size() == 4, "quaternion-cells", "row has ", x.size());
      for (int i = 0; i < 4; i++) {
        double g = 0;
        c.Check(Number(x[i], g) && Same(g, q[i], digits), "quaternion-value", "element ", i, " is ", mission::Num(q[i]), ", written ", x[i]);
      }
      break;
    }
    default: {
      std::vector<std::string> h, x;
      const double v = AnyNumber(c);
      double g = 0;
      c.Check(Cells(lg::WriteScalar("name", "unit"), h) && h == std::vector<std::string>({"name[unit]"}), "scalar-header", "name");
      c.Check(Cells(lg::WriteScalar(v, digits), x) && x.size() == 1 && Number(x[0], g) && Same(g, v, digits), "scalar-value", mission::Num(v), " written ", x.empty() ? "nothing" : x[0]);
      const int n = (int)c.EdgeInt(-2000000000, 2000000000);
      c.Check(Cells(lg::WriteScalar(n, digits), x) && x.size() == 1 && Number(x[0], g) && g == n, "integer-value", n, " written ", x[0]);
    }
  }
  c.NonTrivial();
}

// ---- the logger
struct Item : lg::ILoggable {
  int width = 1, id = 0, epoch = 0;
  std::string GetLogHeader() const override {
    std::string s;
    for (int i = 0; i < width; i++) s += "c" + std::to_string(id) + "_" + std::to_string(i) + ",";
    return s;
  }
  std::string GetLogValue() const override {
    std::string s;
    for (int i = 0; i < width; i++) s += std::to_string(id * 1000 + i + 10 * epoch) + ",";
    return s;
  }
};
static std::string OnlyCsv(const std::string& dir) {
  std::string found;
  for (auto& e : mission::fs::recursive_directory_iterator(dir))
    if (e.path().extension() == ".csv") found = e.path().string();
  return found;
}
static void Ledger(Case& c) {
  Quiet quiet;
  const std::string dir = c.TempDir() + "/out", ini = c.TempDir() + "/base.ini", extra = c.TempDir() + "/extra.ini";
  mission::fs::create_directories(dir);
  mission::Spit(ini, "[A]\nb=" + std::to_string(c.Int(0, 1000)) + "\n");
  mission::Spit(extra, "[A]\nc=" + std::to_string(c.Int(0, 1000)) + "\n");
  const bool on = c.Chance(0.85), save = c.Bool();
  bool live = true;  // switched off and on again while running
  std::string want;
  std::vector<std::unique_ptr<Item>> items;
  std::vector<Item*> listed;
  {
    lg::Logger log("run.csv", dir, ini, save, on);
    for (int n = (int)c.Int(1, 25); n-- > 0;) switch (c.Int(0, 6)) {
        case 0:
        case 1: {
          items.emplace_back(new Item());
          items.back()->id = (int)items.size(), items.back()->width = (int)c.Int(0, 4), items.back()->is_log_enabled_ = c.Chance(0.7);
          log.AddLogList(items.back().get()), listed.push_back(items.back().get());
          break;
        }
        case 2:
          if (!listed.empty()) c.From(listed)->is_log_enabled_ = c.Bool();
          break;
        case 3: {
          const bool nl = c.Chance(0.8);
          log.WriteHeaders(nl);
          for (auto i : listed)
            if (live && i->is_log_enabled_) want += i->GetLogHeader();
          if (live && nl) want += "\n";
          break;
        }
        case 4: {
          const bool nl = c.Chance(0.8);
          for (auto i : listed) i->epoch++;
          log.WriteValues(nl);
          for (auto i : listed)
            if (live && i->is_log_enabled_) want += i->GetLogValue();
          if (live && nl) want += "\n";
          break;
        }
        case 5:
          if (on && c.Bool()) log.CopyFileToLogDirectory(extra);
          break;
        default:
          if (c.Chance(0.3)) log.ClearLogList(), listed.clear();
          else if (on) {
            log.Enable(live = c.Bool());
            c.Check(log.IsEnabled() == live, "switch", "logger ", live ? "not enabled" : "not disabled");
          }
      }
    if (on && save) log.CopyFileToLogDirectory(extra);
  }
  if (!on) {
    c.Check(OnlyCsv(dir).empty(), "disabled", "a disabled logger wrote a file");
    return;
  }
  const std::string file = OnlyCsv(dir);
  c.Check(!file.empty() && file.size() > 7 && file.substr(file.size() - 7) == "run.csv", "file", "log file is '", file, "'");
  const std::string got = mission::Slurp(file);
  c.Check(got == want, "content", "log is '", got, "', expected '", want, "'");
  std::map<std::string, std::string> copies;
  for (auto& e : mission::fs::recursive_directory_iterator(dir))
    if (e.path().extension() == ".ini") copies[e.path().filename().string()] = mission::Slurp(e.path());
  if (save) {
    c.Check(copies.size() == 2 && copies["base.ini"] == mission::Slurp(ini) && copies["extra.ini"] == mission::Slurp(extra), "copies", copies.size(), " settings files were saved, or they differ");
    c.Check(mission::fs::path(file).parent_path().filename().string().compare(0, 5, "logs_") == 0, "directory", file);
  } else {
    c.Check(copies.empty(), "copies", "settings saved although not asked for");
  }
  if (listed.size() >= 2 && want.size() > 20) c.NonTrivial();
}

// ---- whole missions
struct Plan {
  int craft = 1, stations = 1;
  std::map<std::string, bool> log;  // per mission part
  std::vector<std::string> bodies;
  bool relative = false, thermal = false, stars = false, jitter = false, cantilever = false;
  std::vector<unsigned> masks;
};
static void Flags(Case& c, mission::Settings& s, Plan& p, int sat, const std::string& file, const char* section) {
  const bool on = c.Chance(0.7);
  s.Set(s.Sat(sat) + file, section, "logging", on);
  p.log[std::to_string(sat) + section] = on;
}
static void Run(Case& c) {
  Quiet quiet;
  s2e::randomization::global_randomization.SetSeed(c.Int(1, 1 << 30));
  mission::Settings s(c);
  Plan p;
  p.craft = (int)c.Of<int>({1, 1, 1, 2, 3});
  p.stations = (int)c.Int(0, 3);
  const double step = c.Of<double>({0.1, 0.25, 0.5, 1}), period = step * (double)c.Int(1, 4);
  const int steps = (int)c.Int(1, 14);
  mission::SetTime(s, "2021/06/15 10:20:30.5", step * steps, step, step, 0.01, step, step, step, step, step, period);
  // environment
  static const std::vector<std::string> all = {"EARTH", "SUN", "MOON", "MERCURY", "VENUS", "MARS", "JUPITER", "SATURN"};
  std::vector<std::string> order(all.begin(), all.begin() + c.Int(3, 8));
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.Int(0, (int64_t)i - 1)]);
  p.bodies = order;
  for (size_t i = 0; i < 11; i++) {
    const std::string k = std::to_string(i);
    if (i < order.size()) s.Set(s.kBase, "CELESTIAL_INFORMATION", "selected_body_name(" + k + ")", order[i]);
    s.Set(s.kBase, "CELESTIAL_INFORMATION", "rotation_mode(" + k + ")", i < order.size() && order[i] == "EARTH" ? "FULL" : i < order.size() && order[i] == "MOON" ? "SIMPLE" : "DISABLE");
  }
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "number_of_selected_body", (int)order.size());
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "logging", p.log["bodies"] = c.Chance(0.7));
  s.Set(s.kBase, "HIPPARCOS_CATALOGUE", "logging", (bool)c.Bool());
  p.stars = c.Chance(0.3);
  if (p.stars) {
    std::string t = "hip,mag,ra,dec\n";
    for (int i = 0; i < 300; i++) t += std::to_string(i + 1) + "," + mission::Num(0.01 * i) + "," + mission::Num(c.Real(0, 360)) + "," + mission::Num(c.Real(-90, 90)) + "\n";
    s.Text("stars.csv") = t;
    s.Set(s.kBase, "HIPPARCOS_CATALOGUE", "calculation", true);
    s.Set(s.kBase, "HIPPARCOS_CATALOGUE", "catalogue_file_path", "SETTINGS_DIR_FROM_EXE/stars.csv");
  }
  // ground stations
  s.Set(s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_ground_station", p.stations);
  const std::string gs = "sample_ground_station/ground_station.ini";
  for (int g = 0; g < p.stations; g++) {
    const std::string sec = "GROUND_STATION_" + std::to_string(g);
    s.Set(gs, sec, "latitude_deg", c.Real(-80, 80)), s.Set(gs, sec, "longitude_deg", c.Real(-180, 180)), s.Set(gs, sec, "height_m", c.Real(0, 3000));
    s.Set(gs, sec, "elevation_limit_angle_deg", c.Real(0, 30));
  }
  // spacecraft
  p.relative = p.craft > 1 && c.Bool();
  for (int i = 0; i < p.craft; i++) {
    if (i) s.AddSpacecraft(i);
    const std::string d = s.Sat(i), sat = d + "satellite.ini";
    Flags(c, s, p, i, "satellite.ini", "ORBIT");
    for (const char* sec : {"MAGNETIC_FIELD_ENVIRONMENT", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "ATMOSPHERE", "LOCAL_CELESTIAL_INFORMATION"}) Flags(c, s, p, i, "local_environment.ini", sec);
    for (const char* sec : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"}) {
      Flags(c, s, p, i, "disturbance.ini", sec);
      if (strcmp(sec, "GEOPOTENTIAL") && strcmp(sec, "LUNAR_GRAVITY_FIELD")) s.Set(d + "disturbance.ini", sec, "calculation", c.Chance(0.75));
    }
    s.Set(d + "local_environment.ini", "EARTH_ALBEDO", "calculation", c.Bool());
    s.Set(d + "local_environment.ini", "ATMOSPHERE", "calculation", c.Chance(0.8));
    s.Set(d + "local_environment.ini", "MAGNETIC_FIELD_ENVIRONMENT", "calculation", c.Chance(0.8));
    const Q4 q = c.Quat();
    s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", q, 4);
    s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", V3{c.Real(-0.05, 0.05), c.Real(-0.05, 0.05), c.Real(-0.05, 0.05)});
    s.Set(sat, "ATTITUDE", "propagate_mode", c.Of<const char*>({"RK4", "RK4", "CONTROLLED", "CANTILEVER_VIBRATION"}));
    const V3 dir = c.Dir(), r = c.Real(6.75e6, 7.4e6) * dir;
    const V3 side = ref::Unit(ref::Cross(dir, std::fabs(dir[2]) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0}));
    s.SetVec(sat, "ORBIT", "initial_position_i_m", r), s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", 7500.0 * side);
    s.Set(sat, "ORBIT", "propagate_mode", c.Of<const char*>({"RK4", "KEPLER", "ENCKE", "SGP4"}));
    if (c.Chance(0.3)) s.Set(sat, "THERMAL", "calculation", true);
    if (c.Chance(0.4)) s.Set(d + "components/reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_calculation", true);
    if (c.Chance(0.6)) s.Set(d + "components/reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_logging", true);
    s.Set(d + "components/telescope.ini", "TELESCOPE_1", "number_of_stars_for_log", (int)c.Int(0, 6));
    for (const char* f : {"gyro_sensor", "magnetometer", "star_sensor", "sun_sensor", "gnss_receiver", "magnetorquer", "battery", "solar_array_panel", "pcu_initial_study"}) {
      std::string& t = s.Text(d + "components/" + std::string(f) + ".ini");
      for (size_t at; (at = t.find("prescaler = 10\n")) != std::string::npos;) t.replace(at, 15, "prescaler = " + std::to_string(c.Int(1, 3)) + "\n");
    }
    p.masks.push_back((unsigned)(c.Chance(0.2) ? (1u << suite::kParts) - 1 : c.Int(0, (1 << (suite::kParts + 1)) - 1)));
  }
  const bool save = c.Chance(0.3);
  s.Set(s.kBase, "SIMULATION_SETTINGS", "save_initialize_files", save);
  suite::Fleet fleet;
  std::unique_ptr<mission::Mission> mission(new mission::Mission(s, fleet.Make(p.masks), p.relative));
  mission::Mission& m = *mission;
  std::vector<Columns> rows;
  std::vector<double> times;
  const double push = c.Real(-1, 1);
  m.after_update = [&](mission::Mission&) {
    for (auto f : fleet.of) f->Drive(push);
  };
  m.on_log = [&](mission::Mission& m) {
    Columns e;
    auto& cel = m.Env().GetCelestialInformation();
    auto lower = [](std::string x) {
      for (char& ch : x) ch = (char)tolower(ch);
      return x;
    };
    if (p.log["bodies"])
      for (auto& b : p.bodies) {
        e.Vec(lower(b) + "_position_i", "m", cel.GetPositionFromCenter_i_m(b.c_str()));
        e.Vec(lower(b) + "_velocity_i", "m/s", cel.GetVelocityFromCenter_i_m_s(b.c_str()));
      }
    for (int i = 0; i < p.craft; i++) {
      auto& sc = m.Sc(i);
      auto on = [&](const char* k) { return p.log[std::to_string(i) + k]; };
      auto& a = sc.Dyn().GetAttitude();
      auto& o = sc.Dyn().GetOrbit();
      auto& l = sc.Local();
      e.Vec("spacecraft_angular_velocity_b", "rad/s", a.GetAngularVelocity_b_rad_s()), e.Quat("spacecraft_quaternion_i2b", a.GetQuaternion_i2b());
      e.Vec("spacecraft_torque_b", "Nm", a.GetTorque_b_Nm()), e.One("spacecraft_kinematic_energy[J]", a.GetKineticEnergy_J());
      e.One("spacecraft_total_angular_momentum[Nms]", a.GetTotalAngularMomentNorm_Nms());
      if (on("ORBIT")) {
        e.Vec("spacecraft_position_i", "m", o.GetPosition_i_m(), 16), e.Vec("spacecraft_position_ecef", "m", o.GetPosition_ecef_m(), 16);
        e.Vec("spacecraft_velocity_i", "m/s", o.GetVelocity_i_m_s(), 10), e.Vec("spacecraft_velocity_b", "m/s", o.GetVelocity_b_m_s(), 10);
        e.One("spacecraft_latitude[rad]", o.GetLatitude_rad()), e.One("spacecraft_longitude[rad]", o.GetLongitude_rad()), e.One("spacecraft_altitude[m]", o.GetAltitude_m());
      }
      if (on("MAGNETIC_FIELD_ENVIRONMENT")) {
        e.Vec("geomagnetic_field_at_spacecraft_position_i", "nT", l.GetGeomagneticField().GetGeomagneticField_i_nT());
        e.Vec("geomagnetic_field_at_spacecraft_position_b", "nT", l.GetGeomagneticField().GetGeomagneticField_b_nT());
      }
      if (on("SOLAR_RADIATION_PRESSURE_ENVIRONMENT")) {
        e.One("solar_radiation_pressure_at_spacecraft_position[N/m2]", l.GetSolarRadiationPressure().GetPressure_N_m2());
        e.One("shadow_coefficient_at_spacecraft_position", l.GetSolarRadiationPressure().GetShadowCoefficient());
      }
      e.One("earth_albedo_factor", l.GetEarthAlbedo().GetEarthAlbedoFactor()), e.One("earth_albedo_W_m2", l.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2());
      e.One("earth_infrared_W_m2", l.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2());
      if (on("ATMOSPHERE")) e.One("air_density_at_spacecraft_position[kg/m3]", l.GetAtmosphere().GetAirDensity_kg_m3());
      if (on("LOCAL_CELESTIAL_INFORMATION"))
        for (auto& b : p.bodies) e.Vec(lower(b) + "_position_from_spacecraft_b", "m", l.GetCelestialInformation().GetPositionFromSpacecraft_b_m(b.c_str()));
      auto& d = sc.Dist();
      if (on("MAGNETIC_DISTURBANCE") && on("AIR_DRAG") && on("SOLAR_RADIATION_PRESSURE_DISTURBANCE") && on("GRAVITY_GRADIENT")) {
        const V3 t = R(d.GetTorque_b_Nm());
        for (int k = 0; k < 3; k++) e.push_back({std::string("#torque") + "xyz"[k], t[k], i});
      }
      if (on("AIR_DRAG") && on("SOLAR_RADIATION_PRESSURE_DISTURBANCE")) {
        const V3 f = R(d.GetForce_b_N());
        for (int k = 0; k < 3; k++) e.push_back({std::string("#force") + "xyz"[k], f[k], i});
      }
      if (on("THIRD_BODY_GRAVITY")) e.Vec("third_body_acceleration_i", "m/s2", d.GetAcceleration_i_m_s2());
      auto nodes = const_cast<s2e::dynamics::thermal::Temperature&>(sc.Dyn().GetTemperature()).GetNodes();
      for (auto& nd : nodes) {
        if (nd.GetNodeType() == s2e::dynamics::thermal::NodeType::kBoundary) continue;
        const std::string tag = std::to_string(nd.GetNodeId()) + " (" + nd.GetNodeName() + ")";
        e.One("temp_" + tag + "[deg]", nd.GetTemperature_degC()), e.One("solar_" + tag + "[W]", nd.GetSolarRadiation_W());
      }
      fleet.of[i]->Expect(e);
    }
    if (p.relative)
      for (int t = 0; t < p.craft; t++)
        for (int b = 0; b < t; b++) {
          const std::string n = "satellite" + std::to_string(t), f = "_from_satellite" + std::to_string(b);
          e.Vec(n + "_position" + f + "_i", "m", m.Rel().GetRelativePosition_i_m(t, b)), e.Vec(n + "_velocity" + f + "_i", "m/s", m.Rel().GetRelativeVelocity_i_m_s(t, b));
          e.Vec(n + "_position" + f + "_rtn", "m", m.Rel().GetRelativePosition_rtn_m(t, b)), e.Vec(n + "_velocity" + f + "_rtn", "m/s", m.Rel().GetRelativeVelocity_rtn_m_s(t, b));
        }
    for (int g = 0; g < p.stations; g++) {
      for (int i = 0; i < p.craft; i++) e.One("ground_station" + std::to_string(g) + "_sc" + std::to_string(i) + "_visible_flag", m.Gs(g).IsVisible(i));
      e.Vec("ground_station" + std::to_string(g) + "_position_eci", "m", m.Gs(g).GetPosition_i_m());
    }
    rows.push_back(e), times.push_back(m.Time().GetElapsedTime_s());
  };
  m.Initialize();
  m.Main();
  mission.reset();
  const std::string text = mission::ReadLog(s.LogDir());
  // the settings the mission was run with are kept beside its log (of files of one name, the first)
  std::set<std::string> kept, need = {s.kBase, "satellite.ini", "disturbance.ini", "local_environment.ini", "structure.ini"};
  if (p.stations) need.insert("ground_station.ini");
  for (auto& f : mission::fs::recursive_directory_iterator(s.LogDir())) {
    if (f.path().extension() != ".ini") continue;
    const std::string n = f.path().filename().string(), t = mission::Slurp(f.path());
    c.Check(save && kept.insert(n).second, "saved-settings", n, " saved ", save ? "twice" : "although not asked for");
    for (const std::string& d : {std::string(), s.Sat(0), std::string("sample_ground_station/")})
      if (mission::fs::exists(s.Path(d + n))) c.Check(mission::Slurp(s.Path(d + n)) == t, "saved-settings", n, " differs from ", d + n);
  }
  if (save)
    for (auto& n : need) c.Check(kept.count(n), "saved-settings", n, " was not saved");
  auto lines = Lines(text);
  c.Note(p.craft, " spacecraft, ", p.stations, " stations, ", p.bodies.size(), " bodies, step ", step, " period ", period, " steps ", steps, ", ", lines.size(), " lines");
  c.Check(!lines.empty() && text.back() == '\n', "no-log", "the log is empty or its last line unfinished");
  std::vector<std::string> head, cell;
  c.Check(Cells(lines[0], head), "header-end", "the header does not end with a separator: ", lines[0].substr(lines[0].size() > 60 ? lines[0].size() - 60 : 0));
  // names
  std::map<std::string, std::vector<size_t>> where;
  for (size_t i = 0; i < head.size(); i++) {
    c.Check(!head[i].empty(), "empty-name", "column ", i, " has no name");
    where[head[i]].push_back(i);
  }
  for (auto& w : where)
    c.Check((int)w.second.size() <= p.craft, "repeated-name", "column '", w.first, "' appears ", w.second.size(), " times with ", p.craft, " spacecraft");
  // one row per period
  const size_t n = lines.size() - 1;
  c.Check(n == rows.size(), "rows", n, " rows written, ", rows.size(), " asked for");
  for (size_t k = 0; k < n; k++) c.Near(times[k], period * (double)k, 1e-6 * period + 1e-9 * step, 0, "row-time", "time of row " + std::to_string(k));
  c.Check(n > 0 && period * (double)(n - 1) <= step * steps + 1e-6 && period * (double)n >= step * steps - 1e-6, "row-count", n, " rows with period ", period, " in ", step * steps, " s");
  // logs that are switched off leave no trace
  auto Absent = [&](bool on, const char* name, int expect) {
    const int got = where.count(name) ? (int)where[name].size() : 0;
    c.Check(got == expect, on ? "missing-column" : "disabled-column", "column ", name, " appears ", got, " times, expected ", expect);
  };
  auto Count = [&](const char* sec) {
    int n = 0;
    for (int i = 0; i < p.craft; i++) n += p.log[std::to_string(i) + sec];
    return n;
  };
  for (auto& kv : std::vector<std::pair<const char*, const char*>>{{"ORBIT", "spacecraft_position_i_x[m]"},
                                                                   {"MAGNETIC_FIELD_ENVIRONMENT", "geomagnetic_field_at_spacecraft_position_i_x[nT]"},
                                                                   {"SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "solar_radiation_pressure_at_spacecraft_position[N/m2]"},
                                                                   {"ATMOSPHERE", "air_density_at_spacecraft_position[kg/m3]"},
                                                                   {"LOCAL_CELESTIAL_INFORMATION", "sun_position_from_spacecraft_b_x[m]"},
                                                                   {"GEOPOTENTIAL", "geopotential_acceleration_ecef_x[m/s2]"},
                                                                   {"MAGNETIC_DISTURBANCE", "magnetic_disturbance_torque_b_x[Nm]"},
                                                                   {"AIR_DRAG", "air_drag_force_b_x[N]"},
                                                                   {"SOLAR_RADIATION_PRESSURE_DISTURBANCE", "srp_force_b_x[N]"},
                                                                   {"GRAVITY_GRADIENT", "gravity_gradient_torque_b_x[Nm]"},
                                                                   {"THIRD_BODY_GRAVITY", "third_body_acceleration_i_x[m/s2]"}})
    Absent(Count(kv.first) > 0, kv.second, Count(kv.first));
  Absent(false, "lunar_gravity_acceleration_mcmf_x[m/s2]", 0);  // the Earth is the centre
  Absent(p.log["bodies"], "sun_position_i_x[m]", p.log["bodies"]);
  c.Check(where.count("elapsed_time[s]") && where.count("time[UTC]"), "missing-column", "no time columns");
  // every row
  for (size_t k = 0; k < n; k++) {
    c.Check(Cells(lines[k + 1], cell), "row-end", "row ", k, " does not end with a separator");
    c.Check(cell.size() == head.size(), "row-width", "row ", k, " has ", cell.size(), " columns, the header ", head.size());
    std::vector<double> v(cell.size(), 0);
    for (size_t i = 0; i < cell.size(); i++)
      if (head[i] != "time[UTC]") c.Check(Number(cell[i], v[i]), "not-a-number", "row ", k, " column ", head[i], ": '", cell[i], "'");
    c.Check(Same(v[where["elapsed_time[s]"][0]], times[k], 6), "elapsed", "row ", k, ": ", cell[where["elapsed_time[s]"][0]], " at ", times[k]);
    int hh, mm;
    double ss;
    const std::string utc = cell[where["time[UTC]"][0]];
    c.Check(utc.compare(0, 11, "2021/06/15 ") == 0 && sscanf(utc.c_str() + 11, "%d:%d:%lf", &hh, &mm, &ss) == 3, "utc-format", utc);
    c.Near(hh * 3600 + mm * 60 + ss, 10 * 3600 + 20 * 60 + 30.5 + times[k], 2e-3, 0, "utc", "time of day of row " + std::to_string(k));
    std::map<std::string, size_t> seen;
    auto At = [&](const std::string& name, int nth) {
      auto it = where.find(name);
      return it == where.end() || (int)it->second.size() <= nth ? std::nan("") : v[it->second[nth]];
    };
    // the nth column of that name belongs to the nth spacecraft that logs it
    auto Rank = [&](int i, const char* sec) {
      int r = 0;
      for (int j = 0; j < i; j++) r += p.log[std::to_string(j) + sec];
      return r;
    };
    for (auto& e : rows[k]) {
      if (e.name.compare(0, 7, "#torque") == 0) {
        const int i = e.digits;
        const std::string ax = std::string("_torque_b_") + e.name[7] + "[Nm]";
        const double t[4] = {At("magnetic_disturbance" + ax, Rank(i, "MAGNETIC_DISTURBANCE")), At("air_drag" + ax, Rank(i, "AIR_DRAG")), At("srp" + ax, Rank(i, "SOLAR_RADIATION_PRESSURE_DISTURBANCE")),
                             At("gravity_gradient" + ax, Rank(i, "GRAVITY_GRADIENT"))};
        c.Near(t[0] + t[1] + t[2] + t[3], e.value, 1.1e-5 * (std::fabs(t[0]) + std::fabs(t[1]) + std::fabs(t[2]) + std::fabs(t[3])) + 1e-300, 0, "torque-sum", "logged disturbance torques along " + ax);
        continue;
      }
      if (e.name.compare(0, 6, "#force") == 0) {
        const int i = e.digits;
        const std::string ax = std::string("_b_") + e.name[6] + "[N]";
        const double a = At("air_drag_force" + ax, Rank(i, "AIR_DRAG")), b = At("srp_force" + ax, Rank(i, "SOLAR_RADIATION_PRESSURE_DISTURBANCE"));
        c.Near(a + b, e.value, 1.1e-5 * (std::fabs(a) + std::fabs(b)) + 1e-300, 0, "force-sum", "logged disturbance forces along " + ax);
        continue;
      }
      auto it = where.find(e.name);
      c.Check(it != where.end(), "missing-column", "no column '", e.name, "'");
      size_t& s = seen[e.name];
      c.Check(s < it->second.size(), "missing-column", "only ", it->second.size(), " columns '", e.name, "'");
      const size_t col = it->second[s++];
      c.Check(Same(v[col], e.value, e.digits), "value", "row ", k, " column ", e.name, " (", col, ") is ", cell[col], ", the quantity is ", mission::Num(e.value));
    }
  }
  c.Label("columns " + std::to_string(head.size() / 50 * 50) + "+");
  if (n >= 2 && head.size() >= 60) c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "S04",
                   "writers: every case; logger: at least two items listed and rows written; missions: at least two rows of at least 60 columns",
                   {{"writers", Writers, 4000, 40000, 500, 20}, {"logger", Ledger, 300, 4000, 50, 60}, {"mission", Run, 600, 10000, 30, 180}},
                   {"Numbers are compared to the precision each column is printed with.", "With several spacecraft the columns of each spacecraft follow one another under the same names, in the order of the spacecraft."});
}
