// Generated missions: the shipped example settings loaded into memory, edited per case, written to the case's scratch directory and simulated
// with the real SimulationCase/Spacecraft/GroundStation classes.
#pragma once
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <simulation/case/simulation_case.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/multiple_spacecraft/relative_information.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <sstream>
#include "fake_env.hpp"
#include "pbt.hpp"
#include "s2e_ref.hpp"
namespace mission {
namespace fs = std::filesystem;
// swallows std::cout/cerr chatter of the simulator
struct Quiet {
  struct Null : std::streambuf {
    int overflow(int c) override { return c; }
  } null;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(&null)), e(std::cerr.rdbuf(&null)) {}
  ~Quiet() { std::cout.rdbuf(o), std::cerr.rdbuf(e); }
};
inline std::string Num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline void Spit(const fs::path& p, const std::string& text) {
  fs::create_directories(p.parent_path());
  std::ofstream(p, std::ios::binary) << text;
}
inline std::string Slurp(const fs::path& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
class Settings {
 public:
  static constexpr const char* kBase = "sample_simulation_base.ini";
  explicit Settings(pbt::Case& c) : dir_(c.TempDir() + "/s" + std::to_string(counter_++)) {
    static const std::map<std::string, std::string> tree = [] {
      std::map<std::string, std::string> t;
      const fs::path root = VERIF_REPO "/example/settings";
      for (auto& e : fs::recursive_directory_iterator(root)) {
        const std::string ext = e.path().extension().string();
        if (e.is_regular_file() && (ext == ".ini" || ext == ".csv")) t[fs::relative(e.path(), root).string()] = Slurp(e.path());
      }
      return t;
    }();
    files_ = tree;
    Set(kBase, "SIMULATION_SETTINGS", "log_file_save_directory", "LOGDIR/");
    Set(kBase, "SIMULATION_SETTINGS", "save_initialize_files", "DISABLE");
  }
  std::string Dir() const { return dir_; }
  std::string Path(const std::string& file) const { return dir_ + "/" + file; }
  std::string LogDir() const { return dir_ + "/logs"; }
  std::string& Text(const std::string& file) { return files_[file]; }
  std::map<std::string, std::string>& Files() { return files_; }
  // sets key in section of an ini file, replacing or appending
  void Set(const std::string& file, const std::string& section, const std::string& key, const std::string& value) {
    std::string& t = files_[file];
    const std::string line = key + "=" + value;
    std::string out, cur;
    bool in = false, done = false;
    std::istringstream is(t);
    std::string l;
    while (std::getline(is, l)) {
      if (!l.empty() && l[0] == '[') {
        if (in && !done) out += line + "\n", done = true;
        in = l.compare(1, l.find(']') - 1, section) == 0;
      } else if (in && !done) {
        const size_t e = l.find('=');
        if (e != std::string::npos) {
          std::string k = l.substr(0, e);
          k.erase(k.find_last_not_of(" \t") + 1);
          k.erase(0, k.find_first_not_of(" \t"));
          if (k == key) l = line, done = true;
        }
      }
      out += l + "\n";
    }
    if (!done) {
      if (!in) out += "\n[" + section + "]\n";
      out += line + "\n";
    }
    t = out;
  }
  void Set(const std::string& file, const std::string& section, const std::string& key, const char* value) { Set(file, section, key, std::string(value)); }
  void Set(const std::string& file, const std::string& section, const std::string& key, double value) { Set(file, section, key, Num(value)); }
  void Set(const std::string& file, const std::string& section, const std::string& key, int value) { Set(file, section, key, std::to_string(value)); }
  void Set(const std::string& file, const std::string& section, const std::string& key, bool value) {
    Set(file, section, key, std::string(value ? "ENABLE" : "DISABLE"));
  }
  template <class V>
  void SetVec(const std::string& file, const std::string& section, const std::string& key, const V& v, size_t n = 3) {
    for (size_t i = 0; i < n; i++) Set(file, section, key + "(" + std::to_string(i) + ")", Num(v[i]));
  }
  // a separate copy of the sample satellite's settings for spacecraft number id
  std::string AddSpacecraft(int id) {
    const std::string from = "sample_satellite/", to = "satellite" + std::to_string(id) + "/";
    std::map<std::string, std::string> add;
    for (auto& f : files_)
      if (f.first.compare(0, from.size(), from) == 0) {
        std::string t = f.second;
        for (size_t p; (p = t.find("SETTINGS_DIR_FROM_EXE/" + from)) != std::string::npos;) t.replace(p, 22 + from.size(), "SETTINGS_DIR_FROM_EXE/" + to);
        add[to + f.first.substr(from.size())] = t;
      }
    files_.insert(add.begin(), add.end());
    Set(kBase, "SIMULATION_SETTINGS", "number_of_simulated_spacecraft", id + 1);
    Set(kBase, "SIMULATION_SETTINGS", "spacecraft_file(" + std::to_string(id) + ")", "SETTINGS_DIR_FROM_EXE/" + to + "satellite.ini");
    return to;
  }
  std::string Sat(int id) const { return id == 0 ? "sample_satellite/" : "satellite" + std::to_string(id) + "/"; }
  void NoLogs() {
    for (const char* k : {"CELESTIAL_INFORMATION", "HIPPARCOS_CATALOGUE"}) Set(kBase, k, "logging", "DISABLE");
  }
  // writes everything; returns the path of the base file
  std::string Save() {
    fs::create_directories(LogDir());
    for (auto& f : files_) {
      std::string t = f.second;
      for (size_t p; (p = t.find("SETTINGS_DIR_FROM_EXE")) != std::string::npos;) {
        // coefficient files are used in place
        t.replace(p, 21, t.compare(p + 21, 27, "/environment/magnetic_field") == 0 ? std::string(VERIF_REPO "/example/settings") : dir_);
        // no blanks around '=' so that the absolute path is not taken for a comment
        size_t q = p;
        while (q > 0 && (t[q - 1] == ' ' || t[q - 1] == '\t')) q--;
        t.erase(q, p - q);
      }
      const size_t p = t.find("LOGDIR/");
      if (p != std::string::npos) t.replace(p, 7, LogDir());
      Spit(Path(f.first), t);
    }
    return Path(kBase);
  }

 private:
  std::string dir_;
  std::map<std::string, std::string> files_;
  static inline int counter_ = 0;
};
using ComponentFactory = std::function<s2e::spacecraft::InstalledComponents*(
    s2e::dynamics::Dynamics*, s2e::spacecraft::Structure*, const s2e::environment::LocalEnvironment*, const s2e::environment::GlobalEnvironment*,
    const s2e::simulation::SimulationConfiguration*, s2e::environment::ClockGenerator*, unsigned int)>;
class Craft : public s2e::spacecraft::Spacecraft {
 public:
  Craft(const s2e::simulation::SimulationConfiguration* conf, const s2e::environment::GlobalEnvironment* env, int id,
        s2e::simulation::RelativeInformation* rel, const ComponentFactory& f)
      : Spacecraft(conf, env, id, rel) {
    components_ = f ? f(dynamics_, structure_, local_environment_, env, conf, &clock_generator_, id) : new s2e::spacecraft::InstalledComponents();
  }
  s2e::dynamics::Dynamics& Dyn() { return *dynamics_; }
  s2e::environment::LocalEnvironment& Local() { return *local_environment_; }
  s2e::disturbances::Disturbances& Dist() { return *disturbances_; }
  s2e::spacecraft::Structure& Str() { return *structure_; }
  s2e::spacecraft::InstalledComponents& Comp() { return *components_; }
  s2e::environment::ClockGenerator& Clock() { return clock_generator_; }
};
// full text of the csv log below dir; complete once the mission has been destroyed
inline std::string ReadLog(const std::string& dir) {
  for (auto& e : fs::recursive_directory_iterator(dir))
    if (e.path().extension() == ".csv" && e.path().filename().string().find("default.csv") != std::string::npos) return Slurp(e.path());
  return "";
}
class Mission : public s2e::simulation::SimulationCase {
 public:
  Mission(Settings& s, ComponentFactory f = nullptr, bool relative = false) : SimulationCase(s.Save()), factory_(f), log_dir_(s.LogDir()) {
    if (relative) rel_.reset(new s2e::simulation::RelativeInformation());
  }
  // one execution of a Monte Carlo campaign; base: what Save() returned
  Mission(const std::string& base, const s2e::simulation::MonteCarloSimulationExecutor& campaign, const std::string& log_path, ComponentFactory f = nullptr)
      : SimulationCase(base, campaign, log_path), factory_(f), log_dir_(log_path) {}
  ~Mission() override {
    gs_.clear();
    craft_.clear();
  }
  Craft& Sc(int i = 0) { return *craft_[i]; }
  s2e::ground_station::GroundStation& Gs(int i = 0) { return *gs_[i]; }
  s2e::simulation::RelativeInformation& Rel() { return *rel_; }
  s2e::environment::GlobalEnvironment& Env() { return *global_environment_; }
  const s2e::environment::SimulationTime& Time() { return global_environment_->GetSimulationTime(); }
  void Step() {
    global_environment_->Update();
    UpdateTargetObjects();
  }
  std::function<void(Mission&)> after_update;
  std::function<void(Mission&)> on_log;  // called when a row of the log is being written
  std::string GetLogHeader() const override { return "time[s],"; }
  std::string GetLogValue() const override {
    if (on_log) on_log(const_cast<Mission&>(*this));
    std::ostringstream s;
    s.precision(16);
    s << global_environment_->GetSimulationTime().GetElapsedTime_s() << ",";
    return s.str();
  }

 protected:
  void InitializeTargetObjects() override {
    for (unsigned i = 0; i < simulation_configuration_.number_of_simulated_spacecraft_; i++)
      craft_.emplace_back(new Craft(&simulation_configuration_, global_environment_, (int)i, rel_.get(), factory_));
    for (unsigned i = 0; i < simulation_configuration_.number_of_simulated_ground_station_; i++)
      gs_.emplace_back(new s2e::ground_station::GroundStation(&simulation_configuration_, i));
    s2e::logger::Logger& l = *simulation_configuration_.main_logger_;
    l.AddLogList(this);
    for (auto& c : craft_) c->LogSetup(l);
    if (rel_) rel_->LogSetup(l);
    for (auto& g : gs_) g->LogSetup(l);
  }
  void UpdateTargetObjects() override {
    for (auto& c : craft_) c->Update(&global_environment_->GetSimulationTime());
    if (rel_) rel_->Update();
    for (auto& g : gs_)
      for (auto& c : craft_) g->Update(global_environment_->GetCelestialInformation().GetEarthRotation(), *c);
    if (after_update) after_update(*this);
  }

 private:
  ComponentFactory factory_;
  std::string log_dir_;
  std::unique_ptr<s2e::simulation::RelativeInformation> rel_;
  std::vector<std::unique_ptr<Craft>> craft_;
  std::vector<std::unique_ptr<s2e::ground_station::GroundStation>> gs_;
};
// start time text, end, steps
inline void SetTime(Settings& s, const std::string& start, double end, double step, double att, double att_rk, double orb, double orb_rk, double th, double th_rk, double comp,
                    double log) {
  const char* T = "TIME";
  s.Set(s.kBase, T, "simulation_start_time_utc", start);
  s.Set(s.kBase, T, "simulation_duration_s", end);
  s.Set(s.kBase, T, "simulation_step_s", step);
  s.Set(s.kBase, T, "attitude_update_period_s", att);
  s.Set(s.kBase, T, "attitude_integral_step_s", att_rk);
  s.Set(s.kBase, T, "orbit_update_period_s", orb);
  s.Set(s.kBase, T, "orbit_integral_step_s", orb_rk);
  s.Set(s.kBase, T, "thermal_update_period_s", th);
  s.Set(s.kBase, T, "thermal_integral_step_s", th_rk);
  s.Set(s.kBase, T, "component_update_period_s", comp);
  s.Set(s.kBase, T, "log_output_period_s", log);
}
}  // namespace mission
