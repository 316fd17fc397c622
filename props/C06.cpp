// link: sim
#include <components/real/power/battery.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <memory>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace co = s2e::components;
using mission::Num;
static const double kAu = 149597870700.0;
template <class T>
static std::string List(const std::string& key, const T& v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += key + "(" + std::to_string(i) + ")=" + Num(v[i]) + "\n";
  return s;
}
static V3 Aside(Case& c, const V3& axis, double angle) {
  V3 e = ref::Cross(axis, c.Dir());
  while (ref::Norm(e) < 1e-3) e = ref::Norm(ref::Cross(axis, V3{1, 0, 0})) < 1e-3 ? ref::Cross(axis, V3{0, 1, 0}) : ref::Cross(axis, V3{1, 0, 0});
  return std::cos(angle) * axis + std::sin(angle) * ref::Unit(e);
}
// ---------------------------------------------------------------- scenario files
struct Row {
  double t;
  V3 sun;
  int flag;
  double load;
};
struct Scenario {
  std::vector<Row> rows;
  const Row* At(double t) const {
    const Row* r = nullptr;
    for (auto& x : rows)
      if (x.t <= t) r = &x;
    return r;
  }
  std::string Text(Case& c) const {
    std::string s = "time,sun_dir_b_x,sun_dir_b_y,sun_dir_b_z,sun_flag,power_consumption\n";
    const char* sep = c.Of<const char*>({",", ", ", " ,"});
    for (auto& r : rows) s += Num(r.t) + sep + Num(r.sun[0]) + sep + Num(r.sun[1]) + sep + Num(r.sun[2]) + sep + std::to_string(r.flag) + sep + Num(r.load) + "\n";
    return s;
  }
};
static Scenario MakeScenario(Case& c, double first, double dt) {
  Scenario s;
  double t = first;
  const bool days = !c.Int(0, 9);  // a long record
  for (int n = (int)(c.Int(0, 29) ? c.Int(1, 12) : c.Int(13, 200)); n-- > 0;) {
    s.rows.push_back({t, c.Int(0, 2) ? c.Dir() : c.Real(0.1, 3) * c.Dir(), (int)c.Int(0, 1), c.Int(0, 3) ? c.Int(0, 9) ? c.Real(0, 12) : c.LogReal(12, 1e6) : 0});
    t += c.Bool() ? dt * (double)c.Int(1, 8) : days ? c.LogReal(1000, 1e6) : c.LogReal(0.01, 1000);
  }
  return s;
}
static std::string Install(Case& c, const Scenario& s, bool enabled) {
  const std::string d = c.TempDir() + "/";
  mission::Spit(d + "scenario.csv", s.Text(c));
  mission::Spit(d + "scenario.ini", std::string("[SCENARIO]\nis_csv_scenario_enabled=") + (enabled ? "true" : "false") + "\ncsv_path=" + d + "scenario.csv\n");
  co::CsvScenarioInterface::Initialize(d + "scenario.ini");
  return d;
}
static void Scenarios(Case& c) {
  mission::Quiet quiet;
  for (int k = 0, n = (int)c.Int(1, 3); k < n; k++) {
    const Scenario s = MakeScenario(c, c.Int(0, 2) ? 0 : c.Signed(0.1, 100), 1);
    const bool on = c.Bool();
    Install(c, s, on);
    c.Note("scenario ", k, ": ", s.rows.size(), " rows from ", s.rows[0].t, on ? " on; " : " off; ");
    c.Check(co::CsvScenarioInterface::IsCsvScenarioEnabled() == on, "enabled");
    for (int q = 0; q < 20; q++) {
      const Row& near = s.rows[c.Int(0, s.rows.size() - 1)];
      double t = c.Bool() ? near.t : c.Bool() ? near.t + c.Signed(1e-6, 100) : c.Bool() ? c.Real(-200, 5000) : c.Real(-200, 1.2 * s.rows.back().t + 100);
      const Row* r = s.At(t);
      const Row none{0, {0, 0, 0}, 0, 0};
      if (!r) r = &none, c.Label("before the first row");
      Near3(c, R(co::CsvScenarioInterface::GetSunDirectionBody(t)), r->sun, 0, 0, "scenario-sun", "at " + Num(t));
      c.Check(co::CsvScenarioInterface::GetSunFlag(t) == (r->flag != 0), "scenario-flag", "at ", t);
      c.Near(co::CsvScenarioInterface::GetPowerConsumption(t), r->load, 0, 0, "scenario-load", "at " + Num(t));
    }
    if (k > 0) c.NonTrivial();
  }
}
// damaged scenario files are rejected or read, never followed past their end
static void Damaged(Case& c) {
  mission::Quiet quiet;
  const std::string d = c.TempDir() + "/";
  Scenario s = MakeScenario(c, 0, 1);
  std::string t = s.Text(c);
  for (int n = (int)c.Int(1, 4); n-- > 0;) {
    const size_t p = c.Int(0, t.size() - 1);
    switch (c.Int(0, 3)) {
      case 0: t.resize(p); break;
      case 1: t[p] = c.Of<char>({',', '\n', 'x', '-', ' ', '9', '\0'}); break;
      case 2: t.erase(p, c.Int(1, 12)); break;
      default: t.insert(p, c.Word(",\n x-9.e", 1, 10)); break;
    }
    if (t.empty()) t = "\n";
  }
  c.Note("file of ", t.size(), " bytes: ", t.substr(0, 300));
  mission::Spit(d + "a.csv", t);
  mission::Spit(d + "a.ini", "[SCENARIO]\nis_csv_scenario_enabled=true\ncsv_path=" + d + "a.csv\n");
  try {
    co::CsvScenarioInterface::Initialize(d + "a.ini");
    for (double q : {-1.0, 0.0, 3.0, 1e9}) (void)co::CsvScenarioInterface::GetSunDirectionBody(q), (void)co::CsvScenarioInterface::GetSunFlag(q), (void)co::CsvScenarioInterface::GetPowerConsumption(q);
    c.Label("read");
  } catch (const std::exception&) {
    c.Label("rejected");
  }
  bool missing = false;
  mission::Spit(d + "b.ini", "[SCENARIO]\nis_csv_scenario_enabled=true\ncsv_path=" + d + "nothing.csv\n");
  try {
    co::CsvScenarioInterface::Initialize(d + "b.ini");
  } catch (const std::exception&) {
    missing = true;
  }
  c.Check(missing, "scenario-missing", "a scenario file that does not exist is taken for an empty one");
  c.NonTrivial();
}
// ---------------------------------------------------------------- the power system
struct Panel {
  int id, prescaler, series, parallel;
  double area, eta, eta_t;
  V3 normal;
  double power = 0;
  std::string Ini() const {
    return "[SOLAR_ARRAY_PANEL_" + std::to_string(id) + "]\nprescaler=" + std::to_string(prescaler) + "\ncell_area_m2=" + Num(area) + "\n" + List("normal_vector_b", normal, 3) + "cell_efficiency=" + Num(eta) +
           "\ntransmission_efficiency=" + Num(eta_t) + "\nnumber_of_series=" + std::to_string(series) + "\nnumber_of_parallel=" + std::to_string(parallel) + "\n";
  }
};
struct Cell {
  int id, prescaler, series, parallel;
  double capacity, dod, rate, cv, resistance;
  std::vector<double> curve;
  double current = 0;
  double Voltage() const {
    double v = 0, x = dod / 100 * capacity;
    for (size_t i = curve.size(); i-- > 0;) v = v * x + curve[i];
    return v * series;
  }
  double Slope() const {  // bound of |dV / d(dod)|
    double v = 0, x = std::fabs(dod / 100 * capacity) + 1;
    for (size_t i = curve.size(); i-- > 1;) v = v * x + i * std::fabs(curve[i]);
    return v * series * capacity / 100;
  }
  std::string Ini() const {
    return "[BATTERY_" + std::to_string(id) + "]\nprescaler=" + std::to_string(prescaler) + "\nnumber_of_series=" + std::to_string(series) + "\nnumber_of_parallel=" + std::to_string(parallel) +
           "\ncell_capacity_Ah=" + Num(capacity) + "\napproximation_order=" + std::to_string(curve.size() - 1) + "\n" + List("cell_discharge_curve_coefficients", curve, (int)curve.size()) + "initial_dod=" + Num(dod) +
           "\nconstant_charge_current_rate_C=" + Num(rate) + "\nconstant_voltage_charge_voltage_V=" + Num(cv) + "\nbattery_resistance_Ohm=" + Num(resistance) + "\n";
  }
};
static void System(Case& c) {
  mission::Quiet quiet;
  const bool scripted = c.Int(0, 2) == 0;
  const double dt = c.Of<double>({0.1, 1, 10, 0.01, 60});
  Scenario sc = MakeScenario(c, 0, dt);
  const std::string d = Install(c, sc, scripted);
  Rig rig;
  s2e::environment::SolarRadiationPressureEnvironment srp(&rig.local);
  srp.IsCalcEnabled = true;
  std::vector<Panel> pan(c.Int(1, 4));
  std::string ini;
  for (size_t i = 0; i < pan.size(); i++) {
    pan[i] = {(int)i + 1, (int)c.Int(0, 3), (int)c.Int(1, 10), (int)c.Int(1, 8), c.LogReal(1e-4, 0.01), c.Real(0.1, 0.4), c.Real(0.5, 1), c.Int(0, 2) ? c.Dir() : c.Real(0.2, 4) * c.Dir()};
    ini += pan[i].Ini();
  }
  mission::Spit(d + "sap.ini", ini);
  Cell bat;
  bat.id = (int)c.Int(1, 9), bat.prescaler = (int)c.Int(0, 3), bat.series = (int)c.Int(1, 8), bat.parallel = (int)c.Int(1, 4), bat.capacity = c.Real(1, 5);
  bat.dod = c.Int(0, 3) ? c.Real(0, 90) : c.Of<double>({0, 20, 100});
  // a falling curve between 4.2 V and about 3 V
  bat.curve = {c.Real(4.0, 4.3), -c.Real(0.1, 1.0) / bat.capacity};
  if (c.Bool()) bat.curve.push_back(-c.Real(0, 0.3) / std::pow(bat.capacity, 2)), bat.curve.push_back(c.Real(-0.2, 0.2) / std::pow(bat.capacity, 3));
  if (c.Int(0, 5) == 0) bat.curve = {4.0};
  bat.rate = c.Real(0.01, 1), bat.resistance = c.LogReal(1e-3, 1);
  bat.cv = bat.Voltage() + bat.series * c.Real(-0.05, 0.4);
  mission::Spit(d + "bat.ini", bat.Ini());
  const int pcu_prescaler = (int)c.Int(0, 3);
  mission::Spit(d + "pcu.ini", "[PCU_INITIAL_STUDY_2]\nprescaler=" + std::to_string(pcu_prescaler) + "\n");
  c.Note(scripted ? "scenario of " + std::to_string(sc.rows.size()) + " rows, " : "", pan.size(), " panels, step ", dt, ", battery ", bat.series, "s", bat.parallel, "p ", bat.capacity, " Ah, dod ", bat.dod, " R ", bat.resistance, " cc ", bat.rate, " cv ", bat.cv,
         " from ", bat.Voltage(), " V, prescalers ", bat.prescaler, " ", pcu_prescaler);
  // battery before or after the panels
  const bool first = c.Bool();
  std::unique_ptr<co::Battery> battery;
  std::vector<std::unique_ptr<co::SolarArrayPanel>> panels;
  auto make_battery = [&] { battery.reset(new co::Battery(co::InitBAT(&rig.clock, bat.id, d + "bat.ini", dt))); };
  if (first) make_battery();
  std::vector<co::SolarArrayPanel*> list;
  for (auto& p : pan) {
    const bool without_sun = scripted && c.Bool();
    panels.emplace_back(new co::SolarArrayPanel(without_sun ? co::InitSAP(&rig.clock, p.id, d + "sap.ini", &srp, dt) : co::InitSAP(&rig.clock, p.id, d + "sap.ini", &srp, &rig.local, dt)));
    list.push_back(panels.back().get());
  }
  if (!first) make_battery();
  co::PcuInitialStudy pcu(co::InitPCU_InitialStudy(&rig.clock, 2, d + "pcu.ini", list, battery.get(), dt));
  c.Near(battery->GetVoltage_V(), bat.Voltage(), 1e-9, 1e-12, "initial-voltage");
  c.Near(battery->GetCcChargeCurrent_C(), bat.rate * bat.capacity * bat.parallel, 1e-12, 1e-12, "cc-current");
  c.Check(battery->GetCvChargeVoltage_V() == bat.cv && battery->GetResistance_Ohm() == bat.resistance && battery->GetCellCapacity_Ah() == bat.capacity && battery->GetNumberOfParallel() == bat.parallel, "battery-settings");
  V3 sun = {kAu, 0, 0}, r{7e6, 0, 0};
  Q4 q{0, 0, 0, 1};
  double bus = 0, load = 0, drift = 1e-13;
  int charging[4] = {0, 0, 0, 0};
  const int n = (int)c.Int(1, 60);
  for (int k = 0; k < n; k++) {
    const std::string at = "tick " + std::to_string(k);
    if (k == 0 || c.Chance(0.2)) {
      sun = kAu * c.Real(0.9, 1.1) * c.Dir();
      r = c.Int(0, 2) ? 7e6 * c.Dir() : 7e6 * Aside(c, -1 * ref::Unit(sun), c.Real(0.9, 1.3));
      q = c.Quat();
      if (c.Bool()) {  // a panel faces the Sun
        const V3 a = ref::Unit(pan[0].normal), s = ref::Unit(sun), ax = ref::Cross(a, s);
        if (ref::Norm(ax) > 1e-6) q = ref::AxisAngle(ref::Unit(ax), ref::Angle(a, s));
      }
      rig.body[10] = sun;
      rig.Update(r, {0, 0, 0}, q);
      srp.UpdateAllStates();
    }
    rig.clock.TickToComponents();
    // reference in the order of registration
    auto tick_battery = [&] {
      if (k % std::max(1, bat.prescaler)) return;
      bat.dod -= 100 * bat.current * dt * std::max(1, bat.prescaler) / 3600 / (bat.capacity * bat.parallel);
    };
    const Row* row = scripted ? sc.At(k * dt * (1 + 1e-13)) : nullptr;  // rows coincide with ticks
    const Row* row_low = scripted ? sc.At(k * dt * (1 - 1e-13)) : nullptr;
    if (scripted && row != row_low && !(row_low == nullptr && k == 0)) {
      // a row at this very tick: the tick time is computed the same way by the components
      row = sc.At(dt * k);
    }
    if (first) tick_battery();
    double generation = 0;
    for (size_t i = 0; i < pan.size(); i++) {
      Panel& p = pan[i];
      if (k % std::max(1, p.prescaler) == 0) {
        const double cells = p.eta * p.eta_t * p.area * p.series * p.parallel;
        const V3 nrm = ref::Unit(p.normal);
        double light, incidence;
        if (scripted) {
          light = row->flag ? srp.GetSolarConstant_W_m2() : 0;
          incidence = ref::Dot(nrm, ref::Unit(row->sun));
        } else {
          const double distance = ref::Norm(sun - r) / kAu;
          light = srp.GetSolarConstant_W_m2() / (distance * distance) * srp.GetShadowCoefficient();
          incidence = ref::Dot(nrm, ref::Unit(ref::ToFrame(q, sun - r)));
          if (srp.GetShadowCoefficient() == 0) c.Label("umbra");
          else if (srp.GetShadowCoefficient() < 1) c.Label("penumbra");
        }
        p.power = std::max(0.0, cells * light * incidence);
        if (incidence < 0) c.Label("back side lit");
      }
      const double got = panels[i]->GetPowerGeneration_W();
      c.Near(got, p.power, 1e-9 * std::max(1.0, p.area * p.series * p.parallel * 1400), 1e-9, "array-power", at + " panel " + std::to_string(i));
      c.Check(got >= 0, "array-power", at, ": negative");
      if (!scripted && srp.GetShadowCoefficient() == 0 && k % std::max(1, p.prescaler) == 0) c.Check(got == 0, "array-power", at, ": power in the umbra");
      generation += p.power;
      const auto log = rig::Numbers(rig::LogValue(*panels[i]));
      c.Near(log.at(0), got, 1e-12, 2e-5, "log", "panel power");
    }
    if (!first) tick_battery();
    if (k % std::max(1, pcu_prescaler) == 0) {
      load = scripted ? row->load : 5.0;
      const double v = bat.Voltage(), R = bat.resistance, cc = bat.rate * bat.capacity * bat.parallel;
      const double disc = v * v + 4 * R * (generation - load);
      if (disc < 0.01 * v * v) {
        c.Label("overload");
        return;  // no bus voltage carries this load
      }
      const double natural = (-v + std::sqrt(disc)) / (2 * R), cv = (bat.cv - v) / R;
      bat.current = std::min(natural, std::min(cc, cv));
      charging[natural <= std::min(cc, cv) ? (natural < 0 ? 0 : 1) : cc < cv ? 2 : 3]++;
      bus = v + R * bat.current;
    }
    if (bat.dod < -10 || bat.dod > 110) {
      c.Label("beyond the curve");
      return;
    }
    // rounding in a charge current set by the battery's own voltage comes back through the charge at every tick
    drift = drift * (1 + bat.Slope() * 100 * dt * std::max(1, bat.prescaler) / 3600 / (bat.capacity * bat.parallel) / bat.resistance) + 1e-13;
    if (drift > 1e-7) {
      c.Label("unstable step");
      return;
    }
    const double sens = 1e-9 + 1e-10 * bat.Slope() + drift;
    c.Near(battery->GetVoltage_V(), bat.Voltage(), 1e-9 + sens, 1e-10, "battery-voltage", at);
    const auto bl = rig::Log(*battery), pl = rig::Log(pcu);
    c.Near(bl.at("battery_dod"), bat.dod, 1e-7, 2e-5, "depth-of-discharge", at);
    c.Near(bl.at("battery_voltage"), bat.Voltage(), 1e-6, 2e-5, "log", "battery voltage");
    const double vbus = pl.at("pcu_initial_study_bus_voltage");
    c.Near(vbus, bus, 1e-6, 2e-5, "bus-voltage", at);
    c.Near(pl.at("pcu_initial_study_power_consumption"), load, 1e-9, 2e-5, "load", at);
    if (k % std::max(1, pcu_prescaler) == 0) {
      // balance: the array covers the load and the battery, or has surplus while charging is limited
      const double i = (vbus - battery->GetVoltage_V()) / bat.resistance, slack = 4e-5 * vbus / bat.resistance * vbus + 1e-6;
      const double surplus = generation - load - i * vbus;
      c.Check(surplus > -slack, "balance", at, ": battery and load take ", -surplus, " W more than the array gives");
      c.Check(vbus < bat.cv + 3e-5 * vbus, "voltage-limit", at, ": bus ", vbus, " above ", bat.cv);
    }
    if (k % std::max(1, bat.prescaler) == 0) {
      // the battery's own view after a shift of current shows at its next tick
      if (k > 2 && (charging[0] || charging[1] || charging[2])) c.NonTrivial();
    }
  }
  const char* name[4] = {"discharge", "natural charge", "constant current", "constant voltage"};
  for (int i = 0; i < 4; i++)
    if (charging[i]) c.Label(name[i]);
}
// two batteries are independent and a copy starts with the charge of its original
static void Copies(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  const bool defaults = c.Chance(0.25);  // the constructor without timing: every tenth tick of 0.1 s in all
  const double dt = defaults ? 0.1 : c.Of<double>({0.1, 1, 10, 600});
  const int p = defaults ? 10 : (int)c.Int(1, 3);
  const double dod = c.Bool() ? c.Real(0, 90) : c.Real(-10, 160), cap = c.Real(1, 5), slope = c.Real(0.1, 1);
  std::unique_ptr<co::Battery> original(defaults ? new co::Battery(&clock, 3, 2, cap, {4.2, -slope / cap}, dod, 0.3, 12.5, 0.1)
                                                 : new co::Battery(p, &clock, 3, 2, cap, {4.2, -slope / cap}, dod, 0.3, 12.5, 0.1, dt));
  co::Battery& a = *original;
  const double v0 = 3 * (4.2 - slope * dod / 100);
  c.Near(a.GetVoltage_V(), v0, 1e-9, 0, "initial-voltage", "after construction");
  for (int k = 0; k < 2 * p; k++) clock.TickToComponents();
  c.Near(a.GetVoltage_V(), v0, 1e-9, 0, "no-current", "without a commanded current");
  const double i = c.Signed(0.01, 3);
  a.SetChargeCurrent(i);
  std::vector<std::unique_ptr<co::Battery>> b;
  const int n = (int)c.Int(1, 30);
  double soc = 0;
  for (int k = 0; k < n; k++) {
    clock.TickToComponents();
    if ((k + 2 * p) % p == 0) soc += i * dt * p / 3600 / (cap * 2);
    c.Near(a.GetVoltage_V(), v0 + 3 * slope * soc, 1e-9, 1e-12, "charge-counting", "tick " + std::to_string(k));
  }
  b.emplace_back(new co::Battery(a));
  c.Near(b[0]->GetVoltage_V(), a.GetVoltage_V(), 1e-12, 0, "copy");
  const double keep = b[0]->GetVoltage_V();
  for (int k = 0; k < 3 * p; k++) clock.TickToComponents();
  c.Near(b[0]->GetVoltage_V(), keep, 1e-12, 0, "copy", "a copy has no current of its own");
  // given the same current, the two count the same charge from here on
  const double va = a.GetVoltage_V();
  b[0]->SetChargeCurrent(i);
  for (int k = 0; k < 2 * p; k++) clock.TickToComponents();
  c.Near(b[0]->GetVoltage_V() - keep, a.GetVoltage_V() - va, 1e-9, 1e-12, "copy", "charge counted by the copy");
  if (std::fabs(soc) * 100 > dod || dod > 100) c.Label("beyond full or empty");
  c.NonTrivial(n > 3);
}
// ---------------------------------------------------------------- the ports of the power control unit
static void Ports(Case& c) {
  mission::Quiet quiet;
  s2e::environment::ClockGenerator clock;
  co::PowerControlUnit pcu(c.Bool() ? 1 : (int)c.Int(1, 5), &clock);
  struct P {
    double limit, vmin, power, v = 0;
    bool on = false;
  };
  std::map<int, P> model;
  int ops = 0;
  for (int n = (int)c.Int(1, 60); n-- > 0;) {
    const int id = (int)c.Int(0, 6);
    const bool have = model.count(id);
    switch (c.Int(0, 5)) {
      case 0: {
        P p{c.LogReal(0.1, 10), 3.3, 0};
        const int r = pcu.ConnectPort(id, p.limit);
        c.Check(r == (have ? -1 : 0), "connect", "port ", id, " returned ", r);
        if (!have) model[id] = p;
        break;
      }
      case 1: {
        P p{c.LogReal(0.1, 10), c.Real(1, 10), c.Real(0, 20)};
        const int r = pcu.ConnectPort(id, p.limit, p.vmin, p.power);
        c.Check(r == (have ? -1 : 0), "connect", "port ", id, " returned ", r);
        if (!have) model[id] = p;
        break;
      }
      case 2: {
        const int r = pcu.ClosePort(id);
        c.Check(r == (have ? 0 : -1), "close", "port ", id, " returned ", r);
        model.erase(id);
        break;
      }
      case 3:
        if (have) {
          P& p = model[id];
          const double v = c.Bool() ? c.Real(0, 15) : p.vmin;
          const bool got = pcu.GetPowerPort(id)->SetVoltage_V(v);
          p.v = v, p.on = v >= p.vmin;
          if (p.on && v > 0 && p.power / v >= p.limit) p.on = false, p.v = 0;
          c.Check(got == p.on, "switch", "port ", id, " at ", v, " V is ", got ? "on" : "off");
          ops++;
        }
        break;
      case 4:
        if (have) {
          P& p = model[id];
          const double w = c.Real(0, 5);
          if (c.Bool()) pcu.GetPowerPort(id)->AddAssumedPowerConsumption_W(w), p.power += w;
          else pcu.GetPowerPort(id)->SubtractAssumedPowerConsumption_W(w), p.power = std::max(0.0, p.power - w);
          const bool got = pcu.GetPowerPort(id)->Update();
          p.on = p.v >= p.vmin;
          if (p.on && p.v > 0 && p.power / p.v >= p.limit) p.on = false, p.v = 0;
          c.Check(got == p.on, "update", "port ", id);
        }
        break;
      default: clock.TickToComponents();
    }
    for (auto& m : model) {
      const co::PowerPort* p = pcu.GetPowerPort(m.first);
      c.Check(p != nullptr, "port", "port ", m.first, " is missing");
      if (!p) continue;
      c.Check(p->GetIsOn() == m.second.on, "state", "port ", m.first);
      c.Near(p->GetVoltage_V(), m.second.v, 0, 0, "voltage", "port " + std::to_string(m.first));
      c.Near(p->GetAssumedPowerConsumption_W(), m.second.power, 1e-12, 0, "power", "port " + std::to_string(m.first));
    }
  }
  c.NonTrivial(ops > 2);
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C06", "scenarios: a second scenario replaced the first; system: several battery updates under current; ports: at least three switching operations",
                   {{"system", System, 2500, 60000, 25}, {"scenarios", Scenarios, 1500, 30000, 50}, {"damaged", Damaged, 4000, 100000, 50}, {"copies", Copies, 1000, 20000, 50}, {"ports", Ports, 4000, 80000, 100}});
}
