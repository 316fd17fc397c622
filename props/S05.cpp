// link: sim
#include <components/base/component.hpp>
#include <cstring>
#include <map>
#include <memory>
#include "mission.hpp"
#include "pbt.hpp"
#include "suite.hpp"
using pbt::Case;
using namespace s2e;

struct Counts {
  long main = 0, fast = 0, off = 0;
  bool operator==(const Counts& o) const { return main == o.main && fast == o.fast && off == o.off; }
};
struct Probe : components::Component {
  Counts n;
  std::vector<int> at;
  Probe(unsigned p, environment::ClockGenerator* g, unsigned f) : Component(p, g, f) {}
  Probe(unsigned p, environment::ClockGenerator* g, components::PowerPort* pp, unsigned f) : Component(p, g, pp, f) {}
  void MainRoutine(const int t) override { n.main++, at.push_back(t); }
  void FastUpdate() override { n.fast++; }
  void PowerOffRoutine() override { n.off++; }
};
// reference supply port
struct Port {
  double vmin, limit, power, volt = 0, current = 0;
  bool on = false;
  int near = 0;  // decision within rounding of a threshold
  void Update() {
    near = std::fabs(volt - vmin) < 1e-9 && volt != vmin;
    if (volt >= vmin) {
      on = true, current = power / volt;
      if (std::fabs(current - limit) < 1e-9 && current != limit) near = 1;
      if (current >= limit) on = false, current = 0, volt = 0;
    } else
      on = false, current = 0;
  }
};
static void History(Case& c) {
  environment::ClockGenerator gen;
  gen.ClearTimerCount();
  struct Item {
    std::unique_ptr<Probe> p;
    Counts want;
    std::vector<int> want_at;
    unsigned pre, fast;
    int port;  // index or -1 for its own always-on port
    bool needs_fast;
  };
  struct Supply {
    std::unique_ptr<components::PowerPort> p;
    Port m;
  };
  std::vector<Item> items;
  std::vector<Supply> ports;
  long tick = 0;
  const int steps = (int)c.Int(3, 60);
  int kinds = 0;
  for (int s = 0; s < steps; s++) {
    const int op = (int)c.Int(0, 11);
    if (op <= 2) {
      const long n = c.Chance(0.2) ? c.Int(1, 400) : c.Int(1, 20);
      for (long i = 0; i < n; i++) {
        for (auto& it : items) {
          const bool on = it.port < 0 || ports[it.port].m.on;
          if (tick % it.pre == 0) {
            if (on) it.want.main++, it.want_at.push_back((int)tick);
            else it.want.off++;
          }
          if (it.needs_fast && tick % it.fast == 0) (on ? it.want.fast : it.want.off)++;
        }
        gen.TickToComponents();
        tick++;
      }
      c.Note("tick ", n);
      kinds |= 1;
    } else if (op <= 4 && items.size() < 6) {
      const unsigned pre = (unsigned)c.Int(0, 12), fast = (unsigned)c.Int(0, 5);
      const int port = ports.empty() || c.Chance(0.3) ? -1 : (int)c.Int(0, (int)ports.size() - 1);
      Item it;
      it.p.reset(port < 0 ? new Probe(pre, &gen, fast) : new Probe(pre, &gen, ports[port].p.get(), fast));
      it.pre = std::max(1u, pre), it.fast = std::max(1u, fast), it.port = port;
      it.needs_fast = c.Bool();
      it.p->SetNeedsFastUpdate(it.needs_fast);
      items.push_back(std::move(it));
      c.Note("new component prescaler ", pre, " fast ", fast, " port ", port, " needs fast ", items.back().needs_fast);
    } else if (op == 5 && !items.empty() && items.size() < 8) {
      const int i = (int)c.Int(0, (int)items.size() - 1);
      Item it;
      it.p.reset(new Probe(*items[i].p));
      it.want = items[i].want, it.want_at = items[i].want_at, it.pre = items[i].pre, it.fast = items[i].fast, it.port = items[i].port;
      it.needs_fast = items[i].needs_fast;
      items.push_back(std::move(it));
      c.Note("copy ", i);
      kinds |= 2;
    } else if (op == 6 && !items.empty()) {
      const int i = (int)c.Int(0, (int)items.size() - 1);
      items.erase(items.begin() + i);
      c.Note("destroy ", i);
      kinds |= 4;
    } else if (op == 7 && ports.size() < 4) {
      Supply p;
      p.m.limit = c.Real(0.1, 5);
      if (c.Bool()) {
        p.p.reset(new components::PowerPort((int)ports.size(), p.m.limit));
        p.m.vmin = 3.3, p.m.power = 0;
      } else {
        p.m.vmin = c.Of<double>({1.0, 3.3, 5.0, 12.0, 28.0}), p.m.power = c.Bool() ? 0 : c.Real(0, 30);
        p.p.reset(new components::PowerPort((int)ports.size(), p.m.limit, p.m.vmin, p.m.power));
      }
      ports.push_back(std::move(p));
      c.Note("new port limit ", ports.back().m.limit, " min ", ports.back().m.vmin, " power ", ports.back().m.power);
    } else if (!ports.empty()) {
      const int i = (int)c.Int(0, (int)ports.size() - 1);
      Supply& p = ports[i];
      switch (op % 7) {
        case 1: {
          const double v = c.Of<double>({0.0, p.m.vmin, p.m.vmin + c.Real(0.01, 20), p.m.vmin - c.Real(0.01, 0.9), 5.0, 12.0});
          p.m.volt = v, p.m.Update();
          const bool on = p.p->SetVoltage_V(v);
          c.Check(on == p.m.on || p.m.near, "port-return", on);
          c.Note("port ", i, " voltage ", v);
          kinds |= 8;
          break;
        }
        case 2: {
          const double w = c.Bool() ? c.Real(0, 30) : p.m.limit * p.m.vmin * c.Of<double>({0.5, 0.99, 1.0, 1.01});
          switch (c.Int(0, 3)) {
            case 0: p.p->SetAssumedPowerConsumption_W(w), p.m.power = w; break;
            case 1: p.p->AddAssumedPowerConsumption_W(w), p.m.power += w; break;
            case 2: p.p->SubtractAssumedPowerConsumption_W(w), p.m.power = std::max(0.0, p.m.power - w); break;
            default: p.p->SetCurrentLimit_A(w / 10 + 0.01), p.m.limit = w / 10 + 0.01;
          }
          c.Note("port ", i, " power ", p.m.power, " limit ", p.m.limit);
          break;
        }
        case 3: {
          const double v = c.Real(0.5, 20);
          p.p->SetMinimumVoltage_V(v), p.m.vmin = v;
          c.Note("port ", i, " minimum ", v);
          break;
        }
        default:
          p.m.Update();
          p.p->Update();
          c.Note("port ", i, " update");
      }
      if (p.m.near) {  // within rounding: follow the code
        p.m.on = p.p->GetIsOn(), p.m.volt = p.p->GetVoltage_V(), p.m.current = p.p->GetCurrentConsumption_A(), p.m.near = 0;
      }
    }
    for (size_t i = 0; i < items.size(); i++) {
      const Counts &g = items[i].p->n, &w = items[i].want;
      c.Check(g.main == w.main, "main-count", "component ", i, " main routine ran ", g.main, " times, expected ", w.main, " after ", tick, " ticks");
      c.Check(g.fast == w.fast, "fast-count", "component ", i, " fast routine ran ", g.fast, " times, expected ", w.fast, " after ", tick, " ticks");
      c.Check(g.off == w.off, "off-count", "component ", i, " power-off routine ran ", g.off, " times, expected ", w.off, " after ", tick, " ticks");
      c.Check(items[i].p->at == items[i].want_at, "main-time", "component ", i, " given wrong tick numbers");
    }
    for (size_t i = 0; i < ports.size(); i++) {
      const auto& p = ports[i];
      c.Check(p.p->GetIsOn() == p.m.on, "port-on", "port ", i, " is on: ", p.p->GetIsOn(), " expected ", p.m.on);
      c.Near(p.p->GetCurrentConsumption_A(), p.m.current, 1e-12, 1e-12, "port-current");
      c.Near(p.p->GetVoltage_V(), p.m.volt, 0, 0, "port-voltage");
      c.Near(p.p->GetAssumedPowerConsumption_W(), p.m.power, 1e-9, 1e-12, "port-power");
    }
  }
  c.NonTrivial(tick > 0 && items.size() >= 1 && kinds >= 8);
}
// whatever the tick number, the routine of a tick depends on its remainder
static void Numbers(Case& c) {
  environment::ClockGenerator gen;
  const unsigned pre = (unsigned)c.EdgeInt(0, c.Bool() ? 100 : 100000), fast = (unsigned)c.EdgeInt(0, c.Bool() ? 10 : 100000);
  components::PowerPort* port = new components::PowerPort(0, 10.0, 5.0, 1.0);
  const bool on = c.Bool();
  port->SetVoltage_V(on ? 5.5 : 0);
  Probe p(pre, &gen, port, fast);
  Counts want;
  std::vector<int> at;
  const unsigned p1 = std::max(1u, pre), f1 = std::max(1u, fast);
  for (int k = (int)c.Int(1, 30); k-- > 0;) {
    const unsigned t = (unsigned)(c.Bool() ? c.EdgeInt(0, 0xffffffffll) : p1 * c.Int(0, 0xffffffffll / p1 - 1) + c.Int(0, 1));
    p.Tick(t);
    if (t % p1 == 0) {
      if (on) want.main++, at.push_back((int)t);
      else want.off++;
    }
    const unsigned q = (unsigned)(c.Bool() ? c.EdgeInt(0, 0xffffffffll) : f1 * c.Int(0, 0xffffffffll / f1 - 1) + c.Int(0, 1));
    p.FastTick(q);
    if (q % f1 == 0) (on ? want.fast : want.off)++;
    c.Check(p.n == want && p.at == at, "numbered", "prescalers ", pre, " ", fast, " on ", on, " tick ", t, " fast tick ", q, ": main ", p.n.main, " of ", want.main, " fast ", p.n.fast, " of ", want.fast, " off ", p.n.off, " of ", want.off);
  }
  c.NonTrivial(p1 > 1 && want.main + want.off > 0);
  delete port;
}
// Components of several spacecraft in one mission tick on the component schedule only.
struct Set : spacecraft::InstalledComponents {
  std::vector<std::unique_ptr<Probe>> v;
};
static void Mission(Case& c) {
  mission::Quiet q;
  mission::Settings s(c);
  const long n = c.Int(1, 6), steps = c.Int(5, 60);
  const double step = c.Of<double>({0.1, 0.25, 1.0});
  const double per = step * (double)n;
  mission::SetTime(s, "2020/02/29 23:59:50.0", step * 1000, step, step, step, step, step, step, step, per, step);
  const int crafts = (int)c.Int(1, 3);
  for (int i = 0; i < crafts; i++) {
    if (i) s.AddSpacecraft(i);
    const std::string sat = s.Sat(i) + "satellite.ini";
    s.Set(sat, "ATTITUDE", "propagate_mode", "CONTROLLED");
    s.Set(sat, "ORBIT", "propagate_mode", "KEPLER");
  }
  // file-initialised port
  const double vmin = c.Real(1, 20), w = c.Real(0.1, 5);
  s.Text("port.ini") = "[POWER_PORT]\nminimum_voltage_V = " + mission::Num(vmin) + "\nassumed_power_consumption_W = " + mission::Num(w) + "\n";
  std::vector<unsigned> pre;
  for (int i = 0; i < 3; i++) pre.push_back((unsigned)c.Int(1, 7));
  c.Note("period ", n, " steps, ", crafts, " spacecraft, prescalers ", pre[0], " ", pre[1], " ", pre[2]);
  mission::Mission m(s, [&](dynamics::Dynamics*, spacecraft::Structure*, const environment::LocalEnvironment*, const environment::GlobalEnvironment*, const simulation::SimulationConfiguration*,
                            environment::ClockGenerator* g, unsigned) {
    Set* k = new Set;
    for (unsigned p : pre) k->v.emplace_back(new Probe(p, g, 1));
    return k;
  });
  m.Initialize();
  long updates = 0;
  for (long k = 0; k < steps; k++) {
    m.Step();
    updates += m.Time().GetCompoUpdateFlag();
    for (int i = 0; i < crafts; i++) {
      auto& set = static_cast<Set&>(m.Sc(i).Comp());
      for (size_t j = 0; j < pre.size(); j++)
        c.Check(set.v[j]->n.main == (updates + pre[j] - 1) / pre[j], "mission-main-count", "spacecraft ", i, " prescaler ", pre[j], " ran ", set.v[j]->n.main, " times in ", updates, " updates");
    }
  }
  components::PowerPort port(1, 100.0);
  for (int k = (int)c.Int(0, 2); k-- > 0;) port.AddAssumedPowerConsumption_W(c.Real(0, 3));
  for (int k = (int)c.Int(1, 2); k-- > 0;) port.InitializeWithInitializeFile(s.Path("port.ini"));
  c.Near(port.GetAssumedPowerConsumption_W(), w, 0, 1e-12, "file-port-power");
  port.SetVoltage_V(vmin * 0.999);
  c.Check(!port.GetIsOn() && port.GetCurrentConsumption_A() == 0, "file-port-off");
  port.SetVoltage_V(vmin * 1.001);
  c.Check(port.GetIsOn(), "file-port-on");
  c.Near(port.GetCurrentConsumption_A(), w / (vmin * 1.001), 1e-12, 1e-9, "file-port-current");
  c.NonTrivial(n > 1 && crafts > 1);
}
// Every kind of component runs once per prescale of its file, with or without a supply: its outputs change then and only then.
static const struct { suite::Part part; const char *file, *section, *column; bool moves; } kKinds[] = {
    {suite::kGyro, "gyro_sensor", "GYRO_SENSOR_1", "gyro_sensor", true},
    {suite::kMag, "magnetometer", "MAGNETOMETER_1", "magnetometer", true},
    {suite::kStt, "star_sensor", "STAR_SENSOR_1", "stt", true},
    {suite::kSun, "sun_sensor", "SUN_SENSOR_1", "sun_sensor", false},
    {suite::kGnss, "gnss_receiver", "GNSS_RECEIVER_1", "gnss", false},
    {suite::kMtq, "magnetorquer", "MAGNETORQUER_1", "magnetorquer", true},
    {suite::kRw, "reaction_wheel", "REACTION_WHEEL_1", "rw", true},
    {suite::kThruster, "thruster", "THRUSTER_1", "simple_thruster", true},
    {suite::kForce, "force_generator", "COMPONENT_BASE", "ideal_force", true},
    {suite::kTorque, "torque_generator", "COMPONENT_BASE", "ideal_torque", true},
    {suite::kRate, "angular_velocity_observer", "COMPONENT_BASE", "angular_velocity_observer", true},
    {suite::kAttitude, "attitude_observer", "COMPONENT_BASE", "attitude_observer", true},
    {suite::kOrbit, "orbit_observer", "COMPONENT_BASE", "orbit_observer", true},
    {suite::kPower, "solar_array_panel", "SOLAR_ARRAY_PANEL_1", "sap", false},
    {suite::kPower, "battery", "BATTERY_1", "battery", false},
};
static void Periods(Case& c) {
  mission::Quiet q;
  mission::Settings s(c);
  const double step = c.Of<double>({0.1, 0.25, 0.5});
  const long updates = c.Int(10, 40);
  mission::SetTime(s, "2020/01/01 00:00:00.0", step * 1000, step, step, step, step, step, step, step, step, step);
  s.Set("sample_satellite/satellite.ini", "ORBIT", "propagate_mode", "KEPLER");
  unsigned mask = 1u << suite::kPowerUnit;
  int pre[std::size(kKinds)];
  std::string text;
  for (size_t i = 0; i < std::size(kKinds); i++) {
    const auto& k = kKinds[i];
    mask |= 1u << k.part;
    const int n = c.Int(0, 3) ? (int)c.Int(0, 12) : (int)c.Int(1, 40);
    pre[i] = std::max(1, n);
    s.Set(std::string("sample_satellite/components/") + k.file + ".ini", k.section, "prescaler", std::to_string(n));
    text += std::string(k.column) + " " + std::to_string(n) + ", ";
  }
  const bool powered = c.Bool();
  if (powered) mask |= 1u << suite::kParts;
  s.Set("sample_satellite/components/star_sensor.ini", "STAR_SENSOR_1", "output_delay_s", "0");
  s.Set("sample_satellite/components/star_sensor.ini", "STAR_SENSOR_1", "output_interval_s", "0");
  s.Set("sample_satellite/components/reaction_wheel.ini", "REACTION_WHEEL_1", "dead_time_s", "0");
  c.Note(text, powered ? "powered" : "no supply", ", ", updates, " updates of ", step, " s");
  suite::Fleet fleet;
  mission::Mission m(s, fleet.Make({mask}));
  m.Initialize();
  auto& comp = *fleet.of.at(0);
  std::map<std::string, std::vector<double>> last;
  auto snapshot = [&] {
    suite::Columns col;
    comp.Expect(col);
    std::map<std::string, std::vector<double>> now;
    for (auto& x : col)
      for (auto& k : kKinds)
        if (x.name.rfind(k.column, 0) == 0) now[k.column].push_back(x.value);
    return now;
  };
  last = snapshot();
  for (long t = 0; t < updates; t++) {
    comp.Drive(t % 2 ? 1 : -0.7);
    m.Step();
    auto now = snapshot();
    for (size_t i = 0; i < std::size(kKinds); i++) {
      const auto& k = kKinds[i];
      const auto &a = last[k.column], &b = now[k.column];
      const bool same = a.size() == b.size() && !b.empty() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
      const bool due = t % pre[i] == 0;
      if (!due) c.Check(same, "early", k.column, " changes at update ", t, " with a prescale of ", pre[i]);
      if (due && k.moves && t / pre[i] >= 4) c.Check(!same, "late", k.column, " does not change at update ", t, " with a prescale of ", pre[i]);
    }
    last = now;
  }
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "S05", "a history that ticks living components and switches supplies; a mission with several spacecraft and a component period of several steps",
                   {{"numbers", Numbers, 4000, 100000, 500, 20}, {"history", History, 60000, 600000, 200}, {"mission", Mission, 300, 5000, 20, 60}, {"configured periods", Periods, 300, 6000, 10, 60}});
}
