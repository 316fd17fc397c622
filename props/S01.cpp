// link: sim
#include <components/base/component.hpp>
#include <environment/global/simulation_time.hpp>
#include <logger/logger.hpp>
#include "mission.hpp"
#include "pbt.hpp"
#include <time.h>
#include <unistd.h>
#include <chrono>
// ---------------------------------------------------------------- a clock of our own
// While `on`, the clocks the simulator reads show `ns` and its sleeps advance it: pacing is decided without waiting and without jitter.
namespace wall {
static bool on = false;
static int64_t ns = 0, slept = 0;
static int64_t Read(clockid_t id) {
  struct timespec t;
  ::clock_gettime(id, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}
static int Sleep(int64_t d) {
  if (!on) return -1;
  if (d > 0) ns += d, slept += d;
  return 0;
}
}  // namespace wall
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(wall::on ? wall::ns : wall::Read(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(wall::on ? wall::ns : wall::Read(CLOCK_MONOTONIC))); }
}  // namespace _V2
}  // namespace std::chrono
extern "C" int nanosleep(const struct timespec* d, struct timespec* left) {
  if (wall::Sleep(d->tv_sec * 1000000000LL + d->tv_nsec) == 0) return 0;
  return clock_nanosleep(CLOCK_REALTIME, 0, d, left) ? -1 : 0;
}
extern "C" int usleep(useconds_t us) {
  const struct timespec d = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&d, nullptr);
}
using pbt::Case;
using namespace s2e::environment;

static int64_t DaysFromCivil(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = y / 400;
  const unsigned yoe = (unsigned)(y - era * 400), doy = (153u * (unsigned)(m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
// A step and a period that is an exact decimal multiple of it, or not a multiple.
struct Period {
  double s;  // as given
  long n;    // steps per update: ceil(period/step)
};
static double Parse(long mant, int exp) {  // mant * 10^exp, correctly rounded as a settings file would give it
  return std::stod(std::to_string(mant) + "e" + std::to_string(exp));
}
static Period AnyPeriod(Case& c, long mant, int exp, double step, long steps) {
  if (c.Chance(0.3)) return {step, 1};
  if (c.Chance(0.15)) return {step * (double)c.Int(1000000, 2000000), 1000000000};  // longer than the run
  const long n = c.Chance(0.5) ? (long)c.Int(1, 12) : (long)c.Int(1, std::max<long>(2, steps / 2));
  switch (c.Int(0, 3)) {
    case 0: return {Parse(mant * n, exp), n};
    case 1: return {(double)n * step, n};
    case 2: {
      volatile double s = 0;  // a sum, as scripts compute periods
      if (n > 300) return {(double)n * step, n};
      for (long i = 0; i < n; i++) s += step;
      return {std::max((double)s, step), n};
    }
    default: {
      double f = c.Real(0.05, 0.95);
      if (n <= 1000 && c.Chance(0.4)) f = c.LogReal(1e-3, 0.05);  // just longer than a multiple
      if (n <= 1000 && c.Chance(0.2)) f = 1 - c.LogReal(1e-3, 0.05);
      return {((double)n + f) * step, n + 1};
    }
  }
}
static void Schedule(Case& c) {
  int exp = -(int)c.Int(0, 4);
  long mant = c.Chance(0.5) ? 1 : (long)c.Int(1, 999);
  double step = Parse(mant, exp);
  if (c.Chance(0.2)) step = std::ldexp(1.0, -(int)c.Int(0, 10)), mant = (long)std::llround(step * 1e10), exp = -10;
  if (c.Chance(0.1)) step = 1.0 / (double)c.Int(3, 997), mant = 0;
  const long steps = step <= 100 && c.Chance(0.03) ? c.Int(30000, 150000) : c.Chance(0.15) ? c.Int(1, 20000) : c.Int(1, 600);
  auto period = [&] {
    if (mant == 0) {
      const long n = c.Int(1, 200);
      return c.Bool() ? Period{step * (double)n, n} : Period{step * ((double)n + 0.5), n + 1};
    }
    return AnyPeriod(c, mant, exp, step, steps);
  };
  const Period att = period(), orb = period(), th = period(), comp = period(), log = period();
  const double duration = c.Chance(0.5) ? (double)steps * step : ((double)steps + c.Real(-0.9, -0.1)) * step;
  const bool dyadic = step * 1024 == std::floor(step * 1024);
  const bool exact_end = duration == (double)steps * step;
  const int y = (int)c.Int(1970, 2098), mo = (int)c.Int(1, 12);
  const int dmax = (int)(DaysFromCivil(mo == 12 ? y + 1 : y, mo % 12 + 1, 1) - DaysFromCivil(y, mo, 1));
  const int d = c.Bool() ? dmax : (int)c.Int(1, dmax);
  const int h = c.Bool() ? 23 : (int)c.Int(0, 23), mi = c.Bool() ? 59 : (int)c.Int(0, 59);
  const double sec = c.Bool() ? (double)c.Int(0, 59) : (double)c.Int(0, 59999) / 1000;
  char start[80];
  snprintf(start, sizeof start, "%d/%02d/%02d %02d:%02d:%.3f", y, mo, d, h, mi, sec);
  c.Note("start ", start, " step ", step, " duration ", duration, " steps ", steps);
  c.Note("periods att ", att.s, " orb ", orb.s, " th ", th.s, " comp ", comp.s, " log ", log.s);
  const double fr[4] = {c.Real(0.01, 1), c.Real(0.01, 1), c.Real(0.01, 1), 0};
  SimulationTime t(duration, step, att.s, att.s * fr[0], orb.s, orb.s * fr[1], th.s, th.s * fr[2], comp.s, log.s, start, 0);
  c.Near(t.GetAttitudeRkStepTime_s(), att.s * fr[0], 0, 0, "getter");
  c.Near(t.GetOrbitRkStepTime_s(), orb.s * fr[1], 0, 0, "getter");
  c.Near(t.GetThermalRkStepTime_s(), th.s * fr[2], 0, 0, "getter");
  c.Near(t.GetAttitudeUpdateInterval_s(), att.s, 0, 0, "getter");
  c.Near(t.GetSimulationStep_s(), step, 0, 0, "getter");
  c.Near(t.GetEndTime_s(), duration, 0, 0, "getter");
  c.Near(t.GetComponentStepTime_s(), comp.s, 0, 0, "getter");
  c.Near(t.GetOrbitUpdateInterval_s(), orb.s, 0, 0, "getter");
  c.Near(t.GetThermalUpdateInterval_s(), th.s, 0, 0, "getter");
  c.Check(t.GetStartYear() == y && t.GetStartMonth() == mo && t.GetStartDay() == d && t.GetStartHour() == h && t.GetStartMinute() == mi && t.GetStartSecond() == sec, "start-date");
  c.NonTrivial(steps >= 3 && (att.n > 1 || orb.n > 1 || th.n > 1 || comp.n > 1 || log.n > 1));
  const double unix0 = (double)DaysFromCivil(y, mo, d) * 86400.0 + h * 3600 + mi * 60 + sec;
  auto clock = [&](long k) {
    const double el = (double)k * step;
    c.Near(t.GetElapsedTime_s(), el, 1e-9, 1e-11, "elapsed");
    c.Near(t.GetCurrentTime_jd(), 2440587.5 + (unix0 + el) / 86400.0, 2e-9, 0, "julian-date");
    c.Near(t.GetCurrentEphemerisTime(), unix0 - 946728000.0 + fake::kTdbMinusUtc + el, 1e-4, 0, "ephemeris-time");
    // calendar date, read back through an independent day count
    const auto& u = t.GetCurrentUtc();
    c.Check(u.month >= 1 && u.month <= 12 && u.day >= 1 && u.day <= 31 && u.hour >= 0 && u.hour < 24 && u.minute >= 0 && u.minute < 60 && u.second > -1e-4 && u.second < 60.0001,
            "calendar-range", (int)u.year, "/", (int)u.month, "/", (int)u.day, " ", (int)u.hour, ":", (int)u.minute, ":", u.second);
    const double unix = (double)DaysFromCivil(u.year, (int)u.month, (int)u.day) * 86400.0 + u.hour * 3600.0 + u.minute * 60.0 + u.second;
    c.Near(unix, unix0 + el, 2e-4, 0, "calendar");
    // the logged time of day is a valid one
    const std::string row = t.GetLogValue();
    int ly = 0, lmo = 0, ld = 0, lh = 0, lmi = 0;
    double le = 0, ls = -1;
    c.Check(sscanf(row.c_str(), "%lf,%d/%d/%d %d:%d:%lf,", &le, &ly, &lmo, &ld, &lh, &lmi, &ls) == 7, "log-time", row);
    c.Check(ls >= 0 && ls < 60, "log-seconds", row);
    c.Near((double)DaysFromCivil(ly, lmo, ld) * 86400.0 + lh * 3600.0 + lmi * 60.0 + ls, unix0 + el, 1.5e-3, 0, "log-time-value", row.c_str());
    c.Near(le, el, 1e-5, 1e-5, "log-elapsed");
    const int64_t yd = DaysFromCivil(u.year, 1, 1);
    c.Near(t.GetCurrentDecimalYear(), (double)u.year + ((unix0 + el) / 86400.0 - (double)yd) / (double)(DaysFromCivil(u.year + 1, 1, 1) - yd), 1e-9, 0, "decimal-year");
    // sidereal time: IAU 1982 polynomial
    const double T = (2440587.5 + (unix0 + el) / 86400.0 - 2451545.0) / 36525.0;
    double g = 67310.54841 + (876600.0 * 3600 + 8640184.812866) * T + 0.093104 * T * T - 6.2e-6 * T * T * T;
    g = std::fmod(g, 86400.0) / 86400.0 * 2 * M_PI;
    const double diff = std::remainder(t.GetCurrentSiderealTime() - g, 2 * M_PI);
    c.Near(diff, 0, 2e-7, 0, "sidereal-time");
  };
  clock(0);
  c.Check(t.GetState().log_output && !t.GetState().finish, "initial-state");
  struct Track {
    const char* name;
    long n, last, count;
  } tr[4] = {{"attitude", att.n, -1, 0}, {"orbit", orb.n, -1, 0}, {"thermal", th.n, -1, 0}, {"component", comp.n, -1, 0}};
  const long run = steps + 3;
  const double percent = duration / step / 100;  // steps per percent: progress is shown once for each
  long shown = 0;
  const long stride = 1 + run / 40;
  for (long k = 1; k <= run; k++) {
    t.UpdateTime();
    const bool f[4] = {t.GetAttitudePropagateFlag(), t.GetOrbitPropagateFlag(), t.GetThermalPropagateFlag(), t.GetCompoUpdateFlag()};
    for (int i = 0; i < 4; i++) {
      // first update after n-1 steps (n = 1: first step) or n steps, then every n steps
      const bool due = tr[i].last < 0 ? k == std::max<long>(1, tr[i].n - 1) : k == tr[i].last + tr[i].n;
      const bool may = tr[i].last < 0 && tr[i].n > 1 && (k == tr[i].n - 1 || k == tr[i].n);
      if (may) {
        if (k == tr[i].n) c.Check(f[i], "schedule", tr[i].name, " not updated by step ", k, " period ", tr[i].n, " steps");
      } else
        c.Check(f[i] == due, "schedule", tr[i].name, f[i] ? " updated" : " not updated", " at step ", k, ", last update at step ", tr[i].last, ", period ", tr[i].n, " steps");
      if (f[i]) tr[i].last = k, tr[i].count++;
    }
    c.Check(t.GetState().log_output == (k % log.n == 0), "log-schedule", "step ", k, " log flag ", t.GetState().log_output, " period ", log.n, " steps");
    if (t.GetState().disp_output) {
      c.Check(k - shown >= std::max<long>(1, (long)std::floor(percent - 1e-6)), "progress-often", "progress shown at step ", k, " after step ", shown, ", ", percent, " steps per percent");
      shown = k;
    }
    c.Check(k - shown <= (long)std::ceil(percent + 1e-6), "progress-seldom", "no progress shown from step ", shown, " to ", k, ", ", percent, " steps per percent");
    const double rate = 100.0 * (double)k * step / duration;
    c.Check(t.GetProgressionRate() >= std::floor(rate - 1e-6) && t.GetProgressionRate() <= std::floor(rate + 1e-6), "progress-rate", "step ", k, ": ", t.GetProgressionRate(), " of ", rate);
    const bool near_end = exact_end && k == steps;
    if (near_end && dyadic) c.Check(!t.GetState().finish, "finish-early", "finished at the end time, before exceeding it");
    if (!near_end) c.Check(t.GetState().finish == (k > steps || (!exact_end && k >= steps)), "finish", "step ", k, " of ", steps);
    if (k % stride == 0 || k >= steps) clock(k);
  }
  c.Check(t.GetState().running, "running");
}
// Whole mission from a settings file: the number of logged rows, loops and component ticks.
struct Counter : s2e::components::Component {
  std::vector<double>* times;
  const SimulationTime* t;
  Counter(s2e::environment::ClockGenerator* g, std::vector<double>* v, const SimulationTime* st) : Component(1, g), times(v), t(st) {}
  void MainRoutine(const int) override { times->push_back(t->GetElapsedTime_s()); }
};
struct CounterSet : s2e::spacecraft::InstalledComponents {
  Counter k;
  CounterSet(s2e::environment::ClockGenerator* g, std::vector<double>* v, const SimulationTime* st) : k(g, v, st) {}
};
static void Mission(Case& c) {
  mission::Quiet q;
  mission::Settings s(c);
  const double step = c.Of<double>({0.1, 0.2, 0.25, 0.05, 1.0, 0.7});
  const long steps = c.Int(2, 60);
  auto per = [&](long& n) {
    n = c.Int(1, 8);
    return std::max(step, std::round(step * (double)n * 1e9) / 1e9);
  };
  long na, no, nt, nc, nl;
  const double a = per(na), o = per(no), t = per(nt), k = per(nc), l = per(nl);
  mission::SetTime(s, "2021/12/31 23:59:50.5", step * (double)steps * (1 - 1e-9), step, a, std::min(a, 0.1), o, o, t, t, k, l);
  s.Set("sample_satellite/satellite.ini", "ORBIT", "propagate_mode", "KEPLER");
  // paced missions run on the virtual clock; time spent before the start of the run does not count
  const double speed = c.Chance(0.4) ? (c.Bool() ? c.Of<double>({1, 2, 10, 0.5}) : c.LogReal(0.05, 500)) : 0;
  s.Set(s.kBase, "TIME", "simulation_speed_setting", speed);
  struct Switch {
    ~Switch() { wall::on = false; }
  } off;
  wall::ns = (int64_t)(c.Real(1.6e9, 2.2e9) * 1e3) * 1000000, wall::slept = 0, wall::on = speed > 0;
  const double before_s = c.Bool() ? 0 : c.Real(0, 100);
  std::vector<double> ticks, shown;
  long loops = 0, expected_ticks = 0;
  std::string text;
  const std::string logs = s.LogDir();
  {
    mission::Mission m(s, [&](s2e::dynamics::Dynamics*, s2e::spacecraft::Structure*, const LocalEnvironment*, const GlobalEnvironment* g, const s2e::simulation::SimulationConfiguration*,
                              ClockGenerator* cg, unsigned) { return new CounterSet(cg, &ticks, &g->GetSimulationTime()); });
    m.Initialize();
    m.after_update = [&](mission::Mission& mm) {
      loops++;
      if (mm.Time().GetCompoUpdateFlag()) expected_ticks++;
    };
    wall::ns += (int64_t)(before_s * 1e9);
    const int64_t start = wall::ns;
    m.Main();
    c.Near(m.Time().GetElapsedTime_s(), step * (double)steps, 1e-9, 1e-9, "mission-end");
    if (speed > 0) c.Near((double)(wall::ns - start) * 1e-9, step * (double)steps / speed, 2e-3, 1e-6, "mission-pace", "wall-clock duration of the run at speed " + std::to_string(speed)), c.Label("paced");
    wall::on = false;
    text = "yes";
  }
  for (auto& e : mission::fs::recursive_directory_iterator(logs))
    if (e.path().extension() == ".csv") text = mission::Slurp(e.path());
  c.Note("step ", step, " steps ", steps, " periods ", na, " ", no, " ", nt, " ", nc, " ", nl);
  c.NonTrivial(nc > 1 || nl > 1);
  c.Check(loops == steps, "mission-steps", "loops ", loops, " expected ", steps);
  c.Check(expected_ticks == (steps + (nc > 1)) / nc || expected_ticks == steps / nc, "mission-component-updates", expected_ticks, " for ", steps, " steps, period ", nc);
  c.Check((long)ticks.size() == expected_ticks, "mission-component-ticks", ticks.size(), " ticks, ", expected_ticks, " component updates");
  // rows: one per log period from the start, the final state excluded
  std::istringstream is(text);
  std::string line;
  std::getline(is, line);
  const size_t col = [&] {
    std::istringstream h(line);
    std::string f;
    for (size_t i = 0; std::getline(h, f, ','); i++)
      if (f.compare(0, 12, "elapsed_time") == 0) return i;
    return (size_t)-1;
  }();
  c.Check(col != (size_t)-1, "mission-header", line.substr(0, 200));
  long rows = 0;
  while (std::getline(is, line)) {
    std::istringstream h(line);
    std::string f;
    for (size_t i = 0; i <= col; i++) std::getline(h, f, ',');
    c.Near(atof(f.c_str()), (double)(rows * nl) * step, 1e-4, 1e-4, "mission-log-time", line.substr(0, 100));
    rows++;
  }
  c.Check(rows == (steps - 1) / nl + 1, "mission-log-rows", rows, " rows for ", steps, " steps, log period ", nl);
}
// The speed setting paces simulated time against the wall clock and changes nothing else.
static void Pacing(Case& c) {
  mission::Quiet quiet;
  const double speed = c.Chance(0.1) ? 0 : c.Chance(0.3) ? 1 : c.Chance(0.3) ? (double)c.Int(2, 100) : c.LogReal(0.02, 2000);
  const double step = c.Chance(0.3) ? c.Of<double>({0.1, 0.01, 1, 0.5}) : c.LogReal(2e-4, 30);
  const int steps = (int)c.Int(1, 60);
  const double interval = step * (double)c.Int(1, 4);
  // between two steps the computer works for a part of the time they have, now and then for longer, now and then for long
  const double due_ms = step * 1000 / std::max(speed, 1e-9), usual = c.Real(0, 0.9), slow = c.Chance(0.5) ? 0 : c.Real(0, 0.3), stall = c.Chance(0.6) ? 0 : c.Real(0, 0.1);
  struct Switch {
    ~Switch() { wall::on = false; }
  } off;
  wall::ns = (int64_t)(c.Real(1.6e9, 2.2e9) * 1e3) * 1000000, wall::slept = 0;
  SimulationTime t(step * (steps + 5), step, interval, step, step, step, step, step, step, step, "2020/01/01 00:00:00.0", speed);
  wall::on = true;
  t.ResetClock();
  const int64_t start = wall::ns;
  int64_t met = start, released = start;  // when the last step that kept the pace was ready, and when it was released
  double elapsed = 0, worked = 0;
  int waits = 0, lags = 0, jumps = 0;
  for (int k = 1; k <= steps; k++) {
    const double work = c.Chance(stall) ? c.Real(1.5e3, 9e3) : c.Chance(slow) ? std::min(c.Real(1, 5) * due_ms, 800.0) : usual * due_ms * c.Real(0, 1);
    wall::ns += (int64_t)(speed > 0 ? std::min(work, 1e7) * 1e6 : c.Real(0, 1e9));
    worked += work;
    const int64_t before = wall::ns;
    const double before_ms = (double)(before - start) * 1e-6;
    t.UpdateTime();
    const double after_ms = (double)(wall::ns - start) * 1e-6;
    const std::string at = "step " + std::to_string(k) + " of " + std::to_string(step) + " s at speed " + std::to_string(speed);
    elapsed += step;
    if (speed == 0) {
      c.Check(wall::ns == before, "unpaced", at, ": waited");
      c.Near(t.GetElapsedTime_s(), elapsed, 1e-9 * elapsed, 0, "pace-time", at);
      continue;
    }
    const double due = elapsed * 1000 / speed, tol = 1.01 + 1.01 / speed + 1e-9 * due;  // the pace is kept in whole milliseconds
    if (before_ms < due - tol) {
      waits++, met = before, released = wall::ns;
      c.Near(after_ms, due, tol, 0, "pace-wait", at + ": wall clock in ms when the step is released, after " + std::to_string(before_ms) + " ms of work and waits");
      c.Near(t.GetElapsedTime_s(), elapsed, 1e-9 * elapsed, 0, "pace-time", at);
    } else if (before_ms <= due + tol) {  // on the edge: either
      c.Check(after_ms <= due + tol, "pace-wait", at, ": ", after_ms, " ms instead of ", due);
      if (std::fabs(t.GetElapsedTime_s() - elapsed) > 1e-9 * elapsed) c.Near(t.GetElapsedTime_s(), before_ms * 1e-3 * speed, 1e-3 * speed + 1e-9 * elapsed, 0, "pace-time", at + " on the edge");
      released = wall::ns;  // in time or behind by less than a millisecond: the two cannot be told apart
    } else {  // behind
      lags++;
      c.Check(wall::ns == before, "pace-behind", at, ": waited although the simulation is behind (", before_ms, " ms of ", due, ")");
      const double longest_ms = (double)(before - met) * 1e-6, lag_ms = (double)(before - released) * 1e-6;
      const bool jumped = std::fabs(t.GetElapsedTime_s() - elapsed) > 1e-9 * elapsed;
      if (longest_ms < 998) c.Near(t.GetElapsedTime_s(), elapsed, 1e-9 * elapsed, 0, "pace-time", at + ": " + std::to_string(lag_ms) + " ms behind");
      else if (lag_ms > 1002 || jumped) {
        jumps++, met = released = before;
        c.Near(t.GetElapsedTime_s(), before_ms * 1e-3 * speed, 2e-3 * speed + 1e-9 * elapsed, 0, "pace-catch-up", at + ": " + std::to_string(lag_ms) + " ms behind");
      }
    }
    elapsed = t.GetElapsedTime_s();
  }
  if (waits) c.Label("waits");
  if (lags) c.Label("behind");
  if (jumps) c.Label("catches up");
  if (speed == 0) c.Label("as fast as possible");
  c.NonTrivial(waits + lags >= 3);
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "S01", "at least three steps and some period longer than one step",
                   {{"schedule", Schedule, 30000, 400000, 100, 60}, {"mission", Mission, 300, 6000, 10, 60}, {"pacing", Pacing, 4000, 60000, 20, 20}}, {"wall clock and sleeps replaced by a virtual clock (facet pacing)", "SPICE clock replaced by a constant UTC-TDB offset"});
}
