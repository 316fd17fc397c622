// link: sim
#include <logger/initialize_log.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>
#include <set>
#include "rig.hpp"
#include "suite.hpp"
using pbt::Case;
using namespace rig;
using mission::Num;
using mission::Quiet;
using Executor = s2e::simulation::MonteCarloSimulationExecutor;
using Parameter = s2e::simulation::InitializedMonteCarloParameters;
using Type = Parameter::RandomizationType;
template <size_t N>
using Vec = s2e::math::Vector<N>;
static const char* kTypeName[] = {"NoRandomization",      "CartesianUniform", "CartesianNormal", "CircularNormalUniform", "CircularNormalNormal", "SphericalNormalUniformUniform",
                                  "SphericalNormalNormal", "QuaternionUniform", "QuaternionNormal"};
// ---- statistics; every bound has a false alarm probability below 1e-10
static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static void Uniform(Case& c, const char* key, const std::string& what, std::vector<double> u) {
  const double n = (double)u.size();
  double m = 0, s = 0, lag = 0;
  for (size_t i = 0; i < u.size(); i++) {
    c.Check(u[i] >= -1e-12 && u[i] <= 1 + 1e-12, key, what, ": value outside of its range, at ", u[i], " of it");
    const double d = u[i] - 0.5;
    m += d, s += d * d, lag += i ? d * (u[i - 1] - 0.5) : 0;
  }
  m /= n, s /= n, lag /= n;
  c.Near(m, 0, 6.7 * std::sqrt(1 / 12.0 / n), 0, key, what + ": mean of the probability");
  c.Near(s, 1 / 12.0, 6.7 * std::sqrt(1 / 180.0 / n), 0, key, what + ": variance of the probability");
  c.Near(lag, 0, 6.7 / 12.0 / std::sqrt(n), 0, key, what + ": successive draws are correlated");
  std::sort(u.begin(), u.end());
  double d = 0;
  for (size_t i = 0; i < u.size(); i++) d = std::max({d, u[i] - (double)i / n, (double)(i + 1) / n - u[i]});
  c.Check(d * std::sqrt(n) < 3.5, key, what, ": distribution differs from the configured one by ", d, " with ", n, " draws");
}
static void Normal(Case& c, const char* key, const std::string& what, const std::vector<double>& z) {
  const double n = (double)z.size();
  double m = 0, s = 0;
  for (double v : z) m += v, s += v * v;
  c.Near(m / n, 0, 6.7 / std::sqrt(n), 0, key, what + ": mean in standard deviations");
  c.Near(s / n, 1, 6.7 * std::sqrt(2 / n) + 20 / n, 0, key, what + ": variance relative to the configured one");
  std::vector<double> u;
  for (double v : z) u.push_back(Phi(v));
  Uniform(c, key, what, u);
}
static void Uncorrelated(Case& c, const char* key, const std::string& what, const std::vector<double>& a, const std::vector<double>& b) {
  double ma = 0, mb = 0, aa = 0, bb = 0, ab = 0;
  const double n = (double)a.size();
  for (size_t i = 0; i < a.size(); i++) ma += a[i] / n, mb += b[i] / n;
  for (size_t i = 0; i < a.size(); i++) aa += (a[i] - ma) * (a[i] - ma), bb += (b[i] - mb) * (b[i] - mb), ab += (a[i] - ma) * (b[i] - mb);
  if (aa <= 0 || bb <= 0) return;
  c.Near(ab / std::sqrt(aa * bb), 0, 7 / std::sqrt(n), 0, key, what + ": correlation");
}
// ---- a configured parameter
struct Config {
  Type type = Type::kNoRandomization;
  double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};  // mean_or_min, sigma_or_max
  std::string Say() const {
    std::string s = kTypeName[type];
    for (int i = 0; i < 3; i++) s += " " + Num(a[i]) + "|" + Num(b[i]);
    return s;
  }
};
static Config AnyConfig(Case& c, bool degenerate) {
  Config f;
  f.type = (Type)c.Int(0, 8);
  const double scale = c.LogReal(1e-4, 1e6);
  // without degenerate at most one of the variables is fixed
  bool fixed = !degenerate && c.Chance(0.25);
  auto zero = [&] {
    if (degenerate) return c.Chance(0.3);
    const bool z = fixed && c.Bool();
    fixed = fixed && !z;
    return z;
  };
  auto sigma = [&](double s) { return zero() ? 0.0 : s * c.LogReal(1e-3, 1); };
  auto angle = [&](double most) { return zero() ? 0.0 : c.Chance(0.3) ? c.Real(0.4, most) : c.LogReal(1e-3, 0.4); };
  switch (f.type) {
    case Type::kCartesianUniform:
      for (int i = 0; i < 3; i++) f.a[i] = scale * c.Real(-1, 1), f.b[i] = degenerate && c.Chance(0.3) ? f.a[i] : f.a[i] + scale * c.Real(1e-3, 2);
      break;
    case Type::kCartesianNormal:
      for (int i = 0; i < 3; i++) f.a[i] = scale * c.Real(-1, 1), f.b[i] = sigma(scale);
      break;
    case Type::kCircularNormalUniform:
    case Type::kCircularNormalNormal:
    case Type::kSphericalNormalUniformUniform: {
      f.a[0] = scale, f.b[0] = sigma(0.1 * scale);  // a radius far from zero, so that it can be told from a reversed direction
      if (f.type == Type::kCircularNormalUniform) f.a[1] = c.Real(-3, 3), f.b[1] = f.a[1] + c.Real(0.01, 3.1);
      if (f.type == Type::kCircularNormalNormal) f.a[1] = c.Real(-3, 3), f.b[1] = angle(4);
      if (f.type == Type::kSphericalNormalUniformUniform) {
        f.a[1] = c.EdgeReal(0, 3), f.b[1] = std::min(M_PI, f.a[1] + c.Real(0.05, 3.2));
        f.a[2] = c.Real(-3, 3), f.b[2] = f.a[2] + c.Real(0.01, 6.28);
      }
      break;
    }
    case Type::kSphericalNormalNormal: {
      const V3 d = c.Chance(0.2) ? V3{(double)c.Int(0, 1), (double)c.Int(0, 1), 0} : c.Dir();
      const V3 m = scale * (ref::Norm(d) > 0 ? ref::Unit(d) : V3{0, 0, -1});
      for (int i = 0; i < 3; i++) f.a[i] = m[i];
      f.b[0] = sigma(0.1 * scale), f.b[1] = angle(4);
      break;
    }
    case Type::kQuaternionNormal:
      f.b[0] = degenerate && c.Chance(0.3) ? 0.0 : c.Chance(0.3) ? c.Real(0.4, 6) : c.LogReal(1e-3, 0.8);
      break;
    default:
      break;
  }
  return f;
}
static int Dimension(Type t) { return t == Type::kNoRandomization ? 0 : t == Type::kCircularNormalUniform || t == Type::kCircularNormalNormal ? 2 : t >= Type::kQuaternionUniform ? 4 : 3; }
// the independent uniform/normal variables behind one drawn value. Directions: polar angle as a probability, azimuth as a probability
struct Latent {
  double u[3] = {0, 0, 0};
  bool normal[3] = {false, false, false}, fixed[3] = {false, false, false};
  int n = 0;
  void U(double lo, double hi, double v) { u[n] = hi > lo ? (v - lo) / (hi - lo) : v == lo ? 0.5 : std::nan(""), normal[n] = false, fixed[n++] = !(hi > lo); }
  void Z(double mean, double sigma, double v, double slack) { u[n] = sigma > 0 ? (v - mean) / sigma : std::fabs(v - mean) <= slack ? 0.0 : std::nan(""), normal[n] = true, fixed[n++] = !(sigma > 0); }
};
static double Wrap(double angle, double from) {  // the equivalent of the angle in [from, from + 2 pi)
  angle = std::fmod(angle - from, 2 * M_PI);
  return from + (angle < 0 ? angle + 2 * M_PI : angle);
}
// probability that an angle drawn with a normal distribution about zero, wrapped to [-pi, pi), is below t
static double WrappedPhi(double t, double sigma) {
  double p = 0;
  for (int k = -20; k <= 20; k++) p += Phi((t + 2 * M_PI * k) / sigma) - Phi((-M_PI + 2 * M_PI * k) / sigma);
  return p;
}
// ... and that its distance from zero is below t
static double FoldedPhi(double t, double sigma) { return sigma < 0.4 ? 2 * Phi(t / sigma) - 1 : WrappedPhi(t, sigma) - WrappedPhi(-t, sigma); }
// azimuth of v about axis m, as a probability
static double Azimuth(const V3& m, const V3& v) {
  const V3 x = ref::Unit(ref::Cross(m, std::fabs(m[0]) < 0.6 ? V3{1, 0, 0} : V3{0, 1, 0})), y = ref::Cross(m, x);
  const double p = std::atan2(ref::Dot(v, y), ref::Dot(v, x)) / (2 * M_PI);
  return p < 0 ? p + 1 : p;
}
static Latent Explain(Case& c, const Config& f, const double* v) {
  Latent l;
  const double eps = 1e-9;
  switch (f.type) {
    case Type::kCartesianUniform:
      for (int i = 0; i < 3; i++) l.U(f.a[i], f.b[i], v[i]);
      break;
    case Type::kCartesianNormal:
      for (int i = 0; i < 3; i++) l.Z(f.a[i], f.b[i], v[i], 0);
      break;
    case Type::kCircularNormalUniform: {
      const double t = Wrap(std::atan2(v[1], v[0]), f.a[1] - eps);
      l.Z(f.a[0], f.b[0], std::hypot(v[0], v[1]), 1e-12 * f.a[0]), l.U(f.a[1] - eps, f.b[1] + eps, t);
      break;
    }
    case Type::kCircularNormalNormal: {
      const double t = Wrap(std::atan2(v[1], v[0]), f.a[1] - M_PI);
      l.Z(f.a[0], f.b[0], std::hypot(v[0], v[1]), 1e-12 * f.a[0]);
      if (f.b[1] > 0.4)
        l.U(0, 1, WrappedPhi(t - f.a[1], f.b[1]));
      else
        l.Z(f.a[1], f.b[1], t, 1e-12);
      break;
    }
    case Type::kSphericalNormalUniformUniform: {
      const V3 p = {v[0], v[1], v[2]};
      const double r = ref::Norm(p);
      l.Z(f.a[0], f.b[0], r, 1e-12 * f.a[0]), l.U(-std::cos(f.a[1]) - eps, -std::cos(f.b[1]) + eps, -p[2] / r);
      l.U(f.a[2] - eps, f.b[2] + eps, Wrap(std::atan2(p[1], p[0]), f.a[2] - eps));
      break;
    }
    case Type::kSphericalNormalNormal: {
      const V3 m = {f.a[0], f.a[1], f.a[2]}, p = {v[0], v[1], v[2]};
      const double r = ref::Norm(p), angle = std::atan2(ref::Norm(ref::Cross(m, p)), ref::Dot(m, p));
      l.Z(ref::Norm(m), f.b[0], r, 1e-12 * r);
      if (f.b[1] > 0)
        l.U(0, 1, FoldedPhi(angle, f.b[1])), l.U(0, 1, Azimuth(ref::Unit(m), p));  // a folded normal deflection to any side
      else
        c.Check(angle < 1e-7, "deflection", "deflected by ", angle, " with a deviation of zero");
      break;
    }
    case Type::kQuaternionUniform: {
      // for an orientation without preference, the turned x axis is uniform on the sphere and the angle about it is uniform
      const M3 d = ref::Dcm(Q4{v[0], v[1], v[2], v[3]});
      const V3 x = {d[0][0], d[0][1], d[0][2]}, y = {d[1][0], d[1][1], d[1][2]};
      double az = std::atan2(x[1], x[0]) / (2 * M_PI);
      l.U(-1, 1, std::min(1.0, std::max(-1.0, x[2]))), l.U(0, 1, az < 0 ? az + 1 : az);
      const V3 e = ref::Cross(V3{0, 0, 1}, x);
      l.U(0, 1, ref::Norm(e) > 1e-9 ? [&] {
        const V3 u = ref::Unit(e), w = ref::Cross(x, u);
        const double p = std::atan2(ref::Dot(y, w), ref::Dot(y, u)) / (2 * M_PI);
        return p < 0 ? p + 1 : p;
      }() : 0.5);
      break;
    }
    case Type::kQuaternionNormal: {
      // rotation by a normally distributed angle about any axis; the negative angle about the opposite axis is the same
      const double sign = v[3] < 0 ? -1 : 1;  // q and -q are the same
      const V3 p = {sign * v[0], sign * v[1], sign * v[2]};
      const double s = ref::Norm(p), angle = 2 * std::atan2(s, sign * v[3]);
      if (f.b[0] > 0) {
        l.U(0, 1, FoldedPhi(angle, f.b[0]));
        if (s > 1e-12) {
          double az = std::atan2(p[1], p[0]) / (2 * M_PI);
          l.U(-1, 1, std::min(1.0, std::max(-1.0, p[2] / s))), l.U(0, 1, az < 0 ? az + 1 : az);
        } else {
          l.U(0, 1, 0.5), l.U(0, 1, 0.5);
        }
      } else {
        c.Check(std::fabs(angle) < 1e-7, "deflection", "turned by ", angle, " with a deviation of zero");
      }
      break;
    }
    default:
      break;
  }
  return l;
}
static void Support(Case& c, const Config& f, const double* v, const std::string& what) {
  for (int i = 0; i < Dimension(f.type); i++) c.Check(std::isfinite(v[i]), "not-finite", what, ": ", f.Say());
  if (Dimension(f.type) == 4) c.Near(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3], 1, 1e-12, 0, "unit-norm", what);
  const Latent l = Explain(c, f, v);
  for (int i = 0; i < l.n; i++) {
    if (l.normal[i])
      c.Check(std::fabs(l.u[i]) < 8.5, "far-from-mean", what, ": ", l.u[i], " standard deviations from the mean: ", f.Say(), " component ", i);
    else
      c.Check(l.u[i] >= -1e-9 && l.u[i] <= 1 + 1e-9, "outside-range", what, ": at ", l.u[i], " of its range: ", f.Say(), " component ", i);
  }
}
static Vec<3> Three(const double* p) {
  Vec<3> v;
  for (int i = 0; i < 3; i++) v[i] = p[i];
  return v;
}
static void Fetch(const Executor& e, const Config& f, const std::string& object, const std::string& name, double* v) {
  const int n = Dimension(f.type);
  if (n == 2) {
    Vec<2> w(0.0);
    e.GetInitializedMonteCarloParameterVector(object, name, w);
    v[0] = w[0], v[1] = w[1];
  } else if (n == 3) {
    Vec<3> w(0.0);
    e.GetInitializedMonteCarloParameterVector(object, name, w);
    for (int i = 0; i < 3; i++) v[i] = w[i];
  } else if (n == 4) {
    s2e::math::Quaternion q(0, 0, 0, 1);
    e.GetInitializedMonteCarloParameterQuaternion(object, name, q);
    for (int i = 0; i < 4; i++) v[i] = q[i];
  }
}
// ---- distributions
static void Draws(Case& c) {
  const int parameters = 2, n = (int)c.Of<int>({2000, 6000});
  Executor e((unsigned long long)n + 1);
  Config f[2];
  for (int k = 0; k < parameters; k++) {
    f[k] = AnyConfig(c, false);
    c.Note("parameter ", k, ": ", f[k].Say());
    e.AddInitializedMonteCarloParameter("object", k ? "second" : "first", Three(f[k].a), Three(f[k].b), f[k].type);
  }
  Executor::SetSeed((unsigned long)c.Int(0, 1 << 30), true);
  std::vector<double> seen[2][3];
  for (int i = 0; i < n; i++) {
    e.RandomizeAllParameters();
    for (int k = 0; k < parameters; k++) {
      if (f[k].type == Type::kNoRandomization) continue;
      double v[4] = {0, 0, 0, 0};
      Fetch(e, f[k], "object", k ? "second" : "first", v);
      Support(c, f[k], v, "drawn value");
      const Latent l = Explain(c, f[k], v);
      for (int j = 0; j < l.n; j++) seen[k][j].push_back(l.normal[j] ? l.u[j] : l.u[j]);
      if (i == 0 && n > 2000) {
        double again[4] = {0, 0, 0, 0};
        Fetch(e, f[k], "object", k ? "second" : "first", again);
        c.Check(!memcmp(v, again, sizeof v), "read-twice", "reading a parameter twice within one execution gives two values");
      }
    }
  }
  for (int k = 0; k < parameters; k++) {
    if (f[k].type == Type::kNoRandomization) continue;
    double v[4];
    Fetch(e, f[k], "object", k ? "second" : "first", v);
    const Latent l = Explain(c, f[k], v);
    for (int j = 0; j < l.n; j++) {
      const std::string what = std::string(kTypeName[f[k].type]) + " variable " + std::to_string(j);
      if (l.fixed[j]) {
        c.Label("one variable fixed");
        continue;
      }
      if (l.normal[j])
        Normal(c, "normal", what, seen[k][j]);
      else
        Uniform(c, "uniform", what, seen[k][j]);
      for (int i = 0; i < j; i++) Uncorrelated(c, "correlated", what + " and variable " + std::to_string(i), seen[k][i], seen[k][j]);
    }
    c.Label(kTypeName[f[k].type]), c.NonTrivial();
  }
  for (int j = 0; j < 3; j++)
    for (int i = 0; i < 3; i++)
      if (!seen[0][i].empty() && !seen[1][j].empty()) Uncorrelated(c, "correlated", "two parameters", seen[0][i], seen[1][j]);
}
// ---- campaigns configured by file
struct Probe : s2e::simulation::SimulationObject {
  struct Slot {
    std::string name;
    Config f;
    bool listed;
    double file[4], v[4];
  };
  std::string name;
  std::vector<Slot> slots;
  explicit Probe(const std::string& n) : SimulationObject(n), name(n) {}
  void SetParameters(const Executor& e) override {
    for (auto& s : slots) {
      switch (Dimension(s.f.type)) {
        case 2: {
          Vec<2> w;
          w[0] = s.v[0], w[1] = s.v[1];
          GetInitializedMonteCarloParameterVector(e, s.name, w);
          s.v[0] = w[0], s.v[1] = w[1];
          break;
        }
        case 4: {
          s2e::math::Quaternion q(s.v[0], s.v[1], s.v[2], s.v[3]);
          GetInitializedMonteCarloParameterQuaternion(e, s.name, q);
          for (int i = 0; i < 4; i++) s.v[i] = q[i];
          break;
        }
        case 3: {
          if (s.f.type == Type::kCartesianUniform && s.file[3] > 0) {  // used as a scalar
            GetInitializedMonteCarloParameterDouble(e, s.name, s.v[0]);
            break;
          }
        }
          [[fallthrough]];
        default: {
          Vec<3> w = Three(s.v);
          GetInitializedMonteCarloParameterVector(e, s.name, w);
          for (int i = 0; i < 3; i++) s.v[i] = w[i];
        }
      }
    }
  }
};
struct Plan {
  std::vector<std::string> objects;
  std::vector<std::vector<Probe::Slot>> slots;
  int executions;
  bool enabled, log;
  std::string file;
};
static Plan AnyPlan(Case& c) {
  Plan p;
  p.executions = c.Int(0, 49) ? (int)c.EdgeInt(0, 12) : (int)c.Int(13, 3000), p.enabled = c.Chance(0.85), p.log = c.Bool();
  std::set<std::string> names;
  const bool many = p.executions <= 12 && !c.Int(0, 29);  // many parameters
  const int objects = many ? (int)c.Int(4, 20) : (int)c.Int(1, 3);
  while ((int)names.size() < objects) names.insert("o" + c.Word("ab_0", 0, 3) + (many ? std::to_string(names.size()) : ""));
  p.objects.assign(names.begin(), names.end());
  std::string list;
  int count = 0;
  for (auto& o : p.objects) {
    p.slots.emplace_back();
    std::set<std::string> keys;
    const int wanted = (int)c.Int(1, 5);
    while ((int)keys.size() < wanted) keys.insert("p" + c.Word("ab_0", 0, 3) + (many ? std::to_string(keys.size()) : ""));
    for (auto& k : keys) {
      Probe::Slot s;
      s.name = k, s.f = AnyConfig(c, true), s.listed = c.Chance(0.8);
      const Q4 q = c.Quat();
      for (int i = 0; i < 4; i++) s.file[i] = Dimension(s.f.type) == 4 ? q[i] : c.Real(-1e3, 1e3);
      memcpy(s.v, s.file, sizeof s.v);
      p.slots.back().push_back(s);
      if (!s.listed) continue;
      const std::string n = o + "." + k;
      list += "parameter(" + std::to_string(count++) + ") = " + n + "\n" + n + ".randomization_type = " + kTypeName[s.f.type] + "\n";
      for (int i = 0; i < 3; i++) list += n + ".mean_or_min(" + std::to_string(i) + ") = " + Num(s.f.a[i]) + "\n" + n + ".sigma_or_max(" + std::to_string(i) + ") = " + Num(s.f.b[i]) + "\n";
    }
  }
  p.file = c.TempDir() + "/mc" + std::to_string(c.Int(0, 999999)) + ".ini";
  mission::Spit(p.file, std::string("[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = ") + (p.enabled ? "ENABLE" : "DISABLE") + "\nlog_enable = " + (p.log ? "ENABLE" : "DISABLE") +
                            "\nnumber_of_executions = " + std::to_string(p.executions) + "\n\n[MONTE_CARLO_RANDOMIZATION]\n" + list);
  return p;
}
static std::vector<double> RunPlan(Case& c, const Plan& p, unsigned long seed, bool seed_first) {
  if (seed_first) Executor::SetSeed(seed, true);
  std::unique_ptr<Executor> e(s2e::simulation::InitMonteCarloSimulation(p.file));
  if (!seed_first) Executor::SetSeed(seed, true);
  c.Check(e->IsEnabled() == p.enabled, "enable-flag", "configured ", p.enabled);
  c.Check((int)e->GetTotalNumberOfExecutions() == p.executions, "execution-count", e->GetTotalNumberOfExecutions(), " configured ", p.executions);
  c.Check(e->GetSaveLogHistoryFlag() == (!p.enabled || p.log), "log-flag", "enabled ", p.enabled, " log ", p.log);
  std::vector<double> all;
  int runs = 0;
  while (e->WillExecuteNextCase()) {
    c.Check((int)e->GetNumberOfExecutionsDone() == runs, "done-count", e->GetNumberOfExecutionsDone(), " after ", runs);
    std::vector<std::unique_ptr<Probe>> probes;
    for (size_t o = 0; o < p.objects.size(); o++) probes.emplace_back(new Probe(p.objects[o])), probes.back()->slots = p.slots[o];
    e->AtTheBeginningOfEachCase();
    e->RandomizeAllParameters();
    s2e::simulation::SimulationObject::SetAllParameters(*e);
    for (auto& o : probes)
      for (auto& s : o->slots) {
        const std::string what = o->name + "." + s.name + " in execution " + std::to_string(runs);
        const bool scalar = s.f.type == Type::kCartesianUniform && s.file[3] > 0;
        if (!p.enabled || !s.listed || s.f.type == Type::kNoRandomization) {
          for (int i = 0; i < 4; i++) c.Near(s.v[i], s.file[i], 1e-12 * std::fabs(s.file[i]), 0, "file-value", what + " (not randomized), element " + std::to_string(i));
          continue;
        }
        if (scalar) {
          c.Check(s.v[1] == s.file[1] && s.v[0] >= s.f.a[0] && s.v[0] <= s.f.b[0], "scalar", what, ": ", s.v[0]);
          all.push_back(s.v[0]);
          continue;
        }
        Support(c, s.f, s.v, what);
        for (int i = 0; i < Dimension(s.f.type); i++) all.push_back(s.v[i]);
      }
    e->AtTheEndOfEachCase();
    c.Check(++runs <= std::max(100, 2 * p.executions), "endless", "more executions than asked for");
  }
  c.Check(runs == (p.enabled ? p.executions : 1), "executions", runs, " executions, enabled ", p.enabled, " with ", p.executions);
  // afterwards, the destination of a value that is not randomized stays as it is
  for (size_t o = 0; o < p.objects.size(); o++)
    for (auto& s : p.slots[o]) {
      if (p.enabled && s.listed && s.f.type != Type::kNoRandomization) continue;
      double v = s.file[0];
      Vec<2> two;
      for (int i = 0; i < 2; i++) two[i] = s.file[i];
      Vec<3> three = Three(s.file);
      s2e::math::Quaternion q(0.5, -0.5, 0.5, -0.5);
      if (!p.enabled || !s.listed) {
        e->GetInitializedMonteCarloParameterDouble(p.objects[o], s.name, v);
        e->GetInitializedMonteCarloParameterQuaternion(p.objects[o], s.name, q);
      }
      e->GetInitializedMonteCarloParameterVector(p.objects[o], s.name, two);
      e->GetInitializedMonteCarloParameterVector(p.objects[o], s.name, three);
      bool same = v == s.file[0] && q[0] == 0.5 && q[1] == -0.5 && q[2] == 0.5 && q[3] == -0.5;
      for (int i = 0; i < 2; i++) same = same && two[i] == s.file[i];
      for (int i = 0; i < 3; i++) same = same && three[i] == s.file[i];
      c.Check(same, "file-value-after", p.objects[o], ".", s.name, " (not randomized) changed when it was read after the campaign");
    }
  return all;
}
static bool Random(const Plan& p) {
  for (auto& o : p.slots)
    for (auto& s : o)
      if (s.listed && (s.f.type == Type::kQuaternionUniform || (s.f.type == Type::kCartesianNormal && s.f.b[0] > 0))) return p.enabled && p.executions > 0;
  return false;
}
static void Campaign(Case& c) {
  Quiet quiet;
  const Plan p = AnyPlan(c);
  const unsigned long seed = (unsigned long)c.Int(0, 1 << 30);
  const bool first = c.Bool();
  c.Note(p.objects.size(), " objects, ", p.executions, " executions, enabled ", p.enabled, ", seeded ", first ? "before" : "after", " the configuration");
  const auto a = RunPlan(c, p, seed, first);
  // other campaigns in between leave no trace
  for (int k = (int)c.Int(0, 2); k-- > 0;) RunPlan(c, AnyPlan(c), (unsigned long)c.Int(0, 1 << 30), true);
  const auto b = RunPlan(c, p, seed, c.Bool());
  c.Check(a.size() == b.size(), "repeat", "different number of values");
  for (size_t i = 0; i < a.size(); i++) c.Check(!memcmp(&a[i], &b[i], sizeof(double)), "repeat", "value ", i, " of ", a.size(), " is ", Num(a[i]), " and with the same seed again ", Num(b[i]));
  if (Random(p)) {
    const auto d = RunPlan(c, p, seed + 1, true);
    c.Check(a != d, "seed-ignored", "another seed gives the same campaign");
    c.NonTrivial();
  }
}
// ---- an executor set up by a program: a single execution is no campaign
static void ByHand(Case& c) {
  const unsigned long long n = (unsigned long long)c.EdgeInt(0, 20);
  Executor e(n);
  Config f;
  f.type = Type::kCartesianUniform;
  for (int i = 0; i < 3; i++) f.a[i] = c.Real(-5, 5), f.b[i] = f.a[i] + c.Real(0.1, 5);
  e.AddInitializedMonteCarloParameter("a", "b", Three(f.a), Three(f.b), f.type);
  bool enabled = n > 1, log = true, log_known = false;
  unsigned long long total = n, done = 0;
  c.Check(e.IsEnabled() == enabled, "by-hand-enabled", n, " executions asked for: enabled ", e.IsEnabled());
  const int steps = (int)c.Int(1, 40);
  for (int k = 0; k < steps; k++) {
    switch ((int)c.Int(0, 8)) {
      case 0: e.SetEnable(enabled = c.Bool()); break;
      case 1: total = (unsigned long long)c.EdgeInt(0, 20), e.SetTotalNumberOfExecutions(total); break;
      case 2: e.SetSaveLogHistoryFlag(log = c.Bool()), log_known = true; break;
      case 3: e.AtTheBeginningOfEachCase(); break;
      default: {
        const bool next = e.WillExecuteNextCase();
        c.Check(next == (enabled ? done < total : done < 1), "by-hand-next", "enabled ", enabled, " with ", done, " of ", total, " done: next ", next);
        e.RandomizeAllParameters();
        double v[4] = {1e9, 1e9, 1e9, 0};
        Vec<3> w(1e9);
        e.GetInitializedMonteCarloParameterVector("a", "b", w);
        for (int i = 0; i < 3; i++) v[i] = w[i];
        if (enabled)
          Support(c, f, v, "value by hand");
        else
          c.Check(v[0] == 1e9 && v[1] == 1e9 && v[2] == 1e9, "by-hand-disabled", "a disabled campaign changed a value to ", v[0]);
        e.AtTheEndOfEachCase(), done++;
      }
    }
    c.Check(e.IsEnabled() == enabled && e.GetTotalNumberOfExecutions() == total && e.GetNumberOfExecutionsDone() == done, "by-hand-state", "step ", k, ": enabled ", e.IsEnabled(), " total ",
            e.GetTotalNumberOfExecutions(), " done ", e.GetNumberOfExecutionsDone());
    if (log_known || !enabled) c.Check(e.GetSaveLogHistoryFlag() == (!enabled || log), "by-hand-log", "enabled ", enabled, " log ", log);
  }
  c.NonTrivial();
}
// ---- misuse is refused
template <size_t N>
static Vec<N> Filled(Case& c) {
  Vec<N> v(0.0);
  for (size_t i = 0; i < N; i++) v[i] = c.Real(0.1, 1);
  return v;
}
// a definition with vectors of N and M elements is drawn from when they are long enough for its distribution, and refused otherwise
template <size_t N, size_t M>
static void Shape(Case& c, Type type) {
  Executor e(5);
  e.SetSeed(1, true);
  const Vec<N> a = Filled<N>(c);
  Vec<M> b = Filled<M>(c);
  for (size_t i = 0; i < std::min(N, M); i++) b[i] += a[i];
  e.AddInitializedMonteCarloParameter("a", "b", a, b, type);
  size_t need_a = 0, need_b = 0;
  switch (type) {
    case Type::kCircularNormalUniform:
    case Type::kCircularNormalNormal: need_a = need_b = 2; break;
    case Type::kSphericalNormalUniformUniform: need_a = need_b = 3; break;
    case Type::kSphericalNormalNormal: need_a = 3, need_b = 2; break;
    default: return;
  }
  bool refused = false;
  try {
    e.RandomizeAllParameters();
  } catch (const char*) {
    refused = true;
  }
  c.Check(refused == (N < need_a || M < need_b), "shape", "type ", (int)type, " drawn from vectors of ", N, " and ", M, " elements: refused ", refused);
  if (refused) return;
  s2e::math::Quaternion q(0, 0, 0, 1);
  bool short_of = false;
  try {
    e.GetInitializedMonteCarloParameterQuaternion("a", "b", q);
  } catch (const char*) {
    short_of = true;
  }
  c.Check(short_of, "dimension", "a quaternion read from a value with ", Dimension(type));
}
static void Refusals(Case& c) {
  {
    const Type type = c.Of<Type>({Type::kCircularNormalUniform, Type::kCircularNormalNormal, Type::kSphericalNormalUniformUniform, Type::kSphericalNormalNormal});
    switch (c.Int(0, 8)) {
      case 0: Shape<1, 1>(c, type); break;
      case 1: Shape<1, 2>(c, type); break;
      case 2: Shape<1, 3>(c, type); break;
      case 3: Shape<2, 1>(c, type); break;
      case 4: Shape<2, 2>(c, type); break;
      case 5: Shape<2, 3>(c, type); break;
      case 6: Shape<3, 1>(c, type); break;
      case 7: Shape<3, 2>(c, type); break;
      default: Shape<3, 3>(c, type);
    }
  }
  Executor e(5);
  const Config f = AnyConfig(c, false);
  e.AddInitializedMonteCarloParameter("a", "b", Three(f.a), Three(f.b), f.type);
  bool refused = false;
  try {
    e.AddInitializedMonteCarloParameter("a", "b", Three(f.a), Three(f.b), Type::kQuaternionUniform);
  } catch (const char*) {
    refused = true;
  }
  c.Check(refused, "duplicate", "a second definition of a parameter was accepted");
  // the first definition still holds
  e.RandomizeAllParameters();
  double v[4] = {0, 0, 0, 1};
  Fetch(e, f, "a", "b", v);
  if (f.type != Type::kNoRandomization) Support(c, f, v, "after a refused definition");
  if (Dimension(f.type) == 2) {
    refused = false;
    Vec<3> w(7.0);
    try {
      e.GetInitializedMonteCarloParameterVector("a", "b", w);
    } catch (const char*) {
      refused = true;
    }
    c.Check(refused, "dimension", "three elements read from a value with two");
  }
  {
    Probe p("object");
    refused = false;
    try {
      Probe q("object");
    } catch (const char*) {
      refused = true;
    }
    c.Check(refused, "same-name", "two objects of one name at the same time");
  }
  Probe again("object");
  c.NonTrivial();
}
// ---- whole missions
static Q4 LoggedQuaternion(const std::vector<std::string>& head, const std::vector<std::string>& cell, int nth, V3& w) {
  Q4 q = {};
  for (int i = 0; i < 4; i++)
    for (int k = 0, n = 0; k < (int)head.size(); k++)
      if (head[k] == std::string("spacecraft_quaternion_i2b_") + "xyzw"[i] && n++ == nth) q[i] = atof(cell[k].c_str());
  for (int i = 0; i < 3; i++)
    for (int k = 0, n = 0; k < (int)head.size(); k++)
      if (head[k] == std::string("spacecraft_angular_velocity_b_") + "xyz"[i] + "[rad/s]" && n++ == nth) w[i] = atof(cell[k].c_str());
  return q;
}
static std::vector<std::string> Split(const std::string& l, char sep) {
  std::vector<std::string> v;
  std::istringstream s(l);
  std::string w;
  while (std::getline(s, w, sep)) v.push_back(w);
  return v;
}
static void Missions(Case& c) {
  Quiet quiet;
  mission::Settings s(c);
  const int craft = (int)c.Int(1, 2), runs = (int)c.Int(2, 4), steps = (int)c.Int(2, 6);
  const bool enabled = c.Chance(0.85), log = c.Chance(0.8), save = c.Chance(0.3);
  mission::SetTime(s, "2021/06/15 10:20:30", steps, 1, 1, 0.01, 1, 1, 1, 1, 1, 1);
  s.Set(s.kBase, "SIMULATION_SETTINGS", "save_initialize_files", save);
  s.Set(s.kBase, "MONTE_CARLO_EXECUTION", "monte_carlo_enable", enabled), s.Set(s.kBase, "MONTE_CARLO_EXECUTION", "log_enable", log);
  s.Set(s.kBase, "MONTE_CARLO_EXECUTION", "number_of_executions", runs);
  // drop the sample's parameters
  std::string& base = s.Text(s.kBase);
  const size_t from = base.find("[MONTE_CARLO_RANDOMIZATION]"), to = base.find("\n[", from + 5);
  base = base.substr(0, from) + base.substr(to + 1);
  struct Craft {
    Q4 q;
    V3 w;
    Config fq, fw;
    bool has_q, has_w;
    std::string mode;
  } sc[2];
  int count = 0;
  for (int i = 0; i < craft; i++) {
    if (i) s.AddSpacecraft(i);
    const std::string sat = s.Sat(i) + "satellite.ini", obj = "attitude" + std::to_string(i);
    Craft& k = sc[i];
    k.q = c.Quat(), k.w = V3{c.Real(-0.05, 0.05), c.Real(-0.05, 0.05), c.Real(-0.05, 0.05)};
    s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", k.q, 4), s.SetVec(sat, "ATTITUDE", "initial_angular_velocity_b_rad_s", k.w);
    k.mode = c.Of<const char*>({"RK4", "RK4", "CANTILEVER_VIBRATION"});
    s.Set(sat, "ATTITUDE", "propagate_mode", k.mode);
    for (const char* sec : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"}) s.Set(s.Sat(i) + "disturbance.ini", sec, "calculation", false);
    k.fq.type = c.Of<Type>({Type::kQuaternionUniform, Type::kQuaternionNormal, Type::kNoRandomization}), k.fq.b[0] = c.Real(0.01, 0.5);
    k.has_q = c.Chance(0.8), k.has_w = c.Chance(0.8);
    do k.fw = AnyConfig(c, true);
    while (Dimension(k.fw.type) != 3);
    double big = 0;
    for (int j = 0; j < 3; j++) big = std::max(big, std::fabs(k.fw.type == Type::kCartesianUniform ? std::max(std::fabs(k.fw.a[j]), std::fabs(k.fw.b[j])) : k.fw.a[j] + 9 * k.fw.b[j]));
    const double shrink = 0.1 / std::max(big, 0.1);
    for (int j = 0; j < 3; j++) {  // keep the rates small; angles stay as they are
      const bool angle = (k.fw.type == Type::kSphericalNormalUniformUniform && j > 0);
      if (!angle) k.fw.a[j] *= shrink;
      if (!angle && !(k.fw.type == Type::kSphericalNormalNormal && j == 1)) k.fw.b[j] *= shrink;
    }
    auto put = [&](const std::string& n, const Config& f) {
      s.Set(s.kBase, "MONTE_CARLO_RANDOMIZATION", "parameter(" + std::to_string(count++) + ")", n), s.Set(s.kBase, "MONTE_CARLO_RANDOMIZATION", n + ".randomization_type", kTypeName[f.type]);
      s.SetVec(s.kBase, "MONTE_CARLO_RANDOMIZATION", n + ".mean_or_min", f.a), s.SetVec(s.kBase, "MONTE_CARLO_RANDOMIZATION", n + ".sigma_or_max", f.b);
    };
    if (k.has_q) put(obj + ".quaternion_i2b", k.fq);
    if (k.has_w) put(obj + ".angular_velocity_b_rad_s", k.fw);
  }
  const std::string file = s.Save();
  std::unique_ptr<Executor> e(s2e::simulation::InitMonteCarloSimulation(file));
  Executor::SetSeed((unsigned long)c.Int(0, 1 << 30), true);
  s2e::randomization::global_randomization.SetSeed(c.Int(1, 1 << 30));
  c.Note(craft, " spacecraft, ", runs, " runs of ", steps, " s, enabled ", enabled, " log ", log, " parameters ", count);
  std::vector<std::vector<std::pair<Q4, V3>>> start, end;
  std::vector<std::string> noise;
  {
    std::unique_ptr<s2e::logger::Logger> campaign_log(s2e::logger::InitMonteCarloLog(file, e->IsEnabled()));
    const std::string log_path = e->IsEnabled() ? campaign_log->GetLogPath().string() : s.LogDir();
    while (e->WillExecuteNextCase()) {
      suite::Fleet fleet;
      mission::Mission m(file, *e, log_path, fleet.Make({1u << suite::kGyro}));
      e->AtTheBeginningOfEachCase();
      m.Initialize();
      e->RandomizeAllParameters();
      s2e::simulation::SimulationObject::SetAllParameters(*e);
      campaign_log->AddLogList(&m);
      if (e->GetNumberOfExecutionsDone() == 0) campaign_log->WriteHeaders();
      start.emplace_back(), end.emplace_back();
      for (int i = 0; i < craft; i++) start.back().push_back({R(m.Sc(i).Dyn().GetAttitude().GetQuaternion_i2b()), R(m.Sc(i).Dyn().GetAttitude().GetAngularVelocity_b_rad_s())});
      m.Main();
      for (int i = 0; i < craft; i++) end.back().push_back({R(m.Sc(i).Dyn().GetAttitude().GetQuaternion_i2b()), R(m.Sc(i).Dyn().GetAttitude().GetAngularVelocity_b_rad_s())});
      campaign_log->WriteValues();
      campaign_log->ClearLogList();
      e->AtTheEndOfEachCase();
      c.Check(start.size() <= 10, "endless", "more executions than configured");
    }
  }
  const int want = enabled ? runs : 1;
  c.Check((int)start.size() == want, "executions", start.size(), " missions, expected ", want);
  // what each mission started with
  for (int r = 0; r < want; r++)
    for (int i = 0; i < craft; i++) {
      const auto& k = sc[i];
      const std::string what = "spacecraft " + std::to_string(i) + " in execution " + std::to_string(r);
      const Q4& q = start[r][i].first;
      const V3& w = start[r][i].second;
      const double qa[4] = {q[0], q[1], q[2], q[3]}, wa[3] = {w[0], w[1], w[2]};
      if (enabled && k.has_q && k.fq.type != Type::kNoRandomization)
        Support(c, k.fq, qa, "attitude of " + what);
      else
        for (int j = 0; j < 4; j++) c.Near(q[j], k.q[j], 1e-12, 0, "file-value", "attitude of " + what);
      if (enabled && k.has_w && k.fw.type != Type::kNoRandomization)
        Support(c, k.fw, wa, "rate of " + what);
      else
        for (int j = 0; j < 3; j++) c.Near(w[j], k.w[j], 1e-15, 0, "file-value", "rate of " + what);
    }
  // logs
  std::map<std::string, std::string> found;
  std::string campaign;
  int settings = 0;
  for (auto& f : mission::fs::recursive_directory_iterator(s.LogDir())) {
    const std::string n = f.path().filename().string();
    if (f.path().extension() == ".ini") settings++;
    if (f.path().extension() != ".csv") continue;
    const size_t at = n.find("default");
    if (at != std::string::npos) {
      c.Check(!found.count(n.substr(at)), "log-twice", n);
      found[n.substr(at)] = mission::Slurp(f.path());
    }
    if (n.find("monte_carlo.csv") != std::string::npos) campaign = mission::Slurp(f.path());
  }
  c.Check((int)found.size() == (!enabled ? 1 : log ? runs : 0), "logs", found.size(), " logs, enabled ", enabled, " log ", log, " runs ", runs);
  if (save) c.Check(settings > 0, "settings", "no settings saved");
  if (enabled) c.Check((int)Split(campaign, '\n').size() == runs + 1, "campaign-log", Split(campaign, '\n').size(), " lines for ", runs, " executions");
  std::set<std::string> gyro;
  for (int r = 0; r < want && (!enabled || log); r++) {
    const std::string n = enabled ? "default" + std::to_string(r) + ".csv" : "default.csv";
    c.Check(found.count(n), "log-name", "no ", n);
    const auto lines = Split(found[n], '\n');
    c.Check((int)lines.size() == steps + 2, "log-rows", n, " has ", lines.size(), " lines for ", steps, " s");
    const auto head = Split(lines[0], ','), cell = Split(lines[1], ',');
    c.Check(head.size() == cell.size(), "log-width", head.size(), " and ", cell.size());
    for (int i = 0; i < craft; i++) {
      V3 w = {};
      const Q4 q = LoggedQuaternion(head, cell, i, w);
      for (int j = 0; j < 4; j++) c.Near(q[j], start[r][i].first[j], 1e-5 * std::fabs(q[j]) + 1e-12, 0, "log-start", "logged attitude");
      for (int j = 0; j < 3; j++) c.Near(w[j], start[r][i].second[j], 1e-5 * std::fabs(w[j]) + 1e-12, 0, "log-start", "logged rate");
    }
    std::string g;
    const auto last = Split(lines.back(), ',');
    for (size_t k = 0; k < head.size(); k++)
      if (head[k].compare(0, 12, "gyro_sensor1") == 0) g += last[k] + ",";
    c.Check(!g.empty() && gyro.insert(g).second, "same-noise", "two executions have the same gyro readings: ", g);
  }
  // the motion follows from the drawn state: the same as a mission whose file states it
  const int r = (int)c.Int(0, want - 1);
  for (int i = 0; i < craft; i++) {
    s.SetVec(s.Sat(i) + "satellite.ini", "ATTITUDE", "initial_quaternion_i2b", start[r][i].first, 4);
    s.SetVec(s.Sat(i) + "satellite.ini", "ATTITUDE", "initial_angular_velocity_b_rad_s", start[r][i].second);
  }
  mission::fs::remove_all(s.LogDir());
  mission::Mission plain(s);
  plain.Initialize();
  plain.Main();
  for (int i = 0; i < craft; i++) {
    const Q4 q = R(plain.Sc(i).Dyn().GetAttitude().GetQuaternion_i2b());
    const V3 w = R(plain.Sc(i).Dyn().GetAttitude().GetAngularVelocity_b_rad_s());
    const std::string what = "spacecraft " + std::to_string(i) + " of execution " + std::to_string(r) + " and of a mission started from the same state";
    for (int j = 0; j < 4; j++) c.Near(end[r][i].first[j], q[j], 1e-9, 0, "motion", "attitude of " + what);
    for (int j = 0; j < 3; j++) c.Near(end[r][i].second[j], w[j], 1e-10, 0, "motion", "rate of " + what);
  }
  if (enabled && count) c.NonTrivial();
}
// ---- the very first campaign of a program
static void First(Case& c) { Campaign(c); }
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U07",
                   "draws: at least one randomized parameter; campaign, first: a random parameter and at least one execution; refusals: every case; missions: enabled campaigns with parameters",
                   {{"draws", Draws, 250, 5000, 10, 120}, {"campaign", Campaign, 800, 20000, 50, 60}, {"first", First, 60, 600, 1, 60}, {"by hand", ByHand, 400, 4000, 200, 30}, {"refusals", Refusals, 300, 3000, 50, 60}, {"missions", Missions, 40, 800, 5, 180}},
                   {"Each statistical bound is met with probability above 1 - 1e-10 by the configured distribution.", "The default attitude of a normally distributed quaternion is the identity.",
                    "Radii far from zero, mean directions different from zero."});
}
