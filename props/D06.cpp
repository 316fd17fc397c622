// link: sim
#include <dynamics/thermal/temperature.hpp>
#include <environment/local/earth_albedo.hpp>
#include <environment/local/earth_infrared.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <memory>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
namespace th = s2e::dynamics::thermal;
static const double kRe = 6378136.6, kSb = 5.670374419e-8;

// ---------------------------------------------------------------- radiation on a plate
// view factor of a plate towards a sphere of apparent radius phi whose centre is lambda off the plate normal, by quadrature
static double ViewFactor(double lambda, double phi) {
  const int n = 4000;
  double sum = 0;
  for (int i = 0; i < n; i++) {
    const double al = (i + 0.5) / n * phi, a = std::cos(lambda) * std::cos(al), b = std::sin(lambda) * std::sin(al);
    double inner;  // integral over psi of max(0, a + b cos psi)
    if (a >= b) inner = 2 * M_PI * a;
    else if (a <= -b) inner = 0;
    else {
      const double p = std::acos(-a / b);
      inner = 2 * (a * p + b * std::sin(p));
    }
    sum += std::sin(al) * inner;
  }
  return sum * phi / n / M_PI;
}
static double Factor(double lambda, double dist) {
  if (dist - kRe < 1732e3) return ViewFactor(lambda, std::asin(std::min(1.0, kRe / dist)));
  return lambda < M_PI / 2 ? 0.25 * kRe * kRe / dist / dist : 0;
}
static double Angle(const V3& a, const V3& b) { return std::atan2(ref::Norm(ref::Cross(a, b)), ref::Dot(a, b)); }
static double AlbedoPhase(const V3& earth, const V3& sun) {
  const V3 e = ref::Unit(earth), d = ref::Unit(sun) - e;
  const double n = ref::Norm(d);
  if (n < 1e-300) return 0;
  const double k = -ref::Dot(e, d) / n;
  return k > 0 ? k * k * k : 0;
}
static V3 Tilt(const V3& axis, double angle, const V3& side) {
  V3 s = ref::Cross(axis, side);
  if (ref::Norm(s) < 1e-3) s = ref::Cross(axis, V3{axis[2], axis[0], axis[1]});
  if (ref::Norm(s) < 1e-3) s = ref::Cross(axis, V3{1, -1, 0});
  s = ref::Unit(s);
  return std::cos(angle) * axis + std::sin(angle) * s;
}
static void Radiation(Case& c) {
  const double alpha = c.Unit(), eps = c.Unit(), area = c.LogReal(1e-4, 10);
  const double dist = c.Int(0, 3) ? kRe + c.LogReal(1e3, 1.6e6) : kRe + c.LogReal(1.8e6, 1e8);
  const double phi = std::asin(kRe / dist);
  const V3 ed = c.Dir();
  double lambda;
  int kind = (int)c.Int(0, 6);
  switch (kind) {
    case 0: lambda = 0; break;
    case 1: lambda = M_PI; break;
    case 2: lambda = M_PI / 2 - phi; break;
    case 3: lambda = M_PI / 2 + phi; break;
    case 4: lambda = M_PI / 2; break;
    default: lambda = c.Real(0, M_PI);
  }
  if (kind < 5 && c.Bool()) lambda += c.LogReal(1e-17, 1e-3) * (c.Bool() ? 1 : -1), lambda = std::fabs(lambda);
  if (lambda > M_PI) lambda = 2 * M_PI - lambda;
  const V3 normal = ref::Unit(Tilt(ed, lambda, c.Dir()));
  const V3 earth = dist * ed;
  const V3 sun = c.Int(0, 4) ? c.Dir() : c.Bool() ? ed : ref::Unit(-ed);
  const double flux = c.Chance(0.1) ? 0 : c.Real(0, 3000), ir = c.Real(0, 500), alb = c.Real(0, 1000);
  c.Note("dist ", dist, " lambda ", lambda, " phi ", phi, " earth ", Str(ed), " normal ", Str(normal), " sun ", Str(sun));
  th::Node node(1, "n", th::NodeType::kDiffusive, 0, 300, 10, alpha, eps, area, S(normal));
  const double cs = ref::Dot(sun, normal);
  c.Near(node.CalcSolarRadiation_W(S(sun), flux), cs > 0 ? flux * area * alpha * cs : 0, 1e-12 * flux * area, 0, "solar");
  c.Near(node.GetSolarRadiation_W(), cs > 0 ? flux * area * alpha * cs : 0, 1e-12 * flux * area, 0, "solar");
  const double lam = Angle(normal, ed), f = Factor(lam, dist);
  const bool high = dist - kRe >= 1732e3;
  if (high && std::fabs(lam - M_PI / 2) < 1e-9) c.Skip();
  if (!high && lam > M_PI / 2 - phi && lam < M_PI / 2 + phi) c.Label("partly visible"), c.NonTrivial();
  if (high) c.Label("high"), c.NonTrivial();
  c.Near(node.CalcEarthInfraredRadiation_W(S(earth), ir), ir * area * eps * f, 2e-5 * ir * area, 1e-9, "infrared");
  c.Near(node.GetEarthInfraredRadiation_W(), ir * area * eps * f, 2e-5 * ir * area, 1e-9, "infrared");
  if (ref::Norm(sun - ed) < 1e-6) return;  // the direction halfway is undefined: no sunlight is reflected
  c.Near(node.CalcAlbedoRadiation_W(S(earth), S(sun), alb), alb * area * alpha * f * AlbedoPhase(ed, sun), 2e-5 * alb * area, 1e-9, "albedo");
  c.Near(node.GetAlbedoRadiation_W(), alb * area * alpha * f * AlbedoPhase(ed, sun), 2e-5 * alb * area, 1e-9, "albedo");
}
// ---------------------------------------------------------------- heat load tables
static double Interp(const std::vector<double>& t, const std::vector<double>& y, double x) {
  if (t.size() == 1) return y[0];
  x = std::fmod(x, t.back());
  for (size_t i = 0; i + 1 < t.size(); i++)
    if (x <= t[i + 1]) return y[i] + (x - t[i]) / (t[i + 1] - t[i]) * (y[i + 1] - y[i]);
  return y.back();
}
static std::vector<double> TimeTable(Case& c) {
  std::vector<double> t{0};
  const int n = c.Int(0, 29) ? (int)c.Int(1, 7) : (int)c.Int(8, 150);
  for (int i = 1; i < n; i++) t.push_back(t.back() + (c.Bool() ? (double)c.Int(1, 40) : c.Real(0.01, 100)));
  return t;
}
static void LoadTable(Case& c) {
  std::vector<double> t = TimeTable(c), y;
  for (size_t i = 0; i < t.size(); i++) y.push_back(c.Bool() ? c.Real(-50, 100) : (double)c.Int(0, 10));
  th::Heatload h(1, t, y);
  std::ostringstream o;
  for (size_t i = 0; i < t.size(); i++) o << t[i] << ":" << y[i] << " ";
  c.Note("table ", o.str());
  c.Check(h.GetEarthInfraredHeatload_W() == 0 && h.GetSolarHeatload_W() == 0 && h.GetAlbedoHeatload_W() == 0 && h.GetHeaterHeatload_W() == 0, "initial-loads", "new load is not zero");
  if (c.Bool()) {  // a load whose time was never set is at the start of its table
    h.CalcInternalHeatload();
    c.Near(h.GetInternalHeatload_W(), y[0], 1e-12, 1e-12, "initial-load");
  }
  double now = 0;
  const bool forward = c.Int(0, 3) > 0;
  const double span = std::max(1.0, t.back());
  double mx = 0;
  for (double v : y) mx = std::max(mx, std::fabs(v));
  for (int k = (int)c.Int(1, 25); k-- > 0;) {
    const int kind = (int)c.Int(0, 4);
    if (!forward) now = c.Real(0, 5 * span);
    else if (kind == 0) now += c.Real(0, span);
    else if (kind == 1) now += c.Real(0, 4 * span);
    else if (kind == 2) now = span * std::floor(now / span + 1);  // next repetition of the table
    else now += c.Real(0, 0.2 * span);
    const double s = c.Real(0, 10), a = c.Real(0, 10), e = c.Real(0, 10), w = c.Real(0, 10);
    h.SetElapsedTime_s(now);
    h.CalcInternalHeatload();
    h.SetSolarHeatload_W(s), h.SetAlbedoHeatload_W(a), h.SetEarthInfraredHeatload_W(e), h.SetHeaterHeatload_W(w);
    h.UpdateTotalHeatload();
    if (c.Chance(0.2)) {  // a load set from outside counts until the table is read again
      const double inside = h.GetInternalHeatload_W(), given = c.Real(0, 50);
      h.SetInternalHeatload_W(given);
      h.UpdateTotalHeatload();
      c.Near(h.GetInternalHeatload_W(), given, 0, 0, "given-load");
      c.Near(h.GetTotalHeatload_W(), given + s + a + e + w, 1e-9, 1e-12, "given-total");
      h.SetInternalHeatload_W(inside), h.UpdateTotalHeatload();
    }
    // around the jump at the end of the table either side is right
    double want = Interp(t, y, now);
    const double tol = 1e-9 * (mx + 1);
    if (t.size() > 1) {
      const double r = std::fmod(now, t.back());
      const double slack = 1e-9 * (1 + now);
      if ((r < slack || t.back() - r < slack) && std::fabs(h.GetInternalHeatload_W() - y.back()) < tol) want = y.back();
      else if (t.back() - r < slack && std::fabs(h.GetInternalHeatload_W() - y[0]) < tol) want = y[0];
      if (now > t.back()) c.Label("repeated"), c.NonTrivial();
    }
    double slope = 0;
    for (size_t i = 0; i + 1 < t.size(); i++) slope = std::max(slope, std::fabs(y[i + 1] - y[i]) / (t[i + 1] - t[i]));
    c.Near(h.GetInternalHeatload_W(), want, tol + 1e-14 * now * slope, 0, "internal-load", "at " + mission::Num(now));
    c.Near(h.GetTotalHeatload_W(), h.GetInternalHeatload_W() + s + a + e + w, 1e-9, 1e-12, "total-load");
  }
}
// ---------------------------------------------------------------- heater control
static void Hysteresis(Case& c) {
  double lo = c.Real(-60, 60), hi = c.Chance(0.08) ? lo : c.Int(0, 5) ? lo + c.Real(0, 20) : lo - c.Real(0.01, 20);
  const double power = c.Chance(0.1) ? -c.Real(0, 5) : c.Real(0, 50);
  th::Heater heater((size_t)c.Int(0, 5), power);
  th::HeaterController ctl(lo, hi);
  c.Note("band ", lo, " ", hi, " power ", power);
  if (hi < lo) hi = lo + 10;  // documented repair of a reversed band
  const double rating = std::max(0.0, power);
  c.Near(ctl.GetLowerThreshold_degC(), lo, 0, 0, "lower"), c.Near(ctl.GetUpperThreshold_degC(), hi, 0, 0, "upper");
  c.Near(ctl.GetLowerThreshold_K(), lo + 273.15, 1e-10, 0, "lower-K"), c.Near(ctl.GetUpperThreshold_K(), hi + 273.15, 1e-10, 0, "upper-K");
  bool on = false;
  int switches = 0;
  double temp = c.Real(lo - 20, hi + 20);
  for (int k = (int)c.Int(1, 40); k-- > 0;) {
    switch (c.Int(0, 5)) {
      case 0: temp = lo; break;
      case 1: temp = hi; break;
      case 2: temp = std::nextafter(c.Bool() ? lo : hi, c.Bool() ? 1e9 : -1e9); break;
      default: temp = c.Real(lo - 10, hi + 10);
    }
    if (c.Chance(0.1)) {  // the band is moved while running
      lo = c.Real(-60, 60), hi = lo + c.Real(0, 20);
      if (c.Bool()) ctl.SetLowerThreshold(lo), ctl.SetUpperThreshold(hi);
      else ctl.SetUpperThreshold(hi), ctl.SetLowerThreshold(lo);
      c.Near(ctl.GetLowerThreshold_K(), lo + 273.15, 1e-10, 0, "lower-K"), c.Near(ctl.GetUpperThreshold_K(), hi + 273.15, 1e-10, 0, "upper-K");
      c.Label("band moved");
      if (c.Bool()) temp = c.Real(lo - 10, hi + 10);
    }
    const bool was = on;
    if (on && temp > hi) on = false;
    else if (!on && temp < lo) on = true;
    if (was != on) switches++;
    ctl.ControlHeater(&heater, temp);
    c.Check((heater.GetHeaterStatus() == th::HeaterStatus::kOn) == on, "heater-state", "temperature " + mission::Num(temp) + (on ? " should be on" : " should be off"));
    c.Near(heater.GetPowerOutput_W(), on ? rating : 0, 0, 0, "heater-power");
  }
  if (switches > 1) c.NonTrivial();
  // a node whose parameters make no sense does not invent energy
  const double na = c.Bool() ? c.Unit() : c.Bool() ? 1 + c.LogReal(1e-6, 10) : -c.LogReal(1e-6, 10), ne = c.Bool() ? c.Unit() : c.Bool() ? 1 + c.LogReal(1e-6, 10) : -c.LogReal(1e-6, 10);
  const double area = c.Chance(0.8) ? c.Real(0.01, 2) : -c.Real(0.01, 2);
  const V3 d = c.Dir();
  th::Node node(1, "n", th::NodeType::kDiffusive, 0, c.Chance(0.9) ? 300 : -5, 10, na, ne, area, S(d));
  const double ka = na < 0 || na > 1 ? 0 : na, ke = ne < 0 || ne > 1 ? 0 : ne, kar = std::max(0.0, area);
  c.Near(node.CalcSolarRadiation_W(S(d), 1000), 1000 * ka * kar, 1e-9, 1e-12, "absorptivity-repair");
  const double ir = node.CalcEarthInfraredRadiation_W(S((7e6) * d), 200);
  c.Check(ke * kar > 0 ? ir > 0 && ir <= 200 * ke * kar * (1 + 1e-9) : ir == 0, "emissivity-repair", ir);
  c.Check(node.GetTemperature_K() >= 0, "temperature-repair");
}
// ---------------------------------------------------------------- networks
struct Net {
  struct N {
    int id, type, heater;
    double cap, alpha, eps, area, temp;
    V3 normal;
    std::vector<double> load;
  };
  struct H {
    double power, lo, hi;
    bool on = false;
  };
  std::vector<N> node;
  std::vector<H> heater;
  std::vector<std::vector<double>> cij, rij;
  std::vector<double> times;
  bool solar = false;
};
struct Sky {
  V3 sun{1, 0, 0}, earth{1e9, 0, 0};  // from the spacecraft, body frame
  double flux = 0, albedo = 0, ir = 0;
};
struct External {
  std::vector<double> solar, albedo, ir;
};
static External Loads(const Net& n, const Sky& s) {
  External x;
  const V3 ed = ref::Unit(s.earth), sd = ref::Unit(s.sun);
  for (auto& k : n.node) {
    const double f = k.type ? 0 : Factor(Angle(k.normal, ed), ref::Norm(s.earth)), m = k.area;
    x.solar.push_back(k.type || !n.solar ? 0 : s.flux * m * k.alpha * std::max(0.0, ref::Dot(sd, k.normal)));
    x.albedo.push_back(k.type || !n.solar ? 0 : s.albedo * m * k.alpha * f * AlbedoPhase(ed, sd));
    x.ir.push_back(k.type ? 0 : s.ir * m * k.eps * f);
  }
  return x;
}
// exact rate
static std::vector<double> Rate(const Net& n, const External& x, const std::vector<double>& T, double t) {
  std::vector<double> d(T.size(), 0);
  for (size_t i = 0; i < T.size(); i++) {
    const auto& k = n.node[i];
    if (k.type) continue;
    double q = x.solar[i] + x.albedo[i] + x.ir[i] + Interp(n.times, k.load, t);
    if (k.heater && n.heater[k.heater - 1].on) q += n.heater[k.heater - 1].power;
    for (size_t j = 0; j < T.size(); j++) q += n.cij[i][j] * (T[j] - T[i]) + kSb * n.rij[i][j] * (std::pow(T[j], 4) - std::pow(T[i], 4));
    d[i] = q / k.cap;
  }
  return d;
}
static void Advance(const Net& n, const External& x, std::vector<double>& T, double t0, double t1, double step) {
  auto f = [&](const std::vector<double>& y, double t) { return Rate(n, x, y, t); };
  const int m = std::max(1, (int)std::ceil((t1 - t0) / step - 1e-9));
  const double h = (t1 - t0) / m;
  for (int k = 0; k < m; k++) {
    const double t = t0 + k * h;
    auto add = [&](const std::vector<double>& a, double s, const std::vector<double>& b) {
      auto r = a;
      for (size_t i = 0; i < r.size(); i++) r[i] += s * b[i];
      return r;
    };
    auto k1 = f(T, t), k2 = f(add(T, h / 2, k1), t + h / 2), k3 = f(add(T, h / 2, k2), t + h / 2), k4 = f(add(T, h, k3), t + h);
    for (size_t i = 0; i < T.size(); i++) T[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  }
}
static std::string WriteNet(Case& c, const Net& n) {
  const std::string dir = c.TempDir() + "/";
  using mission::Num;
  std::string s = "Node_id,Node_label,type,heater,capacity,alpha,epsilon,area,nx,ny,nz,T\n";
  for (auto& k : n.node)
    s += Num(k.id) + ",N" + Num(k.id) + "," + Num(k.type) + "," + Num(k.heater) + "," + Num(k.cap) + "," + Num(k.alpha) + "," + Num(k.eps) + "," + Num(k.area) + "," + Num(2 * k.normal[0]) + "," +
         Num(2 * k.normal[1]) + "," + Num(2 * k.normal[2]) + "," + Num(k.temp) + "\n";
  mission::Spit(dir + "node.csv", s);
  s = "id,power,lower,upper\n";
  for (size_t i = 0; i < n.heater.size(); i++) s += Num(i + 1) + "," + Num(n.heater[i].power) + "," + Num(n.heater[i].lo) + "," + Num(n.heater[i].hi) + "\n";
  mission::Spit(dir + "heaters.csv", s);
  s = "NodeID/Times";
  for (double t : n.times) s += "," + Num(t);
  s += "\n";
  for (auto& k : n.node) {
    s += Num(k.id);
    for (double v : k.load) s += "," + Num(v);
    s += "\n";
  }
  mission::Spit(dir + "heatload.csv", s);
  for (auto m : {&n.cij, &n.rij}) {
    s = "node";
    for (auto& k : n.node) s += "," + Num(k.id);
    s += "\n";
    for (size_t i = 0; i < m->size(); i++) {
      s += Num(n.node[i].id);
      for (double v : (*m)[i]) s += "," + Num(v);
      s += "\n";
    }
    mission::Spit(dir + (m == &n.cij ? "cij.csv" : "rij.csv"), s);
  }
  mission::Spit(dir + "sat.ini", std::string("[THERMAL]\ncalculation=ENABLE\ndebug=0\nsolar_calc_setting=") + (n.solar ? "ENABLE" : "DISABLE") + "\nthermal_file_directory=" + dir + "\n");
  return dir + "sat.ini";
}
static Net AnyNet(Case& c, bool isolated) {
  Net n;
  const int m = c.Int(0, 39) ? (int)c.Int(1, 6) : (int)c.Int(7, 40);
  n.times = isolated ? std::vector<double>{0, 10} : TimeTable(c);
  n.solar = !isolated && c.Bool();
  for (int i = 0; i < m; i++) {
    Net::N k;
    k.id = i + (int)c.Int(0, 1) * 10, k.type = !isolated && c.Chance(0.25), k.heater = 0;
    k.cap = c.LogReal(5, 2000), k.alpha = c.Unit(), k.eps = c.Unit(), k.area = c.LogReal(1e-3, 0.5), k.temp = c.Real(200, 400);
    k.normal = c.Dir();
    if (!isolated && c.Chance(0.4)) {
      Net::H h;
      h.power = c.Real(0, 20), h.lo = k.temp - 273.15 + c.Real(-3, 3), h.hi = h.lo + c.Real(0, 3);
      n.heater.push_back(h);
      k.heater = (int)n.heater.size();
    }
    for (size_t j = 0; j < n.times.size(); j++) k.load.push_back(isolated ? 0 : c.Real(-2, 8));
    if (k.type && c.Bool()) k.cap = 0;
    n.node.push_back(k);
  }
  n.cij.assign(m, std::vector<double>(m, 0)), n.rij = n.cij;
  for (int i = 0; i < m; i++)
    for (int j = 0; j < m; j++) {
      if (i == j) {
        if (c.Bool()) n.cij[i][i] = c.Real(0, 2), n.rij[i][i] = c.Real(0, 0.1);  // no effect
        continue;
      }
      if (j < i && (isolated || c.Int(0, 3))) n.cij[i][j] = n.cij[j][i], n.rij[i][j] = n.rij[j][i];
      else {
        n.cij[i][j] = c.Chance(0.4) ? 0 : c.LogReal(1e-3, 1);
        n.rij[i][j] = c.Chance(0.4) ? 0 : c.LogReal(1e-4, 0.2);
      }
    }
  return n;
}
// slowest step that keeps every node's relaxation well resolved
static double Fastest(const Net& n) {
  double r = 1e-9;
  for (size_t i = 0; i < n.node.size(); i++) {
    if (n.node[i].type) continue;
    double s = 0;
    for (size_t j = 0; j < n.node.size(); j++)
      if (i != j) s += n.cij[i][j] + 4 * kSb * n.rij[i][j] * std::pow(420, 3);
    r = std::max(r, s / n.node[i].cap);
  }
  return 1 / r;
}
struct World {
  Rig rig;
  s2e::environment::SolarRadiationPressureEnvironment srp;
  s2e::environment::EarthAlbedo albedo;
  s2e::environment::EarthInfrared infrared;
  double factor, hot, cold;
  explicit World(Case& c) : srp(&rig.local), albedo(&rig.local, &srp), infrared(&rig.local, &srp) {
    factor = c.Real(0, 1), hot = c.Real(200, 320), cold = c.Real(150, 280);
    albedo.SetIsCalcEarthAlbedoEnabled(true), infrared.SetIsCalcEarthInfraredEnabled(true);
    albedo.SetEarthAlbedoFactor(factor), infrared.SetEarthTempHotSide_K(hot), infrared.SetEarthTempColdSide_K(cold);
  }
  Sky Move(Case& c) {
    const V3 r = (kRe + (c.Int(0, 4) ? c.LogReal(2e5, 1.6e6) : c.LogReal(1.8e6, 4e7))) * c.Dir();
    const Q4 q = c.Quat();
    rig.Update(r, {0, 0, 7000}, q);
    srp.UpdateAllStates(), albedo.UpdateAllStates(), infrared.UpdateAllStates();
    Sky s;
    s.sun = R(rig.local.GetPositionFromSpacecraft_b_m("SUN")), s.earth = ref::ToFrame(q, -r);
    s.flux = srp.GetPowerDensity_W_m2(), s.albedo = s.flux * factor;
    s.ir = kSb * std::pow(srp.GetShadowCoefficient() < 1 ? cold : hot, 4);
    return s;
  }
};
static std::string Describe(const Net& n) {
  std::ostringstream o;
  o.precision(6);
  for (auto& k : n.node) {
    o << "[node " << k.id << " type " << k.type << " heater " << k.heater << " C " << k.cap << " T " << k.temp << " loads";
    for (double v : k.load) o << " " << v;
    o << "] ";
  }
  o << "times";
  for (double t : n.times) o << " " << t;
  for (auto m : {&n.cij, &n.rij}) {
    o << (m == &n.cij ? " Cij" : " Rij");
    for (auto& r : *m) {
      o << " |";
      for (double v : r) o << " " << v;
    }
  }
  for (auto& h : n.heater) o << " heater " << h.power << " W " << h.lo << ".." << h.hi;
  return o.str();
}
static void Network(Case& c) {
  mission::Quiet quiet;
  Net n = AnyNet(c, false);
  World w(c);
  const double tau = Fastest(n), step = std::min(20.0, c.Real(0.005, 0.05) * tau);
  std::unique_ptr<th::Temperature> t(th::InitTemperature(WriteNet(c, n), step, &w.srp, &w.albedo, &w.infrared));
  c.Note(Describe(n), " step ", step, " tau ", tau, n.solar ? " solar" : "");
  const size_t m = n.node.size();
  std::vector<double> T;
  for (auto& k : n.node) T.push_back(k.temp);
  bool forced = true;
  double now = 0;
  for (auto& k : n.node) forced = forced && !k.type;
  if (m > 1 && (n.heater.size() || n.solar)) c.NonTrivial();
  for (int k = (int)c.Int(1, 6); k-- > 0;) {
    const Sky sky = w.Move(c);
    const External x = Loads(n, sky);
    const double end = now + (c.Bool() ? step * (double)c.Int(1, 12) : step * c.Real(0.05, 12));
    t->Propagate(&w.rig.local, end);
    std::vector<double> coarse = T, fine = T;
    Advance(n, x, coarse, now, end, step), Advance(n, x, fine, now, end, step / 8);
    for (size_t i = 0; i < m; i++)
      if (!(fine[i] > 60 && fine[i] < 700)) return;  // outside the range the step was chosen for
    auto got = t->GetNodes();
    for (size_t i = 0; i < m; i++) {
      const double tol = 4 * std::fabs(coarse[i] - fine[i]) + 3e-5 * 1e-2 + 1e-9 * fine[i];
      double kink = 0;  // slope changes of the load table inside a step
      double slope = 0, jump = std::fabs(n.node[i].load.back() - n.node[i].load[0]);
      for (size_t j = 0; j + 1 < n.times.size(); j++) slope = std::max(slope, std::fabs(n.node[i].load[j + 1] - n.node[i].load[j]) / (n.times[j + 1] - n.times[j]));
      if (!n.node[i].type) {
        const double reps = n.times.size() > 1 ? std::floor((end - now) / n.times.back()) + 1 : 0;
        kink = (reps * jump * step + slope * step * step * (reps * n.times.size() + 1)) / n.node[i].cap;
        // albedo and infrared of the reference come from a quadrature
        kink += 3e-5 * n.node[i].area * (sky.ir + sky.albedo) * (end - now) / n.node[i].cap;
      }
      if (n.node[i].type) c.Near(got[i].GetTemperature_K(), n.node[i].temp, 0, 0, "boundary");
      else c.Near(got[i].GetTemperature_K(), fine[i], tol + kink, 0, "temperature", "node " + std::to_string(i) + " at " + mission::Num(end));
      c.Near(got[i].GetSolarRadiation_W(), x.solar[i], 1e-6, 1e-6, "solar-load"), c.Near(got[i].GetAlbedoRadiation_W(), x.albedo[i], 2e-5 * n.node[i].area * sky.albedo + 1e-9, 1e-6, "albedo-load");
      c.Near(got[i].GetEarthInfraredRadiation_W(), x.ir[i], 2e-5 * n.node[i].area * sky.ir + 1e-9, 1e-6, "infrared-load");
    }
    // continue from the simulated temperatures, so that errors do not add up
    for (size_t i = 0; i < m; i++) T[i] = got[i].GetTemperature_K();
    now = end;
    auto log = rig::Log(*t);
    size_t columns = 0;
    for (size_t i = 0; i < m; i++) {
      const auto& k = n.node[i];
      if (k.heater) {
        auto& h = n.heater[k.heater - 1];
        const double deg = T[i] - 273.15;
        if (h.on && deg > h.hi) h.on = false, c.Label("heater off");
        else if (!h.on && deg < h.lo) h.on = true, c.Label("heater on");
        c.Near(t->GetHeaterPower_W(i), h.on ? h.power : 0, 0, 0, "heater", "node " + std::to_string(i) + " at " + mission::Num(deg) + " degC");
      } else c.Near(t->GetHeaterPower_W(i), 0, 0, 0, "no-heater");
      bool unique = true;
      for (size_t j = 0; j < m; j++) unique = unique && (i == j || n.node[j].id != k.id || n.node[j].type);
      const std::string key = std::to_string(k.id) + " (N" + std::to_string(k.id) + ")";
      if (k.type) continue;
      columns += 5;
      if (!unique) continue;
      c.Check(log.count("temp_" + key) && log.count("earthIR_" + key), "log-column", "temp_" + key);
      c.Near(log["temp_" + key], T[i] - 273.15, 1e-3, 1e-4, "log-temperature");
      c.Near(log["solar_" + key], got[i].GetSolarRadiation_W(), 1e-6, 1e-4, "log-solar"), c.Near(log["albedo_" + key], got[i].GetAlbedoRadiation_W(), 1e-6, 1e-4, "log-albedo");
      c.Near(log["earthIR_" + key], got[i].GetEarthInfraredRadiation_W(), 1e-6, 1e-4, "log-infrared");
    }
    c.Check(rig::Split(t->GetLogHeader()).size() == columns && rig::Split(t->GetLogValue()).size() == columns, "log-columns", "number of columns");
  }
}
static void Isolated(Case& c) {
  mission::Quiet quiet;
  Net n = AnyNet(c, true);
  const size_t m = n.node.size();
  World w(c);
  w.infrared.SetEarthTempHotSide_K(0), w.infrared.SetEarthTempColdSide_K(0), w.hot = w.cold = 0;
  w.Move(c);
  const double tau = Fastest(n), step = c.Real(0.01, 0.2) * std::min(tau, 1e4), end = step * c.Int(1, 200);
  Net p = n;  // the same network with its nodes in another order
  std::vector<size_t> order(m);
  for (size_t i = 0; i < m; i++) order[i] = i;
  for (size_t i = m; i-- > 1;) std::swap(order[i], order[(size_t)c.Int(0, (int)i)]);
  for (size_t i = 0; i < m; i++) {
    p.node[i] = n.node[order[i]];
    for (size_t j = 0; j < m; j++) p.cij[i][j] = n.cij[order[i]][order[j]], p.rij[i][j] = n.rij[order[i]][order[j]];
  }
  std::unique_ptr<th::Temperature> a(th::InitTemperature(WriteNet(c, n), step, &w.srp, &w.albedo, &w.infrared)), b(th::InitTemperature(WriteNet(c, p), step, &w.srp, &w.albedo, &w.infrared));
  c.Note(Describe(n), " step ", step, " end ", end);
  double heat = 0, cap = 0, lo = 1e9, hi = 0;
  for (auto& k : n.node) heat += k.cap * k.temp, cap += k.cap, lo = std::min(lo, k.temp), hi = std::max(hi, k.temp);
  if (m > 2) c.NonTrivial();
  double now = 0;
  while (now < end * (1 - 1e-12)) {
    now = std::min(end, now + step * c.Real(0.5, 30));
    a->Propagate(&w.rig.local, now), b->Propagate(&w.rig.local, now);
    auto x = a->GetNodes(), y = b->GetNodes();
    double sum = 0, l = 1e9, h = 0;
    for (size_t i = 0; i < m; i++) {
      const double T = x[i].GetTemperature_K();
      sum += n.node[i].cap * T, l = std::min(l, T), h = std::max(h, T);
      c.Near(y[i].GetTemperature_K(), x[order[i]].GetTemperature_K(), 1e-7, 0, "node-order");
    }
    c.Near(sum, heat, 1e-10 * cap * hi, 0, "conserved", "heat of an isolated network");
    // the hottest cools and the coldest warms
    c.Check(h <= hi + 1e-9 && l >= lo - 1e-9, "overshoot", "temperatures " + mission::Num(l) + ".." + mission::Num(h) + " outside " + mission::Num(lo) + ".." + mission::Num(hi));
    lo = l, hi = h;
  }
}
// ---------------------------------------------------------------- a spacecraft
static void Spacecraft(Case& c) {
  mission::Quiet quiet;
  Net n = AnyNet(c, true);
  n.node.resize(1), n.cij = n.rij = {{0.0}};
  n.times = {0, 1e6};
  const double load = c.Real(-1, 5);
  n.node[0].load = {load, load};
  n.node[0].eps = 0;
  WriteNet(c, n);
  const std::string dir = c.TempDir() + "/";
  mission::Settings s(c);
  const double step = (double)c.Int(1, 3), every = step * (double)c.Int(1, 4), rk = c.Bool() ? every : c.Real(0.3, 1) * every, total = every * (double)c.Int(2, 8);
  mission::SetTime(s, "2020/01/01 12:00:00.0", total, step, step, step, step, step, every, rk, step, step);
  const std::string sat = s.Sat(0) + "satellite.ini";
  const bool on = c.Int(0, 4) > 0;
  s.Set(sat, "THERMAL", "calculation", on ? "ENABLE" : "DISABLE"), s.Set(sat, "THERMAL", "solar_calc_setting", "DISABLE"), s.Set(sat, "THERMAL", "thermal_file_directory", dir);
  mission::Mission m(s);
  c.Note(Describe(n), " step ", step, " every ", every, " rk ", rk, on ? "" : " disabled");
  if (on) c.NonTrivial();
  const double rate = load / n.node[0].cap;
  double start = std::nan("");
  m.after_update = [&](mission::Mission&) {
    const double t = m.Time().GetElapsedTime_s();
    auto nodes = const_cast<th::Temperature&>(m.Sc(0).Dyn().GetTemperature()).GetNodes();
    if (!on) {
      c.Check(nodes.empty(), "disabled", "a disabled thermal calculation has nodes");
      return;
    }
    c.Check(nodes.size() == 1, "nodes", "number of nodes");
    const double lag = (nodes[0].GetTemperature_K() - n.node[0].temp) / rate - t;
    c.Check(std::fabs(load) < 1e-3 || (lag < 1e-3 && lag > -every * (1 + 1e-9) - 1e-3), "schedule", "temperature lags the heat balance by " + mission::Num(lag) + " s at " + mission::Num(t));
  };
  m.Initialize();
  m.Main();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "D06", "radiation partly visible or from high orbit; load table repeated; several heater switches; networks of several nodes with heaters or sunlight; isolated networks of three or more nodes",
                   {{"radiation", Radiation, 20000, 600000, 200}, {"loads", LoadTable, 10000, 400000, 200}, {"hysteresis", Hysteresis, 10000, 400000, 200}, {"network", Network, 1500, 40000, 20, 60}, {"isolated", Isolated, 800, 20000, 20, 60}, {"spacecraft", Spacecraft, 60, 800, 5, 60}});
}
