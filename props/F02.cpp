// link: sim
#include <disturbances/geopotential.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <math_physics/gravity/gravity_potential.hpp>
#include "mission.hpp"
#include "rig.hpp"
using pbt::Case;
using namespace rig;
using LD = long double;
// value with gradient and Hessian in x,y,z (second-order automatic differentiation)
struct D2 {
  LD v = 0, g[3] = {0, 0, 0}, h[6] = {0, 0, 0, 0, 0, 0};  // h: xx xy xz yy yz zz
};
static const int HI[6] = {0, 0, 0, 1, 1, 2}, HJ[6] = {0, 1, 2, 1, 2, 2};
static D2 operator+(const D2& a, const D2& b) {
  D2 r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++) r.g[i] = a.g[i] + b.g[i];
  for (int k = 0; k < 6; k++) r.h[k] = a.h[k] + b.h[k];
  return r;
}
static D2 operator*(const D2& a, const D2& b) {
  D2 r;
  r.v = a.v * b.v;
  for (int i = 0; i < 3; i++) r.g[i] = a.v * b.g[i] + b.v * a.g[i];
  for (int k = 0; k < 6; k++) r.h[k] = a.v * b.h[k] + b.v * a.h[k] + a.g[HI[k]] * b.g[HJ[k]] + a.g[HJ[k]] * b.g[HI[k]];
  return r;
}
static D2 operator*(LD s, D2 a) {
  a.v *= s;
  for (LD& x : a.g) x *= s;
  for (LD& x : a.h) x *= s;
  return a;
}
static D2 InverseNorm(const D2& q) {  // q^(-1/2)
  const LD f = 1 / sqrtl(q.v), f1 = -f / (2 * q.v), f2 = 3 * f / (4 * q.v * q.v);
  D2 r;
  r.v = f;
  for (int i = 0; i < 3; i++) r.g[i] = f1 * q.g[i];
  for (int k = 0; k < 6; k++) r.h[k] = f1 * q.h[k] + f2 * q.g[HI[k]] * q.g[HJ[k]];
  return r;
}
using Coef = std::vector<std::vector<double>>;
struct Field {
  int n = 0;
  Coef c, s;
};
struct Pull {
  V3 a;
  LD h[6];
  double scale, scale_h;  // sums of magnitudes of the terms
};
// GM/R * sum over n,m of (R/r)^(n+1) P_nm(z/r) (C cos m lambda + S sin m lambda), fully normalised, by standard forward columns
static Pull Truth(const Field& f, int degree, double gm, double radius, const V3& pos, int lowest = 0) {
  D2 x[3];
  for (int i = 0; i < 3; i++) x[i].v = (LD)pos[i], x[i].g[i] = 1;
  const D2 inv = InverseNorm(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), ux = x[0] * inv, uy = x[1] * inv, u = x[2] * inv, rho = (LD)radius * inv;
  std::vector<D2> power(degree + 2);
  power[0] = rho;
  for (int n = 1; n <= degree; n++) power[n] = power[n - 1] * rho;
  D2 cm, sm, hmm, total;
  cm.v = 1, hmm.v = 1;
  LD scale = 0;
  const LD q = (LD)radius / ref::Norm(pos);
  for (int m = 0; m <= degree; m++) {
    if (m) {
      const D2 c = cm * ux + (-1.0L) * (sm * uy), s = sm * ux + cm * uy;
      cm = c, sm = s;
      hmm = sqrtl(m == 1 ? 3.0L : (2.0L * m + 1) / (2.0L * m)) * hmm;
    }
    D2 h1, h2;
    D2 sum_c, sum_s;
    for (int n = m; n <= degree; n++) {
      D2 h;
      if (n == m)
        h = hmm;
      else {
        const LD a = sqrtl((2.0L * n - 1) * (2.0L * n + 1) / ((LD)(n - m) * (n + m)));
        const LD b = n - 1 == m ? 0 : sqrtl((2.0L * n + 1) * (n + m - 1.0L) * (n - m - 1.0L) / ((2.0L * n - 3) * (n - m) * (n + m)));
        h = a * (u * h1) + (-b) * h2;
      }
      h2 = h1, h1 = h;
      if (n < lowest) continue;
      const D2 t = power[n] * h;
      sum_c = sum_c + (LD)f.c[n][m] * t, sum_s = sum_s + (LD)f.s[n][m] * t;
      scale += (fabsl(f.c[n][m]) + fabsl(f.s[n][m])) * powl(q, n + 2) * (n + 1) * sqrtl(2.0L * n + 1);
    }
    total = total + sum_c * cm + sum_s * sm;
  }
  Pull p;
  const LD k = (LD)gm / radius;
  for (int i = 0; i < 3; i++) p.a[i] = (double)(k * total.g[i]);
  for (int i = 0; i < 6; i++) p.h[i] = k * total.h[i];
  p.scale = (double)(scale * k / radius), p.scale_h = p.scale * (degree + 2) / ref::Norm(pos);
  return p;
}
static Field Random(Case& c, int n, int lowest) {
  Field f;
  f.n = n;
  f.c.assign(n + 1, std::vector<double>(n + 1, 0.0)), f.s = f.c;
  const int kind = (int)c.Int(0, 3);
  const double amp = c.LogReal(1e-9, 1);
  const int only_n = (int)c.Int(lowest, n);
  for (int i = lowest; i <= n; i++)
    for (int m = 0; m <= i; m++) {
      if (kind == 0 && i != only_n) continue;                   // single degree
      if (kind == 1 && m) continue;                             // zonal
      const double k = kind == 2 ? 1e-5 / (i * i + 1) : amp;  // Kaula-like
      // %.17g text in the coefficient file reproduces these exactly
      f.c[i][m] = k * (2 * c.Unit() - 1);
      if (m) f.s[i][m] = k * (2 * c.Unit() - 1);
    }
  return f;
}
static V3 Place(Case& c, double radius) {
  const double r = radius * (c.Chance(0.1) ? c.Real(0.98, 1.0) : c.Bool() ? c.Real(1.0, 1.3) : c.LogReal(1.0, 70));
  V3 d = c.Dir();
  switch (c.Int(0, 5)) {
    case 0: d = {0, 0, c.Bool() ? 1.0 : -1.0}; break;                                    // on the axis
    case 1: d = ref::Unit(V3{c.LogReal(1e-12, 1e-2), c.LogReal(1e-12, 1e-2), 1}); break;  // near it
    case 2: d = ref::Unit(V3{d[0], d[1], 0}); break;
    default: break;
  }
  return r * (ref::Norm(d) > 0.5 ? d : V3{1, 0, 0});
}
static void Potential(Case& c) {
  const int n = c.Chance(0.03) ? (int)c.Int(60, 360) : c.Chance(0.2) ? (int)c.Int(13, 40) : (int)c.Int(2, 12);
  const double gm = c.LogReal(1e10, 1e17), radius = c.LogReal(1e5, 1e8);
  const Field f = Random(c, n, (int)c.Int(0, 2));
  s2e::gravity::GravityPotential g(n, f.c, f.s, gm, radius);
  c.Note("degree ", n, " gm ", gm, " radius ", radius);
  for (int k = 0; k < (n > 60 ? 2 : 6); k++) {
    const V3 pos = Place(c, radius);
    const Pull t = Truth(f, n, gm, radius, pos);
    Near3(c, R(g.CalcAcceleration_xcxf_m_s2(S(pos))), t.a, 3e-14 * (n + 5) * t.scale, 0, "acceleration");
    const auto h = g.CalcPartialDerivative_xcxf_s2(S(pos));
    double worst = 0;
    for (int i = 0; i < 6; i++) worst = std::max({worst, (double)fabsl(h[HI[i]][HJ[i]] - t.h[i]), std::fabs(h[HJ[i]][HI[i]] - h[HI[i]][HJ[i]])});
    c.Near(worst, 0, 3e-14 * (n + 5) * t.scale_h, 0, "gradient", "largest element error of the gravity gradient");
    c.NonTrivial(t.scale > 0);
  }
}
static std::string Egm96(Case& c, const Field& f, int upto) {
  std::string t;
  const bool wide = c.Bool();
  char b[200];
  for (int n = 2; n <= upto; n++)
    for (int m = 0; m <= n; m++) {
      snprintf(b, sizeof b, wide ? "%4d%4d %.17E %.17E  0.12E-10 0.0E+00\n" : "%d %d %.17g %.17g\n", n, m, n <= f.n ? f.c[n][m] : 0.0, n <= f.n ? f.s[n][m] : 0.0);
      t += b;
    }
  return t;
}
static mission::Settings Basic(Case& c, double radius, double gm) {
  mission::Settings s(c);
  const std::string sat = "sample_satellite/satellite.ini";
  mission::SetTime(s, "202" + std::to_string(c.Int(0, 4)) + "/0" + std::to_string(c.Int(1, 9)) + "/1" + std::to_string(c.Int(0, 9)) + " 11:00:00.0", 100, 10, 10, 10, 10, 10, 10, 10, 10, 10);
  const V3 u = Place(c, radius);
  const double r = ref::Norm(u);
  const V3 w = ref::Unit(ref::Cross(u, std::fabs(u[2]) < 0.9 * r ? V3{0, 0, 1} : V3{1, 0, 0}));
  s.SetVec(sat, "ORBIT", "initial_position_i_m", (r < 1.05 * radius ? 1.05 * radius / r : 1) * u);
  s.SetVec(sat, "ORBIT", "initial_velocity_i_m_s", std::sqrt(gm / r) * w);
  s.SetVec(sat, "ATTITUDE", "initial_quaternion_i2b", c.Quat(), 4);
  for (const char* k : {"AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "MAGNETIC_DISTURBANCE", "GRAVITY_GRADIENT"}) s.Set("sample_satellite/disturbance.ini", k, "calculation", "DISABLE");
  return s;
}
static const struct {
  const char* name;
  int id;
} kBodies[] = {{"EARTH", 399}, {"SUN", 10}, {"MOON", 301}, {"MERCURY", 199}, {"VENUS", 299}, {"MARS", 499}, {"JUPITER", 599}, {"SATURN", 699}};
// a mission about the Earth or the Moon with its field and third bodies
static void Mission(Case& c) {
  mission::Quiet quiet;
  const bool moon = c.Chance(0.4);
  const double radius = moon ? c.Real(1.7e6, 1.8e6) : 6378136.6, gm = moon ? fake::GM(301) * 1e9 : fake::GM(399) * 1e9;
  mission::Settings s = Basic(c, radius, gm);
  const std::string di = "sample_satellite/disturbance.ini", base = mission::Settings::kBase, cel = "CELESTIAL_INFORMATION";
  const bool big = !moon && c.Chance(0.015);  // the Earth's model ends at degree 360
  const int asked = big ? (int)c.Int(355, 420) : (int)c.Int(0, 14), usable = asked <= 1 ? 0 : std::min(asked, 360), in_file = big ? 360 : usable + (int)c.Int(0, 3);
  const bool missing = c.Chance(0.08), field_on = c.Chance(0.85), third_on = c.Chance(0.7);
  const Field f = Random(c, std::max(usable, 2), 2);
  const std::string name = c.TempDir() + "/f.tab";
  const double file_gm = moon ? gm / 1e9 * c.Real(0.9, 1.1) : 398600.4415;
  bool damaged = false;
  if (!moon) {
    std::string text = Egm96(c, f, std::max(in_file, 2));
    if (c.Chance(0.06)) {
      damaged = true;
      const size_t p = (size_t)c.Int(0, (int64_t)text.size() / 2), b = text.rfind('\n', p) == std::string::npos ? 0 : text.rfind('\n', p) + 1;
      if (c.Bool())
        text.resize(p);  // cut short
      else
        text.replace(b, text.find('\n', b) - b, c.Of<std::string>({"", "garbage", "99999 0 1 1", "-1 0 1 1", "2 3 1 1", "2 1"}));
    }
    mission::Spit(name, text);
  } else {
    char b[300];
    snprintf(b, sizeof b, " %.17E, %.17E, 2.8E-04, 1200, 1200, 1, 0.0E+00, 0.0E+00\n", radius / 1e3, file_gm);
    std::string t = b;
    for (int n = 1; n <= std::max(in_file, 2); n++)
      for (int m = 0; m <= n; m++) {
        const bool in = n >= 2 && n <= f.n;
        snprintf(b, sizeof b, "%5d,%5d,%.17E,%.17E, 1.0E-10, 0.0E+00\n", n, m, in ? f.c[n][m] : 0.0, in ? f.s[n][m] : 0.0);
        t += b;
      }
    mission::Spit(name, t);
  }
  const char* section = moon ? "LUNAR_GRAVITY_FIELD" : "GEOPOTENTIAL";
  s.Set(di, section, "calculation", field_on), s.Set(di, section, "degree", asked);
  s.Set(di, section, "coefficients_file_path", missing ? name + "x" : name);
  if (moon && c.Bool()) {  // the Earth's field does not act about the Moon, enabled or not
    const std::string earth = c.TempDir() + "/e.tab";
    mission::Spit(earth, Egm96(c, Random(c, 4, 2), 4));
    s.Set(di, "GEOPOTENTIAL", "calculation", "ENABLE"), s.Set(di, "GEOPOTENTIAL", "degree", 4), s.Set(di, "GEOPOTENTIAL", "coefficients_file_path", earth);
    c.Label("earth field enabled about the moon");
  }
  // centre and selected bodies
  s.Set(base, cel, "center_object", moon ? "MOON" : "EARTH");
  std::vector<int> chosen = {0, 1, 2};
  for (int i = 3; i < 8; i++)
    if (c.Bool()) chosen.push_back(i);
  s.Set(base, cel, "number_of_selected_body", (int)chosen.size());
  for (size_t i = 0; i < chosen.size(); i++) s.Set(base, cel, "selected_body_name(" + std::to_string(i) + ")", kBodies[chosen[i]].name);
  s.Set(base, cel, "rotation_mode(0)", c.Of<const char*>({"FULL", "SIMPLE", "IDLE"}));
  s.Set(base, cel, "rotation_mode(2)", c.Of<const char*>({"SIMPLE", "IAU_MOON", "IDLE"}));
  std::vector<int> third;
  for (int b : chosen)
    if (b != (moon ? 2 : 0) && c.Chance(0.7)) third.push_back(b);
  s.Set(di, "THIRD_BODY_GRAVITY", "calculation", third_on), s.Set(di, "THIRD_BODY_GRAVITY", "number_of_third_body", (int)third.size());
  for (size_t i = 0; i < third.size(); i++) s.Set(di, "THIRD_BODY_GRAVITY", "third_body_name(" + std::to_string(i) + ")", kBodies[third[i]].name);
  c.Note(moon ? "moon" : "earth", " degree ", asked, missing ? " no file" : "", damaged ? " damaged" : "", field_on ? " on" : " off", " third bodies ", third.size());
  mission::Mission m(s);
  m.Initialize();
  auto& sc = m.Sc();
  c.Label(moon ? "moon" : "earth");
  for (int k = 0; k < 3; k++) {
    const V3 pos = R(sc.Dyn().GetOrbit().GetPosition_i_m()), ecef = R(sc.Dyn().GetOrbit().GetPosition_ecef_m());
    m.Step();
    auto& cel_info = m.Env().GetCelestialInformation();
    V3 want{0, 0, 0};
    double tol = 1e-20;
    if (field_on && usable && !missing) {
      const M3 i2f = moon ? R(cel_info.GetMoonRotation().GetDcmJ2000ToMcmf()) : R(cel_info.GetEarthRotation().GetDcmJ2000ToEcef());
      const Pull t = Truth(f, usable, moon ? file_gm * 1e9 : 3.986004415e14, radius, moon ? i2f * pos : ecef);
      want = want + ref::T(i2f) * t.a;
      tol += 1e-12 * t.scale;
      c.NonTrivial(t.scale > 0);
    }
    if (third_on)
      for (int b : third) {
        const V3 s_i = R(cel_info.GetPositionFromCenter_i_m(kBodies[b].name)), d = s_i - pos;
        const double mu = fake::GM(kBodies[b].id) * 1e9, nd = ref::Norm(d), ns = ref::Norm(s_i);
        want = want + mu * (1 / (nd * nd * nd) * d + (-1 / (ns * ns * ns)) * s_i);
        tol += 3e-15 * mu * (1 / (nd * nd) + 1 / (ns * ns));
        c.NonTrivial();
      }
    const V3 got = R(sc.Dist().GetAcceleration_i_m_s2());
    if (damaged && field_on && !missing)
      c.Check(std::isfinite(ref::Norm(got)), "damaged-file");
    else
      Near3(c, got, want, tol, 0, "mission-acceleration");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "F02", "a field with nonzero coefficients or at least one third body acts",
                   {{"potential", Potential, 800, 20000, 10, 60}, {"mission", Mission, 600, 12000, 5, 60}}, {"coefficient files are generated, none is shipped"});
}
