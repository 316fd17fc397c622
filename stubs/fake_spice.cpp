#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include "SpiceUsr.h"
#include "fake_env.hpp"
namespace fake {
std::function<bool(int, double, State&)> state_override;
std::function<bool(int, std::array<double, 3>&)> radii_override;
std::vector<std::string> furnished;
long spkezr_calls = 0;
std::string last_frame, last_correction;
nrlmsise_input last_msis_input;
ap_array last_msis_ap;
long msis_calls = 0;
struct Body { int id; const char* name; double gm; double r[3]; int parent; double a, period_d, inc, phase, ecc_dummy; };
static const double kAu = 149597870.7;
// id, name, GM, radii, parent, orbit radius[km], period[day], inclination to J2000 equator [rad], phase [rad]
static const Body kBodies[] = {
    {0, "SOLAR_SYSTEM_BARYCENTER", 0, {0, 0, 0}, -1, 0, 1, 0, 0, 0},
    {10, "SUN", 1.32712440041e11, {696000, 696000, 696000}, 0, 742000.0, 4332.6, 0.41, 1.0, 0},
    {199, "MERCURY", 2.2031868551e4, {2440.53, 2440.53, 2438.26}, 10, 0.387 * kAu, 87.97, 0.49, 0.3, 0},
    {299, "VENUS", 3.24858592e5, {6051.8, 6051.8, 6051.8}, 10, 0.723 * kAu, 224.7, 0.43, 2.2, 0},
    {399, "EARTH", 3.98600435436e5, {6378.1366, 6378.1366, 6356.7519}, 10, kAu, 365.25636, 0.40909, 1.75, 0},
    {301, "MOON", 4.902800066e3, {1737.4, 1737.4, 1737.4}, 399, 384400.0, 27.321661, 0.4935, 0.9, 0},
    {499, "MARS", 4.282837362e4, {3396.19, 3396.19, 3376.2}, 10, 1.524 * kAu, 686.98, 0.42, 4.4, 0},
    {599, "JUPITER", 1.26686531900e8, {71492, 71492, 66854}, 10, 5.203 * kAu, 4332.6, 0.40, 5.5, 0},
    {699, "SATURN", 3.7931206234e7, {60268, 60268, 54364}, 10, 9.58 * kAu, 10759.2, 0.39, 0.2, 0},
    {799, "URANUS", 5.793951256e6, {25559, 25559, 24973}, 10, 19.2 * kAu, 30688.5, 0.41, 1.2, 0},
    {899, "NEPTUNE", 6.835099970e6, {24764, 24764, 24341}, 10, 30.05 * kAu, 60182, 0.40, 3.2, 0},
    {999, "PLUTO", 8.696138e2, {1188.3, 1188.3, 1188.3}, 10, 39.5 * kAu, 90560, 0.62, 4.9, 0},
};
static const Body* FindId(int id) {
  for (auto& b : kBodies) if (b.id == id) return &b;
  return nullptr;
}
static const Body* FindName(const char* n) {
  std::string s(n);
  while (!s.empty() && s.back() == ' ') s.pop_back();
  size_t i = 0;
  while (i < s.size() && s[i] == ' ') i++;
  s = s.substr(i);
  for (auto& c : s) c = (char)toupper(c);
  const std::string suffix = "_BARYCENTER";
  if (s.size() > suffix.size() && s != "SOLAR_SYSTEM_BARYCENTER" && s.compare(s.size() - suffix.size(), suffix.size(), suffix) == 0) s.resize(s.size() - suffix.size());
  if (s == "SSB") s = "SOLAR_SYSTEM_BARYCENTER";
  for (auto& b : kBodies) if (s == b.name) return &b;
  return nullptr;
}
State BodyState(int id, double et) {
  State st{};
  if (state_override && state_override(id, et, st)) return st;
  const Body* b = FindId(id);
  if (!b || b->parent < 0) return st;
  st = BodyState(b->parent, et);
  const double w = 2 * M_PI / (b->period_d * 86400.0);
  const double th = b->phase + w * et;
  const double ci = cos(b->inc), si = sin(b->inc);
  const double x = b->a * cos(th), y = b->a * sin(th), vx = -b->a * w * sin(th), vy = b->a * w * cos(th);
  st[0] += x; st[1] += y * ci; st[2] += y * si;
  st[3] += vx; st[4] += vy * ci; st[5] += vy * si;
  return st;
}
double GM(int id) { auto* b = FindId(id); return b ? b->gm : 0.0; }
std::array<double, 3> Radii(int id) {
  std::array<double, 3> r{};
  if (radii_override && radii_override(id, r)) return r;
  auto* b = FindId(id);
  if (b) r = {b->r[0], b->r[1], b->r[2]};
  return r;
}
std::array<double, 9> MoonRot(double et) {
  const double ra = -90.0 * M_PI / 180 + 0.02 * sin(1e-8 * et), dec = 66.5 * M_PI / 180, w = 0.67 + 2.6617e-6 * et;
  const double a = M_PI / 2 + ra, d = M_PI / 2 - dec;
  const double ca = cos(a), sa = sin(a), cd = cos(d), sd = sin(d), cw = cos(w), sw = sin(w);
  // Rz(w) Rx(d) Rz(a)
  return {cw * ca - sw * cd * sa, cw * sa + sw * cd * ca, sw * sd, -sw * ca - cw * cd * sa, -sw * sa + cw * cd * ca, cw * sd, sd * sa, -sd * ca, cd};
}
double MsisDensity(const nrlmsise_input& in) {
  const double bulge = 1.0 + 0.3 * cos(in.g_lat * M_PI / 180) * cos((in.lst - 14.0) * M_PI / 12.0);
  const double scale = 50.0 + 0.1 * in.f107A + 0.05 * in.f107 + 0.2 * in.ap;
  return 2.0e-12 * bulge * (1 + 0.1 * cos(2 * M_PI * in.doy / 365.25)) * exp(-(in.alt - 400.0) / scale);
}
}  // namespace fake

extern "C" {
void bodvcd_c(SpiceInt id, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* v) {
  if (!strcmp(item, "GM")) { v[0] = fake::GM(id); *dim = 1; return; }
  if (!strcmp(item, "RADII")) { auto r = fake::Radii(id); for (int i = 0; i < 3 && i < maxn; i++) v[i] = r[i]; *dim = 3; return; }
  *dim = 0;
}
void bodc2n_c(SpiceInt code, SpiceInt len, SpiceChar* name, SpiceBoolean* found) {
  auto* b = fake::FindId(code);
  *found = b ? SPICETRUE : SPICEFALSE;
  if (b) snprintf(name, (size_t)len, "%s", b->name);
}
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found) {
  auto* b = fake::FindName(name);
  *found = b ? SPICETRUE : SPICEFALSE;
  if (b) *code = b->id;
}
void furnsh_c(ConstSpiceChar* file) { fake::furnished.push_back(file); }
void str2et_c(ConstSpiceChar* str, SpiceDouble* et) {
  double jd = 0;
  if (sscanf(str, "jd %lf", &jd) != 1 && sscanf(str, "JD %lf", &jd) != 1) { fprintf(stderr, "fake str2et_c: cannot parse '%s'\n", str); abort(); }
  *et = (jd - 2451545.0) * 86400.0 + fake::kTdbMinusUtc;
}
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* frame, ConstSpiceChar* correction, ConstSpiceChar* obs, SpiceDouble st[6], SpiceDouble* lt) {
  fake::spkezr_calls++;
  fake::last_frame = frame, fake::last_correction = correction;
  auto *t = fake::FindName(target), *o = fake::FindName(obs);
  if (!t || !o) { fprintf(stderr, "fake spkezr_c: unknown body '%s' / '%s'\n", target, obs); abort(); }
  auto a = fake::BodyState(t->id, et), b = fake::BodyState(o->id, et);
  for (int i = 0; i < 6; i++) st[i] = a[i] - b[i];
  // planetary ephemerides hold only the barycentres of the planets from Mars outwards
  if (t->id >= 499 && !strstr(target, "BARYCENTER")) { fprintf(stderr, "fake spkezr_c: insufficient ephemeris data for '%s'\n", target); abort(); }
  *lt = std::sqrt(st[0] * st[0] + st[1] * st[1] + st[2] * st[2]) / 299792.458;
}
void sxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble et, SpiceDouble x[6][6]) {
  auto m = fake::MoonRot(et);
  memset(x, 0, sizeof(double) * 36);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x[i][j] = x[i + 3][j + 3] = m[i * 3 + j];
}
void gtd7(struct nrlmsise_input* in, struct nrlmsise_flags* flags, struct nrlmsise_output* out) {
  fake::last_msis_input = *in;
  if (in->ap_a) fake::last_msis_ap = *in->ap_a;
  fake::msis_calls++;
  memset(out, 0, sizeof *out);
  out->d[5] = fake::MsisDensity(*in);
  // as in the real model: kg/m3 only with switch 0 set, otherwise g/cm3; every other switch turns an effect on
  if (!flags->switches[0]) out->d[5] *= 1e-3;
  for (int i = 1; i < 24; i++)
    if (!flags->switches[i]) out->d[5] *= 1 - 0.01 * i;
}
}
