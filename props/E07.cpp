// link: sim
#include <components/real/mission/telescope.hpp>
#include <environment/global/hipparcos_catalogue.hpp>
#include <set>
#include "rig.hpp"
using pbt::Case;
using namespace rig;
struct StarRow {
  int id;
  double mag, ra, dec;
};
static std::string File(Case& c, const std::vector<StarRow>& stars) {
  std::string t = "hip_id,vmag,ra_deg,dec_deg";
  for (auto& s : stars) {
    char b[120];
    snprintf(b, sizeof b, "\n%d,%.2f,%.8f,%.8f", s.id, s.mag, s.ra, s.dec);
    t += b;
  }
  if (c.Bool()) t += "\n";
  const std::string path = c.TempDir() + "/hip.csv";
  mission::Spit(path, t);
  return path;
}
static std::vector<StarRow> Stars(Case& c, int n, const std::function<V3()>& dir) {
  std::vector<StarRow> s;
  std::set<int> used;
  for (int i = 0; i < n; i++) {
    const V3 d = dir();
    int id = (int)c.Int(1, 120404);
    while (!used.insert(id).second) id++;
    double ra = std::atan2(d[1], d[0]) * 180 / M_PI;
    if (ra < 0) ra += 360;
    s.push_back({id, c.Int(-144, 900) / 100.0, std::round(ra * 1e8) / 1e8, std::round(std::asin(std::max(-1.0, std::min(1.0, d[2]))) * 180 / M_PI * 1e8) / 1e8});
  }
  std::stable_sort(s.begin(), s.end(), [](const StarRow& a, const StarRow& b) { return a.mag < b.mag; });
  return s;
}
static V3 StarDir(const StarRow& s) {
  const double a = s.ra * M_PI / 180, d = s.dec * M_PI / 180;
  return {std::cos(a) * std::cos(d), std::sin(a) * std::cos(d), std::sin(d)};
}
// limiting magnitude never equal to a listed magnitude up to rounding, unless exactly so
static double Limit(Case& c, const std::vector<StarRow>& s) {
  if (!s.empty() && c.Bool()) return c.From(s).mag + c.Of<double>({0.0, 0.005, -0.005});
  return c.Real(-2, 10);
}
static s2e::environment::HipparcosCatalogue* Load(Case& c, const std::vector<StarRow>& s, double limit, bool calc = true) {
  const std::string path = File(c, s), ini = c.TempDir() + "/hip.ini";
  mission::Spit(ini, "[HIPPARCOS_CATALOGUE]\ncatalogue_file_path=" + path + "\nmax_magnitude=" + mission::Num(limit) + "\ncalculation=" + (calc ? "ENABLE" : "DISABLE") + "\nlogging=DISABLE\n");
  mission::Quiet quiet;
  return s2e::environment::InitHipparcosCatalogue(ini);
}
static void Catalogue(Case& c) {
  auto s = Stars(c, c.Int(0, 59) ? (int)c.Int(0, 60) : (int)c.Int(61, 3000), [&] { return c.Dir(); });
  const double limit = Limit(c, s);
  const bool calc = c.Chance(0.95);
  c.Note(s.size(), " stars, limit ", limit, " calculation ", calc);
  std::unique_ptr<s2e::environment::HipparcosCatalogue> h(Load(c, s, limit, calc));
  std::vector<StarRow> want;
  for (auto& x : s)
    if (calc && x.mag <= limit) want.push_back(x);
  c.Check(h->GetCatalogueSize() == want.size(), "catalogue-size", "got ", h->GetCatalogueSize(), " want ", want.size());
  const Q4 q = c.Quat();
  for (size_t i = 0; i < want.size(); i++) {
    c.Check((int)h->GetHipparcosId(i) == want[i].id, "catalogue-id", "rank ", i);
    c.Near(h->GetVisibleMagnitude(i), want[i].mag, 1e-12, 0, "catalogue-magnitude");
    c.Near(h->GetRightAscension_deg(i), want[i].ra, 1e-9, 0, "catalogue-right-ascension");
    c.Near(h->GetDeclination_deg(i), want[i].dec, 1e-9, 0, "catalogue-declination");
    Near3(c, R(h->GetStarDirection_i(i)), StarDir(want[i]), 1e-12, 0, "star-direction-i");
    Near3(c, R(h->GetStarDirection_b(i, S(q))), ref::ToFrame(q, StarDir(want[i])), 1e-12, 0, "star-direction-b");
  }
  c.NonTrivial(!want.empty() && want.size() < s.size());
  c.Label(want.size() == s.size() ? "all stars" : want.empty() ? "no star" : "some stars");
}
struct Sight {
  int nx, ny;
  double px, py;  // rad per pixel
  double fx() const { return nx * px; }
  double fy() const { return ny * py; }
};
// angles about the two image axes; near: within rounding of the edge
static void Project(const Sight& s, const V3& t_c, double& ax, double& ay, bool& in, bool& near) {
  ax = std::atan2(t_c[2], t_c[0]), ay = std::atan2(t_c[1], t_c[0]);
  in = std::fabs(ax) < s.fx() && std::fabs(ay) < s.fy();
  near = std::fabs(std::fabs(ax) - s.fx()) < 1e-8 || std::fabs(std::fabs(ay) - s.fy()) < 1e-8;
}
static void Telescopes(Case& c) {
  Rig rig(c.Of<const char*>({"IDLE", "SIMPLE", "FULL"}));
  Sight s;
  s.nx = (int)c.Int(1, 3000), s.ny = (int)c.Int(1, 3000);
  s.px = c.Real(0.01, 1.5) / s.nx, s.py = c.Real(0.01, 1.5) / s.ny;
  const Q4 qc = c.Quat();
  Q4 qb = c.Quat();
  const double ex[3] = {c.Real(0, 180), c.Real(0, 180), c.Real(0, 90)};
  const int logged = (int)c.Int(0, 8);
  // a direction (inertial) near the sight or its border
  auto toward = [&](bool wide) -> V3 {
    if (wide && c.Chance(0.3)) return c.Dir();
    const double k = c.Chance(0.2) ? 3 : 1.2;
    const V3 d = ref::Unit(V3{1, std::tan(std::min(1.5, s.fy()) * c.Real(-k, k) * 0.8), std::tan(std::min(1.5, s.fx()) * c.Real(-k, k) * 0.8)});
    return ref::Rotate(qb, ref::Rotate(qc, d));
  };
  auto stars = Stars(c, (int)c.Int(0, 40), [&] { return toward(true); });
  const double limit = Limit(c, stars);
  const bool calc = c.Chance(0.9);
  std::unique_ptr<s2e::environment::HipparcosCatalogue> h(Load(c, stars, limit, calc));
  const std::string ini = c.TempDir() + "/tel.ini";
  const int id = (int)c.Int(0, 3);
  std::string t = "[TELESCOPE_" + std::to_string(id) + "]\n";
  for (int i = 0; i < 4; i++) t += "quaternion_b2c(" + std::to_string(i) + ")=" + mission::Num(qc[i]) + "\n";
  t += "sun_exclusion_angle_deg=" + mission::Num(ex[0]) + "\nearth_exclusion_angle_deg=" + mission::Num(ex[1]) + "\nmoon_exclusion_angle_deg=" + mission::Num(ex[2]) +
       "\nx_number_of_pixel=" + std::to_string(s.nx) + "\ny_number_of_pixel=" + std::to_string(s.ny) + "\nx_fov_deg_per_pixel=" + mission::Num(s.px * 180 / M_PI) +
       "\ny_fov_deg_per_pixel=" + mission::Num(s.py * 180 / M_PI) + "\nnumber_of_stars_for_log=" + std::to_string(logged) + "\n";
  mission::Spit(ini, t);
  const bool with_orbit = c.Chance(0.8);
  auto place = [&](const V3& r) {
    rig.body[399] = {0, 0, 0};
    rig.body[10] = r + 1.496e11 * toward(true);
    rig.body[301] = r + 3.8e8 * toward(true);
    rig.Update(r, {0, 0, 0}, qb);
  };
  V3 r = c.Real(6.6e6, 5e7) * ref::Unit(V3{c.Real(-1, 1), c.Real(-1, 1), c.Real(0.01, 1)});
  if (c.Bool()) r = -c.Real(6.6e6, 5e7) * toward(false);  // towards the Earth
  place(r);
  s2e::components::Telescope tel = s2e::components::InitTelescope(&rig.clock, id, ini, &rig.attitude, h.get(), &rig.local, with_orbit ? &rig.orbit : nullptr);
  // point below the spacecraft at the start
  const V3 r0 = R(rig.orbit.GetPosition_ecef_m());
  const V3 ground = 6378137.0 / (rig.orbit.GetAltitude_m() + 6378137.0) * r0;
  c.Note("pixels ", s.nx, "x", s.ny, " field ", s.fx(), " ", s.fy(), " stars ", stars.size(), " logged ", logged);
  const s2e::logger::ILoggable& log = tel;
  const int steps = (int)c.Int(1, 4);
  int seen = 0;
  double gx = 0, gy = 0;
  for (int k = 0; k < steps; k++) {
    if (k) {
      if (c.Bool()) qb = c.Chance(0.7) ? ref::Mul(qb, ref::AxisAngle(c.Dir(), c.LogReal(1e-4, 1))) : c.Quat();
      r = c.Bool() ? ref::Rotate(ref::AxisAngle(c.Dir(), c.LogReal(1e-4, 1)), r) : -c.Real(6.6e6, 5e7) * toward(false);
      place(r);
    }
    static_cast<s2e::components::Component&>(tel).Tick(k);
    auto v = Numbers(log.GetLogValue());
    c.Check(v.size() == 11 + (calc ? 4u * logged : 0u) && Split(log.GetLogHeader()).size() == v.size(), "telescope-log");
    const V3 sight_i = ref::Rotate(qb, ref::Rotate(qc, V3{1, 0, 0}));
    const int ids[3] = {10, 399, 301};
    for (int b = 0; b < 3; b++) {
      const V3 d = rig.body[ids[b]] - r;
      const double ang = ref::Angle(d, sight_i);
      if (std::fabs(ang - ex[b] * M_PI / 180) > 1e-7) c.Check(v[b] == (ang < ex[b] * M_PI / 180 ? 1 : 0), "exclusion-angle", "body ", ids[b], " angle ", ang, " limit ", ex[b] * M_PI / 180);
      double ax, ay;
      bool in, near;
      Project(s, ref::ToFrame(qc, ref::ToFrame(qb, d)), ax, ay, in, near);
      if (near) continue;
      const double wx = in ? s.nx / 2.0 * (std::tan(ax) / std::tan(s.fx()) + 1) : -1, wy = in ? s.ny / 2.0 * (std::tan(ay) / std::tan(s.fy()) + 1) : -1;
      c.Near(v[3 + 2 * b], wx, 1e-4, 1e-5, "body-pixel", "x of body " + std::to_string(ids[b]));
      c.Near(v[4 + 2 * b], wy, 1e-4, 1e-5, "body-pixel", "y of body " + std::to_string(ids[b]));
      seen += in;
    }
    // ground point: counted from the centre of the image
    if (with_orbit) {
      M3 dcm = R(rig.global.GetEarthRotation().GetDcmJ2000ToEcef());
      const V3 d_i = ref::T(dcm) * (ground - R(rig.orbit.GetPosition_ecef_m()));
      double ax, ay;
      bool in, near;
      Project(s, ref::ToFrame(qc, ref::ToFrame(qb, d_i)), ax, ay, in, near);
      if (!near && ref::Norm(d_i) > 1) {
        c.Near(v[9], in ? ax / s.px : -1, 1e-3, 1e-5, "ground-pixel", "x");
        c.Near(v[10], in ? ay / s.py : -1, 1e-3, 1e-5, "ground-pixel", "y");
        c.Label(in ? "ground in sight" : "ground out of sight");
      }
    } else
      c.Check(v[9] == 0 && v[10] == 0, "ground-pixel-without-orbit");
    if (!calc) continue;
    size_t n = 0;
    bool ambiguous = false;
    for (auto& st : stars) {
      if (st.mag > limit || n >= (size_t)logged) break;
      double ax, ay;
      bool in, near;
      Project(s, ref::ToFrame(qc, ref::ToFrame(qb, StarDir(st))), ax, ay, in, near);
      if (near) {
        ambiguous = true;
        break;
      }
      if (!in) continue;
      const double* o = &v[11 + 4 * n++];
      c.Near(o[0], st.id, 0.6, 5e-6, "star-id");
      c.Near(o[1], st.mag, 1e-4, 0, "star-magnitude");
      c.Near(o[2], s.nx / 2.0 * (std::tan(ax) / std::tan(s.fx()) + 1), 1e-4, 1e-5, "star-pixel", "x");
      c.Near(o[3], s.ny / 2.0 * (std::tan(ay) / std::tan(s.fy()) + 1), 1e-4, 1e-5, "star-pixel", "y");
      seen++;
    }
    if (!ambiguous)
      for (; n < (size_t)logged; n++)
        for (int j = 0; j < 4; j++) c.Check(v[11 + 4 * n + j] == -1, "phantom-star", "entry ", n);
  }
  c.NonTrivial(seen > 0);
  c.Label(seen ? "objects in sight" : "nothing in sight");
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "E07", "catalogues cut inside the list, telescope runs with at least one object in sight",
                   {{"catalogue", Catalogue, 400, 8000}, {"telescope", Telescopes, 600, 15000}},
                   {"catalogue rows are sorted by magnitude, as the download script writes them", "objects within 1e-8 rad of the edge of the field may be reported either way"});
}
