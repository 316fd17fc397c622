// link: sim
#include <fstream>
#include <math_physics/geodesy/geodetic_position.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include "s2e_ref.hpp"
using namespace s2e_ref;
using pbt::Case;
using s2e::geodesy::GeodeticPosition;
static const double kA = 6378136.6, kF = 3.352797e-3, kE2 = kF * (2 - kF);

static V3 RefEcef(double lat, double lon, double h) {
  const double n = kA / std::sqrt(1 - kE2 * std::sin(lat) * std::sin(lat));
  return {(n + h) * std::cos(lat) * std::cos(lon), (n + h) * std::cos(lat) * std::sin(lon), (n * (1 - kE2) + h) * std::sin(lat)};
}
static double AnyLat(Case& c) {
  switch (c.Int(0, 4)) {
    case 0: return c.Of<double>({0, M_PI / 2, -M_PI / 2, 0.5, -0.5});
    case 1: return (c.Bool() ? 1 : -1) * (M_PI / 2 - c.LogReal(1e-15, 1e-2));
    case 2: return c.Signed(1e-15, 1e-2);
    default: return c.Real(-M_PI / 2, M_PI / 2);
  }
}
static double AnyLon(Case& c) {
  switch (c.Int(0, 3)) {
    case 0: return c.Of<double>({0, M_PI / 2, M_PI, -M_PI / 2, -M_PI, 3 * M_PI / 2, 2 * M_PI});
    case 1: return c.Of<double>({0, M_PI / 2, M_PI, 3 * M_PI / 2}) + c.Signed(1e-15, 1e-2);
    default: return c.Real(-M_PI, 2 * M_PI);
  }
}
static double AnyHeight(Case& c) {
  switch (c.Int(0, 2)) {
    case 0: return c.Real(-1e4, 1e4);
    case 1: return c.LogReal(1, 1e8);
    default: return c.Of<double>({0, -1e4, 5e5, 3.58e7, 1e8});
  }
}
static void Frame(Case& c, const GeodeticPosition& g, double lat, double lon) {
  const V3 e{-std::sin(lon), std::cos(lon), 0}, n{-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)},
      u{std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)};
  const auto q = g.GetQuaternionXcxfToLtc();
  const V3 x[3] = {e, n, u};
  for (int i = 0; i < 3; i++) {
    V3 want{};
    want[i] = 1;
    Near3(c, R(q.FrameConversion(S(x[i]))), want, 1e-7, 0, "topocentric", i == 0 ? "east" : i == 1 ? "north" : "up");
  }
  ProperRotation(c, R(q.ConvertToDcm()), 1e-7, "topocentric-rotation");
}
static void RoundTrip(Case& c) {
  const double lat = AnyLat(c), lon = AnyLon(c), h = AnyHeight(c);
  c.Note("lat ", lat, " lon ", lon, " h ", h);
  c.NonTrivial(lat != 0 && h != 0);
  if (std::fabs(lat) > 1.56) c.Label("polar");
  const GeodeticPosition g(lat, lon, h);
  c.Check(g.GetLatitude_rad() == lat && g.GetLongitude_rad() == lon && g.GetAltitude_m() == h, "keeps");
  Frame(c, g, lat, lon);
  const V3 x = R(g.CalcEcefPosition());
  Near3(c, x, RefEcef(lat, lon, h), 1e-7 + 1e-15 * std::fabs(h), 1e-15, "ecef");
  GeodeticPosition b;
  b.UpdateFromEcef(S(x));
  const double r = ref::Norm(x), equ = std::hypot(x[0], x[1]);
  c.Check(b.GetLongitude_rad() >= 0 && b.GetLongitude_rad() < 2 * M_PI + 1e-12, "longitude-range", b.GetLongitude_rad());
  c.Check(std::fabs(b.GetLatitude_rad()) <= M_PI / 2 + 1e-12, "latitude-range", b.GetLatitude_rad());
  c.Near(b.GetLatitude_rad(), lat, 1e-11, 0, "latitude");
  c.Near(b.GetAltitude_m(), h, 1e-4 + 1e-14 * r, 0, "altitude");
  c.Near(std::remainder(b.GetLongitude_rad() - lon, 2 * M_PI) * equ, 0, 1e-6 + 1e-14 * r, 0, "longitude");
  Near3(c, R(b.CalcEcefPosition()), x, 1e-3, 1e-11, "round-trip");
  Frame(c, b, b.GetLatitude_rad(), b.GetLongitude_rad());
}
// from an arbitrary Earth-fixed point; the same object is updated repeatedly
static void FromEcef(Case& c) {
  GeodeticPosition g(c.Real(-1, 1), c.Real(0, 6), 0);
  const int n = (int)c.Int(1, 4);
  for (int i = 0; i < n; i++) {
    V3 d = c.Dir();
    const double rad = c.Bool() ? 6378136.6 + c.Real(-3e4, 1e6) : c.LogReal(6.35e6, 1.2e8);
    V3 x = rad * d;
    if (c.Chance(0.2)) x[c.Int(0, 2)] = c.Of<double>({0.0, -0.0, 1e-9, -1e-9, 1e-3, -1e-3});
    if (ref::Norm(x) < 6.33e6) c.Skip();
    c.Note("point ", Str(x));
    g.UpdateFromEcef(S(x));
    const double lat = g.GetLatitude_rad(), lon = g.GetLongitude_rad(), h = g.GetAltitude_m();
    c.Check(lon >= 0 && lon < 2 * M_PI + 1e-12 && std::fabs(lat) <= M_PI / 2 + 1e-12, "range", lat, " ", lon);
    // on the ellipsoid's normal at that height
    Near3(c, RefEcef(lat, lon, h), x, 1e-3, 1e-11, "normal-at-height");
    Near3(c, R(g.CalcEcefPosition()), x, 1e-3, 1e-11, "ecef-round-trip");
    // mirror images
    GeodeticPosition m;
    m.UpdateFromEcef(S(V3{x[0], x[1], -x[2]}));
    c.Near(m.GetLatitude_rad(), -lat, 1e-11, 0, "mirror-latitude");
    c.Near(m.GetAltitude_m(), h, 1e-4 + 1e-12 * ref::Norm(x), 0, "mirror-altitude");
    Frame(c, g, lat, lon);
    c.NonTrivial();
  }
}
struct Station : s2e::ground_station::GroundStation {
  using GroundStation::CalcIsVisible;
  using GroundStation::GroundStation;
};
static void Stations(Case& c) {
  const std::string dir = c.TempDir(), ini = dir + "/gs.ini";
  const int n = (int)c.Int(1, 4);
  std::vector<std::array<double, 4>> p;
  {
    std::ofstream f(ini);
    f.precision(17);
    for (int i = 0; i < n; i++) {
      std::array<double, 4> s{c.Real(-90, 90), c.Real(-180, 360), c.Real(-100, 5000), c.Real(-5, 85)};
      if (c.Chance(0.1)) s[0] = c.Of<double>({90, -90, 0});
      if (c.Chance(0.1)) s[3] = c.Of<double>({0, -90});
      p.push_back(s);
      f << "[GROUND_STATION_" << i << "]\nlatitude_deg = " << s[0] << "\nlongitude_deg = " << s[1] << "\nheight_m = " << s[2] << "\nelevation_limit_angle_deg = " << s[3] << "\n";
      c.Note("station ", i, ": ", s[0], ",", s[1], ",", s[2], " limit ", s[3]);
    }
  }
  s2e::simulation::SimulationConfiguration conf;
  conf.main_logger_ = new s2e::logger::Logger("x", dir, ini, false, false);
  conf.number_of_simulated_spacecraft_ = 2;
  conf.ground_station_file_list_ = {ini};
  for (int i = 0; i < n; i++) {
    Station g(&conf, (unsigned)i);
    const double lat = p[i][0] * M_PI / 180, lon = p[i][1] * M_PI / 180;
    c.Check(g.GetGroundStationId() == i, "station-id");
    const V3 at = R(g.GetPosition_ecef_m());
    Near3(c, at, RefEcef(lat, lon, p[i][2]), 1e-6, 0, "station-position");
    c.Near(g.GetElevationLimitAngle_deg(), p[i][3], 1e-12, 0, "station-limit");
    c.Check(!g.IsVisible(0) && !g.IsVisible(1), "station-initially-invisible");
    const V3 up{std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)};
    for (int k = 0; k < 8; k++) {
      V3 sat = c.LogReal(6.4e6, 1e8) * c.Dir();
      if (c.Bool()) {  // near the limit
        const double el = (p[i][3] + c.Signed(1e-4, 5)) * M_PI / 180;
        V3 t = ref::Cross(up, c.Dir());
        if (ref::Norm(t) < 1e-3) continue;
        t = ref::Unit(t);
        sat = at + c.LogReal(1e5, 1e8) * (std::sin(el) * up + std::cos(el) * t);
      }
      const V3 d = ref::Unit(sat - at);
      const double el = std::asin(std::min(1.0, std::max(-1.0, ref::Dot(d, up)))) * 180 / M_PI;
      if (std::fabs(el - p[i][3]) < 1e-4 || std::fabs(el) > 89.9) continue;
      c.NonTrivial();
      c.Check(g.CalcIsVisible(S(sat)) == (el > p[i][3]), "station-visibility", "station ", i, " elevation ", el, " limit ", p[i][3]);
    }
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U08", "a point off the equator and off the ellipsoid, or a satellite away from a station's elevation limit",
                   {{"round-trip", RoundTrip, 60000, 1000000, 500}, {"from-ecef", FromEcef, 40000, 800000, 500}, {"stations", Stations, 3000, 60000, 50}},
                   {"Longitude is compared as arc length on its parallel; at a pole it is free. The turning of stations with the Earth is checked in whole missions (C08)."});
}
