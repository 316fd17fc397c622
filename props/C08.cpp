// link: sim
// C08: visibility from ground stations, antenna patterns and the downlink budget.
#include <components/real/communication/antenna.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include "place.hpp"
#include "rig.hpp"
using namespace pbt;
using namespace s2e_ref;
namespace co = s2e::components;
using mission::Num;
static constexpr double kDeg = M_PI / 180;

// ---------------------------------------------------------------- gain table
struct Pattern {
  size_t nt, np;
  double tmax, pmax;
  std::vector<std::vector<double>> g;
  std::string file;
  static Pattern Make(Case& c, const std::string& dir, int kind) {
    Pattern p;
    if (kind == 0) p.nt = 360, p.np = 181, p.tmax = 2 * M_PI, p.pmax = M_PI;  // full cuts, as in the sample
    else if (kind == 1) p.nt = 2 * (size_t)(c.Int(0, 19) ? c.Int(6, 40) : c.Int(41, 300)), p.np = p.nt / 2 + 1, p.tmax = 2 * M_PI, p.pmax = M_PI;
    else p.nt = (size_t)(c.Int(0, 19) ? c.Int(7, 40) : c.Int(41, 190)), p.np = 2 * p.nt - 1, p.tmax = M_PI, p.pmax = 2 * M_PI;  // colatitude and longitude
    if (kind == 0 && c.Bool()) p.tmax = 6.28, p.pmax = 3.14;
    p.g.assign(p.nt, std::vector<double>(p.np));
    // arbitrary values from a short stream of choices
    uint64_t x = c.Raw(1u << 30) * 2654435761u + 1;
    std::string text;
    const bool spaces = c.Chance(0.2);
    for (auto& row : p.g) {
      for (size_t j = 0; j < row.size(); j++) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        row[j] = (double)((int64_t)(x >> 44) % 60000 - 45000) / 1000;
        char b[32];
        snprintf(b, sizeof b, "%s%.3f", j ? spaces ? ", " : "," : "", row[j]);
        text += b;
      }
      text += "\n";
    }
    static int counter = 0;
    p.file = dir + "/pattern" + std::to_string(counter++) + ".csv";
    mission::Spit(p.file, text);
    return p;
  }
  // gains of the cells near a direction given in the antenna frame
  std::vector<double> Near(const V3& d) const {
    std::vector<double> v;
    const double dt = tmax / nt, dp = pmax / np, reach = 1.7 * std::hypot(dt, dp) + 1e-6, cr = std::cos(std::min(M_PI, reach));
    for (size_t i = 0; i < nt; i++) {
      const double t = i * dt, st = std::sin(t), ct = std::cos(t);
      for (size_t j = 0; j < np; j++) {
        const double p = j * dp;
        if (st * std::cos(p) * d[0] + st * std::sin(p) * d[1] + ct * d[2] >= cr) v.push_back(g[i][j]);
      }
    }
    return v;
  }
};
static bool Among(const std::vector<double>& v, double x, double tol) {
  for (double y : v)
    if (std::fabs(x - y) <= tol) return true;
  return false;
}
// table lookup by angle
static void Lookup(Case& c) {
  mission::Quiet quiet;
  const std::string dir = c.TempDir();
  Pattern p = Pattern::Make(c, dir, (int)c.Int(0, 2));
  if (c.Chance(0.3) && p.nt < 100) {  // part of the sphere only
    p.tmax = c.Real(0.2, 2) , p.pmax = c.Real(0.2, 6);
    c.Label("partial table");
  }
  const co::AntennaRadiationPattern a(p.file, p.nt, p.np, p.tmax, p.pmax);
  for (int k = 0; k < 20; k++) {
    const double t = c.EdgeReal(0, p.tmax), f = c.EdgeReal(0, p.pmax);
    const double got = a.GetGain_dBi(t, f);
    // the nearest sample, whether the last one lies on the maximum angle or one step before it
    const double it = t / p.tmax * p.nt, jf = f / p.pmax * p.np, it2 = t / p.tmax * (p.nt - 1), jf2 = f / p.pmax * (p.np - 1);
    auto close = [](double i, double x, double y, size_t n) { return std::fabs(i - std::min(x, n - 1.0)) <= 0.5 + 1e-9 || std::fabs(i - y) <= 0.5 + 1e-9; };
    bool ok = false;
    for (long i = std::max(0L, (long)it - 2); i <= std::min((long)p.nt - 1, (long)it + 2); i++)
      for (long j = std::max(0L, (long)jf - 2); j <= std::min((long)p.np - 1, (long)jf + 2); j++)
        if (close((double)i, it, it2, p.nt) && close((double)j, jf, jf2, p.np) && std::fabs(p.g[i][j] - got) < 1e-9) ok = true;
    c.Check(ok, "table-cell", "theta ", t, " of ", p.tmax, " phi ", f, " of ", p.pmax, ": ", got, " is not near cell ", it, ", ", jf, " of ", p.nt, "x", p.np);
    if (p.nt < 100) {  // outside the table: the nearest border, whichever way the angles are folded
      const double o = a.GetGain_dBi(c.Real(-4, 8), c.Real(-4, 8));
      bool any = false;
      for (auto& r : p.g)
        for (double x : r) any = any || std::fabs(x - o) < 1e-9;
      c.Check(any, "table-value", "value not in the table: ", o);
    }
  }
  c.NonTrivial();
}

// ---------------------------------------------------------------- antennas
struct Radio {
  int id;
  Q4 q;
  bool tx, rx;
  double frequency, bitrate, power, noise, tx_gain, tx_feeder, tx_pointing, rx_gain, rx_feeder, rx_pointing;
  std::unique_ptr<Pattern> tx_pattern, rx_pattern;
  static Radio Make(Case& c, const std::string& dir, bool big) {
    Radio r;
    r.id = (int)c.Int(0, 12);
    r.q = c.Quat();
    r.tx = c.Chance(0.95), r.rx = c.Chance(0.95);
    r.frequency = c.LogReal(100, 4e4);
    r.bitrate = c.LogReal(10, 1e9);
    r.power = c.LogReal(1e-3, 1e3);
    r.noise = c.LogReal(10, 3000);
    r.tx_gain = c.Real(-20, 60), r.rx_gain = c.Real(-20, 60);
    r.tx_feeder = -c.Real(0, 5), r.rx_feeder = -c.Real(0, 5), r.tx_pointing = -c.Real(0, 5), r.rx_pointing = -c.Real(0, 5);
    if (c.Chance(0.6)) r.tx_pattern.reset(new Pattern(Pattern::Make(c, dir, big ? 0 : (int)c.Int(1, 2))));
    if (c.Chance(0.6)) r.rx_pattern.reset(new Pattern(Pattern::Make(c, dir, big ? 0 : (int)c.Int(1, 2))));
    return r;
  }
  std::string Ini() const {
    std::string s = "[ANTENNA_" + std::to_string(id) + "]\n";
    for (int i = 0; i < 4; i++) s += "quaternion_b2c(" + std::to_string(i) + ")=" + Num(q[i]) + "\n";
    s += std::string("is_transmitter=") + (tx ? "1" : "0") + "\nis_receiver=" + (rx ? "1" : "0") + "\nfrequency_MHz=" + Num(frequency) + "\ntx_bitrate_bps=" + Num(bitrate) + "\ntx_output_W=" + Num(power) +
         "\nrx_system_noise_temperature_K=" + Num(noise) + "\n";
    auto part = [&](const std::string& d, double gain, double feeder, double pointing, const Pattern* p) {
      s += d + "_loss_feeder_dB=" + Num(feeder) + "\n" + d + "_loss_pointing_dB=" + Num(pointing) + "\n" + d + "_gain_dBi=" + Num(gain) + "\n" + d + "_antenna_gain_model=" + (p ? "RADIATION_PATTERN_CSV" : "ISOTROPIC") + "\n";
      const Pattern& w = p ? *p : Unused();
      s += d + "_antenna_radiation_pattern_file=" + w.file + "\n" + d + "_length_theta=" + std::to_string(w.nt) + "\n" + d + "_length_phi=" + std::to_string(w.np) + "\n" + d + "_theta_max_rad=" + Num(w.tmax) + "\n" + d +
           "_phi_max_rad=" + Num(w.pmax) + "\n";
    };
    part("tx", tx_gain, tx_feeder, tx_pointing, tx_pattern.get());
    part("rx", rx_gain, rx_feeder, rx_pointing, rx_pattern.get());
    return s;
  }
  static Pattern& Unused() {
    static Pattern p{360, 181, 2 * M_PI, M_PI, {}, VERIF_REPO "/example/settings/sample_satellite/components/antenna_radiation_pattern_csv_files/sample_antenna_radiation_pattern.csv"};
    return p;
  }
  co::Antenna Build(Case& c, const std::string& dir) const {
    if (!tx_pattern && !rx_pattern && c.Bool()) {
      c.Label("vector constructor");
      s2e::math::Vector<5> t;
      t[0] = power, t[1] = tx_gain, t[2] = tx_feeder, t[3] = tx_pointing, t[4] = bitrate;
      s2e::math::Vector<4> r;
      r[0] = rx_gain, r[1] = rx_feeder, r[2] = rx_pointing, r[3] = noise;
      return co::Antenna(id, S(q), tx, rx, frequency, t, r);
    }
    static int counter = 0;
    const std::string f = dir + "/antenna" + std::to_string(counter++) + ".ini";
    mission::Spit(f, Ini());
    return co::InitAntenna(id, f);
  }
  // possible values of the transmitted power and the receiver figure towards d (antenna frame)
  std::vector<double> Eirp(const V3& d) const {
    std::vector<double> v = tx_pattern ? tx_pattern->Near(d) : std::vector<double>{tx_gain};
    for (double& x : v) x += 10 * std::log10(power) + tx_feeder + tx_pointing;
    return v;
  }
  std::vector<double> Gt(const V3& d) const {
    std::vector<double> v = rx_pattern ? rx_pattern->Near(d) : std::vector<double>{rx_gain};
    for (double& x : v) x += rx_feeder + rx_pointing - 10 * std::log10(noise);
    return v;
  }
};
static void Single(Case& c) {
  mission::Quiet quiet;
  const std::string dir = c.TempDir();
  const Radio r = Radio::Make(c, dir, false);
  const co::Antenna a = r.Build(c, dir);
  c.Check(a.IsTransmitter() == r.tx && a.IsReceiver() == r.rx, "roles");
  c.Near(a.GetFrequency_MHz(), r.frequency, 0, 1e-12, "frequency");
  c.Near(a.GetBitrate_bps(), r.bitrate, 0, 1e-12, "bitrate");
  NearAttitude(c, R(a.GetQuaternion_b2c()), r.q, 1e-7, "mounting");
  for (int k = 0; k < 12; k++) {
    const V3 d = c.Dir();
    const double t = std::acos(std::max(-1.0, std::min(1.0, d[2]))), f = std::atan2(d[1], d[0]);
    if (r.tx) c.Check(Among(r.Eirp(d), a.CalcTxEirp_dBW(t, f), 1e-6), "eirp", "towards ", Str(d), " theta ", t, " phi ", f, ": ", a.CalcTxEirp_dBW(t, f), " is not power plus losses plus gain of a near cell");
    if (r.rx) c.Check(Among(r.Gt(d), a.CalcRxGt_dB_K(t, f), 1e-6), "g-over-t", "towards ", Str(d), " theta ", t, " phi ", f, ": ", a.CalcRxGt_dB_K(t, f), " is not gain of a near cell plus losses over temperature");
    if (f < 0 && (r.tx_pattern || r.rx_pattern)) c.NonTrivial();
  }
}

// ---------------------------------------------------------------- visibility and budget in a mission
struct Station {
  double lat, lon, height, limit;
  V3 at, up, east, north;
};
static void Links(Case& c) {
  mission::Quiet quiet;
  mission::Settings s(c);
  s.NoLogs();
  const int ns = (int)c.Int(1, 3), nc = c.Chance(0.2) ? 2 : 1;
  const bool files = c.Bool();
  const char* kMode[] = {"IDLE", "SIMPLE", "FULL"};
  const char* mode = kMode[c.Int(0, 2)];
  s.Set(s.kBase, "CELESTIAL_INFORMATION", "rotation_mode(0)", mode);
  s.Set(s.kBase, "SIMULATION_SETTINGS", "number_of_simulated_ground_station", ns);
  for (int i = 1; i < nc; i++) s.AddSpacecraft(i);
  std::vector<Station> st;
  for (int i = 0; i < ns; i++) {
    Station p;
    p.lat = c.Chance(0.1) ? c.Of<double>({90, -90, 0}) : c.Real(-90, 90);
    p.lon = c.Real(-180, 180), p.height = c.Real(-100, 5000), p.limit = c.Chance(0.1) ? c.Of<double>({0, -90, 80}) : c.Real(-5, 60);
    const double a = 6378136.6, f = 3.352797e-3, e2 = f * (2 - f), la = p.lat * kDeg, lo = p.lon * kDeg, N = a / std::sqrt(1 - e2 * std::sin(la) * std::sin(la));
    p.up = {std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la)};
    p.east = {-std::sin(lo), std::cos(lo), 0};
    p.north = ref::Cross(p.up, p.east);
    p.at = {(N + p.height) * std::cos(la) * std::cos(lo), (N + p.height) * std::cos(la) * std::sin(lo), (N * (1 - e2) + p.height) * std::sin(la)};
    const std::string file = files && i ? "station" + std::to_string(i) + ".ini" : "sample_ground_station/ground_station.ini", sec = "GROUND_STATION_" + std::to_string(i);
    s.Set(file, sec, "latitude_deg", p.lat), s.Set(file, sec, "longitude_deg", p.lon), s.Set(file, sec, "height_m", p.height), s.Set(file, sec, "elevation_limit_angle_deg", p.limit);
    s.Set(s.kBase, "SIMULATION_SETTINGS", "ground_station_file(" + std::to_string(i) + ")", "SETTINGS_DIR_FROM_EXE/" + file);
    if (files && i) c.Label("a file per station");
    c.Note("station ", i, " ", p.lat, " ", p.lon, " ", p.height, " limit ", p.limit);
    st.push_back(p);
  }
  mission::SetTime(s, "2020/" + std::to_string(c.Int(1, 12)) + "/15 0" + std::to_string(c.Int(0, 9)) + ":12:34.0", 1e6, 60, 60, 1, 60, 60, 60, 60, 60, 60);
  const std::string dir = s.Dir();
  mission::Mission m(s);
  m.Initialize();
  // budget
  const bool big = c.Chance(0.1);
  const Radio tx = Radio::Make(c, dir, big), rx = Radio::Make(c, dir, big);
  const co::Antenna at = tx.Build(c, dir), ar = rx.Build(c, dir);
  const double lp = -c.Real(0, 3), la = -c.Real(0, 3), lr = -c.Real(0, 3), lo = -c.Real(0, 3), ebn0 = c.Real(0, 15), hw = c.Real(0, 3), cg = -c.Real(0, 8), req = c.Real(0, 5);
  mission::Spit(dir + "/calculator.ini", "[GROUND_STATION_CALCULATOR]\nloss_polarization_dB=" + Num(lp) + "\nloss_atmosphere_dB=" + Num(la) + "\nloss_rainfall_dB=" + Num(lr) + "\nloss_others_dB=" + Num(lo) +
                                             "\nebn0_dB=" + Num(ebn0) + "\nhardware_deterioration_dB=" + Num(hw) + "\ncoding_gain_dB=" + Num(cg) + "\nmargin_requirement_dB=" + Num(req) + "\ndownlink_bitrate_bps=" + Num(c.Bool() ? tx.bitrate : c.LogReal(10, 1e9)) + "\n");
  co::GroundStationCalculator calc = co::InitGsCalculator(dir + "/calculator.ini");
  c.Check(calc.GetMaxBitrate_Mbps() == 0 && calc.GetReceiveMargin_dB() < -1000, "before-contact");
  std::vector<std::vector<bool>> seen(ns, std::vector<bool>(nc, false));
  const int n = (int)c.Int(1, 12);
  bool was_visible = false, was_hidden = false;
  for (int k = 0; k < n; k++) {
    if (k && c.Bool()) {
      m.Step();  // the Earth turns, the spacecraft move on
      for (int i = 0; i < ns; i++)
        for (int j = 0; j < nc; j++) {
          const V3 line = R(m.Sc(j).Dyn().GetOrbit().GetPosition_ecef_m()) - st[i].at;
          const double el = std::asin(std::max(-1.0, std::min(1.0, ref::Dot(line, st[i].up) / ref::Norm(line))));
          seen[i][j] = m.Gs(i).IsVisible(j);
          if (std::fabs(el - st[i].limit * kDeg) > (std::fabs(el) > 1.55 ? 1e-4 : 1e-9)) c.Check(seen[i][j] == (el > st[i].limit * kDeg), "visibility", "mission step: elevation ", el / kDeg, " limit ", st[i].limit, " visible ", (bool)seen[i][j]);
        }
    }
    const M3 dcm = R(m.Env().GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
    for (int j = 0; j < nc; j++) {
      // towards some station's sky, or anywhere
      const Station& p = st[c.Raw(ns)];
      V3 e = c.LogReal(6.6e6, 4e8) * c.Dir();
      if (c.Chance(0.7)) {
        const double el = c.Chance(0.1) ? M_PI / 2 : c.Bool() ? (p.limit + c.Signed(1e-6, 10)) * kDeg : c.Real(-0.2, M_PI / 2), az = c.Real(0, 2 * M_PI), d = c.LogReal(3e5, 4e8);
        e = p.at + d * (std::sin(el) * p.up + std::cos(el) * (std::sin(az) * p.east + std::cos(az) * p.north));
      }
      if (ref::Norm(e) < 6.5e6) continue;
      const V3 r = ref::T(dcm) * e;
      Q4 q = c.Quat();
      if (c.Chance(0.15)) {  // the antenna axis points at the station: q is such that q_b2c maps to Z
        const V3 line = ref::Unit(ref::T(dcm) * (p.at - e)), zb = ref::Rotate(tx.q, V3{0, 0, 1});
        const V3 ax = ref::Cross(zb, line);
        if (ref::Norm(ax) > 1e-6) q = ref::AxisAngle(ref::Unit(ax), ref::Angle(zb, line)), c.Label("on boresight");
      }
      place::Put(m.Sc(j).Dyn(), r, 7e3 * c.Dir(), q);
      Near3(c, R(m.Sc(j).Dyn().GetOrbit().GetPosition_ecef_m()), e, 1e-6, 1e-12, "earth-fixed-position");
      for (int i = 0; i < ns; i++) {
        m.Gs(i).Update(m.Env().GetCelestialInformation().GetEarthRotation(), m.Sc(j));
        const std::string what = "step " + std::to_string(k) + " station " + std::to_string(i) + " spacecraft " + std::to_string(j);
        Near3(c, R(m.Gs(i).GetPosition_i_m()), ref::T(dcm) * st[i].at, 1e-3, 0, "station-position", what);
        Near3(c, R(m.Gs(i).GetPosition_ecef_m()), st[i].at, 1e-3, 0, "station-earth-fixed", what);
        const V3 line = e - st[i].at;
        const double d = ref::Norm(line), el = std::asin(std::max(-1.0, std::min(1.0, ref::Dot(line, st[i].up) / d)));
        const bool vis = m.Gs(i).IsVisible(j);
        if (std::fabs(el - st[i].limit * kDeg) > (std::fabs(el) > 1.55 ? 1e-4 : 1e-9)) c.Check(vis == (el > st[i].limit * kDeg), "visibility", what, ": elevation ", el / kDeg, " limit ", st[i].limit, " visible ", vis);
        seen[i][j] = vis;
        for (int b = 0; b < nc; b++) c.Check(m.Gs(i).IsVisible(b) == seen[i][b], "visibility", what, ": flag of spacecraft ", b, " changed");
        calc.Update(m.Sc(j), at, m.Gs(i), ar);
        const double margin = calc.GetReceiveMargin_dB(), rate = calc.GetMaxBitrate_Mbps();
        const auto log = rig::Numbers(rig::LogValue(calc));
        c.Near(log.at(0), rate, 1e-300, 1e-5, "log"), c.Near(log.at(1), margin, 1e-5, 1e-5, "log");
        if (!vis) {
          c.Check(rate == 0 && margin < -1000, "no-contact", what, ": margin ", margin, " rate ", rate, " without contact");
          was_hidden = true;
          continue;
        }
        if (!tx.tx || !rx.rx) {
          c.Check(rate < 1e-5 && margin < 0, "no-link", what, ": margin ", margin, " rate ", rate, " without transmitter or receiver");
          continue;
        }
        was_visible = true;
        const double space = -20 * std::log10(4 * M_PI * d / (299792458.0 / (tx.frequency * 1e6)));
        const V3 sc_dir = ref::ToFrame(tx.q, ref::ToFrame(q, ref::Unit(ref::T(dcm) * (st[i].at - e))));
        const V3 u = line / d, gs_dir = ref::ToFrame(rx.q, V3{ref::Dot(u, st[i].east), ref::Dot(u, st[i].north), ref::Dot(u, st[i].up)});
        const double base = space + lp + la + lr + lo + 228.5991678;
        bool ok = false;
        double some = 0;
        const auto E = tx.Eirp(sc_dir), G = rx.Gt(gs_dir);
        for (double x : E)
          for (double y : G) {
            const double cn0 = x + y + base, want = cn0 - (ebn0 + hw + cg) - 10 * std::log10(tx.bitrate);
            some = want;
            if (std::fabs(margin - want) > 0.012) continue;
            const double over = cn0 - (ebn0 + hw + cg) - req, want_rate = over > 0 ? std::pow(10, over / 10) / 1e6 : 0;
            if (std::fabs(rate - want_rate) <= 0.003 * want_rate + (std::fabs(over) < 0.02 ? 2e-6 : 0)) ok = true;
          }
        c.Check(ok, "budget", what, ": margin ", margin, " dB, rate ", rate, " Mbps; ", E.size() * G.size(), " acceptable pairs of gains, such as margin ", some, "; distance ", d, " direction from the spacecraft ", Str(sc_dir),
                " from the station ", Str(gs_dir));
        c.Label(tx.tx_pattern ? rx.rx_pattern ? "two patterns" : "transmitter pattern" : rx.rx_pattern ? "receiver pattern" : "isotropic");
        c.NonTrivial();
      }
    }
  }
  if (was_visible && was_hidden) c.Label("visible and hidden");
}

int main(int argc, char** argv) {
  return Main(argc, argv, "C08", "lookup: always; antennas: a gain table seen at a negative longitude; links: a spacecraft in view with an active link",
              {{"lookup", Lookup, 300, 20000, 20}, {"antennas", Single, 500, 30000, 20}, {"links", Links, 500, 8000, 10}},
              {"a gain is accepted when it belongs to a table cell within one cell of the direction (the grid's end convention is not documented)",
               "the light speed used for the wavelength may be rounded (0.006 dB)", "the antenna and the link calculator are configured with the same bit rate"});
}
