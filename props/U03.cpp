// link: base
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/gnss_satellite_number.hpp>
#include <math_physics/gnss/igs_product_name_handling.hpp>
#include <math_physics/gnss/sp3_file_reader.hpp>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include "pbt.hpp"
#include "sp3.hpp"
using pbt::Case;
using namespace s2e::gnss;
using s2e::time_system::EpochTime;
struct Quiet {
  struct Null : std::streambuf {
    int overflow(int c) override { return c; }
  } null;
  std::streambuf* o;
  Quiet() : o(std::cout.rdbuf(&null)) {}
  ~Quiet() { std::cout.rdbuf(o); }
};
static std::string Write(Case& c, const std::string& t, const char* name) {
  const std::string p = c.TempDir() + "/" + name;
  std::ofstream(p, std::ios::binary) << t;
  return p;
}
static std::string Trim(std::string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
static double Dec(Case& c, double max, int digits) {  // representable with the printed number of decimals
  const double m = std::pow(10.0, digits);
  switch (c.Int(0, 4)) {
    case 0: return c.Of<double>({0, 1, -1}) / m;
    case 1: return c.Of<double>({-1, 1}) * (std::floor(max * m) - 1) / m;
    default: return std::round(c.Real(-max, max) * m) / m;
  }
}
static const struct { char sys; size_t n, begin; } kSys[] = {{'G', kNumberOfGpsSatellite, kGpsIndexBegin},         {'R', kNumberOfGlonassSatellite, kGlonassIndexBegin}, {'E', kNumberOfGalileoSatellite, kGalileoIndexBegin},
                                                             {'C', kNumberOfBeidouSatellite, kBeidouIndexBegin},   {'J', kNumberOfQzssSatellite, kQzssIndexBegin},       {'I', kNumberOfNavicSatellite, kNavicIndexBegin}};
static std::string Id(char s, size_t n) {
  char b[32];
  snprintf(b, sizeof b, "%c%02zu", s, n);
  return b;
}
static std::string AnyId(Case& c, size_t* index) {
  const auto& s = kSys[c.Int(0, 5)];
  const size_t n = c.EdgeInt(1, s.n);
  *index = s.begin + n - 1;
  return Id(s.sys, n);
}
static long AnyUnix(Case& c) { return sp3::Days(c.Int(1980, 2070), c.Int(1, 12), c.Int(1, 28)) * 86400 + c.EdgeInt(0, 86399); }
static void SameDate(Case& c, const s2e::time_system::DateTime& d, long u, double frac, const char* what) {
  const sp3::Date w = sp3::FromUnix(u, frac);
  c.Check((long)d.GetYear() == w.y && (long)d.GetMonth() == w.mo && (long)d.GetDay() == w.d && (long)d.GetHour() == w.h && (long)d.GetMinute() == w.mi && std::fabs(d.GetSecond() - w.s) < 1e-7, what,
          "got ", d.GetYear(), "/", d.GetMonth(), "/", d.GetDay(), " ", d.GetHour(), ":", d.GetMinute(), ":", d.GetSecond(), " want ", w.y, "/", w.mo, "/", w.d, " ", w.h, ":", w.mi, ":", w.s);
}
static sp3::File MakeSp3(Case& c) {
  sp3::File f;
  f.mode = c.Chance(0.4) ? 'V' : 'P';
  f.start_unix = AnyUnix(c);
  if (f.start_unix < 315964800) f.start_unix += 7 * 86400;
  f.start_frac = c.Chance(0.3) ? std::round(c.Real(0, 0.9999) * 1e8) / 1e8 : 0;
  f.interval = c.Of<double>({900, 300, 30, 5, 3600, 86400, 0.5, 99999});
  if (c.Bool()) f.interval = (double)c.Int(1, 99999);
  if (c.Chance(0.15)) f.interval = std::round(c.LogReal(0.01, 9999) * 1e8) / 1e8;
  f.used = c.Of<const char*>({"ORBIT", "u+U  ", "    d", "mixed"});
  f.coordinate = c.Of<const char*>({"IGb14", "ITR97", "WGS84", "IGS20"});
  f.orbit_type = c.Of<const char*>({"FIT", "EXT", "BCT", "HLM", "XYZ"});
  f.agency = c.Of<const char*>({" IGS", "ESOC", "AIUB", " NGS"});
  f.file_type = c.Of<const char*>({"M ", "G ", "R ", "E "});
  f.time_system = c.Of<const char*>({"GPS", "UTC", "GLO", "GAL"});
  f.base_pos = Dec(c, 9, 7), f.base_clk = Dec(c, 9, 9);
  f.comments = (int)c.Of<int>({4, 0, 1, 20});
  f.min_id_lines = (int)c.Of<int>({5, 1, 10});
  f.trim = c.Bool();
  const size_t n = c.Chance(0.02) ? c.Int(61, 400) : c.Of<size_t>({1, 2, 3, 16, 17, 18, 34, 35, 60});
  for (size_t i = 0; i < n; i++) {
    size_t k;
    f.ids.push_back(AnyId(c, &k));
    f.accuracy.push_back((int)c.EdgeInt(0, 255));
  }
  const size_t ne = n > 60 ? 1 : n > 20 ? c.Int(1, 3) : n < 4 && c.Chance(0.02) ? c.Int(100, 500) : c.Int(1, 12);
  const bool sd = c.Bool(), flags = c.Bool(), corr = c.Chance(0.3);
  for (size_t e = 0; e < ne; e++) {
    std::vector<sp3::Record> row(n);
    for (auto& r : row) {
      for (double& x : r.x) x = c.Chance(0.05) ? 0.0 : Dec(c, c.Chance(0.1) ? 99999.999999 : 42000, 6);
      r.clock = c.Chance(0.1) ? 999999.999999 : Dec(c, 9999.0, 6);
      for (int i = 0; i < 4; i++) r.sdev[i] = sd && !c.Chance(0.2) ? (int)c.EdgeInt(0, i < 3 ? 99 : 999) : -1;
      if (flags) r.clock_event = c.Chance(0.3), r.clock_pred = c.Chance(0.3), r.maneuver = c.Chance(0.3), r.orbit_pred = c.Chance(0.3);
      r.has_corr = corr && c.Chance(0.7);
      for (int i = 0; i < 10; i++) r.corr[i] = (int)c.Int(i < 4 ? 0 : -9999999, i < 3 ? 9999 : 9999999);
      for (double& x : r.v) x = Dec(c, 40000, 6);
      r.rate = Dec(c, 9999, 6);
      for (int i = 0; i < 4; i++) r.vsdev[i] = sd && !c.Chance(0.2) ? (int)c.EdgeInt(0, i < 3 ? 99 : 999) : -1;
      r.has_vcorr = corr && c.Chance(0.7);
    }
    f.rec.push_back(row);
  }
  c.Note("satellites ", n, " epochs ", ne, " mode ", f.mode, " trim ", f.trim, " interval ", f.interval);
  return f;
}
static bool SameRecord(const Sp3PositionClock& p, const sp3::Record& r, const std::string& id) {
  bool ok = p.satellite_id_ == id && p.clock_us_ == r.clock && p.clock_event_flag_ == r.clock_event && p.clock_prediction_flag_ == r.clock_pred && p.maneuver_flag_ == r.maneuver && p.orbit_prediction_flag_ == r.orbit_pred;
  for (int i = 0; i < 3; i++) ok = ok && p.position_km_[i] == r.x[i] && p.position_standard_deviation_[i] == std::max(r.sdev[i], 0);
  return ok && p.clock_standard_deviation_ == std::max(r.sdev[3], 0);
}
static std::string Show(const Sp3PositionClock& p) {
  std::ostringstream s;
  s.precision(17);
  s << p.satellite_id_ << " " << p.position_km_[0] << " " << p.position_km_[1] << " " << p.position_km_[2] << " clk " << p.clock_us_ << " sd " << p.position_standard_deviation_[0] << " "
    << p.position_standard_deviation_[1] << " " << p.position_standard_deviation_[2] << " " << p.clock_standard_deviation_ << " flags " << p.clock_event_flag_ << p.clock_prediction_flag_ << p.maneuver_flag_
    << p.orbit_prediction_flag_;
  return s.str();
}
static bool IsDefault(const Sp3PositionClock& p) {
  const Sp3PositionClock d;
  return p.satellite_id_ == "" && p.clock_us_ == d.clock_us_ && p.position_km_[0] == d.position_km_[0];
}
static void Sp3(Case& c) {
  Quiet q;
  const sp3::File f = MakeSp3(c);
  Sp3FileReader r(Write(c, f.Text(), "a.sp3"));
  const Sp3Header h = r.GetHeader();
  c.Check(h.mode_ == (f.mode == 'V' ? Sp3Mode::kVelocity : Sp3Mode::kPosition), "mode");
  c.Check(r.GetNumberOfEpoch() == f.rec.size() && r.GetNumberOfSatellites() == f.ids.size(), "counts", r.GetNumberOfEpoch(), " epochs ", r.GetNumberOfSatellites(), " satellites");
  SameDate(c, r.GetStartEpochDateTime(), f.start_unix, f.start_frac, "start-epoch");
  const long day = f.start_unix / 86400 - sp3::Days(1980, 1, 6);
  c.Check((long)r.GetStartEpochGpsTime().GetWeek() == day / 7, "gps-week", r.GetStartEpochGpsTime().GetWeek(), " want ", day / 7);
  c.Near(r.GetStartEpochGpsTime().GetElapsedTimeFromWeek_s(), (double)(day % 7) * 86400 + (double)(f.start_unix % 86400) + f.start_frac, 1e-7, 0, "gps-seconds");
  c.Check(Trim(h.used_data_) == Trim(f.used) && h.coordinate_system_ == f.coordinate && h.agency_name_ == f.agency, "header-text", h.used_data_, "|", h.coordinate_system_, "|", h.agency_name_);
  const std::map<std::string, Sp3OrbitType> ot = {{"FIT", Sp3OrbitType::kFitted}, {"EXT", Sp3OrbitType::kExtrapolated}, {"BCT", Sp3OrbitType::kBroadcast}, {"HLM", Sp3OrbitType::kHelmert}, {"XYZ", Sp3OrbitType::kOther}};
  c.Check(h.orbit_type_ == ot.at(f.orbit_type), "orbit-type");
  c.Check(h.epoch_interval_s_ == f.interval, "interval", h.epoch_interval_s_);
  c.Check((long)h.start_time_mjday_ == f.start_unix / 86400 + 40587, "mjd");
  c.Near(h.start_time_mjday_fractional_day_, ((double)(f.start_unix % 86400) + f.start_frac) / 86400, 1e-12, 0, "mjd-fraction");
  c.Check(h.satellite_ids_ == f.ids, "satellite-ids");
  for (size_t i = 0; i < f.ids.size(); i++) c.Check(h.satellite_accuracy_.at(i) == f.accuracy[i], "accuracy", i, " got ", h.satellite_accuracy_[i], " want ", f.accuracy[i]);
  c.Check(h.file_type_ == f.file_type && h.time_system_ == f.time_system, "file-type");
  c.Check(h.base_number_position_ == f.base_pos && h.base_number_clock_ == f.base_clk, "base-numbers", h.base_number_position_, " ", h.base_number_clock_, " want ", f.base_pos, " ", f.base_clk);
  for (size_t e = 0; e < f.rec.size(); e++) {
    long u;
    double fr;
    f.Epoch(e, &u, &fr);
    SameDate(c, r.GetEpochData(e), u, fr, "epoch");
    for (size_t s = 0; s < f.ids.size(); s++) {
      const auto p = r.GetPositionClock(e, s);
      const auto& w = f.rec[e][s];
      c.Check(SameRecord(p, w, f.ids[s]), "record", "epoch ", e, " satellite ", f.ids[s], " (", s, ") got ", Show(p), " want ", w.x[0], " ", w.x[1], " ", w.x[2], " clk ", w.clock, " sd ", w.sdev[0], " ", w.sdev[1], " ", w.sdev[2], " ", w.sdev[3],
              " flags ", w.clock_event, w.clock_pred, w.maneuver, w.orbit_pred);
      c.Check(r.GetSatelliteClockOffset(e, s) == w.clock && r.GetSatellitePosition_km(e, s)[2] == w.x[2], "record-getters");
    }
  }
  for (int k = 0; k < 3; k++) {
    const size_t e = f.rec.size() + c.Of<size_t>({0, 1, 100, (size_t)-1 - 1000}), s = f.ids.size() + c.Of<size_t>({0, 1, 100, (size_t)-1 - 1000});
    c.Check(IsDefault(r.GetPositionClock(e, 0)) && IsDefault(r.GetPositionClock(0, s)) && IsDefault(r.GetPositionClock(e, s)), "out-of-range");
    r.GetEpochData(e);
  }
  // nearest epoch
  for (int k = 0; k < 6; k++) {
    const double len = f.interval * (double)(f.rec.size() - 1), off = c.Chance(0.2) ? -c.LogReal(1, 1e6) : c.Real(0, 1.3) * len + (c.Bool() ? 0.5 * f.interval : 0);
    const double t = f.start_frac + off;
    const long sec = (long)std::floor(t);
    const size_t got = r.SearchNearestEpochId(EpochTime((uint64_t)(f.start_unix + sec), t - (double)sec));
    const double want = std::min(std::max(off / f.interval, 0.0), (double)(f.rec.size() - 1));
    c.Check(std::fabs((double)got - want) <= 0.5 + 1e-6, "nearest-epoch", "offset ", off, " got ", got, " want about ", want);
  }
  c.NonTrivial(f.rec.size() > 1 || f.ids.size() > 1);
}
// cuts or corrupts a text; returns false when the cut is inside of a line
static std::string Damage(Case& c, const std::string& t, bool* cut_at_line, size_t* kept) {
  *cut_at_line = false;
  *kept = 0;
  std::string d = t;
  switch (c.Int(0, 3)) {
    case 0: {  // lose the tail at a line boundary
      std::vector<size_t> ends;
      for (size_t i = 0; i < t.size(); i++)
        if (t[i] == '\n') ends.push_back(i + 1);
      *kept = c.From(ends);
      *cut_at_line = true;
      return t.substr(0, *kept);
    }
    case 1: return t.substr(0, c.Int(0, t.size()));
    case 2: {  // byte noise
      const int n = (int)c.Int(1, 8);
      for (int i = 0; i < n && !d.empty(); i++) d[c.Int(0, d.size() - 1)] = c.Of<char>({' ', '\n', '9', '0', '\0', (char)0xff, 'P', '*', '+', '.', 'G'});
      return d;
    }
    default: {  // remove or repeat a line
      std::vector<size_t> ends{0};
      for (size_t i = 0; i < t.size(); i++)
        if (t[i] == '\n') ends.push_back(i + 1);
      const size_t l = c.Int(0, ends.size() - 2);
      const std::string line = t.substr(ends[l], ends[l + 1] - ends[l]);
      if (c.Bool()) return t.substr(0, ends[l]) + t.substr(ends[l + 1]);
      return t.substr(0, ends[l]) + line + t.substr(ends[l]);
    }
  }
}
static void Sp3Bad(Case& c) {
  Quiet q;
  const sp3::File f = MakeSp3(c);
  bool at_line;
  size_t kept;
  const std::string t = Damage(c, f.Text(), &at_line, &kept);
  c.Note("damaged to ", t.size(), " bytes, at line boundary ", at_line);
  c.NonTrivial();
  try {
    Sp3FileReader r(Write(c, t, "b.sp3"));
    const size_t ne = r.GetNumberOfEpoch(), ns = r.GetNumberOfSatellites();
    for (size_t e = 0; e <= std::min<size_t>(ne, 20); e++)
      for (size_t s = 0; s <= std::min<size_t>(ns, 70); s++) {
        const auto p = r.GetPositionClock(e, s);
        if (at_line && e < f.rec.size() && s < f.ids.size()) c.Check(IsDefault(p) || SameRecord(p, f.rec[e][s], f.ids[s]), "truncated-invents-data", "epoch ", e, " satellite ", s, " got ", Show(p));
      }
    for (size_t e : {ne, ne + 1, ne - 1}) r.GetEpochData(e), r.GetPositionClock(e, 0), r.GetSatelliteClockOffset(e, ns - 1), r.GetSatellitePosition_km(e, ns);
    const size_t n = r.SearchNearestEpochId(EpochTime((uint64_t)(f.start_unix + c.Int(-1000000, 1000000)), 0.0));
    if (at_line) c.Check(n == 0 || n < f.rec.size(), "nearest-epoch-of-damaged-file");
  } catch (const std::exception&) {
    c.Label("rejected by exception");
  }
}
// --- ANTEX ---------------------------------------------------------------------------------------------------------------------------
struct Freq {
  std::string name;
  double off[3];
  std::vector<double> pcv;
};
struct Ant {
  std::string type, serial;
  bool sat;
  size_t index = 0;
  double zen1, zen2, dzen, dazi;
  bool from, until;
  long t0, t1;
  double f0, f1;
  std::vector<Freq> fr;
};
static std::string L(std::string s, const char* label) {
  s.resize(60, ' ');
  s += label;
  s.resize(80, ' ');
  return s + "\n";
}
static std::string DateLine(long u, double f) {
  const sp3::Date d = sp3::FromUnix(u, f);
  char b[80];
  snprintf(b, sizeof b, "%6ld%6ld%6ld%6ld%6ld%13.7f", d.y, d.mo, d.d, d.h, d.mi, d.s);
  return b;
}
static std::vector<Ant> MakeAntex(Case& c) {
  std::vector<Ant> v(c.Chance(0.1) ? c.Int(9, 40) : c.Int(1, 8));
  const bool few = c.Chance(0.3);  // the same satellite number again and again, as vehicles replace each other
  for (auto& a : v) {
    a.sat = !c.Chance(0.25);
    a.type = a.sat ? c.Of<const char*>({"BLOCK IIA", "GLONASS-M", "GALILEO-2", "BEIDOU-3M-CAST", "QZSS-2I"}) : c.Of<const char*>({"AOAD/M_T        NONE", "TRM59800.00     SCIS", "LEIAR25.R4      LEIT"});
    a.serial = a.sat ? AnyId(c, &a.index) : c.Of<const char*>({"", "", "", "4301", "CR620023301", "GEO7"});
    if (a.sat && few) a.serial = Id('G', 1 + c.Int(0, 1)), a.index = kGpsIndexBegin + (a.serial == "G02");
    const int st = (int)c.Of<int>({10, 50, 1, 5, 2, 3, 7, 30, 25}), n = (int)c.Int(0, 30);
    a.dzen = st / 10.0, a.zen1 = (double)c.Of<int>({0, 0, 0, 5}), a.zen2 = (10 * (int)a.zen1 + st * n) / 10.0;
    a.dazi = c.Chance(0.2) ? c.Of<double>({5, 30, 90}) : 0;
    a.from = a.sat || c.Bool(), a.until = c.Bool();
    a.t0 = AnyUnix(c), a.t1 = AnyUnix(c);
    a.f0 = c.Chance(0.3) ? 0.5 : 0, a.f1 = c.Chance(0.5) ? 0.9999999 : 0;
    a.fr.resize(c.Int(1, 8));
    int k = 0;
    for (auto& f : a.fr) {
      char b[32];
      snprintf(b, sizeof b, "%c%02d", a.sat ? a.serial[0] : 'G', ++k);
      f.name = b;
      for (double& o : f.off) o = Dec(c, c.Bool() ? 9999 : 300, 2);
      for (int i = 0; i <= n; i++) f.pcv.push_back(Dec(c, c.Chance(0.2) ? 9999 : 20, 2));
    }
  }
  return v;
}
static std::string AntexText(Case& c, const std::vector<Ant>& v) {
  std::string t = L("     1.4            M", "ANTEX VERSION / SYST") + L("A", "PCV TYPE / REFANT");
  const int nc = (int)c.Int(0, 4);
  for (int i = 0; i < nc; i++) t += L(c.Of<const char*>({"comment", "    START OF ANTENNA", "###########################################################", ""}), "COMMENT");
  if (c.Bool()) t += "short line\n";
  t += L("", "END OF HEADER");
  for (auto& a : v) {
    char b[512];
    t += L("", "START OF ANTENNA");
    snprintf(b, sizeof b, "%-20s%-20s%-10s%-10s", a.type.c_str(), a.serial.c_str(), a.sat ? "G032" : "", a.sat ? "1992-079A" : "");
    t += L(b, "TYPE / SERIAL NO");
    t += L("                                             0    29-JAN-17", "METH / BY / # / DATE");
    snprintf(b, sizeof b, "  %6.1f", a.dazi);
    t += L(b, "DAZI");
    snprintf(b, sizeof b, "  %6.1f%6.1f%6.1f", a.zen1, a.zen2, a.dzen);
    t += L(b, "ZEN1 / ZEN2 / DZEN");
    snprintf(b, sizeof b, "%6zu", a.fr.size());
    t += L(b, "# OF FREQUENCIES");
    if (a.from) t += L(DateLine(a.t0, a.f0), "VALID FROM");
    if (a.until) t += L(DateLine(a.t1, a.f1), "VALID UNTIL");
    t += L("IGS14_2247", "SINEX CODE");
    if (c.Chance(0.2)) t += L("inner comment", "COMMENT");
    for (auto& f : a.fr) {
      t += L("   " + f.name, "START OF FREQUENCY");
      snprintf(b, sizeof b, "%10.2f%10.2f%10.2f", f.off[0], f.off[1], f.off[2]);
      t += L(b, "NORTH / EAST / UP");
      auto row = [&](const std::string& head, double add) {
        t += head;
        for (double p : f.pcv) t += sp3::F("%8.2f", p + add);
        t += "\n";
      };
      row("   NOAZI", 0);
      if (a.dazi > 0)
        for (double az = 0; az <= 360; az += a.dazi) row(sp3::F("%8.1f", az), 1);
      t += L("   " + f.name, "END OF FREQUENCY");
    }
    t += L("", "END OF ANTENNA");
  }
  return t;
}
// compares what was read with the antennas of v; prefix: the file was cut
static void CompareAntex(Case& c, const AntexFileReader& r, const std::vector<Ant>& v, bool prefix) {
  std::map<size_t, std::vector<const Ant*>> want;
  for (auto& a : v)
    if (a.sat) want[a.index].push_back(&a);
  if (prefix)
    c.Check(r.GetNumberOfSatelliteData() <= want.size(), "antex-truncated-count");
  else
    c.Check(r.GetNumberOfSatelliteData() == want.size(), "antex-count", "got ", r.GetNumberOfSatelliteData(), " want ", want.size());
  for (auto& w : want) {
    std::vector<AntexSatelliteData> d;
    try {
      d = r.GetAntexSatelliteData(w.first);
    } catch (const std::out_of_range&) {
      if (prefix) continue;
      c.Fail("antex-missing-satellite", w.second[0]->serial);
    }
    c.Check(prefix ? d.size() <= w.second.size() : d.size() == w.second.size(), "antex-entries", w.second[0]->serial, " got ", d.size(), " want ", w.second.size());
    for (size_t i = 0; i < d.size(); i++) {
      const Ant& a = *w.second[i];
      c.Check(Trim(d[i].GetAntennaType()) == a.type && Trim(d[i].GetSerialNumber()) == a.serial, "antex-type", d[i].GetAntennaType(), "|", d[i].GetSerialNumber());
      if (a.from) SameDate(c, d[i].GetValidStartTime(), a.t0, a.f0, "antex-valid-from");
      if (a.until) SameDate(c, d[i].GetValidEndTime(), a.t1, a.f1, "antex-valid-until");
      c.Check(d[i].GetNumberOfFrequency() == a.fr.size(), "antex-frequencies");
      for (size_t k = 0; k < a.fr.size(); k++) {
        const auto p = d[i].GetPhaseCenterData(k);
        c.Check(p.GetFrequencyName() == a.fr[k].name, "antex-frequency-name", p.GetFrequencyName(), " want ", a.fr[k].name);
        for (int x = 0; x < 3; x++) c.Check(p.GetPhaseCenterOffset_mm()[x] == a.fr[k].off[x], "antex-offset", a.serial, " ", p.GetPhaseCenterOffset_mm()[x], " want ", a.fr[k].off[x]);
        const auto g = p.GetGridInformation();
        c.Check(g.GetZenithStartAngle_deg() == a.zen1 && g.GetZenithEndAngle_deg() == a.zen2 && g.GetZenithStepAngle_deg() == a.dzen, "antex-grid");
        c.Check(g.GetNumberOfZenithGrid() == a.fr[k].pcv.size(), "antex-grid-size", "got ", g.GetNumberOfZenithGrid(), " want ", a.fr[k].pcv.size(), " zen ", a.zen1, " ", a.zen2, " ", a.dzen);
        const auto m = p.GetPhaseCenterVariationMatrix_mm();
        c.Check(m.size() >= 1 && m[0] == a.fr[k].pcv, "antex-variation", a.serial, " frequency ", k);
      }
    }
  }
}
static void Antex(Case& c) {
  Quiet q;
  const auto v = MakeAntex(c);
  c.Note(v.size(), " antennas");
  AntexFileReader r(Write(c, AntexText(c, v), "a.atx"));
  c.Check(r.GetFileReadSuccessFlag(), "antex-flag");
  CompareAntex(c, r, v, false);
  c.NonTrivial(v.size() > 1);
  // grid index
  AntexGridDefinition g(0, 90, c.Of<double>({1, 5, 10}), c.Of<double>({5, 30}));
  for (int i = 0; i < 4; i++) {
    const double z = c.EdgeReal(-10, 100), a = c.EdgeReal(-10, 370);
    const double wz = std::min(std::max(z, 0.0), 90.0) / g.GetZenithStepAngle_deg(), wa = std::min(std::max(a, 0.0), 360.0) / g.GetAzimuthStepAngle_deg();
    c.Check(std::fabs((double)g.CalcClosestZenithIndex(z) - wz) <= 0.5 + 1e-9, "closest-zenith", z);
    c.Check(std::fabs((double)g.CalcClosestAzimuthIndex(a) - wa) <= 0.5 + 1e-9, "closest-azimuth", a);
  }
  AntexFileReader none(c.TempDir() + "/none");
  c.Check(!none.GetFileReadSuccessFlag() && none.GetNumberOfSatelliteData() == 0, "missing-file");
}
static void AntexBad(Case& c) {
  Quiet q;
  const auto v = MakeAntex(c);
  const std::string full = AntexText(c, v);
  bool at_line;
  size_t kept;
  const std::string t = Damage(c, full, &at_line, &kept);
  c.Note("kept ", t.size(), " of ", full.size(), " at line ", at_line);
  c.NonTrivial();
  try {
    AntexFileReader r(Write(c, t, "b.atx"));
    if (at_line) {
      CompareAntex(c, r, v, true);
      const size_t a = t.rfind("START OF ANTENNA    \n"), e = t.rfind("END OF ANTENNA");
      const bool inside = a != std::string::npos && (e == std::string::npos || e < a) && t.find("TYPE / SERIAL NO", a) != std::string::npos;
      bool sat = false;
      if (inside) sat = t.find("1992-079A", a) != std::string::npos;
      if (inside && sat) c.Check(!r.GetFileReadSuccessFlag(), "antex-truncated-flag");
      if (t.size() == full.size()) c.Check(r.GetFileReadSuccessFlag(), "antex-complete-flag");
    }
    for (size_t i = 0; i < 200; i++) try {
        r.GetAntexSatelliteData(i);
      } catch (const std::out_of_range&) {
      }
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    c.Label("rejected by exception");
  }
}
// --- Bias SINEX ------------------------------------------------------------------------------------------------------------------------
struct Bias {
  std::string id, svn, prn, station, o1, o2, unit;
  double v, sd, slope = 0, slope_sd = 0;
  bool has_slope, has_slope_sd;
};
static std::vector<Bias> MakeBias(Case& c) {
  std::vector<Bias> v(c.Int(0, 30));
  for (auto& b : v) {
    size_t k;
    b.id = c.Of<const char*>({"DSB", "ISB", "OSB", "XXX"}), b.svn = c.Of<const char*>({"G063", "R730", "    ", "E101"}), b.prn = AnyId(c, &k);
    b.station = c.Chance(0.3) ? c.Of<const char*>({"ABMF", "ZIM200CHE"}) : "";
    const char* pairs[][2] = {{"C1W", "C2W"}, {"C1P", "C2P"}, {"C1P", "C1C"}, {"C2P", "C2C"}, {"C1C", "C1W"}, {"C1W", ""}, {"C2W", "C1W"}};
    const auto& p = pairs[c.Int(0, 6)];
    b.o1 = p[0], b.o2 = p[1], b.unit = c.Of<const char*>({"ns", "cyc", "m"});
    b.v = Dec(c, c.Chance(0.2) ? 99999 : 20, 12), b.sd = std::fabs(Dec(c, 9999, 6));
    b.has_slope = c.Chance(0.4), b.has_slope_sd = c.Chance(0.8);
    if (b.has_slope) b.slope = Dec(c, c.Chance(0.4) ? 9999 : 2, 12);
    if (b.has_slope && b.has_slope_sd) b.slope_sd = std::fabs(Dec(c, 9999, 6));
  }
  return v;
}
static std::string BiasText(Case& c, const std::vector<Bias>& v) {
  std::string t = "%=BIA 1.00 COD 2023:092:00000 IGS 2023:091:00000 2023:091:86399 R 00000\n*-----------------------------\n";
  for (const char* n : {"FILE/REFERENCE", "FILE/COMMENT", "INPUT/ACKNOWLEDGMENTS", "BIAS/DESCRIPTION", "BIAS/RECEIVER_INFORMATION"})
    if (c.Bool()) t += std::string("+") + n + "\n*comment\n text of the block\n ISB inside\n-" + n + "\n*----\n";
  t += "+BIAS/SOLUTION\n*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ UNIT __ESTIMATED_VALUE____ _STD_DEV___\n";
  for (auto& b : v) {
    char l[400];
    snprintf(l, sizeof l, " %-4s %-4s %-3s %-9s %-4s %-4s 2023:091:00000 2023:091:86399 %-4s %21.12f %12.6f", b.id.c_str(), b.svn.c_str(), b.prn.c_str(), b.station.c_str(), b.o1.c_str(), b.o2.c_str(), b.unit.c_str(), b.v, b.sd);
    t += l;
    if (b.has_slope) {
      t += " " + sp3::F(b.slope < -999 ? "%21.14f" : "%21.15f", b.slope);
      if (b.has_slope_sd) t += " " + sp3::F("%12.6f", b.slope_sd);
    }
    t += "\n";
    if (c.Chance(0.1)) t += "* comment in between\n";
  }
  return t + "-BIAS/SOLUTION\n%=ENDBIA\n";
}
static void CompareBias(Case& c, const BiasSinexFileReader& r, const std::vector<Bias>& v, bool prefix) {
  c.Check(prefix ? r.GetNumberOfBiasData() <= v.size() : r.GetNumberOfBiasData() == v.size(), "bias-count", "got ", r.GetNumberOfBiasData(), " want ", v.size());
  for (size_t i = 0; i < r.GetNumberOfBiasData(); i++) {
    BiasSolutionData d = r.GetBiasData(i);
    const Bias& b = v[i];
    c.Check(d.GetIdentifier() == (b.id == "DSB" ? BiasIdentifier::kDsb : b.id == "ISB" ? BiasIdentifier::kIsb : b.id == "OSB" ? BiasIdentifier::kOsb : BiasIdentifier::kError), "bias-id");
    c.Check(Trim(d.GetSatelliteSvnCode()) == Trim(b.svn) && Trim(d.GetStationName()) == b.station, "bias-names", d.GetSatelliteSvnCode(), "|", d.GetStationName());
    c.Check(d.GetUnit() == (b.unit == "ns" ? BiasUnit::kNs : b.unit == "cyc" ? BiasUnit::kCycle : BiasUnit::kError), "bias-unit");
    const std::string o = b.o1 + b.o2;
    c.Check(d.GetTargetSignal() == (o == "C1WC2W" || o == "C1PC2P" ? BiasTargetSignal::kP1P2 : o == "C1PC1C" ? BiasTargetSignal::kP1C1 : o == "C2PC2C" ? BiasTargetSignal::kP2C2 : BiasTargetSignal::kError), "bias-signal", o);
    c.Near(d.GetBias(), b.v, 1e-12, 1e-15, "bias-value");
    c.Near(d.GetBiasStandardDeviation(), b.sd, 1e-12, 1e-15, "bias-sd");
    c.Near(d.GetSlope(), b.slope, 1e-12, 1e-15, "bias-slope");
    c.Near(d.GetSlopeStandardDeviation(), b.slope_sd, 1e-12, 1e-15, "bias-slope-sd");
  }
}
static void Bsx(Case& c) {
  Quiet q;
  const auto v = MakeBias(c);
  c.Note(v.size(), " biases");
  BiasSinexFileReader r(Write(c, BiasText(c, v), "a.bsx"));
  c.Check(r.GetFileReadSuccessFlag(), "bias-flag");
  CompareBias(c, r, v, false);
  c.NonTrivial(v.size() > 1);
  BiasSinexFileReader none(c.TempDir() + "/none");
  c.Check(!none.GetFileReadSuccessFlag() && none.GetNumberOfBiasData() == 0, "missing-file");
}
static void BsxBad(Case& c) {
  Quiet q;
  const auto v = MakeBias(c);
  const std::string full = BiasText(c, v);
  bool at_line;
  size_t kept;
  const std::string t = Damage(c, full, &at_line, &kept);
  c.Note("kept ", t.size(), " of ", full.size(), " at line ", at_line);
  c.NonTrivial();
  try {
    BiasSinexFileReader r(Write(c, t, "b.bsx"));
    if (at_line) {
      CompareBias(c, r, v, true);
      const size_t b = t.find("+BIAS/SOLUTION"), e = t.find("-BIAS/SOLUTION");
      if (b != std::string::npos && e == std::string::npos) {
        c.Check(!r.GetFileReadSuccessFlag(), "bias-truncated-flag");
        c.Check(r.GetNumberOfBiasData() == (size_t)std::count_if(v.begin(), v.end(), [&](const Bias&) { return true; }) || t.size() < full.size(), "bias-truncated-count");
      }
    }
    for (size_t i = 0; i < r.GetNumberOfBiasData(); i++) r.GetBiasData(i).GetBias();
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    c.Label("rejected by exception");
  }
}
static void Names(Case& c) {
  // numbers <-> indices, all systems
  for (auto& s : kSys)
    for (size_t n = 1; n <= s.n; n++) {
      c.Check(ConvertGnssSatelliteNumberToIndex(Id(s.sys, n)) == s.begin + n - 1, "number-to-index", Id(s.sys, n));
      c.Check(ConvertIndexToGnssSatelliteNumber(s.begin + n - 1) == Id(s.sys, n), "index-to-number", s.begin + n - 1, " ", ConvertIndexToGnssSatelliteNumber(s.begin + n - 1));
    }
  c.Check(kTotalNumberOfGnssSatellite == kNavicIndexBegin + kNumberOfNavicSatellite, "total");
  const size_t over = kTotalNumberOfGnssSatellite + (size_t)c.Int(0, 1000000);
  c.Check(ConvertIndexToGnssSatelliteNumber(over) == "err", "index-out-of-range", over, " ", ConvertIndexToGnssSatelliteNumber(over));
  const std::string odd = c.Word("GRECJI xySM", 1, 2) + c.Word("0123456789xy ", 0, 3);
  const size_t i = ConvertGnssSatelliteNumberToIndex(odd);
  if (odd.size() < 2 || !isdigit(odd[1]) || !strchr("GRECJI", odd[0])) c.Check(i == UINT32_MAX, "odd-number", odd, " -> ", i);
  // file names and dates
  const long y = c.Int(1990, 2090), len = (y % 4 == 0) ? 366 : 365, d = c.EdgeInt(1, len);
  c.Check((long)MergeYearDoy(y, d) == y * 1000 + d && (long)PerseYearFromYearDoy(y * 1000 + d) == y && (long)PerseDoyFromYearDoy(y * 1000 + d) == d, "year-doy");
  size_t w = y * 1000 + d;
  long day = sp3::Days(y, 1, 1) + d - 1;
  const int n = (int)c.Int(1, 800);
  for (int k = 0; k < n; k++) w = IncrementYearDoy(w), day++;
  const sp3::Date dt = sp3::FromUnix(day * 86400);
  const size_t want = dt.y * 1000 + (day - sp3::Days(dt.y, 1, 1) + 1);
  c.Check(w == want, "increment", y, "/", d, " + ", n, " days got ", w, " want ", want);
  const std::string h = c.Of<const char*>({"IGS0OPSFIN", "COD0MGXFIN"}), p = c.Of<const char*>({"15M", "05M", "30S"}), ft = c.Of<const char*>({"ORB.SP3", "CLK.CLK"});
  c.Check(GetOrbitClockFinalFileName(h, w, p, ft) == h + "_" + std::to_string(w) + "0000_01D_" + p + "_" + ft, "file-name");
  c.NonTrivial();
  c.Note(odd, " ", y, " ", d, " +", n);
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U03", "a file with more than one record, or a damaged file",
                   {{"sp3", Sp3, 1500, 8000, 25, 10},
                    {"sp3_damaged", Sp3Bad, 3000, 20000, 25, 10},
                    {"antex", Antex, 1500, 8000, 25, 10},
                    {"antex_damaged", AntexBad, 3000, 20000, 25, 10},
                    {"bias", Bsx, 1500, 8000, 25, 10},
                    {"bias_damaged", BsxBad, 3000, 20000, 25, 10},
                    {"names", Names, 400, 8000}},
                   {"a C++ exception is an acceptable rejection of a damaged file; a hang, a memory error or data that is not in the file is not", "years 1980-2070"});
}
