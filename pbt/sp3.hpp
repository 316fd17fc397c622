// Generated SP3-d files (format written from the SP3-d specification, not from the reader).
#pragma once
#include <cstdio>
#include <string>
#include <vector>
namespace sp3 {
struct Date {
  long y = 2020, mo = 1, d = 1, h = 0, mi = 0;
  double s = 0;
};
// days since 1970-01-01 (Gregorian)
inline long Days(long y, long m, long d) {
  y -= m <= 2;
  const long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
inline Date FromUnix(long unix_s, double frac = 0) {
  long z = unix_s / 86400 + 719468;
  const long sod = unix_s % 86400;
  const long era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  Date r;
  r.d = doy - (153 * mp + 2) / 5 + 1;
  r.mo = mp < 10 ? mp + 3 : mp - 9;
  r.y = yoe + era * 400 + (r.mo <= 2);
  r.h = sod / 3600, r.mi = sod / 60 % 60, r.s = sod % 60 + frac;
  return r;
}
inline std::string F(const char* f, double a) {
  char b[64];
  snprintf(b, sizeof b, f, a);
  return b;
}
struct Record {
  double x[3] = {0, 0, 0}, clock = 0;      // km, us
  int sdev[4] = {-1, -1, -1, -1};          // -1: blank
  bool clock_event = false, clock_pred = false, maneuver = false, orbit_pred = false;
  bool has_corr = false;
  int corr[10] = {0};
  double v[3] = {0, 0, 0}, rate = 0;       // velocity mode
  int vsdev[4] = {-1, -1, -1, -1};
  bool has_vcorr = false;
  int vcorr[10] = {0};
};
struct File {
  char version = 'd', mode = 'P';
  long start_unix = 1577836800;
  double start_frac = 0;
  double interval = 900;
  std::string used = "ORBIT", coordinate = "IGb14", orbit_type = "FIT", agency = " IGS", file_type = "M ", time_system = "GPS";
  double base_pos = 1.25, base_clk = 1.025;
  std::vector<std::string> ids;
  std::vector<int> accuracy;
  int comments = 4;
  int min_id_lines = 5;
  bool trim = false;                       // records without trailing blanks
  std::vector<std::vector<Record>> rec;    // [epoch][satellite]
  std::string DateText(long u, double f) const {
    const Date t = FromUnix(u, f);
    char b[64];
    snprintf(b, sizeof b, "%4ld %2ld %2ld %2ld %2ld %11.8f", t.y, t.mo, t.d, t.h, t.mi, t.s);
    return b;
  }
  void Epoch(size_t i, long* u, double* f) const {
    const double off = start_frac + interval * (double)i;
    *u = start_unix + (long)off, *f = off - (double)(long)off;
  }
  std::string Finish(std::string l) const {
    if (trim)
      while (!l.empty() && l.back() == ' ') l.pop_back();
    else
      l.resize(80, ' ');
    return l + "\n";
  }
  static std::string Corr(const char* tag, const int* c) {
    char b[128];
    snprintf(b, sizeof b, "%s  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d", tag, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]);
    return b;
  }
  static std::string Sd(const int* s) {
    std::string r;
    for (int i = 0; i < 3; i++) r += s[i] < 0 ? std::string("   ") : F(" %2.0f", s[i]);
    r += s[3] < 0 ? std::string("    ") : F(" %3.0f", s[3]);
    return r;
  }
  std::string Text() const {
    std::string o;
    char b[160];
    snprintf(b, sizeof b, "#%c%c%s %7zu %5s %5s %3s %4s\n", version, mode, DateText(start_unix, start_frac).c_str(), rec.size(), used.c_str(), coordinate.c_str(), orbit_type.c_str(), agency.c_str());
    o += b;
    const long day = start_unix / 86400, gps_day = day - Days(1980, 1, 6);
    snprintf(b, sizeof b, "## %4ld %15.8f %14.8f %5ld %15.13f\n", gps_day / 7, (double)(gps_day % 7) * 86400 + (double)(start_unix % 86400) + start_frac, interval, day + 40587,
             ((double)(start_unix % 86400) + start_frac) / 86400);
    o += b;
    const size_t lines = std::max<size_t>(min_id_lines, (ids.size() + 16) / 17);
    for (size_t l = 0; l < lines; l++) {
      if (l == 0)
        snprintf(b, sizeof b, "+  %3zu   ", ids.size());
      else
        snprintf(b, sizeof b, "+        ");
      std::string t = b;
      for (size_t i = 17 * l; i < 17 * (l + 1); i++) t += i < ids.size() ? ids[i] : "  0";
      o += t + "\n";
    }
    for (size_t l = 0; l < lines; l++) {
      std::string t = "++       ";
      for (size_t i = 17 * l; i < 17 * (l + 1); i++) t += F("%3.0f", i < accuracy.size() ? accuracy[i] : 0);
      o += t + "\n";
    }
    o += "%c " + file_type + " cc " + time_system + " ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
    snprintf(b, sizeof b, "%%f %10.7f %12.9f %14.11f %18.15f\n", base_pos, base_clk, 0.0, 0.0);
    o += b;
    o += "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n";
    for (int i = 0; i < comments; i++) o += "/* COMMENT LINE " + std::to_string(i) + "\n";
    for (size_t e = 0; e < rec.size(); e++) {
      long u;
      double f;
      Epoch(e, &u, &f);
      o += "*  " + DateText(u, f) + "\n";
      for (size_t s = 0; s < ids.size(); s++) {
        const Record& r = rec[e][s];
        snprintf(b, sizeof b, "P%s%14.6f%14.6f%14.6f%14.6f", ids[s].c_str(), r.x[0], r.x[1], r.x[2], r.clock);
        std::string l = b + Sd(r.sdev);
        l += std::string(" ") + (r.clock_event ? "E" : " ") + (r.clock_pred ? "P" : " ") + "  " + (r.maneuver ? "M" : " ") + (r.orbit_pred ? "P" : " ");
        o += Finish(l);
        if (r.has_corr) o += Corr("EP", r.corr) + "\n";
        if (mode == 'V') {
          snprintf(b, sizeof b, "V%s%14.6f%14.6f%14.6f%14.6f", ids[s].c_str(), r.v[0], r.v[1], r.v[2], r.rate);
          o += Finish(b + Sd(r.vsdev));
          if (r.has_vcorr) o += Corr("EV", r.vcorr) + "\n";
        }
      }
    }
    return o + "EOF\n";
  }
};
}  // namespace sp3
