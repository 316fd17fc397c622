// link: base
#include <math_physics/orbit/sgp4/sgp4ext.h>
#include <math_physics/time_system/date_time_format.hpp>
#include <math_physics/time_system/epoch_time.hpp>
#include <math_physics/time_system/gps_time.hpp>
#include "pbt.hpp"
using pbt::Case;
using namespace s2e::time_system;

// independent proleptic Gregorian calendar (days since 1970-01-01)
static int64_t DaysFromCivil(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = (unsigned)(y - era * 400), doy = (153u * (unsigned)(m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
static void CivilFromDays(int64_t z, int64_t& y, int& m, int& d) {
  z += 719468;
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = (int64_t)yoe + era * 400;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = (int)(doy - (153 * mp + 2) / 5 + 1);
  m = (int)(mp < 10 ? mp + 3 : mp - 9);
  y += m <= 2;
}
static const int64_t kLast = DaysFromCivil(2100, 1, 1);
// an instant, biased to day, month, year and leap boundaries
static int64_t AnySecond(Case& c, int64_t first_day = 0) {
  int64_t day;
  switch (c.Int(0, 3)) {
    case 0: day = c.Int(first_day, kLast - 1); break;
    case 1: {
      const int64_t y = c.Int(1970, 2099);
      day = DaysFromCivil(y, (int)c.Int(1, 12), 1) - c.Int(0, 1);
      break;
    }
    case 2: day = DaysFromCivil(c.Int(1970, 2099), 2, 28) + c.Int(0, 2); break;
    default: day = DaysFromCivil(c.Int(1970, 2099), 12, 30) + c.Int(0, 3);
  }
  day = std::min(std::max(day, first_day), kLast - 1);
  const int64_t sod = c.Bool() ? c.Int(0, 86399) : c.Of<int64_t>({0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86398, 86399});
  return day * 86400 + sod;
}
static double AnyFraction(Case& c) {
  switch (c.Int(0, 3)) {
    case 0: return 0;
    case 1: return (double)c.Int(0, 1023) / 1024;
    case 2: return c.Of<double>({0.5, 0.1, 0.25, 0.999999, 1e-6, 0.9999999999, 1 - 1.0 / (1 << 30), 1e-12});
    default: return c.Unit();
  }
}
struct Civil {
  int64_t y;
  int m, d, h, mi, s;
};
static Civil Split(int64_t t) {
  Civil v;
  CivilFromDays(t / 86400, v.y, v.m, v.d);
  v.h = (int)(t % 86400 / 3600), v.mi = (int)(t % 3600 / 60), v.s = (int)(t % 60);
  return v;
}
static void SameDate(Case& c, const DateTime& d, int64_t t, double f, double tol, const char* what) {
  const Civil v = Split(t);
  c.Check((int64_t)d.GetYear() == v.y && (int)d.GetMonth() == v.m && (int)d.GetDay() == v.d && (int)d.GetHour() == v.h && (int)d.GetMinute() == v.mi, "calendar", what,
          ": got ", d.GetAsString(), " for ", v.y, "/", v.m, "/", v.d, " ", v.h, ":", v.mi, ":", v.s);
  c.Near(d.GetSecond(), v.s + f, tol, 0, "calendar-second", what);
}
static void Calendar(Case& c) {
  const int64_t t = AnySecond(c);
  const double f = AnyFraction(c);
  const Civil v = Split(t);
  c.Note(v.y, "/", v.m, "/", v.d, " ", v.h, ":", v.mi, ":", v.s, " + ", f);
  c.NonTrivial(v.m != 1 || v.d != 1 || f != 0);
  if (v.m == 2 && v.d == 29) c.Label("leap day");
  const EpochTime e((uint64_t)t, f);
  const DateTime d(e);
  SameDate(c, d, t, f, 1e-13, "epoch to date");
  const DateTime w((size_t)v.y, (size_t)v.m, (size_t)v.d, (size_t)v.h, (size_t)v.mi, v.s + f);
  const EpochTime back(w);
  const bool carry = v.s + f >= v.s + 1.0;  // the fraction vanished into the next second when added
  if (!carry) {
    c.Check((int64_t)back.GetTime_s() == t, "date-to-epoch", "got ", back.GetTime_s(), " expected ", t);
    c.Near(back.GetFraction_s(), f, 2e-14, 0, "date-to-epoch-fraction");
    c.Check(back.GetFraction_s() >= 0 && back.GetFraction_s() < 1, "normalised", back.GetFraction_s());
    // printing and parsing
    const std::string s = d.GetAsString();
    const DateTime p(s);
    SameDate(c, p, t, f, 5.1e-5, "printed date");  // six significant digits
  }
  // any spelling of the same date
  char text[80];
  snprintf(text, sizeof text, c.Bool() ? "%04d/%02d/%02d %02d:%02d:%02d" : "%d/%d/%d %d:%d:%d", (int)v.y, v.m, v.d, v.h, v.mi, v.s);
  std::string str = text;
  if (c.Bool()) {
    const int ms = (int)c.Int(0, 999);
    snprintf(text, sizeof text, ".%03d", ms);
    SameDate(c, DateTime(str + text), t, ms / 1000.0, 1e-12, "parsed date");
  } else SameDate(c, DateTime(str), t, 0, 0, "parsed date");
  c.Near(e.GetTimeWithFraction_s(), (double)t + f, 1e-6, 0, "time-with-fraction");
}
static void InvalidDate(Case& c) {
  // dates outside the calendar give the zero epoch instead of garbage
  size_t f[5] = {(size_t)c.Int(1970, 2099), (size_t)c.Int(1, 12), (size_t)c.Int(1, 28), (size_t)c.Int(0, 23), (size_t)c.Int(0, 59)};
  double s = c.Real(0, 59);
  switch (c.Int(0, 4)) {
    case 0: f[0] = (size_t)c.Int(0, 1969); break;
    case 1: f[1] = c.Bool() ? 0 : (size_t)c.Int(13, 99); break;
    case 2: f[2] = c.Bool() ? 0 : (size_t)c.Int(32, 99); break;
    case 3: f[4] = (size_t)c.Int(60, 99); break;
    default: s = c.Real(60, 999); break;
  }
  c.Note(f[0], "/", f[1], "/", f[2], " ", f[3], ":", f[4], ":", s);
  c.NonTrivial();
  const EpochTime e(DateTime(f[0], f[1], f[2], f[3], f[4], s));
  c.Check(e.GetFraction_s() >= 0 && e.GetFraction_s() < 1 && e.GetTime_s() == 0, "invalid-date", e.GetTime_s(), " + ", e.GetFraction_s());
}
static void Arithmetic(Case& c) {
  // history of additions and subtractions; fractions are multiples of 2^-30 so the model is exact
  const int64_t one = (int64_t)1 << 30;
  auto frac = [&]() -> int64_t { return c.Chance(0.3) ? c.Of<int64_t>({0, 1, one - 1, one / 2, one / 4}) : c.Int(0, one - 1); };
  __int128 model;
  {
    const int64_t t = AnySecond(c), f = frac();
    model = (__int128)t * one + f;
  }
  auto make = [&](__int128 m) { return EpochTime((uint64_t)(m / one), (double)(int64_t)(m % one) / (double)one); };
  EpochTime e = make(model);
  const int n = (int)c.Int(1, 20);
  for (int i = 0; i < n; i++) {
    __int128 d = (__int128)(c.Bool() ? c.Int(0, 5) : c.Int(0, 4000000000LL)) * one + frac();
    // cancel the fraction exactly now and then
    if (c.Chance(0.2)) d = d - d % one + (c.Bool() ? model % one : one - model % one);
    const bool plus = c.Bool() || d > model;
    c.Note(plus ? "+ " : "- ", (double)d / (double)one);
    const EpochTime r = make(d);
    const EpochTime next = plus ? e + r : e - r;
    model = plus ? model + d : model - d;
    c.Check(next.GetFraction_s() >= 0 && next.GetFraction_s() < 1, "normalised", "fraction ", next.GetFraction_s());
    c.Check((__int128)next.GetTime_s() == model / one, "sum-seconds", "got ", next.GetTime_s(), " expected ", (double)(model / one));
    c.Near(next.GetFraction_s(), (double)(int64_t)(model % one) / (double)one, 0, 0, "sum-fraction");
    const EpochTime undo = plus ? next - r : next + r;
    c.Check(undo == e && !(undo != e) && undo <= e && undo >= e && !(undo < e) && !(undo > e), "inverse", "adding and subtracting does not return");
    c.Check(d == 0 || (plus ? next > e && e < next && next >= e && e <= next && e != next && !(e > next) && !(next <= e) : next < e && e > next && !(e <= next) && !(next >= e)),
            "order");
    c.Check(e + r == r + e, "commutes");
    e = next;
    c.NonTrivial();
  }
}
static void RealArithmetic(Case& c) {
  double fa = AnyFraction(c), fb = AnyFraction(c);
  if (c.Chance(0.2)) {  // almost equal fractions: their difference vanishes beside a second
    fa = c.LogReal(1e-25, 0.2), fb = c.Bool() ? std::nextafter(fa, 1) : fa * (1 + c.LogReal(1e-15, 10));
    if (c.Bool()) std::swap(fa, fb);
    if (fa >= 1 || fb >= 1) c.Skip();
  }
  const EpochTime a((uint64_t)AnySecond(c), fa), b((uint64_t)c.Int(0, 1000000000), fb);
  c.Note(a.GetTime_s(), "+", a.GetFraction_s(), " and ", b.GetTime_s(), "+", b.GetFraction_s());
  c.NonTrivial(a.GetFraction_s() != 0 && b.GetFraction_s() != 0);
  const EpochTime s = a + b;
  c.Check(s.GetFraction_s() >= 0 && s.GetFraction_s() < 1, "normalised", "sum fraction ", s.GetFraction_s());
  const double ds = (double)(int64_t)(s.GetTime_s() - a.GetTime_s() - b.GetTime_s()) + s.GetFraction_s();
  c.Near(ds, a.GetFraction_s() + b.GetFraction_s(), 4e-16, 0, "sum-value");
  if (a >= b) {
    const EpochTime d = a - b;
    c.Check(d.GetFraction_s() >= 0 && d.GetFraction_s() < 1, "normalised", "difference fraction ", d.GetFraction_s());
    const double dd = (double)(int64_t)(d.GetTime_s() - (a.GetTime_s() - b.GetTime_s())) + d.GetFraction_s();
    c.Near(dd, a.GetFraction_s() - b.GetFraction_s(), 4e-16, 0, "difference-value");
  }
}
static void Gps(Case& c) {
  const int64_t epoch = DaysFromCivil(1980, 1, 6) * 86400;
  int64_t t = c.Chance(0.3) ? epoch + c.Int(0, 6200) * 604800 + c.Int(-1, 1) : AnySecond(c, 3657);
  t = std::min(std::max(t, epoch), kLast * 86400 - 1);
  const double f = AnyFraction(c);
  const int64_t since = t - epoch, week = since / 604800, tow = since % 604800;
  c.Note("week ", week, " second ", tow, " + ", f);
  c.NonTrivial(week > 0);
  if (tow < 2 || tow > 604797) c.Label("week boundary");
  const GpsTime a{EpochTime((uint64_t)t, f)};
  c.Check((int64_t)a.GetWeek() == week, "gps-week", "epoch to week: ", a.GetWeek());
  c.Near(a.GetElapsedTimeFromWeek_s(), tow + f, 1e-9, 0, "gps-tow");
  SameDate(c, a.GetDateTime(), t, f, 1e-9, "gps epoch to date");
  c.Check(a.GetEpochTime() == EpochTime((uint64_t)t, f), "gps-epoch");
  const double wt = (double)tow + f;
  const GpsTime b((size_t)week, wt);
  const int64_t tw = (int64_t)wt;
  c.Check((int64_t)b.GetWeek() == week && b.GetElapsedTimeFromWeek_s() == wt, "gps-keeps");
  c.Check((int64_t)b.GetEpochTime().GetTime_s() == epoch + week * 604800 + tw, "week-to-epoch", b.GetEpochTime().GetTime_s());
  c.Near(b.GetEpochTime().GetFraction_s(), wt - (double)tw, 1e-15, 0, "week-to-epoch-fraction");
  SameDate(c, b.GetDateTime(), epoch + week * 604800 + tw, wt - (double)tw, 1e-9, "gps week to date");
  const Civil v = Split(t);
  if (v.s + f < v.s + 1.0) {
    const GpsTime d{DateTime((size_t)v.y, (size_t)v.m, (size_t)v.d, (size_t)v.h, (size_t)v.mi, v.s + f)};
    c.Check((int64_t)d.GetWeek() == week, "date-to-week", d.GetWeek());
    c.Near(d.GetElapsedTimeFromWeek_s(), tow + f, 1e-9, 0, "date-to-tow");
  }
  if (since >= 18) {
    const double uf = f;
    SameDate(c, a.GetDateTimeAsUtc(), t - 18, uf, 1e-9, "UTC of GPS time");
  }
}
static void Julian(Case& c) {
  const int64_t t = AnySecond(c);
  const double f = AnyFraction(c);
  const Civil v = Split(t);
  c.Note(v.y, "/", v.m, "/", v.d, " ", v.h, ":", v.mi, ":", v.s, " + ", f);
  c.NonTrivial();
  double jd = 0;
  jday((int)v.y, v.m, v.d, v.h, v.mi, v.s + f, jd);
  const long double want = 2440587.5L + ((long double)t + f) / 86400.0L;
  c.Near(jd, (double)want, 1e-9, 0, "julian-date");
  int y, m, d, h, mi;
  double s;
  invjday(jd, y, m, d, h, mi, s);
  c.Check(m >= 1 && m <= 12 && d >= 1 && d <= 31 && h >= 0 && h <= 23 && mi >= 0 && mi <= 59 && s > -1e-3 && s < 60.001, "calendar-range", y, "/", m, "/", d, " ", h, ":", mi, ":", s);
  const double back = ((double)(DaysFromCivil(y, m, d) - t / 86400) * 86400) + h * 3600.0 + mi * 60.0 + s;
  c.Near(back, (double)(t % 86400) + f, 1e-4, 0, "julian-to-calendar", std::to_string(y) + "/" + std::to_string(m) + "/" + std::to_string(d) + " " + std::to_string(h) + ":" + std::to_string(mi) + ":" + std::to_string(s));
  // day of year
  const int64_t jan1 = DaysFromCivil(v.y, 1, 1);
  const double doy = (double)(t / 86400 - jan1 + 1) + ((double)(t % 86400) + f) / 86400;
  if ((double)(t % 86400) + f < 86399.999) {  // nearer to midnight the day count itself rounds to the next day
  days2mdhms((int)v.y, doy, m, d, h, mi, s);
  const double back2 = ((double)(DaysFromCivil(v.y, m, d) - t / 86400) * 86400) + h * 3600.0 + mi * 60.0 + s;
  c.Check(m >= 1 && m <= 12 && d >= 1 && d <= 31, "day-of-year-range", m, "/", d);
  c.Near(back2, (double)(t % 86400) + f, 1e-6, 0, "day-of-year");
  }
  // decimal year: elapsed fraction of the year
  double dy = 0;
  JdToDecyear(jd, &dy);
  const double len = (double)(DaysFromCivil(v.y + 1, 1, 1) - jan1);
  c.Near(dy, (double)v.y + (doy - 1) / len, 1e-9, 0, "decimal-year");
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "S02", "an instant away from the origin of its scale, or a history with at least one sum",
                   {{"calendar", Calendar, 60000, 2000000, 500},
                    {"invalid-date", InvalidDate, 5000, 50000, 500},
                    {"arithmetic", Arithmetic, 30000, 1000000, 500},
                    {"real-arithmetic", RealArithmetic, 60000, 1000000, 500},
                    {"gps", Gps, 60000, 2000000, 500},
                    {"julian", Julian, 60000, 2000000, 500}},
                   {"Julian dates resolve 40 microseconds; instants are compared to 0.1 ms there. GPS time is ahead of UTC by the library's fixed 18 s."});
}
