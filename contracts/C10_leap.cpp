// property: C10
// sources: core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeConverters.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// TAI-UTC (leap seconds)
#include "vp.h"
#include "TimeSystem.hpp"
#include "spec_calendar.h"
#include "Exception.hpp"
using namespace gpstk;
#ifdef VP_PROOF
// contract of convertCalendarToJD (proved by C01)
extern "C" long vpstub___ZN5gpstk19convertCalendarToJDEiii(int y, int m, int d)
{
   vp_ensure(y >= 1583 && y <= 4713 && m >= 1 && m <= 12 && d >= 1 && d <= spec_month_len(y, m), "a valid date");
   return spec_jdn(y, m, d);
}
#endif
static bool near(double a, double b) { double e = a - b; return e <= 1e-9 && e >= -1e-9; }
// TAI-UTC since 1972: 10 s, and one more at each of these (IERS Bulletin C; year, month of the first day)
static int64_t tai_utc(int64_t y, int64_t m)
{
   static const int step[][2] = {{1972, 7}, {1973, 1}, {1974, 1}, {1975, 1}, {1976, 1}, {1977, 1}, {1978, 1}, {1979, 1}, {1980, 1},
      {1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1},
      {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
   int64_t n = 10;
   for (unsigned i = 0; i < sizeof(step) / sizeof(step[0]); i++)
      n += (y * 12 + m >= step[i][0] * 12 + step[i][1]) ? 1 : 0;
   return n;
}
extern "C" void vpproof__C10__leap_seconds__int_real()
{
   int64_t y = vp_i64("year", 1972, 3000), m = vp_i64("month", 1, 12);
   double d = vp_f64("day", 1, 31.9999);
   vp_ensure(getLeapSeconds((int)y, (int)m, d) == tai_utc(y, m), "TAI-UTC of that date");
}
extern "C" void vpproof__C10__no_leap_seconds_before_1960__int_real()
{
   int64_t y = vp_i64("year", -4000, 1959), m = vp_i64("month", 1, 12);
   double d = vp_f64("day", 1, 31.9999);
   vp_ensure(getLeapSeconds((int)y, (int)m, d) == 0, "none before 1960");
}
// 1960 to 1971: UTC seconds of slightly different length (USNO tai-utc.dat: offset, reference MJD, rate per day)
static const struct { int year, month; double offset; int mjd; double rate; } SEG[] = {
   {1960, 1, 1.4178180, 36934, 0.001296}, {1961, 1, 1.4228180, 37300, 0.001296}, {1961, 8, 1.3728180, 37300, 0.001296}, {1962, 1, 1.8458580, 37665, 0.0011232},
   {1963, 11, 1.9458580, 37665, 0.0011232}, {1964, 1, 3.2401300, 38761, 0.001296}, {1964, 4, 3.3401300, 38761, 0.001296},
   {1964, 9, 3.4401300, 38761, 0.001296}, {1965, 1, 3.5401300, 38761, 0.001296}, {1965, 3, 3.6401300, 38761, 0.001296},
   {1965, 7, 3.7401300, 38761, 0.001296}, {1965, 9, 3.8401300, 38761, 0.001296}, {1966, 1, 4.3131700, 39126, 0.002592},
   {1968, 2, 4.2131700, 39126, 0.002592}, {1972, 1, 0, 0, 0}};
struct Date { int64_t y, m, d; double f; int64_t jd; };
static Date date_in(int k, const char *yn, const char *mn, const char *dn, const char *fn)
{
   Date t;
   int a = SEG[k].year * 12 + SEG[k].month, b = SEG[k + 1].year * 12 + SEG[k + 1].month;
   t.y = vp_i64(yn, SEG[k].year, SEG[k + 1].year), t.m = vp_i64(mn, 1, 12), t.d = vp_i64(dn, 1, 31);
   t.f = vp_f64(fn, 0, 0.9999);
   vp_assume(t.y * 12 + t.m >= a && t.y * 12 + t.m < b && t.d <= spec_month_len(t.y, t.m));
   t.jd = spec_jdn(t.y, t.m, t.d);
   return t;
}
#define SEGMENT(k) \
extern "C" void vpproof__C10__rate_before_1972_##k##__int_real() \
{ \
   Date s = date_in(k, "year", "month", "day", "fraction"), t = date_in(k, "year2", "month2", "day2", "fraction2"); \
   double a = getLeapSeconds((int)s.y, (int)s.m, s.d + s.f), b = getLeapSeconds((int)t.y, (int)t.m, t.d + t.f); \
   vp_ensure(near(b - a, ((t.jd - s.jd) + (t.f - s.f)) * SEG[k].rate), "TAI-UTC grows at the rate of that period"); \
} \
extern "C" void vpproof__C10__value_before_1972_##k##__int_real() \
{ \
   Date s = date_in(k, "year", "month", "day", "fraction"); \
   double mjd = (s.jd - 2400001) + s.f; \
   vp_ensure(near(getLeapSeconds((int)s.y, (int)s.m, s.d + s.f), SEG[k].offset + (mjd - SEG[k].mjd) * SEG[k].rate), "the published TAI-UTC"); \
} \
/* in some periods the library counts from the start of the period (known finding): any other deviation is a new violation */ \
extern "C" void vpproof__C10__no_other_value_before_1972_##k##__int_real() \
{ \
   Date s = date_in(k, "year", "month", "day", "fraction"); \
   double mjd = (s.jd - 2400001) + s.f, v = getLeapSeconds((int)s.y, (int)s.m, s.d + s.f); \
   vp_ensure(near(v, SEG[k].offset + (mjd - SEG[k].mjd) * SEG[k].rate) || \
             near(v, SEG[k].offset + (mjd - (spec_jdn(SEG[k].year, SEG[k].month, 1) - 2400001)) * SEG[k].rate), "the published TAI-UTC or the known deviation"); \
}
SEGMENT(0) SEGMENT(1) SEGMENT(2) SEGMENT(3) SEGMENT(4) SEGMENT(5) SEGMENT(6) SEGMENT(7) SEGMENT(8) SEGMENT(9) SEGMENT(10) SEGMENT(11) SEGMENT(12) SEGMENT(13)
