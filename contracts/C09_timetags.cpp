// property: C09
// sources: core/lib/TimeHandling/UnixTime.cpp core/lib/TimeHandling/PosixTime.cpp core/lib/TimeHandling/ANSITime.cpp core/lib/TimeHandling/JulianDate.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/TimeHandling/CivilTime.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// The other time representations <-> time
#include "vp.h"
#include "spec_time.h"
#include "spec_calendar.h"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "JulianDate.hpp"
#include "MJD.hpp"
#include "YDSTime.hpp"
#include "CivilTime.hpp"
using namespace gpstk;
static const int64_t EPOCH70 = 2400001 + 40587;      // 1 January 1970
#ifdef VP_PROOF
// contracts of the calendar conversions (proved by C01)
static bool cal_date(int64_t y, int64_t m, int64_t d)
{
   return y >= -4713 && y <= 4713 && y != 0 && m >= 1 && m <= 12 && d >= 1 && d <= spec_month_len(y, m) &&
          !(y == 1582 && m == 10 && d > 4 && d < 15);
}
extern "C" long vpstub___ZN5gpstk19convertCalendarToJDEiii(int y, int m, int d)
{
   vp_ensure(cal_date(y, m, d), "a valid date");
   return spec_jdn(y, m, d);
}
extern "C" void vpstub___ZN5gpstk19convertJDtoCalendarElRiS0_S0_(long jd, int &y, int &m, int &d)
{
   vp_ensure(jd >= 0 && jd <= 3442447, "a Julian day of the supported span");
   int64_t a = vp_i64("y", -4713, 4713), b = vp_i64("m", 1, 12), c = vp_i64("d", 1, 31);
   vp_assume(cal_date(a, b, c) && spec_jdn(a, b, c) == jd);
   y = a; m = b; d = c;
}
#endif
static bool near(double a, double b, double tol = 1e-9) { double e = a - b; return e <= tol && e >= -tol; }
static double sod(const CommonTime &t) { return t.m_msod / 1000.0 + t.m_fsod; }

extern "C" void vpproof__C09__unix__int_real()
{
   int64_t s = vp_i64("s", -210866803200ll, 86400 * (LASTDAY - EPOCH70) - 1), u = vp_i64("us", 0, 999999);
   TimeSystem x = any_system("x");
   UnixTime a((int)0, (int)0, x);
   a.tv.tv_sec = s; a.tv.tv_usec = u;
   CommonTime t = a.convertToCommonTime();
   vp_ensure(t.m_timeSystem == x && (t.m_day - EPOCH70) * 86400 + t.m_msod / 1000 == s, "seconds since 1970");
   vp_ensure(near(t.m_msod % 1000 / 1000.0 + t.m_fsod, u * 1e-6), "microseconds");
   UnixTime b;
   b.convertFromCommonTime(t);
   vp_ensure(b.tv.tv_sec == s && b.tv.tv_usec == u && b.timeSystem == x, "the conversion back gives the same seconds and microseconds");
}
extern "C" void vpproof__C09__unix_rounds__int_real()
{
   CommonTime t = any_time();
   t.m_timeSystem = any_system("x");
   UnixTime b;
   b.convertFromCommonTime(t);
   vp_ensure(b.tv.tv_usec >= 0 && b.tv.tv_usec < 1000000 && b.timeSystem == t.m_timeSystem, "normalised");
   int64_t w = (t.m_day - EPOCH70) * 86400 + t.m_msod / 1000;
   vp_ensure(near((b.tv.tv_sec - w) + b.tv.tv_usec * 1e-6, t.m_msod % 1000 / 1000.0 + t.m_fsod, 0.5e-6 + 1e-9), "the nearest microsecond");
}
extern "C" void vpproof__C09__posix__int_real()
{
   int64_t s = vp_i64("s", 0, 2147483646), u = vp_i64("ns", 0, 999999999);
   TimeSystem x = any_system("x");
   PosixTime a((int)0, (int)0, x);
   a.ts.tv_sec = s; a.ts.tv_nsec = u;
   CommonTime t = a.convertToCommonTime();
   vp_ensure(t.m_timeSystem == x && (t.m_day - EPOCH70) * 86400 + t.m_msod / 1000 == s, "seconds since 1970");
   vp_ensure(near(t.m_msod % 1000 / 1000.0 + t.m_fsod, u * 1e-9, 1e-12), "nanoseconds");
   PosixTime b;
   b.convertFromCommonTime(t);
   vp_ensure(b.ts.tv_sec == s && b.ts.tv_nsec == u && b.timeSystem == x, "the conversion back gives the same seconds and nanoseconds");
}
extern "C" void vpproof__C09__posix_rounds__int_real()
{
   CommonTime t = any_time();
   t.m_timeSystem = any_system("x");
   PosixTime b;
   bool thrown = false;
   try { b.convertFromCommonTime(t); } catch (InvalidRequest &) { thrown = true; }
   int64_t w = (t.m_day - EPOCH70) * 86400 + t.m_msod / 1000;
   if (w != 2147483647)
      vp_ensure(thrown == (w < 0 || w > 2147483647), "rejected outside 1970 to 2038");
   if (thrown) return;
   vp_ensure(b.ts.tv_nsec >= 0 && b.ts.tv_nsec < 1000000000 && b.timeSystem == t.m_timeSystem, "normalised");
   vp_ensure(near((b.ts.tv_sec - w) + b.ts.tv_nsec * 1e-9, t.m_msod % 1000 / 1000.0 + t.m_fsod, 0.5e-9 + 1e-12), "the nearest nanosecond");
}
extern "C" void vpproof__C09__ansi__int_real()
{
   int64_t s = vp_i64("s", 0, 2147483647);
   TimeSystem x = any_system("x");
   ANSITime a((int)s, x);
   CommonTime t = a.convertToCommonTime();
   vp_ensure(t.m_timeSystem == x && (t.m_day - EPOCH70) * 86400 + t.m_msod / 1000 == s && t.m_msod % 1000 == 0 && t.m_fsod == 0, "seconds since 1970");
   CommonTime u = any_time();
   u.m_timeSystem = x;
   ANSITime b;
   bool thrown = false;
   try { b.convertFromCommonTime(u); } catch (InvalidRequest &) { thrown = true; }
   int64_t w = (u.m_day - EPOCH70) * 86400 + u.m_msod / 1000;
   if (w != 2147483647)
      vp_ensure(thrown == (w < 0 || w > 2147483647), "rejected outside 1970 to 2038");
   if (!thrown)
      vp_ensure(b.time == w && b.timeSystem == x, "the whole second of the time");
}
extern "C" void vpproof__C09__mjd__int_real()
{
   CommonTime t = any_time();
   TimeSystem x = any_system("x");
   t.m_timeSystem = x;
   MJD m;
   m.convertFromCommonTime(t);
   vp_ensure(near((double)(m.mjd - (t.m_day - 2400001)), sod(t) / 86400.0, 1e-12), "modified Julian date: days since 17 November 1858");
   CommonTime u = m.convertToCommonTime();
   vp_ensure(u.m_timeSystem == x && near((u.m_day - t.m_day) * 86400.0 + (sod(u) - sod(t)), 0, 1e-6), "the conversion back gives the time");
}
extern "C" void vpproof__C09__jd__int_real()
{
   CommonTime t = any_time();
   TimeSystem x = any_system("x");
   t.m_timeSystem = x;
   JulianDate m;
   m.convertFromCommonTime(t);
   vp_ensure(near((double)(m.jd - (t.m_day - 0.5)), sod(t) / 86400.0, 1e-12), "Julian date: the day starts at noon");
   CommonTime u = m.convertToCommonTime();
   vp_ensure(u.m_timeSystem == x && near((u.m_day - t.m_day) * 86400.0 + (sod(u) - sod(t)), 0, 1e-5), "the conversion back gives the time");
}
extern "C" void vpproof__C09__year_day_second__int_real()
{
   CommonTime t = any_time();
   TimeSystem x = any_system("x");
   t.m_timeSystem = x;
   YDSTime m;
   m.convertFromCommonTime(t);
   vp_ensure(m.doy >= 1 && m.doy <= (m.year == 1582 ? 355 : spec_leap(m.year) ? 366 : 365) && m.timeSystem == x, "a day of the year");
   vp_ensure(spec_jdn(m.year, 1, 1) + m.doy - 1 == t.m_day, "the year and day of year");
   vp_ensure(near(m.sod, sod(t)), "the second of the day");
}
extern "C" void vpproof__C09__year_day_second_to_time__int_real()
{
   int64_t y = vp_i64("year", -4712, 4700), d = vp_i64("doy", 1, 366);
   double s = vp_f64("sod", 0, 86399.9999);
   TimeSystem x = any_system("x");
   vp_assume(y != 0);
   YDSTime m((long)y, (long)d, s, x);
   CommonTime t = m.convertToCommonTime();
   vp_ensure(t.m_timeSystem == x && near((t.m_day - (spec_jdn(y, 1, 1) + d - 1)) * 86400.0 + (sod(t) - s), 0), "the day and the second");
}
extern "C" void vpproof__C09__civil_to_time__int_real()
{
   int64_t y = vp_i64("year", -4712, 4700), m = vp_i64("month", 1, 12), d = vp_i64("day", 1, 31), h = vp_i64("hour", 0, 23), n = vp_i64("minute", 0, 59);
   double s = vp_f64("second", 0, 59.9999);
   vp_assume(y != 0 && d <= spec_month_len(y, m) && !(y == 1582 && m == 10 && d > 4 && d < 15));
   TimeSystem x = any_system("x");
   CivilTime c((int)y, (int)m, (int)d, (int)h, (int)n, s, x);
   CommonTime t = c.convertToCommonTime();
   vp_ensure(t.m_timeSystem == x && near((t.m_day - spec_jdn(y, m, d)) * 86400.0 + (sod(t) - (h * 3600 + n * 60 + s)), 0), "the date and the time of day");
}
extern "C" void vpproof__C09__civil__int_real()
{
   CommonTime t = any_time();
   TimeSystem x = any_system("x");
   t.m_timeSystem = x;
   CivilTime c;
   c.convertFromCommonTime(t);
   vp_ensure(spec_jdn(c.year, c.month, c.day) == t.m_day && c.timeSystem == x, "the date");
   vp_ensure(c.hour >= 0 && c.hour <= 23 && c.minute >= 0 && c.minute <= 59 && c.second >= 0 && c.second < 60.0000001, "a time of day");
   vp_ensure(near(c.hour * 3600 + c.minute * 60 + c.second, sod(t)), "the time of day");
}
