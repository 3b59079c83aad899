// property: C07
// sources: core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/GPSWeekZcount.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Week and second of week (or Z-count) <-> time, for every constellation
#include "vp.h"
#include "spec_time.h"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
using namespace gpstk;

template <class W> struct Sys;      // Julian day (at noon of the first day) of week 0, second 0
template <> struct Sys<GPSWeekSecond> { static const int64_t epoch = 44244 + 2400001; };
template <> struct Sys<GALWeekSecond> { static const int64_t epoch = 51412 + 2400001; };
template <> struct Sys<BDSWeekSecond> { static const int64_t epoch = 53736 + 2400001; };
template <> struct Sys<QZSWeekSecond> { static const int64_t epoch = 44244 + 2400001; };
template <> struct Sys<IRNWeekSecond> { static const int64_t epoch = 51412 + 2400001; };
static bool near(double a, double b) { double e = a - b; return e <= 1e-9 && e >= -1e-9; }
static double sod(const CommonTime &t) { return t.m_msod / 1000.0 + t.m_fsod; }

template <class W> static void to()
{
   int64_t week = vp_i64("week", 0, (LASTDAY - Sys<W>::epoch) / 7 - 1), dow = vp_i64("dow", 0, 6);
   double s = vp_f64("sod", 0, 86399.9999);
   TimeSystem x = any_system("x");
   W w((unsigned)week, dow * 86400 + s, x);
   CommonTime t = w.convertToCommonTime();
   int64_t day = Sys<W>::epoch + 7 * week + dow;
   vp_ensure(t.m_timeSystem == x, "the time system is kept");
   vp_ensure(near((t.m_day - day) * 86400.0 + (sod(t) - s), 0), "epoch, weeks, days and seconds add up");
}
template <class W> static void from()
{
   CommonTime t = any_time(0, LASTDAY - 1);
   TimeSystem x = any_system("x");
   t.m_timeSystem = x;
   W w;
   bool thrown = false;
   try { w.convertFromCommonTime(t); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == (t.m_day < Sys<W>::epoch), "times before the first week are rejected, others are not");
   if (thrown) return;
   vp_ensure(w.timeSystem == x, "the time system is kept");
   vp_ensure(w.week >= 0 && w.sow >= 0 && w.sow < 604800.001, "normalised week and second");
   int64_t d = t.m_day - Sys<W>::epoch - 7 * (int64_t)w.week;
   vp_ensure(d >= 0 && d <= 6, "the week that contains the day");
   vp_ensure(near(w.sow - d * 86400, sod(t)), "the second of the week");
}
#define SYS(N) \
extern "C" void vpproof__C07__to_time_##N##__int_real() { to<N##WeekSecond>(); } \
extern "C" void vpproof__C07__from_time_##N##__int_real() { from<N##WeekSecond>(); }
SYS(GPS) SYS(GAL) SYS(BDS) SYS(QZS) SYS(IRN)

extern "C" void vpproof__C07__to_time_Zcount__int_real()
{
   int64_t week = vp_i64("week", 0, 142000), z = vp_i64("z", 0, 403199);
   TimeSystem x = any_system("x");
   GPSWeekZcount w((int)week, (int)z, x);
   CommonTime t = w.convertToCommonTime();
   int64_t day = Sys<GPSWeekSecond>::epoch + 7 * week + z / 57600;
   vp_ensure(t.m_timeSystem == x && t.m_day == day, "the day and the time system");
   vp_ensure(near(sod(t), (z % 57600) * 1.5), "1.5 seconds per count");
   vp_ensure(w.getDayOfWeek() == z / 57600, "day of week");
}
extern "C" void vpproof__C07__from_time_Zcount__int_real()
{
   CommonTime t = any_time(0, LASTDAY - 1);
   TimeSystem x = any_system("x");
   t.m_timeSystem = x;
   GPSWeekZcount w;
   bool thrown = false;
   try { w.convertFromCommonTime(t); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == (t.m_day < Sys<GPSWeekSecond>::epoch), "times before the first week are rejected, others are not");
   if (thrown) return;
   vp_ensure(w.timeSystem == x, "the time system is kept");
   int64_t d = t.m_day - Sys<GPSWeekSecond>::epoch - 7 * (int64_t)w.week;
   vp_ensure(d >= 0 && d <= 6, "the week that contains the day");
   double over = sod(t) - (w.zcount - d * 57600) * 1.5;
   vp_ensure(over >= -1e-9 && over < 1.5 + 1e-9, "the count that the time lies in");
}
