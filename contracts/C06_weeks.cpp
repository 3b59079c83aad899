// property: C06
// sources: core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/GPSWeekZcount.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Week numbers, their roll-over epochs and the truncated (broadcast) week, for every constellation
#include "vp.h"
#include "spec_time.h"
#include "spec_calendar.h"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
using namespace gpstk;

#ifdef VP_PROOF
// contract of convertCalendarToJD (proved by C01)
extern "C" long vpstub___ZN5gpstk19convertCalendarToJDEiii(int y, int m, int d)
{
   vp_ensure(y >= 1583 && y <= 4713 && m >= 1 && m <= 12 && d >= 1 && d <= spec_month_len(y, m), "a valid date");
   long jd = vp_i64("jd", 0, 3442447);
   vp_assume(jd == spec_jdn(y, m, d));
   return jd;
}
#endif
// bits of the broadcast week number (ICDs) and first day (MJD) of week 0
template <class W> struct Sys;
template <> struct Sys<GPSWeekSecond> { static const int bits = 10; static const int64_t epoch = 44244; };
template <> struct Sys<GALWeekSecond> { static const int bits = 12; static const int64_t epoch = 51412; };
template <> struct Sys<BDSWeekSecond> { static const int bits = 13; static const int64_t epoch = 53736; };
template <> struct Sys<QZSWeekSecond> { static const int bits = 16; static const int64_t epoch = 44244; };
template <> struct Sys<IRNWeekSecond> { static const int bits = 10; static const int64_t epoch = 51412; };

template <class W> static void split()
{
   const int64_t roll = 1 << Sys<W>::bits;
   int64_t week = vp_i64("week", 0, 200000), e = vp_i64("epoch", 0, 100), m = vp_i64("modweek", 0, roll - 1);
   double sow = vp_f64("sow", 0, 604800);
   W w((unsigned)week, sow);
   vp_ensure(w.week == week && w.sow == sow && w.Nbits() == Sys<W>::bits && w.bitmask() == roll - 1 && w.rollover() == roll && w.MJDEpoch() == Sys<W>::epoch,
             "constants of the system");
   vp_ensure(w.getWeek() == week && w.getEpoch() == week / roll && w.getModWeek() == week % roll, "full week, epoch and truncated week");
   unsigned int a, b;
   w.getEpochModWeek(a, b);
   vp_ensure(a == week / roll && b == week % roll, "both at once");
   w.setEpoch((unsigned)e);
   vp_ensure(w.week == e * roll + week % roll && w.sow == sow, "setEpoch keeps the truncated week");
   w.week = (int)week;
   w.setModWeek((unsigned)m);
   vp_ensure(w.week == week / roll * roll + m && w.sow == sow, "setModWeek keeps the epoch");
   w.week = (int)week;
   w.setEpochModWeek((unsigned)e, (unsigned)m);
   vp_ensure(w.week == e * roll + m && w.sow == sow, "both at once");
}
// a truncated week plus the year it lies in gives the full week back
template <class W> static void year()
{
   const int64_t roll = 1 << Sys<W>::bits;
   int64_t y = vp_i64("year", 1980, 4700), week = vp_i64("week", 0, 200000), e = vp_i64("old epoch", 0, 100);
   int64_t first = Sys<W>::epoch + 2400001 + 7 * week;
   vp_assume(first <= spec_jdn(y, 12, 31) && first + 6 >= spec_jdn(y, 1, 1));
   W w((unsigned)(e * roll + week % roll), 0);
   w.adjustToYear((unsigned)y);
   vp_ensure(w.week == week, "the full week of that year");
}
template <class W> static void valid()
{
   int64_t week = vp_i64("week", -1000, 200000);
   double sow = vp_f64("sow", 0, 700000);
   W w((unsigned)week, sow);
   int64_t last = (3442448 - 2400001 - Sys<W>::epoch) / 7;
   vp_ensure(w.MAXWEEK() == last, "last week that can be converted");
   vp_ensure(w.isValid() == (week >= 0 && week <= last && sow < 604800), "valid weeks and seconds");
   if (w.isValid())
   {
      unsigned d = w.getDayOfWeek();
      vp_ensure(d <= 6 && d * 86400.0 <= sow && sow < d * 86400.0 + 86400, "day of week");
   }
   w.reset();
   vp_ensure(w.week == 0 && w.sow == 0, "reset");
}
#define SYS(N) \
extern "C" void vpproof__C06__split_##N##__int_real() { split<N##WeekSecond>(); } \
extern "C" void vpproof__C06__year_##N##__int_real() { year<N##WeekSecond>(); } \
extern "C" void vpproof__C06__valid_##N##__int_real() { valid<N##WeekSecond>(); }
SYS(GPS) SYS(GAL) SYS(BDS) SYS(QZS) SYS(IRN)

template <class W> static int order(const W &a, const W &b, bool &lt, bool &le, bool &gt, bool &ge, bool &eq, bool &ne)
{
   int thrown = 0;
   try { lt = a < b; } catch (InvalidRequest &) { thrown++; }
   try { le = a <= b; } catch (InvalidRequest &) { thrown++; }
   try { gt = a > b; } catch (InvalidRequest &) { thrown++; }
   try { ge = a >= b; } catch (InvalidRequest &) { thrown++; }
   eq = a == b; ne = a != b;
   return thrown;
}
static bool compatible(TimeSystem x, TimeSystem y) { return x == y || x == TimeSystem::Any || y == TimeSystem::Any; }
extern "C" void vpproof__C06__order_seconds__int_real()
{
   TimeSystem x = any_system("x"), y = any_system("y");
   int64_t w = vp_i64("w", 0, 200000), v = vp_i64("v", 0, 200000);
   double s = vp_f64("s", 0, 604800), t = vp_f64("t", 0, 604800);
   WeekSecond *a, *b;
   GPSWeekSecond g((unsigned)w, s, x), h((unsigned)v, t, y);
   a = &g; b = &h;
   bool lt, le, gt, ge, eq, ne;
   int thrown = order<WeekSecond>(*a, *b, lt, le, gt, ge, eq, ne);
   bool less = w < v || (w == v && s < t), same = w == v && s == t;
   vp_ensure(eq == (compatible(x, y) && same) && ne == !eq, "equality");
   vp_ensure(thrown == (compatible(x, y) ? 0 : 4), "different systems are not ordered");
   if (thrown) return;
   vp_ensure(lt == less && le == (less || same) && gt == !(less || same) && ge == !less, "order of week, then second");
}
extern "C" void vpproof__C06__order_zcounts__int_real()
{
   TimeSystem x = any_system("x"), y = any_system("y");
   int64_t w = vp_i64("w", 0, 200000), v = vp_i64("v", 0, 200000);
   int64_t s = vp_i64("s", 0, 403199), t = vp_i64("t", 0, 403199);
   GPSWeekZcount a((int)w, (int)s, x), b((int)v, (int)t, y);
   bool lt, le, gt, ge, eq, ne;
   int thrown = order(a, b, lt, le, gt, ge, eq, ne);
   bool less = w < v || (w == v && s < t), same = w == v && s == t;
   vp_ensure(eq == (compatible(x, y) && same) && ne == !eq, "equality");
   vp_ensure(thrown == (compatible(x, y) ? 0 : 4), "different systems are not ordered");
   if (thrown) return;
   vp_ensure(lt == less && le == (less || same) && gt == !(less || same) && ge == !less, "order of week, then count");
}
