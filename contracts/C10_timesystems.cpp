// property: C10
// sources: core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeConverters.cpp
// opt: timeout=60 loop_max=100000
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Offsets between the time systems
#include "vp.h"
#include "TimeSystem.hpp"
#include "spec_calendar.h"
#include "Exception.hpp"
using namespace gpstk;
#ifdef VP_PROOF
// contract of convertCalendarToJD (proved by C01)
extern "C" long vpstub___ZN5gpstk19convertCalendarToJDEiii(int y, int m, int d)
{
   vp_ensure(y >= 1583 && y <= 4713 && m >= 1 && m <= 12 && d >= 1 && d <= spec_month_len(y, m), "a valid date");
   return spec_jdn(y, m, d);
}
#endif
static bool near(double a, double b) { double e = a - b; return e <= 1e-9 && e >= -1e-9; }
static int64_t g_year, g_month;
static double g_day, g_leap;
#ifdef VP_PROOF
// contract of getLeapSeconds (C10_leap.cpp): the TAI-UTC of the date, a number between 0 and 1000
extern "C" double vpstub___ZN5gpstk14getLeapSecondsEiid(int year, int month, double day)
{
   vp_ensure(year == g_year && month == g_month && day == g_day, "asked for the date of the conversion");
   return g_leap;
}
static double any_leap(int64_t y, int64_t m, double d)
{
   g_year = y; g_month = m; g_day = d;
   return g_leap = vp_f64("leap seconds", 0, 1000);
}
#else
static double any_leap(int64_t y, int64_t m, double d) { return getLeapSeconds((int)y, (int)m, d); }
#endif
// the offset of each system's clock from TAI, as an independent table
static double from_tai(TimeSystem t, double leaps)
{
   switch (t)
   {
      case TimeSystem::GPS: case TimeSystem::GAL: case TimeSystem::IRN: return -19;
      case TimeSystem::UTC: case TimeSystem::GLO: return -leaps;
      case TimeSystem::BDT: return -33;
      case TimeSystem::TT: return 32.184;
      default: return 0;
   }
}
static bool known(TimeSystem t)
{
   return t == TimeSystem::GPS || t == TimeSystem::GAL || t == TimeSystem::IRN || t == TimeSystem::UTC || t == TimeSystem::GLO ||
          t == TimeSystem::BDT || t == TimeSystem::TAI || t == TimeSystem::TT;
}
extern "C" void vpproof__C10__offsets__int_real()
{
   int64_t y = vp_i64("year", 1960, 3000), m = vp_i64("month", 1, 12);
   double d = vp_f64("day", 1, 31.9999);
   double leaps = any_leap(y, m, d);
   for (int i = 0; i < 12; i++)
      for (int j = 0; j < 12; j++)
      {
         TimeSystem a = TimeSystem(i), b = TimeSystem(j);
         if (a == TimeSystem::TDB || b == TimeSystem::TDB) continue;
         bool thrown = false;
         double c = 0;
         try { c = getTimeSystemCorrection(a, b, (int)y, (int)m, d); } catch (Exception &) { thrown = true; }
         vp_ensure(thrown == (a != b && !(known(a) && known(b))), "systems without a defined offset are rejected");
         if (!thrown)
            vp_ensure(a == b ? c == 0 : near(c, from_tai(b, leaps) - from_tai(a, leaps)), "the difference of the offsets from TAI");
      }
}
extern "C" void vpproof__C10__tdb__int_real()
{
   int64_t y = vp_i64("year", 1960, 3000), m = vp_i64("month", 1, 12), i = vp_i64("day", 1, 31);
   double f = vp_f64("fraction", 0, 0.9999);
   vp_assume(i <= spec_month_len(y, m));
   double d = i + f;
   double leaps = any_leap(y, m, d);
   double x = getTimeSystemCorrection(TimeSystem::TT, TimeSystem::TDB, (int)y, (int)m, d);
   vp_ensure(x >= -0.002 && x <= 0.002, "TDB stays within 2 ms of TT");
   for (int j = 0; j < 12; j++)
   {
      TimeSystem b = TimeSystem(j);
      if (!known(b)) continue;
      double p = getTimeSystemCorrection(b, TimeSystem::TDB, (int)y, (int)m, d), q = getTimeSystemCorrection(TimeSystem::TDB, b, (int)y, (int)m, d);
      vp_ensure(near(p, -q), "the way back is the opposite of the way there");
      vp_ensure(near(p, x + 32.184 - from_tai(b, leaps)), "consistent with the offsets of the other systems");
   }
   vp_ensure(getTimeSystemCorrection(TimeSystem::TDB, TimeSystem::TDB, (int)y, (int)m, d) == 0, "no offset from itself");
}
