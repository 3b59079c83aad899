// property: C01
// sources: core/lib/TimeHandling/TimeConverters.cpp
// opt: timeout=60
#include "vp.h"
#include "TimeConverters.hpp"
#include "spec_calendar.h"
using namespace gpstk;

// Every Julian day number of the supported span maps to the civil date of the historical calendar (Julian up to
// 4 Oct 1582, Gregorian from 15 Oct 1582, no year 0): checked against an independent closed-form calendar.
extern "C" void vpproof__C01__jd_to_calendar_is_the_civil_date__int_real()
{
   int64_t jd = vp_i64("jd", 0, 3442447);
   int y, m, d;
   convertJDtoCalendar((long)jd, y, m, d);
   vp_ensure(m >= 1 && m <= 12, "month is 1..12");
   vp_ensure(y != 0, "there is no year 0");
   vp_ensure(d >= 1 && d <= spec_month_len(y, m), "day exists in that month");
   vp_ensure(spec_jdn(y, m, d) == jd, "the date is the civil date of that Julian day");
}

static void cal(int m)
{
   int64_t y = vp_i64("y", -4713, 4713);
   int64_t d = vp_i64("d", 1, 31);
   vp_assume(y != 0);
   vp_assume(d <= spec_month_len(y, m));
   vp_assume(!(y == 1582 && m == 10 && d > 4 && d < 15));
   int64_t want = spec_jdn(y, m, d);
   vp_assume(want >= 0 && want <= 3442447);
   long jd = convertCalendarToJD((int)y, m, (int)d);
   vp_ensure(jd == want, "Julian day of the civil date");
}
#define CAL(M) extern "C" void vpproof__C01__calendar_to_jd_month##M##__int_real() { cal(M); }
CAL(1) CAL(2) CAL(3) CAL(4) CAL(5) CAL(6) CAL(7) CAL(8) CAL(9) CAL(10) CAL(11) CAL(12)
