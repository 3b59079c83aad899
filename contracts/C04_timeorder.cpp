// property: C04
// sources: core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Comparison of times, and of the time system tags
#include "vp.h"
#include "spec_time.h"
using namespace gpstk;

static bool compatible(TimeSystem x, TimeSystem y) { return x == y || x == TimeSystem::Any || y == TimeSystem::Any; }
static int64_t cmp(const CommonTime &a, const CommonTime &b)
{
   if (a.m_day != b.m_day) return a.m_day < b.m_day ? -1 : 1;
   if (a.m_msod != b.m_msod) return a.m_msod < b.m_msod ? -1 : 1;
   return a.m_fsod < b.m_fsod ? -1 : a.m_fsod > b.m_fsod ? 1 : 0;
}
static bool close(const CommonTime &a, const CommonTime &b)
{
   double e = a.m_fsod - b.m_fsod;
   return a.m_day == b.m_day && a.m_msod == b.m_msod && e < CommonTime::eps && e > -CommonTime::eps;
}
extern "C" void vpproof__C04__comparison__int_ieee()
{
   CommonTime a = any_time(0, LASTDAY), b = any_time(0, LASTDAY);
   TimeSystem x = any_system("x"), y = any_system("y");
   a.m_timeSystem = x; b.m_timeSystem = y;
   vp_ensure((a == b) == (compatible(x, y) && close(a, b)), "equal: the same time up to rounding, in compatible systems");
   vp_ensure((a != b) == !(a == b), "!= is the negation of ==");
   bool lt = false, gt = false, le = false, ge = false;
   int thrown = 0;
   try { lt = a < b; } catch (InvalidRequest &) { thrown++; }
   try { gt = a > b; } catch (InvalidRequest &) { thrown++; }
   try { le = a <= b; } catch (InvalidRequest &) { thrown++; }
   try { ge = a >= b; } catch (InvalidRequest &) { thrown++; }
   vp_ensure(thrown == (compatible(x, y) ? 0 : 4), "times of different systems are not ordered");
   if (thrown) return;
   vp_ensure(lt == (cmp(a, b) < 0), "< is the order in time");
   vp_ensure(ge == (cmp(a, b) >= 0), ">= is the negation of <");
   vp_ensure(le == (cmp(a, b) < 0 || close(a, b)), "<= is < or ==");
   vp_ensure(gt == !le, "> is the negation of <=");
}
extern "C" void vpproof__C04__order_is_transitive__int_ieee()
{
   CommonTime a = any_time(0, LASTDAY), b = any_time(0, LASTDAY), c = any_time(0, LASTDAY);
   vp_assume(a < b && b < c);
   vp_ensure(a < c && !(c < a) && !(a < a), "< is a strict order");
}
extern "C" void vpproof__C04__set_system_keeps_time__int_ieee()
{
   CommonTime a = any_time(0, LASTDAY), b = a;
   TimeSystem x = any_system("x");
   a.setTimeSystem(x);
   vp_ensure(a.getTimeSystem() == x && a.m_day == b.m_day && a.m_msod == b.m_msod && a.m_fsod == b.m_fsod, "changing the time system tag keeps the time");
   CommonTime c(a);
   vp_ensure(same_fields(c, a), "a copy is the same time");
   b = a;
   vp_ensure(same_fields(b, a), "an assigned time is the same time");
}
