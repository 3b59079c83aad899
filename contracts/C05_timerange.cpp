// property: C05
// sources: core/lib/TimeHandling/TimeRange.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// opaque: emptystr _ZN5gpstk9printTime
// Time ranges are intervals, open or closed at either end
#include "vp.h"
#include "spec_time.h"
#include "TimeRange.hpp"
using namespace gpstk;

static int cmp(const CommonTime &a, const CommonTime &b)
{
   if (a.m_day != b.m_day) return a.m_day < b.m_day ? -1 : 1;
   if (a.m_msod != b.m_msod) return a.m_msod < b.m_msod ? -1 : 1;
   return a.m_fsod < b.m_fsod ? -1 : a.m_fsod > b.m_fsod ? 1 : 0;
}
// two times are the same or further apart than the rounding the library's == ignores
static void distinct(const CommonTime &a, const CommonTime &b)
{
   double e = a.m_fsod - b.m_fsod;
   vp_assume(a.m_day != b.m_day || a.m_msod != b.m_msod || e == 0 || e > CommonTime::eps || e < -CommonTime::eps);
}
struct R { CommonTime s, e; bool is, ie; };
static R any_range()
{
   R r;
   r.s = any_time(TimeSystem::GPS); r.e = any_time(TimeSystem::GPS);
   r.is = vp_bool("includeStart"); r.ie = vp_bool("includeEnd");
   distinct(r.s, r.e);
   // not empty
   vp_assume(cmp(r.s, r.e) < 0 || (cmp(r.s, r.e) == 0 && r.is && r.ie));
   return r;
}
static bool in(const R &r, const CommonTime &t)
{
   return (cmp(r.s, t) < 0 || (r.is && cmp(r.s, t) == 0)) && (cmp(t, r.e) < 0 || (r.ie && cmp(t, r.e) == 0));
}
// every point of the one before every point of the other
static bool before(const R &a, const R &b)
{
   int c = cmp(a.e, b.s);
   return c < 0 || (c == 0 && !(a.ie && b.is));
}
static void all_distinct(const R &a, const R &b)
{
   distinct(a.s, b.s); distinct(a.s, b.e); distinct(a.e, b.s); distinct(a.e, b.e);
}

extern "C" void vpproof__C05__membership__int_real()
{
   R r = any_range();
   CommonTime t = any_time(TimeSystem::GPS);
   distinct(r.s, t); distinct(r.e, t);
   TimeRange x(r.s, r.e, r.is, r.ie);
   vp_ensure(same_fields(x.getStart(), r.s) && same_fields(x.getEnd(), r.e), "the ends are the given ones");
   vp_ensure(x.inRange(t) == in(r, t), "inRange is membership in the interval");
   TimeRange y(x);
   vp_ensure(y.inRange(t) == in(r, t) && same_fields(y.getStart(), r.s) && same_fields(y.getEnd(), r.e), "a copy is the same range");
}
extern "C" void vpproof__C05__bad_range_is_rejected__int_real()
{
   CommonTime s = any_time(TimeSystem::GPS), e = any_time(TimeSystem::GPS);
   bool is = vp_bool("includeStart"), ie = vp_bool("includeEnd"), thrown = false, thrown2 = false;
   R o = any_range();
   TimeRange x(o.s, o.e, o.is, o.ie);
   try { x.set(s, e, is, ie); } catch (TimeRange::TimeRangeException &) { thrown = true; }
   vp_ensure(thrown == (cmp(e, s) < 0), "set rejects exactly the ranges that end before they start");
   if (thrown)
      vp_ensure(same_fields(x.getStart(), o.s) && same_fields(x.getEnd(), o.e), "a rejected range leaves the old one");
   else
      vp_ensure(same_fields(x.getStart(), s) && same_fields(x.getEnd(), e), "the ends are the given ones");
   try { TimeRange y(s, e, is, ie); } catch (TimeRange::TimeRangeException &) { thrown2 = true; }
   vp_ensure(thrown2 == (cmp(e, s) < 0), "so does the constructor");
}
extern "C" void vpproof__C05__relations__int_real()
{
   R a = any_range(), b = any_range();
   all_distinct(a, b);
   TimeRange x(a.s, a.e, a.is, a.ie), y(b.s, b.e, b.is, b.ie);
   vp_ensure(x.isPriorTo(y) == before(a, b), "isPriorTo: every time of the one is before every time of the other");
   vp_ensure(x.isAfter(y) == before(b, a), "isAfter: every time of the one is after every time of the other");
   vp_ensure(x.overlaps(y) == !(before(a, b) || before(b, a)), "ranges overlap unless one is before the other");
   vp_ensure(y.overlaps(x) == x.overlaps(y), "overlap is symmetric");
   vp_ensure(x.isSubsetOf(y) == (cmp(a.s, b.s) >= 0 && cmp(a.e, b.e) <= 0), "isSubsetOf: both ends within the other range");
   vp_ensure((x == y) == (cmp(a.s, b.s) == 0 && cmp(a.e, b.e) == 0 && a.is == b.is && a.ie == b.ie), "== compares ends and their inclusion");
}
extern "C" void vpproof__C05__overlap_has_a_common_time__int_real()
{
   R a = any_range(), b = any_range();
   all_distinct(a, b);
   CommonTime t = any_time(TimeSystem::GPS);
   distinct(a.s, t); distinct(a.e, t); distinct(b.s, t); distinct(b.e, t);
   TimeRange x(a.s, a.e, a.is, a.ie), y(b.s, b.e, b.is, b.ie);
   if (x.inRange(t) && y.inRange(t))
      vp_ensure(x.overlaps(y) && !x.isPriorTo(y) && !x.isAfter(y), "ranges with a common time overlap");
   vp_ensure(!(x.isPriorTo(y) && x.isAfter(y)), "prior and after exclude each other");
}
extern "C" void vpproof__C05__order__int_real()
{
   R a = any_range(), b = any_range(), c = any_range();
   all_distinct(a, b); all_distinct(b, c); all_distinct(a, c);
   TimeRange x(a.s, a.e, a.is, a.ie), y(b.s, b.e, b.is, b.ie), z(c.s, c.e, c.is, c.ie);
   int d = cmp(a.s, b.s);
   vp_ensure((x < y) == (d < 0 || (d == 0 && a.is && !b.is)), "< is the order of the start, a closed start before an open one");
   vp_ensure(!(x < x) && !(x < y && y < x), "< is asymmetric");
   vp_ensure(!(x < y && y < z) || x < z, "< is transitive");
   vp_ensure(x < y || y < x || (d == 0 && a.is == b.is), "ranges that < does not order start at the same time");
}
