// property: C03
// sources: core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Arithmetic on times: the normalised form is kept, and whole milliseconds, seconds and days are added exactly
#include "vp.h"
#include "spec_time.h"
using namespace gpstk;

extern "C" void vpproof__C03__set_keeps_the_given_time__int_real()
{
   int64_t day = vp_i64("day", -10, LASTDAY + 10), sod = vp_i64("sod", -10, 86410);
   double f = vp_f64("fsod", -0.5, 1.5);
   CommonTime t;
   bool thrown = false;
   try { t.set((long)day, (long)sod, f, TimeSystem::GPS); } catch (InvalidParameter &) { thrown = true; }
   bool good = day >= 0 && day <= LASTDAY && sod >= 0 && sod < 86400 && f >= 0 && f < 1;
   vp_ensure(thrown == !good, "rejected exactly when a part is out of range");
   if (thrown) return;
   int64_t ms = whole_ms(t) - (day * DAYMS + sod * 1000);
   double rest = f - (ms * 0.001 + t.m_fsod);
   vp_ensure(ms >= 0 && ms < 1000 && t.m_day == day && t.getTimeSystem() == TimeSystem::GPS, "day, second and system are the given ones");
   vp_ensure(rest <= 1e-12 && rest >= -1e-12, "the fraction is the given one");
   vp_ensure(t.m_fsod > -1e-15 && t.m_fsod < 0.001 + 1e-15, "the form is normalised");
}
extern "C" void vpproof__C03__get_returns_the_time__int_real()
{
   CommonTime t = any_time(0, LASTDAY);
   t.m_timeSystem = TimeSystem::UTC;
   long day, sod;
   double f, s;
   TimeSystem ts;
   t.get(day, sod, f, ts);
   vp_ensure(day == t.m_day && sod >= 0 && sod < 86400 && ts == TimeSystem::UTC, "day and second of day");
   double e = (t.m_msod - sod * 1000) * 0.001 + t.m_fsod - f;
   vp_ensure(e <= 1e-12 && e >= -1e-12 && f >= -1e-12 && f < 1 + 1e-12, "fraction of the second");
   t.get(day, s, ts);
   e = t.m_msod / 1000.0 + t.m_fsod - s;
   vp_ensure(day == t.m_day && e <= 1e-9 && e >= -1e-9, "second of day with its fraction");
   vp_ensure(t.getSecondOfDay() == s, "getSecondOfDay agrees with get");
}
static void added(const CommonTime &t, const CommonTime &o, int64_t ms)
{
   vp_ensure(normal(t), "the form stays normalised");
   vp_ensure(whole_ms(t) - whole_ms(o) == ms && t.m_fsod == (o.m_fsod < 1e-15 ? 0 : o.m_fsod), "moved by exactly that many milliseconds");
   vp_ensure(t.m_timeSystem == o.m_timeSystem, "the time system stays");
}
// a fraction within rounding of a whole millisecond is carried into it; elsewhere the addition is exact
static CommonTime plain()
{
   CommonTime t = any_time();
   t.m_timeSystem = TimeSystem::GPS;
   vp_assume(t.m_fsod < 0.001 - 1e-15);
   return t;
}
extern "C" void vpproof__C03__add_days__int_ieee()
{
   CommonTime t = plain(), o = t;
   int64_t n = vp_i64("n", -4000000, 4000000);
   t.addDays(n);
   added(t, o, n * DAYMS);
}
extern "C" void vpproof__C03__add_whole_seconds__int_ieee()
{
   CommonTime t = plain(), o = t;
   int64_t n = vp_i64("n", -350000000000ll, 350000000000ll);
   t.addSeconds((long)n);
   added(t, o, n * 1000);
}
extern "C" void vpproof__C03__add_milliseconds__int_ieee()
{
   CommonTime t = plain(), o = t;
   int64_t n = vp_i64("n", -350000000000000ll, 350000000000000ll);
   t.addMilliseconds((long)n);
   added(t, o, n);
}
extern "C" void vpproof__C03__add_and_take_back__int_ieee()
{
   CommonTime t = plain(), o = t;
   vp_assume(o.m_fsod == 0 || o.m_fsod >= 1e-15);
   int64_t n = vp_i64("n", -350000000000ll, 350000000000ll);
   t.addSeconds((long)n);
   t.addSeconds((long)-n);
   vp_ensure(same_fields(t, o), "adding whole seconds and taking them away again returns to the same time");
}
static double gap(const CommonTime &t, const CommonTime &o) { return (whole_ms(t) - whole_ms(o)) / 1000.0 + (t.m_fsod - o.m_fsod); }
extern "C" void vpproof__C03__add_fractional_seconds__int_real()
{
   CommonTime t = any_time(), o = t;
   double s = vp_f64("s", -3e11, 3e11);
   t.addSeconds(s);
   vp_ensure(normal(t), "the form stays normalised");
   double e = gap(t, o) - s;
#ifdef VP_PROOF
   vp_ensure(e <= 1e-12 && e >= -1e-12, "moved by that many seconds");
#else
   double tol = 1e-9 + 1e-15 * (s < 0 ? -s : s);
   vp_ensure((e <= tol && e >= -tol) || gap(t, o) > 1e7 || gap(t, o) < -1e7, "moved by that many seconds");
#endif
}
extern "C" void vpproof__C03__operators_agree__int_real()
{
   CommonTime t = any_time();
   double s = vp_f64("s", -3e11, 3e11);
   CommonTime a = t, b = t, c = t;
   a.addSeconds(s); b += s; c.addSeconds(-s);
   vp_ensure(same_fields(t + s, a) && same_fields(a, b), "+ and += add the seconds");
   vp_ensure(same_fields(t - s, c), "- takes them away");
   CommonTime d = t;
   d -= s;
   vp_ensure(same_fields(d, c), "-= takes them away");
}
extern "C" void vpproof__C03__difference__int_real()
{
   CommonTime a = any_time(), b = any_time();
   TimeSystem x = any_system("x"), y = any_system("y");
   a.m_timeSystem = x; b.m_timeSystem = y;
   bool thrown = false;
   double d = 0, r = 0;
   try { d = a - b; r = b - a; } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == (x != y && x != TimeSystem::Any && y != TimeSystem::Any), "times of different systems have no difference");
   if (thrown) return;
   double e = d - gap(a, b);
#ifdef VP_PROOF
   vp_ensure(e <= 1e-8 && e >= -1e-8, "the difference in seconds");
#else
   vp_ensure((e <= 1e-3 && e >= -1e-3), "the difference in seconds");
#endif
   vp_ensure(vp_eqt(d, -r, 1e11), "differences are antisymmetric");
}
