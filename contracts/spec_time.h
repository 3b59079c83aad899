// Times of the library, arbitrary ones, and their value
#ifndef SPEC_TIME_H
#define SPEC_TIME_H
#include "vp.h"
#include "CommonTime.hpp"
#include "TimeConstants.hpp"
static const int64_t DAYMS = 86400000, LASTDAY = 3442448;
static inline gpstk::TimeSystem any_system(const char *name)
{
   return gpstk::TimeSystem(vp_i64(name, 0, 11));
}
// any normalised time: day 0.., millisecond of day, fraction of a millisecond (in seconds)
static inline gpstk::CommonTime any_time(int64_t d0 = 0, int64_t d1 = LASTDAY - 1)
{
   gpstk::CommonTime t;
   t.m_day = vp_i64("day", d0, d1);
   t.m_msod = vp_i64("msod", 0, DAYMS - 1);
   t.m_fsod = vp_f64("fsod", 0, 0.001);
   vp_assume(t.m_fsod < 0.001);
   return t;
}
static inline gpstk::CommonTime any_time(gpstk::TimeSystem s)
{
   gpstk::CommonTime t = any_time();
   t.m_timeSystem = s;
   return t;
}
static inline bool normal(const gpstk::CommonTime &t)
{
   return t.m_msod >= 0 && t.m_msod < DAYMS && t.m_fsod >= 0 && t.m_fsod < 0.001;
}
static inline int64_t whole_ms(const gpstk::CommonTime &t) { return t.m_day * DAYMS + t.m_msod; }
static inline bool same_fields(const gpstk::CommonTime &a, const gpstk::CommonTime &b)
{
   return a.m_day == b.m_day && a.m_msod == b.m_msod && a.m_fsod == b.m_fsod && a.m_timeSystem == b.m_timeSystem;
}
#endif
