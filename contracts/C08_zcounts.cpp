// property: C08
// sources: core/lib/TimeHandling/GPSZcount.cpp core/lib/TimeHandling/GPSWeekZcount.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// opaque: emptystr _ZNK5gpstk9ExceptioncvNSt
// Arithmetic on week and Z-count
#include "vp.h"
#include "GPSZcount.hpp"
#include "GPSWeekZcount.hpp"
using namespace gpstk;
static const int64_t W = 403200, BIG = int64_t(1) << 62;
// one interface for both classes
template <class T> struct Z;
template <> struct Z<GPSZcount>
{
   static const int64_t maxweek = 32767;
   static GPSZcount make(int64_t w, int64_t z) { return GPSZcount((short)w, z); }
   static int64_t week(const GPSZcount &x) { return x.getWeek(); }
   static int64_t z(const GPSZcount &x) { return x.getZcount(); }
};
template <> struct Z<GPSWeekZcount>
{
   static const int64_t maxweek = 2147483646;   // the library's int week; its last value is excluded
   static GPSWeekZcount make(int64_t w, int64_t z) { return GPSWeekZcount((int)w, (int)z); }
   static int64_t week(const GPSWeekZcount &x) { return x.week; }
   static int64_t z(const GPSWeekZcount &x) { return x.zcount; }
};
template <class T> static T any(const char *wn, const char *zn)
{
   int64_t w = vp_i64(wn, 0, Z<T>::maxweek), z = vp_i64(zn, 0, W - 1);
   return Z<T>::make(w, z);
}
template <class T> static int64_t total(const T &x) { return Z<T>::week(x) * W + Z<T>::z(x); }
template <class T> static bool sound(const T &x) { return Z<T>::week(x) >= 0 && Z<T>::z(x) >= 0 && Z<T>::z(x) < W; }
// which: 0 addZcounts, 1 +=, 2 -=, 3 +, 4 -
template <class T> static void add(int which)
{
   T x = any<T>("week", "z");
   int64_t before = total(x), n = vp_i64("n", -BIG, BIG), want = before + ((which == 2 || which == 4) ? -n : n);
   if (Z<T>::maxweek > 40000) vp_assume(want < 2147483647 * W);
   bool thrown = false;
   T y = x;
   try
   {
      switch (which)
      {
         case 0: y = x.addZcounts(n); break;
         case 1: y = (x += n); break;
         case 2: y = (x -= n); break;
         case 3: y = x + n; break;
         default: y = x - n; break;
      }
   }
   catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == (want < 0 || want >= (Z<T>::maxweek + 1) * W), "rejected exactly when no week and Z-count stand for the sum");
   if (thrown || which >= 3) vp_ensure(total(x) == before && sound(x), "the operand keeps its value");
   if (!thrown) vp_ensure(total(y) == want && sound(y), "the sum, normalised");
   if (!thrown && which < 3) vp_ensure(total(x) == want, "changed in place");
}
template <class T> static void step()
{
   T x = any<T>("week", "z");
   int64_t before = total(x);
   int64_t which = vp_i64("which", 0, 3);
   if (Z<T>::maxweek > 40000) vp_assume(before + 1 < 2147483647 * W);
   bool thrown = false;
   T y = x;
   try { if (which == 0) y = ++x; else if (which == 1) y = --x; else if (which == 2) y = x++; else y = x--; }
   catch (InvalidRequest &) { thrown = true; }
   int64_t want = before + (which % 2 == 0 ? 1 : -1);
   vp_ensure(thrown == (want < 0 || want >= (Z<T>::maxweek + 1) * W), "rejected exactly at the first and last count");
   vp_ensure(sound(x) && total(x) == (thrown ? before : want), "one Z-count on or back");
   if (!thrown) vp_ensure(total(y) == (which < 2 ? want : before), "the value returned");
}
template <class T> static void weeks()
{
   T x = any<T>("week", "z");
   int64_t n = vp_i64("n", -32768, 32767), w = Z<T>::week(x) + n, z = Z<T>::z(x);
   if (Z<T>::maxweek > 40000) vp_assume(w < 2147483647);
   bool thrown = false;
   try { x.addWeeks((short)n); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == (w < 0 || w > Z<T>::maxweek), "rejected exactly when there is no such week");
   if (!thrown) vp_ensure(Z<T>::week(x) == w && Z<T>::z(x) == z, "only the week changes");
}
template <class T> static void relations()
{
   T a = any<T>("week", "z"), b = any<T>("week2", "z2");
   int64_t x = total(a), y = total(b);
   vp_ensure((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "ordered by time");
   vp_ensure((a == b) == (x == y) && (a != b) == (x != y), "equal exactly at the same time");
   vp_ensure(int64_t(a - b) == x - y, "the difference in Z-counts");
   vp_ensure(int64_t(a.getTotalZcounts()) == x, "the total number of Z-counts");
}
static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((b - 1 - a) / b); }
template <class T> static void block(int64_t size)
{
   T a = any<T>("week", "z"), b = any<T>("week2", "z2");
   int64_t off = vp_i64("offset", 0, int64_t(1) << 40);
   bool same;
   if (size < W)
      same = Z<T>::week(a) == Z<T>::week(b) && fdiv(Z<T>::z(a) - off, size) == fdiv(Z<T>::z(b) - off, size);
   else
      same = fdiv(total(a) - off, size) == fdiv(total(b) - off, size);
   vp_ensure(a.inSameTimeBlock(b, size, off) == same, "the same block of that length and offset");
}
#define BOTH(name, ...) \
extern "C" void vpproof__C08__##name##__int_real() { __VA_ARGS__; }
#define OF(T, N) \
BOTH(N##_add, add<T>(0)) BOTH(N##_plus_assign, add<T>(1)) BOTH(N##_minus_assign, add<T>(2)) BOTH(N##_plus, add<T>(3)) BOTH(N##_minus, add<T>(4)) \
BOTH(N##_step, step<T>()) BOTH(N##_weeks, weeks<T>()) BOTH(N##_relations, relations<T>()) \
BOTH(N##_block_1, block<T>(1)) BOTH(N##_block_minute, block<T>(40)) BOTH(N##_block_hour, block<T>(2400)) BOTH(N##_block_day, block<T>(57600)) BOTH(N##_block_6s, block<T>(4)) \
BOTH(N##_block_odd, block<T>(3001)) BOTH(N##_block_almost_week, block<T>(403199)) BOTH(N##_block_week, block<T>(403200)) BOTH(N##_block_more, block<T>(403201)) BOTH(N##_block_two_weeks, block<T>(806400)) \
BOTH(N##_block_epoch, block<T>(403200L * 1024))
OF(GPSZcount, zcount) OF(GPSWeekZcount, weekzcount)

extern "C" void vpproof__C08__zcount_fields__int_real()
{
   int64_t w = vp_i64("week", -32768, 32767), z = vp_i64("z", -BIG, BIG);
   bool thrown = false;
   try { GPSZcount x((short)w, z); vp_ensure(x.getWeek() == w && x.getZcount() == z, "holds what it was given"); }
   catch (InvalidParameter &) { thrown = true; }
   vp_ensure(thrown == (w < 0 || z < 0 || z >= W), "exactly the invalid weeks and Z-counts are rejected");
}
extern "C" void vpproof__C08__zcount_full__bv_real()
{
   int64_t f = vp_i64("full", 0, INT64_MAX);
   bool thrown = false;
   try
   {
      GPSZcount x((long)f);
      vp_ensure(x.getWeek() == ((f >> 19) & 1023) && x.getZcount() == (f & 0x7ffff), "10-bit week above the 19-bit Z-count");
      vp_ensure(x.getFullZcount() == (f & 0x1fffffff), "and back");
   }
   catch (InvalidParameter &) { thrown = true; }
   vp_ensure(thrown == ((f & 0x7ffff) >= W), "exactly Z-counts beyond the week are rejected");
}
extern "C" void vpproof__C08__zcount_full_of__bv_real()
{
   int64_t w = vp_i64("week", 0, 32767), z = vp_i64("z", 0, W - 1);
   vp_ensure(GPSZcount((short)w, z).getFullZcount() == (((w % 1024) << 19) | z), "week modulo 1024 above the Z-count");
}
extern "C" void vpproof__C08__weekzcount_32__bv_real()
{
   int64_t w = vp_i64("week", 0, 8191), z = vp_i64("z", 0, W - 1), old = vp_i64("old", 0, 2000000), oz = vp_i64("oldz", 0, W - 1);
   GPSWeekZcount x((int)w, (int)z), y((int)old, (int)oz);
   vp_ensure(x.getZcount32() == ((w << 19) | z), "13-bit week above the Z-count");
   y.setZcount32((unsigned)((w << 19) | z));
   vp_ensure(y.week == w && y.zcount == z, "and back");
   vp_ensure(x.getZcount29() == (((w % 1024) << 19) | z), "10-bit week above the Z-count");
}
extern "C" void vpproof__C08__weekzcount_29__int_real()
{
   int64_t w = vp_i64("week", 0, 1023), z = vp_i64("z", 0, W - 1), old = vp_i64("old", 0, 2000000), oz = vp_i64("oldz", 0, W - 1);
   GPSWeekZcount y((int)old, (int)oz);
   y.setZcount29((unsigned)(w * 524288 + z));
   vp_ensure(y.week % 1024 == w && y.week / 1024 == old / 1024 && y.zcount == z, "the week of the current roll-over epoch");
}
