// Specification: the historical civil calendar, independent of the library's formulas.
#ifndef SPEC_CALENDAR_H
#define SPEC_CALENDAR_H
#include <cstdint>
static inline bool spec_leap(int64_t y)           // y: civil year, no year 0
{
   int64_t a = y < 0 ? y + 1 : y;                 // astronomical year
   if (y > 1582) return (a % 4 == 0 && a % 100 != 0) || a % 400 == 0;
   return a % 4 == 0;
}
static inline int64_t spec_month_len(int64_t y, int64_t m)
{
   if (m == 2) return spec_leap(y) ? 29 : 28;
   if (m == 4 || m == 6 || m == 9 || m == 11) return 30;
   return 31;
}
static inline int64_t spec_days_before(int64_t m) // in a common year
{
   return m == 1 ? 0 : m == 2 ? 31 : m == 3 ? 59 : m == 4 ? 90 : m == 5 ? 120 : m == 6 ? 151 : m == 7 ? 181 :
          m == 8 ? 212 : m == 9 ? 243 : m == 10 ? 273 : m == 11 ? 304 : 334;
}
static inline bool spec_gregorian(int64_t y, int64_t m, int64_t d)
{
   return y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15)));
}
// day number of Jan 0 of the year, plus days before the month, plus the day; the anchors are JD 0 = 1 Jan 4713 BC
// (Julian) and JD 2451545 = 1 Jan 2000 (Gregorian)
static inline int64_t spec_jdn(int64_t y, int64_t m, int64_t d)
{
   int64_t a = (y < 0 ? y + 1 : y) + 4800;        // >= 87
   int64_t p = a - 1;                             // completed years since 4801 BC
   int64_t doy = spec_days_before(m) + (m > 2 && spec_leap(y) ? 1 : 0) + d;
   if (spec_gregorian(y, m, d))
   {
      // leap days among the completed years, Gregorian rule, counted from year -4800 (divisible by 400)
      int64_t days = 365 * a + (p / 4 - p / 100 + p / 400) + 1;
      return days + doy - 32105;
   }
   int64_t days = 365 * a + p / 4 + 1;
   return days + doy - 32143;
}
#endif
