// property: C02
// sources: core/lib/TimeHandling/TimeConverters.cpp
// opt: timeout=60
// Second of day <-> hour, minute, second
#include "vp.h"
#include "TimeConverters.hpp"
using namespace gpstk;
static bool near(double a, double b) { double e = a - b; return e <= 1e-6 && e >= -1e-6; }
static void sod(int64_t n0, int64_t n1, bool zero)
{
   // the day that the second lies in, and the second within it
   int64_t n = vp_i64("day", n0, n1);
   double rest = zero ? 0 : vp_f64("second of day", 0, 86400);
   vp_assume(rest < 86400 && (zero || n >= 0 || rest > 0));
   double sod = n * 86400.0 + rest;
   int h, m;
   double s;
#ifdef VP_PROOF
   if (n > 0)
      vp_ensure((unsigned long)(sod / 86400) == n, "lemma: number of days");
   if (n < 0)
      vp_ensure((unsigned long)(-sod / 86400) == (zero ? -n : -n - 1), "lemma: number of days");
#endif
   convertSODtoTime(sod, h, m, s);
#ifdef VP_PROOF
   if (n != 0)
   {
      int h0, m0;
      double s0;
      convertSODtoTime(rest, h0, m0, s0);
      vp_ensure(s == s0, "lemma: the day does not matter to the second");
      vp_ensure(m == m0, "lemma: the day does not matter to the minute");
      vp_ensure(h == h0, "lemma: the day does not matter to the hour");
      h = h0; m = m0; s = s0;
   }
#endif
   vp_ensure(h >= 0 && h <= 23 && m >= 0 && m <= 59 && s >= 0 && s < 60, "a time of day");
   double e = h * 3600 + m * 60 + s - rest;
#ifdef VP_PROOF
   vp_ensure(e == 0, "the time of day of that second, within one day");
#else
   vp_ensure(near(e, 0) || near(e, 86400) || near(e, -86400), "the time of day of that second, within one day");
#endif
}
extern "C" void vpproof__C02__sod_to_hms__int_real() { sod(0, 0, false); }
extern "C" void vpproof__C02__sod_to_hms_later_days__int_real() { sod(1, 12000, false); }
extern "C" void vpproof__C02__sod_to_hms_before__int_real() { sod(-12000, -1, false); }
extern "C" void vpproof__C02__sod_to_hms_whole_days_before__int_real() { sod(-12000, -1, true); }
extern "C" void vpproof__C02__hms_to_sod__int_real()
{
   int64_t h = vp_i64("h", 0, 23), m = vp_i64("m", 0, 59);
   double s = vp_f64("s", 0, 60);
   vp_assume(s < 60);
   double sod = convertTimeToSOD((int)h, (int)m, s);
   vp_ensure(vp_eqr(sod, h * 3600 + m * 60 + s), "seconds of that time of day");
   int a, b;
   double c;
   convertSODtoTime(sod, a, b, c);
#ifdef VP_PROOF
   vp_ensure(a == h && b == m && c == s, "the conversion back gives the same time of day");
#else
   vp_ensure(near(a * 3600 + b * 60 + c, sod), "the conversion back gives the same time of day");
#endif
}
