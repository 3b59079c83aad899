// property: C16
// sources: core/lib/GNSSEph/GPSEphemeris.cpp core/lib/GNSSEph/QZSEphemeris.cpp core/lib/GNSSEph/GalEphemeris.cpp core/lib/GNSSEph/BDSEphemeris.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/TimeHandling/MJD.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/EngEphemeris.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// User range accuracy indices and fit intervals (IS-GPS-200 20.3.3.3.1.3, 20.3.4.4, 30.3.3.1.1.4)
#include "vp.h"
#include "GPS_URA.hpp"
#include "EngEphemeris.hpp"
#include "GPSEphemeris.hpp"
using namespace gpstk;
// the interface specification: upper end of the interval of each index, -15..15; index 15 has none
static const double TOP[] = {0.01, 0.02, 0.03, 0.04, 0.06, 0.08, 0.11, 0.15, 0.21, 0.30, 0.43, 0.60, 0.85, 1.20, 1.70,
   2.40, 3.40, 4.85, 6.85, 9.65, 13.65, 24.00, 48.00, 96.00, 192.00, 384.00, 768.00, 1536.00, 3072.00, 6144.00};
static const double NOPREDICTION = 9.999999999999e99;
static double top(int n) { return n == 15 ? NOPREDICTION : TOP[n + 15]; }
// index of an accuracy: the interval it lies in (upper end included), from a first index on
static int index_of(double acc, int first)
{
   for (int n = first; n < 15; n++)
      if (!(acc > top(n))) return n;
   return 15;
}
extern "C" void vpproof__C16__to_index__bv_ieee()
{
   double acc = vp_f64("accuracy", -1e300, 1e300);
   vp_ensure(accuracy2ura(acc) == index_of(acc, 0), "LNAV index of the interval the accuracy lies in");
   vp_ensure(accuracy2CNAVura(acc) == index_of(acc, -15), "CNAV index of the interval the accuracy lies in");
}
static double nominal(int n)   // 2^(1+n/2) up to index 6, with the rounded values the specification gives, 2^(n-2) above
{
   static const double odd[] = {2.8, 5.7, 11.3};
   if (n >= 6) { double x = 16; for (int i = 6; i < n; i++) x *= 2; return x; }
   if (n >= 0 && n % 2) return odd[n / 2];
   double x = 2;
   for (int i = 0; i < n; i += 2) x *= 2;
   return x;
}
extern "C" void vpproof__C16__nominal_index__bv_ieee()
{
   double acc = vp_f64("accuracy", -1e300, 1e300);
   int n = 0;
   while (n < 15 && acc > nominal(n)) n++;
   vp_ensure(nominalAccuracy2ura(acc) == n, "least index whose nominal accuracy is no better");
}
extern "C" void vpproof__C16__from_index__bv_ieee()
{
   int n = (int)vp_i64("index", -32768, 32767);
   double m = ura2accuracy((short)n), x = ura2nominalAccuracy((short)n);
   for (int k = 0; k <= 15; k++)
      if (n == k || (k == 0 && n < 0) || (k == 15 && n > 15))
      {
         vp_ensure(m == top(k), "the accuracy of the index");
         vp_ensure(x == (k == 15 ? NOPREDICTION : nominal(k)), "the nominal accuracy of the index");
         vp_ensure(accuracy2ura(m) == k && nominalAccuracy2ura(x) == k, "and back");
      }
}
extern "C" void vpproof__C16__cnav_from_index__bv_ieee()
{
   int n = (int)vp_i64("index", -16, 17);
   bool t1 = false, t2 = false;
   double m = 0, x = 0;
   try { m = ura2CNAVaccuracy((short)n); } catch (InvalidRequest &) { t1 = true; }
   try { x = ura2CNAVNominalaccuracy((short)n); } catch (InvalidRequest &) { t2 = true; }
   vp_ensure(t1 == (n < -15 || n > 15) && t2 == t1, "other indices are refused");
   if (t1) return;
   static const double below[] = {0.011049, 0.015625, 0.022097, 0.03125, 0.044194, 0.0625, 0.088388, 0.125, 0.176777, 0.25, 0.353553, 0.5, 0.707107, 1, 1.414214};
   for (int k = -15; k <= 15; k++)
      if (n == k)
      {
         vp_ensure(m == top(k), "the accuracy of the index");
         vp_ensure(x == (k < 0 ? below[k + 15] : k == 15 ? NOPREDICTION : nominal(k)), "the nominal accuracy of the index");
         vp_ensure(accuracy2CNAVura(m) == k, "and back");
      }
}
extern "C" void vpproof__C16__intervals__bv_ieee()
{
   for (int k = -15; k <= 15; k++)
   {
      vp_ensure(SV_CNAV_ACCURACY_GPS_MIN_INDEX[k + 15] == (k == -15 ? 0 : top(k - 1)) && SV_CNAV_ACCURACY_GPS_MAX_INDEX[k + 15] == top(k), "adjoining CNAV intervals");
      if (k >= 0)
         vp_ensure(SV_ACCURACY_GPS_MIN_INDEX[k] == (k == 0 ? 0 : top(k - 1)) && SV_ACCURACY_GPS_MAX_INDEX[k] == top(k), "adjoining LNAV intervals");
   }
}
// hours of the curve fit
static int fit(int iodc, int flag)
{
   if (iodc < 0 || iodc > 1023 || flag != 1) return 4;
   if ((iodc & 0xff) < 240) return 6;
   struct R { int lo, hi, h; };
   static const R r[] = {{240, 247, 8}, {248, 255, 14}, {496, 496, 14}, {497, 503, 26}, {1021, 1023, 26}, {504, 510, 50}, {511, 511, 74}, {752, 756, 74},
      {757, 763, 98}, {764, 767, 122}, {1008, 1010, 122}, {1011, 1020, 146}};
   for (int i = 0; i < 12; i++)
      if (iodc >= r[i].lo && iodc <= r[i].hi) return r[i].h;
   return 4;
}
extern "C" void vpproof__C16__fit__bv_ieee()
{
   int iodc = (int)vp_i64("iodc", -32768, 32767), flag = (int)vp_i64("flag", -32768, 32767);
   vp_ensure(EngEphemeris::getFitInterval((short)iodc, (short)flag) == fit(iodc, flag), "fit interval of subframe data");
   GPSEphemeris e;
   vp_ensure(e.getFitInterval((short)iodc, (short)flag) == fit(iodc, flag), "fit interval of an ephemeris");
}
