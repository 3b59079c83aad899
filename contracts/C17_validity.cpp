// property: C17
// sources: core/lib/GNSSEph/GPSEphemeris.cpp core/lib/GNSSEph/QZSEphemeris.cpp core/lib/GNSSEph/GalEphemeris.cpp core/lib/GNSSEph/BDSEphemeris.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/TimeHandling/MJD.cpp core/lib/GNSSCore/ObsID.cpp
// opt: timeout=60
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Period of validity and health of broadcast ephemerides
#include "vp.h"
#include "spec_time.h"
#include "GPSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
static const int64_t GPSDAY = 44244 + 2400001;
static CommonTime at(int64_t week, int64_t sow, TimeSystem s)
{
   CommonTime t;
   t.m_day = GPSDAY + 7 * week + sow / 86400;
   t.m_msod = (sow % 86400) * 1000;
   t.m_fsod = 0;
   t.m_timeSystem = s;
   return t;
}
static double sec(const CommonTime &t) { return (t.m_day - GPSDAY) * 86400.0 + t.m_msod / 1000.0 + t.m_fsod; }
static bool near(double a, double b) { double e = a - b; return e <= 1e-6 && e >= -1e-6; }
// IS-GPS-200: transmission begins half a fit interval before Toc unless Toc is not on an even two hours (upload), when only the time of the data is certain
template <class E> static void gps(TimeSystem sys)
{
   E e;
   bool loaded = vp_bool("loaded");
   e.dataLoadedFlag = loaded;
   int64_t wk = vp_i64("week", 1, 4000), toc = vp_i64("toc", 0, 604799), dw = vp_i64("dw", -1, 1), toe = vp_i64("toe", 0, 604799);
   int64_t xw = vp_i64("transmit week", 0, 4001), how = vp_i64("how", 0, 604799);
   int fit = (int)vp_i64("fit", 4, 146);
   e.ctToc = at(wk, toc, sys);
   e.ctToe = at(wk + dw, toe, sys);
   e.transmitTime = at(xw, how, sys);
   e.HOWtime = how;
   e.fitDuration = fit;
   bool thrown = false;
   try { e.adjustValidity(); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == !loaded, "no validity without data");
   if (thrown) return;
   int64_t half = (fit / 2) * 3600;
   int64_t b = toc % 7200 ? xw * 604800 + how - how % 30 : wk * 604800 + toc - half;
   vp_ensure(near(sec(e.beginValid), (double)b), "valid from the beginning of transmission");
   int64_t end = (wk + dw) * 604800 + (toe + 3599) / 3600 * 3600 + half;
   vp_ensure(near(sec(e.endValid), (double)end), "valid until half a fit interval after Toe, on the hour");
   vp_ensure(e.endValid.m_timeSystem == sys || e.endValid.m_timeSystem == TimeSystem::GPS, "time system");
}
extern "C" void vpproof__C17__gps__int_real() { gps<GPSEphemeris>(TimeSystem::GPS); }
extern "C" void vpproof__C17__gal__int_real()
{
   GalEphemeris e;
   bool loaded = vp_bool("loaded");
   e.dataLoadedFlag = loaded;
   int64_t wk = vp_i64("week", 1, 4000), toe = vp_i64("toe", 0, 604799), x = vp_i64("transmit", 0, 604799);
   e.ctToe = at(wk, toe, TimeSystem::GAL);
   e.transmitTime = at(wk, x, TimeSystem::GAL);
   bool thrown = false;
   try { e.adjustValidity(); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == !loaded, "no validity without data");
   if (thrown) return;
   vp_ensure(same_fields(e.beginValid, e.transmitTime), "valid from transmission");
   vp_ensure(near(sec(e.endValid), wk * 604800.0 + toe + 4 * 3600), "valid for four hours after Toe");
}
extern "C" void vpproof__C17__bds__int_real()
{
   BDSEphemeris e;
   bool loaded = vp_bool("loaded");
   e.dataLoadedFlag = loaded;
   int64_t wk = vp_i64("week", 1, 4000), toe = vp_i64("toe", 0, 604799), xw = vp_i64("transmit week", 1, 4000), x = vp_i64("transmit", 0, 604799);
   e.ctToe = at(wk, toe, TimeSystem::BDT);
   e.transmitTime = at(xw, x, TimeSystem::BDT);
   bool thrown = false;
   try { e.adjustValidity(); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == !loaded, "no validity without data");
   if (thrown) return;
   bool later = xw * 604800 + x > wk * 604800 + toe;
   vp_ensure(later ? same_fields(e.beginValid, e.transmitTime) : same_fields(e.beginValid, e.ctToe), "valid from Toe or transmission, whichever is later");
   vp_ensure(near(sec(e.endValid), (wk + 1) * 604800.0 + toe), "valid for a week after Toe");
}
extern "C" void vpproof__C17__qzs__int_real()
{
   QZSEphemeris e;
   bool loaded = vp_bool("loaded");
   e.dataLoadedFlag = loaded;
   int64_t wk = vp_i64("week", 1, 4000), toe = vp_i64("toe", 0, 604799), xw = vp_i64("transmit week", 1, 4000), x = vp_i64("transmit", 0, 604799);
   int fit = (int)vp_i64("fit", 1, 146);
   e.ctToe = at(wk, toe, TimeSystem::QZS);
   e.transmitTime = at(xw, x, TimeSystem::QZS);
   e.fitDuration = fit;
   bool thrown = false;
   try { e.adjustValidity(); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == !loaded, "no validity without data");
   if (thrown) return;
   vp_ensure(same_fields(e.beginValid, e.transmitTime), "valid from transmission");
   vp_ensure(near(sec(e.endValid), wk * 604800.0 + toe + fit * 1800), "valid for half a fit interval after Toe");
}
// inside the period, both ends included
template <class E> static void valid(TimeSystem sys)
{
   E e;
   e.dataLoadedFlag = true;
   int64_t b = vp_i64("begin", 0, 2000000000), n = vp_i64("end", 0, 2000000000), t = vp_i64("t", 0, 2000000000);
   e.beginValid = at(0, b, sys);
   e.endValid = at(0, n, sys);
   CommonTime c = at(0, t, sys);
   const OrbitEph &base = e;
   vp_ensure(base.isValid(c) == (t >= b && t <= n), "valid from begin to end, both included");
   OrbitEph none;
   bool thrown = false;
   try { none.isValid(c); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown, "nothing is valid without data");
}
extern "C" void vpproof__C17__valid_orbit__int_real() { valid<OrbitEph>(TimeSystem::GPS); }
extern "C" void vpproof__C17__valid_gps__int_real() { valid<GPSEphemeris>(TimeSystem::GPS); }
extern "C" void vpproof__C17__valid_qzs__int_real() { valid<QZSEphemeris>(TimeSystem::QZS); }
extern "C" void vpproof__C17__valid_gal__int_real() { valid<GalEphemeris>(TimeSystem::GAL); }
extern "C" void vpproof__C17__valid_bds__int_real() { valid<BDSEphemeris>(TimeSystem::BDT); }
extern "C" void vpproof__C17__health__bv_ieee()
{
   int h = (int)vp_i64("health", 0, 511);
   GPSEphemeris g;
   g.dataLoadedFlag = true;
   g.health = h;
   vp_ensure(g.isHealthy() == (h == 0), "GPS: every health bit clear");
   BDSEphemeris b;
   b.dataLoadedFlag = true;
   b.health = h;
   vp_ensure(b.isHealthy() == (h == 0), "BeiDou: health zero");
   QZSEphemeris q;
   q.dataLoadedFlag = true;
   q.health = h;
   vp_ensure(q.isHealthy() == ((h & 0x1e) == 0), "QZSS: every signal but LEX");
   for (int w = 1; w <= 5; w++)
      vp_ensure(q.isHealthy(w) == ((h & (1 << (w - 1))) == 0), "QZSS: the bit of the signal");
}
