// property: C21
// sources: core/lib/GNSSEph/GloEphemeris.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60 feas_ms=100
// noinline: _ZNK5gpstk12GloEphemeris16svXvtOverrideFit _ZN5gpstk7YDSTime21convertFromCommonTimeE
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// GLONASS broadcast orbits: when they are used, clock, force model, sidereal time
#include "vp.h"
#include "spec_time.h"
#include <cmath>
#include "GloEphemeris.hpp"
#include "YDSTime.hpp"
#include "PZ90Ellipsoid.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk;
static CommonTime at(int64_t s)
{
   CommonTime t;
   t.m_day = 2444245 + s / 86400;
   t.m_msod = (s % 86400) * 1000;
   t.m_fsod = 0;
   t.m_timeSystem = TimeSystem::GLO;
   return t;
}
#ifdef VP_PROOF
// the calendar date of a time is C09's; here: any date
static int g_year, g_doy;
extern "C" void vpstub___ZN5gpstk7YDSTime21convertFromCommonTimeERKNS_10CommonTimeE(YDSTime *y, const CommonTime *) { y->year = g_year; y->doy = g_doy; y->sod = 0; }
extern "C" Xvt vpstub___ZNK5gpstk12GloEphemeris16svXvtOverrideFitERKNS_10CommonTimeE(const GloEphemeris *, const CommonTime *)
{
   Xvt v;
   v.clkbias = vp_uf1("integrated", 1);
   return v;
}
#endif
static void data(GloEphemeris &g)
{
   for (int i = 0; i < 3; i++) { g.x[i] = vp_f64("x", -30000, 30000); g.v[i] = vp_f64("v", -5, 5); g.a[i] = vp_f64("a", -1e-5, 1e-5); }
   g.clkbias = vp_f64("tau", -1e-3, 1e-3);
   g.clkdrift = vp_f64("gamma", -1e-9, 1e-9);
   g.valid = true;
}
extern "C" void vpproof__C21__glo_limits__int_real()
{
   GloEphemeris g;
   int64_t t0 = vp_i64("epoch", 1000, 2000000000), dt = vp_i64("dt", -1000, 1000);
   g.valid = true;
   g.ephTime = at(t0);
#ifndef VP_PROOF
   data(g); g.x[0] = 25500; g.step = 60;
#endif
   bool thrown = false;
   try { g.svXvt(at(t0 + dt)); } catch (InvalidRequest &) { thrown = true; }
   vp_ensure(thrown == (dt < -900 || dt >= 900), "used within fifteen minutes of the epoch");
}
extern "C" void vpproof__C21__glo_clock__int_real()
{
   GloEphemeris g;
   data(g);
   int64_t t0 = vp_i64("epoch", 1000, 2000000000), dt = vp_i64("dt", -1000, 1000);
   g.ephTime = at(t0);
   double dot = (g.x[0] * g.v[0] + g.x[1] * g.v[1] + g.x[2] * g.v[2]) * 1e6;
   double rel = -2 * dot / (299792458.0 * 299792458.0);
   double b = g.svClockBias(at(t0 + dt)), want = g.clkbias + g.clkdrift * (double)dt - rel;
   vp_ensure(b - want < 1e-15 && want - b < 1e-15, "clock bias: from the epoch, without the relativity correction it includes");
   vp_ensure(g.svClockDrift(at(t0 + dt)) == g.clkdrift, "clock drift");
   vp_ensure(g.getTauN() == g.clkbias && g.getGammaN() == g.clkdrift, "as broadcast");
}
extern "C" void vpproof__C21__glo_no_data__int_real()
{
   GloEphemeris g;
   CommonTime t = at(vp_i64("t", 0, 2000000000));
   int n = 0;
   try { g.svClockBias(t); } catch (InvalidRequest &) { n++; }
   try { g.svClockDrift(t); } catch (InvalidRequest &) { n++; }
   try { g.getEphemerisEpoch(); } catch (InvalidRequest &) { n++; }
   try { g.getPRNID(); } catch (InvalidRequest &) { n++; }
   vp_ensure(n == 4, "no data, no result");
}
// mean sidereal time of Greenwich at 0h (Aoki et al. 1982), hours
extern "C" void vpproof__C21__glo_sidereal__int_real()
{
   GloEphemeris g;
   int doy = (int)vp_i64("doy", 1, 366);
#ifdef VP_PROOF
   for (int y = 1901; y <= 2099; y++)
#else
   int y = (int)vp_i64("year", 1901, 2099);
#endif
   {
#ifdef VP_PROOF
      g_year = y;
      g_doy = doy;
      CommonTime t;
#else
      if (doy == 366 && y % 4) return;
      CommonTime t = YDSTime(y, doy, 0, TimeSystem::GLO).convertToCommonTime();
#endif
      double jd = 2451544.5 + 365 * (y - 2000) + ((y - 1) / 4 - 499) + doy - 1;
      double T = (jd - 2451545.0) / 36525.0;
      double s = fmod((24110.54841 + T * (8640184.812866 + T * (0.093104 - T * 0.0000062))) / 3600, 24.0);
      if (s < 0) s += 24;
      double r = g.getSidTime(t);
      vp_ensure(vp_eqt(r, s, 24) , "sidereal time at Greenwich");
      vp_ensure(r >= 0 && r < 24, "within a day");
   }
}
// ICD GLONASS: two-body and second zonal harmonic of PZ-90, with the broadcast lunisolar acceleration
extern "C" void vpproof__C21__glo_forces__int_real()
{
   GloEphemeris g;
   Vector<double> s(6), a(3);
   for (int i = 0; i < 6; i++) s(i) = vp_f64("s", -30000, 30000);
   for (int i = 0; i < 3; i++) a(i) = vp_f64("a", -1e-5, 1e-5);
   double x = s(0), y = s(2), z = s(4), r2 = x * x + y * y + z * z, r = sqrt(r2);
   vp_assume(r2 > 1e6);
   Vector<double> d = g.derivative(s, a);
   double mu = 398600.4418 / r2, p = PZ90Ellipsoid().a_km() / r, c20 = -1.08262575e-3, k = c20 * mu * 1.5 * p * p, w = (z / r) * (z / r);
   vp_ensure(d.size() == 6 && d(0) == s(1) && d(2) == s(3) && d(4) == s(5), "the rate of the position is the velocity");
   vp_ensure(vp_eqt(d(1), (k * (1 - 5 * w) - mu) * (x / r) + a(0), 1e-3), "acceleration along x");
   vp_ensure(vp_eqt(d(3), (k * (1 - 5 * w) - mu) * (y / r) + a(1), 1e-3), "acceleration along y");
   vp_ensure(vp_eqt(d(5), (k * (3 - 5 * w) - mu) * (z / r) + a(2), 1e-3), "acceleration along z");
}
extern "C" void vpproof__C21__relativity__int_real()
{
   Xvt v;
   double dot = 0;
   for (int i = 0; i < 3; i++) { v.x[i] = vp_f64("x", -5e7, 5e7); v.v[i] = vp_f64("v", -1e4, 1e4); dot += v.x[i] * v.v[i]; }
   double r = v.computeRelativityCorrection();
   double e = r + 2 * dot / (299792458.0 * 299792458.0);
   vp_ensure(e < 1e-18 && e > -1e-18 && v.relcorr == r, "-2 r.v / c^2");
}
