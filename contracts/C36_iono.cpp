// property: C36
// sources: core/lib/GNSSCore/IonoModel.cpp core/lib/GNSSEph/EngAlmanac.cpp core/lib/GNSSEph/EngNav.cpp core/lib/GNSSCore/Position.cpp core/lib/Math/Triple.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60 feas_ms=100 nomerge=1
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Broadcast (Klobuchar) ionospheric delay, IS-GPS-200 20.3.3.5.2.5
#include "vp.h"
#include <cmath>
#include <map>
#include <string>
#include <sstream>
#include <list>
#include <vector>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <limits>
#include <complex>
#define private public
#define protected public
#include "IonoModel.hpp"
#undef private
#undef protected
#include "YDSTime.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk;
static const double PI_ = 3.1415926535898;   // of the interface specification
static const char *AN[] = {"alpha0", "alpha1", "alpha2", "alpha3"};
static const char *BN[] = {"beta0", "beta1", "beta2", "beta3"};
static void arb_terms(double *a, double *b)
{
   for (int i = 0; i < 4; i++)
   {
      a[i] = vp_f64(AN[i], -1e-3, 1e-3);
      b[i] = vp_f64(BN[i], -1e7, 1e7);
   }
}
// vertical angles in semi-circles; delay in seconds on L1
static double delay(const double *al, const double *be, double E, double A, double lat, double lon, double sod)
{
   double psi = 0.0137 / (E + 0.11) - 0.022;
   double phi = lat + psi * std::cos(A);
   phi = phi > 0.416 ? 0.416 : phi < -0.416 ? -0.416 : phi;
   double lambda = lon + psi * std::sin(A) / std::cos(phi * PI);
   double m = phi + 0.064 * std::cos((lambda - 1.617) * PI);
   double amp = al[0] + m * (al[1] + m * (al[2] + m * al[3]));
   double per = be[0] + m * (be[1] + m * (be[2] + m * be[3]));
   amp = amp < 0 ? 0 : amp;
   per = per < 72000 ? 72000 : per;
   double t = 43200.0 * lambda + sod;
   t = t - 86400.0 * std::floor(t / 86400.0);
   double x = TWO_PI * (t - 50400.0) / per;
   double F = 1.0 + 16.0 * (0.53 - E) * (0.53 - E) * (0.53 - E);
   return std::fabs(x) < 1.57 ? F * (5.0e-9 + amp * (1 + x * x * (-0.5 + x * x / 24.0))) : F * 5.0e-9;
}
static CommonTime arb_time()
{
   CommonTime t;
   t.set((long)vp_i64("day", 2400000, 2500000), (long)vp_i64("second", 0, 86399), vp_f64("fraction", 0, 0.999), TimeSystem::GPS);
   return t;
}
static bool refused(const IonoModel &m, const CommonTime &t, const Position &p, double E, double A, CarrierBand b)
{
   try { m.getCorrection(t, p, E, A, b); }
   catch (IonoModel::InvalidIonoModel &) { return true; }
   return false;
}
static void correct(CarrierBand band, double factor)
{
   double a[4], b[4];
   arb_terms(a, b);
   IonoModel m(a, b);
   CommonTime t = arb_time();
   double lat = vp_f64("lat", -90, 90), lon = vp_f64("lon", 0, 359.999999), E = vp_f64("elevation", 0, 90), A = vp_f64("azimuth", 0, 360);
   Position p(lat, lon, 100, Position::Geodetic);
   double got = m.getCorrection(t, p, E, A, band);
   double want = delay(a, b, E / 180.0, A * DEG_TO_RAD, lat / 180.0, lon / 180.0, YDSTime(t).sod);
   vp_ensure(vp_eqt(got, want * factor * C_MPS, 10), "the delay of the interface specification, in meters");
}
extern "C" void vpproof__C36__delay_L1__int_real() { correct(CarrierBand::L1, 1); }
extern "C" void vpproof__C36__delay_L2__int_real() { correct(CarrierBand::L2, (154.0 / 120.0) * (154.0 / 120.0)); }
extern "C" void vpproof__C36__delay_L5__int_real() { correct(CarrierBand::L5, (154.0 / 115.0) * (154.0 / 115.0)); }
extern "C" void vpproof__C36__refused__int_real()
{
   double a[4], b[4];
   arb_terms(a, b);
   IonoModel m(a, b), none;
   CommonTime t = arb_time();
   Position p(40, 250, 100, Position::Geodetic);
   double E = vp_f64("elevation", 0, 90), A = vp_f64("azimuth", 0, 360);
   int band = (int)vp_i64("band", 0, (int)CarrierBand::Last);
   vp_assume(band != (int)CarrierBand::L1 && band != (int)CarrierBand::L2 && band != (int)CarrierBand::L5);
   vp_ensure(refused(m, t, p, E, A, (CarrierBand)band), "no delay for any other band");
   vp_ensure(!none.isValid() && refused(none, t, p, E, A, CarrierBand::L1), "no delay from a model without parameters");
   vp_ensure(m.isValid(), "valid once set");
}
extern "C" void vpproof__C36__units__int_real()
{
   double a[4], b[4];
   arb_terms(a, b);
   IonoModel m(a, b), r(a, b, false), s;
   s.setModel(a, b, false);
   static const double k[] = {1, PI, PI * PI, PI * PI * PI};
   bool same = true, scaled = true;
   for (int i = 0; i < 4; i++)
   {
      same = same && m.alpha[i] == a[i] && m.beta[i] == b[i];
      scaled = scaled && vp_eqt(r.alpha[i], a[i] * k[i], 0) && vp_eqt(r.beta[i], b[i] * k[i], 0) && s.alpha[i] == r.alpha[i] && s.beta[i] == r.beta[i];
   }
   vp_ensure(same, "parameters in semi-circles are kept");
   vp_ensure(scaled && r.isValid() && s.isValid(), "parameters in radians are converted");
   IonoModel c(m);
   vp_ensure(c == m && !(c != m), "a copy is equal");
   int j = (int)vp_i64("which", 0, 7);
   double d = vp_f64("other", -1e7, 1e7);
   (j < 4 ? c.alpha[j] : c.beta[j - 4]) = d;
   vp_ensure((c == m) == (d == (j < 4 ? a[j] : b[j - 4])) && (c != m) == !(c == m), "equal when all parameters are");
}
extern "C" void vpproof__C36__almanac__int_real()
{
   double a[4], b[4];
   arb_terms(a, b);
   EngAlmanac al;
   al.haveUTC = vp_bool("page present");
   for (int i = 0; i < 4; i++) { al.alpha[i] = a[i]; al.beta[i] = b[i]; }
   IonoModel m(al), r(a, b, false);
   vp_ensure(m.isValid() == al.haveUTC, "valid when the almanac has the page");
   // the almanac keeps the parameters in radians
   vp_ensure(!al.haveUTC || m == r, "the parameters of the almanac, in semi-circles");
}
