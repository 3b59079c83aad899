// property: C21
// sources: core/lib/GNSSEph/GloEphemeris.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60 feas_ms=100
// noinline: _ZNK5gpstk12GloEphemeris10derivativeE
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// GLONASS broadcast orbits: integration from the epoch, for a given epoch and interval and any data
#include "vp.h"
#include "spec_time.h"
#include <cmath>
#include "GloEphemeris.hpp"
#include "YDSTime.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk;
static CommonTime at(int64_t s)
{
   CommonTime t;
   t.m_day = 2444245 + s / 86400;
   t.m_msod = (s % 86400) * 1000;
   t.m_fsod = 0;
   t.m_timeSystem = TimeSystem::GLO;
   return t;
}
// the force model, contract proved by vpproof__C21__glo_forces
static void forces(const double *s, const double *a, double *d)
{
#ifdef VP_PROOF
   double k = 1;
   for (int i = 0; i < 6; i++) k = vp_uf2("state", k, s[i]);
   for (int i = 0; i < 3; i++) k = vp_uf2("state", k, a[i]);
   d[1] = vp_uf1("ax", k); d[3] = vp_uf1("ay", k); d[5] = vp_uf1("az", k);
#else
   double x = s[0], y = s[2], z = s[4], r2 = x * x + y * y + z * z, r = sqrt(r2);
   double mu = 398600.4418 / r2, p = 6378.136 / r, c20 = -1.08262575e-3, k = 1.5 * c20 * mu * p * p, w = (z / r) * (z / r);
   d[1] = (k * (1 - 5 * w) - mu) * (x / r) + a[0];
   d[3] = (k * (1 - 5 * w) - mu) * (y / r) + a[1];
   d[5] = (k * (3 - 5 * w) - mu) * (z / r) + a[2];
#endif
   d[0] = s[1]; d[2] = s[3]; d[4] = s[5];
}
#ifdef VP_PROOF
extern "C" Vector<double> vpstub___ZNK5gpstk12GloEphemeris10derivativeERKNS_6VectorIdEES4_(const GloEphemeris *, const Vector<double> &s, const Vector<double> &a)
{
   double ss[6], aa[3], d[6];
   for (int i = 0; i < 6; i++) ss[i] = s(i);
   for (int i = 0; i < 3; i++) aa[i] = a(i);
   forces(ss, aa, d);
   Vector<double> r(6);
   for (int i = 0; i < 6; i++) r(i) = d[i];
   return r;
}
#endif
static const double WE = 7.292115e-5;
static void run(int64_t t0, double step, int64_t dt)
{
   GloEphemeris g;
   double x[3], v[3], a[3];
   for (int i = 0; i < 3; i++) { g.x[i] = x[i] = vp_f64("x", 5000, 30000); g.v[i] = v[i] = vp_f64("v", -5, 5); g.a[i] = a[i] = vp_f64("a", -1e-5, 1e-5); }
   g.clkbias = vp_f64("tau", -1e-3, 1e-3);
   g.clkdrift = vp_f64("gamma", -1e-9, 1e-9);
   g.valid = true;
   g.step = step;
   g.ephTime = at(t0);
   Xvt r = g.svXvtOverrideFit(at(t0 + dt));
   double X[3], V[3];
   if (dt == 0) { for (int i = 0; i < 3; i++) { X[i] = x[i] * 1e3; V[i] = v[i] * 1e3; } }
   else
   {
      // inertial frame of the epoch's Greenwich sidereal time
      double sod = (double)(t0 % 86400), s0 = g.getSidTime(at(t0)) * PI / 12.0;
      double th = s0 + WE * sod, c = cos(th), s = sin(th);
      double st[6];
      st[0] = x[0] * c - x[1] * s; st[2] = x[0] * s + x[1] * c; st[4] = x[2];
      st[1] = v[0] * c - v[1] * s - WE * st[2]; st[3] = v[0] * s + v[1] * c + WE * st[0]; st[5] = v[2];
      // steps of the given length towards t, the last one as long as what is left
      CommonTime work = at(t0), t = at(t0 + dt);
      bool done = false;
      while (!done)
      {
         double h = dt > 0 ? step : -step;
         if (dt > 0 ? work + h > t : work + h < t) h = t - work;
         work += h;
         done = std::fabs(t - work) < 1e-9;
         sod += h;
         th = s0 + WE * sod; c = cos(th); s = sin(th);
         double ac[3] = { a[0] * c - a[1] * s, a[0] * s + a[1] * c, a[2] }, k1[6], k2[6], k3[6], k4[6], q[6];
         forces(st, ac, k1);
         for (int i = 0; i < 6; i++) q[i] = st[i] + h * k1[i] / 2;
         forces(q, ac, k2);
         for (int i = 0; i < 6; i++) q[i] = st[i] + h * k2[i] / 2;
         forces(q, ac, k3);
         for (int i = 0; i < 6; i++) q[i] = st[i] + h * k3[i];
         forces(q, ac, k4);
         for (int i = 0; i < 6; i++) st[i] = st[i] + h * (k1[i] + 2 * (k2[i] + k3[i]) + k4[i]) / 6;
      }
      X[0] = 1000 * (st[0] * c + st[2] * s); X[1] = 1000 * (-st[0] * s + st[2] * c); X[2] = 1000 * st[4];
      V[0] = 1000 * (st[1] * c + st[3] * s + WE * (X[1] / 1000)); V[1] = 1000 * (-st[1] * s + st[3] * c - WE * (X[0] / 1000)); V[2] = 1000 * st[5];
   }
   for (int i = 0; i < 3; i++)
   {
      vp_ensure(vp_eqt(r.x[i], X[i], 3e7), "position");
      vp_ensure(vp_eqt(r.v[i], V[i], 5e3), "velocity");
   }
   double rel = -2.0 * ((X[0] / C_MPS) * (V[0] / C_MPS) + (X[1] / C_MPS) * (V[1] / C_MPS) + (X[2] / C_MPS) * (V[2] / C_MPS));
   vp_ensure(vp_eqt(r.relcorr, rel, 1e-6), "relativity correction");
   vp_ensure(vp_eqt(r.clkbias, g.clkbias + g.clkdrift * (at(t0 + dt) - at(t0)) - rel, 1e-3) && r.clkdrift == g.clkdrift, "clock");
   vp_ensure(r.frame == ReferenceFrame::PZ90, "frame");
}
extern "C" void vpproof__C21__rk_epoch__int_real() { run(1000000000, 60, 0); }
extern "C" void vpproof__C21__rk_forward__int_real() { run(1000000000, 60, 60); }
extern "C" void vpproof__C21__rk_part__int_real() { run(1000000000, 60, 75); }
extern "C" void vpproof__C21__rk_back__int_real() { run(1000000000, 60, -75); }
extern "C" void vpproof__C21__rk_midnight__int_real() { run(86400 * 9000 + 86390, 30, 100); }
extern "C" void vpproof__C21__rk_limit__int_real() { run(1000000000, 60, 890); }
extern "C" void vpproof__C21__rk_second__int_real() { run(1000000000, 1, -20); }
