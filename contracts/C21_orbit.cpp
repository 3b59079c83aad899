// property: C21
// sources: core/lib/GNSSEph/OrbitEph.cpp core/lib/GNSSEph/GPSEphemeris.cpp core/lib/GNSSEph/BDSEphemeris.cpp core/lib/GNSSEph/OrbElem.cpp core/lib/GNSSEph/OrbElemBase.cpp core/lib/GNSSEph/OrbElemRinex.cpp core/lib/GNSSEph/BrcKeplerOrbit.cpp core/lib/GNSSEph/BrcClockCorrection.cpp core/lib/GNSSEph/AlmOrbit.cpp core/lib/GNSSEph/EngEphemeris.cpp core/lib/GNSSEph/EngNav.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/TimeHandling/MJD.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/GNSSCore/ObsID.cpp
// opt: timeout=60 feas_ms=100
// noinline: _ZNK5gpstk10CommonTimemiERKS0_$
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Broadcast orbits and clocks: satellite clock, position and velocity at a time
#include "vp.h"
#include "spec_time.h"
#include <cmath>
#include "GPSEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "OrbElemRinex.hpp"
#include "BrcKeplerOrbit.hpp"
#include "BrcClockCorrection.hpp"
#include "AlmOrbit.hpp"
#include "EngEphemeris.hpp"
#include "GPSWeekSecond.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk;
static const int64_t GPSDAY = 44244 + 2400001;
static CommonTime at(int64_t s, TimeSystem sys)
{
   CommonTime t;
   t.m_day = GPSDAY + s / 86400;
   t.m_msod = (s % 86400) * 1000;
   t.m_fsod = 0;
   t.m_timeSystem = sys;
   return t;
}
// the difference of two times is a function of the times (its contract is proved by C03)
#ifdef VP_PROOF
static double key(const CommonTime *t) { return vp_uf2("key", (double)t->m_day, (double)t->m_msod); }
extern "C" double vpstub___ZNK5gpstk10CommonTimemiERKS0_(const CommonTime *a, const CommonTime *b) { return vp_uf2("elapsed", key(a), key(b)); }
#endif
static bool close(double a, double b, double tol) { double e = a - b; return e <= tol && e >= -tol; }
// satellite clock: bias = af0 + af1 dt + af2 dt^2 about Toc, drift its rate
struct Clock { int64_t toc, t; double dt, a0, a1, a2; };
static Clock any_clock()
{
   Clock c;
   c.toc = vp_i64("toc", 0, 2000000000);
   int64_t dt = vp_i64("dt", -1000000, 1000000);
   vp_assume(c.toc + dt >= 0);
   c.t = c.toc + dt;
   c.dt = at(c.t, TimeSystem::GPS) - at(c.toc, TimeSystem::GPS);
   vp_assume(c.dt == (double)dt);
   c.a0 = vp_f64("af0", -1e-2, 1e-2);
   c.a1 = vp_f64("af1", -1e-8, 1e-8);
   c.a2 = vp_f64("af2", -1e-14, 1e-14);
   return c;
}
static void clock_is(const Clock &c, double bias, double drift)
{
   vp_ensure(close(bias, c.a0 + c.a1 * c.dt + c.a2 * c.dt * c.dt, 1e-12), "clock bias: polynomial about Toc");
   vp_ensure(close(drift, c.a1 + 2 * c.a2 * c.dt, 1e-16), "clock drift: rate of the bias");
}
extern "C" void vpproof__C21__clock_orbiteph__int_real()
{
   Clock c = any_clock();
   GPSEphemeris e;
   e.dataLoadedFlag = true;
   e.ctToc = at(c.toc, TimeSystem::GPS);
   e.af0 = c.a0; e.af1 = c.a1; e.af2 = c.a2;
   CommonTime t = at(c.t, TimeSystem::GPS);
   clock_is(c, e.svClockBias(t), e.svClockDrift(t));
}
extern "C" void vpproof__C21__clock_brc__int_real()
{
   Clock c = any_clock();
   BrcClockCorrection e;
   e.dataLoaded = true;
   e.Toc = at(c.toc, TimeSystem::GPS);
   e.af0 = c.a0; e.af1 = c.a1; e.af2 = c.a2;
   CommonTime t = at(c.t, TimeSystem::GPS);
   clock_is(c, e.svClockBias(t), e.svClockDrift(t));
   vp_ensure(close(e.svClockBiasM(t), (c.a0 + c.a1 * c.dt + c.a2 * c.dt * c.dt) * 299792458.0, 1e-3), "clock bias in metres");
}
extern "C" void vpproof__C21__clock_orbelem__int_real()
{
   Clock c = any_clock();
   OrbElemRinex e;
   e.dataLoadedFlag = true;
   e.ctToc = at(c.toc, TimeSystem::GPS);
   e.af0 = c.a0; e.af1 = c.a1; e.af2 = c.a2;
   CommonTime t = at(c.t, TimeSystem::GPS);
   clock_is(c, e.svClockBias(t), e.svClockDrift(t));
   vp_ensure(close(e.svClockBiasM(t), (c.a0 + c.a1 * c.dt + c.a2 * c.dt * c.dt) * 299792458.0, 1e-3), "clock bias in metres");
}
// nothing is computed from an object without data
template <class E> static void refuses(const E &e, const CommonTime &t)
{
   int n = 0;
   try { e.svXvt(t); } catch (InvalidRequest &) { n++; }
   try { e.svClockBias(t); } catch (InvalidRequest &) { n++; }
   try { e.svClockDrift(t); } catch (InvalidRequest &) { n++; }
   try { e.svRelativity(t); } catch (InvalidRequest &) { n++; }
   vp_ensure(n == 4, "no data, no result");
}
extern "C" void vpproof__C21__no_data__int_real()
{
   CommonTime t = at(vp_i64("t", 0, 2000000000), TimeSystem::GPS);
   GPSEphemeris g; refuses(g, t);
   BDSEphemeris b; refuses(b, t);
   OrbElemRinex o; refuses(o, t);
}
// Keplerian elements with second harmonic perturbations (IS-GPS-200 tables 20-IV and 30-II)
struct Elem { double M0, dn, ecc, A, sqrtA, W0, i0, w, Wd, id, cuc, cus, crc, crs, cic, cis, Ad, nd; int64_t toe, t; double dt; };
// the semi-major axis itself is given where the data hold it, its root where the message does
static Elem any_elem(bool pert = true, bool root = false)
{
   Elem e;
   e.M0 = vp_f64("M0", -3.2, 3.2); e.dn = vp_f64("dn", -1e-8, 1e-8); e.ecc = vp_f64("ecc", 0, 0.1);
   if (root) { e.sqrtA = vp_f64("sqrtA", 2530, 8192); e.A = e.sqrtA * e.sqrtA; }
   else { e.A = vp_f64("A", 6.4e6, 6.7e7); e.sqrtA = sqrt(e.A); }
   e.W0 = vp_f64("OMEGA0", -3.2, 3.2); e.i0 = vp_f64("i0", 0, 2); e.w = vp_f64("w", -3.2, 3.2);
   e.Wd = vp_f64("OMEGAdot", -1e-7, 1e-7); e.id = vp_f64("idot", -1e-8, 1e-8);
   e.cuc = vp_f64("Cuc", -1e-4, 1e-4); e.cus = vp_f64("Cus", -1e-4, 1e-4);
   e.crc = vp_f64("Crc", -1000, 1000); e.crs = vp_f64("Crs", -1000, 1000);
   e.cic = vp_f64("Cic", -1e-4, 1e-4); e.cis = vp_f64("Cis", -1e-4, 1e-4);
   e.Ad = vp_f64("Adot", -1, 1); e.nd = vp_f64("dndot", -1e-13, 1e-13);
   if (!pert) e.Ad = e.nd = 0;
   if (!pert) e.cuc = e.cus = e.crc = e.crs = e.cic = e.cis = e.id = e.dn = 0;
   e.toe = vp_i64("toe", 0, 2000000000);
   int64_t dt = vp_i64("dt", -100000, 100000);
   vp_assume(e.toe + dt >= 0);
   e.t = e.toe + dt;
   e.dt = at(e.t, TimeSystem::GPS) - at(e.toe, TimeSystem::GPS);
   return e;
}
struct PV { double x, y, z, vx, vy, vz, rel, r; };
static double kepler(double M, double e)
{
   M = fmod(M, 2 * PI);
   double E = M + e * sin(M), d;
   int n = 0;
   do { d = (M - (E - e * sin(E))) / (1 - e * cos(E)); E += d; n++; } while (fabs(d) > 1e-11 && n < 20);
   return E;
}
static PV orbit(const Elem &e, double gm, double we, double toes)
{
   PV p;
   double n = sqrt(gm) / (e.A * e.sqrtA) + e.dn + 0.5 * e.nd * e.dt;
   double A = e.A + e.Ad * e.dt;
   double E = kepler(e.M0 + e.dt * n, e.ecc), q = sqrt(1 - e.ecc * e.ecc);
   double G = 1 - e.ecc * cos(E);
   double phi = atan2(q * sin(E), cos(E) - e.ecc) + e.w;
   double s = sin(2 * phi), c = cos(2 * phi);
   double u = phi + (c * e.cuc + s * e.cus), r = A * G + (c * e.crc + s * e.crs), i = e.i0 + e.id * e.dt + (c * e.cic + s * e.cis);
   double W = e.W0 + (e.Wd - we) * e.dt - we * toes;
   double xp = r * cos(u), yp = r * sin(u);
   p.x = xp * cos(W) - yp * cos(i) * sin(W);
   p.y = xp * sin(W) + yp * cos(i) * cos(W);
   p.z = yp * sin(i);
   double Ed = n / G, pd = n * q / (G * G);
   double ud = pd + 2 * pd * (e.cus * c - e.cuc * s), id = e.id + 2 * pd * (e.cis * c - e.cic * s), rd = A * e.ecc * Ed * sin(E) + 2 * pd * (e.crs * c - e.crc * s) + e.Ad * G, Wd = e.Wd - we;
   double xd = rd * cos(u) - r * sin(u) * ud, yd = rd * sin(u) + r * cos(u) * ud;
   p.vx = xd * cos(W) - xp * sin(W) * Wd - yd * cos(i) * sin(W) + yp * (sin(i) * sin(W) * id - cos(i) * cos(W) * Wd);
   p.vy = xd * sin(W) + xp * cos(W) * Wd + yd * cos(i) * cos(W) - yp * (sin(i) * cos(W) * id + cos(i) * sin(W) * Wd);
   p.vz = yd * sin(i) + yp * cos(i) * id;
   p.rel = -4.442807633e-10 * e.ecc * sqrt(A) * sin(E);
   p.r = r;
   return p;
}
static const double GM_GPS = 3.986005e14, WE_GPS = 7.2921151467e-5, GM_BDS = 3.986004418e14, WE_BDS = 7.2921150e-5;
static void same(const Xvt &v, const PV &p, bool vel = true)
{
   vp_ensure(vp_eqt(v.x[0], p.x, p.r * 10) && vp_eqt(v.x[1], p.y, p.r * 10) && vp_eqt(v.x[2], p.z, p.r * 10), "position");
   if (vel) vp_ensure(vp_eqt(v.v[0], p.vx, p.r * 1e-3) && vp_eqt(v.v[1], p.vy, p.r * 1e-3) && vp_eqt(v.v[2], p.vz, p.r * 1e-3), "velocity");
}
extern "C" void vpproof__C21__alm_xvt__int_real()
{
   Elem e = any_elem(false, true);
   int64_t wk = vp_i64("week", 0, 3000);
   vp_assume(e.toe >= wk * 604800 && e.toe < (wk + 1) * 604800);
   double ioff = vp_f64("i_offset", -1, 1);
   AlmOrbit a(1, e.ecc, ioff, e.Wd, e.sqrtA, e.W0, e.w, e.M0, vp_f64("af0", -1e-2, 1e-2), vp_f64("af1", -1e-8, 1e-8), e.toe - wk * 604800, 0, wk, vp_i64("health", 0, 255));
   e.i0 = ioff + 0.3 * PI;
   e.dt = at(e.t, TimeSystem::GPS) - a.getToaTime();
   Xvt v = a.svXvt(at(e.t, TimeSystem::GPS));
   same(v, orbit(e, GM_GPS, WE_GPS, (double)(e.toe - wk * 604800)));
   vp_ensure(vp_eqt(v.clkbias, a.AF0 + e.dt * a.AF1, 1), "clock bias");
   vp_ensure(v.health == (a.SV_health == 0 ? Xvt::Healthy : Xvt::Unhealthy), "health");
}
extern "C" void vpproof__C21__alm_times__int_real()
{
   AlmOrbit a;
   a.week = (short)vp_i64("week", 1, 4000);
   a.Toa = vp_i64("toa", 0, 604799);
   a.xmit_time = vp_i64("xmit", 0, 604799);
   int64_t d = a.Toa - a.xmit_time;
   int64_t w = d < -302400 ? a.week - 1 : d > 302400 ? a.week + 1 : a.week;
   vp_ensure(a.getFullWeek() == w, "week of transmission");
   GPSWeekSecond toa(a.getToaTime()), x(a.getTransmitTime());
   vp_ensure(toa.week == a.week && close(toa.sow, a.Toa, 1e-6), "Toa");
   vp_ensure(x.week == w && close(x.sow, a.xmit_time, 1e-6), "time of transmission");
}
template <class T> static void fill(T &o, const Elem &e)
{
   o.M0 = e.M0; o.dn = e.dn; o.ecc = e.ecc; o.A = e.A; o.OMEGA0 = e.W0; o.i0 = e.i0; o.w = e.w; o.OMEGAdot = e.Wd; o.idot = e.id;
   o.Cuc = e.cuc; o.Cus = e.cus; o.Crc = e.crc; o.Crs = e.crs; o.Cic = e.cic; o.Cis = e.cis;
   o.dndot = e.nd; o.Adot = e.Ad;
}
template <class T> static void eph(T &o, const Elem &e, TimeSystem sys)
{
   fill(o, e);
   o.dataLoadedFlag = true;
   o.ctToe = at(e.toe, sys);
   o.ctToc = o.ctToe;
   o.af0 = vp_f64("af0", -1e-2, 1e-2); o.af1 = vp_f64("af1", -1e-8, 1e-8); o.af2 = vp_f64("af2", -1e-14, 1e-14);
}
static void clock(const Xvt &v, double a0, double a1, double a2, double dt)
{
   vp_ensure(vp_eqt(v.clkbias, a0 + dt * (a1 + dt * a2), 1e-2), "clock bias");
   vp_ensure(vp_eqt(v.clkdrift, a1 + 2 * dt * a2, 1e-8), "clock drift");
}
static void rel(double got, const Elem &e, const PV &p) { vp_ensure(vp_eqt(got, p.rel, 1e-6), "relativity correction"); }
extern "C" void vpproof__C21__gps_xvt__int_real()
{
   Elem e = any_elem();
   e.nd = 0;   // the rate of the mean motion difference enters the position only
   GPSEphemeris o;
   eph(o, e, TimeSystem::GPS);
   CommonTime t = at(e.t, TimeSystem::GPS);
   Xvt v = o.OrbitEph::svXvt(t);
   PV p = orbit(e, GM_GPS, WE_GPS, GPSWeekSecond(o.ctToe).sow);
   same(v, p);
   rel(v.relcorr, e, p);
   clock(v, o.af0, o.af1, o.af2, e.dt);
}
extern "C" void vpproof__C21__gps_dndot__int_real()
{
   Elem e = any_elem();
   GPSEphemeris o;
   eph(o, e, TimeSystem::GPS);
   same(o.OrbitEph::svXvt(at(e.t, TimeSystem::GPS)), orbit(e, GM_GPS, WE_GPS, GPSWeekSecond(o.ctToe).sow), false);
}
template <bool bds> static void orbelem()
{
   Elem e = any_elem();
   e.nd = 0;
   OrbElemRinex o;
   eph(o, e, TimeSystem::GPS);
   bool h = vp_bool("healthy");
   o.healthy = h;
   o.satID = SatID(5, bds ? SatelliteSystem::BeiDou : SatelliteSystem::GPS);
   CommonTime t = at(e.t, TimeSystem::GPS);
   Xvt v = o.svXvt(t);
   PV p = orbit(e, bds ? GM_BDS : GM_GPS, bds ? WE_BDS : WE_GPS, GPSWeekSecond(o.ctToe).sow);
   same(v, p);
   rel(v.relcorr, e, p);
   clock(v, o.af0, o.af1, o.af2, e.dt);
   vp_ensure(v.health == (h ? Xvt::Healthy : Xvt::Unhealthy), "health");
}
extern "C" void vpproof__C21__orbelem_xvt__int_real() { orbelem<false>(); }
extern "C" void vpproof__C21__orbelem_bds__int_real() { orbelem<true>(); }
extern "C" void vpproof__C21__brc_xvt__int_real()
{
   Elem e = any_elem(true, true);
   e.nd = e.Ad = 0;
   BrcKeplerOrbit o;
   fill(o, e);
   o.Ahalf = e.sqrtA;
   bool h = vp_bool("healthy");
   o.healthy = h;
   o.dataLoaded = true;
   o.Toe = at(e.toe, TimeSystem::GPS);
   CommonTime t = at(e.t, TimeSystem::GPS);
   Xvt v = o.svXvt(t);
   PV p = orbit(e, GM_GPS, WE_GPS, GPSWeekSecond(o.Toe).sow);
   same(v, p);
   rel(v.relcorr, e, p);
   vp_ensure(v.health == (h ? Xvt::Healthy : Xvt::Unhealthy), "health");
}
extern "C" void vpproof__C21__bds_xvt__int_real()
{
   Elem e = any_elem();
   e.nd = e.Ad = 0;
   BDSEphemeris o;
   eph(o, e, TimeSystem::BDT);
   bool geo = vp_bool("GEO");
   vp_assume(geo ? e.i0 < 0.12 : e.i0 > 0.125);
   o.satID = SatID(5, SatelliteSystem::BeiDou);
   CommonTime t = at(e.t, TimeSystem::BDT);
   Xvt v = o.svXvt(t);
   double toes = GPSWeekSecond(o.ctToe).sow;
   if (!geo) { same(v, orbit(e, GM_GPS, WE_GPS, toes)); return; }
   // BDS-SIS-ICD: orbit in a frame that does not turn with the Earth, then Rz(we dt) Rx(-5 deg)
   e.W0 = e.W0 - WE_BDS * toes;
   PV p = orbit(e, GM_BDS, 0, 0);
   double a = -5.0 * PI / 180, ca = cos(a), sa = sin(a), z = WE_BDS * e.dt, cz = cos(z), sz = sin(z);
   double y1 = ca * p.y + sa * p.z, z1 = -sa * p.y + ca * p.z, vy1 = ca * p.vy + sa * p.vz, vz1 = -sa * p.vy + ca * p.vz;
   PV r;
   r.x = cz * p.x + sz * y1;
   r.y = -sz * p.x + cz * y1;
   r.z = z1;
   r.vx = cz * p.vx + sz * vy1 + WE_BDS * r.y;
   r.vy = -sz * p.vx + cz * vy1 - WE_BDS * r.x;
   r.vz = vz1;
   r.r = p.r;
   same(v, r);
   rel(v.relcorr, e, p);
   clock(v, o.af0, o.af1, o.af2, e.dt);
   vp_ensure(v.health == (o.health == 0 ? Xvt::Healthy : Xvt::Unhealthy), "health");
}
extern "C" void vpproof__C21__eng_xvt__int_real()
{
   Elem e = any_elem(false, true);
   EngEphemeris o;
   fill(o.orbit, e);
   o.orbit.Ahalf = e.sqrtA;
   o.orbit.dataLoaded = o.bcClock.dataLoaded = true;
   o.orbit.Toe = o.bcClock.Toc = at(e.toe, TimeSystem::GPS);
   o.bcClock.af0 = vp_f64("af0", -1e-2, 1e-2); o.bcClock.af1 = vp_f64("af1", -1e-8, 1e-8); o.bcClock.af2 = vp_f64("af2", -1e-14, 1e-14);
   CommonTime t = at(e.t, TimeSystem::GPS);
   Xvt v = o.svXvt(t);
   PV p = orbit(e, GM_GPS, WE_GPS, GPSWeekSecond(o.orbit.Toe).sow);
   same(v, p);
   rel(v.relcorr, e, p);
   clock(v, o.bcClock.af0, o.bcClock.af1, o.bcClock.af2, e.dt);
   vp_ensure(o.svClockBias(t) == v.clkbias && o.svClockDrift(t) == v.clkdrift && o.svRelativity(t) == v.relcorr, "the same bias, drift and correction");
}
