// property: C24
// sources: core/lib/GNSSCore/Position.cpp core/lib/Math/Triple.cpp
// opt: timeout=60 feas_ms=100
// noinline: _ZN5gpstk3RSSIdEET_S1_S1_S1_$ _ZN5gpstk8Position26convertCartesianToGeodetic _ZN5gpstk8Position27convertGeocentricToGeodetic
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Positions: choice of conversion, input checking, arithmetic, geometry seen from a position, ellipsoids
#include "vp.h"
#include <cmath>
#include "Position.hpp"
#include "MiscMath.hpp"
#include "GNSSconstants.hpp"
#include "WGS84Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "GalileoEllipsoid.hpp"
#include "CGCS2000Ellipsoid.hpp"
using namespace gpstk;
static const double D2R = 1.74532925199432957691e-2, R2D = 5.72957795130823208768e1;
#define TINY (Position::POSITION_TOLERANCE / 5)
static double deg(double x) { return x * RAD_TO_DEG; }
static double rad(double x) { return x * DEG_TO_RAD; }
static double rss(double a, double b, double c) { return std::sqrt(a * a + b * b + c * c); }
#ifdef VP_PROOF
// contract of RSS, proved by vpproof__C24__rss
extern "C" double vpstub___ZN5gpstk3RSSIdEET_S1_S1_S1_(double a, double b, double c) { return rss(a, b, c); }
// what the iterating conversions do is proved in C24_position.cpp; here they are functions of their arguments
static void opaque(const char *n0, const char *n1, const char *n2, const Triple &t, Triple &r, double A, double e2)
{
   double k = vp_uf2("k", vp_uf2("k", t[0], t[1]), vp_uf2("k", t[2], vp_uf2("k", A, e2)));
   r[0] = vp_uf1(n0, k); r[1] = vp_uf1(n1, k); r[2] = vp_uf1(n2, k);
}
extern "C" void vpstub___ZN5gpstk8Position26convertCartesianToGeodeticERKNS_6TripleERS1_dd(const Triple &t, Triple &r, double A, double e2) { opaque("g0", "g1", "g2", t, r, A, e2); }
extern "C" void vpstub___ZN5gpstk8Position27convertGeocentricToGeodeticERKNS_6TripleERS1_dd(const Triple &t, Triple &r, double A, double e2) { opaque("c0", "c1", "c2", t, r, A, e2); }
#endif
static bool is(const Triple &t, double x, double y, double z, double s = 1e8)
{
   return vp_eqt(t[0], x, s) && vp_eqt(t[1], y, s) && vp_eqt(t[2], z, s);
}
static Triple three(double a, double b, double c) { return Triple(a, b, c); }
// ------------------------------------------------ the right conversion for every pair of systems
static void to_xyz(int sys, const Triple &t, Triple &x, double A, double e2)
{
   if (sys == Position::Cartesian) x = t;
   if (sys == Position::Geodetic) Position::convertGeodeticToCartesian(t, x, A, e2);
   if (sys == Position::Geocentric) Position::convertGeocentricToCartesian(t, x);
   if (sys == Position::Spherical) Position::convertSphericalToCartesian(t, x);
}
static Position arb(int sys, const char *tag)
{
   Position p;
   double a = vp_f64("a", 0, 90), b = vp_f64("b", 0, 359), c = vp_f64("c", 6e6, 1e8);
   if (sys == Position::Cartesian)
   {
      double x = vp_f64("x", -1e8, 1e8), y = vp_f64("y", -1e8, 1e8), z = vp_f64("z", -1e8, 1e8);
      p.theArray[0] = x; p.theArray[1] = y; p.theArray[2] = z;
   }
   else { p.theArray[0] = a; p.theArray[1] = b; p.theArray[2] = c; }
   p.system = (Position::CoordinateSystem)sys;
   p.AEarth = vp_f64("A", 6e6, 7e6);
   p.eccSquared = vp_f64("e2", 0, 0.01);
   p.refFrame = ReferenceFrame::PZ90;
   p.tolerance = 0.5;
   return p;
}
template <int FROM, int TO> static void transform()
{
   Position p = arb(FROM, "p"), q(p);
   Triple t(p[0], p[1], p[2]), r;
   double A = p.AEarth, e2 = p.eccSquared;
   q.transformTo((Position::CoordinateSystem)TO);
   vp_ensure(q.system == TO && q.AEarth == A && q.eccSquared == e2 && q.refFrame == ReferenceFrame::PZ90 && q.tolerance == 0.5, "system changed; ellipsoid, frame and tolerance kept");
   if (FROM == TO) r = t;
   else if (TO == Position::Cartesian) to_xyz(FROM, t, r, A, e2);
   else if (FROM == Position::Cartesian)
   {
      if (TO == Position::Geodetic) Position::convertCartesianToGeodetic(t, r, A, e2);
      if (TO == Position::Geocentric) Position::convertCartesianToGeocentric(t, r);
      if (TO == Position::Spherical) Position::convertCartesianToSpherical(t, r);
   }
   else if (TO == Position::Geodetic)
   {
      if (FROM == Position::Spherical) t[0] = 90 - t[0];
      Position::convertGeocentricToGeodetic(t, r, A, e2);
   }
   else if (FROM == Position::Geodetic)
   {
      Position::convertGeodeticToGeocentric(t, r, A, e2);
      if (TO == Position::Spherical) r[0] = 90 - r[0];
   }
   else r = Triple(90 - t[0], t[1], t[2]);
   vp_ensure(is(q, r[0], r[1], r[2]), "coordinates in the new system");
   const Position &k = p;
   Triple x;
   to_xyz(FROM, Triple(p[0], p[1], p[2]), x, A, e2);
   if (TO == Position::Cartesian)
      vp_ensure(is(x, k.X(), k.Y(), k.Z()), "Cartesian accessors");
   if (TO == Position::Spherical)
      vp_ensure(vp_eqt(k.theta(), r[0], 1e5) && vp_eqt(k.phi(), r[1], 1e5) && vp_eqt(k.radius(), r[2], 1e5), "spherical accessors");
   if (TO == Position::Geocentric)
      vp_ensure(vp_eqt(k.geocentricLatitude(), r[0], 1e5), "geocentric latitude");
   if (TO == Position::Geodetic)
      vp_ensure(vp_eqt(k.geodeticLatitude(), r[0], 1e5) && vp_eqt(k.height(), r[2], 1e8), "geodetic accessors");
}
extern "C" void vpproof__C24__transform_geodetic_to_geodetic__int_real() { transform<1, 1>(); }
extern "C" void vpproof__C24__transform_geodetic_to_geocentric__int_real() { transform<1, 2>(); }
extern "C" void vpproof__C24__transform_geodetic_to_cartesian__int_real() { transform<1, 3>(); }
extern "C" void vpproof__C24__transform_geodetic_to_spherical__int_real() { transform<1, 4>(); }
extern "C" void vpproof__C24__transform_geocentric_to_geodetic__int_real() { transform<2, 1>(); }
extern "C" void vpproof__C24__transform_geocentric_to_geocentric__int_real() { transform<2, 2>(); }
extern "C" void vpproof__C24__transform_geocentric_to_cartesian__int_real() { transform<2, 3>(); }
extern "C" void vpproof__C24__transform_geocentric_to_spherical__int_real() { transform<2, 4>(); }
extern "C" void vpproof__C24__transform_cartesian_to_geodetic__int_real() { transform<3, 1>(); }
extern "C" void vpproof__C24__transform_cartesian_to_geocentric__int_real() { transform<3, 2>(); }
extern "C" void vpproof__C24__transform_cartesian_to_cartesian__int_real() { transform<3, 3>(); }
extern "C" void vpproof__C24__transform_cartesian_to_spherical__int_real() { transform<3, 4>(); }
extern "C" void vpproof__C24__transform_spherical_to_geodetic__int_real() { transform<4, 1>(); }
extern "C" void vpproof__C24__transform_spherical_to_geocentric__int_real() { transform<4, 2>(); }
extern "C" void vpproof__C24__transform_spherical_to_cartesian__int_real() { transform<4, 3>(); }
extern "C" void vpproof__C24__transform_spherical_to_spherical__int_real() { transform<4, 4>(); }

// ------------------------------------------------ input
// the multiple of 360 that brings a longitude into [0,360)
static bool same_longitude(double got, double lon)
{
   double n = std::floor(lon / 360), want = lon - 360 * n;
   double d = got - want;
   return got >= -1e-300 && ((d < 1e-6 && d > -1e-6) || (want < 1e-6 && got > 360 - 1e-6) || (want > 360 - 1e-6 && got < 1e-6));
}
static Position blank()
{
   Position p;
   p.AEarth = 1; p.eccSquared = 2;
   p.refFrame = ReferenceFrame::ITRF;
   return p;
}
template <int SYS, bool ell> static void input()
{
   double a = vp_f64("a", -400, 400), b = vp_f64("b", -1e6, 1e6), c = vp_f64("c", -1e9, 1e9);
   PZ90Ellipsoid pz;
   bool bad = SYS == Position::Geodetic ? a > 90 || a < -90 : SYS == Position::Geocentric ? a > 90 || a < -90 || c < 0
            : SYS == Position::Spherical ? a < 0 || a > 180 || c < 0 : false;
   double x[3] = {a, b, c};
   for (int k = 0; k < 4; k++)
   {
      Position p = blank();
      bool thrown = false;
      try
      {
         if (k == 0) p = Position(a, b, c, (Position::CoordinateSystem)SYS, ell ? &pz : NULL, ReferenceFrame::PZ90);
         if (k == 1) p = Position(x, (Position::CoordinateSystem)SYS, ell ? &pz : NULL, ReferenceFrame::PZ90);
         if (k == 2) p = Position(Triple(a, b, c), (Position::CoordinateSystem)SYS, ell ? &pz : NULL, ReferenceFrame::PZ90);
         if (k == 3)
         {
            if (SYS == Position::Geodetic) p.setGeodetic(a, b, c, ell ? &pz : NULL);
            if (SYS == Position::Geocentric) p.setGeocentric(a, b, c);
            if (SYS == Position::Cartesian) p.setECEF(a, b, c);
            if (SYS == Position::Spherical) p.setSpherical(a, b, c);
         }
      }
      catch (GeometryException &) { thrown = true; }
      vp_ensure(thrown == bad, "invalid latitude, polar angle or radius is refused, everything else accepted");
      if (thrown) continue;
      vp_ensure(p.system == SYS && p[0] == a && p[2] == c, "the given coordinates");
      vp_ensure(SYS == Position::Cartesian ? p[1] == b : same_longitude(p[1], b), "longitude from 0 to 360");
      vp_ensure(k == 3 || p.refFrame == ReferenceFrame::PZ90, "the given frame");
      if (k < 3 || SYS == Position::Geodetic)
         vp_ensure(ell ? p.AEarth == pz.a() && p.eccSquared == pz.eccSquared()
                 : k == 3 ? p.AEarth == 1 && p.eccSquared == 2 : p.AEarth == 6378137 && p.eccSquared == 6.69437999014e-3, "the given ellipsoid");
   }
}
extern "C" void vpproof__C24__input_geodetic__int_real() { input<Position::Geodetic, false>(); }
extern "C" void vpproof__C24__input_geodetic_ellipsoid__int_real() { input<Position::Geodetic, true>(); }
extern "C" void vpproof__C24__input_geocentric__int_real() { input<Position::Geocentric, false>(); }
extern "C" void vpproof__C24__input_geocentric_ellipsoid__int_real() { input<Position::Geocentric, true>(); }
extern "C" void vpproof__C24__input_cartesian__int_real() { input<Position::Cartesian, false>(); }
extern "C" void vpproof__C24__input_cartesian_ellipsoid__int_real() { input<Position::Cartesian, true>(); }
extern "C" void vpproof__C24__input_spherical__int_real() { input<Position::Spherical, false>(); }
extern "C" void vpproof__C24__input_spherical_ellipsoid__int_real() { input<Position::Spherical, true>(); }
// ------------------------------------------------ arithmetic
template <int L, int R> static void arithmetic()
{
   Position p = arb(L, "p"), q;
   q.theArray[0] = vp_f64("qa", 0, 90); q.theArray[1] = vp_f64("qb", 0, 359); q.theArray[2] = vp_f64("qc", 6e6, 1e8);
   q.system = (Position::CoordinateSystem)R;
   q.AEarth = p.AEarth; q.eccSquared = p.eccSquared; q.refFrame = p.refFrame;
   Triple x, y;
   to_xyz(L, p, x, p.AEarth, p.eccSquared);
   to_xyz(R, q, y, q.AEarth, q.eccSquared);
   Position s = p + q, d = p - q;
   vp_ensure(s.system == Position::Cartesian && is(s, x[0] + y[0], x[1] + y[1], x[2] + y[2]), "sum");
   vp_ensure(d.system == Position::Cartesian && is(d, x[0] - y[0], x[1] - y[1], x[2] - y[2]), "difference");
   Position u(p), v(p);
   u += q;
   v -= q;
   vp_ensure(u.system == L && v.system == L, "system kept");
   if (L == Position::Cartesian)
      vp_ensure(is(u, s[0], s[1], s[2]) && is(v, d[0], d[1], d[2]), "in place");
   double r = range(p, q), w = rss(d[0], d[1], d[2]);
   vp_ensure(vp_eqt(r, w, 1e9), "distance");
#ifndef VP_PROOF
   if (std::fabs(w - 0.5) < 1) return;
#endif
   vp_ensure((p == q) == (w < 0.5) && (p != q) == !(w < 0.5), "equal when nearer than the tolerance");
   q.AEarth = p.AEarth + 1;
   bool thrown = false;
   try { range(p, q); } catch (GeometryException &) { thrown = true; }
   vp_ensure(thrown && p != q && !(p == q), "not comparable on different ellipsoids");
   q.AEarth = p.AEarth;
   q.refFrame = ReferenceFrame::WGS84;
   vp_ensure(p != q && !(p == q), "different in different frames");
   Position m = 2.5 * p, n = p * -3;
   vp_ensure(is(m, 2.5 * p[0], 2.5 * p[1], 2.5 * p[2]) && is(n, -3 * p[0], -3 * p[1], -3 * p[2]), "multiples of the coordinates");
}
extern "C" void vpproof__C24__sum_cartesian__int_real() { arithmetic<Position::Cartesian, Position::Cartesian>(); }
extern "C" void vpproof__C24__sum_geodetic__int_real() { arithmetic<Position::Cartesian, Position::Geodetic>(); }
extern "C" void vpproof__C24__sum_spherical__int_real() { arithmetic<Position::Spherical, Position::Geocentric>(); }
// ------------------------------------------------ seen from a position
extern "C" void vpproof__C24__seen_from__int_real()
{
   Position p = arb(Position::Geodetic, "p"), q;
   q.theArray[0] = vp_f64("x", -1e8, 1e8); q.theArray[1] = vp_f64("y", -1e8, 1e8); q.theArray[2] = vp_f64("z", -1e8, 1e8);
   q.system = Position::Cartesian;
   q.AEarth = p.AEarth; q.eccSquared = p.eccSquared;
   Triple x;
   to_xyz(Position::Geodetic, p, x, p.AEarth, p.eccSquared);
   double b = rad(p[0]), l = rad(p[1]), dx = q[0] - x[0], dy = q[1] - x[1], dz = q[2] - x[2], d = std::sqrt(dx * dx + dy * dy + dz * dz);
   double e = 0, a = 0;
   bool t1 = false, t2 = false;
   try { e = p.elevationGeodetic(q); } catch (GeometryException &) { t1 = true; }
   try { a = p.azimuthGeodetic(q); } catch (GeometryException &) { t2 = true; }
   vp_ensure(t1 == (d <= 1e-4) && t2 == t1, "no direction to the same place");
   if (t1) return;
   double sb = std::sin(b), cb = std::cos(b), sl = std::sin(l), cl = std::cos(l);
   double up = dx * (cb * cl) + dy * (cb * sl) + dz * sb;
   double north = (dx * (-sb * cl) + dy * (-sb * sl) + dz * cb) / d, east = (dx * -sl + dy * cl) / d;
#ifndef VP_PROOF
   if (std::fabs(north) + std::fabs(east) < 1e-3) return;
#endif
   vp_ensure(vp_eqt(e, 90 - deg(std::acos(up / d)), 1e5), "elevation above the horizon of the ellipsoid");
   if (std::fabs(north) + std::fabs(east) < 1e-16)
   {
      vp_ensure(a == 0, "overhead");
      return;
   }
   double z = deg(std::atan2(east, north));
   vp_ensure(vp_eqt(a, z < 0 ? z + 360 : z, 1e5) || vp_eqt(a, z + 360, 1e5), "azimuth clockwise from north");
   vp_ensure(a >= 0 && a <= 360, "from 0 to 360");
}
// the geocentric elevation and azimuth are those of the Cartesian triples (C27)
extern "C" void vpproof__C24__seen_geocentric__int_real()
{
   Position p = arb(Position::Geodetic, "p"), q = p;
   q.theArray[0] = vp_f64("x", -1e8, 1e8); q.theArray[1] = vp_f64("y", -1e8, 1e8); q.theArray[2] = vp_f64("z", -1e8, 1e8);
   q.system = Position::Cartesian;
   Triple x, y(q);
   to_xyz(Position::Geodetic, p, x, p.AEarth, p.eccSquared);
   double e = 0, a = 0, e2 = 0, a2 = 0;
   int t = 0, t2 = 0;
   try { e = p.elevation(q); } catch (GeometryException &) { t += 1; }
   try { a = p.azimuth(q); } catch (GeometryException &) { t += 2; }
   try { e2 = x.elvAngle(y); } catch (GeometryException &) { t2 += 1; }
   try { a2 = x.azAngle(y); } catch (GeometryException &) { t2 += 2; }
   vp_ensure(t == t2 && (t & 1 || e == e2) && (t & 2 || a == a2), "as from the Cartesian position");
}
extern "C" void vpproof__C24__curvature__int_real()
{
   Position p = arb(Position::Geodetic, "p");
   double s = std::sin(rad(p[0])), A = p.AEarth, e2 = p.eccSquared, W = 1 / std::sqrt(1 - e2 * s * s);
   vp_ensure(vp_eqr(p.getCurvPrimeVertical(), A / std::sqrt(1 - e2 * s * s)), "in the prime vertical");
   vp_ensure(vp_eqr(p.getCurvMeridian(), A * (1 - e2) * W * W * W), "in the meridian");
   double k = 1 - e2;   // radius of the ellipsoid at a geodetic latitude
   vp_ensure(vp_eqr(Position::radiusEarth(p[0], A, e2), A * std::sqrt((1 + (k * k - 1) * s * s) / (1 - e2 * s * s))), "radius of the ellipsoid");
}
// where a ray pierces a thin shell
extern "C" void vpproof__C24__pierce_point__int_real()
{
   Position p = arb(Position::Geocentric, "p");
   double el = vp_f64("elevation", 0, 90), az = vp_f64("azimuth", 0, 360), h = vp_f64("shell", 1e5, 1e6);
   Position q = p.getIonosphericPiercePoint(el, az, h);
   double A = p.AEarth, e = rad(el), psi = PI / 2 - e - std::asin(A * std::cos(e) / (A + h)), b = rad(p[0]), z = rad(az);
   double lat = std::asin(std::sin(b) * std::cos(psi) + std::cos(b) * std::sin(psi) * std::cos(z));
   double lon = rad(p[1]) + std::asin(std::sin(psi) * std::sin(z) / std::cos(lat));
#ifndef VP_PROOF
   if (std::fabs(lat) > 1.55) return;
#endif
   vp_ensure(q.system == Position::Geocentric && is(q, deg(lat), deg(lon), A + h, 1e6), "pierce point");
}
template <class E> static void ellipsoid(double a, double f, double mu, double om)
{
   E m;
   const EllipsoidModel &e = m;
   double d1 = e.eccSquared() - f * (2 - f), d2 = e.eccentricity() * e.eccentricity() - e.eccSquared(), d3 = e.flattening() - f;
   double da = e.a_km() * 1000 - a, dc = e.c_km() * 1000 - 299792458;
   vp_ensure(e.a() == a && da < 1e-6 && da > -1e-6, "axis");
   vp_ensure(d1 < 1e-12 && d1 > -1e-12 && d2 < 1e-12 && d2 > -1e-12 && d3 < 1e-11 && d3 > -1e-11, "flattening and eccentricity");
   double d4 = e.gm_km() - mu / 1e9;
   vp_ensure(e.gm() == mu && d4 < 1e-6 && d4 > -1e-6, "gravitational constant");
   vp_ensure(e.angVelocity() == om && e.c() == 299792458 && dc < 1e-6 && dc > -1e-6, "rotation and speed of light");
}
extern "C" void vpproof__C24__ellipsoids__int_real()
{
   ellipsoid<WGS84Ellipsoid>(6378137, 1 / 298.257223563, 3.986004418e14, 7.292115e-5);
   ellipsoid<GPSEllipsoid>(6378137, 1 / 298.257223563, 3.986005e14, 7.2921151467e-5);
   ellipsoid<PZ90Ellipsoid>(6378136, 1 / 298.25784, 3.986004418e14, 7.292115e-5);
   ellipsoid<GalileoEllipsoid>(6378137, 1 / 298.257222101, 3.986004418e14, 7.2921151467e-5);
   ellipsoid<CGCS2000Ellipsoid>(6378137, 1 / 298.257222101, 3.986004418e14, 7.292115e-5);
}
