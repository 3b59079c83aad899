// property: C24
// sources: core/lib/GNSSCore/Position.cpp core/lib/Math/Triple.cpp
// opt: timeout=60 feas_ms=100
// bounded: roundtrip
// noinline: _ZN5gpstk3RSSIdEET_S1_S1_S1_$
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Positions: coordinate conversions, input checking, geometry seen from a position, ellipsoids
#include "vp.h"
#include <cmath>
#include "Position.hpp"
#include "MiscMath.hpp"
#include "GNSSconstants.hpp"
#include "WGS84Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "GalileoEllipsoid.hpp"
#include "CGCS2000Ellipsoid.hpp"
using namespace gpstk;
static const double D2R = 1.74532925199432957691e-2, R2D = 5.72957795130823208768e1;
#define TINY (Position::POSITION_TOLERANCE / 5)
static double deg(double x) { return x * RAD_TO_DEG; }
static double rad(double x) { return x * DEG_TO_RAD; }
static double rss(double a, double b, double c) { return std::sqrt(a * a + b * b + c * c); }
#ifdef VP_PROOF
// contract of RSS, proved by vpproof__C24__rss
extern "C" double vpstub___ZN5gpstk3RSSIdEET_S1_S1_S1_(double a, double b, double c) { return rss(a, b, c); }
#endif
static bool is(const Triple &t, double x, double y, double z, double s = 1e8)
{
   return vp_eqt(t[0], x, s) && vp_eqt(t[1], y, s) && vp_eqt(t[2], z, s);
}
static Triple three(double a, double b, double c) { return Triple(a, b, c); }
// ------------------------------------------------ conversions
static Triple arb_sph() { double a = vp_f64("theta", 0, 180), b = vp_f64("phi", 0, 360), c = vp_f64("radius", 0, 1e9); return three(a, b, c); }
static Triple arb_llr() { double a = vp_f64("lat", -90, 90), b = vp_f64("lon", 0, 360), c = vp_f64("radius", 0, 1e9); return three(a, b, c); }
static Triple arb_llh() { double a = vp_f64("lat", -90, 90), b = vp_f64("lon", 0, 360), c = vp_f64("height", -6e6, 1e9); return three(a, b, c); }
static Triple arb_xyz() { double a = vp_f64("x", -1e9, 1e9), b = vp_f64("y", -1e9, 1e9), c = vp_f64("z", -1e9, 1e9); return three(a, b, c); }
static double lon_of(double x, double y)
{
   double l = deg(std::atan2(y, x));
   return l < 0 ? l + 360 : l;
}
extern "C" void vpproof__C24__to_cartesian__int_real()
{
   Triple s = arb_sph(), l = arb_llr(), x, y;
   Position::convertSphericalToCartesian(s, x);
   double t = rad(s[0]), p = rad(s[1]);
   vp_ensure(is(x, s[2] * std::sin(t) * std::cos(p), s[2] * std::sin(t) * std::sin(p), s[2] * std::cos(t), 1e9), "spherical to Cartesian");
   Position::convertGeocentricToCartesian(l, y);
   t = rad(90 - l[0]), p = rad(l[1]);
   vp_ensure(is(y, l[2] * std::sin(t) * std::cos(p), l[2] * std::sin(t) * std::sin(p), l[2] * std::cos(t), 1e9), "geocentric to Cartesian");
}
extern "C" void vpproof__C24__geodetic_to_cartesian__int_real()
{
   Triple g = arb_llh(), x;
   double A = vp_f64("A", 6e6, 7e6), e2 = vp_f64("e2", 0, 0.01);
   Position::convertGeodeticToCartesian(g, x, A, e2);
   double b = rad(g[0]), l = rad(g[1]), N = A / std::sqrt(1 - e2 * std::sin(b) * std::sin(b));
   vp_ensure(is(x, (N + g[2]) * std::cos(b) * std::cos(l), (N + g[2]) * std::cos(b) * std::sin(l), (N * (1 - e2) + g[2]) * std::sin(b), 1e9), "geodetic to Cartesian");
}
static void spherical_of(const Triple &x, double &theta, double &phi, double &r)
{
   r = rss(x[0], x[1], x[2]);
   theta = r <= TINY ? 90 : deg(std::acos(x[2] / r));
   phi = r <= TINY || rss(x[0], x[1], 0) < TINY ? 0 : lon_of(x[0], x[1]);
}
extern "C" void vpproof__C24__from_cartesian__int_real()
{
   Triple x = arb_xyz(), s, l;
   double theta, phi, r;
   spherical_of(x, theta, phi, r);
   Position::convertCartesianToSpherical(x, s);
   vp_ensure(is(s, theta, phi, r, 1e5), "Cartesian to spherical");
   Position::convertCartesianToGeocentric(x, l);
   vp_ensure(is(l, 90 - theta, phi, r, 1e5), "Cartesian to geocentric");
}
// latitude and height by iteration of tan(lat) = z/(p(1-e2 N/(N+h))), h = p/cos(lat) - N, from h = 0, at most five times
static void geodetic_of(double p, double z, double k, double A, double e2, double &lat, double &h)
{
   lat = std::atan2(z, p * (1 - e2));
   h = 0;
   for (int i = 0; i < 5; i++)
   {
      double s = std::sin(lat), N = A / std::sqrt(1 - e2 * s * s), l0 = lat, h0 = h;
      h = p * k / std::cos(lat) - N;
      lat = std::atan2(z, p * (1 - e2 * (N / (N + h))));
      if (std::fabs(lat - l0) < 1e-9 && std::fabs(h - h0) < 1e-9 * A) break;
   }
}
extern "C" void vpproof__C24__to_geodetic__int_real()
{
   Triple x = arb_xyz(), g;
   double A = vp_f64("A", 6e6, 7e6), e2 = vp_f64("e2", 0, 0.01);
   double p = std::sqrt(x[0] * x[0] + x[1] * x[1]);
   if (p < TINY) return;   // see below
   Position::convertCartesianToGeodetic(x, g, A, e2);
   double lat, h;
   geodetic_of(p, x[2], 1, A, e2, lat, h);
#ifndef VP_PROOF
   if (p < 1e-3 || rss(p, x[2], 0) < 3e6) return;   // the iteration amplifies rounding there
#endif
   vp_ensure(vp_eqt(g[0], deg(lat), 1e3), "latitude");
   vp_ensure(vp_eqt(g[2], h, 1e8), "height");
   double dl = g[1] - lon_of(x[0], x[1]);
   vp_ensure(dl < 1e-9 && dl > -1e-9, "longitude");
}
extern "C" void vpproof__C24__to_geodetic_pole__int_real()
{
   double x0 = vp_f64("x", -1e-3, 1e-3), x1 = vp_f64("y", -1e-3, 1e-3), x2 = vp_f64("z", -1e9, 1e9);
   Triple x(x0, x1, x2), g;
   double A = vp_f64("A", 6e6, 7e6), e2 = vp_f64("e2", 0, 0.01);
   if (!(std::sqrt(x[0] * x[0] + x[1] * x[1]) < TINY)) return;
   Position::convertCartesianToGeodetic(x, g, A, e2);
   vp_ensure(g[0] == (x[2] > 0 ? 90 : -90), "latitude at the poles");
   vp_ensure(g[1] == 0, "longitude at the poles");
   vp_ensure(vp_eqt(g[2], (x[2] > 0 ? x[2] : -x[2]) - A * std::sqrt(1 - e2), 1e9), "height at the poles");
}
extern "C" void vpproof__C24__geocentric_to_geodetic__int_real()
{
   Triple l = arb_llr(), g;
   double A = vp_f64("A", 6e6, 7e6), e2 = vp_f64("e2", 0, 0.01);
   Position::convertGeocentricToGeodetic(l, g, A, e2);
   double t = rad(90 - l[0]), c = std::sin(t), s = std::cos(t);
   if (l[2] <= TINY)
   {
      vp_ensure(is(g, 0, 0, -A), "at the centre");
      return;
   }
   if (c < 1e-10)
   {
      vp_ensure(is(g, l[0] < 0 ? -90 : 90, 0, l[2] - A * std::sqrt(1 - e2)), "at the poles");
      return;
   }
   double lat, h;
   geodetic_of(c, s, l[2], A, e2, lat, h);
#ifndef VP_PROOF
   if (l[2] < 3e6) return;
#endif
   vp_ensure(is(g, deg(lat), l[1], h), "geocentric to geodetic");
}
extern "C" void vpproof__C24__geodetic_to_geocentric__int_real()
{
   Triple g = arb_llh(), l;
   double A = vp_f64("A", 6e6, 7e6), e2 = vp_f64("e2", 0, 0.01);
   Position::convertGeodeticToGeocentric(g, l, A, e2);
   double b = rad(g[0]), s = std::sin(b), N = A / std::sqrt(1 - e2 * s * s), M = N + g[2];
   double r = std::sqrt(M * M + N * e2 * (N * e2 - 2 * M) * s * s);   // of p = M cos b, z = (M - N e2) sin b
   if (r <= TINY)
   {
      vp_ensure(is(l, 0, 0, 0), "at the centre");
      return;
   }
#ifndef VP_PROOF
   if (r < 1e5) return;
#endif
   double c = 1 - (s < 0 ? -s : s);
   if (c < 1e-10) { vp_ensure(is(l, s < 0 ? -90 : 90, 0, r, 1e9), "at the poles"); return; }
   vp_ensure(is(l, 90 - deg(std::acos((M - N * e2) * s / r)), g[1], r, 1e9), "geodetic to geocentric");
}

extern "C" void vpproof__C24__rss__int_real()
{
   double a = vp_f64("a", -1e9, 1e9), b = vp_f64("b", -1e9, 1e9), c = vp_f64("c", -1e9, 1e9);
#ifdef VP_PROOF
   double r = RSS<double>(a, b, c) , q = r * r, w = a * a + b * b + c * c;
   vp_ensure(r >= 0 && q == w, "root of the sum of squares");
#else
   vp_ensure(vp_eqt(RSS<double>(a, b, c), std::sqrt(a * a + b * b + c * c), 1e-100), "root of the sum of squares");
#endif
}
// there and back within a millimetre and a hundred millionth of a degree (needs the analysis of sine and arctangent)
extern "C" void vpproof__C24__roundtrip__int_real()
{
   double la = vp_f64("lat", -90, 90), lo = vp_f64("lon", 0, 360), h = vp_f64("height", -10000, 3e7);
   if (la > 89.9999 || la < -89.9999 || lo >= 360) return;
   Position p(la, lo, h, Position::Geodetic), q(p);
   q.transformTo(Position::Cartesian);
   Position c(q);
   q.transformTo(Position::Geodetic);
   double d = q[1] - lo;
   if (d < -180) d += 360;
   if (d > 180) d -= 360;
   vp_ensure(std::fabs(q[0] - la) < 1e-8 && std::fabs(d) < 1e-7 / std::cos(rad(la)) && std::fabs(q[2] - h) < 1e-3, "geodetic");
   q = p;
   q.transformTo(Position::Geocentric);
   q.transformTo(Position::Geodetic);
   vp_ensure(std::fabs(la) > 89 || std::fabs(q[0] - la) < 3e-6 && std::fabs(q[2] - h) < 0.5, "geodetic by way of geocentric");
   for (int s = 2; s <= 4; s++)
   {
      q = c;
      q.transformTo((Position::CoordinateSystem)s);
      q.transformTo(Position::Cartesian);
      vp_ensure(std::fabs(q[0] - c[0]) < 0.5 && std::fabs(q[1] - c[1]) < 0.5 && std::fabs(q[2] - c[2]) < 0.5, "Cartesian");
   }
}
