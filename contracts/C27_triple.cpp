// property: C27
// sources: core/lib/Math/Triple.cpp core/lib/Math/RACRotation.cpp core/lib/GNSSCore/Xvt.cpp
// opt: timeout=60
// Vector algebra of Triple, rotation to radial/along/cross, corrections of Xvt
#include "vp.h"
#include <cmath>
#include "Triple.hpp"
#include "RACRotation.hpp"
#include "Xvt.hpp"
#include "GNSSconstants.hpp"
#include "WGS84Ellipsoid.hpp"
using namespace gpstk;
static const double BIG = 1e9;
static Triple arb(const char *a, const char *b, const char *c)
{
   Triple t;
   t[0] = vp_f64(a, -BIG, BIG);
   t[1] = vp_f64(b, -BIG, BIG);
   t[2] = vp_f64(c, -BIG, BIG);
   return t;
}
static double dot(const Triple &a, const Triple &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static bool is(const Triple &t, double x, double y, double z, double scale)
{
   return vp_eqt(t[0], x, scale) && vp_eqt(t[1], y, scale) && vp_eqt(t[2], z, scale);
}
extern "C" void vpproof__C27__algebra__int_real()
{
   Triple a = arb("a0", "a1", "a2"), b = arb("b0", "b1", "b2");
   double k = vp_f64("k", -BIG, BIG);
   vp_ensure(vp_eqt(a.dot(b), dot(a, b), 1e18), "dot product");
   Triple c = a.cross(b);
   vp_ensure(is(c, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 1e18), "cross product");
   vp_ensure(is(a + b, a[0] + b[0], a[1] + b[1], a[2] + b[2], BIG), "sum");
   vp_ensure(is(a - b, a[0] - b[0], a[1] - b[1], a[2] - b[2], BIG), "difference");
   vp_ensure(is(k * a, k * a[0], k * a[1], k * a[2], 1e18), "multiple");
   vp_ensure(is(a * k, k * a[0], k * a[1], k * a[2], 1e18), "multiple");
   vp_ensure((a == b) == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]), "equality");
   Triple d(a), e;
   e = a;
   vp_ensure(d == a && e == a && Triple(a[0], a[1], a[2]) == a && d.size() == 3, "copies");
   Vector<double> v = a.toVector();
   std::vector<double> w = a.toStdVector();
   vp_ensure(v.size() == 3 && v(0) == a[0] && v(1) == a[1] && v(2) == a[2], "as a Vector");
   vp_ensure(w.size() == 3 && w[0] == a[0] && w[1] == a[1] && w[2] == a[2], "as a std::vector");
}
extern "C" void vpproof__C27__norm__int_real()
{
   Triple a = arb("a0", "a1", "a2"), b = arb("b0", "b1", "b2");
   double m = a.mag();
   vp_ensure(m >= 0 && vp_eqt(m * m, dot(a, a), 0), "magnitude");
   double s = a.slantRange(b);
   Triple d = b - a;
   vp_ensure(s >= 0 && vp_eqt(s * s, dot(d, d), 1e12), "distance");
   vp_ensure(vp_eqt(b.slantRange(a), s, 0), "the same both ways");
}
extern "C" void vpproof__C27__unit__int_real()
{
   Triple a = arb("a0", "a1", "a2");
   double m = std::sqrt(dot(a, a));
   bool thrown = false;
   Triple u;
   try { u = a.unitVector(); } catch (GeometryException &) { thrown = true; }
   vp_ensure(thrown == (m <= 1e-14), "no direction of a null vector");
   if (thrown) return;
   vp_ensure(is(u, a[0] / m, a[1] / m, a[2] / m, 1), "direction");
}
extern "C" void vpproof__C27__cosine__int_real()
{
   Triple a = arb("a0", "a1", "a2"), b = arb("b0", "b1", "b2");
   double x = dot(a, a), y = dot(b, b);
   bool thrown = false;
   double c = 0;
   try { c = a.cosVector(b); } catch (GeometryException &) { thrown = true; }
   vp_ensure(thrown == (x <= 1e-14 || y <= 1e-14), "no angle to a null vector");
   if (thrown) return;
   vp_ensure(c >= -1 && c <= 1, "a cosine");
   double q = dot(a, b) / std::sqrt(x * y);
   vp_ensure(q > 1 || q < -1 || vp_eqt(c, q, 1), "cosine of the angle between");
}
extern "C" void vpproof__C27__axes__int_real()
{
   Triple a = arb("a0", "a1", "a2");
   double ang = vp_f64("angle", -720, 720), r = ang * DEG_TO_RAD, c = std::cos(r), s = std::sin(r);
   double e1 = DEG_TO_RAD * 180 - PI, e2 = RAD_TO_DEG * PI - 180;
   vp_ensure(e1 < 1e-12 && e1 > -1e-12 && e2 < 1e-12 && e2 > -1e-12, "degrees and radians");
   vp_ensure(is(a.R1(ang), a[0], c * a[1] + s * a[2], c * a[2] - s * a[1], BIG), "about the first axis");
   vp_ensure(is(a.R2(ang), c * a[0] - s * a[2], a[1], c * a[2] + s * a[0], BIG), "about the second axis");
   vp_ensure(is(a.R3(ang), c * a[0] + s * a[1], c * a[1] - s * a[0], a[2], BIG), "about the third axis");
}

extern "C" void vpproof__C27__elevation__int_real()
{
   Triple a = arb("a0", "a1", "a2"), b = arb("b0", "b1", "b2");
   double x = b[0] - a[0], y = b[1] - a[1], z = b[2] - a[2], rr = x * x + y * y + z * z, aa = dot(a, a);
   bool thrown = false;
   double e = 0;
   try { e = a.elvAngle(b); } catch (GeometryException &) { thrown = true; }
   vp_ensure(thrown == (rr <= 1e-14 || aa <= 1e-14), "no elevation of a point seen from itself or from the origin");
   if (thrown) return;
   double q = (x * a[0] + y * a[1] + z * a[2]) / std::sqrt(rr * aa);
   q = q > 1 ? 1 : q < -1 ? -1 : q;
   vp_ensure(vp_eqt(e, 90 - std::acos(q) * RAD_TO_DEG, 9e3), "elevation above the plane at right angles to the position");
}
extern "C" void vpproof__C27__azimuth__int_real()
{
   Triple a = arb("a0", "a1", "a2"), b = arb("b0", "b1", "b2");
   double p = std::sqrt(a[0] * a[0] + a[1] * a[1]), r = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
   bool thrown = false;
   double az = 0;
   try { az = a.azAngle(b); } catch (GeometryException &) { thrown = true; }
   if (p <= 1e-14 || r <= 1e-14)
   {
      vp_ensure(thrown, "no azimuth at a pole");
      return;
   }
   double x = b[0] - a[0], y = b[1] - a[1], z = b[2] - a[2];
   double cl = a[0] / p, sl = a[1] / p, sb = a[2] / r, cb = p / r;
   double east = -sl * x + cl * y, north = -sb * cl * x + -sb * sl * y + cb * z;
   if (!thrown)
   {
      double d = 90 - std::atan2(north, east) * RAD_TO_DEG;
#ifndef VP_PROOF
      if (std::fabs(east) + std::fabs(north) < 1e-3) return;   // only rounding is left
#endif
      vp_ensure(vp_eqt(az, d < 0 ? d + 360 : d, 360) || vp_eqt(az, d + 360, 360), "azimuth clockwise from north");
      vp_ensure(az >= 0, "not negative");
   }
   vp_ensure(!thrown || (east < 1e-13 && north < 1e-13 && east > -1e-13 && north > -1e-13), "refused overhead only");
}
extern "C" void vpproof__C27__relativity__int_real()
{
   Xvt t;
   t.x = arb("x0", "x1", "x2");
   t.v = arb("v0", "v1", "v2");
   double r = t.computeRelativityCorrection();
   vp_ensure(vp_eqt(r, -2 * dot(t.x, t.v) / 299792458.0 / 299792458.0, 40) && t.relcorr == r, "-2 r.v / c^2");
}
extern "C" void vpproof__C27__range__int_real()
{
   Xvt t;
   t.x = arb("x0", "x1", "x2");
   t.clkbias = vp_f64("bias", -1, 1);
   t.relcorr = vp_f64("relcorr", -1, 1);
   Triple rx = arb("r0", "r1", "r2");
   double corr = vp_f64("correction", -1e6, 1e6);
   WGS84Ellipsoid w;
   double rho = t.preciseRho(rx, w, corr);
   // the satellite where the Earth has turned to while the signal travelled, three steps
   Triple p = t.x;
   double s = 0;
   for (int i = 0; i < 3; i++)
   {
      double dx = p[0] - rx[0], dy = p[1] - rx[1], dz = p[2] - rx[2];
      s = std::sqrt(dx * dx + dy * dy + dz * dz);
      double turn = 7.292115e-5 * s / 299792458.0;
      p[0] = t.x[0] + t.x[1] * turn;
      p[1] = t.x[1] - t.x[0] * turn;
   }
   vp_ensure(vp_eqt(rho, s - (t.clkbias + t.relcorr) * 299792458.0 - corr, 1e9), "range corrected for rotation, clock, relativity and the given correction");
}
// rows: radial, along, cross; cross = R x (C-direction)
extern "C" void vpproof__C27__rac__int_real()
{
   Triple x = arb("x0", "x1", "x2"), v = arb("v0", "v1", "v2"), d = arb("d0", "d1", "d2");
   Xvt t;
   t.x = x;
   t.v = v;
   double m = std::sqrt(dot(x, x));
   if (m <= 1e-14) return;
   Triple r(x[0] / m, x[1] / m, x[2] / m);
   Triple c(r[1] * v[2] - r[2] * v[1], r[2] * v[0] - r[0] * v[2], r[0] * v[1] - r[1] * v[0]);
   double n = std::sqrt(dot(c, c));
   if (n <= 1e-14) return;
#ifndef VP_PROOF
   if (n < 1e-3 || m < 1e-3) return;
#endif
   for (int i = 0; i < 3; i++) c[i] = c[i] / n;
   Triple a(c[1] * r[2] - c[2] * r[1], c[2] * r[0] - c[0] * r[2], c[0] * r[1] - c[1] * r[0]);
   RACRotation q(x, v), q2(t);
   Triple o = q.convertToRAC(d);
   vp_ensure(is(o, dot(r, d), dot(a, d), dot(c, d), BIG), "radial, along-track and cross-track components");
   Vector<double> dv(3);
   for (int i = 0; i < 3; i++) dv[i] = d[i];
   Vector<double> ov = q2.convertToRAC(dv);
   vp_ensure(vp_eqt(ov[0], o[0], BIG) && vp_eqt(ov[1], o[1], BIG) && vp_eqt(ov[2], o[2], BIG), "as Vector");
   Xvt in;
   in.x = d;
   in.v = x;
   in.clkbias = vp_f64("bias", -1, 1);
   in.clkdrift = vp_f64("drift", -1, 1);
   in.relcorr = vp_f64("rel", -1, 1);
   Xvt out = q.convertToRAC(in);
   vp_ensure(is(out.x, o[0], o[1], o[2], BIG), "position");
   vp_ensure(is(out.v, dot(r, x), dot(a, x), dot(c, x), BIG), "velocity");
   vp_ensure(out.clkbias == in.clkbias && out.clkdrift == in.clkdrift && out.relcorr == in.relcorr, "clock");
}
