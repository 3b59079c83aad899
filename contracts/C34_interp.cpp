// property: C34
// sources: core/lib/Utilities/Exception.cpp
// opt: timeout=60 feas_ms=100 nomerge=1 loop_max=200000
// Interpolation: the interpolant of N points is the polynomial through them (and its derivatives)
#include "vp.h"
#include <cmath>
#include <vector>
#include "MiscMath.hpp"
using namespace gpstk;
typedef std::vector<double> V;
static const char *YN[] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8", "y9"};
static const double BIG = 1e5;
// knots: even, uneven and backward
static V knots(int n, int kind)
{
   static const double EVEN[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, UNEVEN[] = {-3, -2.5, -1, 0.5, 1, 2, 4, 4.25, 6, 9}, BACK[] = {9, 7, 6, 3, 2.5, 1, 0, -2, -3, -8};
   const double *x = kind == 0 ? EVEN : kind == 1 ? UNEVEN : BACK;
   return V(x, x + n);
}
static V values(int n)
{
   V y;
   for (int i = 0; i < n; i++) y.push_back(vp_f64(YN[i], -BIG, BIG));
   return y;
}
// the polynomial through the points, by Newton's divided differences: coefficients of 1, (x-x0), (x-x0)(x-x1), ...
static V newton(const V &X, const V &Y)
{
   V c = Y;
   int n = (int)X.size();
   for (int k = 1; k < n; k++)
      for (int i = n - 1; i >= k; i--) c[i] = (c[i] - c[i - 1]) / (X[i] - X[i - k]);
   return c;
}
// value and first two derivatives at x (Horner)
static void at(const V &X, const V &c, double x, double &p, double &d, double &e)
{
   p = d = e = 0;
   for (int i = (int)X.size() - 1; i >= 0; i--)
   {
      double u = x - X[i];
      e = e * u + 2 * d;
      d = d * u + p;
      p = p * u + c[i];
   }
}
static void interp(int n, int kind)
{
   V X = knots(n, kind), Y = values(n), c = newton(X, Y);
   double lo = X[0] < X[n - 1] ? X[0] : X[n - 1], hi = X[0] < X[n - 1] ? X[n - 1] : X[0], x = vp_f64("x", lo, hi), p, d, e;
   at(X, c, x, p, d, e);
   vp_ensure(vp_eqt(SimpleLagrangeInterpolation(X, Y, x), p, 1e10), "the polynomial through the points");
   if (n < 4) return;
   double y, v, err, s;
   LagrangeInterpolation(X, Y, x, y, v);
   vp_ensure(vp_eqt(y, p, 1e10), "value of the polynomial through the points");
   vp_ensure(vp_eqt(v, d, 1e10), "its derivative");
   s = LagrangeInterpolating2ndDerivative(X, Y, x);
   vp_ensure(vp_eqt(s, e, 1e11), "its second derivative");
}
static void neville(int n, int kind)
{
   V X = knots(n, kind), Y = values(n), c = newton(X, Y);
   double a = X[n / 2 - 1], b = X[n / 2], x = vp_f64("x", a < b ? a : b, a < b ? b : a), p, d, e, err;
   at(X, c, x, p, d, e);
   vp_ensure(vp_eqt(LagrangeInterpolation(X, Y, x, err), p, 1e10), "value with an error estimate");
}
#define OF(n, k, name) \
extern "C" void vpproof__C34__points_##n##_##name##__int_real() { interp(n, k); }
OF(2, 1, uneven) OF(3, 1, uneven) OF(4, 0, even) OF(4, 1, uneven) OF(4, 2, backward) OF(5, 1, uneven) OF(5, 2, backward) OF(6, 1, uneven) OF(8, 0, even)
#define EO(n, k, name) \
extern "C" void vpproof__C34__centered_##n##_##name##__int_real() { neville(n, k); }
EO(4, 0, even) EO(4, 1, uneven) EO(4, 2, backward) EO(5, 1, uneven) EO(6, 1, uneven) EO(8, 0, even) EO(10, 0, even)
// any two or three different knots
extern "C" void vpproof__C34__line__int_real()
{
   V X, Y = values(2);
   X.push_back(vp_f64("x0", -BIG, BIG));
   X.push_back(vp_f64("x1", -BIG, BIG));
   double x = vp_f64("x", -BIG, BIG);
#ifndef VP_PROOF
   if (std::fabs(X[0] - X[1]) < 1) return;
#endif
   vp_assume(X[0] != X[1]);
   double y = SimpleLagrangeInterpolation(X, Y, x);
   vp_ensure(vp_eqt((y - Y[0]) * (X[1] - X[0]), (Y[1] - Y[0]) * (x - X[0]), 1e11), "the line through two points");
}
static bool refuses(const V &X, const V &Y, int which)
{
   double y, v;
   try
   {
      if (which == 0) SimpleLagrangeInterpolation(X, Y, 0.5);
      if (which == 1) LagrangeInterpolation(X, Y, 0.5, y);
      if (which == 2) LagrangeInterpolation(X, Y, 0.5, y, v);
   }
   catch (Exception &) { return true; }
   return false;
}
extern "C" void vpproof__C34__refused__int_real()
{
   V X4 = knots(4, 0), X3 = knots(3, 0), Y4 = values(4), Y3 = values(3);
   vp_ensure(refuses(X4, Y3, 0) && refuses(X4, Y3, 1) && refuses(X4, Y3, 2), "fewer values than knots are refused");
   vp_ensure(refuses(X3, Y4, 1) && refuses(X3, Y3, 2), "fewer than four points are refused");
   vp_ensure(!refuses(X3, Y3, 0) && !refuses(X4, Y4, 1) && !refuses(X4, Y4, 2), "enough points are not");
}
// knots themselves
extern "C" void vpproof__C34__knots__int_real()
{
   V X = knots(6, 1), Y = values(6);
   double err = 5;
   bool simple = true, neville = true, both = true;
   for (int i = 0; i < 6; i++)
   {
      double y, v;
      simple = simple && SimpleLagrangeInterpolation(X, Y, X[i]) == Y[i];
      if (i == 2 || i == 3) neville = neville && LagrangeInterpolation(X, Y, X[i], err) == Y[i] && err == 0;
      LagrangeInterpolation(X, Y, X[i], y, v);
      both = both && vp_eqt(y, Y[i], 1e6);
   }
   vp_ensure(simple && neville && both, "the values at the knots");
}
static void root(double r, double w)
{
   double q = r * r;
   vp_ensure(r >= 0 && vp_eqt(q, w, 1e-100), "root of the sum of the squares");
}
extern "C" void vpproof__C34__rss2__int_real()
{
   double a = vp_f64("a", -1e6, 1e6), b = vp_f64("b", -1e6, 1e6);
   root(RSS(a, b), a * a + b * b);
}
extern "C" void vpproof__C34__round__int_real()
{
   double x = vp_f64("x", -1e9, 1e9), r = Round(x);
   vp_ensure(r == std::floor(r) && r - x <= 0.5 && x - r < 0.5000001 && (x - r < 0.5), "the nearest whole number, halves upwards");
}
