// property: C26
// sources: core/lib/Math/PowerSum.cpp
// opt: timeout=60
// Least squares polynomials: the information matrix and vector are the sums over the data, from any state, so
// for any number of points; the solution satisfies the normal equations.
#include "vp.h"
#include <cmath>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <vector>
#include <string>
#include <algorithm>
#include <limits>
#define private public
#include "PolyFit.hpp"
#undef private
using namespace gpstk;
static const char *IN[3][3] = {{"i00", "i01", "i02"}, {"i10", "i11", "i12"}, {"i20", "i21", "i22"}};
static const char *DN[3] = {"d0", "d1", "d2"};
template <int N> static void arb_fit(PolyFit<double> &p)
{
   p.Npts = (unsigned)vp_i64("points", 0, 1000000000);
   p.Inverted = vp_bool("inverted");
   for (int i = 0; i < N; i++)
   {
      p.InfData(i) = vp_f64(DN[i], -1e3, 1e3);
      for (int j = 0; j < N; j++) p.InfMatrix(i, j) = vp_f64(IN[i][j], -1e3, 1e3);
   }
}
static double power(double t, int k)
{
   double x = 1;
   for (int i = 0; i < k; i++) x = x * t;
   return x;
}
template <int N> static void fit_add()
{
   PolyFit<double> p(N), q(N), r(N);
   arb_fit<N>(p);
   q = p;
   double d = vp_f64("d", -1e3, 1e3), t = vp_f64("t", -1e3, 1e3), w = vp_f64("w", 0, 1e3), d2 = vp_f64("d2", -1e3, 1e3), t2 = vp_f64("t2", -1e3, 1e3);
   q.Add(d, t, w);
   vp_ensure(q.N() == p.Npts + 1 && q.Degree() == N && !q.Inverted, "one more point, to be solved again");
   for (int i = 0; i < N; i++)
   {
      vp_ensure(vp_eqt(q.InfData(i), p.InfData(i) + power(t, i) * (d * w), 1e15), "weighted data join the right hand side");
      for (int j = 0; j < N; j++) vp_ensure(vp_eqt(q.InfMatrix(i, j), p.InfMatrix(i, j) + power(t, i) * power(t, j) * w, 1e18), "weighted powers join the information");
   }
   // several points at once, the same as one by one; the shorter list decides
   Vector<double> D(3), T(2);
   std::vector<double> E, F;
   D(0) = d; D(1) = d2; D(2) = 1;
   T(0) = t; T(1) = t2;
   E.push_back(d); E.push_back(d2); E.push_back(1);
   F.push_back(t); F.push_back(t2);
   q = p;
   r = p;
   q.Add(D, T);
   r.Add(E, F);
   vp_ensure(q.N() == p.Npts + 2 && !q.Inverted && r.N() == p.Npts + 2 && !r.Inverted, "two more points, to be solved again");
   for (int i = 0; i < N; i++)
   {
      double x = p.InfData(i) + power(t, i) * d + power(t2, i) * d2;
      vp_ensure(vp_eqt(q.InfData(i), x, 1e15) && vp_eqt(r.InfData(i), x, 1e15), "data join the right hand side");
      for (int j = 0; j < N; j++)
      {
         x = p.InfMatrix(i, j) + power(t, i) * power(t, j) + power(t2, i) * power(t2, j);
         vp_ensure(vp_eqt(q.InfMatrix(i, j), x, 1e18) && vp_eqt(r.InfMatrix(i, j), x, 1e18), "powers join the information");
      }
   }
   vp_ensure(D(0) == d && D(2) == 1 && T(1) == t2, "the data are left alone");
}
extern "C" void vpproof__C26__fit_add_1__int_real() { fit_add<1>(); }
extern "C" void vpproof__C26__fit_add_2__int_real() { fit_add<2>(); }
extern "C" void vpproof__C26__fit_add_3__int_real() { fit_add<3>(); }
extern "C" void vpproof__C26__fit_start__int_real()
{
   PolyFit<double> p(3), q(2), r, n;
   arb_fit<2>(q);
   q.Reset(3);
   r.Reset(3);
   PolyFit<double> *all[] = {&p, &q, &r};
   for (int k = 0; k < 3; k++)
   {
      bool zero = all[k]->N() == 0 && all[k]->Degree() == 3 && !all[k]->Inverted && all[k]->InfData.size() == 3 && all[k]->InfMatrix.rows() == 3 && all[k]->InfMatrix.cols() == 3;
      for (int i = 0; i < 3; i++)
      {
         zero = zero && all[k]->InfData(i) == 0;
         for (int j = 0; j < 3; j++) zero = zero && all[k]->InfMatrix(i, j) == 0;
      }
      vp_ensure(zero, "no information at the start");
      vp_ensure(all[k]->isSingular() && all[k]->Evaluate(2) == 0, "no fit without points");
   }
   vp_ensure(n.Evaluate(2) == 0, "no fit without a degree");
}
extern "C" void vpproof__C26__fit_solve_1__int_real()
{
   PolyFit<double> p(1);
   arb_fit<1>(p);
   p.Inverted = false;
   double t = vp_f64("t", -1e3, 1e3);
#ifndef VP_PROOF
   if (std::fabs(p.InfMatrix(0, 0)) < 1e-3) return;
#endif
   vp_assume(p.InfMatrix(0, 0) != 0);
   vp_ensure(!p.isSingular(), "solvable");
   vp_ensure(vp_eqt(p.Evaluate(t) * p.InfMatrix(0, 0), p.InfData(0), 1e3) && vp_eqt(p.Covariance()(0, 0) * p.InfMatrix(0, 0), 1, 0), "the weighted mean and its variance");
}
extern "C" void vpproof__C26__fit_solve_2__int_real()
{
   PolyFit<double> p(2);
   arb_fit<2>(p);
   p.Inverted = false;
   double t = vp_f64("t", -1e3, 1e3), a = p.InfMatrix(0, 0), b = p.InfMatrix(0, 1), c = p.InfMatrix(1, 1), e = p.InfData(0), f = p.InfData(1);
   p.InfMatrix(1, 0) = b;
   vp_assume(a > 0 && c > 0 && a * c - b * b > 0);   // two different times suffice
#ifndef VP_PROOF
   if (a < 1 || c < 1 || a * c - b * b < 1) return;
#endif
   vp_ensure(!p.isSingular(), "solvable");
   Vector<double> x = p.Solution();
   vp_ensure(x.size() == 2 && vp_eqt(a * x(0) + b * x(1), e, 1e9) && vp_eqt(b * x(0) + c * x(1), f, 1e9), "the normal equations hold");
   vp_ensure(vp_eqt(p.Evaluate(t), x(0) + x(1) * t, 1e6), "value of the fitted line");
   Vector<double> at(2);
   at(0) = t;
   at(1) = 0;
   Vector<double> y = p.Evaluate(at);
   vp_ensure(y.size() == 2 && vp_eqt(y(0), x(0) + x(1) * t, 1e6) && vp_eqt(y(1), x(0), 1e6), "values of the fitted line");
   p.Add(1, 2);
   vp_ensure(!p.Inverted, "to be solved again");
}
// the data of a straight line are fitted by that line
extern "C" void vpproof__C26__fit_exact__int_real()
{
   PolyFit<double> p(2);
   double m = vp_f64("m", -100, 100), k = vp_f64("k", -100, 100), t0 = vp_f64("t0", -100, 100), t1 = vp_f64("t1", -100, 100), t2 = vp_f64("t2", -100, 100);
#ifndef VP_PROOF
   if (std::fabs(t0 - t1) < 1) return;
#endif
   vp_assume(t0 != t1);
   p.Add(m + k * t0, t0);
   p.Add(m + k * t1, t1);
   p.Add(m + k * t2, t2);
   double a = p.InfMatrix(0, 0), b = p.InfMatrix(0, 1), c = p.InfMatrix(1, 1);
   vp_ensure(a == 3 && vp_eqt(b, t0 + t1 + t2, 100) && vp_eqt(c, t0 * t0 + t1 * t1 + t2 * t2, 1e4), "information");
   vp_ensure(vp_eqt(p.InfData(0), a * m + b * k, 1e6) && vp_eqt(p.InfData(1), b * m + c * k, 1e8), "that line solves the normal equations");
   vp_ensure(a * c - b * b > 0, "and nothing else does");
}
