// property: C26
// sources: core/lib/Math/PowerSum.cpp
// opt: timeout=60
// Running statistics. Each accumulator stands for its samples through their number and power sums (its
// representation invariant); every operation is proved from an arbitrary state, so for any history of any length.
#include "vp.h"
#include <cmath>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <vector>
#include <string>
#include <algorithm>
#define private public
#define protected public
#include "Stats.hpp"
#include "BivarStats.hpp"
#include "PowerSum.hpp"
#undef private
#undef protected
using namespace gpstk;
static const double BIG = 1e4;
static double val(const char *n) { return vp_f64(n, -BIG, BIG); }
static unsigned num(const char *n, unsigned lo) { return (unsigned)vp_i64(n, lo, 1000000000); }
static bool same(double a, double b, double scale) { return vp_eqt(a, b, scale); }
static double low(double a, double b) { return a < b ? a : b; }
static double high(double a, double b) { return a < b ? b : a; }
// ------------------------------------------------ Stats
struct Sums { double s1, s2; };
static Sums sums(const Stats<double> &s) { Sums r = { s.scale * s.sum, s.scale * s.scale * s.sum2 }; return r; }
// any state that stands for n >= 1 samples: the scale is one as long as they are all zero
static Stats<double> arb_stats(const char *n, const char *scale, const char *sum, const char *sum2, const char *lo, const char *hi, unsigned least = 1)
{
   Stats<double> s;
   s.n = num(n, least);
   s.scale = vp_f64(scale, 1e-4, BIG);
   s.sum = vp_f64(sum, -BIG, BIG);
   s.sum2 = vp_f64(sum2, 0, BIG);
   s.min = val(lo);
   s.max = val(hi);
   s.setScale = s.sum2 != 0;
   vp_assume(s.min <= s.max);
   vp_assume(s.setScale || (s.scale == 1 && s.sum == 0 && s.min == 0 && s.max == 0));
   return s;
}
#define ARB(x) arb_stats(#x "n", #x "scale", #x "sum", #x "sum2", #x "min", #x "max")
static bool consistent(const Stats<double> &s) { return s.scale > 0 && (s.setScale || (s.scale == 1 && s.sum == 0 && s.sum2 == 0)); }
extern "C" void vpproof__C26__stats_add__int_real()
{
   Stats<double> s = ARB(a), t = s;
   double u = vp_f64("u", -BIG, BIG), x = u * s.scale;
   t.Add(x);
   Sums a = sums(s), b = sums(t);
   double f = 1e12 * (1 + x * x);
   vp_ensure(t.n == s.n + 1, "one more sample");
   vp_ensure(same(b.s1, a.s1 + x, f), "its value joins the sum");
   vp_ensure(same(b.s2, a.s2 + x * x, f), "its square joins the sum of squares");
   vp_ensure(t.min == low(s.min, x) && t.max == high(s.max, x), "least and greatest");
   vp_ensure(consistent(t), "invariant");
}
static void first(Stats<double> s, double x)
{
   s.Add(x);
   vp_ensure(s.n == 1 && same(sums(s).s1, x, 0) && same(sums(s).s2, x * x, 0) && s.min == x && s.max == x && consistent(s), "the first sample starts afresh");
}
extern "C" void vpproof__C26__stats_first__int_real()
{
   double x = val("x");
   Stats<double> s = ARB(a), e;
   s.n = 0;
   first(e, x);
   first(s, x);
   Stats<double> r = ARB(b);
   r.Reset();
   first(r, x);
}
extern "C" void vpproof__C26__stats_subtract__int_real()
{
   Stats<double> s = ARB(a), t = s;
   double u = vp_f64("u", -BIG, BIG), x = u * s.scale;
   t.Subtract(x);
   Sums a = sums(s), b = sums(t);
   double f = 1e12 * (1 + x * x);
   vp_ensure(t.n == s.n - 1, "one sample fewer");
   vp_ensure(t.n == 0 || (same(b.s1, a.s1 - x, f) && same(b.s2, a.s2 - x * x, f)), "it leaves the sums");
   Stats<double> e;
   e.Subtract(x);
   vp_ensure(e.n == 0, "nothing to take from nothing");
}
extern "C" void vpproof__C26__stats_results__int_real()
{
   Stats<double> s = ARB(a), e;
   double n = s.n;
   Sums a = sums(s);
   vp_ensure(s.N() == s.n && s.Minimum() == s.min && s.Maximum() == s.max && s.Scale() == s.scale, "the state is reported");
   vp_ensure(same(s.Average() * n, a.s1, 1e12), "average is the sum over the number");
   vp_ensure(s.n == 1 || same(s.Variance() * (n - 1), a.s2 - a.s1 * a.s1 / n, 1e20), "variance about the average with n - 1");
   vp_ensure(s.n > 1 || s.Variance() == 0, "no variance from one sample");
   e = s;
   e.n = 0;
   vp_ensure(e.N() == 0 && e.Minimum() == 0 && e.Maximum() == 0 && e.Average() == 0 && e.Variance() == 0 && e.StdDev() == 0, "no samples, no results");
}
extern "C" void vpproof__C26__stats_deviation__int_real()
{
   Stats<double> s = ARB(a);
   double v = s.Variance();
   vp_ensure(s.n > 1 || s.StdDev() == 0, "no deviation from one sample");
#ifndef VP_PROOF
   if (v < 0) return;
#endif
   vp_assume(v >= 0);
   double d = s.StdDev();
   vp_ensure(d >= 0 && same(d * d, v, 0), "deviation is the root of the variance");
}
extern "C" void vpproof__C26__stats_join__int_real()
{
   Stats<double> s = ARB(a), t = ARB(b), j = s, e;
   bool drained = vp_bool("drained");
   j += t;
   Sums a = sums(s), b = sums(t), c = sums(j);
   vp_ensure(j.n == s.n + t.n, "numbers add");
   vp_ensure(same(c.s1, a.s1 + b.s1, 1e12), "sums add");
   vp_ensure(same(c.s2, a.s2 + b.s2, 1e16), "sums of squares add");
   vp_ensure(j.min == low(s.min, t.min) && j.max == high(s.max, t.max), "least and greatest of both");
   vp_ensure(consistent(j), "invariant");
   // an accumulator without samples, fresh or emptied by Subtract
   if (drained) { e = s; e.n = 0; }
   e += t;
   c = sums(e);
   vp_ensure(e.n == t.n && same(c.s1, b.s1, 1e12) && same(c.s2, b.s2, 1e16) && e.min == t.min && e.max == t.max && consistent(e), "joining to nothing gives the other");
   Stats<double> k = s, z = t;
   z.n = 0;
   k += z;
   vp_ensure(k.n == s.n && k.sum == s.sum && k.sum2 == s.sum2 && k.scale == s.scale && k.min == s.min && k.max == s.max, "joining nothing changes nothing");
}
extern "C" void vpproof__C26__stats_part__int_real()
{
   Stats<double> s = ARB(a), t = ARB(b), j = s;
   j -= t;
   Sums a = sums(s), b = sums(t), c = sums(j);
   vp_ensure(j.n == (s.n > t.n ? s.n - t.n : 0), "numbers subtract");
   vp_ensure(j.n == 0 || (same(c.s1, a.s1 - b.s1, 1e12) && same(c.s2, a.s2 - b.s2, 1e16)), "sums subtract");
}
extern "C" void vpproof__C26__stats_reload__int_real()
{
   Stats<double> s = ARB(a), t = ARB(b);
   std::vector<unsigned> u;
   std::vector<double> v;
   s.Dump(u, v);
   vp_ensure(u.size() == 2 && v.size() == 5, "two counts and five values");
   t.Load(u, v);
   vp_ensure(t.n == s.n && t.setScale == s.setScale && t.scale == s.scale && t.min == s.min && t.max == s.max && t.sum == s.sum && t.sum2 == s.sum2,
      "a reloaded accumulator is the one saved");
   v.pop_back();
   t.Load(u, v);
   vp_ensure(t.n == 0, "nothing is read from an incomplete record");
}
// ------------------------------------------------ SeqStats
static SeqStats<double> arb_seq(const char *n, const char *ave, const char *var, const char *lo, const char *hi)
{
   SeqStats<double> s;
   s.n = num(n, 1);
   s.ave = val(ave);
   s.var = vp_f64(var, 0, BIG);
   s.min = val(lo);
   s.max = val(hi);
   vp_assume(s.min <= s.ave && s.ave <= s.max);
   return s;
}
#define SEQ(x) arb_seq(#x "n", #x "ave", #x "var", #x "min", #x "max")
static Sums sums(const SeqStats<double> &s) { Sums r = { s.n * s.ave, s.n * (s.var + s.ave * s.ave) }; return r; }
extern "C" void vpproof__C26__seq_add__int_real()
{
   SeqStats<double> s = SEQ(a), t = s, e;
   double x = val("x");
   t.Add(x);
   Sums a = sums(s), b = sums(t);
   vp_ensure(t.n == s.n + 1, "one more sample");
   vp_ensure(same(b.s1, a.s1 + x, 1e14), "its value joins the sum");
   vp_ensure(same(b.s2, a.s2 + x * x, 1e18), "its square joins the sum of squares");
   vp_ensure(t.min == low(s.min, x) && t.max == high(s.max, x), "least and greatest");
   if (vp_bool("reset")) { e = s; e.Reset(); }
   e.Add(x);
   vp_ensure(e.n == 1 && e.ave == x && e.var == 0 && e.min == x && e.max == x, "the first sample starts afresh");
}
extern "C" void vpproof__C26__seq_subtract__int_real()
{
   SeqStats<double> s = SEQ(a), t = s;
   double x = val("x");
#ifdef VP_PROOF
   if (s.n == 1) return;
#endif
   t.Subtract(x);
   Sums a = sums(s), b = sums(t);
   vp_ensure(t.n == s.n - 1, "one sample fewer");
   vp_ensure(t.n == 0 || same(b.s1, a.s1 - x, 1e14), "it leaves the sum");
   vp_ensure(t.n == 0 || same(b.s2, a.s2 - x * x, 1e18), "its square leaves the sum of squares");
}
extern "C" void vpproof__C26__seq_results__int_real()
{
   SeqStats<double> s = SEQ(a), e;
   double n = s.n;
   Sums a = sums(s);
   vp_ensure(s.N() == s.n && s.Minimum() == s.min && s.Maximum() == s.max, "the state is reported");
   vp_ensure(same(s.Average() * n, a.s1, 1e14), "average is the sum over the number");
   vp_ensure(s.n == 1 || same(s.Variance() * (n - 1), a.s2 - a.s1 * a.s1 / n, 1e18), "variance about the average with n - 1");
   vp_ensure(s.n > 1 || (s.Variance() == 0 && s.StdDev() == 0), "no variance from one sample");
   double d = s.StdDev();
   vp_ensure(d >= 0 && same(d * d, s.Variance(), 1e-3), "deviation is the root of the variance");
   vp_ensure(e.N() == 0 && e.Minimum() == 0 && e.Maximum() == 0 && e.Average() == 0 && e.Variance() == 0 && e.StdDev() == 0, "no samples, no results");
}
extern "C" void vpproof__C26__seq_join__int_real()
{
   SeqStats<double> s = SEQ(a), t = SEQ(b), j = s, p = s, e, z;
   j += t;
   Sums a = sums(s), b = sums(t), c = sums(j);
   vp_ensure(j.n == s.n + t.n, "numbers add");
   vp_ensure(same(c.s1, a.s1 + b.s1, 1e14), "sums add");
   vp_ensure(same(c.s2, a.s2 + b.s2, 1e18), "sums of squares add");
   vp_ensure(j.min == low(s.min, t.min) && j.max == high(s.max, t.max), "least and greatest of both");
   e += t;
   vp_ensure(e.n == t.n && e.ave == t.ave && e.var == t.var && e.min == t.min && e.max == t.max, "joining to nothing gives the other");
   e += z;
   vp_ensure(e.n == t.n && e.ave == t.ave && e.var == t.var && e.min == t.min && e.max == t.max, "joining nothing changes nothing");
   p -= t;
   c = sums(p);
   vp_ensure(p.n == (s.n > t.n ? s.n - t.n : 0), "numbers subtract");
   vp_ensure(p.n == 0 || same(c.s1, a.s1 - b.s1, 1e14), "sums subtract");
   vp_ensure(p.n == 0 || same(c.s2, a.s2 - b.s2, 1e18), "sums of squares subtract");
}
extern "C" void vpproof__C26__seq_reload__int_real()
{
   SeqStats<double> s = SEQ(a), t = SEQ(b);
   std::vector<unsigned> u;
   std::vector<double> v;
   s.Dump(u, v);
   vp_ensure(u.size() == 1 && v.size() == 4, "one count and four values");
   t.Load(u, v);
   vp_ensure(t.n == s.n && t.min == s.min && t.max == s.max && t.ave == s.ave && t.var == s.var, "a reloaded accumulator is the one saved");
   v.pop_back();
   t.Load(u, v);
   vp_ensure(t.n == 0, "nothing is read from an incomplete record");
}
// ------------------------------------------------ WtdStats
static WtdStats<double> arb_wtd(const char *n, const char *w, const char *ave, const char *var, const char *lo, const char *hi)
{
   WtdStats<double> s;
   s.n = num(n, 1);
   s.WtNorm = vp_f64(w, 1e-3, BIG);
   s.ave = val(ave);
   s.var = vp_f64(var, 0, BIG);
   s.min = val(lo);
   s.max = val(hi);
   vp_assume(s.min <= s.ave && s.ave <= s.max);
   return s;
}
#define WTD(x) arb_wtd(#x "n", #x "w", #x "ave", #x "var", #x "min", #x "max")
static Sums wsums(const WtdStats<double> &s) { Sums r = { s.WtNorm * s.ave, s.WtNorm * (s.var + s.ave * s.ave) }; return r; }
static bool eq(const WtdStats<double> &s, const WtdStats<double> &t)
{
   return s.n == t.n && s.WtNorm == t.WtNorm && s.ave == t.ave && s.var == t.var && s.min == t.min && s.max == t.max;
}
extern "C" void vpproof__C26__wtd_add__int_real()
{
   WtdStats<double> s = WTD(a), t = s, e, k = s;
   double x = val("x"), w = vp_f64("w", -BIG, BIG), m = w < 0 ? -w : w;
#ifndef VP_PROOF
   if (m < 1e-3) return;
#endif
   vp_assume(w != 0);
   t.Add(x, w);
   Sums a = wsums(s), b = wsums(t);
   vp_ensure(t.n == s.n + 1 && same(t.WtNorm, s.WtNorm + m, 0), "one more sample, its weight joins the sum of weights");
   vp_ensure(same(b.s1, a.s1 + m * x, 1e12), "its weighted value joins the sum");
   vp_ensure(same(b.s2, a.s2 + m * x * x, 1e16), "its weighted square joins the sum of squares");
   vp_ensure(t.min == low(s.min, x) && t.max == high(s.max, x), "least and greatest");
   k.Add(x, 0);
   vp_ensure(eq(k, s), "a sample of no weight is ignored");
   k.Subtract(x, 0);
   vp_ensure(eq(k, s), "a sample of no weight is ignored");
   e.Subtract(x, w);
   vp_ensure(e.n == 0 && e.WtsSum() == 0 && e.Average() == 0, "nothing to take from nothing");
   if (vp_bool("reset")) { e = s; e.Reset(); vp_ensure(e.WtsSum() == 0, "nothing after a reset"); }
   e.Add(x, w);
   vp_ensure(e.n == 1 && same(e.ave, x, 0) && e.var == 0 && e.min == x && e.max == x && same(e.WtsSum(), m, 0), "the first sample starts afresh");
}
extern "C" void vpproof__C26__wtd_subtract__int_real()
{
   WtdStats<double> s = WTD(a), t = s;
   double x = val("x"), w = vp_f64("w", -BIG, BIG), m = w < 0 ? -w : w;
#ifndef VP_PROOF
   if (s.WtNorm - m < 1e-3) return;
#endif
   vp_assume(w != 0 && m < s.WtNorm);
   t.Subtract(x, w);
   Sums a = wsums(s), b = wsums(t);
   vp_ensure(t.n == s.n - 1 && same(t.WtNorm, s.WtNorm - m, 0), "one sample fewer, its weight leaves the sum of weights");
   vp_ensure(same(b.s1, a.s1 - m * x, 1e14), "its weighted value leaves the sum");
   vp_ensure(same(b.s2, a.s2 - m * x * x, 1e18), "its weighted square leaves the sum of squares");
}
extern "C" void vpproof__C26__wtd_join__int_real()
{
   WtdStats<double> s = WTD(a), t = WTD(b), j = s, p = s, e, z;
   j += t;
   Sums a = wsums(s), b = wsums(t), c = wsums(j);
   vp_ensure(j.n == s.n + t.n && same(j.WtNorm, s.WtNorm + t.WtNorm, 0), "numbers and weights add");
   vp_ensure(same(c.s1, a.s1 + b.s1, 1e14), "sums add");
   vp_ensure(same(c.s2, a.s2 + b.s2, 1e18), "sums of squares add");
   vp_ensure(j.min == low(s.min, t.min) && j.max == high(s.max, t.max), "least and greatest of both");
   e += t;
   vp_ensure(eq(e, t), "joining to nothing gives the other");
   e += z;
   vp_ensure(eq(e, t), "joining nothing changes nothing");
   p -= t;
   vp_ensure(p.n == (s.n > t.n ? s.n - t.n : 0), "numbers subtract");
#ifndef VP_PROOF
   if (s.WtNorm - t.WtNorm < 1e-3) return;
#endif
   vp_assume(t.WtNorm < s.WtNorm && t.n < s.n);
   c = wsums(p);
   vp_ensure(same(c.s1, a.s1 - b.s1, 1e14), "sums subtract");
   vp_ensure(same(c.s2, a.s2 - b.s2, 1e18), "sums of squares subtract");
}
extern "C" void vpproof__C26__wtd_reload__int_real()
{
   WtdStats<double> s = WTD(a), t = WTD(b);
   std::vector<unsigned> u;
   std::vector<double> v;
   s.Dump(u, v);
   vp_ensure(u.size() == 1 && v.size() == 5, "one count and five values");
   t.Load(u, v);
   vp_ensure(eq(t, s), "a reloaded accumulator is the one saved");
   v.pop_back();
   t.Load(u, v);
   vp_ensure(t.n == 0, "nothing is read from an incomplete record");
}
// ------------------------------------------------ TwoSampleStats
static TwoSampleStats<double> arb_two(const char *n, const char *xy, const Stats<double> &x, const Stats<double> &y)
{
   TwoSampleStats<double> t;
   t.SX = x;
   t.SY = y;
   t.n = x.n;
   t.SY.n = x.n;
   t.sumxy = val(xy);
   vp_assume((x.setScale && y.setScale) || t.sumxy == 0);
   return t;
}
#define TWO(a) arb_two(#a "n", #a "xy", ARB(a##x), ARB(a##y))
static double cross(const TwoSampleStats<double> &t) { return t.SX.scale * t.SY.scale * t.sumxy; }
extern "C" void vpproof__C26__two_add__int_real()
{
   TwoSampleStats<double> s = TWO(a), t = s, r = s;
   double u = val("u"), v = val("v"), x = u * s.SX.scale, y = v * s.SY.scale, f = 1e12 * (1 + x * x) * (1 + y * y);
   t.Add(x, y);
   vp_ensure(t.n == s.n + 1 && t.SX.n == t.n && t.SY.n == t.n, "one more pair");
   vp_ensure(same(sums(t.SX).s1, sums(s.SX).s1 + x, f) && same(sums(t.SY).s1, sums(s.SY).s1 + y, f), "to each its own sample");
   vp_ensure(same(cross(t), cross(s) + x * y, f), "their product joins the sum of products");
   r.Subtract(x, y);
   vp_ensure(r.n == s.n - 1 && r.SX.n == r.n && r.SY.n == r.n, "one pair fewer");
   vp_ensure(r.n == 0 || (same(cross(r), cross(s) - x * y, f) && same(sums(r.SX).s1, sums(s.SX).s1 - x, f) && same(sums(r.SY).s1, sums(s.SY).s1 - y, f)),
      "their product leaves the sum of products");
}
extern "C" void vpproof__C26__two_first__int_real()
{
   TwoSampleStats<double> s = TWO(a), e;
   double x = val("x"), y = val("y");
   if (vp_bool("drained")) { e = s; e.n = e.SX.n = e.SY.n = 1; e.Subtract(x, y); vp_ensure(e.n == 0, "empty"); }
   e.Add(x, y);
   vp_ensure(e.n == 1 && e.SX.n == 1 && e.SY.n == 1 && same(sums(e.SX).s1, x, 0) && same(sums(e.SY).s1, y, 0) && same(cross(e), x * y, 0), "the first pair starts afresh");
}
extern "C" void vpproof__C26__two_join__int_real()
{
   TwoSampleStats<double> s = TWO(a), t = TWO(b), j = s, p = s, e;
   j += t;
   vp_ensure(j.n == s.n + t.n && j.SX.n == j.n && j.SY.n == j.n, "numbers add");
   vp_ensure(same(cross(j), cross(s) + cross(t), 1e16), "sums of products add");
   p -= t;
   vp_ensure(p.n == (s.n > t.n ? s.n - t.n : 0) && p.SX.n == p.n && p.SY.n == p.n, "numbers subtract");
   vp_ensure(p.n == 0 || same(cross(p), cross(s) - cross(t), 1e16), "sums of products subtract");
   e += t;
   vp_ensure(e.n == t.n && e.SX.n == t.n && e.SY.n == t.n && same(cross(e), cross(t), 1e16), "joining to nothing gives the other");
}
extern "C" void vpproof__C26__two_results__int_real()
{
   TwoSampleStats<double> s = TWO(a);
   double n = s.n, x1 = sums(s.SX).s1, y1 = sums(s.SY).s1, x2 = sums(s.SX).s2, xy = cross(s), x = val("x");
#ifndef VP_PROOF
   if (s.SX.sum2 - s.SX.sum * s.SX.sum / n < 1e-3) return;
#endif
   vp_assume(s.SX.sum2 - s.SX.sum * s.SX.sum / n > 0);
   vp_ensure(s.N() == s.n && s.AverageX() == s.SX.Average() && s.AverageY() == s.SY.Average() && s.VarianceX() == s.SX.Variance() && s.VarianceY() == s.SY.Variance()
      && s.MinimumX() == s.SX.min && s.MaximumX() == s.SX.max && s.MinimumY() == s.SY.min && s.MaximumY() == s.SY.max, "each sample's own statistics");
   vp_ensure(same(s.Slope() * (x2 - x1 * x1 / n), xy - x1 * y1 / n, 1e24), "slope of the least squares line");
   vp_ensure(same(s.Intercept(), s.AverageY() - s.Slope() * s.AverageX(), 1e12), "intercept of the least squares line");
   vp_ensure(same(s.Evaluate(x), s.Slope() * x + s.Intercept(), 0), "value of the least squares line");
}
extern "C" void vpproof__C26__two_reload__int_real()
{
   TwoSampleStats<double> s = TWO(a), t;
   std::vector<unsigned> u;
   std::vector<double> v;
   s.Dump(u, v);
   vp_ensure(u.size() == 5 && v.size() == 11, "five counts and eleven values");
   t.Load(u, v);
   vp_ensure(t.n == s.n && t.sumxy == s.sumxy, "a reloaded accumulator is the one saved");
   vp_ensure(t.SX.n == s.SX.n && t.SX.setScale == s.SX.setScale && t.SX.scale == s.SX.scale && t.SX.min == s.SX.min && t.SX.max == s.SX.max && t.SX.sum == s.SX.sum && t.SX.sum2 == s.SX.sum2, "the first sample too");
   vp_ensure(t.SY.n == s.SY.n && t.SY.setScale == s.SY.setScale && t.SY.scale == s.SY.scale && t.SY.min == s.SY.min && t.SY.max == s.SY.max && t.SY.sum == s.SY.sum && t.SY.sum2 == s.SY.sum2, "the second sample too");
   v.pop_back();
   t.Load(u, v);
   vp_ensure(t.n == 0 && t.SX.n == 0 && t.SY.n == 0, "nothing is read from an incomplete record");
}
// ------------------------------------------------ BivarStats
static BivarStats<double> arb_bivar(bool scaled, bool zx, bool zy)
{
   BivarStats<double> s(scaled);
   s.ns = num("n", 1);
   s.scaleX = scaled && !zx ? vp_f64("scaleX", 1e-4, BIG) : 1;
   s.scaleY = scaled && !zy ? vp_f64("scaleY", 1e-4, BIG) : 1;
   s.sumX = zx ? 0 : val("sumX");
   s.sumY = zy ? 0 : val("sumY");
   s.sumX2 = zx ? 0 : vp_f64("sumX2", 1e-4, BIG);
   s.sumY2 = zy ? 0 : vp_f64("sumY2", 1e-4, BIG);
   s.sumXY = zx || zy ? 0 : val("sumXY");
   s.xMin = zx ? 0 : val("xMin");
   s.xMax = zx ? 0 : val("xMax");
   s.yMin = zy ? 0 : val("yMin");
   s.yMax = zy ? 0 : val("yMax");
   vp_assume(s.xMin <= s.xMax && s.yMin <= s.yMax);
   return s;
}
struct Biv { double x, y, xx, yy, xy; };
static Biv sums(const BivarStats<double> &s)
{
   Biv b = { s.scaleX * s.sumX, s.scaleY * s.sumY, s.scaleX * s.scaleX * s.sumX2, s.scaleY * s.scaleY * s.sumY2, s.scaleX * s.scaleY * s.sumXY };
   return b;
}
static void bivar_add(bool scaled)
{
   bool zx = vp_bool("all x zero"), zy = vp_bool("all y zero");
   BivarStats<double> s = arb_bivar(scaled, zx, zy), t = s, r = s, e(scaled);
   double u = val("u"), v = val("v"), x = u * s.scaleX, y = v * s.scaleY, f = 1e16 * (1 + x * x) * (1 + y * y);
   t.add(x, y);
   Biv a = sums(s), b = sums(t);
   vp_ensure(t.ns == s.ns + 1 && t.n() == t.ns, "one more pair");
   vp_ensure(same(b.x, a.x + x, f) && same(b.y, a.y + y, f), "it joins the sums");
   vp_ensure(same(b.xx, a.xx + x * x, f) && same(b.yy, a.yy + y * y, f), "its squares join the sums of squares");
   vp_ensure(same(b.xy, a.xy + x * y, f), "its product joins the sum of products");
   vp_ensure(t.xMin == low(s.xMin, x) && t.xMax == high(s.xMax, x) && t.yMin == low(s.yMin, y) && t.yMax == high(s.yMax, y), "least and greatest");
   r.subtract(x, y);
   b = sums(r);
   vp_ensure(r.ns == s.ns - 1, "one pair fewer");
   vp_ensure(r.ns == 0 || (same(b.x, a.x - x, f) && same(b.y, a.y - y, f) && same(b.xx, a.xx - x * x, f) && same(b.yy, a.yy - y * y, f) && same(b.xy, a.xy - x * y, f)), "it leaves the sums");
   e.add(x, y);
   b = sums(e);
   vp_ensure(e.ns == 1 && same(b.x, x, f) && same(b.y, y, f) && same(b.xx, x * x, f) && same(b.yy, y * y, f) && same(b.xy, x * y, f) && e.xMin == x && e.xMax == x && e.yMin == y && e.yMax == y,
      "the first pair starts afresh");
}
extern "C" void vpproof__C26__bivar_add_scaled__int_real() { bivar_add(true); }
extern "C" void vpproof__C26__bivar_add_plain__int_real() { bivar_add(false); }
// three pairs in a row, whatever they are
extern "C" void vpproof__C26__bivar_three__int_real()
{
   bool scaled = vp_bool("scaled");
   double x = val("x"), y = val("y"), x2 = val("x2"), y2 = val("y2");
   BivarStats<double> s(x, y, scaled);
   s.add(x2, y2);
   Biv b = sums(s);
   vp_ensure(s.n() == 2 && same(b.x, x + x2, 1e6) && same(b.y, y + y2, 1e6) && same(b.xx, x * x + x2 * x2, 1e10) && same(b.yy, y * y + y2 * y2, 1e10) && same(b.xy, x * y + x2 * y2, 1e10), "the sums of two pairs");
   std::vector<std::pair<double, double> > d;
   d.push_back(std::make_pair(x2, y2));
   s.subtract(d);
   s.add(d);
   vp_ensure(s.n() == 2, "a list taken and given back");
   s.clear();
   vp_ensure(s.n() == 0 && s.averageX() == 0 && s.averageY() == 0 && s.varianceX() == 0 && s.varianceY() == 0 && s.minimumX() == 0 && s.maximumY() == 0, "no samples, no results");
}
extern "C" void vpproof__C26__bivar_results__int_real()
{
   bool scaled = vp_bool("scaled");
   BivarStats<double> s = arb_bivar(scaled, false, false);
   double n = s.ns, x = val("x");
   Biv a = sums(s);
   vp_ensure(s.minimumX() == s.xMin && s.maximumX() == s.xMax && s.minimumY() == s.yMin && s.maximumY() == s.yMax, "the state is reported");
   vp_ensure(same(s.averageX() * n, a.x, 1e12) && same(s.averageY() * n, a.y, 1e12), "averages are sums over the number");
   vp_ensure(s.ns == 1 || (same(s.varianceX() * (n - 1), a.xx - a.x * a.x / n, 1e20) && same(s.varianceY() * (n - 1), a.yy - a.y * a.y / n, 1e20)), "variances about the average with n - 1");
   vp_ensure(s.ns > 1 || (s.varianceX() == 0 && s.varianceY() == 0), "no variance from one sample");
   double q = s.sumX2 - s.sumX * s.sumX / n;
#ifndef VP_PROOF
   if (q < 1e-3) return;
#endif
   vp_assume(q > 0);
   vp_ensure(same(s.slope() * (a.xx - a.x * a.x / n), a.xy - a.x * a.y / n, 1e24), "slope of the least squares line");
   vp_ensure(same(s.intercept(), s.averageY() - s.slope() * s.averageX(), 1e12), "intercept of the least squares line");
   vp_ensure(same(s.eval(x), s.intercept() + x * s.slope(), 0), "value of the least squares line");
}
extern "C" void vpproof__C26__bivar_join__int_real()
{
   bool sa = vp_bool("first scaled"), sb = vp_bool("second scaled");
   double x = val("x"), y = val("y");
   BivarStats<double> s = arb_bivar(sa, false, false), t(x, y, sb), j = s, e(sa), z(sb);
   Biv a = sums(s), b = sums(t), c;
   j += t;
   c = sums(j);
   vp_ensure(j.ns == s.ns + 1 && same(c.x, a.x + b.x, 1e12) && same(c.y, a.y + b.y, 1e12), "sums add");
   vp_ensure(same(c.xx, a.xx + b.xx, 1e16) && same(c.yy, a.yy + b.yy, 1e16), "sums of squares add");
   vp_ensure(same(c.xy, a.xy + b.xy, 1e16), "sums of products add");
   vp_ensure(j.xMin == low(s.xMin, x) && j.xMax == high(s.xMax, x) && j.yMin == low(s.yMin, y) && j.yMax == high(s.yMax, y), "least and greatest of both");
   e += t;
   c = sums(e);
   vp_ensure(e.ns == 1 && same(c.x, x, 1e6) && same(c.y, y, 1e6) && same(c.xx, x * x, 1e10) && same(c.yy, y * y, 1e10) && same(c.xy, x * y, 1e10) && e.xMin == x && e.xMax == x && e.yMin == y && e.yMax == y,
      "joining to nothing gives the other");
   j = s;
   j += z;
   vp_ensure(j.ns == s.ns && j.sumX == s.sumX && j.sumXY == s.sumXY && j.xMin == s.xMin && j.xMax == s.xMax && j.yMin == s.yMin && j.yMax == s.yMax, "joining nothing changes nothing");
}
// ------------------------------------------------ PowerSum
static PowerSum arb_power(unsigned least)
{
   PowerSum p;
   static const char *NAME[] = {"", "s1", "s2", "s3", "s4", "s5"};
   p.n = num("n", least);
   for (int i = 1; i <= 5; i++) p.s[i] = val(NAME[i]);
   return p;
}
extern "C" void vpproof__C26__power_add__int_real()
{
   PowerSum p = arb_power(1), q = p, r = p;
   double x = vp_f64("x", -100, 100);
   q.add(x);
   r.subtract(x);
   double px = 1;
   for (int i = 1; i <= PowerSum::order; i++)
   {
      px = px * x;
      vp_ensure(same(q.s[i], p.s[i] + px, 1e12) && same(r.s[i], p.s[i] - px, 1e12), "each power joins or leaves its sum");
   }
   vp_ensure(q.size() == p.n + 1 && r.size() == p.n - 1, "and the number follows");
   PowerSum e;
   for (int i = 1; i <= PowerSum::order; i++) vp_ensure(e.s[i] == 0, "nothing at first");
   p.clear();
   for (int i = 1; i <= PowerSum::order; i++) vp_ensure(p.s[i] == 0, "nothing once cleared");
   vp_ensure(e.size() == 0 && p.size() == 0 && e.average() == 0 && e.variance() == 0 && e.skew() == 0 && e.kurtosis() == 0, "no samples, no results");
}
// mean of (x - average)^r by the binomial theorem
static void power_moment(int r)
{
   PowerSum p = arb_power(r);
   double n = p.n, a = p.s[1] / n, m = 0, c = 1, f = 0;
   double pw[6] = {1, -a, a * a, -a * a * a, a * a * a * a, -a * a * a * a * a};
   for (int k = 0; k <= r; k++)
   {
      m = m + c * pw[k] * (r == k ? n : p.s[r - k]);
#ifndef VP_PROOF
      f = f + std::fabs(c * pw[k] * (r == k ? n : p.s[r - k]));
#endif
      c = c * (r - k) / (k + 1);
   }
   vp_ensure(same(p.moment(r) * n, m, f), "the central moment of that order");
   vp_ensure(p.moment(6) == 0, "no moment beyond the order kept");
   if (r == 2) vp_ensure(p.variance() == p.moment(2), "variance");
   p.n = r - 1;
   vp_ensure(p.moment(r) == 0, "no moment from fewer samples than its order");
}
extern "C" void vpproof__C26__power_moment2__int_real() { power_moment(2); }
extern "C" void vpproof__C26__power_moment3__int_real() { power_moment(3); }
extern "C" void vpproof__C26__power_moment4__int_real() { power_moment(4); }
extern "C" void vpproof__C26__power_moment5__int_real() { power_moment(5); }
extern "C" void vpproof__C26__power_average__int_real()
{
   PowerSum p = arb_power(1);
   vp_ensure(same(p.average() * p.n, p.s[1], 1e6) && same(p.moment(1) * p.n, p.s[1], 1e6), "average");
   if (p.n >= 4)
   {
      double m2 = p.moment(2);
#ifndef VP_PROOF
      if (m2 < 1e-9) return;
#endif
      vp_assume(m2 > 0);
      vp_ensure(same(p.kurtosis(), p.moment(4) / (m2 * m2), 0), "kurtosis");
   }
}
// ------------------------------------------------ medians
template <class V> static void median_of(const V &v, const double *x, int n, double m)
{
   // half of the samples lie on either side
   int below = 0, above = 0;
   for (int i = 0; i < n; i++)
   {
      if (x[i] < m) below++;
      if (x[i] > m) above++;
   }
   vp_ensure(2 * below <= n && 2 * above <= n, "no more than half of the samples on either side");
   if (n % 2)
   {
      bool one = false;
      for (int i = 0; i < n; i++) if (x[i] == m) one = true;
      vp_ensure(one, "one of the samples");
   }
   else
   {
      bool mid = false;
      for (int i = 0; i < n; i++)
         for (int j = 0; j < n; j++)
         {
            int lo = 0, hi = 0;
            for (int k = 0; k < n; k++)
            {
               if (x[k] < x[i]) lo++;
               if (x[k] > x[j]) hi++;
            }
            if (i != j && x[i] <= x[j] && 2 * lo < n && 2 * hi < n && m == (x[i] + x[j]) / 2) mid = true;
         }
      vp_ensure(mid, "half way between two middle samples");
   }
}
template <int N> static void medians()
{
   static const char *NAME[] = {"x0", "x1", "x2", "x3", "x4"};
   double x[N + 1];
   Vector<double> v(N);
   std::vector<double> w;
   for (int i = 0; i < N; i++)
   {
      x[i] = val(NAME[i]);
      v(i) = x[i];
      w.push_back(x[i]);
   }
   double a = median(v), b = median(w);
   median_of(v, x, N, a);
   vp_ensure(a == b, "the same from either kind of vector");
   for (int i = 0; i < N; i++) vp_ensure(v(i) == x[i] && w[i] == x[i], "the samples are left alone");
}
extern "C" void vpproof__C26__median_1__int_real() { medians<1>(); }
extern "C" void vpproof__C26__median_2__int_real() { medians<2>(); }
extern "C" void vpproof__C26__median_3__int_real() { medians<3>(); }
extern "C" void vpproof__C26__median_4__int_real() { medians<4>(); }
