// property: C13
// sources: core/lib/GNSSEph/PackedNavBits.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60 loop_max=100000
// Packing of scaled doubles, against the contracts of the raw field functions (proved in C13_packed.cpp):
// asUint64_t returns the field, addUint64_t appends the low bits of its value.
#include <cmath>
#include "vp.h"
#include "vp_bitvector.h"
#include "PackedNavBits.hpp"
using namespace gpstk;

static const int64_t LIM = 1 << 20;
static int64_t G_calls, G_n, G_at;
static uint64_t G_v;
static uint64_t low(int64_t n) { return n < 64 ? (1ull << n) - 1 : ~0ull; }
#ifdef VP_PROOF
extern "C" uint64_t vpstub___ZNK5gpstk13PackedNavBits10asUint64_tEii(const PackedNavBits *, int s, int n)
{
   vp_ensure(n >= 1 && n <= 64, "field width 1..64");
   int64_t v = vp_ufi("field", s, n);
   vp_assume(n > 1 || (v >= 0 && v < 2));
   vp_assume(n > 31 || (v >= 0 && v < (1ll << 31)));
   vp_assume(n > 53 || (v >= 0 && v < (1ll << 53)));
   return (uint64_t)v;
}
extern "C" void vpstub___ZN5gpstk13PackedNavBits11addUint64_tEmi(PackedNavBits *t, uint64_t v, int n)
{
   vp_ensure(n >= 1 && n <= 64, "field width 1..64");
   G_calls++; G_n = n; G_v = v & low(n); G_at = t->bits_used;
   t->bits_used += n;
}
extern "C" double vpstub___ZNK5gpstk13PackedNavBits10ScaleValueEdi(const PackedNavBits *, double v, int p)
{
   double x = vp_uf2("scaled", v, (double)p);
   vp_assume(x >= -4e18 && x <= 4e18);
   return x;
}
extern "C" int64_t vpstub___ZNK5gpstk13PackedNavBits10SignExtendEii(const PackedNavBits *, int s, int n)
{
   vp_ensure(n >= 1 && n <= 64, "field width 1..64");
   int64_t v = vp_ufi("sfield", s, n);
   vp_assume(n > 53 || (v >= -(1ll << 52) && v < (1ll << 52)));
   vp_assume(n > 32 || (v >= -(1ll << 31) && v < (1ll << 31)));
   return v;
}
#define SCALED(p, v, k) vp_uf2("scaled", v, (double)(k))
#else
#define SCALED(p, v, k) (p).ScaleValue(v, k)
#endif
struct Obj
{
   PackedNavBits p;
   int at;
   Obj()
   {
      at = (int)vp_i64("used", 0, LIM);
#ifndef VP_PROOF
      at &= 1023;
      p.bits.resize(2048);
      uint64_t *w = vp_array_u64("w", 2048);
      for (int i = 0; i < 2048; i++) p.bits[i] = w[i] & 1;
#endif
      p.bits_used = at;
      G_calls = 0;
   }
   // start bit of a field to be read
   int start(const char *name)
   {
#ifdef VP_PROOF
      return (int)vp_i64(name, 0, LIM);
#else
      return (int)vp_i64(name, 0, LIM) & 1023;
#endif
   }
   uint64_t f(int s, int n) { return p.asUint64_t(s, n); }
   // the one field appended is v in n bits
   bool appended(uint64_t v, int n)
   {
#ifdef VP_PROOF
      return G_calls == 1 && G_n == n && G_at == at && G_v == (v & low(n)) && p.bits_used == at + n;
#else
      return p.bits_used == at + n && p.asUint64_t(at, n) == (v & low(n));
#endif
   }
   bool nothing()
   {
#ifdef VP_PROOF
      return G_calls == 0 && p.bits_used == at;
#else
      return p.bits_used == at;
#endif
   }
};

static const double PI_ = 3.14159265358979323846;
static void add_udouble(int n)
{
   Obj o;
   int p = (int)vp_i64("power2", -60, 60);
   double v = vp_f64("v", -1e30, 1e30);
   double x = SCALED(o.p, v, p);
   vp_assume(x >= 0 && x <= 4e18);
   int64_t k = (int64_t)x;
   bool thrown = false;
   try { o.p.addUnsignedDouble(v, n, p); } catch (InvalidParameter &) { thrown = true; }
   vp_ensure(thrown == ((uint64_t)k > low(n)), "an unsigned scaled value is rejected exactly when it does not fit");
   vp_ensure(thrown ? o.nothing() : o.appended(k, n), "the nearest unsigned integer is appended");
}
static void add_sdouble(int n, bool semi)
{
   Obj o;
   int p = (int)vp_i64("power2", -60, 60);
   double v = vp_f64("v", -1e30, 1e30);
   double x = SCALED(o.p, semi ? v / PI_ : v, p);
   vp_assume(x >= -4e18 && x <= 4e18);
   int64_t k = (int64_t)x, m = (int64_t)1 << (n - 1);
   bool thrown = false;
   try { if (semi) o.p.addDoubleSemiCircles(v, n, p); else o.p.addSignedDouble(v, n, p); } catch (InvalidParameter &) { thrown = true; }
   vp_ensure(thrown == (k < -m || k > m - 1), "a signed scaled value is rejected exactly when it does not fit");
   vp_ensure(thrown ? o.nothing() : o.appended((uint64_t)k, n), "the nearest signed integer is appended");
}
static void add_sd(int n) { add_sdouble(n, false); }
static void add_semi(int n) { add_sdouble(n, true); }
static void all(void (*f)(int), int lo, int hi)
{
   int64_t n = vp_i64("num", lo, hi);
   for (int k = lo; k <= hi; k++)
      if (n == k) f(k);
}
#define RANGE(A, B) \
extern "C" void vpproof__C13__add_unsigned_double_##A##_##B##__int_real() { all(add_udouble, A, B); } \
extern "C" void vpproof__C13__add_signed_double_##A##_##B##__int_real() { all(add_sd, A, B); } \
extern "C" void vpproof__C13__add_semi_circles_##A##_##B##__int_real() { all(add_semi, A, B); }
RANGE(1, 26)
RANGE(27, 53)
extern "C" void vpproof__C13__as_long_scaled__bv_ieee()
{
   Obj o;
   int s = o.start("start"), n = (int)vp_i64("num", 1, 32), k = (int)vp_i64("scale", 1, 2147483647);
   vp_ensure(o.p.asUnsignedLong(s, n, k) == o.p.asUnsignedLong(s, n, 1) * k, "scale multiplies an unsigned field");
   vp_ensure(o.p.asLong(s, n, k) == o.p.asLong(s, n, 1) * k, "scale multiplies a signed field");
}
extern "C" void vpproof__C13__as_sign_magnitude_scaled__int_real()
{
   Obj o;
   int s = o.start("start"), n = (int)vp_i64("num", 2, 32), k = (int)vp_i64("scale", 1, 2147483647);
   int64_t m = (int64_t)o.p.asUnsignedLong(s + 1, n - 1, k);
   vp_ensure(o.p.asSignMagLong(s, n, k) == (o.f(s, 1) == 1 ? -1 * m : m), "scale multiplies a sign-magnitude field");
}
extern "C" void vpproof__C13__as_double__bv_ieee()
{
   Obj o;
   int s = o.start("start"), n = (int)vp_i64("num", 1, 53), p = (int)vp_i64("power2", -60, 60);
   double two = std::pow(2., p);
   vp_ensure(vp_eqr(o.p.asUnsignedDouble(s, n, p), (double)o.p.asUnsignedLong(s, n, 1) * two), "unsigned field times the scale factor");
   vp_ensure(vp_eqr(o.p.asSignedDouble(s, n, p), (double)o.p.asLong(s, n, 1) * two), "signed field times the scale factor");
   vp_ensure(vp_eqr(o.p.asDoubleSemiCircles(s, n, p), (double)o.p.asLong(s, n, 1) * two * PI_), "signed field in semi-circles");
   vp_assume(n >= 2);
   vp_ensure(vp_eqr(o.p.asSignMagDouble(s, n, p), (double)o.p.asSignMagLong(s, n, 1) * two), "sign-magnitude field times the scale factor");
   vp_ensure(vp_eqr(o.p.asSignMagDoubleSemiCircles(s, n, p), (double)o.p.asSignMagLong(s, n, 1) * two * PI_), "sign-magnitude field in semi-circles");
}
static void splitd(unsigned len)
{
   Obj o;
   unsigned st[3], nb[3];
   unsigned tot = 0;
   int p = (int)vp_i64("power2", -60, 60);
   double two = std::pow(2., p);
   for (unsigned i = 0; i < len; i++)
   {
      st[i] = o.start("start");
      nb[i] = (unsigned)vp_i64("num", 1, 32);
      tot += nb[i];
   }
   vp_assume(tot <= 53);
   vp_ensure(vp_eqr(o.p.asUnsignedDouble(st, nb, len, p), (double)o.p.asUnsignedLong(st, nb, len, 1) * two), "unsigned split field times the scale factor");
   vp_ensure(vp_eqr(o.p.asSignedDouble(st, nb, len, p), (double)o.p.asLong(st, nb, len, 1) * two), "signed split field times the scale factor");
   vp_ensure(vp_eqr(o.p.asDoubleSemiCircles(st, nb, len, p), (double)o.p.asLong(st, nb, len, 1) * two * PI_), "signed split field in semi-circles");
}
extern "C" void vpproof__C13__split_double_2__bv_ieee() { splitd(2); }
extern "C" void vpproof__C13__split_double_3__bv_ieee() { splitd(3); }
