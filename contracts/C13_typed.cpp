// property: C13
// sources: core/lib/GNSSEph/PackedNavBits.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60 loop_max=100000
// The typed reading and packing functions, against the contracts of the raw field functions (proved in C13_packed.cpp):
// asUint64_t returns the field, addUint64_t appends the low bits of its value.
#include "vp.h"
#include "vp_bitvector.h"
#include "PackedNavBits.hpp"
using namespace gpstk;

static const int64_t LIM = 1 << 20;
static int64_t G_calls, G_n, G_at;
static uint64_t G_v;
static uint64_t low(int64_t n) { return n < 64 ? (1ull << n) - 1 : ~0ull; }
#ifdef VP_PROOF
extern "C" uint64_t vpstub___ZNK5gpstk13PackedNavBits10asUint64_tEii(const PackedNavBits *, int s, int n)
{
   vp_ensure(n >= 1 && n <= 64, "field width 1..64");
   return (uint64_t)vp_ufi("field", s, n) & low(n);
}
extern "C" void vpstub___ZN5gpstk13PackedNavBits11addUint64_tEmi(PackedNavBits *t, uint64_t v, int n)
{
   vp_ensure(n >= 1 && n <= 64, "field width 1..64");
   G_calls++; G_n = n; G_v = v & low(n); G_at = t->bits_used;
   t->bits_used += n;
}
#endif
struct Obj
{
   PackedNavBits p;
   int at;
   Obj()
   {
      at = (int)vp_i64("used", 0, LIM);
#ifndef VP_PROOF
      at &= 1023;
      p.bits.resize(2048);
      uint64_t *w = vp_array_u64("w", 2048);
      for (int i = 0; i < 2048; i++) p.bits[i] = w[i] & 1;
#endif
      p.bits_used = at;
      G_calls = 0;
   }
   // start bit of a field to be read
   int start(const char *name)
   {
#ifdef VP_PROOF
      return (int)vp_i64(name, 0, LIM);
#else
      return (int)vp_i64(name, 0, LIM) & 1023;
#endif
   }
   uint64_t f(int s, int n) { return p.asUint64_t(s, n); }
   // the one field appended is v in n bits
   bool appended(uint64_t v, int n)
   {
#ifdef VP_PROOF
      return G_calls == 1 && G_n == n && G_at == at && G_v == (v & low(n)) && p.bits_used == at + n;
#else
      return p.bits_used == at + n && p.asUint64_t(at, n) == (v & low(n));
#endif
   }
   bool nothing()
   {
#ifdef VP_PROOF
      return G_calls == 0 && p.bits_used == at;
#else
      return p.bits_used == at;
#endif
   }
};
static int64_t sext(uint64_t f, int n)       // two's complement value of the low n bits
{
   uint64_t top = (f >> (n - 1)) & 1;
   return top ? (int64_t)(f | ~low(n)) : (int64_t)(f & low(n));
}

extern "C" void vpproof__C13__as_long__bv_ieee()
{
   Obj o;
   int s = o.start("start"), n = (int)vp_i64("num", 1, 64);
   vp_ensure(o.p.asUnsignedLong(s, n, 1) == o.f(s, n), "unsigned value of the field");
   vp_ensure(o.p.asLong(s, n, 1) == sext(o.f(s, n), n), "two's complement value of the field");
}
extern "C" void vpproof__C13__as_sign_magnitude__bv_ieee()
{
   Obj o;
   int s = o.start("start"), n = (int)vp_i64("num", 2, 63);
   uint64_t sign = o.f(s, 1), mag = o.f(s + 1, n - 1);
   vp_ensure(o.p.asSignMagLong(s, n, 1) == (sign ? -(int64_t)mag : (int64_t)mag), "sign bit, then magnitude");
}
static void split(unsigned len)
{
   Obj o;
   unsigned st[3], nb[3];
   unsigned tot = 0;
   for (unsigned i = 0; i < len; i++)
   {
      st[i] = o.start("start");
      nb[i] = (unsigned)vp_i64("num", 1, 63);
      tot += nb[i];
   }
   vp_assume(tot <= 64);
   uint64_t v = o.f(st[0], nb[0]);
   int64_t sv = sext(v, nb[0]);
   for (unsigned i = 1; i < len; i++)
   {
      uint64_t f = o.f(st[i], nb[i]);
      v = (v << nb[i]) | f;
      sv = (int64_t)(((uint64_t)sv << nb[i]) | f);
   }
   vp_ensure(o.p.asUnsignedLong(st, nb, len, 1) == v, "the pieces of an unsigned split field are concatenated");
   vp_ensure(o.p.asLong(st, nb, len, 1) == sv, "the pieces of a signed split field are appended to its sign-extended first piece");
   if (len < 3) vp_ensure(sv == sext(v, tot), "the pieces of a signed split field are concatenated and sign-extended");
}
extern "C" void vpproof__C13__split_1__bv_ieee() { split(1); }
extern "C" void vpproof__C13__split_2__bv_ieee() { split(2); }
extern "C" void vpproof__C13__split_3__bv_ieee() { split(3); }

static void add_ulong(int n)
{
   Obj o;
   uint64_t v = vp_u64("value", 0, ~0ull);
   int k = (int)vp_i64("scale", 1, 2147483647);
   bool thrown = false;
   try { o.p.addUnsignedLong(v, n, k); } catch (InvalidParameter &) { thrown = true; }
   uint64_t q = v / (uint64_t)k;
   vp_ensure(thrown == (q > low(n)), "an unsigned value is rejected exactly when it does not fit");
   vp_ensure(thrown ? o.nothing() : o.appended(q, n), "the scaled unsigned value is appended, or nothing is");
}
static void add_long(int n)
{
   Obj o;
   int64_t v = vp_i64("value", INT64_MIN, INT64_MAX);
   int k = (int)vp_i64("scale", 1, 2147483647);
   bool thrown = false;
   try { o.p.addLong(v, n, k); } catch (InvalidParameter &) { thrown = true; }
   int64_t q = v / k, m = (int64_t)1 << (n - 1);
   vp_ensure(thrown == (q < -m || q > m - 1), "a signed value is rejected exactly when it does not fit");
   vp_ensure(thrown ? o.nothing() : o.appended((uint64_t)q, n), "the scaled signed value is appended, or nothing is");
}
static void all(void (*f)(int), int lo, int hi)
{
   int64_t n = vp_i64("num", lo, hi);
   for (int k = lo; k <= hi; k++)
      if (n == k) f(k);
}
extern "C" void vpproof__C13__add_unsigned_long__bv_ieee() { all(add_ulong, 1, 53); }
extern "C" void vpproof__C13__add_long_1_26__bv_ieee() { all(add_long, 1, 26); }
extern "C" void vpproof__C13__add_long_27_53__bv_ieee() { all(add_long, 27, 53); }

