// property: C14
// sources: core/lib/GNSSEph/EngNav.cpp core/lib/Utilities/BinUtils.cpp
// opt: timeout=60
#include "vp.h"
#include "EngNav.hpp"
using namespace gpstk;

static const double SPEC_PI = 3.14159265358979323846;

// n bits of the 300-bit subframe starting at bit b (1-based, MSB first; 30 bits per word, right justified)
static uint32_t spec_field(const uint32_t *w, int b, int n)
{
   uint32_t v = 0;
   for (int i = b - 1; i < b - 1 + n; i++)
      v = (v << 1) | ((w[i / 30] >> (29 - i % 30)) & 1);
   return v;
}
static int32_t spec_sext(uint32_t v, int n) { return (int32_t)(v << (32 - n)) >> (32 - n); }

static void words(uint32_t *w, int sfid, int svid)
{
   static const char *nm[10] = {"w1","w2","w3","w4","w5","w6","w7","w8","w9","w10"};
   for (int i = 0; i < 10; i++)
      w[i] = vp_u64(nm[i], 0, 0x3fffffffu);
   w[1] = (w[1] & ~0x700u) | (sfid << 8);
   if (svid >= 0)
      w[2] = (w[2] & ~(0x3fu << 22)) | (svid << 22);
}
struct F { int out; bool sgn; double scale; int pow2; int powpi; int b1, n1, b2, n2; };
static void check(const uint32_t *w, const double *o, const F *f, int n)
{
   for (int k = 0; k < n; k++)
   {
      uint32_t v = spec_field(w, f[k].b1, f[k].n1);
      if (f[k].n2) v = (v << f[k].n2) | spec_field(w, f[k].b2, f[k].n2);
      double x = f[k].sgn ? (double)spec_sext(v, f[k].n1 + f[k].n2) : (double)v;
      double s = f[k].scale;
      for (int i = 0; i < f[k].pow2; i++) s *= 2;
      for (int i = 0; i > f[k].pow2; i--) s /= 2;
      for (int i = 0; i < f[k].powpi; i++) s *= SPEC_PI;
      for (int i = 0; i > f[k].powpi; i--) s /= SPEC_PI;
      vp_ensure(vp_eqr(o[f[k].out], x * s), "decoded quantity");
   }
}
static const F common[5] = { {0,0,1,0,0, 1,8,0,0}, {1,0,1,0,0, 9,14,0,0}, {2,0,6,0,0, 31,17,0,0}, {3,0,1,0,0, 48,2,0,0},
                             {4,0,1,0,0, 50,3,0,0} };
// the full week nearest to 'full' that a truncated week number stands for
static bool spec_week(int64_t r, int64_t full, int64_t low, int64_t range)
{
   return (r - low) % range == 0 && r - full <= range / 2 && full - r <= range / 2;
}
static int64_t decode(int sfid, int svid, const F *f, int n, uint32_t *w, double *o)
{
   words(w, sfid, svid);
   int64_t wk = vp_i64("week", 0, 32000);
   EngNav e;
   vp_ensure(EngNav::subframeConvert(w, (short)wk, o), "the subframe is decoded");
   check(w, o, common, 5);
   check(w, o, f, n);
   return wk;
}
extern "C" void vpproof__C14__subframe1_clock__bv_real()
{
   static const F f[] = {
      {6,0,1.0,0,0, 71,2,0,0},
      {7,0,1.0,0,0, 73,4,0,0},
      {8,0,1.0,0,0, 77,6,0,0},
      {9,0,1.0,11,0, 83,2,211,8},
      {10,0,1.0,0,0, 91,1,0,0},
      {11,1,1.0,-31,0, 197,8,0,0},
      {12,0,1.0,4,0, 219,16,0,0},
      {13,1,1.0,-55,0, 241,8,0,0},
      {14,1,1.0,-43,0, 249,16,0,0},
      {15,1,1.0,-31,0, 271,22,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(1, -1, f, sizeof f / sizeof f[0], w, o);
   vp_ensure(o[5] == (double)EngNav::convertXBit(wk, spec_field(w, 61, 10), EngNav::BITS10), "full week nearest to the reference week");
}

extern "C" void vpproof__C14__subframe2_ephemeris__bv_real()
{
   static const F f[] = {
      {5,0,1.0,11,0, 61,8,0,0},
      {6,1,1.0,-5,0, 69,16,0,0},
      {7,1,1.0,-43,1, 91,16,0,0},
      {8,1,1.0,-31,1, 107,8,121,24},
      {9,1,1.0,-29,0, 151,16,0,0},
      {10,0,1.0,-33,0, 167,8,181,24},
      {11,1,1.0,-29,0, 211,16,0,0},
      {12,0,1.0,-19,0, 227,8,241,24},
      {13,0,1.0,4,0, 271,16,0,0},
      {14,0,1.0,0,0, 287,1,0,0},
      {15,0,900.0,0,0, 288,5,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(2, -1, f, sizeof f / sizeof f[0], w, o);
   (void)wk;
}

extern "C" void vpproof__C14__subframe3_ephemeris__bv_real()
{
   static const F f[] = {
      {5,1,1.0,-29,0, 61,16,0,0},
      {6,1,1.0,-31,1, 77,8,91,24},
      {7,1,1.0,-29,0, 121,16,0,0},
      {8,1,1.0,-31,1, 137,8,151,24},
      {9,1,1.0,-5,0, 181,16,0,0},
      {10,1,1.0,-31,1, 197,8,211,24},
      {11,1,1.0,-43,1, 241,24,0,0},
      {12,0,1.0,11,0, 271,8,0,0},
      {13,1,1.0,-43,1, 279,14,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(3, -1, f, sizeof f / sizeof f[0], w, o);
   (void)wk;
}

extern "C" void vpproof__C14__almanac_sf5_sv1__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,-21,0, 69,16,0,0},
      {8,0,1.0,12,0, 91,8,0,0},
      {9,1,1.0,-19,1, 99,16,0,0},
      {10,1,1.0,-38,1, 121,16,0,0},
      {11,0,1.0,0,0, 137,8,0,0},
      {12,0,1.0,-11,0, 151,24,0,0},
      {13,1,1.0,-23,1, 181,24,0,0},
      {14,1,1.0,-23,1, 211,24,0,0},
      {15,1,1.0,-23,1, 241,24,0,0},
      {16,1,1.0,-20,0, 271,8,290,3},
      {17,1,1.0,-38,0, 279,11,0,0},
      {19,0,1.0,0,0, 63,6,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(5, 1, f, sizeof f / sizeof f[0], w, o);
   vp_ensure(o[18] == (double)wk, "reference week");
}

extern "C" void vpproof__C14__almanac_sf5_sv24__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,-21,0, 69,16,0,0},
      {8,0,1.0,12,0, 91,8,0,0},
      {9,1,1.0,-19,1, 99,16,0,0},
      {10,1,1.0,-38,1, 121,16,0,0},
      {11,0,1.0,0,0, 137,8,0,0},
      {12,0,1.0,-11,0, 151,24,0,0},
      {13,1,1.0,-23,1, 181,24,0,0},
      {14,1,1.0,-23,1, 211,24,0,0},
      {15,1,1.0,-23,1, 241,24,0,0},
      {16,1,1.0,-20,0, 271,8,290,3},
      {17,1,1.0,-38,0, 279,11,0,0},
      {19,0,1.0,0,0, 63,6,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(5, 24, f, sizeof f / sizeof f[0], w, o);
   vp_ensure(o[18] == (double)wk, "reference week");
}

extern "C" void vpproof__C14__almanac_sf4_sv25__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,-21,0, 69,16,0,0},
      {8,0,1.0,12,0, 91,8,0,0},
      {9,1,1.0,-19,1, 99,16,0,0},
      {10,1,1.0,-38,1, 121,16,0,0},
      {11,0,1.0,0,0, 137,8,0,0},
      {12,0,1.0,-11,0, 151,24,0,0},
      {13,1,1.0,-23,1, 181,24,0,0},
      {14,1,1.0,-23,1, 211,24,0,0},
      {15,1,1.0,-23,1, 241,24,0,0},
      {16,1,1.0,-20,0, 271,8,290,3},
      {17,1,1.0,-38,0, 279,11,0,0},
      {19,0,1.0,0,0, 63,6,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(4, 25, f, sizeof f / sizeof f[0], w, o);
   vp_ensure(o[18] == (double)wk, "reference week");
}

extern "C" void vpproof__C14__almanac_sf4_sv32__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,-21,0, 69,16,0,0},
      {8,0,1.0,12,0, 91,8,0,0},
      {9,1,1.0,-19,1, 99,16,0,0},
      {10,1,1.0,-38,1, 121,16,0,0},
      {11,0,1.0,0,0, 137,8,0,0},
      {12,0,1.0,-11,0, 151,24,0,0},
      {13,1,1.0,-23,1, 181,24,0,0},
      {14,1,1.0,-23,1, 211,24,0,0},
      {15,1,1.0,-23,1, 241,24,0,0},
      {16,1,1.0,-20,0, 271,8,290,3},
      {17,1,1.0,-38,0, 279,11,0,0},
      {19,0,1.0,0,0, 63,6,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(4, 32, f, sizeof f / sizeof f[0], w, o);
   vp_ensure(o[18] == (double)wk, "reference week");
}

extern "C" void vpproof__C14__almanac_reference_page51__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,0,0, 77,8,0,0},
      {8,0,1.0,0,0, 91,6,0,0},
      {9,0,1.0,0,0, 97,6,0,0},
      {10,0,1.0,0,0, 103,6,0,0},
      {11,0,1.0,0,0, 109,6,0,0},
      {12,0,1.0,0,0, 121,6,0,0},
      {13,0,1.0,0,0, 127,6,0,0},
      {14,0,1.0,0,0, 133,6,0,0},
      {15,0,1.0,0,0, 139,6,0,0},
      {16,0,1.0,0,0, 151,6,0,0},
      {17,0,1.0,0,0, 157,6,0,0},
      {18,0,1.0,0,0, 163,6,0,0},
      {19,0,1.0,0,0, 169,6,0,0},
      {20,0,1.0,0,0, 181,6,0,0},
      {21,0,1.0,0,0, 187,6,0,0},
      {22,0,1.0,0,0, 193,6,0,0},
      {23,0,1.0,0,0, 199,6,0,0},
      {24,0,1.0,0,0, 211,6,0,0},
      {25,0,1.0,0,0, 217,6,0,0},
      {26,0,1.0,0,0, 223,6,0,0},
      {27,0,1.0,0,0, 229,6,0,0},
      {28,0,1.0,0,0, 241,6,0,0},
      {29,0,1.0,0,0, 247,6,0,0},
      {30,0,1.0,0,0, 253,6,0,0},
      {31,0,1.0,0,0, 259,6,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(5, 51, f, sizeof f / sizeof f[0], w, o);
   (void)wk;
}

extern "C" void vpproof__C14__iono_utc_page56__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,1,1.0,-30,0, 69,8,0,0},
      {8,1,1.0,-27,-1, 77,8,0,0},
      {9,1,1.0,-24,-2, 91,8,0,0},
      {10,1,1.0,-24,-3, 99,8,0,0},
      {11,1,1.0,11,0, 107,8,0,0},
      {12,1,1.0,14,-1, 121,8,0,0},
      {13,1,1.0,16,-2, 129,8,0,0},
      {14,1,1.0,16,-3, 137,8,0,0},
      {15,1,1.0,-30,0, 181,24,211,8},
      {16,1,1.0,-50,0, 151,24,0,0},
      {17,0,1.0,12,0, 219,8,0,0},
      {19,1,1.0,0,0, 241,8,0,0},
      {21,0,1.0,0,0, 257,8,0,0},
      {22,1,1.0,0,0, 271,8,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(4, 56, f, sizeof f / sizeof f[0], w, o);
   vp_ensure(o[18] == (double)EngNav::convertXBit(wk, spec_field(w, 227, 8), EngNav::BITS8), "full UTC reference week");
   vp_ensure(o[20] == (double)EngNav::convertXBit(wk, spec_field(w, 249, 8), EngNav::BITS8), "full leap second week");
}

extern "C" void vpproof__C14__config_health_page63__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,0,0, 69,4,0,0},
      {8,0,1.0,0,0, 73,4,0,0},
      {9,0,1.0,0,0, 77,4,0,0},
      {10,0,1.0,0,0, 81,4,0,0},
      {11,0,1.0,0,0, 91,4,0,0},
      {12,0,1.0,0,0, 95,4,0,0},
      {13,0,1.0,0,0, 99,4,0,0},
      {14,0,1.0,0,0, 103,4,0,0},
      {15,0,1.0,0,0, 107,4,0,0},
      {16,0,1.0,0,0, 111,4,0,0},
      {17,0,1.0,0,0, 121,4,0,0},
      {18,0,1.0,0,0, 125,4,0,0},
      {19,0,1.0,0,0, 129,4,0,0},
      {20,0,1.0,0,0, 133,4,0,0},
      {21,0,1.0,0,0, 137,4,0,0},
      {22,0,1.0,0,0, 141,4,0,0},
      {23,0,1.0,0,0, 151,4,0,0},
      {24,0,1.0,0,0, 155,4,0,0},
      {25,0,1.0,0,0, 159,4,0,0},
      {26,0,1.0,0,0, 163,4,0,0},
      {27,0,1.0,0,0, 167,4,0,0},
      {28,0,1.0,0,0, 171,4,0,0},
      {29,0,1.0,0,0, 181,4,0,0},
      {30,0,1.0,0,0, 185,4,0,0},
      {31,0,1.0,0,0, 189,4,0,0},
      {32,0,1.0,0,0, 193,4,0,0},
      {33,0,1.0,0,0, 197,4,0,0},
      {34,0,1.0,0,0, 201,4,0,0},
      {35,0,1.0,0,0, 211,4,0,0},
      {36,0,1.0,0,0, 215,4,0,0},
      {37,0,1.0,0,0, 219,4,0,0},
      {38,0,1.0,0,0, 223,4,0,0},
      {39,0,1.0,0,0, 229,6,0,0},
      {40,0,1.0,0,0, 241,6,0,0},
      {41,0,1.0,0,0, 247,6,0,0},
      {42,0,1.0,0,0, 253,6,0,0},
      {43,0,1.0,0,0, 259,6,0,0},
      {44,0,1.0,0,0, 271,6,0,0},
      {45,0,1.0,0,0, 277,6,0,0},
      {46,0,1.0,0,0, 283,6,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(4, 63, f, sizeof f / sizeof f[0], w, o);
   (void)wk;
}

extern "C" void vpproof__C14__text_page55__bv_real()
{
   static const F f[] = {
      {5,0,1.0,0,0, 61,2,0,0},
      {6,0,1.0,0,0, 63,6,0,0},
      {7,0,1.0,0,0, 69,8,0,0},
      {8,0,1.0,0,0, 77,8,0,0},
      {9,0,1.0,0,0, 91,8,0,0},
      {10,0,1.0,0,0, 99,8,0,0},
      {11,0,1.0,0,0, 107,8,0,0},
      {12,0,1.0,0,0, 121,8,0,0},
      {13,0,1.0,0,0, 129,8,0,0},
      {14,0,1.0,0,0, 137,8,0,0},
      {15,0,1.0,0,0, 151,8,0,0},
      {16,0,1.0,0,0, 159,8,0,0},
      {17,0,1.0,0,0, 167,8,0,0},
      {18,0,1.0,0,0, 181,8,0,0},
      {19,0,1.0,0,0, 189,8,0,0},
      {20,0,1.0,0,0, 197,8,0,0},
      {21,0,1.0,0,0, 211,8,0,0},
      {22,0,1.0,0,0, 219,8,0,0},
      {23,0,1.0,0,0, 227,8,0,0},
      {24,0,1.0,0,0, 241,8,0,0},
      {25,0,1.0,0,0, 249,8,0,0},
      {26,0,1.0,0,0, 257,8,0,0},
      {27,0,1.0,0,0, 271,8,0,0},
      {28,0,1.0,0,0, 279,8,0,0} };
   uint32_t w[10];
   double o[60];
   int64_t wk = decode(4, 55, f, sizeof f / sizeof f[0], w, o);
   (void)wk;
}

static void week(bool ten)
{
   int64_t full = vp_i64("full week", 0, 32000);
   int64_t R = ten ? 1024 : 256;
   int64_t low = vp_i64("truncated week", 0, R - 1);
   short r = EngNav::convertXBit((short)full, (short)low, ten ? EngNav::BITS10 : EngNav::BITS8);
   vp_ensure(spec_week(r, full, low, R), "nearest full week with the transmitted low bits");
   double o = (double)low;
   if (ten) EngNav::convert10bit((int)full, &o); else EngNav::convert8bit((int)full, &o);
   vp_ensure(spec_week((int64_t)o, full, low, R), "in place: nearest full week with the transmitted low bits");
}
extern "C" void vpproof__C14__week_10_bits__int_real() { week(true); }
extern "C" void vpproof__C14__week_8_bits__int_real() { week(false); }

extern "C" void vpproof__C14__pattern_of_every_subframe__bv_ieee()
{
   uint32_t w[10];
   words(w, 0, -1);
   uint64_t id = vp_u64("sfid", 0, 7), sv = vp_u64("svid", 0, 63);
   w[1] |= id << 8;
   w[2] = (w[2] & ~(0x3fu << 22)) | (sv << 22);
   int want = 0;
   if (id >= 1 && id <= 3) want = id;
   else if (id == 4 || id == 5)
   {
      if (sv <= 32) want = 4;
      else if (sv == 51) want = 5;
      else if (sv == 52 || sv == 53 || sv == 54 || sv == 57) want = 6;
      else if (sv >= 58 && sv <= 62) want = 7;
      else if (sv == 56) want = 8;
      else if (sv == 63) want = 9;
      else if (sv == 55) want = 10;
   }
   vp_ensure(EngNav::getSubframePattern(w) == want, "layout of the subframe and page");
   double o[60];
   EngNav e;
   if (want == 0)
      vp_ensure(!EngNav::subframeConvert(w, 1000, o), "a subframe without a layout is refused");
}

// page number <-> SV/page id (IS-GPS-200 table 20-V)
static int spec_svid(int sf, int page)
{
   static const int p4[26] = {0, 57,25,26,27,28,57,29,30,31,32,57,62,52,53,54,57,55,56,58,59,57,60,61,62,63};
   if (page < 1 || page > 25) return 0;
   if (sf == 5) return page == 25 ? 51 : page;
   return sf == 4 ? p4[page] : 0;
}
extern "C" void vpproof__C14__svid_of_every_page__int_ieee()
{
   int64_t sf = vp_i64("subframe", -32768, 32767), pg = vp_i64("page", -32768, 32767);
   short id = -1;
   bool ok = EngNav::sfpage2svid((short)sf, (short)pg, id);
   int want = 0;
   for (int s = 4; s <= 5; s++)
      for (int p = 1; p <= 25; p++)
         if (sf == s && pg == p) want = spec_svid(s, p);
   vp_ensure(ok == (want != 0), "only pages of subframes 4 and 5 have an id");
   if (want) vp_ensure(id == want, "SV/page id of the page");
}
extern "C" void vpproof__C14__page_of_every_svid__int_ieee()
{
   int64_t id = vp_i64("svid", -32768, 32767);
   short sf = 0, pg = 0;
   bool ok = EngNav::sv2page((short)id, sf, pg);
   bool any = false, hit = false;
   for (int s = 4; s <= 5; s++)
      for (int p = 1; p <= 25; p++)
         if (spec_svid(s, p) == id)
         {
            any = true;
            if (sf == s && pg == p) hit = true;
         }
   vp_ensure(ok == any, "exactly the assigned ids have a page");
   if (any) vp_ensure(hit, "a page that carries the id");
   short back = 0;
   if (ok)
   {
      vp_ensure(EngNav::sfpage2svid(sf, pg, back), "the page maps back");
      vp_ensure(back == id, "to the same id");
   }
}
// the HOW count (z-counts, four per TOW count) of the subframe's END: page of the 25-page frame
extern "C" void vpproof__C14__page_of_every_zcount__int_ieee()
{
   int64_t tow = vp_i64("tow", 0, 100799);
   short sf = -1, pg = -1;
   vp_ensure(EngNav::zcount2page((unsigned long)(4 * tow), sf, pg), "valid");
   int64_t s = tow % 5 == 0 ? 5 : tow % 5;
   vp_ensure(sf == s, "subframe number");
   int64_t t = (tow + 124) % 125;            // subframes since the start of the 25-page frame
   if (s >= 4) vp_ensure(pg == t / 5 + 1, "page number");
   else vp_ensure(pg == 0, "subframes 1-3 have no page");
}
extern "C" void vpproof__C14__handover_word__bv_ieee()
{
   uint32_t w = vp_u64("word", 0, 0x3fffffffu);
   uint32_t tow = spec_field(&w, 1, 17);
   vp_ensure(EngNav::getHOWTime(w) == tow * 6ul, "HOW time in seconds");
   vp_ensure(EngNav::getTOW(w) == tow, "TOW count");
   vp_ensure(EngNav::getSFID(w) == (short)spec_field(&w, 20, 3), "subframe id");
}
