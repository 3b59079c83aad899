// property: C13
// sources: core/lib/GNSSEph/PackedNavBits.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp core/lib/RefTime/TimeSystem.cpp
// opt: timeout=60 loop_max=100000
// Reading and appending of raw bit fields: the contracts of asUint64_t and addUint64_t, over bit stores of any length
// assumption: std::vector<bool> behaves as a sequence of bits (contract in vp_bitvector.h, not verified)
#include "vp.h"
#include "vp_bitvector.h"
#include "PackedNavBits.hpp"

using namespace gpstk;


static const int64_t LIM = 1 << 20;

static void run_read(int n)
{
   PackedNavBits p;
   int64_t len = vp_i64("bits", 1, LIM), s = vp_i64("start", 0, LIM);
   vp_assume(s + n <= len);
   GhostBits b(p.bits, len, len, "w");
   uint64_t r = p.asUint64_t((int)s, n);
   uint64_t v = 0;
   for (int i = 0; i < n; i++)
      v = (v << 1) | (b[s + i] ? 1 : 0);
   vp_ensure(r == v, "the field is its bits, most significant first");
}
static void reads(int g)
{
   int64_t n = vp_i64("num", 1, 64);
   for (int k = g; k <= 64; k += 2)
      if (n == k) run_read(k);
}
extern "C" void vpproof__C13__read_any_field_odd_width__bv_ieee() { reads(1); }
extern "C" void vpproof__C13__read_any_field_even_width__bv_ieee() { reads(2); }

extern "C" void vpproof__C13__read_past_end_rejected__bv_ieee()
{
   PackedNavBits p;
   int64_t len = vp_i64("bits", 0, LIM), s = vp_i64("start", 0, LIM), n = vp_i64("num", 1, 64);
   vp_assume(s + n > len);
   GhostBits b(p.bits, len, len, "w");
   bool thrown = false;
   try { p.asUint64_t((int)s, (int)n); }
   catch (InvalidParameter &) { thrown = true; }
   vp_ensure(thrown, "a field that is not all there is rejected");
}

// append at any position, inside the store or at its end: the next n bits are the low n bits of the value, no other bit changes
static void run_add(int n)
{
   PackedNavBits p;
   int64_t len = vp_i64("bits", 0, LIM), s = vp_i64("used", 0, LIM), k = vp_i64("k", 0, LIM);
   vp_assume(s <= len);
   vp_assume(k < len);
   GhostBits b(p.bits, len, 2 * LIM, "w");
   p.bits_used = (int)s;
   uint64_t v = vp_u64("value", 0, ~0ull);
   bool oldk = b[k];
   p.addUint64_t(v, n);
   vp_ensure(p.bits_used == s + n, "the position advances by the field width");
   vp_ensure(b.size() >= s + n && b.size() >= len, "the store holds the appended field");
   bool ok = true;
   for (int i = 0; i < n; i++)
      ok &= b[s + i] == (((v >> (n - 1 - i)) & 1) != 0);
   vp_ensure(ok, "the appended bits are the value, most significant first");
   vp_ensure((k >= s && k < s + n) || b[k] == oldk, "no other bit changes");
}
static void adds(int g)      // widths g, g+8, ..
{
   int64_t n = vp_i64("num", 1, 64);
   for (int k = g; k <= 64; k += 8)
      if (n == k) run_add(k);
}
#define ADD(G) extern "C" void vpproof__C13__append_any_field_group##G##__bv_ieee() { adds(G); }
ADD(1) ADD(2) ADD(3) ADD(4) ADD(5) ADD(6) ADD(7) ADD(8)
