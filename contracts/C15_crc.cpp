// property: C15
// sources: core/lib/Utilities/BinUtils.cpp
// opt: timeout=60 loop_max=100000 ctors=BinUtils gf2
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Checksums: CRC, bit reflection and counting, exclusive-or words
#include "vp.h"
#include "BinUtils.hpp"
using namespace gpstk;
using namespace gpstk::BinUtils;
// the textbook CRC: long division of the message (bit order as fed), with initial register, reflection of the result and final xor
struct Kind { int order; uint32_t poly, init, fin; bool rin, rout, augmented; };
static uint32_t spec_crc(const uint8_t *data, int n, const Kind &k)
{
   uint32_t reg = k.init, mask = k.order == 32 ? 0xffffffffu : (1u << k.order) - 1;
   if (k.augmented)   // the register starts as init in front of the message, which zeros follow
   {
      for (int i = 0; i < n * 8 + k.order; i++)
      {
         uint32_t in = i < n * 8 ? (data[i / 8] >> (k.rin ? i % 8 : 7 - i % 8)) & 1 : 0, top = (reg >> (k.order - 1)) & 1;
         reg = ((reg << 1) & mask) | in;
         reg ^= top ? k.poly : 0;
      }
   }
   else
   for (int i = 0; i < n; i++)
      for (int b = 0; b < 8; b++)
      {
         uint32_t in = (data[i] >> (k.rin ? b : 7 - b)) & 1, top = (reg >> (k.order - 1)) & 1;
         reg = (reg << 1) & mask;
         reg ^= (in ^ top) ? k.poly : 0;
      }
   if (k.rout)
   {
      uint32_t r = 0;
      for (int b = 0; b < k.order; b++)
         r |= ((reg >> b) & 1) << (k.order - 1 - b);
      reg = r;
   }
   return (reg ^ k.fin) & mask;
}
static void fill(uint8_t *d, int n)
{
   static const char *const nm[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15",
      "d16", "d17", "d18", "d19", "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30", "d31"};
   for (int i = 0; i < n; i++) d[i] = (uint8_t)vp_u64(nm[i], 0, 255);
}
static void crc(const CRCParam &p, const Kind &k, int lo, int hi)
{
   for (int n = lo; n <= hi; n++)
   {
      uint8_t d[32];
      fill(d, n);
      vp_ensure(computeCRC(d, n, p) == spec_crc(d, n, k), "the CRC of the message");
   }
}
static const Kind K_CCITT = {16, 0x1021, 0xffff, 0, false, false}, K_16 = {16, 0x8005, 0, 0, true, true},
   K_32 = {32, 0x04c11db7, 0xffffffff, 0xffffffff, true, true}, K_24Q = {24, 0x864cfb, 0, 0, false, false},
   K_24Q_known = {24, 0x823ba9, 0, 0xffffff, false, false}, K_parity = {1, 1, 0, 0, false, false}, K_8 = {8, 0x07, 0x5a, 0x55, true, false},
   K_24a = {24, 0x864cfb, 0xb704ce, 0, false, false, true}, K_12 = {12, 0x80f, 0x123, 0, false, true, true}, K_31 = {31, 0x04c11db7, 0x7fffffff, 0x7fffffff, false, false};
#define CRCS(N, P, K) \
extern "C" void vpproof__C15__##N##_short__bv_ieee() { crc(P, K, 0, 4); } \
extern "C" void vpproof__C15__##N##_8__bv_ieee() { crc(P, K, 8, 8); } \
extern "C" void vpproof__C15__##N##_32__bv_ieee() { crc(P, K, 32, 32); }
CRCS(ccitt, CRCCCITT, K_CCITT) CRCS(crc16, CRC16, K_16) CRCS(crc32, CRC32, K_32)
// CRC-24Q (IS-GPS-200: g(X) = (1 + X) p(X)): the library has p(X) and a final inversion (known finding, expected by the tests); nothing else is accepted
extern "C" void vpproof__C15__crc24q__bv_ieee()
{
   uint8_t d[4];
   fill(d, 4);
   vp_ensure(computeCRC(d, 4, CRC24Q) == spec_crc(d, 4, K_24Q), "the CRC-24Q of the message");
}
extern "C" void vpproof__C15__crc24q_known__bv_ieee()
{
   uint8_t d[8];
   fill(d, 8);
   uint32_t c = computeCRC(d, 8, CRC24Q);
   vp_ensure(c == spec_crc(d, 8, K_24Q) || c == spec_crc(d, 8, K_24Q_known), "the CRC-24Q of the message or the known deviation");
}
#define OTHER(N, K) extern "C" void vpproof__C15__##N##__bv_ieee() { crc(CRCParam(K.order, K.poly, K.init, K.fin, !K.augmented, K.rin, K.rout), K, 0, 6); }
OTHER(parity, K_parity) OTHER(crc8, K_8) OTHER(augmented24, K_24a) OTHER(augmented12, K_12) OTHER(crc31, K_31)

extern "C" void vpproof__C15__reflect__bv_ieee()
{
   uint64_t v = vp_u64("v", 0, UINT64_MAX);
   for (int n = 1; n <= 64; n++)
   {
      uint64_t r = reflect(v, n), want = 0;
      for (int i = 0; i < n; i++) want |= ((v >> i) & 1) << (n - 1 - i);
      vp_ensure(r == want, "the low bits in reverse order");
   }
}
extern "C" void vpproof__C15__count_bits__bv_ieee()
{
   uint32_t v = (uint32_t)vp_u64("v", 0, 0xffffffff);
   unsigned n = 0;
   for (int i = 0; i < 32; i++) n += (v >> i) & 1;
   vp_ensure(countBits(v) == n, "the number of ones");
}
static void xorsum(int word, int words)
{
   uint8_t d[32];
   int n = word * words;
   fill(d, n);
   std::string s(n, ' ');
   for (int i = 0; i < n; i++) s[i] = (char)d[i];
   std::string r = xorChecksum(s, word);
   vp_ensure((int)r.size() == word, "one word");
   for (int j = 0; j < word; j++)
   {
      uint8_t want = 0;
      for (int i = 0; i < words; i++) want ^= d[i * word + j];
      vp_ensure((uint8_t)r[j] == want, "the exclusive or of all words");
   }
}
extern "C" void vpproof__C15__xor_words__bv_ieee()
{
   for (int word = 1; word <= 4; word++)
      for (int words = 0; words <= 4; words++) xorsum(word, words);
   xorsum(8, 4); xorsum(16, 2);
}
extern "C" void vpproof__C15__xor_incomplete__bv_ieee()
{
   for (int word = 2; word <= 5; word++)
      for (int n = 1; n <= 11; n++)
      {
         bool thrown = false;
         std::string s(n, 'x');
         try { xorChecksum(s, word); } catch (InvalidParameter &) { thrown = true; }
         vp_ensure(thrown == (n % word != 0), "an incomplete word is rejected");
      }
}
