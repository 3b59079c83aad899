// LNAV parity as IS-GPS-200 table 20-XIV states it: each parity bit is the XOR of one parity bit of the previous word
// and the listed source data bits d1..d24 (independent of the repository's bit masks).
#ifndef SPEC_LNAV_H
#define SPEC_LNAV_H
#include <cstdint>
static const uint32_t spec_lnav_taps[6][16] = {
   {1,2,3,5,6,10,11,12,13,14,17,18,20,23,0,0},
   {2,3,4,6,7,11,12,13,14,15,18,19,21,24,0,0},
   {1,3,4,5,7,8,12,13,14,15,16,19,20,22,0,0},
   {2,4,5,6,8,9,13,14,15,16,17,20,21,23,0,0},
   {1,3,5,6,7,9,10,14,15,16,17,18,21,22,24,0},
   {3,5,6,8,9,10,11,13,15,19,22,23,24,0,0,0} };
// words are right justified 30-bit words: D1 is bit 29, D30 is bit 0
static inline uint32_t spec_bit(uint32_t w, unsigned d) { return (w >> (30 - d)) & 1; }
static inline uint32_t spec_lnav_parity(uint32_t data, uint32_t prev)
{
   static const unsigned star[6] = {29, 30, 29, 30, 30, 29};
   uint32_t r = 0;
   for (int k = 0; k < 6; k++)
   {
      uint32_t b = spec_bit(prev, star[k]);
      for (int j = 0; j < 16; j++)
         if (spec_lnav_taps[k][j]) b ^= spec_bit(data, spec_lnav_taps[k][j]);
      r = (r << 1) | b;
   }
   return r;
}
// source data of a received word
static inline uint32_t spec_lnav_data(uint32_t w, uint32_t prev, bool upright)
{
   return (!upright && (prev & 1)) ? ~w : w;
}
static inline bool spec_lnav_ok(uint32_t w, uint32_t prev, bool upright)
{
   return (w & 0x3f) == spec_lnav_parity(spec_lnav_data(w, prev, upright), prev);
}
#endif
