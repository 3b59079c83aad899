// property: C12
// sources: core/lib/GNSSEph/EngNav.cpp core/lib/Utilities/BinUtils.cpp
// native: core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// opt: timeout=60
#include "vp.h"
#include "EngNav.hpp"
#include "spec_lnav.h"
#include <vector>
using namespace gpstk;

extern "C" void vpproof__C12__computeParity_is_the_ICD_parity__bv_ieee()
{
   uint32_t w = vp_u64("word", 0, 0xffffffffu), p = vp_u64("prev", 0, 0xffffffffu);
   bool up = vp_bool("upright");
   uint32_t r = EngNav::computeParity(w, p, up);
   vp_ensure(r == spec_lnav_parity(spec_lnav_data(w, p, up), p), "parity bits D25..D30 of the word");
}

static void fix(bool nib)
{
   uint32_t w = vp_u64("word", 0, 0x3fffffffu), p = vp_u64("prev", 0, 0x3fffffffu);
   bool up = vp_bool("upright");
   uint32_t r = EngNav::fixParity(w, p, nib, up);
   vp_ensure(spec_lnav_ok(r, p, up), "the result passes parity");
   uint32_t keep = nib ? 0x3fffff00u : 0x3fffffc0u;
   vp_ensure((r & keep) == (w & keep), "information bits are kept");
   if (nib)
      vp_ensure((r & 3) == 0, "D29 and D30 are zero");
}
extern "C" void vpproof__C12__fixParity_plain_word__bv_ieee() { fix(false); }
extern "C" void vpproof__C12__fixParity_nib_word__bv_ieee() { fix(true); }

static void sub(uint32_t *sf)
{
   const char *nm[10] = {"w1","w2","w3","w4","w5","w6","w7","w8","w9","w10"};
   for (int i = 0; i < 10; i++)
      sf[i] = vp_u64(nm[i], 0, 0xffffffffu);
}
static bool allok(const uint32_t *sf, bool up)
{
   bool ok = true;
   for (int i = 0; i < 10; i++)
      ok = ok & spec_lnav_ok(sf[i], i ? sf[i - 1] : 0, up);
   return ok;
}
extern "C" void vpproof__C12__checkParity_accepts_iff_all_words_pass__bv_ieee()
{
   uint32_t sf[10];
   sub(sf);
   bool up = vp_bool("upright");
   vp_ensure(EngNav::checkParity(sf, up) == allok(sf, up), "accepted exactly when the ten words pass");
}
// random subframes almost never pass: build valid ones for the replay / bounded search side
extern "C" void vpproof__C12__checkParity_valid_or_damaged_subframe__bv_ieee()
{
   uint32_t sf[10];
   sub(sf);
   bool up = vp_bool("upright");
   for (int i = 0; i < 10; i++)
   {
      uint32_t prev = i ? sf[i - 1] : 0;
      sf[i] = (sf[i] & ~0x3fu) | spec_lnav_parity(spec_lnav_data(sf[i], prev, up), prev);
   }
   vp_ensure(EngNav::checkParity(sf, up), "a valid subframe is accepted");
   uint64_t k = vp_u64("damaged word", 0, 9);
   uint32_t e = vp_u64("error", 0, 0x3fffffffu);
   sf[k] ^= e;
   vp_ensure(EngNav::checkParity(sf, up) == allok(sf, up), "a damaged subframe is accepted only if every word still passes");
}
extern "C" void vpproof__C12__checkParity_vector__bv_ieee()
{
   uint32_t sf[10];
   sub(sf);
   bool up = vp_bool("upright");
   std::vector<uint32_t> v(10);
   for (int i = 0; i < 10; i++)
      v[i] = sf[i];
   vp_ensure(EngNav::checkParity(v, up) == allok(sf, up), "accepted exactly when the ten words pass");
}
extern "C" void vpproof__C12__subframeParity_is_the_upright_check__bv_ieee()
{
   uint32_t sf[10];
   sub(sf);
   long l[10];
   for (int i = 0; i < 10; i++)
      l[i] = sf[i];
   vp_ensure(EngNav::subframeParity(l) == allok(sf, true), "accepted exactly when the ten words pass");
}
// any error of one to three bits of a valid word is detected
extern "C" void vpproof__C12__errors_up_to_three_bits_are_detected__bv_ieee()
{
   uint32_t w = vp_u64("word", 0, 0x3fffffffu), p = vp_u64("prev", 0, 0x3fffffffu);
   uint64_t a = vp_u64("a", 0, 29), b = vp_u64("b", 0, 29), c = vp_u64("c", 0, 29);
   bool up = vp_bool("upright");
   uint32_t e = (1u << a) | (1u << b) | (1u << c);
   w = (w & ~0x3fu) | EngNav::computeParity(w, p, up);
   uint32_t bad = w ^ e;
   vp_ensure((bad & 0x3f) != EngNav::computeParity(bad, p, up), "the damaged word fails parity");
}
