// Contract of std::vector<bool> (a library dependency, assumed): a sequence of bits of any length. In the proofs element i is
// bit 0 of word i of the ghost array the vector's begin pointer designates, and the end pointer delimits the length; every access must be
// within the length. Natively the real std::vector<bool> runs.
#ifndef VP_BITVECTOR_H
#define VP_BITVECTOR_H
#include <vector>
#include "vp.h"
struct GhostBits
{
   std::vector<bool> &v;
   uint64_t *keep0, *keep1, *w;
   unsigned keepo;
   int64_t len, cap;
   GhostBits(std::vector<bool> &x, int64_t n, int64_t capacity, const char *name) : v(x), len(n), cap(capacity)
   {
      w = vp_array_u64(name, capacity);
#ifdef VP_PROOF
      keep0 = (uint64_t*)v._M_impl._M_start._M_p;
      keep1 = (uint64_t*)v._M_impl._M_finish._M_p;
      keepo = v._M_impl._M_finish._M_offset;
      v._M_impl._M_start._M_p = (unsigned long*)w;
      v._M_impl._M_finish._M_p = (unsigned long*)w + n;
      v._M_impl._M_finish._M_offset = 0;
#else
      v.clear();
      for (int64_t i = 0; i < n; i++) v.push_back(w[i] & 1);
#endif
   }
   int64_t size() const
   {
#ifdef VP_PROOF
      return (uint64_t*)v._M_impl._M_finish._M_p - w;
#else
      return v.size();
#endif
   }
   bool operator[](int64_t i) const
   {
#ifdef VP_PROOF
      return w[i] & 1;
#else
      return v[i];
#endif
   }
   ~GhostBits()
   {
#ifdef VP_PROOF
      v._M_impl._M_start._M_p = (unsigned long*)keep0;
      v._M_impl._M_finish._M_p = (unsigned long*)keep1;
      v._M_impl._M_finish._M_offset = keepo;
#endif
   }
};
#ifdef VP_PROOF
static inline uint64_t vp_bits_len(const std::vector<bool> *t) { return t->_M_impl._M_finish._M_p - t->_M_impl._M_start._M_p; }
extern "C" uint64_t vpstub___ZNKSt6vectorIbSaIbEE4sizeEv(const std::vector<bool> *t) { return vp_bits_len(t); }
extern "C" bool vpstub___ZNKSt6vectorIbSaIbEEixEm(const std::vector<bool> *t, uint64_t i)
{
   vp_ensure(i < vp_bits_len(t), "a bit is read within the bit store");
   return t->_M_impl._M_start._M_p[i] & 1;
}
extern "C" std::_Bit_reference vpstub___ZNSt6vectorIbSaIbEEixEm(std::vector<bool> *t, uint64_t i)
{
   vp_ensure(i < vp_bits_len(t), "a bit is accessed within the bit store");
   return std::_Bit_reference(t->_M_impl._M_start._M_p + i, 1);
}
// bits added by resize are unspecified (weaker than the library's)
extern "C" void vpstub___ZNSt6vectorIbSaIbEE6resizeEmb(std::vector<bool> *t, uint64_t n, bool)
{
   t->_M_impl._M_finish._M_p = t->_M_impl._M_start._M_p + n;
}
#endif
#endif
