// Specification language of the contracts (see /verif/DESIGN.md).
// In the proof these are interpreted by the VC generator; natively (replay / bounded stand-in) by engine/vp_native.cpp.
#ifndef VP_H
#define VP_H
#include <cstdint>
extern "C" {
   // an arbitrary value of the type within [lo,hi] ("for all")
   int64_t vp_i64(const char *name, int64_t lo, int64_t hi);
   uint64_t vp_u64(const char *name, uint64_t lo, uint64_t hi);
   bool vp_bool(const char *name);
   double vp_f64(const char *name, double lo, double hi);   // not NaN
   double vp_f64_any(const char *name);                     // any double, NaN and infinities included
   // arrays of arbitrary contents and length len (unbounded)
   uint8_t *vp_array_u8(const char *name, int64_t len);
   uint32_t *vp_array_u32(const char *name, int64_t len);
   uint64_t *vp_array_u64(const char *name, int64_t len);
   double *vp_array_f64(const char *name, int64_t len);
   void vp_assume(bool c);                       // requires (in a harness) / ensures (in a callee contract)
   void vp_ensure(bool c, const char *name);     // ensures (in a harness) / requires (in a callee contract)
   void vp_cover(const char *name);              // must be reachable (vacuity guard)
   double vp_uf1(const char *name, double a);    // uninterpreted (or libm) function of the specification
   double vp_uf2(const char *name, double a, double b);
   int64_t vp_ufi(const char *name, int64_t a, int64_t b);
}
// equality of real-valued results: exact in the proof (real arithmetic), up to rounding when run natively
#ifdef VP_PROOF
static inline bool vp_eqr(double a, double b) { return a == b; }
static inline bool vp_eqt(double a, double b, double) { return a == b; }
#else
#include <cmath>
// scale: magnitude of the largest intermediate value
static inline bool vp_eqt(double a, double b, double scale)
{
   if (a == b || (a != a && b != b)) return true;
   double s = std::fabs(scale) > std::fabs(b) ? std::fabs(scale) : std::fabs(b);
   return std::fabs(a - b) <= 1e-9 * s;
}
static inline bool vp_eqr(double a, double b) { return vp_eqt(a, b, 0); }
#endif
#define VP_CAT_(a,b) a##b
#define VP_CAT(a,b) VP_CAT_(a,b)
#endif
