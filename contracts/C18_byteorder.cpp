// property: C18
// sources: core/lib/Utilities/BinUtils.cpp
// opt: timeout=60 loop_max=100000
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Byte order conversion of binary data
#include "vp.h"
#include <cstring>
#include "BinUtils.hpp"
using namespace gpstk;
using namespace gpstk::BinUtils;
template <int N> struct Bits;
template <> struct Bits<1> { typedef uint8_t type; };
template <> struct Bits<2> { typedef uint16_t type; };
template <> struct Bits<4> { typedef uint32_t type; };
template <> struct Bits<8> { typedef uint64_t type; };
// the value as its bits
template <class T> static uint64_t raw(T v) { typename Bits<sizeof(T)>::type b; std::memcpy(&b, &v, sizeof v); return b; }
template <class T> static T value(uint64_t r) { typename Bits<sizeof(T)>::type b = r; T v; std::memcpy(&v, &b, sizeof v); return v; }
static uint64_t mask(int n) { return n == 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * n)) - 1; }
static const int LEN = 16;
// bytes around the field are arbitrary too
static void fill(uint8_t *d)
{
   static const char *const nm[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15"};
   for (int i = 0; i < LEN; i++) d[i] = (uint8_t)vp_u64(nm[i], 0, 255);
}
static uint64_t at(const uint8_t *d, int n, bool big)
{
   uint64_t v = 0;
   for (int i = 0; i < n; i++) v |= uint64_t(d[big ? n - 1 - i : i]) << (8 * i);
   return v;
}
template <class T> static void load(void (*f)(const void *, T &, unsigned), bool big)
{
   uint8_t d[LEN];
   fill(d);
   for (unsigned pos = 0; pos < 5; pos++)
   {
      T v;
      f(d, v, pos);
      vp_ensure(raw(v) == at(d + pos, sizeof(T), big), "the value of the bytes in that order");
   }
}
template <class T> static void store(void (*f)(void *, T, unsigned), bool big)
{
   uint8_t d[LEN], o[LEN];
   fill(d);
   uint64_t r = vp_u64("value", 0, mask(sizeof(T)));
   for (unsigned pos = 0; pos < 5; pos++)
   {
      std::memcpy(o, d, LEN);
      f(o, value<T>(r), pos);
      vp_ensure(at(o + pos, sizeof(T), big) == r, "the bytes of the value in that order");
      for (unsigned i = 0; i < LEN; i++)
         vp_ensure((i >= pos && i < pos + sizeof(T)) || o[i] == d[i], "nothing else is written");
   }
}
template <class T> static void strings()
{
   uint8_t d[LEN];
   fill(d);
   uint64_t r = vp_u64("value", 0, mask(sizeof(T)));
   const std::string s((const char *)d, LEN);
   for (unsigned pos = 0; pos < 5; pos++)
   {
      vp_ensure(raw(decodeVar<T>(s, pos)) == at(d + pos, sizeof(T), true), "decodes network byte order");
      vp_ensure(raw(decodeVarLE<T>(s, pos)) == at(d + pos, sizeof(T), false), "decodes little-endian byte order");
      for (int le = 0; le < 2; le++)
      {
         std::string t = s;
         if (le) encodeVarLE<T>(value<T>(r), t, pos); else encodeVar<T>(value<T>(r), t, pos);
         vp_ensure(t.size() == LEN && at((const uint8_t *)t.data() + pos, sizeof(T), !le) == r, "replaces the bytes by the encoded value");
         for (unsigned i = 0; i < LEN; i++)
            vp_ensure((i >= pos && i < pos + sizeof(T)) || (uint8_t)t[i] == d[i], "keeps the other bytes");
      }
   }
   for (int le = 0; le < 2; le++)
   {
      std::string t = s, e = le ? encodeVarLE<T>(value<T>(r)) : encodeVar<T>(value<T>(r));
      vp_ensure(e.size() == sizeof(T) && at((const uint8_t *)e.data(), sizeof(T), !le) == r, "encodes the value");
      T v = le ? decodeVarLE<T>(t) : decodeVar<T>(t);
      vp_ensure(raw(v) == at(d, sizeof(T), !le), "decodes from the head");
      vp_ensure(t.size() == LEN - sizeof(T), "removes what it decoded");
      for (unsigned i = 0; i + sizeof(T) < LEN; i++)
         vp_ensure((uint8_t)t[i] == d[i + sizeof(T)], "keeps what follows");
   }
}
#define VP(N, ...) extern "C" void vpproof__C18__##N##__bv_ieee() { __VA_ARGS__; }
#define ALL(S, T) VP(intel_to_host_##S, load<T>(buitoh##S, false)) VP(net_to_host_##S, load<T>(buntoh##S, true)) \
   VP(host_to_intel_##S, store<T>(buhtoi##S, false)) VP(host_to_net_##S, store<T>(buhton##S, true)) VP(strings_##S, strings<T>())
ALL(s, uint16_t) ALL(l, uint32_t) ALL(ll, uint64_t) ALL(ss, int16_t) ALL(sl, int32_t) ALL(sll, int64_t) ALL(f, float) ALL(d, double)
VP(strings_c, strings<unsigned char>())
