// property: C20
// sources: core/lib/FileHandling/Binex/BinexData.cpp core/lib/Utilities/BinUtils.cpp
// opt: timeout=60 loop_max=100000 ctors=BinUtils|BinexData gf2
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// BINEX: variable-length integers, records
// assumption: std::istream::read/gcount/good/tellg and std::ostream::write/good/fail/bad transfer bytes in order and report a short read (a ghost buffer in the proof; the real streams when replayed)
#include "vp.h"
#include <cstring>
#include <sstream>
#include "BinexData.hpp"
using namespace gpstk;
typedef BinexData::UBNXI U;
typedef BinexData::MGFZI M;
static const size_t CAP = 64;
#ifdef VP_PROOF
struct Ghost { uint8_t d[CAP]; size_t len, pos, count; bool ok; };
static Ghost g;
extern "C"
{
   std::istream &vpstub___ZNSi4readEPcl(std::istream &s, char *b, std::streamsize n)
   {
      size_t k = (size_t)n <= g.len - g.pos ? (size_t)n : g.len - g.pos;
      for (size_t i = 0; i < k; i++) b[i] = g.d[g.pos + i];
      g.pos += k; g.count = k;
      if (k < (size_t)n) g.ok = false;
      return s;
   }
   std::streamsize vpstub___ZNKSi6gcountEv(const std::istream &) { return g.count; }
   std::streampos vpstub___ZNSi5tellgEv(std::istream &) { return std::streampos(g.ok ? (long)g.pos : -1L); }
   bool vpstub___ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv(const void *) { return g.ok; }
   bool vpstub___ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv(const void *) { return !g.ok; }
   bool vpstub___ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv(const void *) { return false; }
   bool vpstub___ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv(const void *) { return !g.ok; }
   std::ostream &vpstub___ZNSo5writeEPKcl(std::ostream &s, const char *b, std::streamsize n)
   {
      vp_ensure(g.len + (size_t)n <= CAP, "fits the ghost buffer");
      for (long i = 0; i < n; i++) g.d[g.len + i] = b[i];
      g.len += n;
      return s;
   }
}
struct Stream
{
   long *vptr; long vt[4]; long rest[60];
   Stream() { for (int i = 0; i < 4; i++) vt[i] = 0; vptr = vt + 3; g.len = g.pos = g.count = 0; g.ok = true; }
   operator std::istream &() { return *reinterpret_cast<std::istream *>(this); }
   operator std::ostream &() { return *reinterpret_cast<std::ostream *>(this); }
   void set(const uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) g.d[i] = d[i]; g.len = n; }
   size_t size() { return g.len; }
   uint8_t at(size_t i) { return g.d[i]; }
   void put(size_t i, uint8_t b) { g.d[i] = b; }
   size_t pos() { return g.pos; }
};
#else
struct Stream
{
   std::stringstream s;
   operator std::istream &() { return s; }
   operator std::ostream &() { return s; }
   void set(const uint8_t *d, size_t n) { s.str(std::string((const char *)d, n)); }
   size_t size() { return s.str().size(); }
   uint8_t at(size_t i) { return s.str()[i]; }
   void put(size_t i, uint8_t b) { std::string t = s.str(); t[i] = b; s.str(t); }
   size_t pos() { return s.tellg(); }
};
#endif
static void fill(uint8_t *d, int n)
{
   static const char *const nm[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15"};
   for (int i = 0; i < n; i++) d[i] = (uint8_t)vp_u64(nm[i], 0, 255);
}
template <class F> static bool throws(F f)
{
   try { f(); } catch (Exception &) { return true; }
   return false;
}
// ---- unsigned integers: 7 bits a byte, the high bit says that another byte follows; the fourth byte has 8 bits
static const uint64_t UMAX = 536870911;
static int ulen(uint64_t v) { return v < (1u << 7) ? 1 : v < (1u << 14) ? 2 : v < (1u << 21) ? 3 : 4; }
static uint8_t ubyte(uint64_t v, int n, int i, bool le)
{
   uint64_t b;
   if (le) b = i == 3 ? v >> 21 : (v >> (7 * i)) & 0x7f;
   else if (n == 4) b = i == 3 ? v & 0xff : (v >> (8 + 7 * (2 - i))) & 0x7f;
   else b = (v >> (7 * (n - 1 - i))) & 0x7f;
   return (uint8_t)(i == 3 || i == n - 1 ? b : b | 0x80);
}
static const uint64_t ULO[] = {0, 0, 128, 16384, 2097152, 536870912};
static void ubnxi_encode(int n, bool le)
{
   uint64_t v = vp_u64("value", ULO[n], ULO[n + 1] - 1);
   U u(v);
   vp_ensure((int)u.getSize() == n && (unsigned long)u == v, "the length the value needs");
   for (size_t off = 0; off <= 2; off += 2)
   {
      std::string s("abc");
      vp_ensure((int)u.encode(s, off, le) == n, "encoded length");
      vp_ensure(s.size() == (off + n > 3 ? off + n : 3), "replaces the bytes at the offset");
      for (int i = 0; i < n; i++)
         vp_ensure((uint8_t)s[off + i] == ubyte(v, n, i, le), "encoded bytes");
      for (size_t i = 0; i < s.size(); i++)
         vp_ensure((i >= off && i < off + n) || s[i] == "abc"[i], "keeps the other bytes");
      s += (char)vp_u64("next", 0, 255);
      U d;
      vp_ensure((int)d.decode(s, off, le) == n && (unsigned long)d == v && (int)d.getSize() == n, "decodes what was encoded");
   }
}
#define UB(F, N) extern "C" void vpproof__C20__##F##_##N##_little__bv_ieee() { F(N, true); } extern "C" void vpproof__C20__##F##_##N##_big__bv_ieee() { F(N, false); }
UB(ubnxi_encode, 1) UB(ubnxi_encode, 2) UB(ubnxi_encode, 3) UB(ubnxi_encode, 4)
static void ubnxi_decode(int n, bool le)
{
   uint8_t b[6];
   fill(b, 6);
   for (size_t off = 0; off < 3; off += 2)
   {
      for (int i = 0; i < n && i < 3; i++)
         b[off + i] = i == n - 1 ? b[off + i] & 0x7f : b[off + i] | 0x80;
      const std::string s((const char *)b, 6);
      uint64_t v = 0;
      for (int i = 0; i < n; i++)
      {
         uint64_t x = i == 3 ? b[off + i] : b[off + i] & 0x7f;
         if (le) v |= x << (7 * i); else v = (v << (i == 3 ? 8 : 7)) | x;
      }
      U d;
      vp_ensure((int)d.decode(s, off, le) == n, "consumes up to the byte that ends it");
      vp_ensure((unsigned long)d == v && (int)d.getSize() == n, "the value of the bytes");
   }
   const std::string s((const char *)b, 6);
   U d;
   std::string t(s);
   vp_ensure(throws([&] { d.decode(s, 7, le); }) && throws([&] { d.encode(t, 7, le); }), "an offset beyond the buffer is refused");
}
UB(ubnxi_decode, 1) UB(ubnxi_decode, 2) UB(ubnxi_decode, 3) UB(ubnxi_decode, 4)
extern "C" void vpproof__C20__ubnxi_range__bv_ieee()
{
   uint64_t v = vp_u64("value", 0, ~uint64_t(0));
   vp_ensure(throws([&] { U u(v); }) == (v > UMAX), "values of 30 bits and more are refused");
   BinexData r;
   uint32_t id = (uint32_t)vp_u64("id", 0, 0xffffffffu);
   bool t = throws([&] { r.setRecordID(id); });
   vp_ensure(t == (id > UMAX) && (t || r.getRecordID() == id), "record numbers of 30 bits and more are refused");
}
static void ubnxi_stream(int n, bool le)
{
   uint64_t v = vp_u64("value", ULO[n], ULO[n + 1] - 1);
   U u(v), d;
   Stream st;
   std::string log("x"), log2("yz");
   vp_ensure((int)u.write(st, &log, 1, false, le) == n && (int)st.size() == n, "writes the encoded bytes");
   for (int i = 0; i < n; i++) vp_ensure(st.at(i) == ubyte(v, n, i, le) && (uint8_t)log[1 + i] == ubyte(v, n, i, le), "writes the encoding");
   vp_ensure((int)d.read(st, &log2, 1, false, le) == n && (unsigned long)d == v && (int)d.getSize() == n, "reads what was written");
   for (int i = 0; i < n; i++) vp_ensure((uint8_t)log2[1 + i] == ubyte(v, n, i, le), "keeps the bytes read");
   vp_ensure(throws([&] { d.read(st, 0, 0, false, le); }), "the end of the stream is an error");
}
UB(ubnxi_stream, 1) UB(ubnxi_stream, 2) UB(ubnxi_stream, 3) UB(ubnxi_stream, 4)
// ---- signed integers: a nibble with the sign and the number of bytes less one, then the magnitude less an offset
static const int64_t MOFF[] = {0, 14, 4109, 1052684, 269488139, 68988964874LL, 17661175009289LL, 4521260802379784LL};
static const int64_t MMAX = 1157442765409226759LL;
static int mlen(int64_t a)
{
   if (a < 16) return 1;
   int n = 8;
   while (n > 2 && a <= MOFF[n - 1]) n--;
   return n;
}
static uint64_t mword(int64_t v, int n, bool le)
{
   uint64_t a = (uint64_t)(v < 0 ? -v : v) - MOFF[n - 1], f = (v < 0 ? 8 : 0) | (n - 1);
   return le ? (a << 4) | f : (f << (8 * n - 4)) | a;
}
static uint8_t mbyte(uint64_t w, int n, int i, bool le) { return (uint8_t)(w >> (8 * (le ? i : n - 1 - i))); }
// one proof per size
static void mgfzi(int n)
{
   int64_t lo = n == 1 ? 0 : n == 2 ? 16 : MOFF[n - 1] + 1, hi = n == 1 ? 15 : n == 8 ? MMAX : MOFF[n];
   int64_t v = vp_i64("magnitude", lo, hi);
   if (vp_bool("negative")) v = -v;
   for (int l = 0; l < 2; l++)
   {
      bool le = l;
      M m(v);
      vp_ensure((int)m.getSize() == n && (long long)m == v, "the length the value needs");
      uint64_t w = mword(v, n, le);
      for (size_t off = 0; off <= 2; off += 2)
      {
         std::string s("abc");
         vp_ensure((int)m.encode(s, off, le) == n, "encoded length");
         vp_ensure(s.size() == (off + n > 3 ? off + n : 3), "replaces the bytes at the offset");
         for (int i = 0; i < n; i++)
            vp_ensure((uint8_t)s[off + i] == mbyte(w, n, i, le), "encoded bytes");
         for (size_t i = 0; i < s.size(); i++)
            vp_ensure((i >= off && i < off + n) || s[i] == "abc"[i], "keeps the other bytes");
         s += (char)vp_u64("next", 0, 255);
         M d;
         vp_ensure((int)d.decode(s, off, le) == n && (long long)d == v && (int)d.getSize() == n, "decodes what was encoded");
      }
      Stream st;
      std::string log("x"), log2("yz");
      vp_ensure((int)m.write(st, &log, 1, false, le) == n && (int)st.size() == n && (int)log.size() == n + 1, "writes the encoded bytes");
      for (int i = 0; i < n; i++) vp_ensure(st.at(i) == mbyte(w, n, i, le) && (uint8_t)log[1 + i] == mbyte(w, n, i, le), "writes the encoding");
      M d;
      vp_ensure((int)d.read(st, &log2, 1, false, le) == n && (long long)d == v && (int)d.getSize() == n, "reads what was written");
      for (int i = 0; i < n; i++) vp_ensure((uint8_t)log2[1 + i] == mbyte(w, n, i, le), "keeps the bytes read");
   }
}
#define MG(N) extern "C" void vpproof__C20__mgfzi_##N##__bv_ieee() { mgfzi(N); }
MG(1) MG(2) MG(3) MG(4) MG(5) MG(6) MG(7) MG(8)
extern "C" void vpproof__C20__mgfzi_decode__bv_ieee()
{
   uint8_t b[9];
   fill(b, 9);
   bool le = vp_bool("little endian");
   const std::string s((const char *)b, 9);
   for (size_t off = 0; off < 2; off++)
   {
      int f = le ? b[off] & 15 : b[off] >> 4, n = (f & 7) + 1;
      for (int k = 1; k <= 8; k++)
      {
         if (k != n) continue;
         uint64_t a = 0;
         for (int i = 0; i < k; i++) a |= (uint64_t)b[off + (le ? i : k - 1 - i)] << (8 * i);
         a = le ? a >> 4 : a & ((uint64_t(1) << (8 * k - 4)) - 1);
         int64_t v = (f & 8) ? -(int64_t)(a + MOFF[k - 1]) : a + MOFF[k - 1];
         M d;
         vp_ensure((int)d.decode(s, off, le) == k, "consumes the bytes the first nibble tells");
         if (k == 1 && (f & 8) && a == 0) vp_ensure(d.getSize() == 0, "minus zero: no value");
         else vp_ensure((long long)d == v && (int)d.getSize() == k, "the value of the bytes");
      }
   }
   std::string t(s);
   M d;
   vp_ensure(throws([&] { d.decode(s, 10, le); }) && throws([&] { d.encode(t, 10, le); }) && throws([&] { d.decode(s, 9, le); }), "an offset beyond the buffer is refused");
}
static void mgfzi_short(bool le)
{
   uint8_t b[8];
   fill(b, 8);
   uint8_t b0 = b[0];
   for (int n = 1; n <= 8; n++)
   {
      b[0] = le ? (b0 & 0xf8) | (n - 1) : (b0 & 0x8f) | ((n - 1) << 4);
      for (int k = 1; k < n; k++)
      {
         const std::string s((const char *)b, k);
         M d;
         vp_ensure(throws([&] { d.decode(s, 0, le); }), "an integer cut short is refused");
         Stream st;
         st.set(b, k);
         M r;
         vp_ensure(throws([&] { r.read(st, 0, 0, false, le); }), "an integer cut short in a stream is refused");
      }
   }
}
extern "C" void vpproof__C20__mgfzi_short_little__bv_ieee() { mgfzi_short(true); }
extern "C" void vpproof__C20__mgfzi_short_big__bv_ieee() { mgfzi_short(false); }
extern "C" void vpproof__C20__mgfzi_novalue__bv_ieee()
{
   bool le = vp_bool("little endian");
   uint8_t b[2];
   b[0] = le ? 0x08 : 0x80;
   b[1] = (uint8_t)vp_u64("d1", 0, 255);
   std::string s((const char *)b, 2), t;
   M d(1);
   vp_ensure(d.decode(s, 0, le) == 1 && d.getSize() == 0, "reads the absence of a value");
   vp_ensure(d.encode(t, 0, le) == 1 && t.size() == 1 && (uint8_t)t[0] == b[0], "writes the absence of a value");
}
extern "C" void vpproof__C20__mgfzi_range__bv_ieee()
{
   int64_t v = vp_i64("value", -INT64_MAX, INT64_MAX);
   vp_ensure(throws([&] { M u(v); }) == (v > MMAX || v < -MMAX), "larger values are refused");
}
// ---- records
extern "C" void vpproof__C20__flags__bv_ieee()
{
   uint8_t f = (uint8_t)vp_u64("flags", 0, 255);
   BinexData r;
   vp_ensure(r.getRecordFlags() == 0x20, "forward, big endian, regular CRC unless told otherwise");
   r.setRecordFlags(f);
   vp_ensure(r.getRecordFlags() == (f & 0x38), "keeps the flags that have a meaning");
   uint8_t tail = 1, head = 1, want = (f & 0x38) | ((f & 8) ? 0xc0 : 0xc2);
   vp_ensure(r.syncByte == want, "the synchronization byte");
   vp_ensure(r.isHeadSyncByteValid(r.syncByte, tail), "is recognised");
   if (f & 0x10)
      vp_ensure(tail != 0 && r.isTailSyncByteValid(tail, head) && head == want, "its tail byte leads back to it");
   else
      vp_ensure(tail == 0, "no tail byte");
   uint8_t any = (uint8_t)vp_u64("byte", 0, 255);
   bool valid = any == 0xc2 || any == 0xe2 || any == 0xc8 || any == 0xe8 || any == 0xd2 || any == 0xf2 || any == 0xd8 || any == 0xf8;
   vp_ensure(r.isHeadSyncByteValid(any, tail) == valid, "other bytes do not start a record");
   bool tv = any == 0xb4 || any == 0xb0 || any == 0xe4 || any == 0xe0;
   vp_ensure(r.isTailSyncByteValid(any, head) == tv, "other bytes do not end a record");
}
extern "C" void vpproof__C20__crc_length__bv_ieee()
{
   uint64_t n = vp_u64("length", 0, ~uint64_t(0));
   BinexData r;
   r.setRecordFlags((uint8_t)vp_u64("flags", 0, 255));
   size_t c = r.getCRCLength(n);
   bool enh = r.getRecordFlags() & 8;
   vp_ensure(c == (n >= 1048576 ? 16 : enh ? (n < 128 ? 2 : 4) : n < 128 ? 1 : n < 4096 ? 2 : 4), "checksum length by record length");
}
// message contents and the cursor
static void message(int n, bool le)
{
   BinexData r;
   r.setRecordFlags((uint8_t)vp_u64("flags", 0, 31) | (le ? 0 : 0x20));
   uint64_t v = vp_u64("unsigned", ULO[n], ULO[n + 1] - 1);
   int64_t m = n & 1 ? vp_i64("signed", 16, 4109) : vp_i64("signed", -MOFF[n + 1], -MOFF[n] - 1);
   uint8_t b[3];
   fill(b, 3);
   size_t off = 0;
   r.updateMessageData(off, U(v));
   vp_ensure((int)off == n, "the cursor moves past the integer");
   r.updateMessageData(off, std::string((const char *)b, 3), 3);
   vp_ensure((int)off == n + 3, "the cursor moves past the bytes");
   r.updateMessageData(off, M(m));
   r.updateMessageData(off, (const char *)b, 2);
   vp_ensure(r.getMessageData().size() == off && r.getMessageLength() == off, "all of it is in the message");
   size_t o = 0;
   U u;
   M k;
   std::string s, s2;
   r.extractMessageData(o, u);
   r.extractMessageData(o, s, 3);
   r.extractMessageData(o, k);
   r.extractMessageData(o, s2, 2);
   vp_ensure((unsigned long)u == v && (long long)k == m, "the integers are extracted");
   vp_ensure(s.size() == 3 && s2.size() == 2, "the bytes are extracted");
   for (int i = 0; i < 3; i++) vp_ensure((uint8_t)s[i] == b[i] && (i == 2 || (uint8_t)s2[i] == b[i]), "unchanged");
   vp_ensure(o == off, "the cursor moves the same way");
   vp_ensure(throws([&] { size_t q = off - 1; r.extractMessageData(q, s, 2); }) && throws([&] { size_t q = off + 1; r.extractMessageData(q, u); })
      && throws([&] { size_t q = off + 1; r.extractMessageData(q, k); }), "nothing is extracted beyond the message");
   vp_ensure(throws([&] { size_t q = 0; r.updateMessageData(q, s2, 3); }), "no more than the data there is");
}
UB(message, 1) UB(message, 2) UB(message, 3) UB(message, 4)
template <class T> static void integers(uint64_t lo, uint64_t hi, bool le)
{
   BinexData r;
   r.setRecordFlags((uint8_t)vp_u64("flags", 0, 31) | (le ? 0 : 0x20));
   T v = (T)vp_u64("value", lo, hi), w = 0;
   size_t off = 0, o = 0;
   r.updateMessageData(off, v, sizeof v);
   vp_ensure(off == sizeof v && r.getMessageLength() == sizeof v, "the cursor moves past the number");
   bool be = r.getRecordFlags() & 0x20;
   for (size_t i = 0; i < sizeof v; i++)
      vp_ensure((uint8_t)r.msg[i] == (uint8_t)((uint64_t)v >> (8 * (be ? sizeof v - 1 - i : i))), "in the byte order of the record");
   r.extractMessageData(o, w, sizeof w);
   vp_ensure(w == v && o == off, "is extracted again");
}
extern "C" void vpproof__C20__number8__bv_ieee() { integers<uint8_t>(0, 255, true); integers<uint8_t>(0, 255, false); }
extern "C" void vpproof__C20__number16__bv_ieee() { integers<uint16_t>(0, 65535, true); integers<uint16_t>(0, 65535, false); }
extern "C" void vpproof__C20__number32__bv_ieee() { integers<uint32_t>(0, 0xffffffffu, true); integers<uint32_t>(0, 0xffffffffu, false); }
extern "C" void vpproof__C20__number64__bv_ieee() { integers<uint64_t>(0, ~uint64_t(0), true); integers<uint64_t>(0, ~uint64_t(0), false); }
static void make(BinexData &r, int flags, int n, uint32_t id, uint8_t *b)
{
   r.setRecordFlags(flags);
   r.setRecordID(id);
   size_t off = 0;
   r.updateMessageData(off, (const char *)b, n);
}
static const int MAXN = 6;
static void record(int flags, int idn)
{
   uint8_t b[MAXN];
   fill(b, MAXN);
   uint32_t id = (uint32_t)vp_u64("id", ULO[idn], ULO[idn + 1] - 1);
   int top = (flags & 8) && idn > 2 ? 2 : MAXN;   // (the CRC of longer ones takes the solver long)
   for (int n = 1; n <= top; n += top - 1)
   {
      BinexData r, q, x;
      make(r, flags, n, id, b);
      Stream st;
      r.putRecord(st);
      size_t len = st.size();
      vp_ensure(len == r.getRecordSize(), "the size announced");
      bool le = !(flags & 0x20);
      int h = idn;
      vp_ensure(st.at(0) == r.syncByte && st.at(1 + h) == n, "starts with the synchronization byte, the record number and the length");
      for (int i = 0; i < h; i++) vp_ensure(st.at(1 + i) == ubyte(id, h, i, le), "the record number");
      for (int i = 0; i < n; i++) vp_ensure(st.at(2 + h + i) == b[i], "the message");
      q.setRecordID(7);
      vp_ensure(q.getRecord(st) == len, "reads as many bytes as were written");
      vp_ensure(q == r && q.getRecordID() == id && (int)q.getMessageLength() == n, "reads the record back");
      for (int i = 0; i < n; i++) vp_ensure((uint8_t)q.msg[i] == b[i], "reads the message back");
      if (flags & 0x10)
      {
         uint8_t t[CAP];
         for (size_t i = 0; i < len; i++) t[i] = st.at(len - 1 - i);
         Stream rv;
         rv.set(t, len);
         x.getRecord(rv);
         vp_ensure(x == r && (int)x.getMessageLength() == n, "reads the record back to front");
         for (int i = 0; i < n; i++) vp_ensure((uint8_t)x.msg[i] == b[i], "reads the message back to front");
      }
   }
}
#define REC1(N, F, I) extern "C" void vpproof__C20__record_##N##_##I##__bv_ieee() { record(F, I); }
#define REC(N, F) REC1(N, F, 1) REC1(N, F, 2) REC1(N, F, 3) REC1(N, F, 4)
REC(little, 0) REC(big, 0x20) REC(little_enhanced, 8) REC(big_enhanced, 0x28)
REC(reverse_little, 0x10) REC(reverse_big, 0x30) REC(reverse_little_enhanced, 0x18) REC(reverse_big_enhanced, 0x38)
// an altered byte of the message or the checksum is noticed
static void damaged(int flags)
{
   uint8_t b[4];
   fill(b, 4);
   uint8_t delta = (uint8_t)vp_u64("delta", 1, 255);
   for (int k = 0; k < 5; k++)
   {
      BinexData r, q;
      make(r, flags, 4, 5, b);
      Stream st;
      r.putRecord(st);
      st.put(3 + k, st.at(3 + k) ^ delta);
      vp_ensure(throws([&] { q.getRecord(st); }), "a damaged record is refused");
   }
}
extern "C" void vpproof__C20__damaged__bv_ieee() { damaged(0x20); }
extern "C" void vpproof__C20__damaged_enhanced__bv_ieee() { damaged(0x28); }
extern "C" void vpproof__C20__truncated__bv_ieee()
{
   uint8_t b[4];
   fill(b, 4);
   BinexData r, x;
   make(r, 0x20, 4, 300, b);
   Stream st;
   r.putRecord(st);
   uint8_t t[CAP];
   size_t len = st.size();
   for (size_t i = 0; i < len; i++) t[i] = st.at(i);
   for (size_t k = 1; k < len; k++)
   {
      Stream s;
      s.set(t, k);
      BinexData q;
      vp_ensure(throws([&] { q.getRecord(s); }), "a record cut short is refused");
   }
}
