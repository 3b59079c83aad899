NAV = 'core/lib/GNSSEph/EngNav.cpp'
PNB = 'core/lib/GNSSEph/PackedNavBits.cpp'
TC = 'core/lib/TimeHandling/TimeConverters.cpp'
plant('c13a', 'C13', [[PNB, '''      out /= scale;

      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
      if ( ( out > test ) || ( out < -( test + 1 ) ) )''', '''      out /= scale;

      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
      if ( ( out > test ) || ( out < -test ) )''']],
      'packing the most negative value of a field width', 'addLong rejects the most negative representable value',
      r'''#include "PackedNavBits.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   for (int n = 2; n < 50; n++)
   {
      PackedNavBits p;
      long v = -(1L << (n - 1));
      try { p.addLong(v, n, 1); } catch (Exception &e) { printf("rejected %ld in %d bits\n", v, n); return 1; }
      if (p.asLong(0, n, 1) != v) return 1;
   }
   return 0;
}
''')
plant('c13b', 'C13', [[PNB, '''      unsigned long ulong = (unsigned long) asUint64_t(startBits[0], numBits[0]);
      uint64_t temp;
      for(unsigned int i = 1; i < len; i++){
         temp = asUint64_t(startBits[i], numBits[i]);
         ulong <<= numBits[i];''', '''      unsigned long ulong = (unsigned long) asUint64_t(startBits[0], numBits[0]);
      uint64_t temp;
      for(unsigned int i = 1; i < len; i++){
         temp = asUint64_t(startBits[i], numBits[i]);
         ulong <<= numBits[len-1];''']],
      'an unsigned field split into three or more pieces of different width', 'the pieces of a split field are put together at the wrong places',
      r'''#include "PackedNavBits.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   PackedNavBits p;
   p.addUnsignedLong(5, 3, 1); p.addUnsignedLong(77, 8, 1); p.addUnsignedLong(9, 4, 1);
   unsigned st[3] = {0, 3, 11}, nb[3] = {3, 8, 4};
   return p.asUnsignedLong(st, nb, 3, 1) == ((5u << 12) | (77u << 4) | 9u) ? 0 : 1;
}
''')
plant('c01a', 'C01', [[TC, '''         if(iyear <= 0)''', '''         if(iyear < 0)''']],
      'a Julian day in 1 BC', 'dates of the year 1 BC come out as year 0',
      r'''#include "TimeConverters.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   for (long jd = 1721058 - 800; jd < 1721058 + 800; jd++)
   {
      int y, m, d;
      convertJDtoCalendar(jd, y, m, d);
      if (y == 0) { printf("%ld year 0\n", jd); return 1; }
   }
   return 0;
}
''')
plant('c01b', 'C01', [[TC, '''              mm > 2 &&
              mm < 9)      ||''', '''              mm > 2 &&
              mm < 8)      ||''']],
      'a date in August of 1700, 1800, 1900, 2100..', 'the Julian day of August dates of non-leap century years is one too high',
      r'''#include "TimeConverters.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   for (long jd = 2299200; jd < 2600000; jd++)
   {
      int y, m, d;
      convertJDtoCalendar(jd, y, m, d);
      if (convertCalendarToJD(y, m, d) != jd) { printf("%ld %d %d %d\n", jd, y, m, d); return 1; }
   }
   return 0;
}
''')
plant('c14a', 'C14', [[NAV, '''      {22,   0,  0,  1.0L, 1,{ { 271, 8},  { 0, 0}},  0}''' if False else '''      {22,   0,  0,  1.0L, 1,{ { 271, 8},{  0, 0}},  0}''', '''      {22,   0,  0,  1.0L, 0,{ { 271, 8},{  0, 0}},  0}''']],
      'a UTC page that announces a negative leap second count', 'the future leap second count decodes as unsigned',
      r'''#include "EngNav.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   EngNav e;
   uint32_t w[10] = {0x22C000E4, 0, 0, 0, 0, 0, 0, 0, 0, 0};
   w[1] = 4u << 8;
   w[2] = (1u << 28) | (56u << 22);
   w[9] = 0xF0u << 22;     // -16
   double out[60];
   if (!EngNav::subframeConvert(w, 1000, out)) return 1;
   printf("%g\n", out[22]);
   return out[22] == -16 ? 0 : 1;
}
''')
plant('c14b', 'C14', [[NAV, 'page = (mod500 > 0) ? ((mod500 - 16) / 20) + 1 : 25;', 'page = (mod500 > 16) ? ((mod500 - 16) / 20) + 1 : 25;' if False else 'page = (mod500 > 20) ? ((mod500 - 16) / 20) + 1 : 25;']],
      'a z-count right after the superframe starts (mod 500 between 16 and 20)', 'page 1 of subframe 5 is reported as page 25',
      r'''#include "EngNav.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   for (unsigned long z = 0; z < 403200; z++)
   {
      short sf, pg;
      EngNav::zcount2page(z, sf, pg);
      if (sf != 5) continue;
      long i = (long)(z % 500) / 20;
      long want = z % 500 >= 16 ? i + 1 - (z % 500 % 20 < 16) : 25;
      if (z % 500 % 20 < 4) want = i == 0 ? 25 : i;
      else want = i + 1;
      if (pg != want) { printf("%lu %d %ld\n", z, pg, want); return 1; }
   }
   return 0;
}
''')
plant('c12a', 'C12', [[NAV, 'if (D30 && !knownUpright)\n         d = ~d;', 'if (D30 && D29 && !knownUpright)\n         d = ~d;']],
      'a word whose predecessor ends in bits 0 1', 'the word is not complemented before the parity is taken',
      r'''#include "EngNav.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   unsigned long s = 12345;
   for (int i = 0; i < 100000; i++)
   {
      s = s * 6364136223846793005ul + 1442695040888963407ul;
      uint32_t w = (s >> 20) & 0x3fffffff, p = (s >> 50) & 3;
      uint32_t a = EngNav::computeParity(w, p, false);
      uint32_t b = EngNav::computeParity(p & 1 ? ~w & 0x3fffffff : w, p, true);
      if (a != b) { printf("%x %x\n", w, p); return 1; }
   }
   return 0;
}
''')
