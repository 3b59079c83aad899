IONO = 'core/lib/GNSSCore/IonoModel.cpp'
SAAS = 'core/lib/GNSSCore/SaasTropModel.cpp'
plant('c36b', 'C36', [[IONO, '''      if (phi_i < -0.416)
         phi_i = -0.416;''', '''      if (phi_i < -0.461)
         phi_i = -0.416;''']],
      'a receiver close to the south pole', 'the latitude of the pierce point is not limited to -0.416 semi-circles',
      r'''#include "IonoModel.hpp"
#include "GNSSconstants.hpp"
#include "YDSTime.hpp"
#include <cmath>
#include <cstdio>
using namespace gpstk;
int main()
{
   double a[4] = {1.2e-8, 2.2e-8, -6e-8, -1.2e-7}, b[4] = {96256, 131072, -65536, -589824};
   IonoModel m(a, b);
   CommonTime t = YDSTime(2015, 100, 43200, TimeSystem::GPS);
   for (int lat = -90; lat <= 90; lat += 2)
   for (int az = 0; az < 360; az += 30)
   {
      Position p(lat, 70, 0, Position::Geodetic);
      double E = 10 / 180., A = az * DEG_TO_RAD, psi = 0.0137 / (E + 0.11) - 0.022, phi = lat / 180. + psi * cos(A);
      phi = phi > 0.416 ? 0.416 : phi < -0.416 ? -0.416 : phi;
      double l = 70 / 180. + psi * sin(A) / cos(phi * PI), pm = phi + 0.064 * cos((l - 1.617) * PI);
      double am = a[0] + pm * (a[1] + pm * (a[2] + pm * a[3])), pe = b[0] + pm * (b[1] + pm * (b[2] + pm * b[3]));
      if (am < 0) am = 0;
      if (pe < 72000) pe = 72000;
      double s = fmod(43200 * l + 43200 + 864000, 86400), x = 2 * PI * (s - 50400) / pe, F = 1 + 16 * pow(0.53 - E, 3);
      double w = fabs(x) < 1.57 ? F * (5e-9 + am * (1 - x * x / 2 + x * x * x * x / 24)) : F * 5e-9;
      double g = m.getCorrection(t, p, 10, az, CarrierBand::L1) / C_MPS;
      if (fabs(g - w) > 1e-12) { printf("%d %d %g %g\n", lat, az, g, w); return 1; }
   }
   return 0;
}
''')
plant('c35a', 'C35', [[SAAS, '''         t += 365.25/2.;''', '''         t += 365.25/4.;''']],
      'a receiver in the southern hemisphere', 'the season of the southern hemisphere is a quarter of a year off',
      r'''#include "SaasTropModel.hpp"
#include <cmath>
#include <cstdio>
using namespace gpstk;
int main()
{
   SaasTropModel n(45, 211, 10, 1000, 50), s(-45, 28, 10, 1000, 50);
   n.setReceiverHeight(100); s.setReceiverHeight(100);
   double a = n.dry_mapping_function(5), b = s.dry_mapping_function(5);
   printf("%.9f %.9f\n", a, b);
   return std::fabs(a - b) < 1e-5 ? 0 : 1;
}
''')
plant('c35b', 'C35', [['core/lib/GNSSCore/NBTropModel.cpp', '''if(i<0) i=0; else i=4;''', '''if(i<0) i=0; else i=3;''']],
      'a receiver beyond 75 degrees of latitude', 'the tables are continued from the wrong line near the poles',
      r'''#include "NBTropModel.hpp"
#include <cmath>
#include <cstdio>
using namespace gpstk;
int main()
{
   NBTropModel a(0, 74.999999, 100), b(0, 75.000001, 100);
   double x = a.correction(10.0), y = b.correction(10.0);
   printf("%.9f %.9f\n", x, y);
   return std::fabs(x - y) < 1e-5 ? 0 : 1;
}
''')
plant('c05a', 'C05', [['core/lib/TimeHandling/TimeRange.cpp', '''      if (       includeStartTime && 
           right.includeEndTime && 
                 start==right.end ) return true;''', '''      if (       includeStartTime && 
           right.includeStartTime && 
                 start==right.end ) return true;''']],
      'ranges that touch, one of them half open', 'ranges touching in an excluded end overlap',
      r'''#include "TimeRange.hpp"
#include "YDSTime.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   CommonTime a = YDSTime(2015, 1, 0, TimeSystem::GPS), b = YDSTime(2015, 2, 0, TimeSystem::GPS), c = YDSTime(2015, 3, 0, TimeSystem::GPS);
   TimeRange open(a, b, true, false), later(b, c, true, true), open2(a, b, false, true);
   if (later.overlaps(open)) { puts("excluded end"); return 1; }
   if (!later.overlaps(open2)) { puts("included end"); return 1; }
   return 0;
}
''')
plant('c20a', 'C20', [['core/lib/FileHandling/Binex/BinexData.cpp', '''      else if (ul < 2097152)
      {
         size = 3;
      }
      else if (ul < 536870912)
      {
         size = 4;
      }
      else
      {
         value = 0;''', '''      else if (ul <= 2097152)
      {
         size = 3;
      }
      else if (ul < 536870912)
      {
         size = 4;
      }
      else
      {
         value = 0;''']],
      'the one value that needs a fourth byte first', 'the value 2^21 is written in three bytes and read back as zero',
      r'''#include "BinexData.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   for (unsigned long v = 2097000; v < 2097300; v++)
   {
      BinexData::UBNXI u(v), w;
      std::string s(8, 0);
      u.encode(s, 0, true);
      w.decode(s, 0, true);
      if ((unsigned long)w != v) { printf("%lu %lu\n", v, (unsigned long)w); return 1; }
   }
   return 0;
}
''')
plant('c27a', 'C27', [['core/lib/Math/Triple.cpp', '''      if (rx <= 1e-14 ||  ry <= 1e-14)
      {
         GPSTK_THROW(GeometryException("Divide by Zero Error"));
      }
      cosvects''', '''      if (rx <= 1e-14 ||  rx <= 1e-14)
      {
         GPSTK_THROW(GeometryException("Divide by Zero Error"));
      }
      cosvects''']],
      'the second of two vectors is zero', 'the cosine with a zero vector is not refused',
      r'''#include "Triple.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   Triple a(1, 2, 3), z(0, 0, 0);
   int n = 0;
   try { a.cosVector(z); } catch (GeometryException &) { n++; }
   try { z.cosVector(a); } catch (GeometryException &) { n++; }
   return n == 2 ? 0 : 1;
}
''')
plant('c24a', 'C24', [['core/lib/GNSSCore/Position.cpp', '''      llr[0] = ::acos((N*(1-eccSq)+llh[2])*slat/llr[2]);
      llr[0] *= RAD_TO_DEG;
      llr[0] = 90 - llr[0];''', '''      llr[0] = ::asin((N*(1-eccSq)+llh[2])*::fabs(slat)/llr[2]);
      llr[0] *= RAD_TO_DEG;
      if(llh[0] < -1.e-3) llr[0] = -llr[0];''']],
      'a receiver within a hundred meters south of the equator', 'the geocentric latitude there has the wrong sign',
      r'''#include "Position.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
int main()
{
   for (double lat = -0.01; lat < 0.01; lat += 0.0003)
   {
      Position p(lat, 20, 100, Position::Geodetic);
      p.transformTo(Position::Geocentric);
      double g = p.getGeocentricLatitude();
      if (g * lat < 0 && std::fabs(g) > 1e-6) { printf("%g %g\n", lat, g); return 1; }
   }
   return 0;
}
''')
plant('c34a', 'C34', [['core/lib/Math/MiscMath.hpp', '''      err = T(0);
      k = X.size()/2;
      if(x == X[k]) return Y[k];
      if(x == X[k-1]) return Y[k-1];''', '''      err = T(0);
      k = X.size()/2;
      if(x == X[k]) return Y[k];
      if(ABS(x-X[k-1]) < 1e-3) return Y[k-1];''']],
      'a position close to, but not at, the knot before the middle', 'the value at the knot is returned there',
      r'''#include "MiscMath.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
int main()
{
   std::vector<double> X, Y;
   for (int i = 0; i < 8; i++) { X.push_back(i); Y.push_back(1000 * i); }
   for (int i = 0; i < 700; i++)
   {
      double x = 0.01 * i + 0.0004, e, y = LagrangeInterpolation(X, Y, x, e);
      if (std::fabs(y - 1000 * x) > 1e-6) { printf("%g %g\n", x, y); return 1; }
   }
   return 0;
}
''')
plant('c10a', 'C10', [['core/lib/RefTime/TimeSystem.cpp', '''{ 1965,  3,  3.6401300, 0.0012960 },''', '''{ 1965,  3,  3.6401300, 0.0012906 },''']],
      'a date from March to June of 1965', 'the rate of UTC is wrong in those months',
      r'''#include "TimeSystem.hpp"
#include <cstdio>
#include <cmath>
using namespace gpstk;
int main()
{
   static const double d[12] = {3.54013, 3.54013, 3.64013, 3.64013, 3.64013, 3.64013, 3.74013, 3.74013, 3.84013, 3.84013, 3.84013, 3.84013};
   static const int first[12] = {0, 0, 2, 2, 2, 2, 6, 6, 8, 8, 8, 8};
   static const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
   for (int m = 0; m < 12; m++)
   {
      int days = 10;
      for (int i = first[m]; i < m; i++) days += len[i];
      double g = getLeapSeconds(1965, m + 1, 11.0), w = d[m] + days * 0.001296;
      if (std::fabs(g - w) > 1e-9) { printf("%d %.9f %.9f\n", m + 1, g, w); return 1; }
   }
   return 0;
}
''')
plant('c17a', 'C17', [['core/lib/GNSSEph/BDSEphemeris.cpp', '''         if (transmitTime>beginValid) beginValid = transmitTime;''', '''         if (transmitTime>beginValid+1.0) beginValid = transmitTime;''']],
      'an ephemeris sent within a second after its reference time', 'the validity starts before the transmission',
      r'''#include "BDSEphemeris.hpp"
#include "BDSWeekSecond.hpp"
#include <cmath>
#include <cstdio>
using namespace gpstk;
int main()
{
   for (int k = 0; k < 40; k++)
   {
      BDSEphemeris e;
      e.satID = SatID(7, SatelliteSystem::BeiDou);
      e.ctToe = BDSWeekSecond(400, 3600, TimeSystem::BDT);
      e.ctToc = e.ctToe;
      e.transmitTime = e.ctToe + (k - 20) * 0.1;
      e.dataLoadedFlag = true;
      e.adjustValidity();
      CommonTime w = k > 20 ? e.transmitTime : e.ctToe;
      if (std::fabs(e.beginValid - w) > 1e-6) { printf("%d %g\n", k, e.beginValid - w); return 1; }
   }
   return 0;
}
''')
plant('c16a', 'C16', [['core/lib/GNSSEph/GPS_URA.hpp', '''              (acc > SV_ACCURACY_GPS_MAX_INDEX[ura]))
         ura++;
      if (ura > SV_ACCURACY_GPS_MAX_INDEX_VALUE)
         ura = SV_ACCURACY_GPS_MAX_INDEX_VALUE;
      return ura;
   }''', '''              (acc - SV_ACCURACY_GPS_MAX_INDEX[ura] > 0.004))
         ura++;
      if (ura > SV_ACCURACY_GPS_MAX_INDEX_VALUE)
         ura = SV_ACCURACY_GPS_MAX_INDEX_VALUE;
      return ura;
   }''']],
      'an accuracy just above a limit of the table', 'the index is one too low',
      r'''#include "GPS_URA.hpp"
#include <cstdio>
using namespace gpstk;
int main()
{
   static const double lim[15] = {2.4, 3.4, 4.85, 6.85, 9.65, 13.65, 24, 48, 96, 192, 384, 768, 1536, 3072, 6144};
   for (int i = 0; i < 15; i++)
   {
      int w = i + 1;
      short u = accuracy2ura(lim[i] + 0.001), v = accuracy2ura(lim[i]);
      if (u != w || v != i) { printf("%g %d %d\n", lim[i], u, v); return 1; }
   }
   return 0;
}
''')
