From abefd6833ea9e433c537251f7ee3eb5942a2d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 01/44] fix: EngNav::fixParity must replace stale parity bits
 and solve the non-information bits on the upright data

---
 core/lib/GNSSEph/EngNav.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..5280d62 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -688,6 +688,15 @@ namespace gpstk
       uint32_t D29 = getd29(psfword);
       uint32_t D30 = getd30(psfword);
 
+         // Work on the source data bits, which are complemented in the
+         // word if D30 of the previous word was set.
+      bool complemented = D30 && !knownUpright;
+      if (complemented)
+         d = ~d & 0x3fffffff;
+
+         // make sure the bits to be filled in are zero to start with.
+      d &= ~0x3fU;
+
       if (nib)
       {
             // make sure the non-information bits are zero to start with.
@@ -698,6 +707,9 @@ namespace gpstk
             d |= 0x00000080;
       }
 
+      if (complemented)
+         d = ~d & 0x3fffffc0;
+
       D = computeParity(d, psfword, knownUpright);
 
       return D | d;
-- 
2.43.0


From d8752f0355c18f5431f318572c1279fdaec218fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 02/44] fix: EngNav::getSubframePattern read outside its table
 for SV ids 33..50

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 5280d62..b21821b 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         return(0);           /* Not a valid sv id */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From 287418634b901818f339c7752cbf9a8b24f811ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 03/44] fix: PackedNavBits::addUint64_t wrote past the end of
 the bit store

---
 core/lib/GNSSEph/PackedNavBits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..214f589 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -603,6 +603,7 @@ namespace gpstk
    void PackedNavBits::addUint64_t( const uint64_t value, const int numBits )
    {
       size_t ndx = bits_used;
+      if (bits.size() < ndx + numBits) bits.resize(ndx + numBits);
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
 
-- 
2.43.0


From 7df71cbc2030f8487e051755670a756597cb4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 04/44] fix: PackedNavBits::matchBits read before the start of
 an empty bit store

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 214f589..dbb552e 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -947,8 +947,8 @@ namespace gpstk
          // Check for nonsense arguments
       if (endBit==-1 ||
           endBit>=int(bits.size())) endBit = bits.size()-1;
-      if (startBit<0) startBit=0;
       if (startBit>=int(bits.size())) startBit = bits.size()-1;
+      if (startBit<0) startBit=0;
 
       for (int i=startBit;i<=endBit;i++)
       {
-- 
2.43.0


From 2521a9caa32f7cfdd22174027faf13abe6ae702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 05/44] fix: addZcounts lost the high bits of the week count of
 large additions

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 12 ++++++++++--
 core/lib/TimeHandling/GPSZcount.cpp     | 10 +++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index a3f6ad1..3e983fa 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -38,6 +38,8 @@
 
 /// @file GPSWeekZcount.cpp
 
+#include <limits>
+
 #include "GPSWeekZcount.hpp"
 #include "TimeConstants.hpp"
 #include "TimeConverters.hpp"
@@ -242,13 +244,19 @@ namespace gpstk
       if (inZcounts == 0)
          return *this;
 
-      short originalWeek(week);
+      int originalWeek(week);
       long originalZcount(zcount);
 
       try
       {
             // First, do week modifications.
-         addWeeks(inZcounts / ZCOUNT_PER_WEEK);
+         long newWeek = week + inZcounts / ZCOUNT_PER_WEEK;
+         if (newWeek < 0 || newWeek > std::numeric_limits<int>::max())
+         {
+            gpstk::InvalidRequest exc("addZcounts results in invalid week");
+            GPSTK_THROW(exc);
+         }
+         week = newWeek;
 
             // Now, take care of Z-counts.
          long tmp = zcount + (inZcounts % ZCOUNT_PER_WEEK);
diff --git a/core/lib/TimeHandling/GPSZcount.cpp b/core/lib/TimeHandling/GPSZcount.cpp
index 63d62fb..b15ecd0 100644
--- a/core/lib/TimeHandling/GPSZcount.cpp
+++ b/core/lib/TimeHandling/GPSZcount.cpp
@@ -163,7 +163,15 @@ namespace gpstk
       try
       {
             // First, do week modifications.
-         addWeeks(inZcounts / ZCOUNT_WEEK);
+         long weeks = inZcounts / ZCOUNT_WEEK;
+         if (weeks < numeric_limits<short>::min() ||
+             weeks > numeric_limits<short>::max())
+         {
+            gpstk::InvalidRequest ir("Addition of " + asString(weeks) +
+                                     " weeks renders this object invalid.");
+            GPSTK_THROW(ir);
+         }
+         addWeeks(weeks);
 
             // Now, take care of Z-counts.
          long tmp = zcount + (inZcounts % ZCOUNT_WEEK);
-- 
2.43.0


From fa4880c4ff946b7adba9b9d80b1c96c77905eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 06/44] fix: inSameTimeBlock misplaced Z-counts before the
 block offset

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 12 ++++++++----
 core/lib/TimeHandling/GPSZcount.cpp     | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index 3e983fa..da42a27 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -360,13 +360,17 @@ namespace gpstk
                                        unsigned long inZcountOffset)
       throw()
    {
+         // Shift that moves the block boundaries to zero without making
+         // Z-counts before the offset negative.
+      unsigned long shift = inZcountBlock - inZcountOffset % inZcountBlock;
+
       if (inZcountBlock < ZCOUNT_PER_WEEK)
       {
             // Make sure that we're in the same week, and then checkto
             // see if we're in the same time block.
          if ((week == other.week) &&
-             (((zcount - inZcountOffset) / inZcountBlock) ==
-              ((other.zcount - inZcountOffset) / inZcountBlock)))
+             (((zcount + shift) / inZcountBlock) ==
+              ((other.zcount + shift) / inZcountBlock)))
          {
             return true;
          }
@@ -374,8 +378,8 @@ namespace gpstk
       else
       {
             // Comare using the total number of Z-counts
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (long((getTotalZcounts() + shift) / inZcountBlock) ==
+             long((other.getTotalZcounts() + shift) / inZcountBlock))
          {
             return true;
          }
diff --git a/core/lib/TimeHandling/GPSZcount.cpp b/core/lib/TimeHandling/GPSZcount.cpp
index b15ecd0..65767f2 100644
--- a/core/lib/TimeHandling/GPSZcount.cpp
+++ b/core/lib/TimeHandling/GPSZcount.cpp
@@ -333,13 +333,17 @@ namespace gpstk
                                    unsigned long inZcountBlock,
                                    unsigned long inZcountOffset)
    {
+         // Shift that moves the block boundaries to zero without making
+         // Z-counts before the offset negative.
+      unsigned long shift = inZcountBlock - inZcountOffset % inZcountBlock;
+
       if ((long)inZcountBlock < ZCOUNT_WEEK)
       {
             // Make sure that we're in the same week, and then check to see if
             // we're in the same time block
          if ( (getWeek() == other.getWeek()) &&
-              (((getZcount() - inZcountOffset) / inZcountBlock) ==
-               ((other.getZcount() - inZcountOffset) / inZcountBlock)) )
+              (((getZcount() + shift) / inZcountBlock) ==
+               ((other.getZcount() + shift) / inZcountBlock)) )
          {
             return true;
          }
@@ -347,8 +351,8 @@ namespace gpstk
       else // inZcountBlock >= ZCOUNT_WEEK
       {
             // Compare using the total number of Z-counts.
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (long((getTotalZcounts() + shift) / inZcountBlock) ==
+             long((other.getTotalZcounts() + shift) / inZcountBlock))
          {
             return true;
          }
-- 
2.43.0


From 5c1199b34d0f2c636e3c7763bc7046032580e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 07/44] fix: TimeRange::operator< ignored the start times of
 some ranges

---
 core/lib/TimeHandling/TimeRange.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..66b3740 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -194,8 +194,11 @@ namespace gpstk
         {
           return true; 
         }
+        return false;
      }
-     return false;
+
+        // Left is NOT inclusive and right is.
+     return (start<right.start);
    }
 
       // True if start/end of this object are both prior
-- 
2.43.0


From b0f33327737cffbb52ec7026ce07c72fd3b12bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 08/44] fix: UnixTime::convertToCommonTime rejected times
 before 1970

---
 core/lib/TimeHandling/UnixTime.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/UnixTime.cpp b/core/lib/TimeHandling/UnixTime.cpp
index 546a589..e52080a 100644
--- a/core/lib/TimeHandling/UnixTime.cpp
+++ b/core/lib/TimeHandling/UnixTime.cpp
@@ -55,9 +55,17 @@ namespace gpstk
    {
       try
       {
+         long days = tv.tv_sec / SEC_PER_DAY;
+         long sod = tv.tv_sec % SEC_PER_DAY;
+         if (sod < 0)
+         {
+               // before 1970
+            sod += SEC_PER_DAY;
+            --days;
+         }
          CommonTime ct;
-         return ct.set( ( MJD_JDAY + UNIX_MJD + tv.tv_sec / SEC_PER_DAY ),
-                        ( tv.tv_sec % SEC_PER_DAY ),
+         return ct.set( ( MJD_JDAY + UNIX_MJD + days ),
+                        ( sod ),
                         ( static_cast<double>( tv.tv_usec ) * 1e-6 ),
                         timeSystem );
       }
-- 
2.43.0


From dee2c337ae848ed61a87f2f10a1b7046d773a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 09/44] fix: convertSODtoTime gave no time of day for seconds a
 day or more before midnight

---
 core/lib/TimeHandling/TimeConverters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/TimeConverters.cpp b/core/lib/TimeHandling/TimeConverters.cpp
index 2d3f8c9..cf80093 100644
--- a/core/lib/TimeHandling/TimeConverters.cpp
+++ b/core/lib/TimeHandling/TimeConverters.cpp
@@ -155,9 +155,9 @@ namespace gpstk
       if (sod < 0)
       {
          sod += (1 +
-                 static_cast<unsigned long>(sod / SEC_PER_DAY)) * SEC_PER_DAY ;
+                 static_cast<unsigned long>(-sod / SEC_PER_DAY)) * SEC_PER_DAY ;
       }
-      else if (sod >= SEC_PER_DAY)
+      if (sod >= SEC_PER_DAY)
       {
          sod -= static_cast<unsigned long>(sod / SEC_PER_DAY) * SEC_PER_DAY ;
       }
-- 
2.43.0


From a1eb1708efc156b730e13a62a627c14e8d56a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 10/44] fix: getLeapSeconds dropped the fraction of the day
 before 1972

---
 core/lib/RefTime/TimeSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/RefTime/TimeSystem.cpp b/core/lib/RefTime/TimeSystem.cpp
index 78d8f44..fffe639 100644
--- a/core/lib/RefTime/TimeSystem.cpp
+++ b/core/lib/RefTime/TimeSystem.cpp
@@ -150,11 +150,11 @@ namespace gpstk
                // rec.month >= month
                // watch out - cannot use CommonTime here
             int iday(static_cast<int>(day));
-            double dday(static_cast<double>(iday-int(day)));
+            double dday(day-iday);
             if (iday == 0)
             {
                iday = 1;
-               dday = 1.0-dday;
+               dday -= 1.0;
             }
             long JD0 = convertCalendarToJD(year,month,iday);
             long JD = convertCalendarToJD(preleap[i].year,preleap[i].month,1);
-- 
2.43.0


From 2cd866bc98d7e7f046e35f5ab54a03dfc8d5b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 11/44] fix: BINEX MGFZI::read could not read any value

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..716a2de 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -817,7 +817,7 @@ namespace gpstk
       strm.read((char*)&buffer[0], 1);
 
          // Isolate sign and byte-length flags
-      flags = reverseBytes
+      flags = littleEndian
             ? buffer[0] & 0x0f
             : (buffer[0] >> 4) & 0x0f;
 
@@ -855,7 +855,7 @@ namespace gpstk
 
          // Decode the entire buffer
       std::string  tmp((const char*)&buffer[0], size);
-      decode(tmp, size, littleEndian);
+      decode(tmp, 0, littleEndian);
 
       return size;
    }
-- 
2.43.0


From 6aa47c5579b75675cd2759e87eea3860bd14254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 12/44] fix: BINEX records could not be read in reverse

---
 core/lib/FileHandling/Binex/BinexData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 716a2de..b9f3190 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1362,9 +1362,9 @@ namespace gpstk
                GPSTK_THROW(err);
             }
             std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
-            reverseBuffer(revRecBuf, revRecSize);
+            reverseBuffer(revRecBuf);
 
-            if (revRecBuf[0] != expectedSyncByte)
+            if ((SyncByte)revRecBuf[0] != expectedSyncByte)
             {
                FFStreamError err("BINEX head/tail synchronization byte mismatch");
                GPSTK_THROW(err);
@@ -1687,8 +1687,8 @@ namespace gpstk
          FFStreamError err("Invalid offset reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      size_t back = (n == std::string::npos) ? buffer.size() - 1: offset + n;
-      if (back >= buffer.size() )
+      size_t back = (n == std::string::npos) ? buffer.size() : offset + n;
+      if (back > buffer.size() )
       {
          FFStreamError err("Invalid size reversing BINEX data buffer");
          GPSTK_THROW(err);
-- 
2.43.0


From 93f6c9d9908f62d6f867ebac2f7827a0eb96d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 13/44] fix: reading a reverse-readable BINEX record left its
 tail unread

---
 core/lib/FileHandling/Binex/BinexData.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index b9f3190..94bfa49 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1343,6 +1343,21 @@ namespace gpstk
                FFStreamError err("Bad BINEX CRC");
                GPSTK_THROW(err);
             }
+            if (syncByte & eReverseReadable)
+            {
+                  // Skip the reversed record length and the tail
+                  // synchronization byte, so that the next record follows
+               UBNXI  recLen(1 + crcBufLen + msgLen + crcLen);
+               char   tail [UBNXI::MAX_BYTES + 1];
+               size_t tailLen = recLen.getSize() + 1;
+               strm.read(tail, tailLen);
+               if (!strm.good() || ((size_t)strm.gcount() != tailLen)
+                  || ((SyncByte)tail[tailLen - 1] != expectedSyncByte) )
+               {
+                  FFStreamError err("Incomplete BINEX record tail");
+                  GPSTK_THROW(err);
+               }
+            }
          }
          else if (isTailSyncByteValid(syncBuf, expectedSyncByte) )
          {
-- 
2.43.0


From 05ecf760a310626a65a88c7c54014c29618eeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 14/44] fix: BINEX MGFZI without a value was neither encoded
 nor skipped

---
 core/lib/FileHandling/Binex/BinexData.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 94bfa49..57d4e69 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -488,6 +488,7 @@ namespace gpstk
                // "-0" reserved for "no data" indicator
                size = 0;
                // todo - throw
+               return 1;
             }
             else
             {
@@ -793,10 +794,10 @@ namespace gpstk
          default:
                // If the byte count is 0, store "no value"
             result    = 1;
-            buffer[0] = (char)0x80;
+            buffer[0] = (char)(littleEndian ? 0x08 : 0x80);
             break;
       } // switch
-      outBuffer.replace(offset, size, buffer, size);
+      outBuffer.replace(offset, result, buffer, result);
       return result;
    }
 
@@ -878,7 +879,7 @@ namespace gpstk
          //memcpy(outBuffer, buffer, bufferSize);
          if (offset <= outBuffer->size() )
          {
-            outBuffer->replace(offset, size, buffer);
+            outBuffer->replace(offset, buffer.size(), buffer);
          }
          else
          {
@@ -892,13 +893,13 @@ namespace gpstk
       {
          reverseBuffer(buffer);
       }
-      strm.write(buffer.data(), size);
+      strm.write(buffer.data(), buffer.size());
       if (!strm.good() )
       {
          FFStreamError err("Error writing BINEX MGFZI");
          GPSTK_THROW(err);
       }
-      return size;
+      return buffer.size();
    }
 
 
-- 
2.43.0


From e5d9a71720b52a6e055f6ae6eff81eaa2b29fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 15/44] fix: BINEX MGFZI encoded 8 as 0 in big-endian records

---
 core/lib/FileHandling/Binex/BinexData.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 57d4e69..0a6ff0f 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -650,11 +650,6 @@ namespace gpstk
             {
                uc = (signBit << 3) | (0xf0 & ( (unsigned char)absValue << 4) );
             }
-            if (uc == 0x08)
-            {
-                  // A valid value has been rounded to "-0"; convert to "+0".
-               uc = 0x00;
-            }
             buffer[0] = uc;
             break;
 
-- 
2.43.0


From 9b15212fe514932831f34329d6f27304e018ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 16/44] fix: ura2CNAVNominalaccuracy read beyond its table for
 URA index 15

---
 core/lib/GNSSEph/GPS_URA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GPS_URA.hpp b/core/lib/GNSSEph/GPS_URA.hpp
index b234ac3..1e1de02 100644
--- a/core/lib/GNSSEph/GPS_URA.hpp
+++ b/core/lib/GNSSEph/GPS_URA.hpp
@@ -91,7 +91,7 @@ namespace gpstk
                                                     0.044194, 0.0625, 0.088388, 0.125, 0.176777,
                                                     0.25, 0.353553, 0.5, 0.707107, 1, 1.414214, 2, 
                                                     2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512,
-                                                    1024, 2048, 4096};
+                                                    1024, 2048, 4096, 9.999999999999e99};
       /// constant for max array index in gps nom index table
    const int SV_CNAV_NOMINAL_MAX_INDEX = 30;
  
-- 
2.43.0


From 74fba15e46b496f8f67de6ba7104e896d86156b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 17/44] fix: Triple::toStdVector returned an empty vector

---
 core/lib/Math/Triple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Triple.cpp b/core/lib/Math/Triple.cpp
index a08109e..a805894 100644
--- a/core/lib/Math/Triple.cpp
+++ b/core/lib/Math/Triple.cpp
@@ -99,7 +99,7 @@ namespace gpstk
    std::vector<double> Triple::toStdVector()
    {
       std::vector<double> toReturn;
-      //for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
+      for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
       return toReturn;
    }
 
-- 
2.43.0


From b5613224194ca2897303e2f353c5aa73033d7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 18/44] fix: longitudes of -360 degrees and below were not
 brought into range

---
 core/lib/GNSSCore/Position.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 8f674db..f2762d9 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -514,7 +514,7 @@ namespace gpstk
 
       theArray[1] = lon;
       if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
+         theArray[1] += 360*::ceil(-theArray[1]/360);
       else if(theArray[1] >= 360)
          theArray[1] -= 360*(unsigned long)(theArray[1]/360);
 
@@ -556,7 +556,7 @@ namespace gpstk
       theArray[2] = rad;
 
       if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
+         theArray[1] += 360*::ceil(-theArray[1]/360);
       else if(theArray[1] >= 360)
          theArray[1] -= 360*(unsigned long)(theArray[1]/360);
       system = Geocentric;
@@ -592,7 +592,7 @@ namespace gpstk
       theArray[2] = rad;
 
       if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
+         theArray[1] += 360*::ceil(-theArray[1]/360);
       else if(theArray[1] >= 360)
          theArray[1] -= 360*(unsigned long)(theArray[1]/360);
       system = Spherical;
@@ -810,7 +810,7 @@ namespace gpstk
                case 'l':
                   lon = asDouble(toBeRemoved);
                   if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
+                     lon += 360*::ceil(-lon/360);
                   else if(lon >= 360)
                      lon -= 360*(unsigned long)(lon/360);
                   hlon = true;
@@ -819,7 +819,7 @@ namespace gpstk
                case 'W':
                   lon = 360.0 - asDouble(toBeRemoved);
                   if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
+                     lon += 360*::ceil(-lon/360);
                   else if(lon >= 360)
                      lon -= 360*(unsigned long)(lon/360);
                   hlon = true;
@@ -849,7 +849,7 @@ namespace gpstk
                case 'p':
                   phi = asDouble(toBeRemoved);
                   if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
+                     phi += 360*::ceil(-phi/360);
                   else if(phi >= 360)
                      phi -= 360*(unsigned long)(phi/360);
                   hphi = true;
@@ -857,7 +857,7 @@ namespace gpstk
                case 'P':
                   phi = asDouble(toBeRemoved) * RAD_TO_DEG;
                   if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
+                     phi += 360*::ceil(-phi/360);
                   else if(phi >= 360)
                      phi -= 360*(unsigned long)(phi/360);
                   hphi = true;
@@ -1543,7 +1543,7 @@ namespace gpstk
             GPSTK_THROW(ge);
          }
          if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
+            bb += 360*::ceil(-bb/360);
          else if(bb >= 360)
             bb -= 360*(unsigned long)(bb/360);
       }
@@ -1565,7 +1565,7 @@ namespace gpstk
             GPSTK_THROW(ge);
          }
          if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
+            bb += 360*::ceil(-bb/360);
          else if(bb >= 360)
             bb -= 360*(unsigned long)(bb/360);
       }
-- 
2.43.0


From 45b59c84fc5dadea081d5ed03fc0f7acf74750bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 19/44] fix: Position made from an invalid Triple was left
 uninitialised

---
 core/lib/GNSSCore/Position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index f2762d9..94cc48a 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -146,6 +146,7 @@ namespace gpstk
          initialize(a,b,c,s,ell,frame);
       }
       catch(GeometryException& ge) {
+         GPSTK_RETHROW(ge);
       }
    }
 
-- 
2.43.0


From 8bfa96a4cee98b71b5ef575a9cf59feea72589d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 20/44] fix: GPSEllipsoid::gm_km disagreed with gm

---
 core/lib/GNSSCore/GPSEllipsoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GPSEllipsoid.hpp b/core/lib/GNSSCore/GPSEllipsoid.hpp
index 06c7a9e..937d107 100644
--- a/core/lib/GNSSCore/GPSEllipsoid.hpp
+++ b/core/lib/GNSSCore/GPSEllipsoid.hpp
@@ -80,7 +80,7 @@ namespace gpstk
          /// derived from ICD-GPS-200C, 20.3.3.4.3.3 and Table 20-IV
          /// @return geocentric gravitational constant in km**3 / s**2
       virtual double gm_km() const throw()
-      { return 3.9860034e5; }
+      { return 3.986005e5; }
 
          /// defined in ICD-GPS-200C, 20.3.4.3
          /// @return Speed of light in m/s.
-- 
2.43.0


From b3ed6e80ed54be186560ff1736b84e00598d9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 21/44] fix: joining a Vector and a Matrix read outside the
 matrix

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 03644a1..5eecc8c 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -136,7 +136,7 @@ namespace gpstk
 
       for (rows = 1; rows < b.rows()+1; rows++)
          for (cols = 0; cols < b.cols(); cols++)
-            toReturn(rows, cols) = b(rows, cols);
+            toReturn(rows, cols) = b(rows-1, cols);
 
       return toReturn;
    }
@@ -224,7 +224,7 @@ namespace gpstk
 
       for (cols = 1; cols < r.cols()+1; cols++)
          for (rows = 0; rows < r.rows(); rows++)
-            toReturn(rows, cols) = r(rows, cols);
+            toReturn(rows, cols) = r(rows, cols-1);
 
       return toReturn;
    }
-- 
2.43.0


From 0257d2e6fa823f0cd20061d8352b6299c94d8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 22/44] fix: Vector::toStdVector copied from itself

---
 core/lib/Math/Vector/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 468366d..42dff00 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -287,10 +287,10 @@ namespace gpstk
          // convert the gpstk vector to std vector
       std::vector<T> toStdVector()
       {
-         std::vector<T> v;
+         std::vector<T> toReturn;
          for(size_t i = 0; i < s; i++)
-            v.push_back(v[i] );
-         return v;
+            toReturn.push_back(v[i]);
+         return toReturn;
       }
 
       inline Vector& operator<<(const Vector& b)
-- 
2.43.0


From 1f2e2ad39617eee8fad4c9f2108f2e78b67fdd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 23/44] fix: Vector::front returned the last element

---
 core/lib/Math/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 42dff00..12dc54e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -198,9 +198,9 @@ namespace gpstk
          /// STL const iterator end
       const_iterator end() const { return v + s; }
          /// STL front
-      value_type front() { return v[s-1]; }
+      value_type front() { return v[0]; }
          /// STL const front
-      const_reference front() const { return v[s-1];}
+      const_reference front() const { return v[0];}
          /// STL empty
       bool empty() const { return size() == 0; }
          /// STL size
-- 
2.43.0


From 848139097339c2d98f30d6e85f0f0b4b0371efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 24/44] fix: cross product accepted one vector of another size

---
 core/lib/Math/Vector/VectorOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Vector/VectorOperators.hpp b/core/lib/Math/Vector/VectorOperators.hpp
index a3865d0..018b82a 100644
--- a/core/lib/Math/Vector/VectorOperators.hpp
+++ b/core/lib/Math/Vector/VectorOperators.hpp
@@ -167,7 +167,7 @@ namespace gpstk
    Vector<T> cross(const ConstVectorBase<T, BaseClass>& l, 
                    const ConstVectorBase<T, BaseClass2>& r)
    { 
-      if ((l.size() != 3) && (r.size() != 3))
+      if ((l.size() != 3) || (r.size() != 3))
       {
          VectorException e("Cross product requires vectors of size 3");
          GPSTK_THROW(e);
-- 
2.43.0


From 2902eda5bf7873a910d15ea73160e658067b04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 25/44] fix: Matrix::col refused every column but the first

---
 core/lib/Math/Matrix/MatrixImplementation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixImplementation.hpp b/core/lib/Math/Matrix/MatrixImplementation.hpp
index e52b097..13c359d 100644
--- a/core/lib/Math/Matrix/MatrixImplementation.hpp
+++ b/core/lib/Math/Matrix/MatrixImplementation.hpp
@@ -128,7 +128,7 @@ namespace gpstk
                                          size_t rowNum) const
    {
       return ConstMatrixColSlice<T>(*this, colNum,
-                                    std::slice(colNum * r + rowNum, r - rowNum, 1));
+                                    std::slice(rowNum, rows() - rowNum, 1));
    }
 
    template <class T>
-- 
2.43.0


From 20bd83f38106b2fdcb37ca08af6a6ac03cfe5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 26/44] fix: VectorSlice of a std::slice did not compile

---
 core/lib/Math/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 12dc54e..da51a5e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -395,7 +395,7 @@ namespace gpstk
          /// Makes a slice of the vector with the given std::slice.
       VectorSlice(Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Assign the elements of this slice from another vector.
       template <class V>
@@ -461,7 +461,7 @@ namespace gpstk
          /// Uses the given slice and vector.
       ConstVectorSlice(const Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Returns a const version of the i'th slice element.
       T operator[] (size_t i) const
-- 
2.43.0


From 6f8dbee8da1650f93f9804062e6ac3e443f6111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 27/44] fix: Householder left the last column of a tall matrix
 alone

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index 9ee0845..c7bb4f5 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -771,7 +771,7 @@ namespace gpstk
 
             // loop over cols
          const T EPS(1.e-200);
-         for(j=0; (j<A.cols()-1 && j<A.rows()-1); j++) {
+         for(j=0; (j<A.cols() && j+1<A.rows()); j++) {
             sum = T(0);
                // loop over rows at diagonal and below
             for(i=j; i<A.rows(); i++) {
-- 
2.43.0


From 364c37181ff92f756ec680f36287ff8db336e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:45 +0000
Subject: [PATCH 28/44] fix: satellite clock drift took only half of the
 quadratic term

---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 2 +-
 core/lib/GNSSEph/OrbElem.cpp            | 2 +-
 core/lib/GNSSEph/OrbitEph.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 2e88b50..e95f5e2 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -242,7 +242,7 @@ namespace gpstk
    {
       double drift,elaptc;
       elaptc = t - getEpochTime();
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index fea9ded..be9e95f 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -167,7 +167,7 @@ namespace gpstk
       }
       double drift,elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 56d9c73..2be9fa6 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -106,7 +106,7 @@ namespace gpstk
 
       double drift, elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
-- 
2.43.0


From 8d5cef5912bd032f420d739dd70b5a21f677e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 29/44] fix: GloEphemeris::svClockBias computed the relativity
 correction from kilometres

---
 core/lib/GNSSEph/GloEphemeris.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemeris.cpp b/core/lib/GNSSEph/GloEphemeris.cpp
index 3ce1885..727ccec 100644
--- a/core/lib/GNSSEph/GloEphemeris.cpp
+++ b/core/lib/GNSSEph/GloEphemeris.cpp
@@ -280,8 +280,11 @@ namespace gpstk
 
          // Auxiliar object
       Xvt sv;
-      sv.x = x;
-      sv.v = v;
+      for (int i = 0; i < 3; i++)
+      {
+         sv.x[i] = x[i]*1.e3;   // m
+         sv.v[i] = v[i]*1.e3;   // m/sec
+      }
 
          // In the GLONASS system, 'clkbias' already includes the relativistic
          // correction, therefore we must substract the late from the former.
-- 
2.43.0


From 535d3a0459d5bb705c25457415714a28f9c19279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 30/44] fix: Stats joined to one emptied by Subtract kept the
 old sums

---
 core/lib/Math/Stats.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index a9e3f45..d8a35a4 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -220,10 +220,10 @@ namespace gpstk
       {
          if(S.n == 0)
             return *this;
-         if(!setScale) { setScale=true; scale = S.scale; }
-         // TD what if both have !setScale?
-         if((n == 0) || (S.min < min)) min=S.min;
-         if((n == 0) || (S.max > max)) max=S.max;
+         if(n == 0) { *this = S; return *this; }
+         if(!setScale) { setScale = S.setScale; scale = S.scale; }
+         if(S.min < min) min=S.min;
+         if(S.max > max) max=S.max;
          sum += S.scale*S.sum/scale;
          sum2 += (S.scale/scale)*(S.scale/scale)*S.sum2;
          n += S.n;
-- 
2.43.0


From 8c4a27a961acf58359c23af04ede812b76748ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 31/44] fix: Stats reloaded without a scale divided by zero,
 and short records were read past their end

---
 core/lib/Math/Stats.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index d8a35a4..8624040 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -268,17 +268,17 @@ namespace gpstk
       /// NB zero-fill rather than throwing
       void Load(const std::vector<unsigned int>& vuint, const std::vector<T>& vT)
       {
-         if(vuint.size() < 2 || vT.size() < 4) {
+         if(vuint.size() < 2 || vT.size() < 5) {
             n = 0;
             setScale = false;
-            scale = T(0);
+            scale = T(1);
             min = T(0); max = T(0);
             sum = T(0); sum2 = T(0);
          }
          else {
             n = vuint[0];
             setScale = (vuint[1] != 0);
-            scale = vT[0];
+            scale = setScale ? vT[0] : T(1);
             min = vT[1]; max = vT[2];
             sum = vT[3]; sum2 = vT[4];
          }
@@ -978,10 +978,10 @@ namespace gpstk
       {
          size_t i;
          std::vector<unsigned int> vi2;
-         std::vector<double> vt2;
+         std::vector<T> vt2;
          if(vuint.size() < 5 || vT.size() < 11) {
             vuint.clear();
-            for(i=0; i<5; i++) vT.push_back(T(0));
+            for(i=0; i<5; i++) vuint.push_back(0);
             vT.clear();
             for(i=0; i<11; i++) vT.push_back(T(0));
          }
-- 
2.43.0


From cf027aceb2c992cf30f1bac72e5a5343d4bc60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 32/44] fix: WtdStats of std::vector did not compile, and its
 sum of weights was undefined while empty

---
 core/lib/Math/Stats.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index 8624040..16b6d70 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -621,7 +621,7 @@ namespace gpstk
    {
    public:
       /// constructor
-      WtdStats() { }
+      WtdStats() : WtNorm(T()) { }
 
       /// constructor given a gpstk::Vector<T> of data, with weights
       WtdStats(Vector<T>& X, Vector<T>& W)
@@ -690,7 +690,7 @@ namespace gpstk
       inline void Add(std::vector<T>& X, std::vector<T>& W)    // WtdStats
       {
          for(size_t i=0; i<(X.size()>W.size() ? W.size():X.size()); i++)
-            Add(X(i),W(i));
+            Add(X[i],W[i]);
       }
 
       /// remove a gpstk::Vector<T> of samples, with weights
@@ -710,7 +710,7 @@ namespace gpstk
       inline void Subtract(std::vector<T>& X, std::vector<T>& W)     // WtdStats
       {
          size_t i, nn(X.size() > W.size() ? W.size() : X.size());
-         for(i=0; i<nn; i++) Subtract(X(i),W(i));
+         for(i=0; i<nn; i++) Subtract(X[i],W[i]);
       }
 
       // combine two objects -------------------------------------------
@@ -820,7 +820,7 @@ namespace gpstk
       }
 
       /// return normalization = sum of weights
-      inline T WtsSum(void) const { return WtNorm; }     // WtdStats
+      inline T WtsSum(void) const { return SeqStats<T>::n ? WtNorm : T(); }     // WtdStats
 
    protected:
       T WtNorm;               ///< Normalization constant = sum weights
-- 
2.43.0


From b09a3c860ee1c04f117dc0cae40ebd7df43072b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 33/44] fix: scaled BivarStats whose first sample was one
 changed scale after summing it

---
 core/lib/Math/BivarStats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index 1641484..047d434 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -213,8 +213,8 @@ namespace gpstk
 
       if (scaled)
       {
-         if (scaleX==T(1) && x!=T()) scaleX=ABS(x);
-         if (scaleY==T(1) && y!=T()) scaleY=ABS(y);
+         if (sumX2==T() && x!=T()) scaleX=ABS(x);
+         if (sumY2==T() && y!=T()) scaleY=ABS(y);
          T tx(x/scaleX);
          T ty(y/scaleY);
          sumX += tx;
-- 
2.43.0


From cc1686146f15723d207f00470b8cc656ffdfd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 34/44] fix: BivarStats joined with an empty one used undefined
 members; subtract of pairs did not compile

---
 core/lib/Math/BivarStats.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index 047d434..8aeab43 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -312,7 +312,7 @@ namespace gpstk
    void BivarStats<T>::subtract(const std::vector< std::pair<T, T> >& d)
    {
       size_t max( d.size() );
-      for (size_t i=0; i<max; d++)
+      for (size_t i=0; i<max; i++)
          subtract(d[i].first, d[i].second);
    }
 
@@ -419,7 +419,17 @@ namespace gpstk
    template<class T>
    BivarStats<T>& BivarStats<T>::operator+=(BivarStats<T>& S)
    {
-      if(ns + S.ns == 0) return *this;
+      if(S.ns == 0) return *this;
+      if(ns == 0)
+      {
+         sumX = sumY = sumX2 = sumY2 = sumXY = T(0);
+         scaleX = scaled ? S.scaleX : T(1);
+         scaleY = scaled ? S.scaleY : T(1);
+         xMin = S.xMin;
+         xMax = S.xMax;
+         yMin = S.yMin;
+         yMax = S.yMax;
+      }
       xMin = std::min(xMin, S.xMin);
       xMax = std::max(xMax, S.xMax);
       yMin = std::min(yMin, S.yMin);
-- 
2.43.0


From 2efdba168fa827fdbf0d27977b3902e751283e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 35/44] fix: PowerSum::moment gave zero when there were just as
 many samples as its order

---
 core/lib/Math/PowerSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/PowerSum.cpp b/core/lib/Math/PowerSum.cpp
index 65ec95c..3d0516c 100644
--- a/core/lib/Math/PowerSum.cpp
+++ b/core/lib/Math/PowerSum.cpp
@@ -82,7 +82,7 @@ namespace gpstk
    /// computing the central moments from the power sums.
    double PowerSum::moment(int i) const throw()
    {
-      if ( i > order || i >= n)
+      if ( i > order || i > n)
          return 0;
 
       double m=0;
-- 
2.43.0


From d79a8253ffc7582fc135878a5861d05730d09aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 36/44] fix: IonoModel of an almanac took its parameters, kept
 per radian, as per semi-circle

---
 core/lib/GNSSCore/IonoModel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index 39ff98b..a831d29 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -60,8 +60,10 @@ namespace gpstk
    {
       try
       {
-         engalm.getIon(alpha, beta);
-         valid = true;
+            // the almanac keeps the parameters in powers of inverse radians
+         double a[4], b[4];
+         engalm.getIon(a, b);
+         setModel(a, b, false);
       }
       catch(InvalidRequest& e)
       {
-- 
2.43.0


From a080aedeff2d75b0edf1805edd1fb96b0bc04f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 37/44] fix: IonoModel left the local time above a day for
 receivers just west of Greenwich

---
 core/lib/GNSSCore/IonoModel.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index a831d29..b39c71f 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -140,10 +140,8 @@ namespace gpstk
          iPER = 72000.0;
 
       double t = 43200.0 * lambda_i + YDSTime(time).sod;
-      if (t >= 86400.0)
-         t -= 86400.0;
-      if (t < 0)
-         t += 86400.0;
+         // lambda_i may reach 2 semi-circles, so this may take off two days
+      t -= 86400.0 * std::floor(t / 86400.0);
 
       double x = TWO_PI * (t - 50400.0) / iPER; // x is in radians
 
-- 
2.43.0


From ad274b09de91664bfdbdcd9d6a1b15e3d5bdcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 38/44] fix: setAllParameters of the Neill and MOPS troposphere
 models stored the height as latitude

---
 core/lib/GNSSCore/MOPSTropModel.cpp  | 2 +-
 core/lib/GNSSCore/NeillTropModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index 98564b1..e35d564 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -474,7 +474,7 @@ namespace gpstk
       validTime = true;
       MOPSLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      MOPSLat = rxPos.getHeight();
+      MOPSHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 5380016..fbd601c 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -562,7 +562,7 @@ namespace gpstk
       validDOY = true;
       NeillLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      NeillLat = rxPos.getHeight();
+      NeillHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
-- 
2.43.0


From 6e1fb14113bbf2ea7c50968ed405397486f57ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 39/44] fix: troposphere model constructors left validity flags
 uninitialised

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 1 +
 core/lib/GNSSCore/MOPSTropModel.cpp     | 2 ++
 core/lib/GNSSCore/MOPSTropModel.hpp     | 1 +
 core/lib/GNSSCore/NBTropModel.cpp       | 4 +++-
 core/lib/GNSSCore/NeillTropModel.cpp    | 1 +
 core/lib/GNSSCore/NeillTropModel.hpp    | 2 ++
 core/lib/GNSSCore/SaasTropModel.cpp     | 1 +
 7 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 5103908..880aa7c 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -60,6 +60,7 @@ namespace gpstk
 
    GGHeightTropModel::GGHeightTropModel(void)
    {
+      valid = false;
       validWeather = false; //setWeather(20.0,980.0,50.0);
       validHeights = false; //setHeights(0.0,0.0,0.0);
       validRxHeight = false;
diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index e35d564..84ab60e 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -113,6 +113,7 @@ namespace gpstk
    MOPSTropModel::MOPSTropModel( const double& ht,
                                  const double& lat,
                                  const int& doy )
+         : validHeight(false), validLat(false), validTime(false)
    {
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
@@ -127,6 +128,7 @@ namespace gpstk
        * @param time Time.
        */
    MOPSTropModel::MOPSTropModel(const Position& RX, const CommonTime& time)
+         : validHeight(false), validLat(false), validTime(false)
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude());
diff --git a/core/lib/GNSSCore/MOPSTropModel.hpp b/core/lib/GNSSCore/MOPSTropModel.hpp
index 1590472..4e93df3 100644
--- a/core/lib/GNSSCore/MOPSTropModel.hpp
+++ b/core/lib/GNSSCore/MOPSTropModel.hpp
@@ -94,6 +94,7 @@ namespace gpstk
           * @param ht   Height of the receiver above mean sea level, in meters.
           */
       MOPSTropModel(const double& ht)
+            : validHeight(false), validLat(false), validTime(false)
       { setReceiverHeight(ht); };
 
 
diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index d2ff523..03b1a97 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -159,7 +159,9 @@ namespace gpstk
       // Default constructor
    NBTropModel::NBTropModel(void):
       validWeather(false), validRxLatitude(false), validDOY(false),validRxHeight(false)
-   {}
+   {
+      valid = false;
+   }
 
       // Create a trop model using the minimum information: latitude and doy.
       // Interpolate the weather unless setWeather (optional) is called.
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index fbd601c..f2dc458 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -95,6 +95,7 @@ namespace gpstk
       // @param time Time.
    NeillTropModel::NeillTropModel( const Position& RX,
                                    const CommonTime& time )
+         : validHeight(false), validLat(false), validDOY(false)
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude( ));
diff --git a/core/lib/GNSSCore/NeillTropModel.hpp b/core/lib/GNSSCore/NeillTropModel.hpp
index 341a909..074b449 100644
--- a/core/lib/GNSSCore/NeillTropModel.hpp
+++ b/core/lib/GNSSCore/NeillTropModel.hpp
@@ -99,6 +99,7 @@ namespace gpstk
          /// @param ht   Height of the receiver above mean sea level, in
          ///             meters.
       NeillTropModel(const double& ht)
+            : validHeight(false), validLat(false), validDOY(false)
       { setReceiverHeight(ht); };
 
 
@@ -113,6 +114,7 @@ namespace gpstk
       NeillTropModel( const double& ht,
                       const double& lat,
                       const int& doy )
+            : validHeight(false), validLat(false), validDOY(false)
       { setReceiverHeight(ht); setReceiverLatitude(lat); setDayOfYear(doy); };
 
 
diff --git a/core/lib/GNSSCore/SaasTropModel.cpp b/core/lib/GNSSCore/SaasTropModel.cpp
index 39610ee..d16578a 100644
--- a/core/lib/GNSSCore/SaasTropModel.cpp
+++ b/core/lib/GNSSCore/SaasTropModel.cpp
@@ -105,6 +105,7 @@ namespace gpstk
       // Default constructor
    SaasTropModel::SaasTropModel(void)
    {
+      valid = false;
       validWeather = false;
       validRxLatitude = false;
       validDOY = false;
-- 
2.43.0


From 97cfff4cbc0d8fa773e09ee552263a378776f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 40/44] fix: NBTropModel::setWeather humidity handling and
 validity flag

---
 core/lib/GNSSCore/NBTropModel.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index 03b1a97..c67ae79 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -379,10 +379,18 @@ namespace gpstk
                                 const double& H)
    {
       interpolateWeather=false;
-      TropModel::setWeather(T,P,H);
+      try
+      {
+         TropModel::setWeather(T,P,H);
+      }
+      catch(InvalidParameter& e)
+      {
+         valid = validWeather = false;
+         GPSTK_RETHROW(e);
+      }
             // humid actually stores water vapor partial pressure
       double th=300./temp;
-      humid = 2.409e9*H*th*th*th*th*std::exp(-22.64*th);
+      humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
       validWeather = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
 
@@ -396,10 +404,8 @@ namespace gpstk
       interpolateWeather = false;
       try
       {
+            // calls setWeather(T,P,H), which converts the humidity
          TropModel::setWeather(wx);
-            // humid actually stores vapor partial pressure
-         double th=300./temp;
-         humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
          validWeather = true;
          valid = validWeather && validRxHeight && validRxLatitude && validDOY;
       }
-- 
2.43.0


From 65d72fd838ba12c12efd0c0a8064a786452b75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 41/44] fix: GGHeightTropModel dry zenith delay used the wrong
 reference height

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 880aa7c..d6eeb95 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -162,7 +162,7 @@ namespace gpstk
    {
       THROW_IF_INVALID_DETAILED();
       double hrate=6.5e-3;
-      double Ts=temp+hrate*height;
+      double Ts=temp+hrate*htemp;
       double em=978.77/(2.8704e4*hrate);
       double Tp=Ts-hrate*hpress;
       double ps=press*std::pow(Ts/Tp,em)/1000.0;
-- 
2.43.0


From a22c5b817aa998816ff15cc472ad6958b7c83dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 42/44] fix: SaasTropModel::setWeather accepted impossible or
 incomplete weather

---
 core/lib/GNSSCore/SaasTropModel.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSCore/SaasTropModel.cpp b/core/lib/GNSSCore/SaasTropModel.cpp
index d16578a..b52101e 100644
--- a/core/lib/GNSSCore/SaasTropModel.cpp
+++ b/core/lib/GNSSCore/SaasTropModel.cpp
@@ -359,11 +359,21 @@ namespace gpstk
                                   const double& P,
                                   const double& H)
    {
+      try
+      {
+            // refuse impossible weather, as all models do
+         TropModel::setWeather(T,P,H);
+      }
+      catch(InvalidParameter& e)
+      {
+         valid = validWeather = false;
+         GPSTK_RETHROW(e);
+      }
+         // temp is in degrees Celsius in this model
       temp = T;
-      press = P;
          // humid actually stores water vapor partial pressure
       double exp=7.5*T/(T+237.3);
-      humid = 6.11 * (H/100.) * std::pow(10.0,exp);
+      humid = 6.11 * (humid/100.) * std::pow(10.0,exp);
 
       validWeather = true;
       valid = (validWeather && validRxHeight && validRxLatitude && validDOY);
@@ -375,15 +385,13 @@ namespace gpstk
       // @param wx the weather to use for this correction
    void SaasTropModel::setWeather(const WxObservation& wx)
    {
-      try
-      {
-         SaasTropModel::setWeather(wx.temperature,wx.pressure,wx.humidity);
-      }
-      catch(InvalidParameter& e)
+      if (!wx.isAllValid())
       {
          valid = validWeather = false;
-         GPSTK_RETHROW(e);
+         InvalidParameter e("Invalid weather data.");
+         GPSTK_THROW(e);
       }
+      SaasTropModel::setWeather(wx.temperature,wx.pressure,wx.humidity);
    }
 
       // Define the receiver height; this required before calling
-- 
2.43.0


From 53868f6b2e1ba3772e1aa013ef8de8b3e9db95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:56 +0000
Subject: [PATCH 43/44] fix: GlobalTropModel lost parameters equal to those it
 held and left members undefined

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 14 +++++++-------
 core/lib/GNSSCore/GlobalTropModel.hpp |  5 ++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 58e94a4..6030185 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -338,9 +338,9 @@ namespace gpstk
    {
       try {
          double p;
-         p = RX.getAltitude();         if(p != height) setReceiverHeight(p);
-         p = RX.getGeodeticLatitude(); if(p != latitude) setReceiverLatitude(p);
-         p = RX.getLongitude();        if(p != longitude) setReceiverLongitude(p);
+         p = RX.getAltitude();         setReceiverHeight(p);
+         p = RX.getGeodeticLatitude(); setReceiverLatitude(p);
+         p = RX.getLongitude();        setReceiverLongitude(p);
       }
       catch(GeometryException& e) {
          validHeight = validLat = valid = false;
@@ -557,7 +557,7 @@ namespace gpstk
    // @param ht   Height of the receiver above mean sea level, in meters.
    void GlobalTropModel::setReceiverHeight(const double& ht)
    {
-      if(height != ht) {
+      if(!validHeight || height != ht) {
          height = ht; 
          validHeight = true;
          validCoeff = false;
@@ -570,7 +570,7 @@ namespace gpstk
    // @param lat  Latitude of receiver, in degrees.
    void GlobalTropModel::setReceiverLatitude(const double& lat)
    {
-      if(latitude != lat) {
+      if(!validLat || latitude != lat) {
          latitude = lat;
          validLat = true;
          validCoeff = false;
@@ -583,7 +583,7 @@ namespace gpstk
    // @param lat  Longitude of receiver, in degrees East.
    void GlobalTropModel::setReceiverLongitude(const double& lon)
    {
-      if(longitude != lon) {
+      if(!validLon || longitude != lon) {
          longitude = lon;
          validLon = true;
          validCoeff = false;
@@ -597,7 +597,7 @@ namespace gpstk
    void GlobalTropModel::setTime(const double& mjd)
    {
       double df(TWO_PI*(mjd - 44266.0)/365.25);       // -44239 + 1 - 28
-      if(df != dayfactor) {
+      if(!validDay || df != dayfactor) {
          dayfactor = df;
          validDay = true;
          validCoeff = false;
diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 28b3e09..8741514 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -110,9 +110,8 @@ namespace gpstk
       /// @param mjd  MJD (double)
       GlobalTropModel(const double& ht, const double& lat, const double& lon,
                       const double& mjd)
+            : GlobalTropModel()
       {
-         validCoeff = validHeight = validLat = validLon = validDay = valid =
-            false;
          setReceiverHeight(ht);
          setReceiverLatitude(lat);
          setReceiverLongitude(lon);
@@ -124,8 +123,8 @@ namespace gpstk
       /// @param RX   Receiver position.
       /// @param time Time.
       GlobalTropModel(const Position& RX, const CommonTime& time)
+            : GlobalTropModel()
       {
-         validCoeff = validHeight = validLat = validLon = validDay = valid = false;
          setReceiverHeight(RX.getAltitude());
          setReceiverLatitude(RX.getGeodeticLatitude());
          setReceiverLongitude(RX.getLongitude());
-- 
2.43.0


From ee3445206be17b385f602351457d00c7a6d09d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:56 +0000
Subject: [PATCH 44/44] fix: GlobalTropModel stayed valid after a refused
 height, and gave a wet delay while invalid

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 1 +
 core/lib/GNSSCore/GlobalTropModel.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 6030185..62be5de 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -374,6 +374,7 @@ namespace gpstk
    // the troposphere. Ref. Leick, 3rd ed, pg 197, Leick, 4th ed, pg 482.
    double GlobalTropModel::wet_zenith_delay() const
    {
+      try { testValidity(); } catch(InvalidTropModel& e) { GPSTK_RETHROW(e); }
       double T = temp + CELSIUS_TO_KELVIN;
       double pwv = 0.01 * humid * ::exp(-37.2465 + (0.213166-0.000256908*T)*T);
       return (0.0122 + 0.00943 * pwv);
diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 8741514..dc126d9 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -340,7 +340,7 @@ namespace gpstk
                validCoeff = true;
                getGPT(press,temp,undul);
             }
-         } catch(Exception& e) { GPSTK_RETHROW(e); }
+         } catch(Exception& e) { valid = validCoeff = false; GPSTK_RETHROW(e); }
       }
 
    }; // end class GlobalTropModel
-- 
2.43.0

