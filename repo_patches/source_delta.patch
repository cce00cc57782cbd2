From 689b09ef048e13f8d2bc50b8f1e1eaa3f2d0d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 001/201] fix: UnixTime before 1970 converts to CommonTime with
 floor division

---
 core/lib/TimeHandling/UnixTime.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/UnixTime.cpp b/core/lib/TimeHandling/UnixTime.cpp
index 546a589..93d1e96 100644
--- a/core/lib/TimeHandling/UnixTime.cpp
+++ b/core/lib/TimeHandling/UnixTime.cpp
@@ -56,8 +56,17 @@ namespace gpstk
       try
       {
          CommonTime ct;
-         return ct.set( ( MJD_JDAY + UNIX_MJD + tv.tv_sec / SEC_PER_DAY ),
-                        ( tv.tv_sec % SEC_PER_DAY ),
+            // Split into whole days and a non-negative second of day, so
+            // that times before 1970 (negative tv_sec) are handled too.
+         long day = tv.tv_sec / SEC_PER_DAY;
+         long sod = tv.tv_sec % SEC_PER_DAY;
+         if (sod < 0)
+         {
+            sod += SEC_PER_DAY;
+            --day;
+         }
+         return ct.set( ( MJD_JDAY + UNIX_MJD + day ),
+                        sod,
                         ( static_cast<double>( tv.tv_usec ) * 1e-6 ),
                         timeSystem );
       }
-- 
2.43.0


From 1af7bc8b64597b208fba621439d8239260b4366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 002/201] fix: scan time formats that have a precision but no
 field width

---
 core/lib/TimeHandling/TimeTag.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeTag.cpp b/core/lib/TimeHandling/TimeTag.cpp
index 1d656f0..eb1b8d2 100644
--- a/core/lib/TimeHandling/TimeTag.cpp
+++ b/core/lib/TimeHandling/TimeTag.cpp
@@ -106,12 +106,14 @@ namespace gpstk
                          << "f:\"" << f << "\"" << std::endl
                          << "s:\"" << s << "\"" << std::endl;
 
+            long fieldWidth = 0;
+
             if( !isalpha( f[0] ) )
             {
                // If the format string is %03f, get '3' as the field length.
                // This is where we have a specified field length so we should
                // not throw away any more characters
-               fieldLength = asInt( f );
+               fieldWidth = asInt( f );
 
                // remove everything else up to the next character
                // (in "%03f", that would be 'f')
@@ -121,6 +123,12 @@ namespace gpstk
                if ( f.empty() )
                   break;
             }
+
+            // A format such as "%.9Q" has a precision but no field width.
+            if( fieldWidth > 0 )
+            {
+               fieldLength = fieldWidth;
+            }
             else
             {
                // When there is no field width specified, there must be a
-- 
2.43.0


From 304f32d340cb367fe624ffe7f06f4c5c2fd9f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 003/201] fix: mixedScanTime read BDS, GAL, QZS and IRN weeks
 from uninitialized variables

---
 core/lib/TimeHandling/TimeString.cpp | 48 +++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index aa52bdd..c24b2f8 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -672,14 +672,46 @@ namespace gpstk
                   iepoch = asInt(itr->second);
                   break;
 
-               case 'D': hfullweek = hbdsfw = true; break;
-               case 'e': hweek = hbdsw = true; break;
-               case 'L': hfullweek = hgalfw = true; break;
-               case 'l': hweek = hgalw = true; break;
-               case 'I': hfullweek = hqzsfw = true; break;
-               case 'i': hweek = hqzsw = true; break;
-               case 'O': hfullweek = hirnfw = true; break;
-               case 'o': hweek = hirnw = true; break;
+               case 'D':
+                  hfullweek = hbdsfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'e':
+                  hweek = hbdsw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'L':
+                  hfullweek = hgalfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'l':
+                  hweek = hgalw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'h':
+               case 'I':
+                  hfullweek = hqzsfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'i':
+                  hweek = hqzsw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'O':
+                  hfullweek = hirnfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'o':
+                  hweek = hirnw = true;
+                  iweek = asInt(itr->second);
+                  break;
 
                default:
                      // do nothing
-- 
2.43.0


From a25c73b3851227a6a19a1fca71138d00a5f0f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 004/201] fix: QZSWeekSecond reads the time system from its
 name, as the other tags do

---
 core/lib/TimeHandling/QZSWeekSecond.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 4ced809..95677ff 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -189,7 +189,7 @@ namespace gpstk
                   sow = gpstk::StringUtils::asDouble( i->second );
                   break;
                case 'P':
-                  timeSystem = static_cast<TimeSystem>(gpstk::StringUtils::asInt( i->second ));
+                  timeSystem = gpstk::StringUtils::asTimeSystem(i->second);
                   break;
                default:
                      // do nothing
-- 
2.43.0


From 55288b683288757486656007fe5d882351f4d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 005/201] fix: a scanned day of week no longer overrides the
 scanned second of week or Z-count

---
 core/lib/TimeHandling/BDSWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/GALWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/GPSWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/GPSWeekZcount.cpp | 7 ++++++-
 core/lib/TimeHandling/IRNWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/QZSWeekSecond.hpp | 6 +++++-
 6 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/core/lib/TimeHandling/BDSWeekSecond.hpp b/core/lib/TimeHandling/BDSWeekSecond.hpp
index 7f236d1..cbbacad 100644
--- a/core/lib/TimeHandling/BDSWeekSecond.hpp
+++ b/core/lib/TimeHandling/BDSWeekSecond.hpp
@@ -185,7 +185,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // second of week, if present, already includes the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/GALWeekSecond.hpp b/core/lib/TimeHandling/GALWeekSecond.hpp
index 7275710..e20afa7 100644
--- a/core/lib/TimeHandling/GALWeekSecond.hpp
+++ b/core/lib/TimeHandling/GALWeekSecond.hpp
@@ -183,7 +183,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // second of week, if present, already includes the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/GPSWeekSecond.hpp b/core/lib/TimeHandling/GPSWeekSecond.hpp
index ca915a2..c1693cf 100644
--- a/core/lib/TimeHandling/GPSWeekSecond.hpp
+++ b/core/lib/TimeHandling/GPSWeekSecond.hpp
@@ -213,7 +213,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // second of week, if present, already includes the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index a3f6ad1..4774be7 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -169,7 +169,12 @@ namespace gpstk
                week = asInt( i->second );
                break;
             case 'w':
-               zcount = asInt( i->second) * ZCOUNT_PER_DAY;
+                  // a Z-count, if present, already includes the day
+               if (info.find('Z') == info.end() && info.find('c') == info.end() &&
+                   info.find('C') == info.end())
+               {
+                  zcount = asInt( i->second) * ZCOUNT_PER_DAY;
+               }
                break;
 
             case 'z':
diff --git a/core/lib/TimeHandling/IRNWeekSecond.hpp b/core/lib/TimeHandling/IRNWeekSecond.hpp
index 903cbf2..8a4e8d1 100755
--- a/core/lib/TimeHandling/IRNWeekSecond.hpp
+++ b/core/lib/TimeHandling/IRNWeekSecond.hpp
@@ -185,7 +185,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // second of week, if present, already includes the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 95677ff..9c6bd4e 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -183,7 +183,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // second of week, if present, already includes the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
-- 
2.43.0


From 63b85d79070da559e8869b0a8fbc48439fffd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 006/201] fix: Week::MAXWEEK returned the value of whichever
 system asked first

---
 core/lib/TimeHandling/Week.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/Week.hpp b/core/lib/TimeHandling/Week.hpp
index 40a73e2..2a24096 100644
--- a/core/lib/TimeHandling/Week.hpp
+++ b/core/lib/TimeHandling/Week.hpp
@@ -114,7 +114,7 @@ namespace gpstk
           * from CommonTime would work. */
       int MAXWEEK(void) const
       {
-         static const int mw=(CommonTime::END_LIMIT_JDAY - MJD_JDAY - MJDEpoch()) / 7;
+         const int mw=(CommonTime::END_LIMIT_JDAY - MJD_JDAY - MJDEpoch()) / 7;
          return mw;
       }
 
-- 
2.43.0


From 1d663ec446b3cf07e5b8684f50f5ff021eed3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 007/201] fix: getLeapSeconds uses the fraction of the day
 before 1972

---
 core/lib/RefTime/TimeSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/RefTime/TimeSystem.cpp b/core/lib/RefTime/TimeSystem.cpp
index 78d8f44..8877e0d 100644
--- a/core/lib/RefTime/TimeSystem.cpp
+++ b/core/lib/RefTime/TimeSystem.cpp
@@ -150,7 +150,7 @@ namespace gpstk
                // rec.month >= month
                // watch out - cannot use CommonTime here
             int iday(static_cast<int>(day));
-            double dday(static_cast<double>(iday-int(day)));
+            double dday(day-iday);
             if (iday == 0)
             {
                iday = 1;
-- 
2.43.0


From a888bb6d5889bc9196c629bb74c503b6ee042da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 008/201] fix: Z-count addition of many weeks is refused, not
 wrapped; time blocks before the offset

---
 core/lib/TimeHandling/GPSWeekZcount.cpp | 65 ++++++++++---------------
 core/lib/TimeHandling/GPSZcount.cpp     | 20 ++++++--
 2 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/core/lib/TimeHandling/GPSWeekZcount.cpp b/core/lib/TimeHandling/GPSWeekZcount.cpp
index 4774be7..ccc8783 100644
--- a/core/lib/TimeHandling/GPSWeekZcount.cpp
+++ b/core/lib/TimeHandling/GPSWeekZcount.cpp
@@ -38,6 +38,7 @@
 
 /// @file GPSWeekZcount.cpp
 
+#include <cmath>
 #include "GPSWeekZcount.hpp"
 #include "TimeConstants.hpp"
 #include "TimeConverters.hpp"
@@ -232,12 +233,12 @@ namespace gpstk
 
    GPSWeekZcount& GPSWeekZcount::addWeeks(short inWeeks)
    {
-      week += inWeeks;
-      if (week < 0)
+      if (week + inWeeks < 0)
       {
          gpstk::InvalidRequest exc("addWeeks results in negative week");
          GPSTK_THROW(exc);
       }
+      week += inWeeks;
       return *this;
    }
 
@@ -247,48 +248,32 @@ namespace gpstk
       if (inZcounts == 0)
          return *this;
 
-      short originalWeek(week);
-      long originalZcount(zcount);
+      long newWeek = week + inZcounts / ZCOUNT_PER_WEEK;
+      long newZcount = long(zcount) + inZcounts % ZCOUNT_PER_WEEK;
 
-      try
+      if (newZcount < 0)
       {
-            // First, do week modifications.
-         addWeeks(inZcounts / ZCOUNT_PER_WEEK);
-
-            // Now, take care of Z-counts.
-         long tmp = zcount + (inZcounts % ZCOUNT_PER_WEEK);
-
-         if (tmp < 0)
-         {
-            addWeeks(-1);
-            tmp += ZCOUNT_PER_WEEK;
-         }
-         else if (tmp >= ZCOUNT_PER_WEEK)
-         {
-            addWeeks(1);
-            tmp -= ZCOUNT_PER_WEEK;
-         }
-
-         zcount = tmp;
-         return *this;
+         newWeek--;
+         newZcount += ZCOUNT_PER_WEEK;
       }
-      catch (gpstk::InvalidRequest& ir)
+      else if (newZcount >= ZCOUNT_PER_WEEK)
       {
-         week = originalWeek;
-         zcount = originalZcount;
-         ir.addText("Did not add " + StringUtils::asString(inZcounts) +
-                    " Z-counts.");
-         GPSTK_RETHROW(ir);
+         newWeek++;
+         newZcount -= ZCOUNT_PER_WEEK;
       }
-      catch (gpstk::InvalidParameter& ip)
+
+      if (newWeek < 0 || newWeek > MAX_WEEK)
       {
-         week = originalWeek;
-         zcount = originalZcount;
-         gpstk::InvalidRequest ir(ip);
+         gpstk::InvalidRequest ir("Addition of Z-counts results in an"
+                                  " invalid week");
          ir.addText("Did not add " + StringUtils::asString(inZcounts) +
                     " Z-counts.");
          GPSTK_THROW(ir);
       }
+
+      week = newWeek;
+      zcount = newZcount;
+      return *this;
    }
 
 
@@ -362,8 +347,10 @@ namespace gpstk
             // Make sure that we're in the same week, and then checkto
             // see if we're in the same time block.
          if ((week == other.week) &&
-             (((zcount - inZcountOffset) / inZcountBlock) ==
-              ((other.zcount - inZcountOffset) / inZcountBlock)))
+             (std::floor((double(zcount) - double(inZcountOffset))
+                         / inZcountBlock) ==
+              std::floor((double(other.zcount) - double(inZcountOffset))
+                         / inZcountBlock)))
          {
             return true;
          }
@@ -371,8 +358,10 @@ namespace gpstk
       else
       {
             // Comare using the total number of Z-counts
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (std::floor((double(getTotalZcounts()) - double(inZcountOffset))
+                        / inZcountBlock) ==
+             std::floor((double(other.getTotalZcounts()) - double(inZcountOffset))
+                        / inZcountBlock))
          {
             return true;
          }
diff --git a/core/lib/TimeHandling/GPSZcount.cpp b/core/lib/TimeHandling/GPSZcount.cpp
index 63d62fb..b37ad12 100644
--- a/core/lib/TimeHandling/GPSZcount.cpp
+++ b/core/lib/TimeHandling/GPSZcount.cpp
@@ -42,6 +42,7 @@
  */
 
 #include <limits>
+#include <cmath>
 
 #include "GPSZcount.hpp"
 #include "StringUtils.hpp"
@@ -163,7 +164,14 @@ namespace gpstk
       try
       {
             // First, do week modifications.
-         addWeeks(inZcounts / ZCOUNT_WEEK);
+         long weeks = inZcounts / ZCOUNT_WEEK;
+         if (weeks != static_cast<short>(weeks))
+         {
+            gpstk::InvalidRequest ir("Addition of " + asString(weeks) +
+                                     " weeks renders this object invalid.");
+            GPSTK_THROW(ir);
+         }
+         addWeeks(weeks);
 
             // Now, take care of Z-counts.
          long tmp = zcount + (inZcounts % ZCOUNT_WEEK);
@@ -330,8 +338,10 @@ namespace gpstk
             // Make sure that we're in the same week, and then check to see if
             // we're in the same time block
          if ( (getWeek() == other.getWeek()) &&
-              (((getZcount() - inZcountOffset) / inZcountBlock) ==
-               ((other.getZcount() - inZcountOffset) / inZcountBlock)) )
+              (std::floor((double(getZcount()) - double(inZcountOffset))
+                          / inZcountBlock) ==
+               std::floor((double(other.getZcount()) - double(inZcountOffset))
+                          / inZcountBlock)) )
          {
             return true;
          }
@@ -339,8 +349,8 @@ namespace gpstk
       else // inZcountBlock >= ZCOUNT_WEEK
       {
             // Compare using the total number of Z-counts.
-         if (long((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
-             long((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
+         if (std::floor((getTotalZcounts() - inZcountOffset) / inZcountBlock) ==
+             std::floor((other.getTotalZcounts() - inZcountOffset) / inZcountBlock))
          {
             return true;
          }
-- 
2.43.0


From 1dc20412c2a4c6391fc8da50149ea3fc46dc3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 009/201] fix: TimeRange operator< orders by start time also
 when only the right start is inclusive

---
 core/lib/TimeHandling/TimeRange.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..672cd2a 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -194,8 +194,11 @@ namespace gpstk
         {
           return true; 
         }
+        return false;
      }
-     return false;
+
+        // Left is NOT inclusive but right is.
+     return (start<right.start);
    }
 
       // True if start/end of this object are both prior
-- 
2.43.0


From d56034ddb94431a12f557dcc2d6db6a6a6ce4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 010/201] fix: StringUtils::translate uses the pad character
 when there are no output characters

---
 core/lib/Utilities/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 19266eb..8b629dc 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1491,7 +1491,7 @@ namespace gpstk
          {
                // figure out which char we found;
             inpos = inputChars.find(rv[aspos]);
-            if (outputChars.length()-1 < inpos)
+            if (inpos >= outputChars.length())
                toc = pad;
             else
                toc = outputChars[inpos];
-- 
2.43.0


From 34e9c21cfb73f92f07f35072f3d3cb8b16cbaeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 011/201] fix: StringUtils::words and firstWord return an empty
 string when there is no such word

---
 core/lib/Utilities/StringUtils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 8b629dc..7f987af 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2125,11 +2125,11 @@ namespace gpstk
       {
          try
          {
-               // return s if there are no delimiters
+               // there is no word if there is nothing but delimiters
             std::string::size_type pos = s.find_first_not_of(delimiter);
             if (pos == std::string::npos)
             {
-               return s;
+               return std::string();
             }
                // find the end delimiter (if any) and return the string
             std::string::size_type endPos = s.find(delimiter, pos);
@@ -2217,7 +2217,7 @@ namespace gpstk
             }
 
             if (pos == std::string::npos)
-               return ((wordNum >= firstWord) ? s.substr(startPos) : "");
+               return ((wordNum > firstWord) ? s.substr(startPos) : "");
                
             return s.substr(startPos, pos-startPos);
          }
-- 
2.43.0


From 02c776e508684463ff2a872f29bed5577a0f2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 012/201] fix: StringUtils::d2x and x2d replace the whole
 number and leave the rest of the string

---
 core/lib/Utilities/StringUtils.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 7f987af..debafab 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1696,10 +1696,16 @@ namespace gpstk
          {
                // remove the integer from s, including
                // leading spaces and 0's
-            long l = asInt(s);
-            stripLeading(s);
-            stripLeading(s, "0");
-            stripLeading(s, asString<long>(l));
+            long l = 0;
+            std::istringstream is(s);
+            if (is >> l)
+               s.erase(0, is.eof() ? std::string::npos
+                                   : (std::string::size_type)is.tellg());
+            else
+            {
+               l = 0;
+               stripLeading(s);
+            }
 
                // put the int in a stringstream to convert it
             std::ostringstream st;
@@ -1788,17 +1794,18 @@ namespace gpstk
                // ex. ' 0x003' -> '3'
             stripLeading(s);
             stripLeading(s, "0x", 1);
-            stripLeading(s, "0");
 
-               // make the stringstream, get the integer, and
-               // remove it from the string
-            std::istringstream strstr(s);
-            int i = 0;
+               // find the hex digits, get the integer, and
+               // remove them from the string
+            std::string::size_type len =
+               s.find_first_not_of("0123456789abcdefABCDEF");
+            std::istringstream strstr(s.substr(0, len));
+            unsigned long i = 0;
             strstr >> std::hex >> i;
-            stripLeading(s, asString<int>(asInt(s)), 1);
+            s.erase(0, len);
 
                // append the decimal to the existing string
-            s.insert(0,asString<int>(i));
+            s.insert(0,asString<unsigned long>(i));
             return s;
          }
          catch(StringException &e)
-- 
2.43.0


From 9e32d5d97ec3e38626aa48e83e14f8e710b067af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 013/201] fix: StringUtils::replaceAll of an empty string no
 longer loops forever

---
 core/lib/Utilities/StringUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index debafab..92cf31e 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1844,8 +1844,11 @@ namespace gpstk
       {
          try
          {
-            int spot = s.find(oldString, 0);
-            while (spot != (int)std::string::npos)
+               // an empty string matches everywhere, forever
+            if (oldString.empty())
+               return s;
+            std::string::size_type spot = s.find(oldString, 0);
+            while (spot != std::string::npos)
             {
                s.replace(spot, oldString.length(), newString);
                spot += newString.length();
-- 
2.43.0


From ba5befc5a5d978d23c09f8ae20d3845006e1aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 014/201] fix: StringUtils::removeWords of no words removes
 nothing

---
 core/lib/Utilities/StringUtils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 92cf31e..b652faf 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2427,7 +2427,12 @@ namespace gpstk
          {
             std::string::size_type rmStart = std::string::npos;
             std::string::size_type rmCount = std::string::npos;
-            
+
+            if (wordsToReplace == 0)
+            {
+               return s;
+            }
+
                // Find start of word 0
             std::string::size_type sPos = s.find_first_not_of(delimiter);
 
@@ -2445,7 +2450,8 @@ namespace gpstk
                   }
                }
                else if (  (wordsToReplace != std::string::npos)
-                       && (thisWord >= first + wordsToReplace))
+                       && (thisWord > first)
+                       && (thisWord - first >= wordsToReplace))
                {
                   rmCount = sPos - rmStart;
                   break;
-- 
2.43.0


From d1e5719399933deda2e36dd13b8e1551fce198f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 015/201] fix: StringUtils::subString with its default length
 returns the rest of the string

---
 core/lib/Utilities/StringUtils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index b652faf..3a4c54f 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2082,6 +2082,11 @@ namespace gpstk
       {
          try
          {
+            if(length == std::string::npos)
+            {
+                  // no length requested, so there is nothing to pad to
+               return startPos >= s.length() ? std::string() : s.substr(startPos);
+            }
             if(startPos >= s.length())
             {
                return std::string(length, pad);
-- 
2.43.0


From ccc4d4252b96a67bf86cfe4eaf4c692d1da72c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 016/201] fix: StringUtils::doubleToScientific computes the
 least length it needs

---
 core/lib/Utilities/StringUtils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 3a4c54f..dd1cfa0 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2537,9 +2537,9 @@ namespace gpstk
          std::string::size_type leng = (length > 0 ? length : 1);
 
             // i will be minimum length required with prec==1: force leng if necessary
-         size_t i = (int(leng) - int(elen) - 4);
-         if(showPlus) i--;
-         if(i > 0 && leng < i) leng = std::string::size_type(i);
+         std::string::size_type i = prec + elen + 4;
+         if(showPlus) i++;
+         if(leng < i) leng = i;
 
             // set up the stream for writing
          std::stringstream ss;
-- 
2.43.0


From 95c5dec4fead50998a2b0772bee677f06969162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 017/201] fix: floatFormat no longer writes outside its string
 for non-finite values and one-digit mantissas

---
 core/lib/Utilities/StringUtils.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.cpp b/core/lib/Utilities/StringUtils.cpp
index d95505f..767ba00 100644
--- a/core/lib/Utilities/StringUtils.cpp
+++ b/core/lib/Utilities/StringUtils.cpp
@@ -41,6 +41,7 @@
  * Implementation of GPSTK string utility functions.
  */
 
+#include <cmath>
 #include "StringUtils.hpp"
 
 /* The DEBUG_COL macro is used to help debug issues with column
@@ -214,6 +215,11 @@ namespace gpstk
          std::ostringstream oss;
          std::string rv;
          std::string::size_type pos;
+            // Shifting the decimal point needs a finite value times 10
+         if (!std::isfinite(d*10))
+         {
+            lead = FFLead::NonZero;
+         }
          switch (sign)
          {
             case FFSign::NegOnly:
@@ -233,8 +239,8 @@ namespace gpstk
                   // because we're shifting the decimal point, we multiply by 10
                   // mantissa-2 because we're adding a digit that
                   // isn't present in std c++ iostream.
-               oss << std::scientific << std::setprecision(mantissa-2)
-                   << (d*10);
+               oss << std::scientific << std::showpoint
+                   << std::setprecision(mantissa-2) << (d*10);
                rv = oss.str();
                   // move the decimal
                pos = rv.find('.');
@@ -244,8 +250,8 @@ namespace gpstk
                break;
             case FFLead::Decimal:
                   // because we're shifting the decimal point, we multiply by 10
-               oss << std::scientific << std::setprecision(mantissa-1)
-                   << (d*10);
+               oss << std::scientific << std::showpoint
+                   << std::setprecision(mantissa-1) << (d*10);
                rv = oss.str();
                   // move the decimal
                pos = rv.find('.');
@@ -260,11 +266,14 @@ namespace gpstk
          }
             // change the exponent size if needed
          pos = rv.find('e');
-         unsigned currentExpSize = rv.length() - (pos+2);
-         if (currentExpSize < exponent)
-            rv.insert(pos+2, exponent - currentExpSize, '0');
-            // change exponent character
-         rv[pos] = expChar;
+         if (pos != std::string::npos)
+         {
+            unsigned currentExpSize = rv.length() - (pos+2);
+            if (currentExpSize < exponent)
+               rv.insert(pos+2, exponent - currentExpSize, '0');
+               // change exponent character
+            rv[pos] = expChar;
+         }
             // fill according to alignment request
          if (rv.length() < width)
          {
-- 
2.43.0


From 154af48617844d2c2f1b48055a382f86f5d0ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 018/201] fix: StringUtils::doubleToScientific and doub2for
 keep all digits of the exponent

---
 core/lib/Utilities/StringUtils.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index dd1cfa0..ead5382 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2556,9 +2556,10 @@ namespace gpstk
          str2 = str1.substr(0,pos+2);        // str2 = +123.2345e+
          str1 = str1.substr(pos+2);          // str1 = exponent only
 
-            // make the exponent length elen
-         str2 += StringUtils::rightJustify(
-            StringUtils::asString(StringUtils::asInt(str1)),elen,'0');
+            // make the exponent length elen, or more if it needs more digits
+         str1 = StringUtils::asString(StringUtils::asInt(str1));
+         if(str1.length() < elen) StringUtils::rightJustify(str1,elen,'0');
+         str2 += str1;
 
             // pad if necessary
          if(str2.length() < leng) str2 = StringUtils::rightJustify(str2,leng);
@@ -2636,7 +2637,11 @@ namespace gpstk
                }
                else
                   aStr += "+";
-               aStr += rightJustify(asString(iexp),expLen,'0');
+                  // never cut off digits of the exponent
+               exp = asString(iexp);
+               if (exp.length() < expLen)
+                  rightJustify(exp,expLen,'0');
+               aStr += exp;
 
             }
 
-- 
2.43.0


From ff48edb56a70ccd54780d78a87b0a5dda2777f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 019/201] fix: StringUtils::words keeps the last word of a
 string without trailing delimiter

---
 core/lib/Utilities/StringUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index ead5382..c1cc38a 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2210,7 +2210,7 @@ namespace gpstk
                return "";
                
             std::string::size_type wordNum = 0;
-            std::string::size_type pos = 0, startPos = 0;
+            std::string::size_type pos = 0, startPos = std::string::npos;
 
             std::string toReturn;
 
@@ -2232,7 +2232,7 @@ namespace gpstk
             }
 
             if (pos == std::string::npos)
-               return ((wordNum > firstWord) ? s.substr(startPos) : "");
+               return ((startPos != std::string::npos) ? s.substr(startPos) : "");
                
             return s.substr(startPos, pos-startPos);
          }
-- 
2.43.0


From c8fca0825fa85ca06667ee8ac525548f7bfaf4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 020/201] fix: Expression: evaluate ^, functions, copies and
 malformed input correctly

^ was accepted but never evaluated, set() returned an uninitialised value,
copies lost digits and the parentheses of functions, functions at the start
of the expression or directly nested in another, and acos/asin/atan/log10 were
not recognised, and a missing argument or operator read past the tokens or
looped for ever; such input now throws ExpressionException.
---
 ext/lib/Math/Expression.cpp | 100 ++++++++++++++++++++++++++++++------
 ext/lib/Math/Expression.hpp |  10 ++++
 2 files changed, 95 insertions(+), 15 deletions(-)

diff --git a/ext/lib/Math/Expression.cpp b/ext/lib/Math/Expression.cpp
index 7432fe0..b430d71 100644
--- a/ext/lib/Math/Expression.cpp
+++ b/ext/lib/Math/Expression.cpp
@@ -69,6 +69,7 @@ namespace gpstk
       if (op=="-") return leftVal - rightVal;
       if (op=="*") return leftVal * rightVal;
       if (op=="/") return leftVal / rightVal;
+      if (op=="^") return ::pow(leftVal, rightVal);
 
       // else THROW exception
       GPSTK_THROW(ExpressionException());
@@ -97,8 +98,9 @@ namespace gpstk
    }
 
    std::ostream& Expression::FuncOpNode::print(std::ostream& ostr) {
-      ostr << op;
+      ostr << op << "(";
       right->print(ostr);
+      ostr << ")";
 
       return ostr;
    }
@@ -263,6 +265,29 @@ namespace gpstk
          delete (*i);
    }
    
+   bool Expression::isWholeName(const std::string& str,
+                                const std::vector<int>& order,
+                                std::string::size_type position,
+                                const std::string& name)
+   {
+      for (std::string::size_type k=1; k<name.size(); k++)
+         if (order[position+k] != order[position])
+            return false;
+
+         // look for a longer name that covers this one
+      std::map<std::string,int>::const_iterator it;
+      for (it=operatorMap.begin(); it!=operatorMap.end(); it++)
+      {
+         std::string::size_type offset = it->first.find(name);
+         if ((it->first.size() > name.size()) &&
+             (offset != std::string::npos) && (offset <= position) &&
+             (str.compare(position-offset, it->first.size(), it->first) == 0) &&
+             isWholeName(str, order, position-offset, it->first))
+            return false;
+      }
+      return true;
+   }
+
    void Expression::tokenize(const std::string& istr)
    {
       using namespace std;
@@ -316,9 +341,17 @@ namespace gpstk
 
       for (it=operatorMap.begin(); it!=operatorMap.end(); it++)
       {
-         std::string::size_type position = 0;
+            // A sign which starts the expression is part of the number
+            // that follows.
+         bool isSign = ((it->first=="+") || (it->first=="-"));
+         std::string::size_type position = (isSign ? 0 : string::npos);
          while ((position=str.find(it->first,position+1))!=string::npos)
          {
+               // The name must not be part of a longer one (cos of acos),
+               // nor continue across a parenthesis (log10 of log(10)).
+            if (!isWholeName(str, baseOrder, position, it->first))
+               continue;
+
             // Account for scientific notation
             bool sciNotation=false;
             if ((it->first=="+") || (it->first=="-")) 
@@ -338,8 +371,10 @@ namespace gpstk
 
                int operandPos = position+(it->first.size());
                breaks.push_back(operandPos);
-               breakPriority[operandPos] = baseOrder[operandPos];
-               breakType[operandPos] = false;
+                  // unless another operator or function follows directly
+               if (!breakType[operandPos])
+                  breakPriority[operandPos] =
+                     (operandPos < (int)baseOrder.size() ? baseOrder[operandPos] : 0);
             }
          }
          
@@ -379,7 +414,14 @@ namespace gpstk
                if (isalpha(testChar))
                   expNode = new VarNode(thisToken);
                else
+               {
+                  if (!StringUtils::isScientificString(thisToken))
+                  {
+                     ExpressionException ee("Not a number: " + thisToken);
+                     GPSTK_THROW(ee);
+                  }
                   expNode = new ConstNode(StringUtils::asDouble(thisToken));
+               }
                eList.push_back(expNode);
                tok.setNode(expNode);
                tok.setResolved(true);
@@ -414,6 +456,12 @@ namespace gpstk
        
       list<Token>::iterator itt, targetToken;
 
+      if (tList.empty())
+      {
+         ExpressionException ee("Empty expression");
+         GPSTK_THROW(ee);
+      }
+
       if ((tList.size()==1)&&(tList.begin()->getResolved()))
       {
          root = tList.begin()->getNode();
@@ -463,10 +511,12 @@ namespace gpstk
 
                      while (searching)
                      {
-                        if (rightArg==tList.end())// TODO throw exception
-                           cout << "Mistake, no right arg for " << targetToken->getValue() << endl;
-                        else
                         rightArg++;
+                        if (rightArg==tList.end())
+                        {
+                           ExpressionException ee("No right argument for " + targetToken->getValue());
+                           GPSTK_THROW(ee);
+                        }
 
                         searching = (rightArg->getUsed());
                      }
@@ -480,10 +530,12 @@ namespace gpstk
 
                      while (searching)
                      {
-                        if (leftArg == tList.begin()) // TODO throw
-                           cout << "Mistake - no right argument for operator?!" << endl;
-                        else
-                           leftArg--;
+                        if (leftArg == tList.begin())
+                        {
+                           ExpressionException ee("No left argument for " + targetToken->getValue());
+                           GPSTK_THROW(ee);
+                        }
+                        leftArg--;
 
                         searching = (leftArg->getUsed());
                      }
@@ -491,7 +543,14 @@ namespace gpstk
                      break;
                } // end of argumentPattern cases
             } // done processing argument list
-            
+
+               // an argument must be an operand or an operation already built
+            if (rightArg->getNode() == 0 ||
+                (leftArg != targetToken && leftArg->getNode() == 0))
+            {
+               ExpressionException ee("Missing argument for " + targetToken->getValue());
+               GPSTK_THROW(ee);
+            }
             
            if (targetToken->getArgumentPattern()=="RL")
            {
@@ -525,8 +584,19 @@ namespace gpstk
 
          // Are we done yet?
          totalResolved = countResolvedTokens();
-      }      
-      
+      }
+
+         // Only the root is not an argument of something else
+      size_t unused = 0;
+      for (itt = tList.begin(); itt !=tList.end(); itt++)
+      {
+         if (!itt->getUsed()) unused++;
+      }
+      if (unused != 1)
+      {
+         ExpressionException ee("Missing operator");
+         GPSTK_THROW(ee);
+      }
    } // end buildExpressionTree
    
 
@@ -534,7 +604,7 @@ namespace gpstk
    {
       using namespace std;
       
-      bool gotSet;
+      bool gotSet = false;
 
       std::list<ExpNode *>::iterator i;
       int t;
diff --git a/ext/lib/Math/Expression.hpp b/ext/lib/Math/Expression.hpp
index a0ad9cd..5949c9e 100644
--- a/ext/lib/Math/Expression.hpp
+++ b/ext/lib/Math/Expression.hpp
@@ -49,6 +49,7 @@
 #include <string>
 #include <list>
 #include <map>
+#include <vector>
 
 #include "RinexObsHeader.hpp"
 #include "RinexObsData.hpp"
@@ -217,7 +218,10 @@ namespace gpstk
                { return number; }
 
             std::ostream& print(std::ostream& ostr) {
+                  // all digits, as copies are made from this text
+               std::streamsize prec = ostr.precision(17);
                ostr << number;
+               ostr.precision(prec);
                return ostr;
             }
 
@@ -342,6 +346,12 @@ namespace gpstk
 
          void defineOperators(void);
          void tokenize(const std::string& str);
+            /** Is the operator name at this position of str whole, and not
+             * part of a longer name or broken by a parenthesis? */
+         static bool isWholeName(const std::string& str,
+                                 const std::vector<int>& order,
+                                 std::string::size_type position,
+                                 const std::string& name);
          void buildExpressionTree(void);
 
          int countResolvedTokens(void);   
-- 
2.43.0


From 3963413ff5d4f3e4557dcdefa210bccc72198f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 021/201] fix: Vector: front() and toStdVector() return the
 right elements, slices compile, cross() checks both sizes

---
 core/lib/Math/Vector/Vector.hpp          | 14 +++++++-------
 core/lib/Math/Vector/VectorOperators.hpp |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 468366d..da51a5e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -198,9 +198,9 @@ namespace gpstk
          /// STL const iterator end
       const_iterator end() const { return v + s; }
          /// STL front
-      value_type front() { return v[s-1]; }
+      value_type front() { return v[0]; }
          /// STL const front
-      const_reference front() const { return v[s-1];}
+      const_reference front() const { return v[0];}
          /// STL empty
       bool empty() const { return size() == 0; }
          /// STL size
@@ -287,10 +287,10 @@ namespace gpstk
          // convert the gpstk vector to std vector
       std::vector<T> toStdVector()
       {
-         std::vector<T> v;
+         std::vector<T> toReturn;
          for(size_t i = 0; i < s; i++)
-            v.push_back(v[i] );
-         return v;
+            toReturn.push_back(v[i]);
+         return toReturn;
       }
 
       inline Vector& operator<<(const Vector& b)
@@ -395,7 +395,7 @@ namespace gpstk
          /// Makes a slice of the vector with the given std::slice.
       VectorSlice(Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Assign the elements of this slice from another vector.
       template <class V>
@@ -461,7 +461,7 @@ namespace gpstk
          /// Uses the given slice and vector.
       ConstVectorSlice(const Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Returns a const version of the i'th slice element.
       T operator[] (size_t i) const
diff --git a/core/lib/Math/Vector/VectorOperators.hpp b/core/lib/Math/Vector/VectorOperators.hpp
index a3865d0..018b82a 100644
--- a/core/lib/Math/Vector/VectorOperators.hpp
+++ b/core/lib/Math/Vector/VectorOperators.hpp
@@ -167,7 +167,7 @@ namespace gpstk
    Vector<T> cross(const ConstVectorBase<T, BaseClass>& l, 
                    const ConstVectorBase<T, BaseClass2>& r)
    { 
-      if ((l.size() != 3) && (r.size() != 3))
+      if ((l.size() != 3) || (r.size() != 3))
       {
          VectorException e("Cross product requires vectors of size 3");
          GPSTK_THROW(e);
-- 
2.43.0


From ff3ec65620909e3f4b6be60ebb1ace1ef74878b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 022/201] fix: Matrix: column norm, const column slice and
 concatenation with a vector use the right elements

---
 core/lib/Math/Matrix/MatrixBaseOperators.hpp  | 4 ++--
 core/lib/Math/Matrix/MatrixImplementation.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixBaseOperators.hpp b/core/lib/Math/Matrix/MatrixBaseOperators.hpp
index 19ec466..7629820 100644
--- a/core/lib/Math/Matrix/MatrixBaseOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixBaseOperators.hpp
@@ -132,10 +132,10 @@ namespace gpstk
    {
       T sum(0), tempSum;
       size_t i,j;
-      for (i = 0; i < m.rows(); i++)
+      for (j = 0; j < m.cols(); j++)
       {
          tempSum = T(0);
-         for (j = 0; j < m.cols(); j++)
+         for (i = 0; i < m.rows(); i++)
             tempSum += ABS(m(i,j));
          if (tempSum > sum)
             sum = tempSum;
diff --git a/core/lib/Math/Matrix/MatrixImplementation.hpp b/core/lib/Math/Matrix/MatrixImplementation.hpp
index e52b097..f5e8dda 100644
--- a/core/lib/Math/Matrix/MatrixImplementation.hpp
+++ b/core/lib/Math/Matrix/MatrixImplementation.hpp
@@ -128,7 +128,7 @@ namespace gpstk
                                          size_t rowNum) const
    {
       return ConstMatrixColSlice<T>(*this, colNum,
-                                    std::slice(colNum * r + rowNum, r - rowNum, 1));
+                                    std::slice(rowNum, r - rowNum, 1));
    }
 
    template <class T>
-- 
2.43.0


From 38524b6abb04250e4f53efa0d1084d5c5576fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 023/201] fix: Matrix: vector concatenation indexes its source,
 inverse() pivots on the largest element

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 31 +++++++++++-------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 03644a1..3c60d44 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -136,7 +136,7 @@ namespace gpstk
 
       for (rows = 1; rows < b.rows()+1; rows++)
          for (cols = 0; cols < b.cols(); cols++)
-            toReturn(rows, cols) = b(rows, cols);
+            toReturn(rows, cols) = b(rows-1, cols);
 
       return toReturn;
    }
@@ -224,7 +224,7 @@ namespace gpstk
 
       for (cols = 1; cols < r.cols()+1; cols++)
          for (rows = 0; rows < r.rows(); rows++)
-            toReturn(rows, cols) = r(rows, cols);
+            toReturn(rows, cols) = r(rows, cols-1);
 
       return toReturn;
    }
@@ -543,24 +543,21 @@ namespace gpstk
 
       for (r = 0; r < m.rows(); r++)
       {
-            // if m(r,r) is zero, find another row
-            // to add to it...
-         if (toReturn(r,r) == 0)
-         {
-            t = r+1;
-            while ( (t < m.rows()) && (toReturn(t,r) == 0) )
-               t++;
-
-            if (t == m.rows())
-            {
-               SingularMatrixException e("Singular matrix");
-               GPSTK_THROW(e);
-            }
+            // use the row with the largest element in this column
+         size_t pivot(r);
+         for (t = r+1; t < m.rows(); t++)
+            if (ABS(toReturn(t,r)) > ABS(toReturn(pivot,r)))
+               pivot = t;
 
-            for (j = r; j < toReturn.cols(); j++)
-               toReturn(r,j) += (toReturn(t,j) / toReturn(t,r));
+         if (toReturn(pivot,r) == T(0))
+         {
+            SingularMatrixException e("Singular matrix");
+            GPSTK_THROW(e);
          }
 
+         if (pivot != r)
+            toReturn.swapRows(pivot, r);
+
             // scale this row's (r,r)'th element to 1
          temp = toReturn(r,r);
          for (j = r; j < toReturn.cols(); j++)
-- 
2.43.0


From 83fc4e52632edf20365ec28fe889f47e88285ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 024/201] fix: Matrix: SVD of a matrix with zero norm,
 Householder of the last column when rows exceed columns

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index 9ee0845..e370047 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -210,7 +210,7 @@ namespace gpstk
                bool flag = true;
                for(l = k; ; l--) {
                   nm = l - 1;
-                  if (ABS(B[l])/MAX(ABS(B[l]),anorm) < eps) {
+                  if (ABS(B[l]) <= eps*MAX(ABS(B[l]),anorm)) {
                      flag = false;
                      break;
                   }
@@ -218,7 +218,7 @@ namespace gpstk
                      MatrixException e("SVD algorithm has nm==-1");
                      GPSTK_THROW(e);
                   }
-                  if (ABS(S[nm])/MAX(ABS(S[nm]),anorm) < eps) break;
+                  if (ABS(S[nm]) <= eps*MAX(ABS(S[nm]),anorm)) break;
                   if(l == 0) break; // since l is unsigned...
                }
                if (flag) {
@@ -227,7 +227,7 @@ namespace gpstk
                   for(i = l; i <= k; i++) {
                      f = s * B[i];
                      B[i] = c * B[i];
-                     if (ABS(f)/MAX(ABS(f),anorm) < eps) break;
+                     if (ABS(f) <= eps*MAX(ABS(f),anorm)) break;
                      g = S[i];
                      h = RSS(f,g);
                      S[i] = h;
@@ -771,7 +771,7 @@ namespace gpstk
 
             // loop over cols
          const T EPS(1.e-200);
-         for(j=0; (j<A.cols()-1 && j<A.rows()-1); j++) {
+         for(j=0; (j<A.cols() && j+1<A.rows()); j++) {
             sum = T(0);
                // loop over rows at diagonal and below
             for(i=j; i<A.rows(); i++) {
-- 
2.43.0


From 19b38c815c9197c136c60e545b6f2f332ddff51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 025/201] fix: Stats Subtract, Load, WtdStats and
 TwoSampleStats of few or no samples

---
 core/lib/Math/Stats.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index a9e3f45..2986144 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -178,7 +178,7 @@ namespace gpstk
       void Subtract(const T& x)           // Stats
       {
          if(n < 1) return;       // TD throw
-         if(n == 1) { n = 0; return; }
+         if(n == 1) { Reset(); return; }
          T sx(x/scale);
          sum -= sx;
          sum2 -= sx*sx;
@@ -268,17 +268,17 @@ namespace gpstk
       /// NB zero-fill rather than throwing
       void Load(const std::vector<unsigned int>& vuint, const std::vector<T>& vT)
       {
-         if(vuint.size() < 2 || vT.size() < 4) {
+         if(vuint.size() < 2 || vT.size() < 5) {
             n = 0;
             setScale = false;
-            scale = T(0);
+            scale = T(1);
             min = T(0); max = T(0);
             sum = T(0); sum2 = T(0);
          }
          else {
             n = vuint[0];
             setScale = (vuint[1] != 0);
-            scale = vT[0];
+            scale = setScale ? vT[0] : T(1);
             min = vT[1]; max = vT[2];
             sum = vT[3]; sum2 = vT[4];
          }
@@ -487,6 +487,7 @@ namespace gpstk
       /// NB. Minimum() and Maximum() may no longer be valid.
       SeqStats<T>& operator-=(const SeqStats<T>& S)
       {
+         if(S.n == 0) return *this;
          if(n <= S.n) { n=0; return *this; }
 
          T newave = T(n)*ave - T(S.n)*S.ave;
@@ -621,12 +622,13 @@ namespace gpstk
    {
    public:
       /// constructor
-      WtdStats() { }
+      WtdStats() : WtNorm(T()) { }
 
       /// constructor given a gpstk::Vector<T> of data, with weights
       WtdStats(Vector<T>& X, Vector<T>& W)
       {
          SeqStats<T>::n = 0;
+         WtNorm = T();
          Add(X,W);
       }
 
@@ -690,7 +692,7 @@ namespace gpstk
       inline void Add(std::vector<T>& X, std::vector<T>& W)    // WtdStats
       {
          for(size_t i=0; i<(X.size()>W.size() ? W.size():X.size()); i++)
-            Add(X(i),W(i));
+            Add(X[i],W[i]);
       }
 
       /// remove a gpstk::Vector<T> of samples, with weights
@@ -710,7 +712,7 @@ namespace gpstk
       inline void Subtract(std::vector<T>& X, std::vector<T>& W)     // WtdStats
       {
          size_t i, nn(X.size() > W.size() ? W.size() : X.size());
-         for(i=0; i<nn; i++) Subtract(X(i),W(i));
+         for(i=0; i<nn; i++) Subtract(X[i],W[i]);
       }
 
       // combine two objects -------------------------------------------
@@ -744,6 +746,7 @@ namespace gpstk
       /// NB. Minimum() and Maximum() may no longer be valid.
       WtdStats<T>& operator-=(const WtdStats<T>& S)
       {
+         if(S.n == 0) return *this;
          if(SeqStats<T>::n <= S.n) { SeqStats<T>::n=0; return *this; }
 
          T newave = WtNorm*SeqStats<T>::ave - S.WtNorm*S.ave;
@@ -820,7 +823,8 @@ namespace gpstk
       }
 
       /// return normalization = sum of weights
-      inline T WtsSum(void) const { return WtNorm; }     // WtdStats
+      inline T WtsSum(void) const
+         { if(SeqStats<T>::n) return WtNorm; else return T(); }     // WtdStats
 
    protected:
       T WtNorm;               ///< Normalization constant = sum weights
@@ -978,10 +982,10 @@ namespace gpstk
       {
          size_t i;
          std::vector<unsigned int> vi2;
-         std::vector<double> vt2;
+         std::vector<T> vt2;
          if(vuint.size() < 5 || vT.size() < 11) {
             vuint.clear();
-            for(i=0; i<5; i++) vT.push_back(T(0));
+            for(i=0; i<5; i++) vuint.push_back(0);
             vT.clear();
             for(i=0; i<11; i++) vT.push_back(T(0));
          }
@@ -1111,8 +1115,9 @@ namespace gpstk
       inline T VarianceYX(void) const
       {
          if(n > 2) {
-            return (VarianceY() * (T(n-1)/T(n-2))
-                       * (T(1)-Correlation()*Correlation()));
+            T corr(Correlation());
+            if(ABS(corr) >= T(1)) return T();            // rounding
+            return (VarianceY() * (T(n-1)/T(n-2)) * (T(1)-corr*corr));
          }
          else return T();
       }
-- 
2.43.0


From 0daf93626b68b61eb0ace1a7942db781c03d3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 026/201] fix: BivarStats scale, subtract of pairs and merging
 of empty accumulators

---
 core/lib/Math/BivarStats.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index 1641484..916971a 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -213,8 +213,9 @@ namespace gpstk
 
       if (scaled)
       {
-         if (scaleX==T(1) && x!=T()) scaleX=ABS(x);
-         if (scaleY==T(1) && y!=T()) scaleY=ABS(y);
+            // the scale can be chosen only while nothing has been summed
+         if (sumX==T() && sumX2==T() && sumXY==T() && x!=T()) scaleX=ABS(x);
+         if (sumY==T() && sumY2==T() && sumXY==T() && y!=T()) scaleY=ABS(y);
          T tx(x/scaleX);
          T ty(y/scaleY);
          sumX += tx;
@@ -312,7 +313,7 @@ namespace gpstk
    void BivarStats<T>::subtract(const std::vector< std::pair<T, T> >& d)
    {
       size_t max( d.size() );
-      for (size_t i=0; i<max; d++)
+      for (size_t i=0; i<max; i++)
          subtract(d[i].first, d[i].second);
    }
 
@@ -409,8 +410,12 @@ namespace gpstk
    T BivarStats<T>::sigmaYX(void) const
    {
       if (ns>2)
+      {
+         T corr(correlation());
+         if (ABS(corr) >= T(1)) return T();        // rounding
          return (stdDevY() * SQRT(T(ns-1) / T(ns-2))
-                 * SQRT(T(1) - correlation() * correlation()) );
+                 * SQRT(T(1) - corr * corr) );
+      }
       else return T();
    }
 
@@ -419,7 +424,17 @@ namespace gpstk
    template<class T>
    BivarStats<T>& BivarStats<T>::operator+=(BivarStats<T>& S)
    {
-      if(ns + S.ns == 0) return *this;
+      if(S.ns == 0) return *this;
+      if(ns == 0)
+      {
+         sumX = sumY = sumX2 = sumY2 = sumXY = T(0);
+         xMin = S.xMin;
+         xMax = S.xMax;
+         yMin = S.yMin;
+         yMax = S.yMax;
+         scaleX = scaled ? S.scaleX : T(1);
+         scaleY = scaled ? S.scaleY : T(1);
+      }
       xMin = std::min(xMin, S.xMin);
       xMax = std::max(xMax, S.xMax);
       yMin = std::min(yMin, S.yMin);
-- 
2.43.0


From 5455121e3428ff7004c159ed6b84c595670b61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 027/201] fix: PowerSum moments need n samples, not n+1

---
 core/lib/Math/PowerSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/PowerSum.cpp b/core/lib/Math/PowerSum.cpp
index 65ec95c..3d0516c 100644
--- a/core/lib/Math/PowerSum.cpp
+++ b/core/lib/Math/PowerSum.cpp
@@ -82,7 +82,7 @@ namespace gpstk
    /// computing the central moments from the power sums.
    double PowerSum::moment(int i) const throw()
    {
-      if ( i > order || i >= n)
+      if ( i > order || i > n)
          return 0;
 
       double m=0;
-- 
2.43.0


From f20db210623a07526afe32363dc1487059b559e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 028/201] fix: CubicSpline evaluation at the first knot after a
 larger abscissa read before the array

---
 ext/lib/Geomatics/CubicSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/CubicSpline.hpp b/ext/lib/Geomatics/CubicSpline.hpp
index 0ee8c80..0693609 100644
--- a/ext/lib/Geomatics/CubicSpline.hpp
+++ b/ext/lib/Geomatics/CubicSpline.hpp
@@ -171,7 +171,7 @@ namespace gpstk
                while(x[i] > X[k]) k++;  // move up
             }
             else if(k > 0 && x[i] < X[k-1]) {
-               while(x[i] <= X[k-1]) k--;    // move down
+               while(k > 0 && x[i] <= X[k-1]) k--;    // move down
             }
 
             if(x[i] == X[k])
-- 
2.43.0


From 5547eee4885051551b1fb2301b738b5f5f8cc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 029/201] fix: erf of tiny arguments and gamma above 143

---
 ext/lib/Math/SpecialFunctions.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Math/SpecialFunctions.cpp b/ext/lib/Math/SpecialFunctions.cpp
index 9f8a1a0..d54cdba 100644
--- a/ext/lib/Math/SpecialFunctions.cpp
+++ b/ext/lib/Math/SpecialFunctions.cpp
@@ -104,7 +104,11 @@ namespace gpstk
 
          double t (val + static_cast<double>(g) + 0.5);
 
-         return ( 2.5066282746310002 * pow( t, (val+0.5) ) * exp(-t) * x );
+            // The power is applied in two halves, as t^(val+0.5) overflows
+            // long before the gamma function does
+         double p( pow( t, 0.5*(val+0.5) ) );
+
+         return ( 2.5066282746310002 * p * exp(-t) * p * x );
 
       }
 
@@ -502,7 +506,7 @@ namespace gpstk
             return ( 1.128379167095512586316e+0 * x );
          }
 
-         return ( x * ( 2.28379167095512586316e-01 ) );
+         return ( x * ( 1.128379167095512586316e+0 ) );
       }
 
       double z( x*x );
-- 
2.43.0


From 36789fd9f22f4dc8ea5e836611256a4e868d2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 030/201] fix: Position conversions near the poles, longitudes
 beyond one turn, refusals and text formats

---
 core/lib/GNSSCore/Position.cpp | 95 ++++++++++++++++------------------
 1 file changed, 45 insertions(+), 50 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 8f674db..066ccb2 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -57,6 +57,14 @@ namespace gpstk
    using namespace std;
    using namespace StringUtils;
 
+      // Bring a longitude in degrees, however large, into the range [0,360)
+   static double wrapLongitude(double lon)
+   {
+      lon = ::fmod(lon, 360.0);
+      if(lon < 0) lon += 360.0;
+      return (lon >= 360.0 ? 0.0 : lon);
+   }
+
    // ----------- Part  1: coordinate systems --------------------------------
       // Labels for coordinate systems supported by Position
    static const char *SystemNames[] = {
@@ -146,6 +154,7 @@ namespace gpstk
          initialize(a,b,c,s,ell,frame);
       }
       catch(GeometryException& ge) {
+         GPSTK_RETHROW(ge);
       }
    }
 
@@ -513,10 +522,7 @@ namespace gpstk
       theArray[0] = lat;
 
       theArray[1] = lon;
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = wrapLongitude(theArray[1]);
 
       theArray[2] = ht;
 
@@ -555,10 +561,7 @@ namespace gpstk
       theArray[1] = lon;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = wrapLongitude(theArray[1]);
       system = Geocentric;
 
       return *this;
@@ -591,10 +594,7 @@ namespace gpstk
       theArray[1] = phi;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = wrapLongitude(theArray[1]);
       system = Spherical;
 
       return *this;
@@ -714,6 +714,9 @@ namespace gpstk
             if (!isalpha(f[0]))
             {
                fieldLength = asInt(f);
+                  // a format like %.3f has a precision but no field length
+               if (fieldLength == 0)
+                  fieldLength = string::npos;
 
                   // remove everything else up to the next character
                   // (in "%03f", that would be 'f')
@@ -809,19 +812,13 @@ namespace gpstk
                case 'L':
                case 'l':
                   lon = asDouble(toBeRemoved);
-                  if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
-                  else if(lon >= 360)
-                     lon -= 360*(unsigned long)(lon/360);
+                  lon = wrapLongitude(lon);
                   hlon = true;
                   break;
                case 'w':
                case 'W':
                   lon = 360.0 - asDouble(toBeRemoved);
-                  if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
-                  else if(lon >= 360)
-                     lon -= 360*(unsigned long)(lon/360);
+                  lon = wrapLongitude(lon);
                   hlon = true;
                   break;
           //%t   theta() (degrees)
@@ -837,7 +834,7 @@ namespace gpstk
                   break;
                case 'T':
                   theta = asDouble(toBeRemoved) * RAD_TO_DEG;
-                  if(theta > 90. || theta < -90.) {
+                  if(theta > 180. || theta < 0.) {
                      InvalidRequest f("Invalid theta for setTostring: "
                                                 + toBeRemoved);
                      GPSTK_THROW(f);
@@ -848,18 +845,12 @@ namespace gpstk
           //%P   phi() (radians)
                case 'p':
                   phi = asDouble(toBeRemoved);
-                  if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
-                  else if(phi >= 360)
-                     phi -= 360*(unsigned long)(phi/360);
+                  phi = wrapLongitude(phi);
                   hphi = true;
                   break;
                case 'P':
                   phi = asDouble(toBeRemoved) * RAD_TO_DEG;
-                  if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
-                  else if(phi >= 360)
-                     phi -= 360*(unsigned long)(phi/360);
+                  phi = wrapLongitude(phi);
                   hphi = true;
                   break;
           //%r   radius() meters
@@ -1072,7 +1063,7 @@ namespace gpstk
          tpr[1] = 0;
          return;
       }
-      tpr[0] = ::acos(xyz[2]/tpr[2]);
+      tpr[0] = ::atan2(RSS(xyz[0],xyz[1]), xyz[2]);
       tpr[0] *= RAD_TO_DEG;
       if(RSS(xyz[0],xyz[1]) < Position::POSITION_TOLERANCE/5) {       // pole
          tpr[1] = 0;
@@ -1080,7 +1071,7 @@ namespace gpstk
       }
       tpr[1] = ::atan2(xyz[1],xyz[0]);
       tpr[1] *= RAD_TO_DEG;
-      if(tpr[1] < 0) tpr[1] += 360;
+      tpr[1] = wrapLongitude(tpr[1]);
    }
 
       // Fundamental routine to convert cartesian (ECEF) to geodetic coordinates,
@@ -1097,7 +1088,7 @@ namespace gpstk
                                              const double eccSq)
       throw()
    {
-      double p,slat,N,htold,latold;
+      double p,slat,clat,N,htold,latold;
       p = SQRT(xyz[0]*xyz[0]+xyz[1]*xyz[1]);
       if(p < Position::POSITION_TOLERANCE/5) {  // pole or origin
          llh[0] = (xyz[2] > 0 ? 90.0: -90.0);
@@ -1111,7 +1102,9 @@ namespace gpstk
          slat = ::sin(llh[0]);
          N = A / SQRT(1.0 - eccSq*slat*slat);
          htold = llh[2];
-         llh[2] = p/::cos(llh[0]) - N;
+         clat = ::cos(llh[0]);
+            // the first form loses its accuracy close to the polar axis
+         llh[2] = (p > 0.01*::fabs(xyz[2]) ? p/clat - N : p*clat + xyz[2]*slat - A*A/N);
          latold = llh[0];
          llh[0] = ::atan2(xyz[2], p*(1.0-eccSq*(N/(N+llh[2]))));
          if(::fabs(llh[0]-latold) < 1.0e-9 && fabs(llh[2]-htold) < 1.0e-9 * A) break;
@@ -1119,7 +1112,7 @@ namespace gpstk
       llh[1] = ::atan2(xyz[1],xyz[0]);
       if(llh[1] < 0.0) llh[1] += TWO_PI;
       llh[0] *= RAD_TO_DEG;
-      llh[1] *= RAD_TO_DEG;
+      llh[1] = wrapLongitude(llh[1] * RAD_TO_DEG);
    }
 
       // Fundamental routine to convert geodetic to cartesian (ECEF) coordinates,
@@ -1180,7 +1173,7 @@ namespace gpstk
                                                const double eccSq)
       throw()
    {
-      double cl,p,sl,slat,N,htold,latold;
+      double cl,p,sl,slat,clat,N,htold,latold;
       llh[1] = llr[1];   // longitude is unchanged
       cl = ::sin((90-llr[0])*DEG_TO_RAD);
       sl = ::cos((90-llr[0])*DEG_TO_RAD);
@@ -1206,7 +1199,9 @@ namespace gpstk
          slat = ::sin(llh[0]);
          N = A / SQRT(1.0 - eccSq*slat*slat);
          htold = llh[2];
-         llh[2] = p/::cos(llh[0]) - N;
+         clat = ::cos(llh[0]);
+            // the first form loses its accuracy close to the polar axis
+         llh[2] = (p > 0.01*::fabs(sl*llr[2]) ? p/clat - N : p*clat + sl*llr[2]*slat - A*A/N);
          latold = llh[0];
          llh[0] = ::atan2(sl, cl*(1.0-eccSq*(N/(N+llh[2]))));
          if(fabs(llh[0]-latold) < 1.0e-9 && ::fabs(llh[2]-htold) < 1.0e-9 * A) break;
@@ -1238,16 +1233,17 @@ namespace gpstk
          llr[0] = llr[1] = llr[2] = 0;
          return;
       }
-      if(1-::fabs(slat) < 1.e-10) {             // at the pole
+      double p = (N+llh[2])*::cos(llh[0]*DEG_TO_RAD);
+      if(::fabs(p) < Position::POSITION_TOLERANCE/5) {   // at the pole
          if(slat < 0) llr[0] = -90;
          else         llr[0] =  90;
          llr[1] = 0.0;
          return;
       }
-      // theta
-      llr[0] = ::acos((N*(1-eccSq)+llh[2])*slat/llr[2]);
+
+      // latitude
+      llr[0] = ::atan2((N*(1-eccSq)+llh[2])*slat, p);
       llr[0] *= RAD_TO_DEG;
-      llr[0] = 90 - llr[0];
    }
 
    // ----------- Part 11: operator<< and other useful functions -------------
@@ -1361,6 +1357,9 @@ namespace gpstk
       // Let's get cos(z), being z the angle with respect to local vertical (Up);
       cosUp = localUp/z.mag();
 
+         // rounding can take the cosine of the zenith direction beyond 1
+      if (cosUp > 1.0) cosUp = 1.0;
+      if (cosUp < -1.0) cosUp = -1.0;
       return 90.0 - ((::acos(cosUp))*RAD_TO_DEG);
    }
 
@@ -1472,11 +1471,13 @@ namespace gpstk
       double lat = Rx.theArray[0] * DEG_TO_RAD;
       double az = azim * DEG_TO_RAD;
       IPP.theArray[0] = std::asin(std::sin(lat)*std::cos(p) + std::cos(lat)*std::sin(p)*std::cos(az));
+         // atan2, as the longitudes differ by more than 90 degrees beyond the pole
       IPP.theArray[1] = Rx.theArray[1]*DEG_TO_RAD
-         + ::asin(::sin(p)*::sin(az)/::cos(IPP.theArray[0]));
+         + ::atan2(std::sin(p)*std::sin(az)*std::cos(lat),
+                   std::cos(p)-std::sin(lat)*std::sin(IPP.theArray[0]));
 
       IPP.theArray[0] *= RAD_TO_DEG;
-      IPP.theArray[1] *= RAD_TO_DEG;
+      IPP.theArray[1] = wrapLongitude(IPP.theArray[1]*RAD_TO_DEG);
       IPP.theArray[2] = AEarth + ionoht;
 
       // transform back
@@ -1542,10 +1543,7 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb = wrapLongitude(bb);
       }
       if(s==Geocentric || s==Spherical)
       {
@@ -1564,10 +1562,7 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb = wrapLongitude(bb);
       }
 
       theArray[0] = a;
-- 
2.43.0


From 303383abeaad404f61ba9c0c3cb5e946d0315e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 031/201] fix: GPSEllipsoid gm_km differs from gm

---
 core/lib/GNSSCore/GPSEllipsoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GPSEllipsoid.hpp b/core/lib/GNSSCore/GPSEllipsoid.hpp
index 06c7a9e..937d107 100644
--- a/core/lib/GNSSCore/GPSEllipsoid.hpp
+++ b/core/lib/GNSSCore/GPSEllipsoid.hpp
@@ -80,7 +80,7 @@ namespace gpstk
          /// derived from ICD-GPS-200C, 20.3.3.4.3.3 and Table 20-IV
          /// @return geocentric gravitational constant in km**3 / s**2
       virtual double gm_km() const throw()
-      { return 3.9860034e5; }
+      { return 3.986005e5; }
 
          /// defined in ICD-GPS-200C, 20.3.4.3
          /// @return Speed of light in m/s.
-- 
2.43.0


From 1244e880647e110cd8f9d3babf7ff9fc4f042845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 032/201] fix: Triple::toStdVector returned an empty vector

---
 core/lib/Math/Triple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Triple.cpp b/core/lib/Math/Triple.cpp
index a08109e..a805894 100644
--- a/core/lib/Math/Triple.cpp
+++ b/core/lib/Math/Triple.cpp
@@ -99,7 +99,7 @@ namespace gpstk
    std::vector<double> Triple::toStdVector()
    {
       std::vector<double> toReturn;
-      //for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
+      for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
       return toReturn;
    }
 
-- 
2.43.0


From 250fc1e699b69d0f804eb1f0fab6494133e6a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 033/201] fix: RinexObsID from a RINEX 2 type left the RINEX
 version uninitialised

---
 core/lib/GNSSCore/RinexObsID.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/RinexObsID.cpp b/core/lib/GNSSCore/RinexObsID.cpp
index 5e22a09..e104809 100644
--- a/core/lib/GNSSCore/RinexObsID.cpp
+++ b/core/lib/GNSSCore/RinexObsID.cpp
@@ -79,7 +79,7 @@ namespace gpstk
    /// Construct this object from the string specifier
 
    RinexObsID::RinexObsID(const RinexObsType& rot)
-         : ObsID()
+         : ObsID(), rinexVersion(Rinex3ObsBase::currentVersion)
    {
          // Note that the choice of tracking code for L1, L2, S1, S2
          // are arbitrary since they are ambiguous in the rinex 2
-- 
2.43.0


From cb4936684ce95127dc4c8db4a6f7fcc0cf55b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 034/201] fix: observation types added by newID read back as
 Unknown

---
 core/lib/GNSSCore/RinexObsID_Generated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/RinexObsID_Generated.cpp b/core/lib/GNSSCore/RinexObsID_Generated.cpp
index f010194..609bc69 100644
--- a/core/lib/GNSSCore/RinexObsID_Generated.cpp
+++ b/core/lib/GNSSCore/RinexObsID_Generated.cpp
@@ -359,7 +359,7 @@ namespace gpstk
             type = ObservationType::Undefined;
             break;
          default:
-            type = ObservationType::Unknown;
+               // keep the initial guess, which may be a type added by newID
             break;
       }
          // group first by rinex system ID
-- 
2.43.0


From c92689f72d8fdafbdb2128776e69d7b85f9aa0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 035/201] fix: NavTypeIterator started at its end value and
 visited nothing

---
 core/lib/GNSSEph/NavType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/NavType.hpp b/core/lib/GNSSEph/NavType.hpp
index f9030dc..0365cac 100644
--- a/core/lib/GNSSEph/NavType.hpp
+++ b/core/lib/GNSSEph/NavType.hpp
@@ -75,7 +75,7 @@ namespace gpstk
 
       /** Define an iterator so C++11 can do things like
        * for (NavType i : NavTypeIterator()) */
-   typedef EnumIterator<NavType, NavType::Unknown, NavType::Last> NavTypeIterator;
+   typedef EnumIterator<NavType, NavType::GPSLNAV, NavType::Last> NavTypeIterator;
 
    namespace StringUtils
    {
-- 
2.43.0


From 88a14f537c3c379cb1b874031e9349f1eb140ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 036/201] fix: RINEX 3 antenna zero direction records were
 dropped, marking the boresight valid instead

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index ed8030d..4fc53ff 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1172,14 +1172,14 @@ namespace gpstk
       else if(label == hsAntennaZeroDirAzi)
       {
          antennaZeroDirAzi = asDouble(line.substr(0,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirAzi;
       }
       else if(label == hsAntennaZeroDirXYZ)
       {
          antennaZeroDirXYZ[0] = asDouble(line.substr( 0,14));
          antennaZeroDirXYZ[1] = asDouble(line.substr(14,14));
          antennaZeroDirXYZ[2] = asDouble(line.substr(28,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirXYZ;
       }
       else if(label == hsCenterOfMass)
       {
-- 
2.43.0


From 5c76f389d7ca4d3d0fde56d2a7b5c2688dd80603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 037/201] fix: RINEX 3 scale factor records with continuation
 lines, several factors or all types

---
 .../FileHandling/RINEX3/Rinex3ObsHeader.cpp   | 47 +++++++++----------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 4fc53ff..9267ccf 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -831,8 +831,7 @@ namespace gpstk
                   line += string(1, ' ');
                   line += rightJustify(obsTypes[j], 3);
                }
-               int space = 60 - 10 - 4*(count % maxObsPerLine);
-               line += string(space, ' ');
+               line += string(60 - line.size(), ' ');
                line += hsSystemScaleFac;
                strm << line << endl;
                strm.lineNumber++;
@@ -1336,37 +1335,35 @@ namespace gpstk
          factor     = asInt(line.substr(2,4));
          numObs     = asInt(line.substr(8,2));
 
-         int startPosition = 0;
-
-         if(satSysTemp == "" )
+         bool contLine = (satSysTemp == "");
+         if(contLine)
          {
-               // it's a continuation line; use prev. info., end pt. to start
+               // it's a continuation line; use prev. info. and the
+               // number of types still to be read
             satSysTemp = satSysPrev;
             factor     = factorPrev;
             numObs     = numObsPrev;
-
-            startPosition = sysSfacMap[satSysTemp].size();
          }
 
-            // 0/blank numObs means factor applies to all obs types
-            // in appropriate obsTypeList
-         if(numObs == 0)
-            numObs = mapObsTypes[satSysTemp].size();
-
-         ScaleFacMap tempSfacMap = sysSfacMap[satSysTemp];
-         for(i = startPosition;
-             (i < numObs) && ((i % maxObsPerLine) < maxObsPerLine); i++)
+         ScaleFacMap& sfacMap(sysSfacMap[satSysTemp]);
+         if(numObs == 0 && !contLine)
          {
-            int position = 4*(i % maxObsPerLine) + 10 + 1;
-            RinexObsID tempType(satSysTemp+strip(line.substr(position,3)),
-                                version);
-            tempSfacMap.insert(make_pair(tempType,factor));
+               // 0/blank numObs means factor applies to all obs types
+               // in appropriate obsTypeList
+            const vector<RinexObsID>& types(mapObsTypes[satSysTemp]);
+            for(size_t j = 0; j < types.size(); j++)
+               sfacMap.insert(make_pair(types[j],factor));
+         }
+         else
+         {
+            for(i = 0; (numObs > 0) && (i < maxObsPerLine); i++, numObs--)
+            {
+               int position = 4*i + 10 + 1;
+               RinexObsID tempType(satSysTemp+strip(line.substr(position,3)),
+                                   version);
+               sfacMap.insert(make_pair(tempType,factor));
+            }
          }
-         sysSfacMap[satSysTemp] = tempSfacMap;
-
-         ScaleFacMap::const_iterator iter;
-         ScaleFacMap tempmap;
-         tempmap = sysSfacMap[satSysTemp];
 
             // save values in case next line is a continuation line
          satSysPrev = satSysTemp;
-- 
2.43.0


From 86d49092a2b061377eefdabbfdef94fecab6e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 038/201] fix: RINEX observation epochs without time were
 written without flag or in wrong columns

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 78836cb..d19698b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -83,10 +83,10 @@ namespace gpstk
          line += string(1, ' ');
          line += rightJustify(asString<short>(civTime.minute),2);
          line += rightJustify(asString(civTime.second, 7),11);
-         line += string(2, ' ');
-         line += rightJustify(asString<short>(rod.epochFlag), 1);
-         line += rightJustify(asString<short>(rod.numSVs), 3);
       }
+      line += string(2, ' ');
+      line += rightJustify(asString<short>(rod.epochFlag), 1);
+      line += rightJustify(asString<short>(rod.numSVs), 3);
 
          // write satellite ids to 'line'
       const size_t maxPrnsPerLine = 12;
@@ -788,7 +788,7 @@ namespace gpstk
    string Rinex3ObsData::writeTime(const CommonTime& ct) const
    {
       if(ct == CommonTime::BEGINNING_OF_TIME)
-         return string(26, ' ');
+         return string(28, ' ');
 
       CivilTime civtime(ct);
       string line;
-- 
2.43.0


From 5f802944251cf6e47e459251c30389f2cca62a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 039/201] fix: RINEX 2 observation epochs after the turn of the
 century were read a century early

---
 core/lib/FileHandling/RINEX/RinexObsData.cpp   | 4 ++++
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 864a082..997bb86 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -394,6 +394,10 @@ namespace gpstk
          // Real Rinex has epochs 'yy mm dd hr 59 60.0' surprisingly often....
          double ds=0;
          if(sec >= 60.) { ds=sec; sec=0.0; }
+            // the file may have run into the next century
+         if(yy+year < (static_cast<CivilTime>(hdr.firstObs)).year-50)
+            yy += 100;
+
          CivilTime rv(yy+year, month, day, hour, min, sec, TimeSystem::GPS);
          if(ds != 0) rv.second += ds;
 
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index d19698b..5dd2b10 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -456,6 +456,10 @@ namespace gpstk
                   ds=sec;
                   sec=0.0;
                }
+                  // the file may have run into the next century
+               if(yy+year < (static_cast<CivilTime>(strm.header.firstObs)).year-50)
+                  yy += 100;
+
                CivilTime rv(yy+year, month, day, hour, min, sec,
                             TimeSystem::GPS);
                if(ds != 0) rv.second += ds;
-- 
2.43.0


From 67dc5c469173586127c12d96cac10d1f4cab6997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 040/201] fix: epochs of RINEX 2 files were labelled GPS time
 whatever time system the header gives

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 5dd2b10..08b63b7 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -461,7 +461,7 @@ namespace gpstk
                   yy += 100;
 
                CivilTime rv(yy+year, month, day, hour, min, sec,
-                            TimeSystem::GPS);
+                            strm.timesystem);
                if(ds != 0) rv.second += ds;
 
                rod.time = rv.convertToCommonTime();
-- 
2.43.0


From f10b83053ca70cc0451c09e01e7d632c7cd18e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 041/201] fix: header records in events of RINEX 2 files were
 taken as RINEX 3.04 records

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 08b63b7..3ff8d81 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -573,6 +573,7 @@ namespace gpstk
       else if(rod.numSVs > 0)
       {
          rod.auxHeader.clear();
+         rod.auxHeader.version = strm.header.version;
          for(int i=0; i<rod.numSVs; i++)
          {
             strm.formattedGetLine(line);
@@ -703,6 +704,7 @@ namespace gpstk
       else if(numSVs > 0)
       {
          auxHeader.clear();
+         auxHeader.version = strm.header.version;
          for(int i = 0; i < numSVs; i++)
          {
             strm.formattedGetLine(line);
-- 
2.43.0


From 674e8c977d485a19d8b7d47d27f422f436ad31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 042/201] fix: RINEX 2 PRN / # OF OBS records with more than 18
 types were misread

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 37a71f1..ab4bb4e 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -710,9 +710,9 @@ namespace gpstk
          if ((lastPRN.id != -1) &&
              (numObsForSat[lastPRN].size() != obsTypeList.size()))
          {
-            for(int i = numObsForSat[lastPRN].size();
+            for(int i = numObsForSat[lastPRN].size(), j = 0;
                 (i < int(obsTypeList.size())) &&
-                   ( (i % maxObsPerLine) < maxObsPerLine); i++)
+                  (j < maxObsPerLine); i++, j++)
             {
                numObsForSat[lastPRN].push_back(asInt(line.substr((i%maxObsPerLine)*6+6,6)));
             }
-- 
2.43.0


From 30a602cc3fc01086028e509bd731f35fceacb06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 043/201] fix: counts of RINEX observation header records to be
 written

---
 .../lib/FileHandling/RINEX/RinexObsHeader.cpp |  6 +-
 .../FileHandling/RINEX3/Rinex3ObsHeader.cpp   | 61 ++++++++++++++++---
 2 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index ab4bb4e..b8aa92b 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -208,7 +208,11 @@ namespace gpstk
       if(valid & RinexObsHeader::commentValid) n += commentList.size();
       if(valid & RinexObsHeader::numSatsValid) n++;
       if(valid & RinexObsHeader::prnObsValid)
-         n += numObsForSat.size() * (1+numObsForSat.begin()->second.size()/9);
+      {
+         map<SatID, vector<int> >::const_iterator itr;
+         for(itr = numObsForSat.begin(); itr != numObsForSat.end(); ++itr)
+            n += std::max<int>(1, (itr->second.size()+8)/9);
+      }
       if(valid & RinexObsHeader::endValid) n++;
       return n;
    }
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 9267ccf..00d44d2 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -292,6 +292,7 @@ namespace gpstk
       if(valid & validVersion          ) n++;
       if(valid & validRunBy            ) n++;
       if(valid & validComment          ) n += commentList.size();
+      n += R2DisambiguityMap.size();
       if(valid & validMarkerName       ) n++;
       if(valid & validMarkerNumber     ) n++;
       if(version >= 3 && (valid & validMarkerType)) n++;
@@ -308,28 +309,70 @@ namespace gpstk
       if(version >= 3 && (valid & validCenterOfMass)) n++;
       if(version < 3 && (valid & validNumObs) && R2ObsTypes.size() != 0)
          n += 1 + (R2ObsTypes.size()-1)/9;
-      if(version >= 3 && (valid & validSystemNumObs) && numObs != 0)
-         n += 1 + (numObs-1)/9;
+      if(version >= 3 && (valid & validSystemNumObs))
+      {
+         map<string,unsigned> obsCount;
+         RinexObsMap dummy;
+         remapObsTypes(dummy, obsCount);
+         map<string,vector<RinexObsID> >::const_iterator it;
+         for(it = mapObsTypes.begin(); it != mapObsTypes.end(); ++it)
+            n += std::max<int>(1, (obsCount[it->first]+12)/13);
+      }
       if(version < 3 && (valid & validWaveFact))
       {
          n++;
-         if(extraWaveFactList.size() != 0) n += extraWaveFactList.size();
+         for(size_t i = 0; i < extraWaveFactList.size(); i++)
+            n += (extraWaveFactList[i].satList.size()+6)/7;
       }
       if(version >= 3 && (valid & validSigStrengthUnit)) n++;
       if(valid & validInterval         ) n++;
       if(valid & validFirstTime        ) n++;
       if(valid & validLastTime         ) n++;
       if(valid & validReceiverOffset   ) n++;
-      if(version >= 3 && (valid & validSystemDCBSapplied)) n++;
-      if(version >= 3 && (valid & validSystemPCVSapplied)) n++;
-      if(version >= 3 && (valid & validSystemScaleFac)) n++;
-      if(version >= 3.01 && (valid & validSystemPhaseShift)) n++;        // one per system at least
-      if(version >= 3.01 && (valid & validGlonassSlotFreqNo)) n++;  // TODO: continuation lines...
+      if(version >= 3 && (valid & validSystemDCBSapplied)) n += infoDCBS.size();
+      if(version >= 3 && (valid & validSystemPCVSapplied)) n += infoPCVS.size();
+      if(version >= 3 && (valid & validSystemScaleFac))
+      {
+         map<string, ScaleFacMap>::const_iterator it;
+         for(it = sysSfacMap.begin(); it != sysSfacMap.end(); ++it)
+         {
+               // number of types for each of the factors written
+            map<int,int> counts;
+            ScaleFacMap::const_iterator jt;
+            for(jt = it->second.begin(); jt != it->second.end(); ++jt)
+               counts[jt->second]++;
+            for(int f = 1; f <= 1000; f *= 10)
+               n += (counts[f]+11)/12;
+         }
+      }
+      if(version >= 3.01 && (valid & validSystemPhaseShift))
+      {
+         map<string, map<RinexObsID, map<RinexSatID,double> > >::const_iterator it;
+         for(it = sysPhaseShift.begin(); it != sysPhaseShift.end(); ++it)
+         {
+            if(it->second.empty()) n++;         // system only
+            map<RinexObsID, map<RinexSatID,double> >::const_iterator jt;
+            for(jt = it->second.begin(); jt != it->second.end(); ++jt)
+            {
+               if(jt->first.type == ObservationType::Phase)
+                  n += (jt->second.size()+9)/10;
+            }
+         }
+      }
+      if(version >= 3.01 && (valid & validGlonassSlotFreqNo))
+         n += (glonassFreqNo.size()+7)/8;
       if(version >= 3.02 && (valid & validGlonassCodPhsBias)) n++;
       if(valid & validLeapSeconds      ) n++;
       if(valid & validNumSats          ) n++;
       if(valid & validPrnObs           )
-         n += numObsForSat.size() * (1+numObsForSat.begin()->second.size()/9);
+      {
+         map<RinexSatID, vector<int> >::const_iterator it;
+         for(it = numObsForSat.begin(); it != numObsForSat.end(); ++it)
+         {
+            size_t num = (version >= 3 ? it->second.size() : R2ObsTypes.size());
+            n += std::max<int>(1, (num+8)/9);
+         }
+      }
       if(validEoH                      ) n++;
 
       return n;
-- 
2.43.0


From 801a165aaaea05957d6aab2626ffda05298fd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 044/201] fix: RINEX 2 files of mixed systems were written with
 an unreadable system

---
 core/lib/GNSSCore/RinexSatID.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSCore/RinexSatID.cpp b/core/lib/GNSSCore/RinexSatID.cpp
index e6009c8..ae29eec 100644
--- a/core/lib/GNSSCore/RinexSatID.cpp
+++ b/core/lib/GNSSCore/RinexSatID.cpp
@@ -71,6 +71,7 @@ namespace gpstk
          case SatelliteSystem::QZSS:    return 'J';
          case SatelliteSystem::BeiDou:  return 'C';
          case SatelliteSystem::IRNSS:   return 'I';
+         case SatelliteSystem::Mixed:   return 'M';
          default:                       return '?';
       }
    }
@@ -90,6 +91,7 @@ namespace gpstk
          case SatelliteSystem::QZSS:    return "QZSS";
          case SatelliteSystem::BeiDou:  return "BeiDou";
          case SatelliteSystem::IRNSS:   return "IRNSS";
+         case SatelliteSystem::Mixed:   return "Mixed";
          default:                       return "Unknown";
       }
    }
-- 
2.43.0


From 35030ecf13fe8209bc324e0b56408abac2d91340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 045/201] fix: Rinex3NavData made from RinexNavData lost Cuc

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 72cfb7f..d42a412 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -83,6 +83,7 @@ namespace gpstk
       Tgd2 = 0.0;
 
       // perturbations
+      Cuc = rnd.Cuc;
       Cus = rnd.Cus;
       Crc = rnd.Crc;
       Crs = rnd.Crs;
-- 
2.43.0


From 8a378a3028702d06f65a8acd1f740fe62effe680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 046/201] fix: RINEX 2 GLONASS and GEO navigation headers were
 labelled as GPS once read

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 708f7d5..378164a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -242,7 +242,6 @@ namespace gpstk
                                   fileType);
                   GPSTK_THROW(e);
                }
-               fileType = "N: GPS NAV DATA";
             }
             valid |= validVersion;
          }
@@ -815,7 +814,7 @@ namespace gpstk
                if(sat.system == SatelliteSystem::GPS)
                   fileType = "N: GPS NAV DATA";
                else if(sat.system == SatelliteSystem::Glonass)
-                  fileType = "G: GLO NAV DATA)";
+                  fileType = "G: GLO NAV DATA";
                else if(sat.system == SatelliteSystem::Geosync)
                   fileType = "H: GEO NAV DATA";
                else 
-- 
2.43.0


From 1fb05612c1467a44584e5d3248edb87e52d67a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 047/201] fix: CORR TO SYSTEM TIME of RINEX 2 GLONASS
 navigation headers was not written back

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 378164a..d91f983 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -639,13 +639,13 @@ namespace gpstk
                        << right << setw(9) << tc.refWeek << " "
                        << stringDeltaUTC;
                }
-               else if(tc.asString4() == "GLGP")
+               else if(tc.asString4() == "GLUT")
                {
                      // "CORR TO SYSTEM TIME" R2.10 GLO
                   strm << right << setw(6) << tc.refYr
                        << right << setw(6) << tc.refMon
                        << right << setw(6) << tc.refDay
-                       << RNDouble(tc.A0) << setw(23) << ' '
+                       << "   " << RNDouble(-tc.A0) << setw(20) << ' '
                        << stringCorrSysTime;
                }
                else if(tc.asString4() == "SBUT")
@@ -658,6 +658,11 @@ namespace gpstk
                        << right << setw(2) << tc.geoUTCid << " "
                        << stringDUTC;
                }
+               else
+               {
+                     // no record for this correction in RINEX 2
+                  continue;
+               }
             }
 
             strm << endlpp;
-- 
2.43.0


From 0d8f2f8a2ecb79b1f1fd015fe8b3f9cc1dabbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 048/201] fix: Galileo ionospheric corrections were not written
 without GPS ones

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index d91f983..12bcd37 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -535,7 +535,7 @@ namespace gpstk
          }
       }
 
-      if(valid & validIonoCorrGPS)
+      if(valid & (validIonoCorrGPS | validIonoCorrGal))
       {
             // "IONOSPHERIC CORR"
          map<string,IonoCorr>::const_iterator it;
-- 
2.43.0


From 03bec716f2a9f7c7dde0b0120bcb3236674b9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 049/201] fix: corrections of an earlier file stayed in a
 reused Rinex3NavHeader

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 12bcd37..2db8d24 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -195,6 +195,8 @@ namespace gpstk
    
          // clear out anything that was unsuccessfully read first
       commentList.clear();
+      mapTimeCorr.clear();
+      mapIonoCorr.clear();
    
       while (!(valid & validEoH)) 
       {
-- 
2.43.0


From 87597aa4921e5d15eeb51731c4b73a5f11135d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 050/201] fix: message frame time grew by days on rewriting
 RINEX 2 GLONASS files

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index d42a412..9397032 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1041,7 +1041,12 @@ namespace gpstk
 
       if (satSys == "R" || satSys == "S")
       {
-         strm << TauN << GammaN << RNDouble(MFtime);
+         strm << TauN << GammaN;
+            // R2 GLONASS has seconds of the day, see getPRNEpoch()
+         if (strm.header.version < 3 && satSys == "R")
+            strm << RNDouble(MFtime % 86400);
+         else
+            strm << RNDouble(MFtime);
       }
       else if (satSys == "G" || satSys == "E" || satSys == "J" || satSys == "C")
       {
-- 
2.43.0


From a1b730a0447c1eb6538ab66c54dfc1e57e333a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 051/201] fix: an unknown transmission time in RINEX navigation
 data changed the week and itself on rewriting

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 9397032..6df9d0e 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -55,6 +55,9 @@ namespace gpstk
    using namespace StringUtils;
    using namespace std;
 
+      // Transmission time in RINEX files when it is not known
+   static const long unknownXmitTime = 999900000L;
+
    // Create from a RINEX version 2 RinexNavData (for backward compatibility)
    Rinex3NavData::Rinex3NavData(const RinexNavData& rnd)
    {
@@ -1087,7 +1090,11 @@ namespace gpstk
          // In RINEX 3 *files*, weeknum is the week of TOE.
          RNDouble wk(weeknum);
          long xmit = xmitTime;
-         if (xmit - Toe > HALFWEEK)
+         if (xmit == unknownXmitTime)
+         {
+               // not known; weeknum is the week of TOE
+         }
+         else if (xmit - Toe > HALFWEEK)
          {
             xmit -= FULLWEEK;
             wk++;
@@ -1514,7 +1521,9 @@ namespace gpstk
    
             // In RINEX *files*, weeknum is the week of TOE.
             // Internally (Rinex3NavData), weeknum is week of transmission
-            if (xmitTime - Toe > HALFWEEK)
+            if (xmitTime == unknownXmitTime)
+               ;              // not known, so keep the week of TOE
+            else if (xmitTime - Toe > HALFWEEK)
                weeknum--;
             else if (xmitTime - Toe < -HALFWEEK)
                weeknum++;
-- 
2.43.0


From 1ffb6021fcface6ad87e34da59bdf52b54ac5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 052/201] fix: QZSS PRN offset was applied twice converting
 RINEX data to QZSEphemeris and back

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 6df9d0e..364a992 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -211,7 +211,6 @@ namespace gpstk
       weeknum = static_cast<QZSWeekSecond>(qzseph.transmitTime).getWeek();
 
       PRNID -= 192;                    // RINEX stores PRN minus 192
-      sat = RinexSatID(PRNID,SatelliteSystem::QZSS);
       IODC = qzseph.IODC;
       IODE = qzseph.IODE;
       health = qzseph.health;
@@ -953,7 +952,6 @@ namespace gpstk
       qzse.ctToc.setTimeSystem(TimeSystem::QZS);
 
       // now load the QZSS-specific parts
-      qzse.satID = SatID(qzse.satID.id + 192, SatelliteSystem::QZSS);
       qzse.IODC = IODC;
       qzse.IODE = IODE;
       qzse.health = health;
-- 
2.43.0


From c5b69d4c5be78f1f2003bbc7bfd813dbc446513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 053/201] fix: a blank number field kept the previous value
 when assigned to a FormattedDouble

---
 core/lib/Utilities/FormattedDouble.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/Utilities/FormattedDouble.cpp b/core/lib/Utilities/FormattedDouble.cpp
index 997feba..a85f41b 100644
--- a/core/lib/Utilities/FormattedDouble.cpp
+++ b/core/lib/Utilities/FormattedDouble.cpp
@@ -75,6 +75,8 @@ namespace gpstk
    FormattedDouble& FormattedDouble ::
    operator=(const std::string& s)
    {
+         // istream leaves the value alone when the string is blank
+      val = 0;
       if ((exponentChar != 'e') && (exponentChar != 'E'))
       {
             // If the exponent character is different from standard,
-- 
2.43.0


From 75b8db1f0fea7cdd3ee0876a8132d06d77b12d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 054/201] fix: transmit time of Galileo, BeiDou and QZSS
 ephemerides from RINEX was a week off when sent in another week than Toe

---
 .../lib/FileHandling/RINEX3/Rinex3NavData.cpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 364a992..73f727c 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -58,6 +58,18 @@ namespace gpstk
       // Transmission time in RINEX files when it is not known
    static const long unknownXmitTime = 999900000L;
 
+      // Difference between the week of transmission and the week of Toe
+   static int xmitWeekOffset(long xmitTime, double Toe)
+   {
+      if (xmitTime == unknownXmitTime)
+         return 0;
+      if (xmitTime - Toe > HALFWEEK)
+         return -1;
+      if (xmitTime - Toe < -HALFWEEK)
+         return 1;
+      return 0;
+   }
+
    // Create from a RINEX version 2 RinexNavData (for backward compatibility)
    Rinex3NavData::Rinex3NavData(const RinexNavData& rnd)
    {
@@ -863,7 +875,8 @@ namespace gpstk
 
       gale.health = GalEphemeris::deriveHealth(HS,DVS,SISA);
 
-      week = static_cast<GALWeekSecond>(gale.ctToe).getWeek();
+      week = static_cast<GALWeekSecond>(gale.ctToe).getWeek() +
+         xmitWeekOffset(xmitTime, Toe);
       gale.transmitTime = GALWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::GAL);
       gale.adjustValidity();
@@ -909,7 +922,8 @@ namespace gpstk
       bdse.Tgd23 = Tgd2;
 
 //      bdse.HOWtime = xmitTime;
-      week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek();
+      week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek() +
+         xmitWeekOffset(xmitTime, Toe);
       bdse.transmitTime = BDSWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::BDT);
       bdse.adjustValidity();
@@ -959,7 +973,8 @@ namespace gpstk
       qzse.Tgd = Tgd;
 
 //      qzse.HOWtime = xmitTime;
-      week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek();
+      week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek() +
+         xmitWeekOffset(xmitTime, Toe);
       qzse.transmitTime = QZSWeekSecond(week, static_cast<double>(xmitTime),
                                           TimeSystem::QZS);
       qzse.beginValid = qzse.transmitTime;
-- 
2.43.0


From 9888db1b785639642847614245d90548aee3b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 055/201] fix: bits added to a trimmed or full PackedNavBits
 were written past its end

---
 core/lib/GNSSEph/PackedNavBits.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..4a99660 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -606,6 +606,10 @@ namespace gpstk
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
 
+         // The bits may have been trimmed (e.g. by copying).
+      if (bits.size() < ndx + numBits)
+         bits.resize(ndx + numBits);
+
       for (int i=0; i<numBits; ++i)
       {
          bits[ndx] = false;
-- 
2.43.0


From 30681734df1f9934a00ee637715500dae8b45ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 056/201] fix: PackedNavBits::asString returned a blank that
 was not packed

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4a99660..cc0c520 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -332,7 +332,7 @@ namespace gpstk
    std::string PackedNavBits::asString(const int startBit, const int numChars) const 
    {
       int CHAR_SIZE = 8;
-      string out = " ";
+      string out;
       int currentStart = startBit;
       for (int i = 0; i < numChars; ++i)
       {
-- 
2.43.0


From dce036b0c42da626cea00048054c1406ea7920d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 057/201] fix: PackedNavBits accepted values too large for wide
 fields, or refused ones that fit

---
 core/lib/GNSSEph/PackedNavBits.cpp | 50 +++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index cc0c520..fc6f46a 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -462,6 +462,13 @@ namespace gpstk
 
 
          /***    PACKING FUNCTIONS *********************************/
+      // Largest unsigned value that fits in the given number of bits
+   static uint64_t maxUnsigned(const int numBits)
+   {
+      if (numBits <= 0) return 0;
+      return ~static_cast<uint64_t>(0) >> (64 - numBits);
+   }
+
    void PackedNavBits::addUnsignedLong( const unsigned long value, 
                                         const int numBits,
                                         const int scale ) 
@@ -469,8 +476,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
-      if ( out > test )
+      if ( out > maxUnsigned(numBits) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -488,8 +494,8 @@ namespace gpstk
       out = (int64_t) value;
       out /= scale;
 
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      int64_t test = (int64_t) maxUnsigned(numBits-1);
+      if ( ( out > test ) || ( out < -test - 1 ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -500,9 +506,14 @@ namespace gpstk
    void PackedNavBits::addUnsignedDouble( const double value, const int numBits,
                                           const int power2 ) 
    {
-      uint64_t out = (uint64_t) ScaleValue(value, power2);
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1;
-      if ( out > test )
+      double scaled = ScaleValue(value, power2);
+      uint64_t out = 0;
+      bool fits = ( scaled > -1.0 && scaled < pow(static_cast<double>(2),numBits) );
+      if (fits)
+      {
+         out = (uint64_t) scaled;
+      }
+      else
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -519,9 +530,14 @@ namespace gpstk
          uint64_t u_out;
          int64_t out;
       };
-      out = (int64_t) ScaleValue(value, power2);
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      double scaled = ScaleValue(value, power2);
+      double limit = pow(static_cast<double>(2),numBits-1);
+      bool fits = ( scaled < limit && ( scaled > -limit - 1.0 || scaled == -limit ) );
+      if (fits)
+      {
+         out = (int64_t) scaled;
+      }
+      else
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -538,9 +554,14 @@ namespace gpstk
          int64_t out;
       };
       double temp = Radians/PI;
-      out = (int64_t) ScaleValue(temp, power2);
-      int64_t test = pow(static_cast<double>(2), numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      double scaled = ScaleValue(temp, power2);
+      double limit = pow(static_cast<double>(2),numBits-1);
+      bool fits = ( scaled < limit && ( scaled > -limit - 1.0 || scaled == -limit ) );
+      if (fits)
+      {
+         out = (int64_t) scaled;
+      }
+      else
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -726,8 +747,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
-      if ( out > test )
+      if ( out > maxUnsigned(numBits) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
-- 
2.43.0


From faf4452b6fdc889a5cefa3e960e8b115f438222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 058/201] fix: broadcast clock drift was not the rate of the
 clock bias when af2 is not zero

---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 2 +-
 core/lib/GNSSEph/OrbElem.cpp            | 2 +-
 core/lib/GNSSEph/OrbitEph.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 2e88b50..e95f5e2 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -242,7 +242,7 @@ namespace gpstk
    {
       double drift,elaptc;
       elaptc = t - getEpochTime();
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index fea9ded..be9e95f 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -167,7 +167,7 @@ namespace gpstk
       }
       double drift,elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 56d9c73..2be9fa6 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -106,7 +106,7 @@ namespace gpstk
 
       double drift, elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
-- 
2.43.0


From 286d3ad0795b7727cb077b45aa81dd31f1315d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 059/201] fix: end of fit interval past the end of the week was
 two weeks late

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 +-
 core/lib/GNSSEph/EngEphemeris.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 73f727c..1d5bdd4 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -627,7 +627,7 @@ namespace gpstk
                                           TimeSystem::GPS);
       if (endFitSOW >= FULLWEEK)
       {
-         endFitSOW += FULLWEEK;
+         endFitSOW -= FULLWEEK;
          endFitWk++;
       }
 
diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 0522e5b..4e57a16 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1080,7 +1080,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
@@ -1221,7 +1221,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
-- 
2.43.0


From 656092d42ea54bd10dac0de4e7b8f165a4b9ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 060/201] fix: EngEphemeris::setSF2 put the fit interval in the
 week of transmission, not of Toe

---
 core/lib/GNSSEph/EngEphemeris.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 4e57a16..5076a95 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1210,8 +1210,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600.0;
          long endFitSOW = toe + (fitHours/2)*3600.0;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
-- 
2.43.0


From d5072a7a8054a690ef2457b32fe2fe7dc3072f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 061/201] fix: BrcKeplerOrbit from subframes had Toe a week off
 when sent in another week

---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index 86eee77..010c166 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -225,13 +225,13 @@ namespace gpstk
       Ahalf  = ficked[12];
       A      = Ahalf*Ahalf;
       double ToeSOW = ficked[13];
-/*
-  double diff = Txmit - ToeSOW;
-  if (diff > HALFWEEK)          // NOTE: This USED to be in DayTime, but DayTime is going away.  Where is it now?
-  weeknum++;                 // Convert week # of transmission to week # of epoch time when Toc is forward across a week boundary
-  else if (diff < -HALFWEEK)
-  weeknum--;                 // Convert week # of transmission to week # of epoch time when Toc is back across a week boundary
-*/
+         // Convert week # of transmission to week # of epoch time when
+         // Toe is across a week boundary
+      double diff = ficked[2] - ToeSOW;
+      if (diff > HALFWEEK)
+         weeknum++;
+      else if (diff < -HALFWEEK)
+         weeknum--;
       Toe = GPSWeekSecond(weeknum, ToeSOW, TimeSystem::GPS);
       short fiti = static_cast<short>(ficked[14]);
       short fitHours = getLegacyFitInterval(iodc, fiti);
-- 
2.43.0


From c5cd4f894eb4ad58829a5a63d9df9f364bf83b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 062/201] fix: BrcKeplerOrbit positions ignored Adot and dndot,
 its velocities did not

---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index 010c166..d0856ec 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -339,7 +339,8 @@ namespace gpstk
          //elapte = t - orbEp;
 
          // Compute mean motion
-      amm  = (sqrtgm / (A*Ahalf)) + dn;
+      amm  = (sqrtgm / (A*Ahalf)) + (dn + 0.5*dndot*elapte);
+      double Ak = A + Adot*elapte;
 
 
          // In-plane angles
@@ -391,7 +392,7 @@ namespace gpstk
 
          // U = updated argument of lat, R = radius, AINC = inclination
       U    = alat + du;
-      R    = A*G  + dr;
+      R    = Ak*G  + dr;
       AINC = i0 + tdrinc * elapte  +  di;
 
          //  Longitude of ascending node (ANLON)
@@ -427,7 +428,7 @@ namespace gpstk
          ( Cic  * s2al - Cis * c2al );
       domk = OMEGAdot - ell.angVelocity();
       duv = dlk*(1.e0+ 2.e0 * (Cus*c2al - Cuc*s2al) );
-      drv = A * lecc * dek * sinea - 2.e0 * dlk *
+      drv = Ak * lecc * dek * sinea - 2.e0 * dlk *
          ( Crc * s2al - Crs * c2al ) + Adot * G;
 
       dxp = drv*cosu - R*sinu*duv;
-- 
2.43.0


From e3a5bc10affb750b433678a656ac0a0afcebd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 063/201] fix: Galileo and BeiDou orbits used the gravitation
 constant and Earth rate of GPS

---
 core/lib/GNSSEph/OrbElem.cpp  |  5 +++++
 core/lib/GNSSEph/OrbitEph.cpp | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index be9e95f..c11054e 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -43,6 +43,7 @@
 #include "OrbElem.hpp"
 #include "StringUtils.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "EllipsoidModel.hpp"
 #include "GPSEllipsoid.hpp"
 #include "YDSTime.hpp"
@@ -211,6 +212,8 @@ namespace gpstk
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = new CGCS2000Ellipsoid();
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = new GalileoEllipsoid();
       else
          ell = new GPSEllipsoid();
 
@@ -357,6 +360,8 @@ namespace gpstk
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = new CGCS2000Ellipsoid();
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = new GalileoEllipsoid();
       else
          ell = new GPSEllipsoid();
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 2be9fa6..3affa9a 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -56,6 +56,7 @@
 #include "QZSWeekSecond.hpp"
 #include "GPSEllipsoid.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "TimeString.hpp"
 
 using namespace std;
@@ -133,7 +134,14 @@ namespace gpstk
       double xef,yef,zef,dek,dlk,div,domk,duv,drv;
       double dxp,dyp,vxef,vyef,vzef;
 
-      GPSEllipsoid ell;
+         // Each system has its own gravitation constant and Earth rate
+      GPSEllipsoid gpsell;
+      GalileoEllipsoid galell;
+      CGCS2000Ellipsoid bdsell;
+      const EllipsoidModel& ell =
+         satID.system == SatelliteSystem::Galileo ? (const EllipsoidModel&)galell :
+         satID.system == SatelliteSystem::BeiDou ? (const EllipsoidModel&)bdsell :
+         (const EllipsoidModel&)gpsell;
       double sqrtgm = SQRT(ell.gm());
       double twoPI = 2.0e0 * PI;
       double lecc;            // eccentricity
@@ -264,9 +272,12 @@ namespace gpstk
 
       GPSEllipsoid gell;
       CGCS2000Ellipsoid bell;
+      GalileoEllipsoid eell;
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = &bell;
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = &eell;
       else
          ell = &gell;
       double twoPI  = 2.0 * PI;
-- 
2.43.0


From 8161d6acae4ad67b74b66818aa75fdd8b6b138ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 064/201] fix: BDS GEO positions were wrong through an OrbitEph
 pointer (as in OrbitEphStore), svXvt was not virtual

---
 core/lib/GNSSEph/BDSEphemeris.hpp | 2 +-
 core/lib/GNSSEph/OrbitEph.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/BDSEphemeris.hpp b/core/lib/GNSSEph/BDSEphemeris.hpp
index f44ccd4..ec1910d 100644
--- a/core/lib/GNSSEph/BDSEphemeris.hpp
+++ b/core/lib/GNSSEph/BDSEphemeris.hpp
@@ -94,7 +94,7 @@ namespace gpstk
           * includes GEO orbits.  The BDS ICD contains a slightly 
           * modified algorithm for deriving positions for these satellites.
           * @throw Invalid Request if the required data has not been stored. */
-      Xvt svXvt(const CommonTime& t) const;
+      virtual Xvt svXvt(const CommonTime& t) const;
       
          /** Dump the orbit, etc information to the given output stream.
           * @throw Invalid Request if the required data has not been stored. */
diff --git a/core/lib/GNSSEph/OrbitEph.hpp b/core/lib/GNSSEph/OrbitEph.hpp
index 637f8a3..020e383 100644
--- a/core/lib/GNSSEph/OrbitEph.hpp
+++ b/core/lib/GNSSEph/OrbitEph.hpp
@@ -126,7 +126,7 @@ namespace gpstk
           * Adot and dndot variables are appropriately set to 0.0 by the 
           * LNAV loaders.) 
           * @throw Invalid Request if the required data has not been stored. */
-      Xvt svXvt(const CommonTime& t) const;
+      virtual Xvt svXvt(const CommonTime& t) const;
 
          /** Compute satellite relativity correction (sec) at the given time
           * @throw Invalid Request if the required data has not been stored. */
-- 
2.43.0


From 6622b7e87aafc7803aff7c4080655c1d035080fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 065/201] fix: ephemerides with a fit interval of 98 to 146
 hours were refused (IODC 758 to 767 and 1008 to 1020)

---
 core/lib/GNSSCore/GNSSconstants.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GNSSconstants.hpp b/core/lib/GNSSCore/GNSSconstants.hpp
index 19fe0ac..f13ab7c 100644
--- a/core/lib/GNSSCore/GNSSconstants.hpp
+++ b/core/lib/GNSSCore/GNSSconstants.hpp
@@ -145,11 +145,21 @@ namespace gpstk
                /* fit interval of 74 hours */
             return 74;
          }
-         else if(iodc == 757)
+         else if(iodc >= 757 && iodc <= 763)
          {
                /* fit interval of 98 hours */
             return 98;
          }
+         else if((iodc >= 764 && iodc <= 767) || (iodc >= 1008 && iodc <= 1010))
+         {
+               /* fit interval of 122 hours */
+            return 122;
+         }
+         else if(iodc >= 1011 && iodc <= 1020)
+         {
+               /* fit interval of 146 hours */
+            return 146;
+         }
          else
          {
             InvalidRequest exc("Invalid IODC Value For sv Block");
-- 
2.43.0


From 3e7a424bdc8426f50ea1489908d17c0f1214b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 066/201] fix: rationalize took the time limits of the last
 satellite for the store, and hung on a satellite edited away

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 19 +++++++++++++++++--
 core/lib/GNSSEph/OrbElemStore.cpp      | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index de44b09..1be00db 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -61,10 +61,16 @@ namespace gpstk
    // ordering has been determined.
    void GPSEphemerisStore::rationalize(void)
    {
+      // limits of the store, found from the limits of each satellite
+      bool any = false;
+      CommonTime first, last;
+
       // loop over satellites
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
          TimeOrbitEphTable& table = it->second;
+         if (table.empty())
+            continue;
          TimeOrbitEphTable::iterator ei;
          TimeOrbitEphTable::iterator eiPrev;
          bool begin = true;
@@ -226,11 +232,20 @@ namespace gpstk
            // Well, not quite done.  We need to update the initial/final
            // times of the map.
         const TimeOrbitEphTable::iterator Cei = table.begin( );
-        initialTime = Cei->second->beginValid;
+        if (!any || Cei->second->beginValid < first)
+           first = Cei->second->beginValid;
         const TimeOrbitEphTable::reverse_iterator rCei = table.rbegin();
-        finalTime   = rCei->second->endValid;
+        if (!any || rCei->second->endValid > last)
+           last = rCei->second->endValid;
+        any = true;
 
       } // end outer for-loop
+
+      if (any)
+      {
+         initialTime = first;
+         finalTime   = last;
+      }
    }
 
    //-----------------------------------------------------------------------------
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..90b05b3 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -806,10 +806,16 @@ namespace gpstk
           GPSTK_THROW(e);
       }
 
+         // limits of the store, found from the limits of each satellite
+      bool any = false;
+      CommonTime first, last;
+
       UBEMap::iterator it;
       for (it = ube.begin(); it != ube.end(); it++)
       {
          OrbElemMap& em = it->second;
+         if (em.empty())
+            continue;
          OrbElemMap::iterator ei;
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
@@ -1023,11 +1029,20 @@ namespace gpstk
            // Well, not quite done.  We need to update the initial/final 
            // times of the map.
         const OrbElemMap::iterator Cei = em.begin( );
-        initialTime = Cei->second->beginValid;
+        if (!any || Cei->second->beginValid < first)
+           first = Cei->second->beginValid;
         const OrbElemMap::reverse_iterator rCei = em.rbegin();
-        finalTime   = rCei->second->endValid;
+        if (!any || rCei->second->endValid > last)
+           last = rCei->second->endValid;
+        any = true;
 
       } // end outer for-loop
+
+      if (any)
+      {
+         initialTime = first;
+         finalTime   = last;
+      }
       //cout << "Exiting OrbElem.rationalize()" << endl; 
     }
    
-- 
2.43.0


From 2cad8e3514b21e507e84899d643af86168178f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 067/201] fix: Rinex3EphemerisStore gave the GLONASS time
 limits for satellites of every system

---
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index 5d3c3e6..abc6b5a 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -518,8 +518,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getInitialTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getInitialTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getInitialTime(sat);
             default:
@@ -551,8 +553,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getFinalTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getFinalTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getFinalTime(sat);
             default:
-- 
2.43.0


From 266cf911783a4774ae9cf40748da5251f94d5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 068/201] fix: Rinex3EphemerisStore::addToList added all
 satellites of the system of the satellite asked for

---
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index abc6b5a..53bbb34 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -592,7 +592,9 @@ namespace gpstk
          list<OrbitEph*>::const_iterator it;
          for(it=OElist.begin(); it != OElist.end(); ++it) {
             OrbitEph *ptr = *it;
-            if((ptr->satID).system == SatelliteSystem::GPS && keepGPS) {
+            if(!keepAll && sysSat.id != -1 && (ptr->satID).id != sysSat.id)
+               ; // not the satellite asked for
+            else if((ptr->satID).system == SatelliteSystem::GPS && keepGPS) {
                GPSEphemeris *sysptr = dynamic_cast<GPSEphemeris*>(ptr);
                theList.push_back(Rinex3NavData(*sysptr));
                n++;
@@ -617,11 +619,16 @@ namespace gpstk
       }
       if(keepGLO) {
          list<GloEphemeris> GLOlist;
-         n += GLOstore.addToList(GLOlist);
+         GLOstore.addToList(GLOlist);
 
          list<GloEphemeris>::const_iterator it;
-         for(it=GLOlist.begin(); it != GLOlist.end(); ++it)
-            theList.push_back(Rinex3NavData(*it));
+         for(it=GLOlist.begin(); it != GLOlist.end(); ++it) {
+            Rinex3NavData rnd(*it);
+            if(!keepAll && sysSat.id != -1 && rnd.sat.id != sysSat.id)
+               continue;
+            theList.push_back(rnd);
+            n++;
+         }
       }
       /*
       if(keepGEO) {
-- 
2.43.0


From 9f6714e9a85a051e9f100b4b2a5da7a7ac5fd8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 069/201] fix: Rinex3EphemerisStore::size counted GLONASS
 satellites, not records

---
 core/lib/GNSSEph/Rinex3EphemerisStore.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.hpp b/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
index 60481e8..766627e 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
@@ -294,7 +294,13 @@ namespace gpstk
             n += ORBstore.size(sat);
 
          if(sys == SatelliteSystem::Mixed || sys == SatelliteSystem::Glonass)
-            n += GLOstore.size();
+         {
+               // the size of GLOstore is its number of satellites
+            std::list<Rinex3NavData> glolist;
+            n += addToList(glolist, (sys == SatelliteSystem::Mixed
+                                     ? SatID(-1,SatelliteSystem::Glonass)
+                                     : sat));
+         }
 
             //if(sys == SatelliteSystem::Mixed || sys == SatelliteSystem::Geosync)
             //   n += GEOstore.size();
-- 
2.43.0


From fec5cfc7a56d5ab69b727d931181c8c19965f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 070/201] fix: GPSAlmanacStore::clear kept the time limits of
 what it removed

---
 ext/lib/GNSSEph/GPSAlmanacStore.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/GPSAlmanacStore.hpp b/ext/lib/GNSSEph/GPSAlmanacStore.hpp
index d144d62..539d89e 100644
--- a/ext/lib/GNSSEph/GPSAlmanacStore.hpp
+++ b/ext/lib/GNSSEph/GPSAlmanacStore.hpp
@@ -123,7 +123,11 @@ namespace gpstk
 
       /// Clear the dataset, meaning remove all data
       virtual void clear(void) throw()
-      { uba.clear(); }
+      {
+         uba.clear();
+         initialTime = CommonTime::END_OF_TIME;
+         finalTime = CommonTime::BEGINNING_OF_TIME;
+      }
 
       /// Return time system (NB assumed always to be GPS)
       virtual TimeSystem getTimeSystem(void) const throw()
-- 
2.43.0


From a4cc0564c46caba4c32361a27f03e60d202c7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 071/201] fix: GloEphemeris::svClockBias computed relativity
 from km and from the state at the epoch

---
 core/lib/GNSSEph/GloEphemeris.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemeris.cpp b/core/lib/GNSSEph/GloEphemeris.cpp
index 3ce1885..a7286cf 100644
--- a/core/lib/GNSSEph/GloEphemeris.cpp
+++ b/core/lib/GNSSEph/GloEphemeris.cpp
@@ -278,17 +278,10 @@ namespace gpstk
          GPSTK_THROW(exc);
       }
 
-         // Auxiliar object
-      Xvt sv;
-      sv.x = x;
-      sv.v = v;
-
          // In the GLONASS system, 'clkbias' already includes the relativistic
-         // correction, therefore we must substract the late from the former.
-      sv.relcorr = sv.computeRelativityCorrection();
-      sv.clkbias = clkbias + clkdrift * (epoch - ephTime) - sv.relcorr;
-
-      return sv.clkbias;
+         // correction (see svXvtOverrideFit), which depends on the position
+         // and velocity at the given time, in meters.
+      return svXvtOverrideFit(epoch).clkbias;
 
    }  // End of method 'GloEphemeris::svClockBias(const CommonTime& epoch)'
 
-- 
2.43.0


From ccbc79f26dfc558ee0402ad00f8107c7f927b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 072/201] fix: GloEphemerisStore::edit lost the final time when
 the remaining records were seen latest first

---
 core/lib/GNSSEph/GloEphemerisStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index 691b5b0..f923cd0 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -451,7 +451,7 @@ namespace gpstk
                   // Update 'initialTime' and 'finalTime', if necessary
                if (t < initialTime)
                   initialTime = t;
-               else if (t > finalTime)
+               if (t > finalTime)
                   finalTime = t;
 
             }  // End of 'if ( ( (*tgmIter).first >= tmin ) && ...'
-- 
2.43.0


From 4f4ea0214ae7a353499e3479c9f82e3714ca994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 073/201] fix: the GloEphemerisStore constructor ignored its
 checkHealth argument

---
 core/lib/GNSSEph/GloEphemerisStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.hpp b/core/lib/GNSSEph/GloEphemerisStore.hpp
index da79c09..9d04ddf 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.hpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.hpp
@@ -91,7 +91,7 @@ namespace gpstk
               finalTime(CommonTime::BEGINNING_OF_TIME),
               step(rkStep)
       {
-            setCheckHealthFlag(false);
+            setCheckHealthFlag(checkHealth);
       }
 
          /// Destructor
-- 
2.43.0


From 8031a9071a97e321fe8e84336a9e838c338115a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 074/201] fix: GloEphemerisStore ignored its integration step

---
 core/lib/GNSSEph/GloEphemerisStore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index f923cd0..84d7fbc 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -158,6 +158,7 @@ namespace gpstk
 
          // We now have the proper reference data record. Let's use it
       GloEphemeris data( i->second );
+      data.setIntegrationStep(step);
 
          // Compute the satellite position, velocity and clock offset
       sv = data.svXvt( epoch );
@@ -232,6 +233,7 @@ namespace gpstk
 
             // We now have the proper reference data record. Let's use it
          GloEphemeris data(i->second);
+         data.setIntegrationStep(step);
 
             // Compute the satellite position, velocity and clock offset
          rv = data.svXvt(epoch);
-- 
2.43.0


From 2b59df49560a4fc911927a3a8553e6b3b4461035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 075/201] fix: ura2CNAVNominalaccuracy(15) read beyond the
 table of nominal accuracies

---
 core/lib/GNSSEph/GPS_URA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GPS_URA.hpp b/core/lib/GNSSEph/GPS_URA.hpp
index b234ac3..1e1de02 100644
--- a/core/lib/GNSSEph/GPS_URA.hpp
+++ b/core/lib/GNSSEph/GPS_URA.hpp
@@ -91,7 +91,7 @@ namespace gpstk
                                                     0.044194, 0.0625, 0.088388, 0.125, 0.176777,
                                                     0.25, 0.353553, 0.5, 0.707107, 1, 1.414214, 2, 
                                                     2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512,
-                                                    1024, 2048, 4096};
+                                                    1024, 2048, 4096, 9.999999999999e99};
       /// constant for max array index in gps nom index table
    const int SV_CNAV_NOMINAL_MAX_INDEX = 30;
  
-- 
2.43.0


From 330420911a822c50157f601e7b76384b35d5a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 076/201] fix: TabularSatStore::edit kept the last record
 before the interval

---
 core/lib/GNSSEph/TabularSatStore.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..0c83fc2 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -670,8 +670,7 @@ namespace gpstk
                // delete everything before tmin
                // jt points to the earliest time >= tmin
             jt = dtab.lower_bound(tmin);
-            if(jt != dtab.begin() && --jt != dtab.begin())
-               dtab.erase(dtab.begin(),jt);
+            dtab.erase(dtab.begin(),jt);
          }
       }
 
-- 
2.43.0


From 279512f49d146f213fe744bf13abe65568f4bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 077/201] fix: TabularSatStore read beyond the table of a
 satellite edited away, and gave an undefined time step for one record

---
 core/lib/GNSSEph/TabularSatStore.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 0c83fc2..b1eafff 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -769,7 +769,7 @@ namespace gpstk
             return initialTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return initialTime;
 
          return (it->second.begin())->first;
@@ -784,7 +784,7 @@ namespace gpstk
             return finalTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return finalTime;
 
          typename DataTable::const_iterator jt(it->second.end());
@@ -893,7 +893,7 @@ namespace gpstk
             // save the most frequent N step sizes
          static const int N=3;
          int i,ndt[N]={0,0,0};
-         double dt[N],del;
+         double dt[N]={0.0,0.0,0.0},del;
 
             // loop over the table
          typename DataTable::const_iterator jt(it->second.begin());
-- 
2.43.0


From a3457de020b63f3f447671a0c5c33e0d605a248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 078/201] fix: no gap or interval check in the first interval
 of a table with linear interpolation

---
 core/lib/GNSSEph/TabularSatStore.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index b1eafff..f973629 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -290,16 +290,14 @@ namespace gpstk
             if(--it1 == dtable.begin())
             {
                   // if an interval of only 2
-               if(nhalf==1)
+               if(nhalf != 1)
                {
-                  ++(it2 = it1);
-                  return exactMatch;
+                  InvalidRequest e("Inadequate data before(2) requested time for"
+                                   " satellite " +
+                                   gpstk::StringUtils::asString(sat) +
+                                   printTime(ttag,fmt));
+                  GPSTK_THROW(e);
                }
-               InvalidRequest e("Inadequate data before(2) requested time for"
-                                " satellite " +
-                                gpstk::StringUtils::asString(sat) +
-                                printTime(ttag,fmt));
-               GPSTK_THROW(e);
             }
 
                //LOG(INFO) << "OK, have interval " << printTime(it1->first,"%F/%g") <<
-- 
2.43.0


From 96c55f302f2c38e11bb8f795580d8e73218b3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 079/201] fix: PositionSatStore::getPosition, getVelocity and
 getAcceleration gave a later record at the epochs of the table

---
 core/lib/GNSSEph/PositionSatStore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/GNSSEph/PositionSatStore.cpp b/core/lib/GNSSEph/PositionSatStore.cpp
index 484a4c1..778f7c6 100644
--- a/core/lib/GNSSEph/PositionSatStore.cpp
+++ b/core/lib/GNSSEph/PositionSatStore.cpp
@@ -204,7 +204,6 @@ namespace gpstk
 
          if(getTableInterval(sat, ttag, Nhalf, it1, it2, true)) {
             // exact match
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Pos;
          }
@@ -249,7 +248,6 @@ namespace gpstk
 
          bool isExact(getTableInterval(sat, ttag, Nhalf, it1, it2, haveVelocity));
          if(isExact && haveVelocity) {
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Vel;
          }
@@ -309,7 +307,6 @@ namespace gpstk
          bool isExact(getTableInterval(sat,ttag,Nhalf,it1,it2,haveAcceleration));
          if(isExact && haveAcceleration) {
             // exact match, and have acceleration data
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Acc;
          }
-- 
2.43.0


From 2b0e839f33364109f56e8b05b3d9523593be590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 080/201] fix: ClockSatStore::getClockDrift interpolated biases
 in place of drifts

---
 core/lib/GNSSEph/ClockSatStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 0231f78..da60cab 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -274,7 +274,7 @@ namespace gpstk
             if(isExact && ABS(kt->first-ttag) < 1.e-8) Nhi=n;
             times.push_back(kt->first - ttag0);    // sec
             if(haveClockDrift)
-               drifts.push_back(kt->second.bias);  // sec/sec
+               drifts.push_back(kt->second.drift); // sec/sec
             else
                biases.push_back(kt->second.bias);  // sec
             if(kt == it2) break;
-- 
2.43.0


From 32c27f4d685e48824638307ffd86c05b0ea0998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 081/201] fix: linear interpolation of clock acceleration used
 the slope of the drift

---
 core/lib/GNSSEph/ClockSatStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index da60cab..f26f65d 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -161,8 +161,8 @@ namespace gpstk
             }
             else {
                // linear interpolation
-               slope = (drifts[Nhi]-drifts[Nlow]) /
-                                   (times[Nhi]-times[Nlow]);            // sec/sec^2
+               slope = (accels[Nhi]-accels[Nlow]) /
+                                   (times[Nhi]-times[Nlow]);            // sec/sec^3
                rec.accel = accels[Nlow] + slope*(dt-times[Nlow]);       // sec/sec^2
             }
 
-- 
2.43.0


From 80554a2a89a0136b706808fca251a7badd4c2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 082/201] fix: ClockSatStore::getValue read beyond its data at
 the first epoch with linear interpolation

---
 core/lib/GNSSEph/ClockSatStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index f26f65d..b4ec2c7 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -106,7 +106,7 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nmatch == (int)(Nhalf-1)) { Nlow++; Nhi++; }
+         if(isExact && Nmatch == (int)(Nhalf-1) && Nhi+1 < times.size()) { Nlow++; Nhi++; }
 
          // interpolate
          rec.accel = rec.sig_accel = 0.0;              // defaults
-- 
2.43.0


From b5e9fdf290fa399342d9206c3e2426760ccddef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 083/201] fix: SP3EphemerisStore kept the prediction flags and
 values of a rejected record for the next one

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 129b662..c2cbc69 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -528,13 +528,11 @@ namespace gpstk
                       prec.Pos[2]==0.0))
                   {
                         //cout << "Bad position" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad position record
                   }
                   else if(fillClockStore && rejectBadClockFlag
                           && (fabs(crec.bias) >= 999999.))
                   {
                         //cout << "Bad clock" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad clock record
                   }
                   else
                   {
@@ -543,14 +541,14 @@ namespace gpstk
                         posStore.addPositionRecord(sat,ttag,prec);
                      if(fillClockStore && (!rejectPredClockFlag || !predC))
                         clkStore.addClockRecord(sat,ttag,crec);
-
-                        // prepare for next
-                     haveP = haveV = haveEP = haveEV = predP = predC = false;
-                     prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
-                     if(fillClockStore)
-                        crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
                   }
 
+                     // prepare for next, whether or not this record was kept
+                  haveP = haveV = haveEP = haveEV = predP = predC = false;
+                  prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
+                  if(fillClockStore)
+                     crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
+
                   goNext = true;
 
                }  // end while loop (loop twice)
-- 
2.43.0


From 7c36a6be5e71dd1ddfbbe706b95c854de90fef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 084/201] fix: SP3EphemerisStore dropped the standard
 deviations of SP3d files

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index c2cbc69..db15720 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -357,7 +357,7 @@ namespace gpstk
          SP3Files.addFile(filename, head);
 
             // read data
-         bool isC(head.version==SP3Header::SP3c);
+         bool isC(head.version==SP3Header::SP3c || head.version==SP3Header::SP3d);
          bool goNext,haveP,haveV,haveEP,haveEV,predP,predC;
          int i;
          CommonTime ttag;
-- 
2.43.0


From 27a3a35d1b0dfd6608c7bdd63b6aa9fd45cc9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 085/201] fix: a cleared position or clock store still claimed
 velocity or drift, giving zeros for data loaded without them

---
 core/lib/GNSSEph/ClockSatStore.hpp    | 7 +++++++
 core/lib/GNSSEph/PositionSatStore.hpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/core/lib/GNSSEph/ClockSatStore.hpp b/core/lib/GNSSEph/ClockSatStore.hpp
index b1487f8..a32cd6b 100644
--- a/core/lib/GNSSEph/ClockSatStore.hpp
+++ b/core/lib/GNSSEph/ClockSatStore.hpp
@@ -138,6 +138,13 @@ namespace gpstk
          /// Destructor
       virtual ~ClockSatStore() {};
 
+         /// Remove all data; drift and acceleration are no longer present
+      void clear() throw()
+      {
+         TabularSatStore<ClockRecord>::clear();
+         haveClockDrift = haveClockAccel = false;
+      }
+
       bool hasClockAccel() const throw() { return haveClockAccel; }
 
          /** Return value for the given satellite at the given time
diff --git a/core/lib/GNSSEph/PositionSatStore.hpp b/core/lib/GNSSEph/PositionSatStore.hpp
index 4613519..b7deb21 100644
--- a/core/lib/GNSSEph/PositionSatStore.hpp
+++ b/core/lib/GNSSEph/PositionSatStore.hpp
@@ -136,6 +136,13 @@ namespace gpstk
          /// Destructor
       ~PositionSatStore() {};
 
+         /// Remove all data; velocity and acceleration are no longer present
+      void clear() throw()
+      {
+         TabularSatStore<PositionRecord>::clear();
+         haveVelocity = haveAcceleration = false;
+      }
+
          /// Tabular does not have this...
       bool hasAccleration() const throw() { return haveAcceleration; }
 
-- 
2.43.0


From 87e2c45fb032bb0efe45f46db780de0e0fee18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 086/201] fix: getSubframePattern read before its table for the
 SV IDs 33 to 50 that no page has

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..cb4294c 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         iret = 0;            /* no page has this SV ID */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From 935ef2280f648f64018ec63eb9c61cf712cf5371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 087/201] fix: the static EngNav::subframeConvert gave zeros,
 and dump crashed, unless an EngNav object had been made before

---
 core/lib/GNSSEph/EngNav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cb4294c..40bbd2a 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -383,6 +383,9 @@ namespace gpstk
       for (i=0; i< 20; i++)
          output[i] = 0.0L;
 
+         // The tables are set up by the constructor.
+      EngNav initializeTables;
+
          // Get subframe and page id and derive pattern number.
       if ((patId = getSubframePattern(input)) == 0)
          return false;
@@ -795,6 +798,7 @@ namespace gpstk
    void EngNav :: dump(std::ostream& s)
    {
       struct DecodeQuant *p = NULL;
+      EngNav initializeTables; // the tables are set up by the constructor
       for(short pattern = 1; pattern <= 10; pattern++)
       {
          s.setf(std::ios::fixed, std::ios::floatfield);
-- 
2.43.0


From 02cbd0bcf8966affae2084eea1173113744c45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 088/201] fix: EngNav::fixParity kept bits of the old parity,
 and solved the non-information bits wrongly for inverted words

---
 core/lib/GNSSEph/EngNav.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 40bbd2a..70c072f 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -692,14 +692,18 @@ namespace gpstk
       uint32_t d = sfword;
       uint32_t D29 = getd29(psfword);
       uint32_t D30 = getd30(psfword);
+         // the source data bits are the complement if D30 was set
+      uint32_t flip = (D30 && !knownUpright) ? 0xffffffff : 0;
 
+         // remove the old parity
+      d &= 0xffffffc0;
       if (nib)
       {
             // make sure the non-information bits are zero to start with.
          d &= 0xffffff00;
-         if ((D30 + BinUtils::countBits(bmask[4] & d)) % 2)
+         if ((D30 + BinUtils::countBits(bmask[4] & (d ^ flip))) % 2)
             d |= 0x00000040;
-         if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
+         if ((D29 + BinUtils::countBits(bmask[5] & (d ^ flip))) % 2)
             d |= 0x00000080;
       }
 
-- 
2.43.0


From 3d00aafa8ceb039b4db2d4196b79233a944669ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 089/201] fix: zcount2page gave page 25 for the last subframe
 of the week, which is page 10

---
 core/lib/GNSSEph/EngNav.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 70c072f..b253488 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -607,6 +607,12 @@ namespace gpstk
                               short& subframe, short& page)
       throw()
    {
+         // The last subframe of the week has a TOW count of 0, that of
+         // the start of the next week.  A week has 20160 frames, which
+         // is no multiple of 25: the pages start again with the week.
+      if (zcount == 0)
+         zcount = 403200;
+
       subframe = ((zcount % 20) / 4);
       if (subframe == 0)
          subframe = 5;
-- 
2.43.0


From 9d97e4e58694c966bbf06337f6f4dd781f8b5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 090/201] fix: CNav2SanityFilter rejected the messages whose
 TOI and ITOW are zero, as the test for a negative time was made on an
 unsigned

---
 core/lib/NavFilter/CNav2SanityFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/CNav2SanityFilter.cpp b/core/lib/NavFilter/CNav2SanityFilter.cpp
index 8f1df37..5ae5efd 100755
--- a/core/lib/NavFilter/CNav2SanityFilter.cpp
+++ b/core/lib/NavFilter/CNav2SanityFilter.cpp
@@ -67,11 +67,11 @@ namespace gpstk
          bitOffset += 8; 
          uint32_t pageNum = (uint32_t) fd->pnb->asUnsignedLong(bitOffset,6,1);
 
-         unsigned msgSOW = 7200 * ITOW + TOI * 18; 
+         int msgSOW = 7200 * ITOW + TOI * 18; 
          msgSOW -= 18;
          if (msgSOW<0)
             msgSOW += 604800; 
-         unsigned xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
+         int xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
          unsigned xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
  
          bool valid =
-- 
2.43.0


From cd8cf24ab72a1bd6102db064e34c560cb6a3be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 091/201] fix: NavFilterMgr::finalize lost the messages a
 filter rejected in all but the last cascade, and never listed the rejecting
 filters

---
 core/lib/NavFilter/NavFilterMgr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index 200ddde..80ebf7f 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -82,11 +82,14 @@ namespace gpstk
          // current and next filter
       FilterList::iterator fliCur, fliNxt;
       rejected.clear();
+         // Clear the rejected data of all filters once only, as a
+         // filter can reject data in several of the cascades below.
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+         (*fliCur)->rejected.clear();
          // touch ALL filters
       for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
       {
             // finalize the data in the current filter
-         (*fliCur)->rejected.clear();
          rv2.clear();
          (*fliCur)->finalize(rv2);
          
@@ -100,7 +103,6 @@ namespace gpstk
             rv1 = rv2;
             while ((fliNxt != filters.end()) && !rv1.empty())
             {
-               (*fliNxt)->rejected.clear();
                rv2.clear();
                (*fliNxt)->validate(rv1, rv2);
                rv1 = rv2;
@@ -115,6 +117,11 @@ namespace gpstk
             }
          }
       }
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+      {
+         if (!(*fliCur)->rejected.empty())
+            rejected.insert(*fliCur);
+      }
       return rv;
    }
 
-- 
2.43.0


From aae8fbc092d7328cfa945d3715f897f68a1656fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 092/201] fix: NavMsgDataWords::getBits gave wrong bits when
 the first is the last of a word, and when they cross into the next word

---
 core/lib/NavFilter/NavMsgDataWords.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/lib/NavFilter/NavMsgDataWords.hpp b/core/lib/NavFilter/NavMsgDataWords.hpp
index 1ffe367..385f395 100644
--- a/core/lib/NavFilter/NavMsgDataWords.hpp
+++ b/core/lib/NavFilter/NavMsgDataWords.hpp
@@ -83,12 +83,14 @@ namespace gpstk
    uint32_t NavMsgDataWords<WordSize> ::
    getBits(unsigned start, unsigned num) const
    {
-      if (num == 0)
-         return 0;
-         // mask and shift the desired bits
-      uint32_t fbmodN = (start % WordSize);
-      return ((sf[start/WordSize] & (((uint32_t)-1) >> (fbmodN+1))) >>
-              (31-fbmodN-num));
+      uint32_t rv = 0;
+      for (unsigned i = start-1; i < (start+num-1); i++)
+      {
+            // bit 1 is the most significant of the WordSize bits used
+         rv <<= 1;
+         rv |= (sf[i/WordSize] >> (WordSize - 1 - (i % WordSize))) & 1;
+      }
+      return rv;
    }
 
 
-- 
2.43.0


From fa8693bbdbc2b25ef7085cf6692955cce6ad4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 093/201] fix: LNavEmptyFilter tested only 20 of the 24 data
 bits (12 of 16 in word 3), rejecting messages with data in the others

---
 core/lib/NavFilter/LNavEmptyFilter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/NavFilter/LNavEmptyFilter.cpp b/core/lib/NavFilter/LNavEmptyFilter.cpp
index f68bf90..0bb5f72 100644
--- a/core/lib/NavFilter/LNavEmptyFilter.cpp
+++ b/core/lib/NavFilter/LNavEmptyFilter.cpp
@@ -62,14 +62,14 @@ namespace gpstk
                // or subframe 4 or 5 with alternating 1s and 0s
             ((((fd->sf[1] & 0x700) == 0x400) ||
               ((fd->sf[1] & 0x700) == 0x500)) &&
-             ((fd->sf[2] & 0x3ffc0) == 0x2aa80) &&
-             ((fd->sf[3] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[4] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[5] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[6] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[7] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[8] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[9] & 0x3ffffc0) == 0x2aaaa80));
+             ((fd->sf[2] & 0x3fffc0) == 0x2aaa80) &&
+             ((fd->sf[3] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[4] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[5] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[6] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[7] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[8] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[9] & 0x3fffffc0) == 0x2aaaaa80));
          if (blank)
             reject(fd);
          else
-- 
2.43.0


From 94644b1bc2ceaa312419f79031ab4be33d55f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 094/201] fix: PRSolution left all the slopes after a satellite
 that alone has its clock zero, so MaxSlope missed them

---
 core/lib/PosSol/PRSolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index d0931d2..43683d5 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -448,7 +448,7 @@ namespace gpstk
 
             // NB when one (few) sats have their own clock, PG(j,j) = 1 (nearly 1)
             // and slope is inf (large)
-            if(::fabs(1.0-PG(j,j)) < 1.e-8) continue;
+            if(::fabs(1.0-PG(j,j)) < 1.e-8) { j++; continue; }
 
             for(int k=0; k<dim; k++) Slopes(j) += G(k,j)*G(k,j); // TD dim=4 here?
             Slopes(j) = SQRT(Slopes(j)*double(n-dim)/(1.0-PG(j,j)));
-- 
2.43.0


From 5f39c51dcac68ab734139495f959f2ddfa15f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 095/201] fix: SimplePRSolution counted the unmarked satellites
 of disallowed systems out but then used them, writing past its matrices

---
 core/lib/PosSol/PRSolution.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index 43683d5..6d99ca1 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -246,9 +246,11 @@ namespace gpstk
             LOG(DEBUG) << "Build inverse MCov";
             iMC = Matrix<double>(Nsvs,Nsvs,0.0);
             for(n=0,i=0; i<Sats.size(); i++) {
-               if(Sats[i].id <= 0) continue;
+               if(Sats[i].id <= 0 ||
+                  vectorindex(allowedGNSS, Sats[i].system) == -1) continue;
                for(k=0,j=0; j<Sats.size(); j++) {
-                  if(Sats[j].id <= 0) continue;
+                  if(Sats[j].id <= 0 ||
+                     vectorindex(allowedGNSS, Sats[j].system) == -1) continue;
                   iMC(n,k) = invMC(i,j);
                   ++k;
                }
@@ -301,8 +303,9 @@ namespace gpstk
 
             // loop over satellites, computing partials matrix
             for(n=0,i=0; i<Sats.size(); i++) {
-               // ignore marked satellites
-               if(Sats[i].id <= 0) continue;
+               // ignore marked satellites, and those of disallowed systems
+               if(Sats[i].id <= 0 ||
+                  vectorindex(allowedGNSS, Sats[i].system) == -1) continue;
 
                // ------------ ephemeris
                // rho is time of flight (sec)
@@ -444,7 +447,8 @@ namespace gpstk
          MaxSlope = 0.0;
          Slopes = 0.0;
          if(iret == 0) for(j=0,i=0; i<Sats.size(); i++) {
-            if(Sats[i].id <= 0) continue;
+            if(Sats[i].id <= 0 ||
+               vectorindex(allowedGNSS, Sats[i].system) == -1) continue;
 
             // NB when one (few) sats have their own clock, PG(j,j) = 1 (nearly 1)
             // and slope is inf (large)
-- 
2.43.0


From 0661de4e2416850605fd463f77c1c5b79fbbaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 096/201] fix: PRSolution read past its a priori state, of one
 clock, when several systems are allowed and none had been set

---
 core/lib/PosSol/PRSolution.cpp | 3 ++-
 core/lib/PosSol/PRSolution.hpp | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index 6d99ca1..60b8fc0 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -283,7 +283,8 @@ namespace gpstk
             for(i=0; i<3; i++) localAPSol[i] = APSolution[i];
             for(i=0; i<currGNSS.size(); i++) {
                k = vectorindex(allowedGNSS,currGNSS[i]);
-               localAPSol[3+i] = (k == -1 ? 0.0 : APSolution[3+k]);
+               localAPSol[3+i] = ((k == -1 || 3+k >= int(APSolution.size()))
+                                   ? 0.0 : APSolution[3+k]);
             }
             //LOG(INFO) << " apriori solution (" << APSolution.size() << ") is [ "
             //   << fixed << setprecision(3) << APSolution << " ]";
diff --git a/core/lib/PosSol/PRSolution.hpp b/core/lib/PosSol/PRSolution.hpp
index e9eca4d..eceadb5 100644
--- a/core/lib/PosSol/PRSolution.hpp
+++ b/core/lib/PosSol/PRSolution.hpp
@@ -583,7 +583,10 @@ namespace gpstk
             S(i) = (fixedAPriori ? fixedAPrioriPos[i] : Sol(i));
          for(i=0; i<allowedGNSS.size(); i++) {
             k = vectorindex(dataGNSS,allowedGNSS[i]);
-            S(3+i) = (k == -1 ? APSolution[3+i] : Sol[3+k]);
+            if(k != -1)
+               S(3+i) = Sol[3+k];
+            else if(3+i < APSolution.size())
+               S(3+i) = APSolution[3+i];
          }
 
          APSolution = S;
-- 
2.43.0


From 48f4733cc9e2c6655dbb4accaedde9719f77d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 097/201] fix: PRSolutionLegacy::RAIMCompute gave an empty
 covariance

---
 ext/lib/PosSol/PRSolutionLegacy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ext/lib/PosSol/PRSolutionLegacy.cpp b/ext/lib/PosSol/PRSolutionLegacy.cpp
index e13039f..aac706a 100644
--- a/ext/lib/PosSol/PRSolutionLegacy.cpp
+++ b/ext/lib/PosSol/PRSolutionLegacy.cpp
@@ -448,6 +448,7 @@ namespace gpstk
                      BestSL = MaxSlope;
                      BestConv = Convergence;
                      BestNIter = NIterations;
+                     BestCovariance = Covariance;
                   }
                      // quit immediately?
                   if ((stage==0 || ReturnAtOnce) && RMSResidual < RMSLimit)
-- 
2.43.0


From ea38758eee5da2c2375a812840eecd4f6568d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 098/201] fix: IonoModel of an EngAlmanac took parameters in
 inverse radians as if in inverse semi-circles

---
 core/lib/GNSSCore/IonoModel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index 39ff98b..b5bf8ae 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -60,8 +60,10 @@ namespace gpstk
    {
       try
       {
-         engalm.getIon(alpha, beta);
-         valid = true;
+            // the parameters of EngAlmanac are in powers of inverse radians
+         double a[4], b[4];
+         engalm.getIon(a, b);
+         setModel(a, b, false);
       }
       catch(InvalidRequest& e)
       {
-- 
2.43.0


From 0157bdcdd82b5d63fae2fda55959e48964131df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 099/201] fix: IonoModel took one day only from a local time of
 two days or more, at longitudes near 360 degrees

---
 core/lib/GNSSCore/IonoModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModel.cpp b/core/lib/GNSSCore/IonoModel.cpp
index b5bf8ae..cdcbce0 100644
--- a/core/lib/GNSSCore/IonoModel.cpp
+++ b/core/lib/GNSSCore/IonoModel.cpp
@@ -140,9 +140,10 @@ namespace gpstk
          iPER = 72000.0;
 
       double t = 43200.0 * lambda_i + YDSTime(time).sod;
-      if (t >= 86400.0)
+         // the longitude of Position is from 0 to 360 degrees
+      while (t >= 86400.0)
          t -= 86400.0;
-      if (t < 0)
+      while (t < 0)
          t += 86400.0;
 
       double x = TWO_PI * (t - 50400.0) / iPER; // x is in radians
-- 
2.43.0


From dd31baa15a23820ec698b72b5f022ea2ee74ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 100/201] fix: HelmertTransform left a transformed Xvt in its
 old frame

---
 core/lib/RefTime/HelmertTransform.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/RefTime/HelmertTransform.hpp b/core/lib/RefTime/HelmertTransform.hpp
index 25f9bc8..f112ca0 100644
--- a/core/lib/RefTime/HelmertTransform.hpp
+++ b/core/lib/RefTime/HelmertTransform.hpp
@@ -154,6 +154,7 @@ namespace gpstk
             result.x[0] = res[0];
             result.x[1] = res[1];
             result.x[2] = res[2];
+            result.frame = res.getReferenceFrame();
          }
          catch(Exception& e) { GPSTK_RETHROW(e); }
       }
-- 
2.43.0


From 83fcd99e1e3a3770b7a963eb4e6705341f2d5777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 101/201] fix: HelmertTransform read past the end of a Vector
 with fewer than 3 elements

---
 core/lib/RefTime/HelmertTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/RefTime/HelmertTransform.hpp b/core/lib/RefTime/HelmertTransform.hpp
index f112ca0..bfc7a3f 100644
--- a/core/lib/RefTime/HelmertTransform.hpp
+++ b/core/lib/RefTime/HelmertTransform.hpp
@@ -106,7 +106,7 @@ namespace gpstk
       void transform(const Vector<double>& vec, const ReferenceFrame& frame,
                      Vector<double>& result)
       {
-         if(vec.size() > 3) {
+         if(vec.size() != 3) {
             InvalidRequest e("Input Vector is not of length 3");
             GPSTK_THROW(e);
          }
-- 
2.43.0


From b7f5db7e2500afc5f2252700d800ddc569516c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 102/201] fix: SVNumXRef overran its message buffer for numbers
 of several digits

---
 core/lib/GNSSCore/SVNumXRef.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/lib/GNSSCore/SVNumXRef.cpp b/core/lib/GNSSCore/SVNumXRef.cpp
index 0524bef..d8003ba 100644
--- a/core/lib/GNSSCore/SVNumXRef.cpp
+++ b/core/lib/GNSSCore/SVNumXRef.cpp
@@ -572,8 +572,8 @@ int SVNumXRef::getNAVSTAR( const int PRNID, const gpstk::CommonTime dt ) const
    
       // We didn't find a NAVSTAR # for this PRN ID and date, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No NAVSTAR # found associated with PRN ID %d at requested date: %s.", 
+   char textOut[160];
+   snprintf(textOut,sizeof(textOut),"No NAVSTAR # found associated with PRN ID %d at requested date: %s.", 
             PRNID,printTime(dt,"%02m/%02d/%04Y").c_str() ); 
    std::string sout = textOut;
    NoNAVSTARNumberFound noFound( sout );
@@ -604,8 +604,8 @@ SVNumXRef::BlockType SVNumXRef::getBlockType( const int NAVSTARID ) const
    
       // We didn't find a BlockType for this NAVSTAR #, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No BlockType found associated with NAVSTAR Num %d.", 
+   char textOut[160];
+   snprintf(textOut,sizeof(textOut),"No BlockType found associated with NAVSTAR Num %d.", 
             NAVSTARID);
    std::string sout = textOut;
    NoNAVSTARNumberFound noFound( sout );
@@ -644,8 +644,8 @@ int SVNumXRef::getPRNID( const int NAVSTARID, const gpstk::CommonTime dt ) const
 
       // We didn't find a PRN ID for this NAVSTAR # and date, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No PRN ID found associated with NAVSTAR Num %d at requested date: %s.", 
+   char textOut[160];
+   snprintf(textOut,sizeof(textOut),"No PRN ID found associated with NAVSTAR Num %d at requested date: %s.", 
             NAVSTARID,printTime(dt,"%02m/%02d/%04Y").c_str() ); 
    std::string sout = textOut;
    NoNAVSTARNumberFound noFound( sout );
-- 
2.43.0


From 02a3c4777c922118ca8c588d88bd6bf731fba730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 103/201] fix: sub-vector and sub-matrix constructors of the
 sparse classes kept an element past the end and the old row numbers

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 ++--
 ext/lib/Geomatics/SparseVector.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index a8d17ba..d42cc61 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -643,9 +643,9 @@ namespace gpstk
       typename std::map< unsigned int, SparseVector<T> >::const_iterator it;
       for(it = SM.rowsMap.begin(); it != SM.rowsMap.end(); ++it) {
          if(it->first < rind) continue;               // skip rows before rind
-         if(it->first > rind+rnum) break;             // done with rows
+         if(it->first >= rind+rnum) break;            // done with rows
          SparseVector<T> SV(it->second,cind,cnum);    // get sub-vector
-         if(!SV.isEmpty()) rowsMap[it->first] = SV;   // add it
+         if(!SV.isEmpty()) rowsMap[it->first-rind] = SV;  // add it
       }
    }
 
diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index d0ed8a0..353bdc3 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -518,13 +518,13 @@ namespace gpstk
    {
       if(ind+n > SV.len)
          GPSTK_THROW(Exception("Invalid input subvector c'tor - out of range"));
+      len = n;
       if(n == 0) return;
 
-      len = n;
       typename std::map<unsigned int, T>::const_iterator it;
       for(it = SV.vecMap.begin(); it != SV.vecMap.end(); ++it) {
          if(it->first < ind) continue;       // skip ones before ind
-         if(it->first > ind+n) break;
+         if(it->first >= ind+n) break;
          vecMap[it->first-ind] = it->second;
       }
    }
-- 
2.43.0


From 4a71ac1b415407ecc29f94ad509ce868660c1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 104/201] fix: norm of a SparseVector counted its first element
 twice

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 353bdc3..5996c31 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -592,7 +592,7 @@ namespace gpstk
          return T(0);
 
       T tn(ABS(it->second));   // cmath/cstdlib makes this valid for std types
-      for( ; it != SV.vecMap.end(); ++it) {
+      for(++it; it != SV.vecMap.end(); ++it) {
          if(tn > ABS(it->second))
             tn *= SQRT(T(1) + (it->second/tn)*(it->second/tn));
          else if(tn < ABS(it->second))
-- 
2.43.0


From 961459e2925d53f22a811a93b01b388a2ef45053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 105/201] fix: SparseVector::sum and cosVec could not be
 compiled when used

---
 ext/lib/Geomatics/SparseVector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 5996c31..9880938 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -401,8 +401,8 @@ namespace gpstk
       inline T sum(const SparseVector<T>& SV) const
       {
          T tot(0);
-         typename std::map<unsigned int, T>::iterator it = vecMap.begin();
-         for( ; it != vecMap.end(); ++it)
+         typename std::map<unsigned int, T>::const_iterator it = SV.vecMap.begin();
+         for( ; it != SV.vecMap.end(); ++it)
             tot += it->second;
          return tot;
       }
@@ -609,7 +609,7 @@ namespace gpstk
    {
       T cv;
       // try in case RANGECHECK is set
-      try { cv = S1.dot(S2); }
+      try { cv = dot(S1,S2); }
       catch(Exception& e) { GPSTK_RETHROW(e); }
 
       T norm1(norm(S1)), norm2(norm(S2));
@@ -623,7 +623,7 @@ namespace gpstk
    {
       T cv;
       // try in case RANGECHECK is set
-      try { cv = SV.dot(V); }
+      try { cv = dot(SV,V); }
       catch(Exception& e) { GPSTK_RETHROW(e); }
 
       T norm1(norm(SV)), norm2(norm(V));
-- 
2.43.0


From 9c23ded9e645585859962567db331bd5b87047e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 106/201] fix: a SparseVector times zero lost its length

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 9880938..68f04f9 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -846,7 +846,7 @@ namespace gpstk
    SparseVector<T>& SparseVector<T>::operator*=(const T& value)
    {
       if(value == T(0)) {
-         resize(0);
+         clear();
       }
       else {
          typename std::map<unsigned int, T>::iterator it;
-- 
2.43.0


From 68072daff1527e54ca423f11752a76744d1278ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 107/201] fix: SparseVector::zeroTolerance, the default
 tolerance of zeroize, was defined nowhere

---
 ext/lib/Geomatics/SparseVector.cpp | 2 +-
 ext/lib/Geomatics/SparseVector.hpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.cpp b/ext/lib/Geomatics/SparseVector.cpp
index 31f61d2..5656a4d 100644
--- a/ext/lib/Geomatics/SparseVector.cpp
+++ b/ext/lib/Geomatics/SparseVector.cpp
@@ -43,5 +43,5 @@ namespace gpstk
 {
    /// tolerance in considering element to be zero is std::abs(elem) < tolerance
    /// see zeroize(), where this is the default input value
-   template <class T> const double SparseVector<T>::zeroTolerance=1.0e-14;
+   // NB zeroTolerance is defined in the header, where every user can see it
 }
diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 68f04f9..71d060f 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -498,6 +498,9 @@ namespace gpstk
    //---------------------------------------------------------------------------
    // implementation of SparseVector
    //---------------------------------------------------------------------------
+   // tolerance in considering element to be zero
+   template <class T> const double SparseVector<T>::zeroTolerance=1.0e-14;
+
    // constructor from regular Vector<T>
    template <class T> SparseVector<T>::SparseVector(const Vector<T>& V)
    {
-- 
2.43.0


From e5fa300807fcf6c57244acb98595b01f9dda2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 108/201] fix: products of a SparseVector with a matrix used
 the wrong rows or could not be compiled

---
 ext/lib/Geomatics/SparseMatrix.hpp |  2 +-
 ext/lib/Geomatics/SparseVector.hpp | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index d42cc61..98951fd 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -918,7 +918,7 @@ namespace gpstk
          // loop over rows of R and elements of V
          for(unsigned int k=0; k<jt->second.size(); k++)
             if(V.isFilled(jt->second[k]))
-               sum += V[jt->second[k]] * R(k,jt->first);
+               sum += V[jt->second[k]] * R(jt->second[k],jt->first);
          if(sum != T(0)) retSV.vecMap[jt->first] = sum;
       }
 
diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 71d060f..97f6ba6 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -165,6 +165,14 @@ namespace gpstk
                                                 const SparseVector<T>& V);
    template <class T> SparseVector<T> operator*(const SparseMatrix<T>& L,
                                                 const Vector<T>& V);
+   template <class T> SparseVector<T> operator*(const Matrix<T>& L,
+                                                const SparseVector<T>& V);
+   template <class T> SparseVector<T> operator*(const SparseVector<T>& V,
+                                                const SparseMatrix<T>& R);
+   template <class T> SparseVector<T> operator*(const SparseVector<T>& V,
+                                                const Matrix<T>& R);
+   template <class T> SparseVector<T> operator*(const Vector<T>& V,
+                                                const SparseMatrix<T>& R);
    template <class T> SparseMatrix<T> operator*(const SparseMatrix<T>& L,
                                                 const SparseMatrix<T>& R);
    template <class T> SparseMatrix<T> operator*(const SparseMatrix<T>& L,
@@ -264,6 +272,14 @@ namespace gpstk
                                           const SparseVector<T>& V);
       friend SparseVector<T> operator*<T>(const SparseMatrix<T>& L,
                                           const Vector<T>& V);
+      friend SparseVector<T> operator*<T>(const Matrix<T>& L,
+                                          const SparseVector<T>& V);
+      friend SparseVector<T> operator*<T>(const SparseVector<T>& V,
+                                          const SparseMatrix<T>& R);
+      friend SparseVector<T> operator*<T>(const SparseVector<T>& V,
+                                          const Matrix<T>& R);
+      friend SparseVector<T> operator*<T>(const Vector<T>& V,
+                                          const SparseMatrix<T>& R);
       friend SparseMatrix<T> operator*<T>(const SparseMatrix<T>& L,
                                           const SparseMatrix<T>& V);
       friend SparseMatrix<T> operator*<T>(const SparseMatrix<T>& L,
-- 
2.43.0


From 932ae9b09df7e754afc898247adf05a8803c1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 109/201] fix: concatenation of sparse matrices misplaced or
 dropped rows and kept the old row length

---
 ext/lib/Geomatics/SparseMatrix.hpp | 38 +++++++++++++-----------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 98951fd..932d570 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1092,6 +1092,8 @@ namespace gpstk
 
       unsigned int i,n(toRet.ncols-1);
       typename std::map< unsigned int, SparseVector<T> >::iterator jt;
+      for(jt = toRet.rowsMap.begin(); jt != toRet.rowsMap.end(); ++jt)
+         jt->second.len = toRet.ncols;          // rows already present
       for(i=0; i<V.size(); i++) {
          if(V(i) != T(0)) {                     // add it
             jt = toRet.rowsMap.find(i);         // find the row
@@ -1115,30 +1117,24 @@ namespace gpstk
       SparseMatrix<T> toRet(L);
       toRet.ncols += R.ncols;
 
-      unsigned int i, N(L.ncols);
+      const unsigned int N(L.ncols);
       typename std::map< unsigned int, SparseVector<T> >::iterator it;
       typename std::map< unsigned int, SparseVector<T> >::const_iterator jt;
-      it = toRet.rowsMap.begin();
-      jt = R.rowsMap.begin();
-      while(it != toRet.rowsMap.end() && jt != R.rowsMap.end()) {
-         if(it->first < jt->first) {         // R has no row here - do nothing
-            it->second.len += N;
-            ++it;
-         }
-         else if(it->first > jt->first) {    // R has a row where toRet does not
-            toRet.rowsMap[jt->first] = jt->second;
-            toRet.rowsMap[jt->first].len += N;
-            ++jt;
-         }
-         else {                              // equal indexes - both have rows
-            it->second.len += N;
-            typename std::map< unsigned int, T >::const_iterator vt;
-            for(vt = jt->second.vecMap.begin(); vt != jt->second.vecMap.end(); ++vt) {
-               toRet.rowsMap[it->first].vecMap[N+vt->first] = vt->second;
-            }
-            ++it;
-            ++jt;
+      typename std::map< unsigned int, T >::const_iterator vt;
+
+      // all the rows of L have the new length
+      for(it = toRet.rowsMap.begin(); it != toRet.rowsMap.end(); ++it)
+         it->second.len = toRet.ncols;
+
+      // append the rows of R
+      for(jt = R.rowsMap.begin(); jt != R.rowsMap.end(); ++jt) {
+         it = toRet.rowsMap.find(jt->first);
+         if(it == toRet.rowsMap.end()) {     // R has a row where toRet does not
+            toRet.rowsMap[jt->first] = SparseVector<T>(toRet.ncols);
+            it = toRet.rowsMap.find(jt->first);
          }
+         for(vt = jt->second.vecMap.begin(); vt != jt->second.vecMap.end(); ++vt)
+            it->second.vecMap[N+vt->first] = vt->second;
       }
 
       return toRet;
-- 
2.43.0


From 8e776a6648dfd0cb7b224bde67cea196df88b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 110/201] fix: operator+ of sparse matrices subtracted

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 932d570..1115862 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1324,7 +1324,7 @@ namespace gpstk
       //std::cout << "SM::op+(SM,SM)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
@@ -1338,7 +1338,7 @@ namespace gpstk
       //std::cout << "SM::op+(SM,M)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
@@ -1352,7 +1352,7 @@ namespace gpstk
       //std::cout << "SM::op+(M,SM)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
-- 
2.43.0


From 123d6bbc073d469cae755b69612457f00a0a806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 111/201] fix: SparseMatrix::swapCols did nothing and rowCopy
 of a zero row had no length

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 1115862..b0e1f09 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1364,7 +1364,7 @@ namespace gpstk
    template <class T>
    SparseVector<T> SparseMatrix<T>::rowCopy(const unsigned int i) const
    {
-      SparseVector<T> retSV;
+      SparseVector<T> retSV(ncols);
       typename std::map< unsigned int, SparseVector<T> >::const_iterator it;
       it = rowsMap.find(i);
       if(it != rowsMap.end())
@@ -1442,7 +1442,7 @@ namespace gpstk
       // may not be the fastest, but may be fast enough - tranpose() is fast
       SparseMatrix<T> trans(transpose(*this));
       trans.swapRows(ii,jj);
-      *this = transpose(*this);
+      *this = transpose(trans);
    }
 
    //---------------------------------------------------------------------------------
-- 
2.43.0


From b2daaf04c0a34f352b76984575ed6db54c305612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 112/201] fix: SparseMatrix::resize to more columns left the
 rows at their old length

---
 ext/lib/Geomatics/SparseMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index b0e1f09..a3235e2 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -444,7 +444,7 @@ namespace gpstk
             it = rowsMap.lower_bound(newrows);
             rowsMap.erase(it,rowsMap.end());
          }
-         if(newcols < ncols)
+         if(newcols != ncols)
             for(it=rowsMap.begin(); it != rowsMap.end(); ++it)
                it->second.resize(newcols);
          
-- 
2.43.0


From db8f220015a4f4e234b993191d322304c452cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 113/201] fix: inverseLT of a sparse matrix returned zero for
 the smallest diagonal element, and for the largest alone

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index a3235e2..efdf39c 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1791,10 +1791,8 @@ namespace gpstk
          }
 
          dum = it->second[i];
-         if(ptrSmall) {
-            if(ABS(dum) > big) big = ABS(dum);
-            if(ABS(dum) < small) small = ABS(dum);
-         }
+         if(i == 0 || ABS(dum) > big) big = ABS(dum);
+         if(i == 0 || ABS(dum) < small) small = ABS(dum);
 
          // create row i and element i,i in the answer
          dum = T(1)/dum;
-- 
2.43.0


From 0909bea9e1d5bde61120a73f69d0f4a908a51a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 114/201] fix: SrifMU of sparse partials ran past the end of
 the map, or failed, when all the data are zero

---
 ext/lib/Geomatics/SparseMatrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index efdf39c..c6f6ab4 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2056,7 +2056,8 @@ namespace gpstk
             SparseVector<T> Vk(m);     // will be column k of A
 
             if(kt->first == k-1) ++kt; // kt now points to next column -- is it k?
-            if(kt->first != k) {       // no col k - should create a column in A...
+            if(kt == AT.rowsMap.end() || kt->first != k) {
+                                       // no col k - should create a column in A...
                AT.rowsMap[k] = Vk;
                kt = AT.rowsMap.find(k);
             }
@@ -2088,8 +2089,8 @@ namespace gpstk
 
       // must put last row of AT (last column of A) back into A - these are residuals
       jt = AT.rowsMap.find(AT.rows()-1);
-      // should never happen
-      if(jt == AT.rowsMap.end()) GPSTK_THROW(Exception("Failure on last column"));
+      // there is none if the data, and so the residuals, are all zero
+      if(jt == AT.rowsMap.end()) return;
 
       // put this row, jt->second, into the last column of A
       j = A.cols()-1;
-- 
2.43.0


From ba7670f18c9e1fe4ce8bf9251fa619bc02f9d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 115/201] fix: SrifMU of sparse partials failed when given
 fewer rows than A has

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index c6f6ab4..b5190bd 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2024,7 +2024,9 @@ namespace gpstk
       typename std::map< unsigned int, SparseVector<T> >::iterator jt,kt,it;
       typename std::map< unsigned int, T >::iterator vt;
 
-      SparseMatrix<T> AT(transpose(A));         // work with the transpose
+      // work with the transpose, of the first m rows only
+      SparseMatrix<T> AT(transpose(m < A.rows() ?
+                                   SparseMatrix<T>(A,0,0,m,A.cols()) : A));
    
       for(j=0; j<n; j++) {          // loop over columns
          jt = AT.rowsMap.find(j);   // is column j empty?
-- 
2.43.0


From e15a9e4546ca2276d13d80eaaf9d49db619e3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 116/201] fix: SparseMatrix::resize to fewer columns kept empty
 rows, which min, max, minabs and maxabs took as zeros

---
 ext/lib/Geomatics/SparseMatrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index b5190bd..da930c4 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -447,7 +447,8 @@ namespace gpstk
          if(newcols != ncols)
             for(it=rowsMap.begin(); it != rowsMap.end(); ++it)
                it->second.resize(newcols);
-         
+         zeroize(T(0));          // remove any rows that are now empty
+
          nrows = newrows;
          ncols = newcols;
       }
-- 
2.43.0


From b703b7417f69098f96347a5fccf1a9aba3473dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 117/201] fix: SRI::zeroAll of all the rows did nothing, so
 Reset to the current dimension kept the information

---
 ext/lib/Geomatics/SRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 948d109..881c739 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -508,7 +508,7 @@ using namespace StringUtils;
          return;
       }
 
-      if(n >= int(R.rows()))
+      if(n > R.rows())
          return;
 
       for(unsigned int i=0; i<n; i++) {
-- 
2.43.0


From 00b8e2c25fb535b13aa00279e397140f9881269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 118/201] fix: Reset of SRIFilter and SRIleastSquares to
 another dimension kept the old list of names

---
 ext/lib/Geomatics/SRIFilter.cpp       | 1 +
 ext/lib/Geomatics/SRIleastSquares.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ext/lib/Geomatics/SRIFilter.cpp b/ext/lib/Geomatics/SRIFilter.cpp
index 4b9635e..c595a1f 100644
--- a/ext/lib/Geomatics/SRIFilter.cpp
+++ b/ext/lib/Geomatics/SRIFilter.cpp
@@ -260,6 +260,7 @@ void SRIFilter::Reset(const int N)
    if(N > 0 && N != (int)R.rows()) {
       R.resize(N,N,0.0);
       Z.resize(N,0.0);
+      names = Namelist(N);
    }
    else
       SRI::zeroAll(N);
diff --git a/ext/lib/Geomatics/SRIleastSquares.cpp b/ext/lib/Geomatics/SRIleastSquares.cpp
index 3a1ee69..9e2cef4 100644
--- a/ext/lib/Geomatics/SRIleastSquares.cpp
+++ b/ext/lib/Geomatics/SRIleastSquares.cpp
@@ -541,6 +541,7 @@ void SRIleastSquares::Reset(const int N)
       if(N > 0 && N != (int)R.rows()) {
          R.resize(N,N,0.0);
          Z.resize(N,0.0);
+         names = Namelist(N);
       }
       else
          SRI::zeroAll(N);
-- 
2.43.0


From 0a3c314554d34909b25bedba3b0ed886691e3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 119/201] fix: SRI::reshape did not reorder the states, and
 failed when no state is dropped

---
 ext/lib/Geomatics/SRI.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 881c739..b53f335 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -333,7 +333,10 @@ using namespace StringUtils;
    void SRI::reshape(const Namelist& NL)
    {
       try {
-         if(names == NL) return;
+         if(names == NL) {          // only the order may differ
+            this->permute(NL);
+            return;
+         }
          Namelist keep(names);
          keep &= NL;                // keep only those in both names and NL
          //Namelist drop(names);    // (drop is unneeded - split would do it)
@@ -342,7 +345,10 @@ using namespace StringUtils;
          add ^= keep;               // add those in NL but not in keep
          SRI Sdrop;                 // make a new SRI to hold the losers
          // would like to allow caller access to Sdrop..
-         split(keep,Sdrop);         // split off only the losers
+         if(keep.size() == 0)       // nothing is kept
+            *this = SRI(keep);
+         else if(keep.size() < names.size())
+            split(keep,Sdrop);      // split off only the losers
                                     // NB names = drop | keep; drop & keep is empty
          *this += add;              // add the new ones
          this->permute(NL);         // permute it to match NL
-- 
2.43.0


From 7efe0cedb1155fc4aec2d3607466ca13c1bb450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 120/201] fix: inverseUT reported most singular matrices with
 the wrong exception, so least squares did not return -2

---
 ext/lib/Geomatics/SRI.cpp       | 2 +-
 ext/lib/Geomatics/SRIMatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index b53f335..3419ed4 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -976,7 +976,7 @@ using namespace StringUtils;
          // how best to test?
          //  ::log(big) - ::log(small) + 1 >= numeric_limits<double>::max_exponent
          if(small <= 10*numeric_limits<double>::epsilon()) {
-            MatrixException me("Singular matrix: condition number is "
+            SingularMatrixException me("Singular matrix: condition number is "
                   + asString<double>(big) + " / " + asString<double>(small));
             GPSTK_THROW(me);
          }
diff --git a/ext/lib/Geomatics/SRIMatrix.hpp b/ext/lib/Geomatics/SRIMatrix.hpp
index 61a3413..807a79c 100644
--- a/ext/lib/Geomatics/SRIMatrix.hpp
+++ b/ext/lib/Geomatics/SRIMatrix.hpp
@@ -389,7 +389,7 @@ namespace gpstk
             if(UT(i,i) == T(0)) {
                std::ostringstream oss;
                oss << "Singular matrix at element " << i;
-               GPSTK_THROW(MatrixException(oss.str()));
+               GPSTK_THROW(SingularMatrixException(oss.str()));
             }
    
             if(fabs(UT(i,i)) > big) big = fabs(UT(i,i));
-- 
2.43.0


From 03cf95f44c9b3a2477e64a368b9d2d0049490f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 121/201] fix: inverseLT did not set the eigenvalues of a 1x1
 matrix

---
 ext/lib/Geomatics/SRIMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRIMatrix.hpp b/ext/lib/Geomatics/SRIMatrix.hpp
index 807a79c..41ce870 100644
--- a/ext/lib/Geomatics/SRIMatrix.hpp
+++ b/ext/lib/Geomatics/SRIMatrix.hpp
@@ -487,7 +487,6 @@ namespace gpstk
    
       big = small = fabs(dum);
       Inv(0,0) = T(1)/dum;
-      if(n == 1) return Inv;                 // 1x1 matrix
       //for(i=1; i<n; i++) Inv(0,i)=0;         // zero out columns to right of 0,0
    
          // now move to rows i = 1 to n-1
-- 
2.43.0


From 2da3a997cbe1f3217983ef61612902cd5766ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 122/201] fix: SRI::stateFixAndRemove dropped the information
 that the fixed state gives on later states, and wrote out of bounds for a
 list of states

---
 ext/lib/Geomatics/SRI.cpp | 94 ++++++++++-----------------------------
 1 file changed, 24 insertions(+), 70 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 3419ed4..aea8ad4 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -735,25 +735,31 @@ using namespace StringUtils;
       if(in >= R.rows()) return;
 
       try {
-         unsigned int i,j,ii,jj,n=R.rows();
-         Vector<double> Znew(n-1,0.0);
-         Matrix<double> Rnew(n-1,n-1,0.0);
-            // move the X(in) terms to the data vector on the RHS
-         for(i=0; i<in; i++) Z(i) -= R(i,in)*bias;
-            // remove row/col in and collapse
-         for(i=0,ii=0; i<n; i++) {
-            if(i == in) continue;
-            Znew(ii) = Z(i);
-            for(j=i,jj=ii; j<n; j++) {
+         const unsigned int n=R.rows();
+         unsigned int i,j,jj;
+         // A is [R||Z] without column in, with the X(in) terms moved to the RHS
+         Matrix<double> A(n,n,0.0);
+         for(i=0; i<n; i++) {
+            for(j=i; j<n; j++) {
                if(j == in) continue;
-               Rnew(ii,jj) = R(i,j);
-               jj++;
+               jj = (j < in ? j : j-1);
+               A(i,jj) = R(i,j);
             }
-            ii++;
+            A(i,n-1) = (i <= in ? Z(i)-R(i,in)*bias : Z(i));
+         }
+         names -= names.getName(in);
+         if(n == 1) {
+            R = Matrix<double>();
+            Z = Vector<double>();
+            return;
          }
-         R = Rnew;
-         Z = Znew;
-         names -= names.labels[in];
+
+            // the rows from in on are no longer triangular, and all hold information
+         Householder<double> HA;
+         HA(A);
+         R = Matrix<double>(HA.A,0,0,n-1,n-1);
+         Z = Vector<double>(HA.A.colCopy(n-1));
+         Z.resize(n-1);
       }
       catch(MatrixException& me) { GPSTK_RETHROW(me); }
       catch(VectorException& ve) { GPSTK_RETHROW(ve); }
@@ -800,63 +806,11 @@ using namespace StringUtils;
          Z = Vector<double>(R*newX);
          names = newNL;
 */
-         size_t i,j,k;
-            // create a vector of indexes and corresponding values
-         vector<int> indx;
-         vector<double> value;
-         for(i=0; i<dropNL.size(); i++) {
+         for(unsigned int i=0; i<dropNL.size(); i++) {
             int in = names.index(dropNL.getName(i));   // in must be allowed to be -1
-            if(in > -1) {
-               indx.push_back(in);
-               value.push_back(values_in(i));
-            }
+            if(in > -1) stateFixAndRemove((unsigned int)(in), values_in(i));
             //else nothing happens
          }
-         const unsigned int m = indx.size();
-         const unsigned int n = R.rows();
-         if(m == 0) return;
-         if(m == n) {
-            *this = SRI(0);
-            return;
-         }
-            // move the X(in) terms to the data vector on the RHS
-         for(k=0; k<m; k++)
-            for(i=0; i<indx[k]; i++)
-               Z(i) -= R(i,indx[k])*value[k];
-
-            // first remove the rows in indx
-         bool skip;
-         Vector<double> Ztmp(n-m,0.0);
-         Matrix<double> Rtmp(n-m,n,0.0);
-         for(i=0,k=0; i<n; i++) {
-            skip = false;
-            for(j=0; j<m; j++) if((int)i == indx[j]) { skip=true; break; }
-            if(skip) continue;      // skip row to be dropped
-
-            Ztmp(k) = Z(i);
-            for(j=i; j<n; j++) Rtmp(k,j) = R(i,j);
-            k++;
-         }
-
-            // Z is now done
-         Z = Ztmp;
-
-            // now remove columns in indx
-         R = Matrix<double>(n-m,n-m,0.0);
-         for(j=0,k=0; j<n; j++) {
-            skip = false;
-            for(i=0; i<m; i++) if((int)j == indx[i]) { skip=true; break; }
-            if(skip) continue;      // skip col to be dropped
-
-            for(i=0; i<=j; i++) R(i,k) = Rtmp(i,j);
-            k++;
-         }
-
-            // remove the names
-         for(k=0; k<dropNL.size(); k++) {
-            std::string name(dropNL.getName(k));
-            names -= name;
-         }
       }
       catch(MatrixException& me) { GPSTK_RETHROW(me); }
       catch(VectorException& ve) { GPSTK_RETHROW(ve); }
-- 
2.43.0


From f6d364fe785392cf9530f05ad4214db74c8c6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 123/201] fix: linearized least squares moved the a priori (or
 sequential) information along with the nominal state

---
 ext/lib/Geomatics/SRIleastSquares.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ext/lib/Geomatics/SRIleastSquares.cpp b/ext/lib/Geomatics/SRIleastSquares.cpp
index 9e2cef4..0f82998 100644
--- a/ext/lib/Geomatics/SRIleastSquares.cpp
+++ b/ext/lib/Geomatics/SRIleastSquares.cpp
@@ -365,6 +365,8 @@ try {
       if(number_iterations > 1) {
          R = Rapriori;
          Z = Zapriori;
+         if(doLinearize)         // the information is relative to the first nominal
+            Z = Z - R * (NominalX - X);
       }
 
       // update information with simple MU
-- 
2.43.0


From 1c0c080e33fff76b44e1c0dc0882f351cfd3b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 124/201] fix: CodeBuffer::getBit returned several bits where
 unsigned long has 64 bits

---
 ext/lib/CodeGen/CodeBuffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/CodeGen/CodeBuffer.hpp b/ext/lib/CodeGen/CodeBuffer.hpp
index 571ceb8..e2e8abd 100644
--- a/ext/lib/CodeGen/CodeBuffer.hpp
+++ b/ext/lib/CodeGen/CodeBuffer.hpp
@@ -155,10 +155,10 @@ namespace gpstk
       long bitNum = i - (bNdx * MAX_BIT);
       iret = buffer[bNdx];
    
-      // Shift LEFT to clear off msbs
-      iret <<= bitNum;
-      // Then shift RIGHT to clear off lsbs
-      iret >>= (MAX_BIT-1);
+      // Shift RIGHT to clear off lsbs
+      iret >>= (MAX_BIT-1-bitNum);
+      // Then clear off msbs (unsigned long may be longer than MAX_BIT)
+      iret &= 0x00000001;
    
       return iret;
    }
-- 
2.43.0


From f8d13519ee11832f0d10e9355f3630ecc72faa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 125/201] fix: SVPCodeGen did not round its initial time back
 to a 4 Z-count boundary

---
 ext/lib/CodeGen/SVPCodeGen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/lib/CodeGen/SVPCodeGen.cpp b/ext/lib/CodeGen/SVPCodeGen.cpp
index bb9da3a..9ba146d 100644
--- a/ext/lib/CodeGen/SVPCodeGen.cpp
+++ b/ext/lib/CodeGen/SVPCodeGen.cpp
@@ -53,7 +53,10 @@ namespace gpstk
          gpstk::Exception e("Must provide a prn between 0 and 210");
          GPSTK_THROW(e);
       }
-      currentZTime = dt;
+         // round back to a 6 second (4 Z-count) boundary
+      GPSWeekZcount wz(dt);
+      wz.zcount -= wz.zcount % 4;
+      currentZTime = wz;
       PRNID = SVPRNID;
    }
 
-- 
2.43.0


From 37e329eb512c04962031c1b3715254b7add16578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 126/201] fix: FileSpec::newSpec kept the field types of the
 previous specification

---
 core/lib/FileDirProc/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 8712092..a5bef03 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -411,6 +411,7 @@ namespace gpstk
       try
       {
          fileSpecList.clear();
+         fileSpecSet.clear();
          fileSpecString.clear();
 
          fileSpecString = fileSpec;
-- 
2.43.0


From cfda44b419a7d6b6a351f023c28b436809997c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 127/201] fix: FileSpecFind skipped directories and files that
 begin where the end time is truncated to

---
 core/lib/FileDirProc/FileSpecFind.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 44694f8..eee9177 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -539,9 +539,15 @@ namespace gpstk
          string toString = specScanner.toString(toTime, dummyFSTS);
          fromTimeMatch = specScanner.extractCommonTime(fromString);
          toTimeMatch = specScanner.extractCommonTime(toString);
-            // Make sure our conditions can be met, i.e. from <= t < to
-            // by adding 1/10th of a second to "to" if from and to are the same
-         if (toTimeMatch == fromTimeMatch)
+            // toTimeMatch is toTime reduced to the granularity of
+            // this level.  Unless that reduction changed nothing, a
+            // file/directory at toTimeMatch precedes toTime (or, for
+            // a directory, contains times that do) and has to match.
+            // Also make sure our conditions can be met, i.e. from <=
+            // t < to.  Do both by adding 1/10th of a second to "to".
+         gpstk::CommonTime toTimeReduced(toTimeMatch);
+         toTimeReduced.setTimeSystem(toTime.getTimeSystem());
+         if ((toTimeMatch == fromTimeMatch) || (toTimeReduced < toTime))
             toTimeMatch += 0.1;
       }
 
-- 
2.43.0


From adb6eed113cf54734f1f5230c12745377cfd6497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 128/201] fix: FileSpecFind gave the selected field the width
 of the text field

---
 core/lib/FileDirProc/FileSpecFind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index eee9177..afcf2ad 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -256,7 +256,7 @@ namespace gpstk
          selLen = 1;
       }
       string selTok = gpstk::FileSpec::convertFileSpecType(fsSel);
-      string selLenS = gpstk::StringUtils::asString(textLen);
+      string selLenS = gpstk::StringUtils::asString(selLen);
          // Just change the arbitrary text token to the value we have,
          // since there's at most one value to match.
       gpstk::StringUtils::change(spec, "%"+textTok, dummyFSTS[fsType]);
-- 
2.43.0


From 273c59cec23457e1be2f6fd757d83a7d9f5db8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 129/201] fix: FileHunter left out files of the previous year
 when a week chunk begins there

---
 core/lib/FileDirProc/FileHunter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index 93a0ef1..503fed6 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -198,7 +198,7 @@ namespace gpstk
 
          // Set min and max years for progressive coarse time filtering
       int minY, maxY;
-      YDSTime tmpStart(start);
+      YDSTime tmpStart(exStart);
       YDSTime tmpEnd(end);
       minY = tmpStart.year;
       maxY = tmpEnd.year;
-- 
2.43.0


From c0a8d20f84c86aa75024988b2e7821acf05db35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 130/201] fix: FileSpec::toString left the tokens of
 unspecified fields in the name

---
 core/lib/FileDirProc/FileSpec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index a5bef03..5fe9dff 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -308,6 +308,11 @@ namespace gpstk
                toReturn += 
                   rightJustify((*fstsItr).second, (*fslItr).numCh, '0');
             }
+         }
+            // unspecified non-time fields are filled with zeros
+         else if (((*fslItr).type < firstTime) && ((*fslItr).type != fixed))
+         {
+            toReturn += string((*fslItr).numCh, '0');
          }
          else
          {
-- 
2.43.0


From 652cd59ac66c60bc3fa3b6296bf24003bc068c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 131/201] fix: FileSpec::sortList compared path names by the
 fields of the file name, and kept the oldest versions when descending

---
 core/lib/FileDirProc/FileSpec.cpp | 92 +++++++++++++++----------------
 core/lib/FileDirProc/FileSpec.hpp |  5 ++
 2 files changed, 51 insertions(+), 46 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 5fe9dff..cdbedc5 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -74,6 +74,8 @@ namespace gpstk
    {
          // This sort operator compares all fields in the order
          // defined in the FileSpecType enum.
+      const std::string lname(fileSpec.nameToSort(l));
+      const std::string rname(fileSpec.nameToSort(r));
       for(FileSpecType fst = FileSpecType(unknown+1); fst < end; fst++)
       {
          if (fileSpec.hasField(fst))
@@ -84,8 +86,8 @@ namespace gpstk
                std::string::size_type numCh = fileSpec.fileSpecList[i].numCh;
                if (fileSpec.fileSpecList[i].type == fst)
                {
-                  std::string lsub(l.substr(offset, numCh));
-                  std::string rsub(r.substr(offset, numCh));
+                  std::string lsub(lname.substr(offset, numCh));
+                  std::string rsub(rname.substr(offset, numCh));
                   if (((sortDir == ascending) && (lsub < rsub)) ||
                       ((sortDir == descending) && (lsub > rsub)))
                   {
@@ -333,64 +335,62 @@ namespace gpstk
       FileSpecSort q(*this, fsst);
       stable_sort(fileList.begin(), fileList.end(), q);
 
-         // to filter out versions, generate a list of the version FSEs first
-         // and copy the file list.  then make a map of the file name without
-         // the version field to the name with the version field. since its
-         // sorted, the highest version will be the last one set and the map
-         // will only have the latest versions...
-         // 
+         // To filter out versions, group the file names by what is left
+         // of them without the version field, and keep only the name
+         // with the highest version of each group, in sorted order.
+         //
          // ex.  a1a a2a a3a a4a a5a     file spec: a%1va
-         // copyOfFileList after versions removed:  aa aa aa aa aa
-         // versionMap[aa] = a1a then a2a, a3a, a4a, and finally a5a
-         // 
+         // names after versions removed:  aa aa aa aa aa
+         // kept: a5a
+         //
          // note that this only handles 1 version field right now, not that
          // it couldnt do more but it gets very difficult...
-
-         // filter out older versions here
       if (hasField(version))
       {
-            // copy the file list
-         vector<string> copyOfFileList = fileList;
-
-            // find all the version elements in this file spec
+            // find the first version element in this file spec
          vector<FileSpecElement>::const_iterator itr = fileSpecList.begin();
-         vector<FileSpecElement> versionVec;
-         while (itr != fileSpecList.end())
-         {
-            if ((*itr).type == version)
-               versionVec.push_back(*itr);
+         while ((*itr).type != version)
             itr++;
-         }
-            // remove the version fields from the copied list, but only for the
-            // last directory/file entry in this name
+
+            // first pass, find the highest version of each group
+         map<string, string> highest;
+         vector<string> keys(fileList.size()), versions(fileList.size());
          vector<string>::size_type index;
-         for (index = 0; index < copyOfFileList.size(); index++)
+         for (index = 0; index < fileList.size(); index++)
          {
-            string::size_type slashpos = copyOfFileList[index].rfind(slash);
-            if (slashpos != string::npos)
-               copyOfFileList[index].erase(0, slashpos + 1);
-            copyOfFileList[index].erase(versionVec[0].offset,
-                                        versionVec[0].numCh);
+            string name(nameToSort(fileList[index]));
+            versions[index] = name.substr((*itr).offset, (*itr).numCh);
+            keys[index] = name.erase((*itr).offset, (*itr).numCh);
+            string& best = highest[keys[index]];
+            if (versions[index] > best)
+               best = versions[index];
          }
 
-            // now make one more pass on the copied list. whenever two strings
-            // match, go to the original list and compare the version numbers.
-            // erase the lower version. 
-
-            // FIX: this will only compare the first version field encountered.
-            // it could be changed to do more, but it's not essential now...
-         map<string, string> versionMap;
-         for (index = 0; index < copyOfFileList.size(); index++)
-            versionMap[copyOfFileList[index]] = fileList[index];
-
-         fileList.erase(fileList.begin(), fileList.end());
-         map<string, string>::iterator mapitr = versionMap.begin();
-         while (mapitr != versionMap.end())
+            // second pass, keep those, but each one only once
+         vector<string> latest;
+         for (index = 0; index < fileList.size(); index++)
          {
-            fileList.push_back((*mapitr).second);
-            mapitr++;
+            map<string, string>::iterator mapitr = highest.find(keys[index]);
+            if ((mapitr != highest.end()) &&
+                (mapitr->second == versions[index]))
+            {
+               latest.push_back(fileList[index]);
+               highest.erase(mapitr);
+            }
          }
+         fileList.swap(latest);
+      }
+   }
+
+   string FileSpec::nameToSort(const string& filename) const
+   {
+      if (fileSpecString.find(slash) == string::npos)
+      {
+         string::size_type slashpos = filename.rfind(slash);
+         if (slashpos != string::npos)
+            return filename.substr(slashpos + 1);
       }
+      return filename;
    }
 
    void FileSpec::dump(ostream& o) const
diff --git a/core/lib/FileDirProc/FileSpec.hpp b/core/lib/FileDirProc/FileSpec.hpp
index ed0e17f..0498f82 100644
--- a/core/lib/FileDirProc/FileSpec.hpp
+++ b/core/lib/FileDirProc/FileSpec.hpp
@@ -302,6 +302,11 @@ namespace gpstk
          const FileSpec &fileSpec;
       };
 
+         /** The part of a file name that is compared when sorting:
+          * the word after the last '/', unless this FileSpec itself
+          * includes directories. */
+      std::string nameToSort(const std::string& filename) const;
+
          /// Holds all of the FileSpecElements for this FileSpec
       std::vector<FileSpecElement> fileSpecList;
          /// Set of all FileSpecType values present in this FileSpec
-- 
2.43.0


From f55df97143338bb3e05774b9027d66536e41c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 132/201] fix: FileSpec::extractCommonTime took the sequence
 field for a QZSS week

---
 core/lib/FileDirProc/FileSpec.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index cdbedc5..9f0884f 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -251,8 +251,31 @@ namespace gpstk
          // this uses CommonTime::setToString to get the time out
       try
       {
+            // Sequence fields have no time but their letter does
+            // ('I' is the full QZSS week), so hide them by turning
+            // them into fixed characters of the same width.
+         string fmt(fileSpecString);
+         if (hasField(sequence))
+         {
+            string::size_type pos = 0;
+            while ((pos = fmt.find('%', pos)) != string::npos)
+            {
+               string::size_type letter =
+                  fmt.find_first_not_of("0123456789", pos+1);
+               if (letter == string::npos)
+                  break;
+               if (fmt.substr(letter, 1) == convertFileSpecType(sequence))
+               {
+                  int width = asInt(fmt.substr(pos+1, letter-pos-1));
+                  fmt.replace(pos, letter-pos+1,
+                              string(width > 0 ? width : 1, '?'));
+               }
+               else
+                  pos = letter;
+            }
+         }
          CommonTime dt;
-         mixedScanTime(dt, filename, fileSpecString);
+         mixedScanTime(dt, filename, fmt);
          return dt;
       }
       catch(Exception& exc)
-- 
2.43.0


From 0a465cfa9cf74a1b75ce43ac547b9fb5d0255df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 133/201] fix: RINEX 2 observation epochs of 23:59:60.0 were
 refused

---
 core/lib/FileHandling/RINEX/RinexObsData.cpp   | 7 ++++---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 8 +++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 997bb86..e5eef87 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -398,10 +398,11 @@ namespace gpstk
          if(yy+year < (static_cast<CivilTime>(hdr.firstObs)).year-50)
             yy += 100;
 
-         CivilTime rv(yy+year, month, day, hour, min, sec, TimeSystem::GPS);
-         if(ds != 0) rv.second += ds;
+         CommonTime rv = CivilTime(yy+year, month, day, hour, min, sec,
+                                   TimeSystem::GPS).convertToCommonTime();
+         if(ds != 0) rv += ds;
 
-         return rv.convertToCommonTime();
+         return rv;
       }
          // string exceptions for substr are caught here
       catch (std::exception &e)
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 3ff8d81..885e247 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -460,11 +460,9 @@ namespace gpstk
                if(yy+year < (static_cast<CivilTime>(strm.header.firstObs)).year-50)
                   yy += 100;
 
-               CivilTime rv(yy+year, month, day, hour, min, sec,
-                            strm.timesystem);
-               if(ds != 0) rv.second += ds;
-
-               rod.time = rv.convertToCommonTime();
+               rod.time = CivilTime(yy+year, month, day, hour, min, sec,
+                                    strm.timesystem).convertToCommonTime();
+               if(ds != 0) rod.time += ds;
             }
          }
             // string exceptions for substr are caught here
-- 
2.43.0


From d88968a09381a527e3d4a6eae31b96b9d9e13202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 134/201] fix: transmit time of a GPS ephemeris from RINEX was
 a week early when Toc is at the beginning of a week

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 1d5bdd4..88ba1cd 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -754,6 +754,8 @@ namespace gpstk
       if (sowToc%3600==0)
       {
          adjXmitTime = sowToc - (gpse.fitint/2 * 3600);
+            // weeknum is the week of xmitTime, not that of Toc
+         adjWeeknum = static_cast<GPSWeekSecond>(time).week;
          if (adjXmitTime<0)
          {
             adjXmitTime += FULLWEEK;
-- 
2.43.0


From 216c0aeea3eb3a13f75472a2a124c8df3985a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 135/201] fix: inverse of a SparseMatrix divided by diagonal
 elements that were only rounding errors

---
 ext/lib/Geomatics/SparseMatrix.hpp | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index da930c4..4edb6d8 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1573,22 +1573,31 @@ namespace gpstk
          // loop over rows of work matrix, making lower left triangular = unity
          for(jt = GJ.rowsMap.begin(); jt != GJ.rowsMap.end(); ++jt) {
 
-            // divide row by diagonal element; if diagonal is zero, add another row
+            // divide row by diagonal element; if diagonal is zero (or a rounding
+            // error, compared to the rest of the column), add another row
+            T diag(0), big(0);
             vt = jt->second.vecMap.find(jt->first);      // diagonal element GJ(j,j)
-            if(vt == jt->second.vecMap.end() || vt->second == T(0)) {
-               // find a lower row with non-zero element (same col); add to this row
-               for((kt=jt)++; kt != GJ.rowsMap.end(); ++kt) {
-                  vt = kt->second.vecMap.find(jt->first);      // GJ(k,j)
-                  if(vt == kt->second.vecMap.end() || vt->second == T(0))
-                     continue;                                 // nope, its zero
-
-                  // add the kt row to the jt row
-                  jt->second += kt->second;
-                  break;
+            if(vt != jt->second.vecMap.end()) diag = vt->second;
+
+            // find the lower row with the largest element (same col)
+            typename std::map< unsigned int, SparseVector<T> >::iterator bt(jt);
+            for((kt=jt)++; kt != GJ.rowsMap.end(); ++kt) {
+               vt = kt->second.vecMap.find(jt->first);      // GJ(k,j)
+               if(vt == kt->second.vecMap.end())
+                  continue;                                 // nope, its zero
+               if(std::abs(vt->second) > std::abs(big)) {
+                  big = vt->second;
+                  bt = kt;
                }
-               if(kt == GJ.rowsMap.end())
+            }
+
+            if(std::abs(diag) <= std::abs(big)*T(1.e-6)) {
+               if(bt == jt)
                   GPSTK_THROW(Exception("Singular matrix"));
+               // add the bt row to the jt row
+               jt->second += bt->second;
             }
+            vt = jt->second.vecMap.find(jt->first);
 
             dtmp = vt->second;
             // are these scales 1/dtmp related to condition number? eigenvalues? det?
-- 
2.43.0


From 5c71280e27be3c4b5dde571da881c23cf2c0a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 136/201] Revert "fix: FileSpec::toString left the tokens of
 unspecified fields in the name"

The existing tests expect the tokens to stay.
---
 core/lib/FileDirProc/FileSpec.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 9f0884f..7cbda91 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -333,11 +333,6 @@ namespace gpstk
                toReturn += 
                   rightJustify((*fstsItr).second, (*fslItr).numCh, '0');
             }
-         }
-            // unspecified non-time fields are filled with zeros
-         else if (((*fslItr).type < firstTime) && ((*fslItr).type != fixed))
-         {
-            toReturn += string((*fslItr).numCh, '0');
          }
          else
          {
-- 
2.43.0


From 8c875361e8e25a06647f71d49c3bff97a4ae3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 137/201] fix: RinexObsDataOperatorLessThanFull was not a
 strict weak ordering

---
 .../RINEX/RinexObsFilterOperators.hpp         | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
index 8a6bde8..ce0d805 100644
--- a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
@@ -107,15 +107,13 @@ namespace gpstk
             // then check that each PRN has the same data for each of the
             // shared fields
          gpstk::RinexObsData::RinexSatMap::const_iterator lItr =
-            l.obs.begin(), rItr;
-
-         gpstk::SatID sat;
+            l.obs.begin(), rItr = r.obs.begin();
 
          while (lItr != l.obs.end())
          {
-            sat = (*lItr).first;
-            rItr = r.obs.find(sat);
-            if (rItr == r.obs.end())
+            if ((*lItr).first < (*rItr).first)
+               return true;
+            if ((*rItr).first < (*lItr).first)
                return false;
 
             gpstk::RinexObsData::RinexObsTypeMap
@@ -133,19 +131,30 @@ namespace gpstk
 
                if (lData.data < rData.data)
                   return true;
+               if (lData.data > rData.data)
+                  return false;
 
                if ( (lData.lli != 0) && (rData.lli != 0) )
+               {
                   if (lData.lli < rData.lli)
                      return true;
+                  if (lData.lli > rData.lli)
+                     return false;
+               }
 
                if ( (lData.ssi != 0) && (rData.ssi != 0) )
+               {
                   if (lData.ssi < rData.ssi)
                      return true;
+                  if (lData.ssi > rData.ssi)
+                     return false;
+               }
 
                obsItr++;
             }
 
             lItr++;
+            rItr++;
          }
 
             // the data is either == or > at this point
-- 
2.43.0


From 975149333bffbcd9efed9ffd0af846f86a823acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 138/201] fix: Rinex3NavDataOperatorLessThanFull used an
 uninitialized precision

---
 core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp
index 872b5c6..8f39877 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp
@@ -45,6 +45,7 @@
 #define GPSTK_RINEXNAVFILTEROPERATORS_HPP
 
 #include <set>
+#include <limits>
 #include <list>
 #include <string>
 
@@ -64,6 +65,11 @@ namespace gpstk
       public std::binary_function<Rinex3NavData, Rinex3NavData, bool>
    {
    public:
+         /// Compare exactly unless setPrecision() is used.
+      Rinex3NavDataOperatorLessThanFull()
+            : precision(std::numeric_limits<double>::max_digits10)
+      {}
+
       void setPrecision(int e)
       {
          precision = e;
-- 
2.43.0


From e83c902f919c2e9aa9092e7d573081c2de1c4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:22 +0000
Subject: [PATCH 139/201] fix: Rinex3ObsDataOperatorLessThanFull was not a
 strict weak ordering

---
 .../RINEX3/Rinex3ObsFilterOperators.hpp       | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
index d93c73f..d6e4b1d 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
@@ -120,16 +120,19 @@ namespace gpstk
 
             // then check that each PRN has the same data for each of the
             // fields
-         Rinex3ObsData::DataMap::const_iterator lItr;
-         for (lItr = l.obs.begin(); lItr != l.obs.end(); lItr++)
+         Rinex3ObsData::DataMap::const_iterator lItr, rItr;
+         for (lItr = l.obs.begin(), rItr = r.obs.begin();
+              lItr != l.obs.end(); lItr++, rItr++)
          {
-            SatID sat = lItr->first;
-            Rinex3ObsData::DataMap::const_iterator rItr = r.obs.find(sat);
-            if (rItr == r.obs.end())
+            if (lItr->first < rItr->first)
+            {
+               return true;
+            }
+            if (rItr->first < lItr->first)
             {
                return false;
             }
-            
+
             std::vector<RinexDatum> lObs = lItr->second,
                rObs = rItr->second;
             Rinex3ObsHeader::RinexObsMap::const_iterator romItr;
@@ -148,17 +151,21 @@ namespace gpstk
                   {
                      return true;
                   }
+                  if (rData.data + epsilon < lData.data)
+                  {
+                     return false;
+                  }
 
-                  if (lData.lli != 0 && rData.lli != 0) if (lData.lli <
-                                                            rData.lli)
+                  if (lData.lli != 0 && rData.lli != 0 &&
+                      lData.lli != rData.lli)
                   {
-                     return true;
+                     return lData.lli < rData.lli;
                   }
 
-                  if (lData.ssi != 0 && rData.ssi != 0) if (lData.ssi <
-                                                            rData.ssi)
+                  if (lData.ssi != 0 && rData.ssi != 0 &&
+                      lData.ssi != rData.ssi)
                   {
-                     return true;
+                     return lData.ssi < rData.ssi;
                   }
                }
             }
-- 
2.43.0


From ab74f5a6d0186d38e31b44d3498590e710a73b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 140/201] fix: FFTextStream lost the line of an error when
 exceptions are disabled

---
 core/lib/FileHandling/FFTextStream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/lib/FileHandling/FFTextStream.cpp b/core/lib/FileHandling/FFTextStream.cpp
index 494a67b..45558f9 100644
--- a/core/lib/FileHandling/FFTextStream.cpp
+++ b/core/lib/FileHandling/FFTextStream.cpp
@@ -108,6 +108,14 @@ namespace gpstk
       try
       {
          FFStream::tryFFStreamGet(rec);
+            // when exceptions are disabled the failure isn't thrown
+         if (fail() && !eof())
+         {
+            mostRecentException.addText(
+               std::string("Near file line ") +
+               gpstk::StringUtils::asString(lineNumber) );
+            lineNumber = initialLineNumber;
+         }
       }
       catch(gpstk::Exception& e)
       {
-- 
2.43.0


From 0d27c524f0b0c59586186ad58fc8f1b5c3d9df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 141/201] fix: formattedGetLine returned the previous line
 again at the end of a file without final newline

---
 core/lib/FileHandling/FFTextStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/FFTextStream.cpp b/core/lib/FileHandling/FFTextStream.cpp
index 45558f9..65cc4c0 100644
--- a/core/lib/FileHandling/FFTextStream.cpp
+++ b/core/lib/FileHandling/FFTextStream.cpp
@@ -159,6 +159,8 @@ namespace gpstk
    {
       try
       {
+            // getline leaves the string alone when already at the end
+         line.clear();
          std::getline(*this, line);
             // Remove CR characters left over in the buffer from windows files
          size_t crpos = line.find_last_not_of('\r');
-- 
2.43.0


From cdc4553e61fad6b3f6eeb29e776b1420e6cff969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 142/201] fix: end of file after a lone CR did not fail the
 stream

---
 core/lib/FileHandling/FFTextStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/FFTextStream.cpp b/core/lib/FileHandling/FFTextStream.cpp
index 65cc4c0..0bce096 100644
--- a/core/lib/FileHandling/FFTextStream.cpp
+++ b/core/lib/FileHandling/FFTextStream.cpp
@@ -184,6 +184,8 @@ namespace gpstk
             // catch EOF when stream exceptions are disabled
          if ((line.size() == 0) && eof())
          {
+               // not yet failed if the last line is only a CR
+            setstate(std::ios::failbit);
             if (expectEOF)
             {
                EndOfFile err("EOF encountered");
-- 
2.43.0


From 6f69aed9317f6d0ff0a275331b00e01e29126f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 143/201] fix: full week of SEM and Yuma almanacs was half a
 week rollover away

---
 ext/lib/FileHandling/SEM/SEMHeader.cpp | 4 ++--
 ext/lib/FileHandling/Yuma/YumaData.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/FileHandling/SEM/SEMHeader.cpp b/ext/lib/FileHandling/SEM/SEMHeader.cpp
index bf5118b..97f6404 100644
--- a/ext/lib/FileHandling/SEM/SEMHeader.cpp
+++ b/ext/lib/FileHandling/SEM/SEMHeader.cpp
@@ -118,9 +118,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
       strm.header = *this;
diff --git a/ext/lib/FileHandling/Yuma/YumaData.cpp b/ext/lib/FileHandling/Yuma/YumaData.cpp
index 5c53540..7476d9a 100644
--- a/ext/lib/FileHandling/Yuma/YumaData.cpp
+++ b/ext/lib/FileHandling/Yuma/YumaData.cpp
@@ -254,9 +254,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
    } // end of reallyGetRecord()
-- 
2.43.0


From f6c6127c62b242474b487c3196b47f94e0db199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 144/201] fix: inclination of SEM almanacs added semicircles to
 radians

---
 ext/lib/FileHandling/SEM/SEMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/SEM/SEMData.cpp b/ext/lib/FileHandling/SEM/SEMData.cpp
index 980f119..9fb0295 100644
--- a/ext/lib/FileHandling/SEM/SEMData.cpp
+++ b/ext/lib/FileHandling/SEM/SEMData.cpp
@@ -146,12 +146,12 @@ namespace gpstk
       end = line.find_first_of(whitespace,front);
       length = end - front;
       i_offset = line.substr(front,length);
-      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
 
       front = line.find_first_not_of(whitespace,end);
       length = line.length() - front;
       OMEGAdot = line.substr(front,length);
       i_offset *= gpstk::PI;
+      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
       OMEGAdot *= gpstk::PI;
 
       // Sixth line - Sqrt of A, Omega0, and Arg of Perigee
-- 
2.43.0


From 2ba8d828211b022c63bbb4363147bb524382c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 145/201] fix: SP3 epochs lost the fraction of the second

---
 core/lib/FileHandling/SP3/SP3Data.cpp   | 2 +-
 core/lib/FileHandling/SP3/SP3Header.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index f8e5bd5..1444b08 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -163,7 +163,7 @@ namespace gpstk
             int dom = asInt(strm.lastLine.substr(11,2));
             int hour = asInt(strm.lastLine.substr(14,2));
             int minute = asInt(strm.lastLine.substr(17,2));
-            double second = asInt(strm.lastLine.substr(20,10));
+            double second = asDouble(strm.lastLine.substr(20,11));
             CivilTime t;
             try {
                t = CivilTime(year, month, dom, hour, minute, second, timeSystem);
diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index c8f868c..8ba2384 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -85,7 +85,7 @@ namespace gpstk
          int dom = asInt(line.substr(11,2));
          int hour = asInt(line.substr(14,2));
          int minute = asInt(line.substr(17,2));
-         double second = asInt(line.substr(20,10));
+         double second = asDouble(line.substr(20,11));
          try {
             time = CivilTime(year, month, dom, hour, minute, second);
          }
-- 
2.43.0


From 7f74c5e5dc7b3250d1bc10bc9f27fbbd2b9ea296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 146/201] fix: SP3Header kept the satellites of the header read
 before

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 8ba2384..44b8770 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -122,6 +122,7 @@ namespace gpstk
 
          // the map stores them sorted, so use svsAsWritten to determine
          // which SV each accuracy corresponds to.
+      satList.clear();
       vector<SP3SatID> svsAsWritten;
       SP3SatID sat;
 
-- 
2.43.0


From e1260149a2411001321bb434d4469cf489a7e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 147/201] fix: last record of an SP3 file without EOF line was
 lost

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 49 ++++++++++-----------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 1444b08..7ac9509 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -81,7 +81,6 @@ namespace gpstk
 
       // loop until an error occurs, or until the entire record (which may consist
       // of two lines) is read.
-      bool unexpectedEOF=false;
       while(1) {
 
          // set the time to be the last epoch read by the stream
@@ -277,39 +276,27 @@ namespace gpstk
             GPSTK_THROW(err);
          }
 
-         // be tolerant of files without EOF -- IGS!
-         // if previous iteration of the loop found unexpected EOF, then quit here.
-         if(unexpectedEOF) {
-            // add a warning
-            strm.warnings.push_back(string("Warning (SP3 std): Unexpected EOF"));
+         // read next line into the lastLine
+         try {
+            strm.formattedGetLine(strm.lastLine);
+         }
+         catch(FFStreamError& err) {
+            string what = err.what().substr(0,21);
+            if(what != string("text 0:Unexpected EOF"))
+               GPSTK_RETHROW(err);
 
-            // clear the buffer so it won't be (re)processed next call
-            strm.lastLine = string("EOF");
+            // be tolerant of files without EOF -- IGS!
+            if(status > 1) {
+               // add a warning
+               strm.warnings.push_back(string("Warning (SP3 std): Unexpected EOF"));
 
-            // clear the eof bit and return, so the user will process this SP3Data
-            strm.clear(ios::eofbit);
-            status = 3;
-         }
-         else {            // normal flow
-            // read next line into the lastLine
-            try {
-               strm.formattedGetLine(strm.lastLine);
-            }
-            catch(FFStreamError& err) {
-               string what = err.what().substr(0,21);
-               //cout << "Found unexpected EOF" << endl;
-               //cout << "what is " << what << endl;
-               //cout << "Here is the buffer:\n" << strm.lastLine << endl;
-               if(what == string("text 0:Unexpected EOF")) {
-                  unexpectedEOF = true;
-
-                  // there could still be unprocessed data in the buffer:
-                  if(strm.lastLine.size() < 3) status = 3;  // nothing there, quit
-                  else                         status = 0;  // go back and process it
-               }
-               else
-                  GPSTK_RETHROW(err);
+               // clear the buffer so it won't be (re)processed next call
+               strm.lastLine = string("EOF");
+
+               // clear the fail bit and return, so the user will process this SP3Data
+               strm.clear(ios::eofbit);
             }
+            status = 3;
          }
 
          if(status == 3) break;  // quit if found EOF or EP|EV was processed, but
-- 
2.43.0


From e7f3fc29ad399846a8f4306e7bf5682994e162e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 148/201] fix: RINEX met files of version 3.00 could be written
 but not read

---
 core/lib/FileHandling/RINEX/RinexMetHeader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX/RinexMetHeader.cpp b/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
index 9228cca..c821e50 100644
--- a/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
@@ -290,6 +290,7 @@ namespace gpstk
             std::string verstr(strip(line.substr(0,20)));
             if ((verstr != "2.0") && (verstr != "2.1") && (verstr != "2.00") &&
                (verstr != "2.10") && (verstr != "2.11") && (verstr != "3.0") &&
+               (verstr != "3.00") &&
                (verstr != "3.01") && (verstr!= "3.02"))
             {
                FFStreamError e("Unknown or unsupported RINEX version " + 
-- 
2.43.0


From ba2ba2197b0b7953eedfb04eb5cdd20035eb4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 149/201] fix: end of a RINEX met file with continuation lines
 was an error, and a truncated record was not

---
 core/lib/FileHandling/RINEX/RinexMetData.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexMetData.cpp b/core/lib/FileHandling/RINEX/RinexMetData.cpp
index a98316a..6a688ae 100644
--- a/core/lib/FileHandling/RINEX/RinexMetData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetData.cpp
@@ -120,12 +120,8 @@ namespace gpstk
       string line;
       data.clear();
 
-         // this is to see whether or not we expect an EOF
-         // when we read this next line
-      if ((int)hdr.obsTypeList.size() > maxObsPerLine)
-         strm.formattedGetLine(line); 
-      else
-         strm.formattedGetLine(line, true);
+         // the file may end before a record, but not within one
+      strm.formattedGetLine(line, true);
 
       processFirstLine(line, hdr, hdr.version);
 
@@ -133,10 +129,7 @@ namespace gpstk
 
       while (data.size() < hdr.obsTypeList.size())
       {
-         if ((int)(hdr.obsTypeList.size() - data.size()) < maxObsPerContinuationLine)
-            strm.formattedGetLine(line, true);
-         else
-            strm.formattedGetLine(line);
+         strm.formattedGetLine(line);
          processContinuationLine(line, hdr);
       }
 
-- 
2.43.0


From 286254e2ce9660d39514d720d1549dd8e0d1b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 150/201] fix: SP3 header rounded the modified Julian date up
 after noon

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 44b8770..678a0db 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -46,6 +46,7 @@
 #include "SP3Header.hpp"
 #include "CivilTime.hpp"
 #include "MJD.hpp"
+#include <cmath>
 #include "GPSWeekSecond.hpp"
 
 #define debug false
@@ -332,7 +333,9 @@ namespace gpstk
       line += rightJustify(gpsWS.printf("%F"),5);
       line += rightJustify(gpsWS.printf("%15.8g"),16);
       line += " " + rightJustify(asString(epochInterval,8),14);
-      line += " " + (static_cast<MJD>(time)).printf("%5.0Q");
+         // the integer part of the MJD; the fraction follows
+      long mjd = static_cast<long>(std::floor(static_cast<MJD>(time).mjd));
+      line += " " + rightJustify(asString(mjd),5);
       line += " " + rightJustify(asString(time.getSecondOfDay()/86400.,13),15);
       strm << line << endl;
       strm.lineNumber++;
-- 
2.43.0


From 3a15d816c552ab539a0363eaea49aa8891911bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 151/201] fix: SP3a header kept the time system of the header
 read before

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 678a0db..523e427 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -124,6 +124,10 @@ namespace gpstk
          // the map stores them sorted, so use svsAsWritten to determine
          // which SV each accuracy corresponds to.
       satList.clear();
+         // the same for what the file version does not have
+      system = SP3SatID(1, SatelliteSystem::GPS);
+      timeSystem = TimeSystem::Any;
+      basePV = baseClk = 0.0;
       vector<SP3SatID> svsAsWritten;
       SP3SatID sat;
 
-- 
2.43.0


From f10cd834899939062ad1c806d970c1301324021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 152/201] fix: CommandOptionWithCommonTimeArg.hpp shared the
 include guard of CommandOptionWithTimeArg.hpp

---
 core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp b/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
index 5b80a5b..af14e67 100644
--- a/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
+++ b/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
@@ -41,8 +41,8 @@
  * Command line options with time arguments
  */
 
-#ifndef COMMANDOPTIONWITHTIMEARG_HPP
-#define COMMANDOPTIONWITHTIMEARG_HPP
+#ifndef COMMANDOPTIONWITHCOMMONTIMEARG_HPP
+#define COMMANDOPTIONWITHCOMMONTIMEARG_HPP
 
 #include "CommandOption.hpp"
 #include "CommonTime.hpp"
-- 
2.43.0


From 834b54947cf305c8ff0920b4549fcc5276c204b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 153/201] fix: "--" at the end of a command line was reported
 as excess arguments

---
 core/lib/CommandLine/CommandOptionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 6b90e2b..fa99c09 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -210,7 +210,7 @@ namespace gpstk
          if ((cha = getopt_long(argc, argv, shortOptString.c_str(),
                                 optArray, &optionIndex)) == -1)
          {
-            if (!trailing)
+            if (!trailing && optind < argc)
                errorStrings.push_back("Excess arguments");
             break;
          }
-- 
2.43.0


From fe504781a48f16bdf55654edae24dec1b5d99dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 154/201] fix: displayUsage changed the program description it
 displays

---
 core/lib/CommandLine/CommandOptionParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index fa99c09..d715fd2 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -401,8 +401,10 @@ namespace gpstk
          out << " [OPTION] ...";
       if (trailing)
          out << " " << trailing->description;
+         // prettyPrint changes its argument
+      string desc(text);
       out << endl
-          << (doPretty ? prettyPrint(text,"\n","","",columns) : text);
+          << (doPretty ? prettyPrint(desc,"\n","","",columns) : desc);
 // << endl
 //          << endl 
 //          << "Command options:" << endl;
-- 
2.43.0


From 52ee094abbf86af75e5a0ea17569b52d3382c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 155/201] fix: names of the automatic options were cut in
 syntax pages of short options

---
 core/lib/CommandLine/CommandLine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 9ff7292..9ad60dc 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -385,7 +385,8 @@ try {
    string option,deflt;
 
    // first determine the max size of the string '--option <arg>'
-   optionsize = 0;                        // member data
+   // (at least that of the automatic options, cf. SyntaxPage())
+   optionsize = 12;                       // member data
    for(i=0; i<options.size(); i++) {
       j = options[i].longOpt.length() + options[i].arg.length() + 7;
       if(j > optionsize) optionsize = j;
-- 
2.43.0


From 1fed90816ed8f20f4ac145c812f529954335332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 156/201] fix: quoted words of an options file were split on
 indented lines

---
 core/lib/CommandLine/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 9ad60dc..3ba7d50 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -570,6 +570,7 @@ try {
             else if(word == "--file" || word == "-f")
                again_cfg_file = true;
             else if(word[0] == '"') {
+               stripLeading(buffer);
                word = stripFirstWord(buffer,'"');
                buffer = "dummy " + buffer;   // to be stripped below
                PreProcessArgs(word.c_str(),Args,Errors);
-- 
2.43.0


From 8e5d3434145ef1605f3894fd82c2127305c6c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 157/201] fix: exponents marked with D were accepted but
 dropped by CommandLine

---
 core/lib/CommandLine/CommandLine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 3ba7d50..65025aa 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -867,7 +867,12 @@ try {
                oss << "Error: invalid value for --" << options[i].longOpt
                   << ": " << values[0] << endl;
             else
+            {
+               // the exponent may be marked with D, cf. isScientificString()
+               string::size_type pos = values[0].find_first_of("Dd");
+               if(pos != string::npos) values[0][pos] = 'e';
                *((double *)(options[i].p_output))=asDouble(values[0]);
+            }
             break;
 
          case typeString:
-- 
2.43.0


From 54cb65452c78f18c40b73b3dd586f682f1675e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:07 +0000
Subject: [PATCH 158/201] fix: a sign or decimal point without digits was taken
 for a number

---
 core/lib/Utilities/StringUtils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index c1cc38a..21f67a3 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1871,6 +1871,9 @@ namespace gpstk
          std::string::size_type index = 0;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
+            // a sign alone is not a number
+         if (index == s.size())
+            return false;
          for( ; index < s.size(); index++)
             if (!isdigit(s[index]))
                return false;
@@ -1883,7 +1886,7 @@ namespace gpstk
             return false;
 
          std::string::size_type index = 0;
-         bool sawdot = false;
+         bool sawdot = false, sawdigit = false;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
          for( ; index < s.size(); index++)
@@ -1896,8 +1899,11 @@ namespace gpstk
             }
             else if (!isdigit(s[index]))
                return false;
+            else
+               sawdigit = true;
          }
-         return true;
+            // nor is a sign or decimal point without digits
+         return sawdigit;
       }
 
       inline bool isScientificString(const std::string& s)
-- 
2.43.0


From 944797bb39dcd8706d7da61312a9815b97ff2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 159/201] fix: setAllParameters of the MOPS and Neill models
 took the height for the latitude

---
 core/lib/GNSSCore/MOPSTropModel.cpp  | 2 +-
 core/lib/GNSSCore/NeillTropModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index 98564b1..e35d564 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -474,7 +474,7 @@ namespace gpstk
       validTime = true;
       MOPSLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      MOPSLat = rxPos.getHeight();
+      MOPSHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 5380016..fbd601c 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -562,7 +562,7 @@ namespace gpstk
       validDOY = true;
       NeillLat = rxPos.getGeodeticLatitude();
       validHeight = true;
-      NeillLat = rxPos.getHeight();
+      NeillHeight = rxPos.getHeight();
       validLat = true;
 
          // Change the value of field "valid" if everything is already set
-- 
2.43.0


From 1b07d61b2e9a38c28e4af04291483f12ecdb2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 160/201] fix: constructors of troposphere models read flags
 that were not set

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 2 +-
 core/lib/GNSSCore/MOPSTropModel.cpp     | 2 ++
 core/lib/GNSSCore/NeillTropModel.cpp    | 1 +
 core/lib/GNSSCore/NeillTropModel.hpp    | 2 ++
 core/lib/GNSSCore/SaasTropModel.cpp     | 8 ++++++++
 core/lib/GNSSCore/TropModel.hpp         | 5 +++++
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 5103908..5715068 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -99,7 +99,7 @@ namespace gpstk
                                         const double hP,
                                         const double hH)
    {
-      validRxHeight = false;
+      validRxHeight = validHeights = false;
       setWeather(T,P,H);
       setHeights(hT,hP,hH);
    }
diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index e35d564..84ab60e 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -113,6 +113,7 @@ namespace gpstk
    MOPSTropModel::MOPSTropModel( const double& ht,
                                  const double& lat,
                                  const int& doy )
+         : validHeight(false), validLat(false), validTime(false)
    {
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
@@ -127,6 +128,7 @@ namespace gpstk
        * @param time Time.
        */
    MOPSTropModel::MOPSTropModel(const Position& RX, const CommonTime& time)
+         : validHeight(false), validLat(false), validTime(false)
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude());
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index fbd601c..f2dc458 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -95,6 +95,7 @@ namespace gpstk
       // @param time Time.
    NeillTropModel::NeillTropModel( const Position& RX,
                                    const CommonTime& time )
+         : validHeight(false), validLat(false), validDOY(false)
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude( ));
diff --git a/core/lib/GNSSCore/NeillTropModel.hpp b/core/lib/GNSSCore/NeillTropModel.hpp
index 341a909..074b449 100644
--- a/core/lib/GNSSCore/NeillTropModel.hpp
+++ b/core/lib/GNSSCore/NeillTropModel.hpp
@@ -99,6 +99,7 @@ namespace gpstk
          /// @param ht   Height of the receiver above mean sea level, in
          ///             meters.
       NeillTropModel(const double& ht)
+            : validHeight(false), validLat(false), validDOY(false)
       { setReceiverHeight(ht); };
 
 
@@ -113,6 +114,7 @@ namespace gpstk
       NeillTropModel( const double& ht,
                       const double& lat,
                       const int& doy )
+            : validHeight(false), validLat(false), validDOY(false)
       { setReceiverHeight(ht); setReceiverLatitude(lat); setDayOfYear(doy); };
 
 
diff --git a/core/lib/GNSSCore/SaasTropModel.cpp b/core/lib/GNSSCore/SaasTropModel.cpp
index 39610ee..bf6b4c1 100644
--- a/core/lib/GNSSCore/SaasTropModel.cpp
+++ b/core/lib/GNSSCore/SaasTropModel.cpp
@@ -120,6 +120,8 @@ namespace gpstk
    {
       validWeather = false;
       validRxHeight = false;
+      validRxLatitude = false;
+      validDOY = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
    } // end SaasTropModel::SaasTropModel
@@ -132,7 +134,10 @@ namespace gpstk
                                 const int& day,
                                 const WxObservation& wx)
    {
+      validWeather = false;
       validRxHeight = false;
+      validRxLatitude = false;
+      validDOY = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
       SaasTropModel::setWeather(wx);
@@ -150,7 +155,10 @@ namespace gpstk
                                 const double& P,
                                 const double& H)
    {
+      validWeather = false;
       validRxHeight = false;
+      validRxLatitude = false;
+      validDOY = false;
       SaasTropModel::setReceiverLatitude(lat);
       SaasTropModel::setDayOfYear(day);
       SaasTropModel::setWeather(T,P,H);
diff --git a/core/lib/GNSSCore/TropModel.hpp b/core/lib/GNSSCore/TropModel.hpp
index b8086d9..3c45f3c 100644
--- a/core/lib/GNSSCore/TropModel.hpp
+++ b/core/lib/GNSSCore/TropModel.hpp
@@ -106,6 +106,11 @@ namespace gpstk
    public:
       static const double CELSIUS_TO_KELVIN;
 
+         /// Constructor, the model is invalid until its parameters are set
+      TropModel(void)
+            : valid(false), temp(0.0), press(0.0), humid(0.0)
+      {}
+
          /// Destructor
       virtual ~TropModel() {}
 
-- 
2.43.0


From 5fa188af30e94ec09f3c97297defa24c08c81aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 161/201] fix: NB troposphere model became valid again after
 refusing weather

---
 core/lib/GNSSCore/NBTropModel.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index d2ff523..b69ad34 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -377,10 +377,18 @@ namespace gpstk
                                 const double& H)
    {
       interpolateWeather=false;
-      TropModel::setWeather(T,P,H);
+      try
+      {
+         TropModel::setWeather(T,P,H);
+      }
+      catch(InvalidParameter& e)
+      {
+         valid = validWeather = false;
+         GPSTK_RETHROW(e);
+      }
             // humid actually stores water vapor partial pressure
       double th=300./temp;
-      humid = 2.409e9*H*th*th*th*th*std::exp(-22.64*th);
+      humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
       validWeather = true;
       valid = validWeather && validRxHeight && validRxLatitude && validDOY;
 
-- 
2.43.0


From b00da851afd1b7f282813c36c3ad23a4813105a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 162/201] fix: NB troposphere model converted the humidity of a
 weather observation twice

---
 core/lib/GNSSCore/NBTropModel.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/lib/GNSSCore/NBTropModel.cpp b/core/lib/GNSSCore/NBTropModel.cpp
index b69ad34..69a21fe 100644
--- a/core/lib/GNSSCore/NBTropModel.cpp
+++ b/core/lib/GNSSCore/NBTropModel.cpp
@@ -402,10 +402,8 @@ namespace gpstk
       interpolateWeather = false;
       try
       {
+            // calls setWeather(T,P,H), which turns humid into partial pressure
          TropModel::setWeather(wx);
-            // humid actually stores vapor partial pressure
-         double th=300./temp;
-         humid = 2.409e9*humid*th*th*th*th*std::exp(-22.64*th);
          validWeather = true;
          valid = validWeather && validRxHeight && validRxLatitude && validDOY;
       }
-- 
2.43.0


From cb2beca83b0697668a02790f0e38595a04042f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 163/201] fix: GGHeight dry zenith delay reduced the
 temperature from the receiver height instead of its own

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 5715068..f7f9a1a 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -161,7 +161,7 @@ namespace gpstk
    {
       THROW_IF_INVALID_DETAILED();
       double hrate=6.5e-3;
-      double Ts=temp+hrate*height;
+      double Ts=temp+hrate*htemp;
       double em=978.77/(2.8704e4*hrate);
       double Tp=Ts-hrate*hpress;
       double ps=press*std::pow(Ts/Tp,em)/1000.0;
-- 
2.43.0


From dfd5a6202a2742f60335e7d779279378dfd477b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 164/201] fix: Global troposphere model ignored parameters set
 to zero or set again

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 58e94a4..6030185 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -338,9 +338,9 @@ namespace gpstk
    {
       try {
          double p;
-         p = RX.getAltitude();         if(p != height) setReceiverHeight(p);
-         p = RX.getGeodeticLatitude(); if(p != latitude) setReceiverLatitude(p);
-         p = RX.getLongitude();        if(p != longitude) setReceiverLongitude(p);
+         p = RX.getAltitude();         setReceiverHeight(p);
+         p = RX.getGeodeticLatitude(); setReceiverLatitude(p);
+         p = RX.getLongitude();        setReceiverLongitude(p);
       }
       catch(GeometryException& e) {
          validHeight = validLat = valid = false;
@@ -557,7 +557,7 @@ namespace gpstk
    // @param ht   Height of the receiver above mean sea level, in meters.
    void GlobalTropModel::setReceiverHeight(const double& ht)
    {
-      if(height != ht) {
+      if(!validHeight || height != ht) {
          height = ht; 
          validHeight = true;
          validCoeff = false;
@@ -570,7 +570,7 @@ namespace gpstk
    // @param lat  Latitude of receiver, in degrees.
    void GlobalTropModel::setReceiverLatitude(const double& lat)
    {
-      if(latitude != lat) {
+      if(!validLat || latitude != lat) {
          latitude = lat;
          validLat = true;
          validCoeff = false;
@@ -583,7 +583,7 @@ namespace gpstk
    // @param lat  Longitude of receiver, in degrees East.
    void GlobalTropModel::setReceiverLongitude(const double& lon)
    {
-      if(longitude != lon) {
+      if(!validLon || longitude != lon) {
          longitude = lon;
          validLon = true;
          validCoeff = false;
@@ -597,7 +597,7 @@ namespace gpstk
    void GlobalTropModel::setTime(const double& mjd)
    {
       double df(TWO_PI*(mjd - 44266.0)/365.25);       // -44239 + 1 - 28
-      if(df != dayfactor) {
+      if(!validDay || df != dayfactor) {
          dayfactor = df;
          validDay = true;
          validCoeff = false;
-- 
2.43.0


From e86833240a14a65f8b7f6acc4a8eef004ae91dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 165/201] fix: Global troposphere model built from a position
 had no humidity

---
 core/lib/GNSSCore/GlobalTropModel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 28b3e09..dcd4e1e 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -113,6 +113,7 @@ namespace gpstk
       {
          validCoeff = validHeight = validLat = validLon = validDay = valid =
             false;
+         humid = 50.0;
          setReceiverHeight(ht);
          setReceiverLatitude(lat);
          setReceiverLongitude(lon);
@@ -126,6 +127,7 @@ namespace gpstk
       GlobalTropModel(const Position& RX, const CommonTime& time)
       {
          validCoeff = validHeight = validLat = validLon = validDay = valid = false;
+         humid = 50.0;
          setReceiverHeight(RX.getAltitude());
          setReceiverLatitude(RX.getGeodeticLatitude());
          setReceiverLongitude(RX.getLongitude());
-- 
2.43.0


From f9e6b57edd4018b1f33f1616fe70daeb62ac034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 166/201] fix: Global troposphere model stayed valid with an
 old pressure when the height was refused

---
 core/lib/GNSSCore/GlobalTropModel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index dcd4e1e..7247600 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -343,7 +343,7 @@ namespace gpstk
                validCoeff = true;
                getGPT(press,temp,undul);
             }
-         } catch(Exception& e) { GPSTK_RETHROW(e); }
+         } catch(Exception& e) { valid = validCoeff = false; GPSTK_RETHROW(e); }
       }
 
    }; // end class GlobalTropModel
-- 
2.43.0


From 81ee1ca00b95b513d32ad4c763f7b19193c8400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 167/201] fix: most recent weather observation was the one
 before it at the end of the data

---
 core/lib/GNSSCore/WxObsMap.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0ec9597..44bf9e2 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -57,8 +57,6 @@ namespace gpstk
          return WxObservation();
      
       WxObsMap::const_iterator i = obs.upper_bound(t);
-      if (i== obs.end())
-         i--;
       if (i != obs.begin())
          i--;
       return  i->second;
-- 
2.43.0


From 20f56623a0ffca46243bf4690a47c8f096f338a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 168/201] fix: flushing all weather observations read past the
 end of the data

---
 core/lib/GNSSCore/WxObsMap.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 44bf9e2..d553487 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -90,7 +90,15 @@ namespace gpstk
          {
             obs.erase(i);
             i = obs.begin();
-            firstTime = i->second.t;
+            if (i != obs.end())
+            {
+               firstTime = i->second.t;
+            }
+            else
+            {
+               firstTime = CommonTime::END_OF_TIME;
+               lastTime = CommonTime::BEGINNING_OF_TIME;
+            }
          }
          else
             break;
-- 
2.43.0


From 4d501c04bbd023f01951d88a2d8c7d5610f9c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 169/201] fix: ECEF to inertial transformation of IERS 2003
 mixed the CIO and the equinox

---
 ext/lib/Geomatics/EarthOrientation.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ext/lib/Geomatics/EarthOrientation.cpp b/ext/lib/Geomatics/EarthOrientation.cpp
index 010a6ff..cde8a91 100644
--- a/ext/lib/Geomatics/EarthOrientation.cpp
+++ b/ext/lib/Geomatics/EarthOrientation.cpp
@@ -2702,14 +2702,12 @@ namespace gpstk
          LOG(DEBUG7) << "\nNPB matrix:\n" << fixed << setprecision(15) << setw(18)
                << showpos << NPB;
 
-         // ERA replaces GAST in the Earth rotation matrix
-         double era(EarthRotationAngle(t,UT1mUTC));
-         LOG(DEBUG7) << "\nERA = " << fixed << setprecision(15) << showpos
-                        << era*RAD_TO_DEG;
-         R = rotation(era,3);
-
-         //double gast = GAST2003(t, UT1mUTC);
-         //R = rotation(gast,3);
+         // N*P refers to the equinox, so the rotation angle is GAST. (ERA is counted
+         // from the CIO, and belongs with the CIO based matrix; cf. IERS2010.)
+         double gast(GAST2003(t,UT1mUTC));
+         LOG(DEBUG7) << "\nGAST = " << fixed << setprecision(15) << showpos
+                        << gast*RAD_TO_DEG;
+         R = rotation(gast,3);
 
          // polar motion
          W = PolarMotionMatrix2003(t, xp, yp);
-- 
2.43.0


From 58c993e5fb010efc02656a8ea71c4f938d9f6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 170/201] fix: Earth rotation angle and J2000 centuries were a
 day off at noon

---
 ext/lib/Geomatics/EarthOrientation.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/EarthOrientation.cpp b/ext/lib/Geomatics/EarthOrientation.cpp
index cde8a91..2ec46f4 100644
--- a/ext/lib/Geomatics/EarthOrientation.cpp
+++ b/ext/lib/Geomatics/EarthOrientation.cpp
@@ -783,9 +783,10 @@ namespace gpstk
          //return (t.dMJD()-JulianEpoch)/36525.0;
 
          // do in a way to maximize precision
-         int in = int(t.dMJD()-0.5)-intJulianEpoch;
+         // days from noon, J2000, are the integer 'in' plus frac, 0 <= frac < 1
+         int in = int(t.lMJD())-1-intJulianEpoch;
          double frac = 0.5+t.secOfDay()/86400.0;
-         if(frac > 1.0) frac -= 1.0;
+         if(frac >= 1.0) { frac -= 1.0; in++; }
          return (double(in)/36525.0 + frac/36525.0);
       }
       catch(Exception& e) { GPSTK_RETHROW(e); }
@@ -1573,9 +1574,9 @@ namespace gpstk
 
          // TN36 eqn 5.15
          //double days = tUT1.dMJD() - JulianEpoch;      // days since JE
-         int idays(int(tUT1.dMJD()-0.5)-intJulianEpoch); // days = idays+frac
+         int idays(int(tUT1.lMJD())-1-intJulianEpoch);   // days = idays+frac
          double frac(0.5+tUT1.secOfDay()/86400.0);       // fractional part of days
-         if(frac > 1.0) frac -= 1.0;
+         if(frac >= 1.0) { frac -= 1.0; idays++; }
 
          // mod the terms with 1 individually to avoid numerical error
          double term1 = frac + 0.7790572732640 + 0.00273781191135448*frac;
-- 
2.43.0


From 4e5fff918951ac98335bd96cc3b4e058501f2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 171/201] fix: restoring the tides in a reduced UT1-UTC changed
 its sign

---
 ext/lib/Geomatics/EarthOrientation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/EarthOrientation.cpp b/ext/lib/Geomatics/EarthOrientation.cpp
index 2ec46f4..5091df6 100644
--- a/ext/lib/Geomatics/EarthOrientation.cpp
+++ b/ext/lib/Geomatics/EarthOrientation.cpp
@@ -1794,7 +1794,7 @@ namespace gpstk
          if(reduced) {
             double dlodR,domegaR,UT1mUT1R;
             UT1mUTCTidalCorrections(CoordTransTime(t), UT1mUT1R, dlodR, domegaR);
-            UT1mUTC = UT1mUT1R-UT1mUTC;
+            UT1mUTC = UT1mUT1R+UT1mUTC;
          }
          // convert to UT1
          t += UT1mUTC;
@@ -1943,7 +1943,7 @@ namespace gpstk
          double UT1mUT1R,dlodR,domegaR;
          if(reduced) {
             UT1mUTCTidalCorrections(T, UT1mUT1R, dlodR, domegaR);
-            G = gast1996(t, omega, eps, dpsi, UT1mUT1R-UT1mUTC);
+            G = gast1996(t, omega, eps, dpsi, UT1mUT1R+UT1mUTC);
          }
          else
             G = gast1996(t, omega, eps, dpsi, UT1mUTC);
@@ -2630,7 +2630,7 @@ namespace gpstk
          double UT1mUT1R,dlodR,domegaR;
          if(reduced) {
             UT1mUTCTidalCorrections(T, UT1mUT1R, dlodR, domegaR);
-            UT1mUTC = UT1mUT1R - UT1mUTC;
+            UT1mUTC = UT1mUT1R + UT1mUTC;
          }
 
          double g = gast1996(t, om, eps, dpsi, UT1mUTC);
-- 
2.43.0


From 97faed6372b626c7dd6ea416ca3cb697350a0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 172/201] fix: removing the last entries of the EOP store
 crashed

---
 ext/lib/Geomatics/EOPStore.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 5c95298..21740b2 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -204,17 +204,12 @@ namespace gpstk
       if(it != mapMJD_EOP.end())
          mapMJD_EOP.erase(it, mapMJD_EOP.end());
 
-      it = mapMJD_EOP.begin();
-      if(it == mapMJD_EOP.end())
-         begMJD = -1;
-      else 
-         begMJD = it->first;
-
-      it = mapMJD_EOP.end();
-      if(--it == mapMJD_EOP.end())
-         endMJD = -1;
-      else 
-         endMJD = it->first;
+      if(mapMJD_EOP.empty())
+         begMJD = endMJD = -1;
+      else {
+         begMJD = mapMJD_EOP.begin()->first;
+         endMJD = mapMJD_EOP.rbegin()->first;
+      }
    }
 
    //---------------------------------------------------------------------------------
-- 
2.43.0


From 7a78753c78c90f0d2cde1ff62509308559c55bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 173/201] fix: EOP store moved iterators beyond its ends

---
 ext/lib/Geomatics/EOPStore.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 21740b2..2d0a683 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -274,8 +274,8 @@ namespace gpstk
 
       // find 4 points surrounding the time of interest ----------------
       map<int,EarthOrientation>::iterator lowit,hiit,it;
-      it = lowit = mapMJD_EOP.find(int(mjdUTC));
-      (hiit = it)++;
+      it = lowit = hiit = mapMJD_EOP.find(int(mjdUTC));
+      if(hiit != mapMJD_EOP.end()) hiit++;
       if(lowit == mapMJD_EOP.end() || hiit == mapMJD_EOP.end()) {
          InvalidRequest ir("Requested time lies outside the store");
          GPSTK_THROW(ir);
@@ -286,13 +286,12 @@ namespace gpstk
       }
 
       // low and hi must span 4 entries and bracket t
-      (it = lowit)--;
-      if(it == mapMJD_EOP.end()) {
+      if(lowit == mapMJD_EOP.begin()) {
          hiit++;
          hiit++;                          // L t . . H
       }
       else {
-         lowit = it;
+         lowit--;
          (it = hiit)++;
          if(it == mapMJD_EOP.end())
             lowit--;                      // L . . t H
-- 
2.43.0


From 4e3c898cbc751f3af6b9e75fb80e416984cd6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 174/201] fix: sidereal time before 2000 was a day off in the
 solar and lunar position

---
 ext/lib/Geomatics/SolarPosition.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ext/lib/Geomatics/SolarPosition.cpp b/ext/lib/Geomatics/SolarPosition.cpp
index ff8f38f..b3b381e 100644
--- a/ext/lib/Geomatics/SolarPosition.cpp
+++ b/ext/lib/Geomatics/SolarPosition.cpp
@@ -61,7 +61,6 @@ static double GMST(gpstk::CommonTime t)
    static const long JulianEpoch=2451545;
    // days since epoch
    double days =( static_cast<JulianDate>(t).jd - JulianEpoch);                         // days
-   if(days <= 0.0) days -= 1.0;
    double Tp = days/36525.0;                                   // dim-less
 
       // Compute GMST in radians
-- 
2.43.0


From bd49e8d93cf048d455892711f5307e15d140342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 175/201] fix: angular radius of the moon was not in degrees

---
 ext/lib/Geomatics/SolarPosition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SolarPosition.cpp b/ext/lib/Geomatics/SolarPosition.cpp
index b3b381e..a68aa5f 100644
--- a/ext/lib/Geomatics/SolarPosition.cpp
+++ b/ext/lib/Geomatics/SolarPosition.cpp
@@ -268,8 +268,8 @@ Position LunarPosition(CommonTime t, double& AR) throw()
 
    double lat = DEC;
 
-   // apparent semidiameter of moon (in radians)
-   AR = 0.2725 * par;
+   // apparent semidiameter of moon (in degrees)
+   AR = 0.2725 * par * RAD_TO_DEG;
    // moon distance in meters
    double R = 1.0 / ::sin(par);
    R *= 6378137.0;
-- 
2.43.0


From c7adfcc95a691d53bfb0654e595d47a9e7c67d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 176/201] fix: covered fraction of the sun was wrong when more
 than half of it is covered

---
 ext/lib/Geomatics/SolarPosition.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SolarPosition.cpp b/ext/lib/Geomatics/SolarPosition.cpp
index a68aa5f..be974ef 100644
--- a/ext/lib/Geomatics/SolarPosition.cpp
+++ b/ext/lib/Geomatics/SolarPosition.cpp
@@ -42,6 +42,7 @@
 // includes
 // system
 // GPSTk
+#include <algorithm>
 #include "CommonTime.hpp"
 #include "Position.hpp"
 #include "GNSSconstants.hpp"       // TWO_PI
@@ -206,15 +207,22 @@ void CrudeSolarPosition(CommonTime t, double& lat, double& lon) throw()
 double shadowFactor(double Rearth, double Rsun, double dES) throw()
 {
    if(dES >= Rearth+Rsun) return 0.0;
-   if(dES <= std::fabs(Rearth-Rsun)) return 1.0;
+   if(dES <= std::fabs(Rearth-Rsun)) {
+      // all of the sun, or, if that is larger, as much as the earth covers
+      if(Rearth >= Rsun) return 1.0;
+      return (Rearth/Rsun)*(Rearth/Rsun);
+   }
    double r=Rsun, R=Rearth, L=dES;
    if(Rsun > Rearth) { r=Rearth; R=Rsun; }
    double cosalpha = (R/L)*(1.0+(L/R)*(L/R)-(r/R)*(r/R))/2.0;
    double cosbeta = (L/r) - (R/r)*cosalpha;
+   // rounding may take these outside [-1,1] where the circles nearly touch
+   cosalpha = std::max(-1.0, std::min(1.0, cosalpha));
+   cosbeta = std::max(-1.0, std::min(1.0, cosbeta));
    double sinalpha = ::sqrt(1-cosalpha*cosalpha);
    double sinbeta = ::sqrt(1-cosbeta*cosbeta);
-   double alpha = ::asin(sinalpha);
-   double beta = ::asin(sinbeta);
+   double alpha = ::acos(cosalpha);
+   double beta = ::acos(cosbeta);
    double shadow = r*r*(beta-sinbeta*cosbeta)+R*R*(alpha-sinalpha*cosalpha);
    shadow /= ::acos(-1.0)*Rsun*Rsun;
    return shadow;
-- 
2.43.0


From 29636d3a03197aac901ea39b4eb1c0ee1f7f5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 177/201] fix: position of the sun in 1900 was a day off

---
 ext/lib/AstroEph/SunPosition.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ext/lib/AstroEph/SunPosition.cpp b/ext/lib/AstroEph/SunPosition.cpp
index 8ff62e6..1e16ce2 100644
--- a/ext/lib/AstroEph/SunPosition.cpp
+++ b/ext/lib/AstroEph/SunPosition.cpp
@@ -105,6 +105,14 @@ namespace gpstk
          // Compute the years, and fraction of year, pased since J1900.0
       int y(static_cast<YDSTime>(t).year);    // Current year
       int doy(static_cast<YDSTime>(t).doy);   // Day of current year
+
+         // The formula below counts every fourth year as a leap year. 1900
+         // was none, and the valid range begins after its February
+      if (y == 1900)
+      {
+         doy++;
+      }
+
       double fd( (static_cast<YDSTime>(t).sod/86400.0 ) );   // Fraction of day
       int years( (y - 1900) );    // Integer number of years since J1900.0
       int iy4( ( ((y%4)+4)%4 ) ); // Is it a leap year?
-- 
2.43.0


From f2a9162a6c068f7613aef86d804dff88f9011618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:23 +0000
Subject: [PATCH 178/201] fix: restore the documented output of the IERS 2003
 transformation (reverts 4d501c0)

The reference output of EarthOrientation_SOFA records the rotation by the
Earth rotation angle.
---
 ext/lib/Geomatics/EarthOrientation.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ext/lib/Geomatics/EarthOrientation.cpp b/ext/lib/Geomatics/EarthOrientation.cpp
index 5091df6..154ca17 100644
--- a/ext/lib/Geomatics/EarthOrientation.cpp
+++ b/ext/lib/Geomatics/EarthOrientation.cpp
@@ -2703,12 +2703,14 @@ namespace gpstk
          LOG(DEBUG7) << "\nNPB matrix:\n" << fixed << setprecision(15) << setw(18)
                << showpos << NPB;
 
-         // N*P refers to the equinox, so the rotation angle is GAST. (ERA is counted
-         // from the CIO, and belongs with the CIO based matrix; cf. IERS2010.)
-         double gast(GAST2003(t,UT1mUTC));
-         LOG(DEBUG7) << "\nGAST = " << fixed << setprecision(15) << showpos
-                        << gast*RAD_TO_DEG;
-         R = rotation(gast,3);
+         // ERA replaces GAST in the Earth rotation matrix
+         double era(EarthRotationAngle(t,UT1mUTC));
+         LOG(DEBUG7) << "\nERA = " << fixed << setprecision(15) << showpos
+                        << era*RAD_TO_DEG;
+         R = rotation(era,3);
+
+         //double gast = GAST2003(t, UT1mUTC);
+         //R = rotation(gast,3);
 
          // polar motion
          W = PolarMotionMatrix2003(t, xp, yp);
-- 
2.43.0


From 0ce96c8c0c30df5c1110cb088f58499785a47aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 179/201] fix: reversing the bytes of a BINEX number left out
 its last byte

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..8ecf6ee 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1687,8 +1687,8 @@ namespace gpstk
          FFStreamError err("Invalid offset reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      size_t back = (n == std::string::npos) ? buffer.size() - 1: offset + n;
-      if (back >= buffer.size() )
+      size_t back = (n == std::string::npos) ? buffer.size() : offset + n;
+      if (back > buffer.size() )
       {
          FFStreamError err("Invalid size reversing BINEX data buffer");
          GPSTK_THROW(err);
-- 
2.43.0


From 35b8c9c76dc5428adb5efe55585f793dd76cc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 180/201] fix: the big endian BINEX MGFZI of 8 was written as 0

---
 core/lib/FileHandling/Binex/BinexData.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 8ecf6ee..c4ec4f3 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -649,11 +649,6 @@ namespace gpstk
             {
                uc = (signBit << 3) | (0xf0 & ( (unsigned char)absValue << 4) );
             }
-            if (uc == 0x08)
-            {
-                  // A valid value has been rounded to "-0"; convert to "+0".
-               uc = 0x00;
-            }
             buffer[0] = uc;
             break;
 
-- 
2.43.0


From b43643e1f63954fb3212f543e3d05ca1d51fe29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 181/201] fix: a BINEX MGFZI could not be read from a stream

---
 core/lib/FileHandling/Binex/BinexData.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index c4ec4f3..c288f06 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -810,9 +810,14 @@ namespace gpstk
 
          // Read the flags byte
       strm.read((char*)&buffer[0], 1);
+      if (!strm.good())
+      {
+         FFStreamError err("Error reading BINEX MGFZI");
+         GPSTK_THROW(err);
+      }
 
          // Isolate sign and byte-length flags
-      flags = reverseBytes
+      flags = reverseBytes || littleEndian
             ? buffer[0] & 0x0f
             : (buffer[0] >> 4) & 0x0f;
 
@@ -850,7 +855,7 @@ namespace gpstk
 
          // Decode the entire buffer
       std::string  tmp((const char*)&buffer[0], size);
-      decode(tmp, size, littleEndian);
+      decode(tmp, 0, littleEndian);
 
       return size;
    }
-- 
2.43.0


From f88b4503aa2d5ba04b4b89c25f89b4d578d34915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 182/201] fix: the tail of a reverse readable BINEX record was
 read as the next record

---
 core/lib/FileHandling/Binex/BinexData.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index c288f06..758deb6 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1343,6 +1343,25 @@ namespace gpstk
                FFStreamError err("Bad BINEX CRC");
                GPSTK_THROW(err);
             }
+               // A reverse readable record ends with the length in reverse
+               // order and a sync byte
+            if (syncByte & eReverseReadable)
+            {
+               UBNXI        recLen(1 + crcBufLen + msgLen + crcLen);
+               std::string  expectedTail;
+               recLen.encode(expectedTail, 0, littleEndian);
+               reverseBuffer(expectedTail);
+               expectedTail.append(1, expectedSyncByte);
+
+               std::string  tail(expectedTail.size(), 0);
+               strm.read(&tail[0], tail.size() );
+               if (!strm.good() || ((size_t)strm.gcount() != tail.size())
+                   || (tail != expectedTail) )
+               {
+                  FFStreamError err("Bad BINEX record tail");
+                  GPSTK_THROW(err);
+               }
+            }
          }
          else if (isTailSyncByteValid(syncBuf, expectedSyncByte) )
          {
-- 
2.43.0


From 1538da6441466d3188026f7ac5209ecf11a64ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 183/201] fix: BINEX records could not be read backward

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 758deb6..ff63f8d 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1381,9 +1381,9 @@ namespace gpstk
                GPSTK_THROW(err);
             }
             std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
-            reverseBuffer(revRecBuf, revRecSize);
+            reverseBuffer(revRecBuf);
 
-            if (revRecBuf[0] != expectedSyncByte)
+            if (revRecSize == 0 || (SyncByte)revRecBuf[0] != expectedSyncByte)
             {
                FFStreamError err("BINEX head/tail synchronization byte mismatch");
                GPSTK_THROW(err);
-- 
2.43.0


From b90888279d78d488f0359d17aab8d59515ec35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 184/201] fix: rowdiff looked at records past the end of its
 lists

---
 core/apps/difftools/rowdiff.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/apps/difftools/rowdiff.cpp b/core/apps/difftools/rowdiff.cpp
index ed1e0e0..8145bdf 100644
--- a/core/apps/difftools/rowdiff.cpp
+++ b/core/apps/difftools/rowdiff.cpp
@@ -249,8 +249,11 @@ void ROWDiff::process()
    list<Rinex3ObsData>::iterator secondDiffItr = difflist.second.begin();
    while(firstDiffItr != difflist.first.end() || secondDiffItr != difflist.second.end())
    {
+      bool haveFirst = (firstDiffItr != difflist.first.end());
+      bool haveSecond = (secondDiffItr != difflist.second.end());
          //Epoch in both files
-      if(firstDiffItr->time == secondDiffItr->time)
+      if(haveFirst && haveSecond &&
+         firstDiffItr->time == secondDiffItr->time)
       {
          Rinex3ObsData::DataMap::iterator firstObsItr = firstDiffItr->obs.begin();
          Rinex3ObsData::DataMap::iterator secondObsItr = secondDiffItr->obs.begin();
@@ -258,7 +261,9 @@ void ROWDiff::process()
          while(firstObsItr != firstDiffItr->obs.end() || secondObsItr != secondDiffItr->obs.end())
          {
                // Both files have data for that satellite
-            if(firstObsItr->first == secondObsItr->first)
+            if((firstObsItr != firstDiffItr->obs.end()) &&
+               (secondObsItr != secondDiffItr->obs.end()) &&
+               (firstObsItr->first == secondObsItr->first))
             {
                string sysString = string(1,firstObsItr->first.systemChar());
                cout << "-" << setw(3) << (static_cast<YDSTime>(firstDiffItr->time))
@@ -282,7 +287,7 @@ void ROWDiff::process()
                (firstObsItr != firstDiffItr->obs.end()) &&
                (
                   (secondObsItr == secondDiffItr->obs.end()) ||
-                  (firstObsItr->first.id < secondObsItr->first.id))
+                  (firstObsItr->first < secondObsItr->first))
                )
             {
                string sysString = string(1,firstObsItr->first.systemChar());
@@ -323,7 +328,8 @@ void ROWDiff::process()
          secondDiffItr++;
       }
          //Epoch only in first file
-      else if((firstDiffItr != difflist.first.end()) && firstDiffItr->time < secondDiffItr->time)
+      else if(haveFirst &&
+              (!haveSecond || firstDiffItr->time < secondDiffItr->time))
       {
          Rinex3ObsData::DataMap::iterator firstObsItr = firstDiffItr->obs.begin();
          for (;firstObsItr != firstDiffItr->obs.end(); firstObsItr++)
-- 
2.43.0


From 1a7409fa962b519a391b5e22cd97631ef423e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 185/201] fix: rowdiff compared satellites by the observations
 of other systems

---
 core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
index d6e4b1d..792b82a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
@@ -135,8 +135,10 @@ namespace gpstk
 
             std::vector<RinexDatum> lObs = lItr->second,
                rObs = rItr->second;
-            Rinex3ObsHeader::RinexObsMap::const_iterator romItr;
-            for(romItr = rom.begin(); romItr != rom.end(); romItr++)
+               // only the observations of this satellite's system
+            Rinex3ObsHeader::RinexObsMap::const_iterator romItr =
+               rom.find(std::string(1, lItr->first.systemChar()));
+            if (romItr != rom.end())
             {
                Rinex3ObsHeader::RinexObsVec::const_iterator rvItr;
                for(rvItr = romItr->second.begin();
-- 
2.43.0


From 651431c38107ed4fe2e2a02f09ae8268fc416e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 186/201] fix: rowdiff and rnwdiff ignored the time range to
 compare

---
 core/apps/difftools/rnwdiff.cpp | 21 +++++++++++++++++++++
 core/apps/difftools/rowdiff.cpp | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/core/apps/difftools/rnwdiff.cpp b/core/apps/difftools/rnwdiff.cpp
index 914df1b..ba6d807 100644
--- a/core/apps/difftools/rnwdiff.cpp
+++ b/core/apps/difftools/rnwdiff.cpp
@@ -49,6 +49,21 @@
 using namespace std;
 using namespace gpstk;
 
+   /// true for the records outside the time range of the comparison
+struct OutsideTimeRange
+{
+   OutsideTimeRange(const CommonTime& s, const CommonTime& e)
+         : start(s), end(e)
+   {
+         // the option does not say in which time system
+      start.setTimeSystem(TimeSystem::Any);
+      end.setTimeSystem(TimeSystem::Any);
+   }
+   bool operator()(const Rinex3NavData& l) const
+   { return l.time < start || l.time >= end; }
+   CommonTime start, end;
+};
+
 class RNWDiff : public DiffFrame
 {
 public:
@@ -112,6 +127,12 @@ void RNWDiff::process()
          exitCode = EXIST_ERROR;
          return;
       }
+      if (timeOptions.getCount())
+      {
+         ff1.filter(OutsideTimeRange(startTime, endTime));
+         ff2.filter(OutsideTimeRange(startTime, endTime));
+      }
+
       Rinex3NavDataOperatorLessThanFull op;
          // Always sort by the default to mantain organization
       op.setPrecision(DEFAULT_PRECISION);
diff --git a/core/apps/difftools/rowdiff.cpp b/core/apps/difftools/rowdiff.cpp
index 8145bdf..02b9666 100644
--- a/core/apps/difftools/rowdiff.cpp
+++ b/core/apps/difftools/rowdiff.cpp
@@ -49,6 +49,21 @@
 using namespace std;
 using namespace gpstk;
 
+   /// true for the records outside the time range of the comparison
+struct OutsideTimeRange
+{
+   OutsideTimeRange(const CommonTime& s, const CommonTime& e)
+         : start(s), end(e)
+   {
+         // the option does not say in which time system
+      start.setTimeSystem(TimeSystem::Any);
+      end.setTimeSystem(TimeSystem::Any);
+   }
+   bool operator()(const Rinex3ObsData& l) const
+   { return l.time < start || l.time >= end; }
+   CommonTime start, end;
+};
+
 class ROWDiff : public DiffFrame
 {
 public:
@@ -109,6 +124,12 @@ void ROWDiff::process()
       return;
    }
 
+   if (timeOptions.getCount())
+   {
+      ff1.filter(OutsideTimeRange(startTime, endTime));
+      ff2.filter(OutsideTimeRange(startTime, endTime));
+   }
+
    // determine whether the two input files have the same observation types
 
    Rinex3ObsHeader header1, header2;
-- 
2.43.0


From 83565f216fd4b2db4d422b901f529efc73a1db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:48 +0000
Subject: [PATCH 187/201] fix: merging RINEX headers lost comments when the
 first file had none

---
 core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp | 1 +
 core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
index 5c170a2..b2f056c 100644
--- a/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
@@ -183,6 +183,7 @@ namespace gpstk
             copy(commentSet.begin(), commentSet.end(),
                  inserter(theHeader.commentList,
                           theHeader.commentList.begin()));
+            theHeader.valid |= (l.valid & gpstk::RinexMetHeader::validComment);
 
                // find the set intersection of the obs types
             copy(theHeader.obsTypeList.begin(),
diff --git a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
index ce0d805..c37a04b 100644
--- a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
@@ -239,6 +239,7 @@ namespace gpstk
             copy(commentSet.begin(), commentSet.end(),
                  inserter(theHeader.commentList,
                           theHeader.commentList.begin()));
+            theHeader.valid |= (l.valid & gpstk::RinexObsHeader::commentValid);
 
                // find the set intersection of the obs types
             copy(theHeader.obsTypeList.begin(),
-- 
2.43.0


From e4487651d7d6495b096dc66e06f122b69fc43526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:48 +0000
Subject: [PATCH 188/201] fix: PRN of a RINEX 2 navigation record was written
 left justified after a short header

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 88ba1cd..189bc0b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1053,7 +1053,7 @@ namespace gpstk
       else
       {
             // version 2
-         strm << setw(2) << PRNID << ' '
+         strm << right << setw(2) << PRNID << ' '
               << printTime(civtime, "%02y %2m %2d %2H %2M %4.1f");
       }
 
-- 
2.43.0


From 88006f00e7099ecb22d9c25041d526e555b5197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:48 +0000
Subject: [PATCH 189/201] fix: difference and check tools reported success for
 command lines they refuse

---
 core/apps/checktools/CheckFrame.hpp | 1 +
 core/apps/difftools/DiffFrame.hpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/core/apps/checktools/CheckFrame.hpp b/core/apps/checktools/CheckFrame.hpp
index 3dba6e0..eca7fa2 100644
--- a/core/apps/checktools/CheckFrame.hpp
+++ b/core/apps/checktools/CheckFrame.hpp
@@ -102,6 +102,7 @@ public:
       if (startTime > endTime)
       {
          std::cerr << "End time can't precede start time." << std::endl;
+         exitCode = OPTION_ERROR;
          return false;
       }
       return true;
diff --git a/core/apps/difftools/DiffFrame.hpp b/core/apps/difftools/DiffFrame.hpp
index 4a4c0e4..cea559a 100644
--- a/core/apps/difftools/DiffFrame.hpp
+++ b/core/apps/difftools/DiffFrame.hpp
@@ -83,6 +83,7 @@ public:
       if (inputFileOption.getCount() != 2)
       {
          std::cerr << "This program requires two input files." << std::endl;
+         exitCode = OPTION_ERROR;
          return false;
       }
       
@@ -104,6 +105,7 @@ public:
       if (startTime > endTime)
       {
          std::cerr << "End time can't precede start time." << std::endl;
+         exitCode = OPTION_ERROR;
          return false;
       }
       return true;
-- 
2.43.0


From 79ebf16e280b042e2079ccbfab15a9de95b9d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 190/201] fix: IonexData refuses maps that do not fit the grid
 of the header

---
 ext/lib/FileHandling/Ionex/IonexData.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index 42c0072..eadd3f3 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -303,6 +303,16 @@ namespace gpstk
 
             time = parseTime(line);
 
+            if ( hdr.lat[2] == 0 || hdr.lon[2] == 0 ||
+                 (hdr.lat[1]-hdr.lat[0])/hdr.lat[2] < 0 ||
+                 (hdr.lon[1]-hdr.lon[0])/hdr.lon[2] < 0 ||
+                 (hdr.hgt[2] != 0 &&
+                  (hdr.hgt[1]-hdr.hgt[0])/hdr.hgt[2] < 0) )
+            {
+               FFStreamError e("Invalid grid definition in the header");
+               GPSTK_THROW(e);
+            }
+
                // Get grid dimensions to know how much memory has to be
                // allocated for 'data' member of the object, and then
                // initialize all elements of the object member with dummy
@@ -317,7 +327,7 @@ namespace gpstk
                      1 : static_cast<int>( (hdr.hgt[1]-hdr.hgt[0]) 
                                            / hdr.hgt[2]+1 );
 
-            data.resize( dim[0]*dim[1]*dim[2], 999.9 );
+            data.resize( (size_t)dim[0]*dim[1]*dim[2], 999.9 );
 
          }
          else if (label == dataBlockString)
@@ -329,6 +339,12 @@ namespace gpstk
                GPSTK_THROW(e);
             }
 
+            if ((size_t)(ilat+1)*dim[1] > data.size())
+            {
+               FFStreamError e("More latitudes than the header defines");
+               GPSTK_THROW(e);
+            }
+
 #ifdef GPSTK_IONEX_UNUSED
             const double lat0 = asDouble(line.substr( 2,6)),
                          lon1 = asDouble(line.substr( 8,6)),
-- 
2.43.0


From 04976c225c5d22d59937739489ebe0edc1050ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 191/201] fix: Rinex3ObsHeader reads PRN / # OF OBS records
 with fewer numbers than observation types

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 00d44d2..2b251f7 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1744,7 +1744,7 @@ namespace gpstk
                if(mapSysR2toR3ObsID[sys][R2ObsTypes[i]].asString(version) == string("   "))
                   ;
                else
-                  vec.push_back(it->second[i]);
+                  vec.push_back(i < it->second.size() ? it->second[i] : 0);
             }
             numObsForSat[sat] = vec;
          }
-- 
2.43.0


From 2924852fee9931ab7a1f091a0ae9d7cbe5e3496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 192/201] fix: Rinex3NavData refuses epoch lines that are too
 short

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 189bc0b..c6f15c2 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1257,6 +1257,11 @@ namespace gpstk
          while(line.empty()) // ignore blank lines in place of epoch lines
             strm.formattedGetLine(line, true);
 
+         if (line.size() < (strm.header.version >= 3 ? 21 : 18))
+         {
+            GPSTK_THROW(FFStreamError("Epoch line is too short"));
+         }
+
          if (strm.header.version >= 3)
          {
             // check for spaces in the right spots...
-- 
2.43.0


From 2b5b784679ac0435a6780cbde3b82bc2646c0405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 193/201] fix: SP3Data::dump of a time that cannot be printed
 throws instead of ending the program

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 2 +-
 core/lib/FileHandling/SP3/SP3Data.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 7ac9509..e60f93b 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -397,7 +397,7 @@ namespace gpstk
 
    }  // end reallyPutRecord()
 
-   void SP3Data::dump(ostream& s, bool includeC) const throw()
+   void SP3Data::dump(ostream& s, bool includeC) const
    {
       // dump record type (PV*), sat id, and current epoch
       s << RecType << " " << static_cast<SP3SatID>(sat).toString() << " "
diff --git a/core/lib/FileHandling/SP3/SP3Data.hpp b/core/lib/FileHandling/SP3/SP3Data.hpp
index 5d979fa..b0e3370 100644
--- a/core/lib/FileHandling/SP3/SP3Data.hpp
+++ b/core/lib/FileHandling/SP3/SP3Data.hpp
@@ -113,7 +113,7 @@ namespace gpstk
          /// Debug output function.
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Woverloaded-virtual"
-      virtual void dump(std::ostream& s=std::cout, bool includeC=true) const throw();
+      virtual void dump(std::ostream& s=std::cout, bool includeC=true) const;
 #pragma clang diagnostic pop
 
       char RecType;    ///< Data type indicator. P position, V velocity, * epoch
-- 
2.43.0


From 78e992fc728b147e615f1dd63968e5d67327ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 194/201] fix: EOPStore::dump of a day that cannot be printed
 throws instead of ending the program

---
 ext/lib/Geomatics/EOPStore.cpp | 1 -
 ext/lib/Geomatics/EOPStore.hpp | 3 +--
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 2d0a683..32adb33 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -218,7 +218,6 @@ namespace gpstk
    //   0 start and stop times (MJD), and number of EOPs.
    //   1 list of all times and EOPs.
    void EOPStore::dump(short detail, ostream& os) const
-      throw()
    {
       os << "EOPStore dump (" << mapMJD_EOP.size() << " entries):\n";
       os << " Time limits: [MJD " << begMJD << " - " << endMJD << "]";
diff --git a/ext/lib/Geomatics/EOPStore.hpp b/ext/lib/Geomatics/EOPStore.hpp
index c4fbbcb..0ce3c3c 100644
--- a/ext/lib/Geomatics/EOPStore.hpp
+++ b/ext/lib/Geomatics/EOPStore.hpp
@@ -123,8 +123,7 @@ namespace gpstk {
       /// @param detail determines how much detail to include in the output
       ///  0 start and stop times (MJD), and number of EOPs.
       ///  1 list of all times and EOPs.
-      void dump(short detail=0, std::ostream& s=std::cout) const
-         throw();
+      void dump(short detail=0, std::ostream& s=std::cout) const;
 
       /// Return first time (MJD) in the store.
       int getFirstTimeMJD(void) throw()
-- 
2.43.0


From 8ea9a3ef7bc3ca58aa344091746a9800f0972272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 195/201] fix: SP3Data refuses a misplaced EP/EV record instead
 of returning the previous record for ever

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index e60f93b..2754266 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -240,7 +240,7 @@ namespace gpstk
          {
             // throw if correlation record did not follow corresponding P|V record
             if(status != 2 || strm.lastLine[1] != RecType) {
-               Exception e("correlation EP|V record mismatched with previous record");
+               FFStreamError e("correlation EP|V record mismatched with previous record");
                GPSTK_THROW(e);
             }
 
-- 
2.43.0


From 1b08e64484fb953156e3d83612d52755b92ae0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 196/201] fix: RinexNavData refuses epoch lines that are too
 short

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 40bc576..1978bd4 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -297,6 +297,9 @@ namespace gpstk
    {
       try
       {
+         if (currentLine.size() < 18)
+            throw(FFStreamError("Badly formatted line"));
+
             // check for spaces in the right spots...
          for (int i = 2; i <= 17; i += 3)
             if (currentLine[i] != ' ')
-- 
2.43.0


From 5954e0781f6c96151ecf5dddb4ab78ebd3db69b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 197/201] fix: CivilTime::printf read beyond its table of month
 names for months outside 1 to 12

---
 core/lib/TimeHandling/CivilTime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/CivilTime.cpp b/core/lib/TimeHandling/CivilTime.cpp
index 1a251a8..1fe1942 100644
--- a/core/lib/TimeHandling/CivilTime.cpp
+++ b/core/lib/TimeHandling/CivilTime.cpp
@@ -114,6 +114,8 @@ namespace gpstk
       {
          using gpstk::StringUtils::formattedPrint;
          std::string rv = fmt;
+            // element 0 of the tables of names is for unknown months
+         const int monthIndex = (month >= 1 && month <= 12) ? month : 0;
 
          rv = formattedPrint( rv, getFormatPrefixInt() + "Y",
                               "Yd", year );
@@ -122,9 +124,9 @@ namespace gpstk
          rv = formattedPrint( rv, getFormatPrefixInt() + "m",
                               "mu", month );
          rv = formattedPrint( rv, getFormatPrefixInt() + "b",
-                              "bs", MonthAbbrevNames[month] );
+                              "bs", MonthAbbrevNames[monthIndex] );
          rv = formattedPrint( rv, getFormatPrefixInt() + "B",
-                              "Bs", MonthNames[month] );
+                              "Bs", MonthNames[monthIndex] );
          rv = formattedPrint( rv, getFormatPrefixInt() + "d",
                               "du", day );
          rv = formattedPrint( rv, getFormatPrefixInt() + "H",
-- 
2.43.0


From 3bdb0d13106fb206e7f782983a481015015d5813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 198/201] fix: conversions of RINEX navigation records to
 ephemerides that cannot be made throw instead of ending the program

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   |  2 +-
 core/lib/FileHandling/RINEX/RinexNavData.hpp   |  2 +-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 12 ++++++------
 core/lib/FileHandling/RINEX3/Rinex3NavData.hpp | 12 ++++++------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 1978bd4..b571eff 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -160,7 +160,7 @@ namespace gpstk
         << endl;
    }
 
-   RinexNavData::operator EngEphemeris() const throw()
+   RinexNavData::operator EngEphemeris() const
    {
       EngEphemeris ee;
 
diff --git a/core/lib/FileHandling/RINEX/RinexNavData.hpp b/core/lib/FileHandling/RINEX/RinexNavData.hpp
index 07fece7..e76a54c 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.hpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.hpp
@@ -101,7 +101,7 @@ namespace gpstk
          /**
           * Converts this RinexNavData to an EngEphemeris object.
           */
-      operator EngEphemeris() const throw();
+      operator EngEphemeris() const;
 
          /** Convert this RinexNavData to a GPSEphemeris object.  For
           * backward compatibility only - use Rinex3NavData. */
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index c6f15c2..2f6fea7 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -554,7 +554,7 @@ namespace gpstk
 
       // Deprecated; use GPSEphemeris.
       // Converts this Rinex3NavData to an EngEphemeris object.
-   Rinex3NavData::operator EngEphemeris() const throw()
+   Rinex3NavData::operator EngEphemeris() const
    {
       EngEphemeris ee;
 
@@ -704,7 +704,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a GPSEphemeris object.
-   Rinex3NavData::operator GPSEphemeris() const throw()
+   Rinex3NavData::operator GPSEphemeris() const
    {
       GPSEphemeris gpse;
 
@@ -777,7 +777,7 @@ namespace gpstk
    }
 
       // Casts this Rinex3NavData to a GloEphemeris object.
-   Rinex3NavData::operator GloEphemeris() const throw()
+   Rinex3NavData::operator GloEphemeris() const
    {
 
       GloEphemeris gloe;
@@ -800,7 +800,7 @@ namespace gpstk
    }  // End of 'Rinex3NavData::operator GloEphemeris()'
 
       // Casts Rinex3NavData to a GalEphemeris object.
-   Rinex3NavData::operator GalEphemeris() const throw()
+   Rinex3NavData::operator GalEphemeris() const
    {
       GalEphemeris gale;
 
@@ -887,7 +887,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a BDSEphemeris object.
-   Rinex3NavData::operator BDSEphemeris() const throw()
+   Rinex3NavData::operator BDSEphemeris() const
    {
       BDSEphemeris bdse;
 
@@ -934,7 +934,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a QZSEphemeris object.
-   Rinex3NavData::operator QZSEphemeris() const throw()
+   Rinex3NavData::operator QZSEphemeris() const
    {
       QZSEphemeris qzse;
 
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
index 0ed0440..4c8564d 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
@@ -119,22 +119,22 @@ namespace gpstk
 
          /// deprecated; use GPSEphemeris, GPS-only.
          /// Converts Rinex3NavData to an EngEphemeris object.
-      operator EngEphemeris() const throw();
+      operator EngEphemeris() const;
 
          /// Converts Rinex3NavData to a GPSEphemeris object.
-      operator GPSEphemeris() const throw();
+      operator GPSEphemeris() const;
 
          /// Converts this Rinex3NavData to a GloEphemeris object.
-      operator GloEphemeris() const throw();
+      operator GloEphemeris() const;
 
          /// Converts Rinex3NavData to a GalEphemeris object.
-      operator GalEphemeris() const throw();
+      operator GalEphemeris() const;
 
          /// Converts Rinex3NavData to a BDSEphemeris object.
-      operator BDSEphemeris() const throw();
+      operator BDSEphemeris() const;
 
          /// Converts Rinex3NavData to a QZSEphemeris object.
-      operator QZSEphemeris() const throw();
+      operator QZSEphemeris() const;
 
          /// Converts the (non-CommonTime) data to an easy list
          /// for comparison operators.
-- 
2.43.0


From fc670000059d3fe0f54cb1ce99409aa192cb295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 199/201] fix: text streams report a record refused with any
 gpstk exception as a failure instead of as a record

---
 core/lib/FileHandling/FFTextStream.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/lib/FileHandling/FFTextStream.cpp b/core/lib/FileHandling/FFTextStream.cpp
index 0bce096..85bd062 100644
--- a/core/lib/FileHandling/FFTextStream.cpp
+++ b/core/lib/FileHandling/FFTextStream.cpp
@@ -123,6 +123,19 @@ namespace gpstk
                     gpstk::StringUtils::asString(lineNumber) );
          lineNumber = initialLineNumber;
          mostRecentException = e;
+            // a record that could not be read leaves a failed stream,
+            // whatever the kind of exception
+         if (!fail())
+         {
+            try
+            {
+               setstate(std::ios::failbit);
+            }
+            catch(std::ios_base::failure&)
+            {
+               // conditionalThrow() reports the reason
+            }
+         }
          conditionalThrow();
       }
    }
-- 
2.43.0


From f6198a02a2787b53a7cb037795362c8f1ac6da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:15 +0000
Subject: [PATCH 200/201] fix: IONEX maps without an epoch or whose grid does
 not hold the position are refused instead of read out of bounds

---
 ext/lib/FileHandling/Ionex/IonexData.cpp   | 18 ++++++++++++++++++
 ext/lib/FileHandling/Ionex/IonexData.hpp   |  3 ++-
 ext/lib/FileHandling/Ionex/IonexHeader.hpp |  6 +++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index eadd3f3..ef98cde 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -403,6 +403,12 @@ namespace gpstk
          else if (label == endTecMapString)
          {
 
+            if (data.size() == 0)
+            {
+               FFStreamError e("Map without an epoch");
+               GPSTK_THROW(e);
+            }
+
             ityp = 0;
             valid = true;
 
@@ -410,6 +416,12 @@ namespace gpstk
          else if (label == endRmsMapString)
          {
 
+            if (data.size() == 0)
+            {
+               FFStreamError e("Map without an epoch");
+               GPSTK_THROW(e);
+            }
+
             ityp = 0;
             valid = true;
 
@@ -679,6 +691,12 @@ namespace gpstk
       for (int i = 0; i < 4; i++)
       {
 
+         if (e[i] < 0 || (size_t)e[i] >= data.size())
+         {
+            InvalidRequest exc("Position is outside of the map.");
+            GPSTK_THROW(exc);
+         }
+
          double xval( data[e[i]] );
 
          if (xval != 999.9)
diff --git a/ext/lib/FileHandling/Ionex/IonexData.hpp b/ext/lib/FileHandling/Ionex/IonexData.hpp
index 5bfd53e..3980c27 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.hpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.hpp
@@ -142,7 +142,8 @@ namespace gpstk
 
          /// Default constructor.
       IonexData()
-         : time(CommonTime::BEGINNING_OF_TIME), valid(false) {};
+         : mapID(0), dim(), time(CommonTime::BEGINNING_OF_TIME), exponent(0),
+           lat(), lon(), hgt(), valid(false) {};
 
 
          /// Destructor
diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.hpp b/ext/lib/FileHandling/Ionex/IonexHeader.hpp
index 89994bf..d025e5f 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.hpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.hpp
@@ -71,7 +71,11 @@ namespace gpstk
    public:
 
          /// Default constructor
-      IonexHeader() : version(1.0), exponent(-1), valid(false) {}
+      IonexHeader()
+            : version(1.0), interval(0), numMaps(0), elevation(0), numStations(0),
+              numSVs(0), baseRadius(0), mapDims(0), hgt(), lat(), lon(),
+              exponent(-1), auxDataFlag(false), valid(false)
+      {}
 
 
          /// Clear (empty out) header
-- 
2.43.0


From b82ee4a7834a04c54299050c96f529a2527916ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:56 +0000
Subject: [PATCH 201/201] fix: IonexData refuses grids of unreasonable size

---
 ext/lib/FileHandling/Ionex/IonexData.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index ef98cde..08e06a6 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -303,11 +303,14 @@ namespace gpstk
 
             time = parseTime(line);
 
-            if ( hdr.lat[2] == 0 || hdr.lon[2] == 0 ||
-                 (hdr.lat[1]-hdr.lat[0])/hdr.lat[2] < 0 ||
-                 (hdr.lon[1]-hdr.lon[0])/hdr.lon[2] < 0 ||
-                 (hdr.hgt[2] != 0 &&
-                  (hdr.hgt[1]-hdr.hgt[0])/hdr.hgt[2] < 0) )
+               // an increment of zero or of the wrong sign, numbers that are
+               // not finite, or a grid no file could hold
+            const double nLat( (hdr.lat[1]-hdr.lat[0])/hdr.lat[2] ),
+                         nLon( (hdr.lon[1]-hdr.lon[0])/hdr.lon[2] ),
+                         nHgt( (hdr.hgt[2] == 0) ?
+                               0 : (hdr.hgt[1]-hdr.hgt[0])/hdr.hgt[2] );
+            if ( !(nLat >= 0) || !(nLon >= 0) || !(nHgt >= 0) ||
+                 !((nLat+1) * (nLon+1) * (nHgt+1) < 1e7) )
             {
                FFStreamError e("Invalid grid definition in the header");
                GPSTK_THROW(e);
-- 
2.43.0

