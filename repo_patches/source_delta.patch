From dfbc1c191f15c979c1a962202aa3a7ef4ce351db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 01/46] fix: certainty query for minutes reads the minutes
 entry

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..c4d0551 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From 84a844ce86edeb1f2378f1f92680d1bcf2bfb09c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 02/46] fix: print the end of a range with the timezone offset
 applied

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index c4d0551..24a87ec 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -434,7 +434,7 @@ std::string ParsedResult::toDate() {
         if(getTag(utils::ExtractTimeZoneAbbreviation))
             ed += posix_time::minutes(startDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From 3a437b5629a9dfc15533155db77b9bb23050fd0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 03/46] fix: report only results whose dates exist

---
 src/result.cpp | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 24a87ec..3dd8410 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,26 +289,13 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // needs implementation
-    // std::time_t tmp = std::time(nullptr);
-    std::tm tmp, tmp1; // = std::gmtime(&tmp);
-
-    tmp1.tm_year = getYear();
-    tmp1.tm_mon  = getMonth()-1;
-    tmp1.tm_mday = get_mDay();
-    tmp1.tm_hour = getHour();
-    tmp1.tm_min  = getMinute();
-    tmp1.tm_sec  = getSeconds();
-
-    posix_time::ptime tmp2 = posix_time::ptime_from_tm(tmp1);
-    tmp = posix_time::to_tm(tmp2);
-
-    if(tmp.tm_year != getYear())    return false;
-    if(tmp.tm_mon  != getMonth()-1) return false;
-    if(tmp.tm_mday != get_mDay())   return false;
-    if(tmp.tm_wday != get_wDay())   return false;
-    if(tmp.tm_hour != getHour())    return false;
-    if(tmp.tm_min  != getMinute())  return false;
+    // the calendar fields have to name an existing day
+    try {
+        gregorian::date(getYear(), getMonth(), get_mDay());
+    }
+    catch (std::out_of_range& e) {
+        return false;
+    }
 
     /*
     if(knownValues["year"].first  == false and
@@ -387,14 +374,7 @@ bool ParsedResult::hasPossibleDates() {
     /**
      * @brief checks if (*this) result contains a valid date
      */
-    if(startDate.getYear()    == 0 and startDate.getMonth()   == 0 and
-       startDate.get_mDay()   == 0 and// startDate.get_wDay()   == 0 and
-       startDate.getHour()    == 0 and startDate.getMinute()  == 0 and
-       startDate.getSeconds() == 0 and end() == false)
-        return false;
-
-    //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
-    return true;
+    return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
 }
 
 ParsedResult::~ParsedResult() { }
-- 
2.43.0


From 8a91e858ff58c418024055b9c6985b43ff6bd7f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 04/46] fix: an expression that can not be represented gives no
 result instead of an exception

---
 src/parsers/parsers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..d8a38f7 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,13 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        }
+        catch (std::exception& err) {
+            // numbers or dates that can not be represented: no result
+            std::cerr << err.what() << std::endl;
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From d8c6c4d89115f15fba0f1324f5614cbcc7970467 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 05/46] fix: keep the matched text alive until the match has
 been used

---
 src/parsers/parsers.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index d8a38f7..99083ed 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -53,9 +53,6 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
         }
-        else {
-            remainingText = text.substr(match.position(0) + 1);
-        }
 
         // set remaining text to string immediately following the matched string
         remainingText = text.substr(idx + match.length(0));
-- 
2.43.0


From 440945b5106e24b9b2d0e14a5e51d473c401c5c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 06/46] fix: weekday pattern is a well-formed regular
 expression

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..8bfcbd3 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -22,11 +22,11 @@
         std::regex getPattern() const override {
             static const std::regex PATTERN {
                 R"((\b))"
-                    R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                    R"((?:(earl(?:ier|y)|late)\s*)?)"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From f8c8750e406a97f5f3db62780c7fd73c20a72cd4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 07/46] fix: ago and later patterns match, also far into a text

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ++--
 src/parsers/en/ENTimeLaterParser.hpp     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..621ff45 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w"))) {
                 return result;
             }
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..113ec84 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,19 +17,19 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From 7b5e04f74ec2b0f0f00c9fb64ba3bef5c758c229 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 08/46] fix: mixed calendar and clock units carry into each
 other in ago and later

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 11 ++++++-----
 src/parsers/en/ENTimeLaterParser.hpp     | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 621ff45..44650d0 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -30,20 +30,19 @@
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
-            gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
             // subtract each of the elements in fragments to the date/ptinme object
             for(const auto& a : fragments) {
                 try {
                     if(a.first == "year")
-                        date -= gregorian::years(static_cast<int> (a.second));
+                        date_t -= gregorian::years(static_cast<int> (a.second));
                     else if(a.first == "month")
-                        date -= gregorian::months(static_cast<int> (a.second));
+                        date_t -= gregorian::months(static_cast<int> (a.second));
                     else if(a.first == "week")            // this did not mean a literal week but rather a weekday
-                        date -= gregorian::weeks(a.second);
+                        date_t -= gregorian::weeks(a.second);
                     else if(a.first == "day")
-                        date -= gregorian::days(
+                        date_t -= gregorian::days(
                                 static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                     else if(a.first == "hour")
                         date_t -= posix_time::hours(static_cast<int> (a.second));
@@ -58,6 +57,8 @@
                 }
             }
 
+            gregorian::date date{date_t.date()};
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 113ec84..08fa443 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -35,22 +35,21 @@
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
-            gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
             // add each of the elements in fragments to the date/ptime object
             for(auto a : fragments) {
                 if(a.first == "year") {
-                    date += gregorian::years(static_cast<int> (a.second));
+                    date_t += gregorian::years(static_cast<int> (a.second));
                 }
                 else if(a.first == "month") {
-                    date += gregorian::months(static_cast<int> (a.second));
+                    date_t += gregorian::months(static_cast<int> (a.second));
                 }
                 else if(a.first == "week") {            // this did not mean a literal week but rather a weekday
-                    date += gregorian::weeks(a.second);
+                    date_t += gregorian::weeks(a.second);
                 }
                 else if(a.first == "day") {
-                    date += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                    date_t += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                 }
                 else if(a.first == "hour") {
                     date_t += posix_time::hours(static_cast<int> (a.second));
@@ -63,6 +62,8 @@
                 }
             }
 
+            gregorian::date date{date_t.date()};
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From 0ed4b7c499f2c10cda0680b3cb3731bc083d6c67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 09/46] fix: an ago expression before the calendar starts gives
 no result

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 44650d0..2f32cd0 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -53,7 +53,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
-- 
2.43.0


From acaa8236bade390e8a8fbfbc841dc7787a61d466 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 10/46] fix: half a unit and repeated units count in ago and
 later

---
 src/utils/utils.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..c1cc767 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -63,20 +63,38 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     std::string element{match[2].str()};
+    if(num == 0.5f) {
+        // half of a unit is a whole number of the unit(s) below it
+        if(std::regex_search(element, std::regex("hour", std::regex::icase)))
+            fragments["minute"] += 30;
+        else if(std::regex_search(element, std::regex("min", std::regex::icase)))
+            fragments["second"] += 30;
+        else if(std::regex_search(element, std::regex("week", std::regex::icase)))
+            fragments["day"] += 3;
+        else if(std::regex_search(element, std::regex("day", std::regex::icase)))
+            fragments["hour"] += 12;
+        else if(std::regex_search(element, std::regex("month", std::regex::icase)))
+            fragments["day"] += 15;
+        else if(std::regex_search(element, std::regex("year", std::regex::icase)))
+            fragments["month"] += 6;
+
+        return fragments;
+    }
+
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
-        fragments["hour"] = num;
+        fragments["hour"] += num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-        fragments["minute"] = num;
+        fragments["minute"] += num;
     else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
-        fragments["second"] = num;
+        fragments["second"] += num;
     else if(std::regex_search(element, std::regex("week", std::regex::icase)))
-        fragments["week"] = num;
+        fragments["week"] += num;
     else if(std::regex_search(element, std::regex("day", std::regex::icase)))
-        fragments["day"] = num;
+        fragments["day"] += num;
     else if(std::regex_search(element, std::regex("month", std::regex::icase)))
-        fragments["month"] = num;
+        fragments["month"] += num;
     else if(std::regex_search(element, std::regex("year", std::regex::icase)))
-        fragments["year"] = num;
+        fragments["year"] += num;
 
     return fragments;
 }
-- 
2.43.0


From 0add23e3644a368e26944cd0c3ae5c1f1cf8c714 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 11/46] fix: Black Friday is the day after Thanksgiving

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..82e6e73 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From 6791261dbeb907830e20cab3246b69d643f72dac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 12/46] fix: every holiday spelling of the pattern matches and
 resolves

---
 src/parsers/en/ENUSHolidaysParser.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 82e6e73..d40f2b9 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,9 +13,9 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
-                            R"((?:day)?)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas(?:\s*eve)?|)"
+                        R"(black\s*Friday))"
+                            R"((?:\s+day)?)"
                     R"((\b))", std::regex::icase};
 
             return PATTERN;
@@ -33,7 +33,7 @@
                 result.startDate.setMonth(7);
                 result.startDate.set_mDay(4);
             }
-            else if(text.find("new year") != std::string::npos) {
+            else if(text.find("year") != std::string::npos) {
                 result.startDate.setYear(ref.date().year());
                 result.startDate.setMonth(1);
                 result.startDate.set_mDay(1);
@@ -60,7 +60,7 @@
                 }
             }
             else if(text.find("mlk") != std::string::npos or
-                       text.find(utils::toLowerCase("Martin Luther King")) != std::string::npos) {
+                       text.find("martin") != std::string::npos) {
                 //MLK day is the third Monday in Jan
                 utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                 day = thirdMondayOfJan.get_date(ref.date().year());
-- 
2.43.0


From aa0880081ea931428a4ad15f6f5cb0b7fb131559 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 13/46] fix: month abbreviations with a dot and eras are read
 by the month name parser

---
 src/parsers/en/ENMonthNameParser.hpp | 6 +++---
 src/utils/utils.hpp                  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..707a3fa 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,9 +21,9 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
@@ -61,7 +61,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(!match.str(YEAR__GROUP).empty()) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From 156ba648576083476f76cff9f8ebeb8420233c36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 14/46] fix: month-day expressions match without trailing
 space, with every ordinal and range end

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..479d142 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm))\s*)"
                             R"((?:)"
                                 R"((?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
@@ -111,7 +111,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(!match.str(YEAR_GROUP).empty() or !match.str(YEAR_GROUP2).empty()) {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From c654115e36a8e8e119cefaefdf67d2d58a84a95d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 15/46] fix: deadlines carry over midnight and every deadline
 is tagged

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..6e50d3f 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -76,7 +76,9 @@
                         result.startDate.implyComponent("mday", tmpTime.date().day());
                         result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
                         result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
+                        result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
+                        result.setTag(utils::ENDeadlineFormatParser);
                         return result;
                     }
                 }
@@ -109,6 +111,7 @@
                 result.startDate.implyComponent("month", tmpDate.month());
                 result.startDate.implyComponent("mday", tmpDate.day());
 
+                result.setTag(utils::ENDeadlineFormatParser);
                 return result;
             }
 
@@ -128,9 +131,9 @@
             } else if (!match.str(4).find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From 5b57bb075a516a246b4f11e7e6ffbfd2e246d527 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 16/46] fix: short unit names count in deadlines

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 6e50d3f..85a1483 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,7 +61,7 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
-            std::regex dwmy(("day|week|month|year"));
+            std::regex dwmy(("day|w(?:ee)?k|month|y(?:ea)?r"));
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
@@ -82,7 +82,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(match.str(4).find("w") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -98,7 +98,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(match.str(4).find("y") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -115,7 +115,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -123,12 +123,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!match.str(4).find("min")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpTime.date().year());
-- 
2.43.0


From 6142505516fd38a56cf031fcb2351a74a6b857f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 17/46] fix: number words and minutes are read in relative
 expressions

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..7ea26ee 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
@@ -145,6 +145,7 @@
                         result.startDate.implyComponent("mday", tmpTime.date().day());
                         result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
                         result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
+                        result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
                         return result;
                     }
@@ -232,7 +233,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From b3132ab08ae648851f7943d0d05fddc9ea078183 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 18/46] fix: a word that is no number is not read as zero weeks

---
 src/parsers/en/ENWeekExperessionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..3cd19be 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,10 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                if(utils::INTEGER_WORDS.find(match.str(4)) == utils::INTEGER_WORDS.end()) {
                     return result;
                 }
+                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
             }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
-- 
2.43.0


From 2622f7a8261b80fe45cc1f152ca6b1fe8ffb7a54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 19/46] fix: week expressions carry a tag like every other
 parser's results

---
 src/parsers/en/ENWeekExperessionParser.hpp | 1 +
 src/utils/utils.hpp                        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 3cd19be..585af2d 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -46,6 +46,7 @@
             result.startDate.implyComponent("month", tmp.month());
             result.startDate.implyComponent("mday", tmp.day());
 
+            result.setTag(utils::ENWeekExpressionParser);
             return result;
         }
     };
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..8256098 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -32,6 +32,7 @@ namespace utils {
         ENTimeExpressionParser,
         ENUSHolidaysParser,
         ENRelativeDateFormatParser,
+        ENWeekExpressionParser,
         // refiners
         ENMergeDateRangeRefiner,
         ENMergeDateAndTimeRefiner,
@@ -46,6 +47,7 @@ namespace utils {
                                         ENMonthNameParser, ENTimeAgoFormatParser,
                                         ENISOFormatParser, ENTimeExpressionParser,
                                         ENUSHolidaysParser, ENRelativeDateFormatParser,
+                                        ENWeekExpressionParser,
 
                                         ENMergeDateRangeRefiner, ENMergeDateAndTimeRefiner,
                                         ExtractTimeZoneAbbreviation,};
-- 
2.43.0


From 705edd180438a3301bdd7bcd212b3955a83692fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 20/46] fix: clock fields out of range give no ISO result

---
 src/parsers/en/ENISOFormatParser.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..923db14 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -41,6 +41,15 @@
                 return result;
             }
 
+            if(!match.str(HOUR_NUMBER_GROUP).empty()) {
+                if(std::stoi(match.str(HOUR_NUMBER_GROUP)) > 24 or std::stoi(match.str(MINUTE_NUMBER_GROUP)) >= 60) {
+                    return result;
+                }
+                if(!match.str(SECOND_NUMBER_GROUP).empty() and std::stoi(match.str(SECOND_NUMBER_GROUP)) >= 60) {
+                    return result;
+                }
+            }
+
             result.startDate.setYear(std::stoi(match.str(YEAR_NUMBER_GROUP)));
             result.startDate.setMonth(month);
             result.startDate.set_mDay(day);
-- 
2.43.0


From bb752c235f29e166d2704a620c046af84c6947f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 21/46] fix: the sign of an ISO offset applies to its minutes
 below one hour

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 923db14..bf48719 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -73,7 +73,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From ff6394932c61817a7d57135019e7b7e545a403d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 22/46] fix: meridiem marker is initialised and copied

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..a851298 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{0};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 822d4dd2cd9e88d570532167cc818d3f1b96f733 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 23/46] fix: a borrowed pm marker keeps 24 hour readings valid

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a851298..1fa1554 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour > 0 and hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
@@ -182,7 +182,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour > 0 and to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From 0d3bc3180c998742c7e5c9b642e1a456fa621a67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 24/46] fix: bare 3-4 digit clock times below 1:01 are hours
 and minutes

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 1fa1554..b1d9b41 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -70,7 +70,7 @@
             if(!match.str(MINUTE_GROUP).empty()) {
                 minute = std::stoi(match.str(MINUTE_GROUP));
             }
-            else if(hour > 100) {
+            else if(match.length(HOUR_GROUP) > 2 and std::isdigit(match.str(HOUR_GROUP)[0])) {
                 minute = hour % 100;
                 hour = hour / 100;
             }
@@ -145,7 +145,7 @@
                 if(!match.str(TO_MINUTE_GROUP).empty()) {
                     to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                 }
-                else if(to_hour > 100) {
+                else if(match.length(TO_HOUR_GROUP) > 2) {
                     to_minute = to_hour % 100;
                     to_hour = to_hour / 100;
                 }
-- 
2.43.0


From 8be01bb85cf89568b80c42d7bcfcb172769b211d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 25/46] fix: the text of a result is what was matched at its
 index

---
 src/parsers/en/ENMonthNameParser.hpp      | 2 +-
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 707a3fa..165c495 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -31,7 +31,7 @@
 
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(0);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index b1d9b41..a59ec3a 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -34,7 +34,7 @@
 
         parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(0);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
-- 
2.43.0


From ec5bd655f5de76c489ddd50c10b120a35dc7cceb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 26/46] fix: the timezone of a range applies to its end too

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..787b00a 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(match[1].str());
-- 
2.43.0


From 52da0864a9ad4f3e0cac5f97ce262ff95780d689 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 27/46] fix: a recognised timezone extends the text of its
 result

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 787b00a..7ae4e12 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -38,7 +38,7 @@ public:
                             res.endDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
+                        res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
                         res.setTag(utils::ExtractTimeZoneAbbreviation);
                     }
                 }
-- 
2.43.0


From 35977c76b2006546844391782796f227fa74c889 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 28/46] fix: every timezone abbreviation is recognised right
 after a time

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 4 ++--
 src/utils/utils.hpp                          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 7ae4e12..a6dde6b 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,4})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
@@ -24,7 +24,7 @@ public:
                     std::cerr << e.what() << std::endl;
                     continue;
                 }
-                if(std::regex_match(tmp, match, std::regex(TIMEZONE_NAME_PATTERN, std::regex::icase))) {
+                if(std::regex_search(tmp, match, std::regex(TIMEZONE_NAME_PATTERN, std::regex::icase))) {
                     std::string tzAbbrev = utils::toUpperCase(match[1].str());
 
                     if(utils::DEFAULT_TIMEZONE_ABBR_MAP.find(tzAbbrev) != utils::DEFAULT_TIMEZONE_ABBR_MAP.end()) {
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 8256098..76be3d2 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -136,7 +136,7 @@ namespace utils {
             {"BRT",  -180}, {"BST",    60}, {"BTT",   360}, {"CAST", 480}, {"CAT",   120},
             {"CCT",   390}, {"CDT",  -300}, {"CEST",  120}, {"CET",   60}, {"CHADT", 825},
             {"CHAST", 765}, {"CKT",  -600}, {"CLST", -180}, {"CLT", -240}, {"COT",  -300},
-            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"ChST", 600}, {"DAVT",  420},
+            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"CHST", 600}, {"DAVT",  420},
             {"EASST",-300}, {"EAST", -360}, {"EAT",   180}, {"ECT", -300}, {"EDT",  -240},
             {"EEST",  180}, {"EET",   120}, {"EGST",    0}, {"EGT",  -60}, {"EST",  -300},
             {"ET",   -300}, {"FJST",  780}, {"FJT",   720}, {"FKST",-180}, {"FKT",  -240},
-- 
2.43.0


From 8eb6cd22985afed0f7003ef218f6b9499dc44cc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 29/46] fix: date and time merge only when nothing but a
 joining word is between them

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..e0d2956 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -4,7 +4,7 @@
 
 class ENMergeDateAndTime : public refiners::Refiner {
 private:
-    std::regex pattern{"(T|at|on|of|,|-)?", std::regex::icase};
+    std::regex pattern{"\\s*(T|at|on|of|,|-)?\\s*", std::regex::icase};
 
 public:
     ENMergeDateAndTime( ) = default;
@@ -19,8 +19,9 @@ public:
     }
 
     bool isAbleToMerge(std::string text, parse::ParsedResult& prev, parse::ParsedResult& curr) {
-        std::string textBetween = text.substr(prev.getIndex() + prev.textLength(), curr.getIndex());
-        return std::regex_search(textBetween, pattern);
+        std::string textBetween = text.substr(prev.getIndex() + prev.textLength(),
+                                              curr.getIndex() - (prev.getIndex() + prev.textLength()));
+        return std::regex_match(textBetween, pattern);
     }
 
     parse::ParsedComponents mergeDateTimeComponent(parse::ParsedComponents dateComp,
-- 
2.43.0


From 6af3f8ff3935bb2388eac7a307bb80e0c49f48b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 30/46] fix: a merged last pair of results is not reported
 twice

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index e0d2956..693e20e 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -124,6 +124,7 @@ public:
                 }
                 catch (std::out_of_range& e) {
                     std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // both of the last results are part of prev
                 }
                 i++;
             }
@@ -134,6 +135,7 @@ public:
                 }
                 catch (std::out_of_range& e) {
                     std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                    curr = tmp; // both of the last results are part of prev
                 }
                 i++;
             }
-- 
2.43.0


From 34fc0f66c6c6e50d55df5f61a5171124c5a04552 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 31/46] fix: a range over midnight ends on the next calendar
 day

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 693e20e..c8f3ac6 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -75,10 +75,21 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
+                gregorian::date next(endDateTime.getYear(), endDateTime.getMonth(), endDateTime.get_mDay());
+                next += gregorian::days(1);
+
                 if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
+                    endDateTime.set_mDay(next.day());
+                else
+                    endDateTime.implyComponent("mday", next.day());
+                if(endDateTime.isCertain("month"))
+                    endDateTime.setMonth(next.month());
+                else
+                    endDateTime.implyComponent("month", next.month());
+                if(endDateTime.isCertain("year"))
+                    endDateTime.setYear(next.year());
                 else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                    endDateTime.implyComponent("year", next.year());
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From 1d0f3d04797629b50fce446ce13a4f1295eff11e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 32/46] fix: merging a date and a time keeps the timezone of
 the time

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index c8f3ac6..bec11d8 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -50,6 +50,9 @@ public:
             dateTimeComp.implyComponent("min", timeComp.getMinute());
             dateTimeComp.implyComponent("sec", timeComp.getSeconds());
         }
+        if(timeComp.isCertain("tzoffset")) {
+            dateTimeComp.setTimeZoneOffset(timeComp.getTimeZoneOffset());
+        }
         return dateTimeComp;
     }
 
-- 
2.43.0


From 11090596d13b8450cae2446521aff5558b855d54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 33/46] fix: date range merging neither drops nor repeats the
 last result

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..8610f79 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,13 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
+                curr = (i + 1 < r.size()) ? r[i+1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From cff161392c6ca975078ad12fd4aad0479ec6665b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 34/46] fix: a range written backwards is put in order, its
 text ends with the second date

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 8610f79..25c8f4b 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -52,7 +52,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      * @returns a combined date with fromResult as startDate and toResult as endDate
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
-        parse::ParsedResult tmp = fromResult;
+        parse::ParsedResult tmp = toResult;
         toResult = fromResult;
         fromResult = tmp;
     }
@@ -64,7 +64,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From 3a1276126baf830d382a17314435b78ef898c910 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 35/46] fix: dates join to a range only when a range word alone
 is between them

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 25c8f4b..1e670a2 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -88,5 +88,5 @@ bool ENMergeDateRange::isAbleToMerge(std::string text,
     unsigned end   = r2.getIndex();
     std::string textBetween = text.substr(begin, end - begin);
 
-    return regex_search(textBetween, to);
+    return regex_match(textBetween, to);
 }
\ No newline at end of file
-- 
2.43.0


From 50203ed5797f619c8b40e083355c5b8a9391f7b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 36/46] fix: expressions do not swallow the blank that follows
 them

---
 src/parsers/en/ENCasualDateParser.hpp            | 2 +-
 src/parsers/en/ENDayOfTheWeekParser.hpp          | 2 +-
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 8 ++++----
 src/parsers/en/ENMonthNameParser.hpp             | 4 ++--
 src/parsers/en/ENTimeExpressionParser.hpp        | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parsers/en/ENCasualDateParser.hpp b/src/parsers/en/ENCasualDateParser.hpp
index c51a22b..51b40ef 100644
--- a/src/parsers/en/ENCasualDateParser.hpp
+++ b/src/parsers/en/ENCasualDateParser.hpp
@@ -13,7 +13,7 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*)"
+                               R"((now|today|tonight|last\s*night)"
                                R"(|tomorrow|tmr|yesterday))"
                                R"((\b))", std::regex::icase);
             return PATTERN;
diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 8bfcbd3..3bcf8e0 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -25,7 +25,7 @@
                     R"((?:(earl(?:ier|y)|late)\s*)?)"
                         R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
-                                R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
+                                R"((?:\s*(this|last|next)(?:\s*(week))?)?)"
                 R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 479d142..20177ef 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s*)"
+                                        R"((?:am|pm)))"
                             R"((?:)"
-                                R"((?:to|\-)\s*)"
+                                R"(\s*(?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
-                                            R"(thirtieth|thirty[ -]first)\s*)"
+                                            R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})(?:\s*(BE|AD|BC))?|([0-9]{1,4})\s*(AD|BC)))"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 165c495..0804c64 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -22,8 +22,8 @@
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
-                                    R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December))"
+                                    R"((?:\s*[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a59ec3a..51f11a7 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -26,7 +26,7 @@
                                  R"(?(\d{1,4}|noon|midnight)(?:(?:\.|\:|\：)(\d{1,2})(?:(?:\:|\：))"
                                  R"((\d{2})(?:\.(\d{1,6}))?)?)?(?:\s*(A\.M\.?|P\.M\.?|AM?|PM?|)"
                                  R"(O\W*CLOCK))?(?=\W|$))"
-                                 R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
+                                 R"(((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
                                  R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b))?)", std::regex::icase);
             return PATTERN;
-- 
2.43.0


From d188a91f439cb169bf0f72438a58708488cdff37 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 37/46] fix: asking for a tag does not keep it from being set
 later

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 3dd8410..50f94dc 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -457,7 +457,7 @@ void ParsedResult::makeEndDateValid() {
 }
 
 bool ParsedResult::getTag(utils::Modifiers m) {
-    return tags[m];
+    return tags.count(m) > 0 and tags[m];
 
 }
 
-- 
2.43.0


From 6fb59b4faddfaeedaf9e6500ab9b8d39ea240500 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 38/46] fix: zones west of Greenwich with a half hour had the
 half hour subtracted

---
 src/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 76be3d2..df886df 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -143,17 +143,17 @@ namespace utils {
             {"FNT",  -120}, {"GALT", -360}, {"GAMT", -540}, {"GET",  240}, {"GFT",  -180},
             {"GILT",  720}, {"GMT",     0}, {"GST",   240}, {"GYT", -240}, {"HAA",  -180},
             {"HAC",  -300}, {"HADT", -540}, {"HAE",  -240}, {"HAP", -420}, {"HAR",  -360},
-            {"HAST", -600}, {"HAT",   -90}, {"HAY",  -480}, {"HKT",  480}, {"HLV",  -210},
+            {"HAST", -600}, {"HAT",  -150}, {"HAY",  -480}, {"HKT",  480}, {"HLV",  -270},
             {"HNA",  -240}, {"HNC",  -360}, {"HNE",  -300}, {"HNP", -480}, {"HNR",  -420},
-            {"HNT",  -150}, {"HNY",  -540}, {"HOVT",  420}, {"ICT",  420}, {"IDT",   180},
+            {"HNT",  -210}, {"HNY",  -540}, {"HOVT",  420}, {"ICT",  420}, {"IDT",   180},
             {"IOT",   360}, {"IRDT",  270}, {"IRKST", 540}, {"IRKT", 540}, {"IRST",  210},
             {"IST",   330}, {"JST",   540}, {"KGT",   360}, {"KRAST",480}, {"KRAT",  480},
             {"KST",   540}, {"KUYT",  240}, {"LHDT",  660}, {"LHST", 630}, {"LINT",  840},
-            {"MAGST", 720}, {"MAGT",  720}, {"MART", -510}, {"MAWT", 300}, {"MDT",  -360},
+            {"MAGST", 720}, {"MAGT",  720}, {"MART", -570}, {"MAWT", 300}, {"MDT",  -360},
             {"MESZ",  120}, {"MEZ",    60}, {"MHT",   720}, {"MMT",  390}, {"MSD",   240},
             {"MSK",   240}, {"MST",  -420}, {"MUT",   240}, {"MVT",  300}, {"MYT",   480},
-            {"NCT",   660}, {"NDT",   -90}, {"NFT",   690}, {"NOVST",420}, {"NOVT",  360},
-            {"NPT",   345}, {"NST",  -150}, {"NUT",  -660}, {"NZDT", 780}, {"NZST",  720},
+            {"NCT",   660}, {"NDT",  -150}, {"NFT",   690}, {"NOVST",420}, {"NOVT",  360},
+            {"NPT",   345}, {"NST",  -210}, {"NUT",  -660}, {"NZDT", 780}, {"NZST",  720},
             {"OMSST", 420}, {"OMST",  420}, {"PDT",  -420}, {"PET", -300}, {"PETST", 720},
             {"PETT",  720}, {"PGT",   600}, {"PHOT",  780}, {"PHT",  480}, {"PKT",   300},
             {"PMDT", -120}, {"PMST", -180}, {"PONT",  660}, {"PST", -480}, {"PT",   -480},
@@ -161,7 +161,7 @@ namespace utils {
             {"SAST",  120}, {"SBT",   660}, {"SCT",   240}, {"SGT",  480}, {"SRT",  -180},
             {"SST",  -660}, {"TAHT", -600}, {"TFT",   300}, {"TJT",  300}, {"TKT",   780},
             {"TLT",   540}, {"TMT",   300}, {"TVT",   720}, {"ULAT", 480}, {"UTC",     0},
-            {"UYST", -120}, {"UYT",  -180}, {"UZT",   300}, {"VET", -210}, {"VLAST", 660},
+            {"UYST", -120}, {"UYT",  -180}, {"UZT",   300}, {"VET", -270}, {"VLAST", 660},
             {"VLAT",  660}, {"VUT",   660}, {"WAST",  120}, {"WAT",   60}, {"WEST",   60},
             {"WESZ",   60}, {"WET",     0}, {"WEZ",     0}, {"WFT",  720}, {"WGST", -120},
             {"WGT",  -180}, {"WIB",   420}, {"WIT",   540}, {"WITA", 480}, {"WST",   780},
-- 
2.43.0


From 1e767b0d90093f9f554b915bbaf235ce808f3737 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 39/46] fix: range words in capital letters did not join two
 dates

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 1e670a2..1e84c6d 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -4,7 +4,7 @@
 class ENMergeDateRange : public refiners::Refiner {
 private:
     // std::regex to{R"(^\s*(and|to|\-)\s*$)"};
-    std::regex to{R"(\s*(and|to|through|\-)\s*)"};
+    std::regex to{R"(\s*(and|to|through|\-)\s*)", std::regex::icase};
 
 public:
     ENMergeDateRange() = default;
-- 
2.43.0


From 2414dd62dcb1ba57548d7e6d9bff8745d83ff097 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 40/46] fix: a holiday leaves the clock open, so that a time
 next to it counts

---
 src/parsers/en/ENUSHolidaysParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index d40f2b9..0b989ab 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -133,8 +133,9 @@
                 result.startDate.set_wDay(day.day_of_week());
             }
 
-            result.startDate.setHour(0);
-            result.startDate.setMinute(0);
+            // the holiday is a day, a time next to it may state the clock
+            result.startDate.implyComponent("hour", 0);
+            result.startDate.implyComponent("min", 0);
 
             result.setTag(utils::ENUSHolidaysParser);
             return result;
-- 
2.43.0


From 50ed30c6004c04e67063b99af05d40e80d186d79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:51 +0000
Subject: [PATCH 41/46] fix: 28 February was compared with 29 February of the
 year next to it

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 20177ef..d8faf66 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -121,6 +121,10 @@
                 gregorian::date prevY{dRef - gregorian::years(1)},
                         nextY{dRef + gregorian::years(1)};
 
+                // a year from the end of February is not the 29th, unless that is the day asked for
+                if(prevY.day() > day) prevY -= gregorian::days(1);
+                if(nextY.day() > day) nextY -= gregorian::days(1);
+
                 if(std::abs((nextY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
                     // compare the durations returned
                     dRef = nextY;
-- 
2.43.0


From 56f7823dce9c72e9cc58c818f3666c583425769d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:51 +0000
Subject: [PATCH 42/46] fix: blanks before a month name counted as part of it,
 so that it hid the day behind the month

---
 src/parsers/en/ENMonthNameParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 0804c64..3c6bdd4 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -31,8 +31,9 @@
 
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0);
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            // what precedes the month is not part of the expression
+            std::string text = match.str(0).substr(match.length(1));
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From 753b9c2545d7a088cf818c4dfcc7a175e53d5663 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:51 +0000
Subject: [PATCH 43/46] fix: a month name after a single leading blank was not
 recognised

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 3c6bdd4..627a1e4 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -20,7 +20,7 @@
         ENMonthNameParser() = default;
 
         std::regex getPattern() const override {
-            std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
+            std::regex PATTERN = std::regex(R"((^\s*|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December))"
                                     R"((?:\s*[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
-- 
2.43.0


From 75e6bb0ac7e2751f0cc7f4035bbfc37590631d6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:18:29 +0000
Subject: [PATCH 44/46] fix: deadlines of more than 2^24 units were off because
 the amount was held in single precision

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 85a1483..0af8880 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
-- 
2.43.0


From f888486bc6f5a302069ddc9c82316b611b7b8856 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:18:29 +0000
Subject: [PATCH 45/46] fix: next/last of more than 2^24 units was off because
 the amount was held in single precision

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 7ea26ee..d97eb35 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stod(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
-- 
2.43.0


From 9cee051310e7249b3a3ecf2843e130bea54f484c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:18:29 +0000
Subject: [PATCH 46/46] fix: 'ago' and 'later' with more than 2^24 units were
 off because amounts were held in single precision

---
 src/parsers/en/ENTimeAgoFormatParser.hpp |  2 +-
 src/parsers/en/ENTimeLaterParser.hpp     |  2 +-
 src/utils/utils.cpp                      | 10 +++++-----
 src/utils/utils.hpp                      |  4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2f32cd0..c1a0281 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -28,7 +28,7 @@
                 return result;
             }
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             posix_time::ptime date_t{ref};
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 08fa443..e00ec57 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,7 +32,7 @@
             if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w")))
                 return result;
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
             posix_time::ptime date_t{ref};
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index c1cc767..496fa4f 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,8 +31,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -46,9 +46,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
@@ -63,7 +63,7 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     std::string element{match[2].str()};
-    if(num == 0.5f) {
+    if(num == 0.5) {
         // half of a unit is a whole number of the unit(s) below it
         if(std::regex_search(element, std::regex("hour", std::regex::icase)))
             fragments["minute"] += 30;
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index df886df..90f7922 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -196,9 +196,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0

