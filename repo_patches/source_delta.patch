From 52a120663846d680ead676ce71948687fb2adb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 01/62] fix: do not let out-of-range numbers and dates escape
 from execute

---
 src/parsers/parsers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..adfc703 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,13 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        }
+        catch (std::logic_error& err) { // number or date out of range, nothing to report
+            std::cerr << err.what() << std::endl;
+            res = parse::ParsedResult{};
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From d378f4e55730b9111d475d8c575c8caf0741bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 02/62] fix: only report results whose dates exist

---
 src/result.cpp | 58 +++++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..0e9521c 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,37 +289,24 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // needs implementation
-    // std::time_t tmp = std::time(nullptr);
-    std::tm tmp, tmp1; // = std::gmtime(&tmp);
-
-    tmp1.tm_year = getYear();
-    tmp1.tm_mon  = getMonth()-1;
-    tmp1.tm_mday = get_mDay();
-    tmp1.tm_hour = getHour();
-    tmp1.tm_min  = getMinute();
-    tmp1.tm_sec  = getSeconds();
-
-    posix_time::ptime tmp2 = posix_time::ptime_from_tm(tmp1);
-    tmp = posix_time::to_tm(tmp2);
-
-    if(tmp.tm_year != getYear())    return false;
-    if(tmp.tm_mon  != getMonth()-1) return false;
-    if(tmp.tm_mday != get_mDay())   return false;
-    if(tmp.tm_wday != get_wDay())   return false;
-    if(tmp.tm_hour != getHour())    return false;
-    if(tmp.tm_min  != getMinute())  return false;
-
-    /*
-    if(knownValues["year"].first  == false and
-       knownValues["month"].first == false and
-       knownValues["mday"].first  == false and
-       knownValues["wday"].first  == false and
-       knownValues["hour"].first  == false and
-       knownValues["min"].first   == false and
-       knownValues["sec"].first   == false)
-        return false;*/
-
+    /**
+     * @brief checks that the components form an existing date and time of day
+     *        (hour 24 is accepted as the end of the day)
+     */
+    if(getYear()    < 1400 or getYear()    > 9999) return false;
+    if(getMonth()   < 1    or getMonth()   > 12)   return false;
+    if(get_mDay()   < 1    or get_mDay()   > 31)   return false;
+    if(getHour()    < 0    or getHour()    > 24)   return false;
+    if(getMinute()  < 0    or getMinute()  > 59)   return false;
+    if(getSeconds() < 0    or getSeconds() > 59)   return false;
+
+    try {
+        // throws if there is no such day, or if hour 24 is past the last supported day
+        date().date().year();
+    }
+    catch (std::out_of_range&) {
+        return false;
+    }
     return true;
 }
 
@@ -387,14 +374,7 @@ bool ParsedResult::hasPossibleDates() {
     /**
      * @brief checks if (*this) result contains a valid date
      */
-    if(startDate.getYear()    == 0 and startDate.getMonth()   == 0 and
-       startDate.get_mDay()   == 0 and// startDate.get_wDay()   == 0 and
-       startDate.getHour()    == 0 and startDate.getMinute()  == 0 and
-       startDate.getSeconds() == 0 and end() == false)
-        return false;
-
-    //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
-    return true;
+    return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
 }
 
 ParsedResult::~ParsedResult() { }
-- 
2.43.0


From b73d8f65b3238e2f73dbdafd22aef41e9f3874c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 03/62] fix: isCertain looks up minutes under the key they are
 stored with

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 0e9521c..c92533d 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From 5311eb013e84b6db6278df4d95e28a7110da4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 04/62] fix: unbalanced parenthesis in the weekday pattern

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..06e3888 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,10 +23,10 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From ad67b2890de46b8298ce16a02ee7db6284b9072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 05/62] fix: 'tomorrow' must not swallow the blank before a
 time word

---
 src/parsers/en/ENCasualDateParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENCasualDateParser.hpp b/src/parsers/en/ENCasualDateParser.hpp
index c51a22b..0c230e5 100644
--- a/src/parsers/en/ENCasualDateParser.hpp
+++ b/src/parsers/en/ENCasualDateParser.hpp
@@ -13,7 +13,7 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*)"
+                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday))"
                                R"(|tomorrow|tmr|yesterday))"
                                R"((\b))", std::regex::icase);
             return PATTERN;
-- 
2.43.0


From 1b18206f5cdd0712798c46fa7a5f6bcfee46e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/62] fix: holiday names match at the end of a text and with
 all their spellings

---
 src/parsers/en/ENUSHolidaysParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..0c2bcc7 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,9 +13,9 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
-                            R"((?:day)?)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas(?:\s*eve)?|)"
+                        R"(black\s*Friday))"
+                            R"((?:\s+day)?)"
                     R"((\b))", std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 957e8845c9c8597d144015fdac2cffff538491f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 07/62] fix: holiday names may be written with any number of
 blanks

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 0c2bcc7..3794bf5 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -33,7 +33,7 @@
                 result.startDate.setMonth(7);
                 result.startDate.set_mDay(4);
             }
-            else if(text.find("new year") != std::string::npos) {
+            else if(text.find("new") != std::string::npos) {
                 result.startDate.setYear(ref.date().year());
                 result.startDate.setMonth(1);
                 result.startDate.set_mDay(1);
@@ -60,7 +60,7 @@
                 }
             }
             else if(text.find("mlk") != std::string::npos or
-                       text.find(utils::toLowerCase("Martin Luther King")) != std::string::npos) {
+                       text.find("martin") != std::string::npos) {
                 //MLK day is the third Monday in Jan
                 utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                 day = thirdMondayOfJan.get_date(ref.date().year());
-- 
2.43.0


From c8670de10171ad227eeacad93544d1db220a5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 08/62] fix: black friday is the day after thanksgiving, not
 two days after

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 3794bf5..b473cdb 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From 25379ee999a98dab76b62c310c0b82f7dcc1960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 09/62] fix: 'may.' is in the month patterns but not in the
 month table

---
 src/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From 792a72f95118c896138a81fd34209b672ef004ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 10/62] fix: month pattern did not match 'jun'

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..dc4b651 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,7 +21,7 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
-- 
2.43.0


From 79e8d98bd30c039bb71f4b7460aaacd4d5a73ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 11/62] fix: index of a month name points at the name like its
 text

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index dc4b651..5ae4446 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -32,7 +32,7 @@
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(0).substr(match.length(1));
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From 27467351f3366d5d71da158f8d9aa8f80fe3c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 12/62] fix: month-day expressions neither need nor swallow a
 blank after them

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..31baa53 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm))(?![0-9]))"
                             R"((?:)"
-                                R"((?:to|\-)\s*)"
+                                R"(\s*(?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
-                                            R"(thirtieth|thirty[ -]first)\s*)"
+                                            R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})(?:\s*(BE|AD|BC))?|([0-9]{1,4})\s*(AD|BC)))"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 3aa44b9b7371b2eeec9acee6a1af2325c1c156f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 13/62] fix: read the ordinal word that ends a day range

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 31baa53..d7973c3 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -48,7 +48,7 @@
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From 33827ee702bc75cbd9d886cb84e0a2731002b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 14/62] fix: an era may be separated from its year by a blank

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 5ae4446..0514252 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -23,7 +23,7 @@
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
-- 
2.43.0


From 7773c79bcce5a130d0bde9003548cde152105d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 15/62] fix: keep the sign of offsets between -00:59 and -00:01

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..c1ff82f 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -64,7 +64,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From 1814340e49bb1fd2989a811b6eef31c343113b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 16/62] fix: uninitialised and dangling am/pm characters in
 clock ranges

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..3dad699 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{' '};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 40f0492d002a07a55793b8ca178d3e78ea9da0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 17/62] fix: an inherited pm does not move hours after noon

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 3dad699..55fccee 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
@@ -182,7 +182,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From 5a2ee65c14a0f735894ce4902a056a7524d626b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 18/62] fix: a clock time can not start in the middle of a word

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 55fccee..e12f59b 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -37,7 +37,9 @@
             std::string text = match.str(0).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
+            // a 't' inside a word or number does not introduce a time
+            if(match.str(1) == "t" and match.position(0) > 0 and
+                std::regex_match(tx.substr(match.position(0) - 1, 1), std::regex("\\w"))) {
                 return result;
             }
 
-- 
2.43.0


From 54598a5864e7d1db76a3f3dc6e5f2fe461b24dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 19/62] fix: text of a clock time starts at its index

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index e12f59b..32da565 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -34,7 +34,7 @@
 
         parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             // a 't' inside a word or number does not introduce a time
-- 
2.43.0


From 7927b86e433c883e8030fc9173b9fea6c74b0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 20/62] fix: week counts that leave the calendar are not
 wrapped around

---
 src/parsers/en/ENWeekExperessionParser.hpp |  3 +++
 src/utils/utils.cpp                        | 17 +++++++++++++++++
 src/utils/utils.hpp                        |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..900dcbf 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -35,6 +35,9 @@
                     return result;
                 }
             }
+            if(!utils::isReachable(ref, "week", match.str(2).find("last") == 0 ? -(long long) numberOfWeeks : numberOfWeeks)) {
+                return result;
+            }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
             }
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..1d1a081 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -18,6 +18,23 @@ unsigned utils::argToOrdinalValue(const std::string &arg) {
     return utils::ORDINAL_WORDS[value];
 };
 
+bool utils::isReachable(const posix_time::ptime& from, const std::string& unit, long long count) {
+    // boost does not check this and would silently wrap around;
+    // months and years count with their shortest length, boost refuses what is still too far
+    static const std::pair<const char*, long long> SECONDS[]{
+            {"month", 28 * 86400LL}, {"year", 365 * 86400LL}, {"week", 7 * 86400LL}, {"day", 86400LL},
+            {"hour", 3600LL}, {"min", 60LL}, {"sec", 1LL}};
+    static const posix_time::ptime first{gregorian::date(1400, 1, 1)},
+                                   last{gregorian::date(9999, 12, 31), posix_time::time_duration(23, 59, 59)};
+
+    for(const auto& s : SECONDS) {
+        if(unit.find(s.first) != std::string::npos)
+            return count * s.second >= (first - from).total_seconds() and
+                   count * s.second <= (last - from).total_seconds();
+    }
+    return false;
+}
+
 std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     std::string result;
     for(auto it=arg.begin(); it != arg.end(); ++it) {
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..36084ff 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -184,6 +184,9 @@ namespace utils {
 
     unsigned argToOrdinalValue(const std::string &);
 
+    // whether a moment can be moved by count units without leaving the supported calendar
+    bool isReachable(const posix_time::ptime& from, const std::string& unit, long long count);
+
     // todo: make template
     std::string keysToString(std::map<std::string, unsigned>);
 
-- 
2.43.0


From b1dc4ca0330cfa706338d1183fd485aaed89ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 21/62] fix: unknown words are not week counts and are not
 added to the number words

---
 src/parsers/en/ENWeekExperessionParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 900dcbf..52c0c16 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,11 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                auto word = utils::INTEGER_WORDS.find(match.str(4));
+                if(word == utils::INTEGER_WORDS.end()) {
                     return result;
                 }
+                numberOfWeeks = word->second;
             }
             if(!utils::isReachable(ref, "week", match.str(2).find("last") == 0 ? -(long long) numberOfWeeks : numberOfWeeks)) {
                 return result;
-- 
2.43.0


From 3f26c7a350823aacc24b8e74f0ac124f7c488d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 22/62] fix: deadline counts are exact and not wrapped around

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..38f1a3e 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
@@ -57,6 +57,10 @@
                 }
             }
 
+            if(!utils::isReachable(ref, match.str(4), static_cast<long long>(num))) {
+                return result;
+            }
+
             /* boost::date_time functions deal with long ints,
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
-- 
2.43.0


From 577c3204fbfdfdd299a996ecc11eb01c7edfddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 23/62] fix: deadlines understand the unit abbreviations their
 pattern accepts

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 25 +++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 38f1a3e..cf4e116 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -34,6 +34,13 @@
 
             std::string tmp = match.str(3);
             double num;
+            // units may be abbreviated
+            std::string unit = match.str(4);
+            unit = std::regex_replace(unit, std::regex("^sec(?!ond).*"), "second");
+            unit = std::regex_replace(unit, std::regex("^min(?!ute).*"), "minute");
+            unit = std::regex_replace(unit, std::regex("^hr.*"), "hour");
+            unit = std::regex_replace(unit, std::regex("^wk.*"), "week");
+            unit = std::regex_replace(unit, std::regex("^yr.*"), "year");
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
@@ -57,7 +64,7 @@
                 }
             }
 
-            if(!utils::isReachable(ref, match.str(4), static_cast<long long>(num))) {
+            if(!utils::isReachable(ref, unit, static_cast<long long>(num))) {
                 return result;
             }
 
@@ -66,8 +73,8 @@
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
             std::regex dwmy(("day|week|month|year"));
-            if(std::regex_search(match.str(4), dwmy)) {
-                if(match.str(4).find("day") != std::string::npos) {
+            if(std::regex_search(unit, dwmy)) {
+                if(unit.find("day") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::days(num);
                     }
@@ -84,7 +91,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(unit.find("week") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -92,7 +99,7 @@
                         tmpDate += gregorian::days(3);
                     }
                 }
-                else if(match.str(4).find("month") != std::string::npos) {
+                else if(unit.find("month") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::months(num);
                     }
@@ -100,7 +107,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(unit.find("year") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -116,7 +123,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!unit.find("hour")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -124,12 +131,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!unit.find("minute")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!unit.find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpDate.year());
-- 
2.43.0


From cf08d4597d97d420fe338c9f27b195d431e172dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 24/62] fix: short deadlines carry over midnight into the date

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index cf4e116..4f7b035 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -139,9 +139,9 @@
             } else if (!unit.find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From c78c53794bdaada923f9171add0bbfe0f643030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 25/62] fix: mark all deadline results, not only those in short
 units

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 4f7b035..49234b7 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -32,6 +32,8 @@
 
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
+            result.setTag(utils::ENDeadlineFormatParser);
+
             std::string tmp = match.str(3);
             double num;
             // units may be abbreviated
@@ -146,8 +148,6 @@
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
-            result.setTag(utils::ENDeadlineFormatParser);
-
             return result;
         }
 
-- 
2.43.0


From 2df59dde9a92077afd8a4c86fde2db88bae16eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 26/62] fix: number words in relative expressions never matched

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..160afcf 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
-- 
2.43.0


From 235855da6fb301884e8607e95c73bd82b0abe20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 27/62] fix: relative expressions understand 'min'

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 160afcf..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From 66b76534ab7de42969d9fdd9ef98c7a94d610d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 28/62] fix: relative counts are exact and not wrapped around

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 0e0ac40..523e7b4 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stoi(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
@@ -114,6 +114,10 @@
             }
 
             // not this
+            if(!utils::isReachable(ref, match.str(RELATIVE_WORD_GROUP),
+                    static_cast<long long>(match.str(MODIFIER_WORD_GROUP) == "next" ? num : -num))) {
+                return result;
+            }
             if(std::regex_search(match.str(RELATIVE_WORD_GROUP), dwmy)) {
                 result.setTag(utils::ENRelativeDateFormatParser);
                 // posix_time::ptime tmpTime{ref};
-- 
2.43.0


From 97e2aee046d562cad30fc49f4a3679e0ccf1fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 29/62] fix: half a second counts as one, as in deadlines

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 523e7b4..65cce1c 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -256,10 +256,10 @@
             }
             else if(match.str(RELATIVE_WORD_GROUP).find("second") != std::string::npos) {
                 if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                    tmpTime += posix_time::seconds(static_cast<int>(num));
+                    tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
                 }
                 else{
-                    tmpTime -= posix_time::seconds(static_cast<int>(num));
+                    tmpTime -= posix_time::seconds(static_cast<int>(ceil(num)));
                 }
             }
 
-- 
2.43.0


From 6d4f304e8b2fe8fd08dbc15e2f163e4321d161d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 30/62] fix: the patterns of 'ago' and 'later' never matched

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..68c0bec 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..a22cf1f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,8 +17,8 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 978bb99b2776443038a50705af8ca6be7c36836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 31/62] fix: 'ago' and 'later' looked for a preceding letter at
 the wrong place

The patterns begin with a word boundary, which is all the check is for.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ----
 src/parsers/en/ENTimeLaterParser.hpp     | 5 +----
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 68c0bec..e33e5b2 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -24,10 +24,6 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
-                return result;
-            }
-
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             gregorian::date date{ref.date()};
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index a22cf1f..11c132d 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -26,12 +26,9 @@
 
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(FULL_MATCH).substr(match.length(1));
+            std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
-                return result;
-
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
-- 
2.43.0


From 9a257909da962f6d39b10076662dfea247fea5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 32/62] fix: amounts in 'ago' and 'later' lost precision above
 2^24

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 2 +-
 src/utils/utils.cpp                      | 8 ++++----
 src/utils/utils.hpp                      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index e33e5b2..9e5fea8 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 11c132d..6f5a458 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -29,7 +29,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
             gregorian::date date{ref.date()};
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1d1a081..d0005f7 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -48,8 +48,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -63,9 +63,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 36084ff..077e888 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -197,9 +197,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0


From ac6ecc6f650f9e16f6d3bd5775428ee118e85ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 33/62] fix: mixed amounts in 'ago' and 'later' carry over
 midnight into the date

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 17 ++++++++---------
 src/parsers/en/ENTimeLaterParser.hpp     | 17 ++++++++---------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 9e5fea8..d5503a7 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -26,20 +26,19 @@
 
             std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
-            gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
-            // subtract each of the elements in fragments to the date/ptinme object
+            // subtract each of the elements in fragments to the ptime object
             for(const auto& a : fragments) {
                 try {
                     if(a.first == "year")
-                        date -= gregorian::years(static_cast<int> (a.second));
+                        date_t -= gregorian::years(static_cast<int> (a.second));
                     else if(a.first == "month")
-                        date -= gregorian::months(static_cast<int> (a.second));
+                        date_t -= gregorian::months(static_cast<int> (a.second));
                     else if(a.first == "week")            // this did not mean a literal week but rather a weekday
-                        date -= gregorian::weeks(a.second);
+                        date_t -= gregorian::weeks(a.second);
                     else if(a.first == "day")
-                        date -= gregorian::days(
+                        date_t -= gregorian::days(
                                 static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                     else if(a.first == "hour")
                         date_t -= posix_time::hours(static_cast<int> (a.second));
@@ -61,9 +60,9 @@
             }
             if(fragments["day"] > 0 or fragments["month"] > 0 or
                 fragments["year"] > 0 or fragments["week"] > 0) {
-                result.startDate.set_mDay(date.day());
-                result.startDate.setMonth(date.month());
-                result.startDate.setYear(date.year());
+                result.startDate.set_mDay(date_t.date().day());
+                result.startDate.setMonth(date_t.date().month());
+                result.startDate.setYear(date_t.date().year());
             }
             else {
                 /*if (fragments["week"] > 0) {
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 6f5a458..104d90f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,22 +32,21 @@
             std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             // tricky here turning the floats to ints
-            gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
-            // add each of the elements in fragments to the date/ptime object
+            // add each of the elements in fragments to the ptime object
             for(auto a : fragments) {
                 if(a.first == "year") {
-                    date += gregorian::years(static_cast<int> (a.second));
+                    date_t += gregorian::years(static_cast<int> (a.second));
                 }
                 else if(a.first == "month") {
-                    date += gregorian::months(static_cast<int> (a.second));
+                    date_t += gregorian::months(static_cast<int> (a.second));
                 }
                 else if(a.first == "week") {            // this did not mean a literal week but rather a weekday
-                    date += gregorian::weeks(a.second);
+                    date_t += gregorian::weeks(a.second);
                 }
                 else if(a.first == "day") {
-                    date += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                    date_t += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
                 }
                 else if(a.first == "hour") {
                     date_t += posix_time::hours(static_cast<int> (a.second));
@@ -67,9 +66,9 @@
             }
             if(fragments["day"] > 0 or fragments["month"] > 0 or
                 fragments["year"] > 0 or fragments["week"] > 0) {
-                result.startDate.set_mDay(date.day());
-                result.startDate.setMonth(date.month());
-                result.startDate.setYear(date.year());
+                result.startDate.set_mDay(date_t.date().day());
+                result.startDate.setMonth(date_t.date().month());
+                result.startDate.setYear(date_t.date().year());
             }
             else {
                 /*if (fragments["week"] > 0) {
-- 
2.43.0


From c7edd2fe341f1bafb4bc4d67bd9f4e5ca128a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 34/62] fix: half a unit counted as nothing in 'ago' and
 'later'

---
 src/utils/utils.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index d0005f7..6b89952 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -80,20 +80,30 @@ std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match,
     }
 
     std::string element{match[2].str()};
+    if(num == 0.5) {
+        // dates only move by whole amounts, so half a unit counts in smaller units
+        if(element.find("year") != std::string::npos)       { num = 6;  element = "month"; }
+        else if(element.find("month") != std::string::npos) { num = 15; element = "day"; }
+        else if(element.find("week") != std::string::npos)  { num = 3;  element = "day"; }
+        else if(element.find("day") != std::string::npos)   { num = 12; element = "hour"; }
+        else if(element.find("hour") != std::string::npos)  { num = 30; element = "minute"; }
+        else if(element.find("min") != std::string::npos)   { num = 30; element = "second"; }
+        else                                                  num = 1;
+    }
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
-        fragments["hour"] = num;
+        fragments["hour"] += num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-        fragments["minute"] = num;
+        fragments["minute"] += num;
     else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
-        fragments["second"] = num;
+        fragments["second"] += num;
     else if(std::regex_search(element, std::regex("week", std::regex::icase)))
-        fragments["week"] = num;
+        fragments["week"] += num;
     else if(std::regex_search(element, std::regex("day", std::regex::icase)))
-        fragments["day"] = num;
+        fragments["day"] += num;
     else if(std::regex_search(element, std::regex("month", std::regex::icase)))
-        fragments["month"] = num;
+        fragments["month"] += num;
     else if(std::regex_search(element, std::regex("year", std::regex::icase)))
-        fragments["year"] = num;
+        fragments["year"] += num;
 
     return fragments;
 }
-- 
2.43.0


From ec63a53ff3c36660c02cbadca4f2369cbb3a88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 35/62] fix: 'ago' and 'later' report nothing rather than a
 wrong date outside the calendar

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 +++-
 src/parsers/en/ENTimeLaterParser.hpp     | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index d5503a7..ac73908 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -30,6 +30,8 @@
 
             // subtract each of the elements in fragments to the ptime object
             for(const auto& a : fragments) {
+                if(!utils::isReachable(date_t, a.first, -static_cast<long long>(a.second)))
+                    return result;
                 try {
                     if(a.first == "year")
                         date_t -= gregorian::years(static_cast<int> (a.second));
@@ -49,7 +51,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 104d90f..f00e50d 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -36,6 +36,9 @@
 
             // add each of the elements in fragments to the ptime object
             for(auto a : fragments) {
+                if(!utils::isReachable(date_t, a.first, static_cast<long long>(a.second))) {
+                    return result;
+                }
                 if(a.first == "year") {
                     date_t += gregorian::years(static_cast<int> (a.second));
                 }
-- 
2.43.0


From 8cf61eaf1fb9ca9a4cfbcf3a038e34355cd7e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 36/62] fix: a zone's offset is what it is ahead of UTC, so it
 is subtracted

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index c92533d..e9a8a3a 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -398,7 +398,7 @@ std::string ParsedResult::toDate() {
     // posix_time::ptime st =  us_eastern::local_to_utc(posix_time::ptime_from_tm(date_start));
 
     if(getTag(utils::ExtractTimeZoneAbbreviation))
-        st += posix_time::minutes(startDate.getTimeZoneOffset());
+        st -= posix_time::minutes(startDate.getTimeZoneOffset());
 
     res = posix_time::to_simple_string(st);
 
@@ -412,7 +412,7 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed += posix_time::minutes(startDate.getTimeZoneOffset());
+            ed -= posix_time::minutes(startDate.getTimeZoneOffset());
 
         res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
     }
-- 
2.43.0


From 812fbbacf310ebe3eae92df269f7a8cdb143c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 37/62] fix: render the zone-adjusted end of a range, with its
 own offset

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index e9a8a3a..53c3c71 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -412,9 +412,9 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed -= posix_time::minutes(startDate.getTimeZoneOffset());
+            ed -= posix_time::minutes(endDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From 458d43ed89930b6b1059e6a8cc85d0614e7e4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 38/62] fix: the zone of a clock range applies to its end, too

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..787b00a 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(match[1].str());
-- 
2.43.0


From d1fc7ad15c88d9850523f264b1510ea25fc3c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 39/62] fix: a result with a zone spans its clock time and the
 zone

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 787b00a..7ae4e12 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -38,7 +38,7 @@ public:
                             res.endDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
+                        res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
                         res.setTag(utils::ExtractTimeZoneAbbreviation);
                     }
                 }
-- 
2.43.0


From 5f95892a24ce66c075acff0fc84d1b69f2af20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 40/62] fix: some zones of the table could never be found

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 src/utils/utils.hpp                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 7ae4e12..4e44aa6 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,4})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 077e888..6bd4746 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -134,7 +134,7 @@ namespace utils {
             {"BRT",  -180}, {"BST",    60}, {"BTT",   360}, {"CAST", 480}, {"CAT",   120},
             {"CCT",   390}, {"CDT",  -300}, {"CEST",  120}, {"CET",   60}, {"CHADT", 825},
             {"CHAST", 765}, {"CKT",  -600}, {"CLST", -180}, {"CLT", -240}, {"COT",  -300},
-            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"ChST", 600}, {"DAVT",  420},
+            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"CHST", 600}, {"DAVT",  420},
             {"EASST",-300}, {"EAST", -360}, {"EAT",   180}, {"ECT", -300}, {"EDT",  -240},
             {"EEST",  180}, {"EET",   120}, {"EGST",    0}, {"EGT",  -60}, {"EST",  -300},
             {"ET",   -300}, {"FJST",  780}, {"FJT",   720}, {"FKST",-180}, {"FKT",  -240},
-- 
2.43.0


From 175e5598ee00e348fce14b2c98f84ab1083a19c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 41/62] fix: a time range past midnight may end in the next
 month

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..1415eac 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -74,10 +74,14 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
-                if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
-                else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                static const gregorian::date last{9999, 12, 31};
+                gregorian::date next{endDateTime.date().date()};
+                if(next < last)
+                    next += gregorian::days(1);
+
+                endDateTime.isCertain("mday") ? endDateTime.set_mDay(next.day()) : endDateTime.implyComponent("mday", next.day());
+                endDateTime.isCertain("month") ? endDateTime.setMonth(next.month()) : endDateTime.implyComponent("month", next.month());
+                endDateTime.isCertain("year") ? endDateTime.setYear(next.year()) : endDateTime.implyComponent("year", next.year());
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From d47a10efa3f6f0688c784f71352e8574421a73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 42/62] fix: merging a date and a time keeps the zone of the
 time

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1415eac..cec018b 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -49,6 +49,9 @@ public:
             dateTimeComp.implyComponent("min", timeComp.getMinute());
             dateTimeComp.implyComponent("sec", timeComp.getSeconds());
         }
+        if(timeComp.isCertain("tzoffset")) {
+            dateTimeComp.setTimeZoneOffset(timeComp.getTimeZoneOffset());
+        }
         return dateTimeComp;
     }
 
-- 
2.43.0


From 3ddae1da13af460d8ebbeda1d432a0fda5301a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 43/62] fix: the last time was reported a second time after
 being merged with its date

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index cec018b..98b2074 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -128,8 +128,8 @@ public:
                 try {
                     curr = r.at(i+1);
                 }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                catch (std::out_of_range& e) { // nothing follows the merged pair
+                    curr = tmp;
                 }
                 i++;
             }
@@ -138,8 +138,8 @@ public:
                 try {
                     curr = r.at(i+1);
                 }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                catch (std::out_of_range& e) { // nothing follows the merged pair
+                    curr = tmp;
                 }
                 i++;
             }
-- 
2.43.0


From 6d158296288141dfa7a9f02590478c853d9667db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 44/62] fix: put the earlier date first when merging a range

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..be47b9d 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -53,8 +53,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From 721a4012c91ac960fbc883c526943a4a57d058e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 45/62] fix: a merged range does not cover the character after
 it

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index be47b9d..4dfe014 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -64,7 +64,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From b209f1b8c5a86a8bcf564a5922d1f4b34db44611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 46/62] fix: merging date ranges lost and duplicated results

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 4dfe014..5f36e2c 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,13 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
+                curr = i + 1 < r.size() ? r[i + 1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From ee4a5bba106a69565091caf18f5bbbdc03adcaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 47/62] fix: a malformed reference date gets the usage text
 instead of a crash

---
 time.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index 9e578a0..f5e88c5 100644
--- a/time.cpp
+++ b/time.cpp
@@ -70,7 +70,16 @@ int main(int argc, char* argv[]) {
 
     if(argc == 3) {
         string refDate = argv[2];
-        t = posix_time::time_from_string(refDate);
+        try {
+            t = posix_time::time_from_string(refDate);
+        }
+        catch (std::exception& e) { // not a date, or one that does not exist
+            t = posix_time::ptime();
+        }
+        if(t.is_special()) {
+            printUsage();
+            return 0;
+        }
     }
 
     for(auto& parser: parsers) {
-- 
2.43.0


From f8314b1226edc056ac5ccfdc2f2366d65c8ee5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 48/62] fix: a zone may move a date past the end of the
 calendar

---
 time.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/time.cpp b/time.cpp
index f5e88c5..ee35ee0 100644
--- a/time.cpp
+++ b/time.cpp
@@ -96,10 +96,19 @@ int main(int argc, char* argv[]) {
         results = refiner->refine(results, str);
     }
 
-    if(results.empty())
+    string date;
+    try {
+        if(!results.empty())
+            date = results.at(0).toDate();
+    }
+    catch (std::out_of_range& e) { // in UTC it is past the end of the calendar
+        cerr << e.what() << endl;
+    }
+
+    if(date.empty())
         cout << "[???] -- Invalid date" << endl;
     else
-        cout << "Date:\t"  << results.at(0).toDate() << endl;
+        cout << "Date:\t"  << date << endl;
 
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From c25996814c15049e2dc503196a11beed807417c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 49/62] fix: the first digits of a year are not the end of a
 day range

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index d7973c3..0622590 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -45,7 +45,7 @@
                                         R"((?:am|pm))(?![0-9]))"
                             R"((?:)"
                                 R"(\s*(?:to|\-)\s*)"
-                                    R"((([0-9]{1,2}))"
+                                    R"((([0-9]{1,2})(?![0-9]))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
-- 
2.43.0


From 4b808c7728fe104e68c3daf22a51401cb97ac121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 50/62] fix: compact times before 1:01 (0005, 0030, 100) were
 misread or dropped

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 32da565..fc597ed 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -72,7 +72,7 @@
             if(!match.str(MINUTE_GROUP).empty()) {
                 minute = std::stoi(match.str(MINUTE_GROUP));
             }
-            else if(hour > 100) {
+            else if(match.length(HOUR_GROUP) > 2 and std::isdigit(match.str(HOUR_GROUP)[0])) {
                 minute = hour % 100;
                 hour = hour / 100;
             }
@@ -147,7 +147,7 @@
                 if(!match.str(TO_MINUTE_GROUP).empty()) {
                     to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                 }
-                else if(to_hour > 100) {
+                else if(match.length(TO_HOUR_GROUP) > 2) {
                     to_minute = to_hour % 100;
                     to_hour = to_hour / 100;
                 }
-- 
2.43.0


From fda618f706830dbf2dd32dae18c4d989b219e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 51/62] fix: 'this week' is reported in the last week of the
 calendar, too

---
 src/parsers/en/ENWeekExperessionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 52c0c16..46a41af 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -36,7 +36,7 @@
                 }
                 numberOfWeeks = word->second;
             }
-            if(!utils::isReachable(ref, "week", match.str(2).find("last") == 0 ? -(long long) numberOfWeeks : numberOfWeeks)) {
+            if(match.str(2).find("this") != 0 and !utils::isReachable(ref, "week", match.str(2).find("last") == 0 ? -(long long) numberOfWeeks : numberOfWeeks)) {
                 return result;
             }
             if(match.str(2).find("last") != std::string::npos) {
-- 
2.43.0


From ff1ce97f06e569337c1186b590ca0150e350543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 52/62] fix: reading a result's mark no longer keeps the mark
 from being set later

---
 src/result.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index 53c3c71..6062b1d 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -457,8 +457,8 @@ void ParsedResult::makeEndDateValid() {
 }
 
 bool ParsedResult::getTag(utils::Modifiers m) {
-    return tags[m];
-
+    auto tag = tags.find(m);
+    return tag != tags.end() and tag->second;
 }
 
 ParsedResult& ParsedResult::operator=(ParsedResult pr) {
-- 
2.43.0


From 2b6fd71a5bd707918e77aa423df16f49ea47be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 53/62] fix: 'noon' means 12:00 in the program whether or not
 words surround it

---
 time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index ee35ee0..5417427 100644
--- a/time.cpp
+++ b/time.cpp
@@ -59,7 +59,7 @@ int main(int argc, char* argv[]) {
     shared_ptr<refiners::Refiner> mdr = make_shared<ENMergeDateRange>();
 
 
-    list<std::shared_ptr<parser::Parser> >  parsers  {ctp, dfp, dow, cdp, mme, tlp, mnp, tap, txp, iso, hol, wxp};
+    list<std::shared_ptr<parser::Parser> >  parsers  {dfp, dow, cdp, mme, tlp, mnp, tap, txp, ctp, iso, hol, wxp}; // NOTE: place ctp after txp, both know "noon"
     list<std::shared_ptr<refiners::Refiner> > refiners {olr, tza, mdt, mdr}; // NOTE: place mdt refiner before mdr refiner
 
     str = argv[1];
-- 
2.43.0


From c8ac4b3344b28b6a8b078476300dac7f77eb3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 54/62] fix: a month name after a blank at the start of the
 text is found

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 0514252..e8c9f91 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -20,7 +20,7 @@
         ENMonthNameParser() = default;
 
         std::regex getPattern() const override {
-            std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
+            std::regex PATTERN = std::regex(R"((^\s*|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
-- 
2.43.0


From 9c6c4be22b80b1174a65c91c83c329f52e395300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 55/62] fix: 'noon' after several blanks is the same 12:00 as
 after one

---
 src/parsers/en/ENCasualTimeParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENCasualTimeParser.hpp b/src/parsers/en/ENCasualTimeParser.hpp
index cc84185..12c2a33 100644
--- a/src/parsers/en/ENCasualTimeParser.hpp
+++ b/src/parsers/en/ENCasualTimeParser.hpp
@@ -15,7 +15,7 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                                   R"(((this)?\s*(morning|afternoon|evening|noon|night)))"
+                                   R"(((?:(this)\s*|\s?)(morning|afternoon|evening|noon|night)))"
                                R"((\b))", std::regex::icase);
             return PATTERN;
         }
-- 
2.43.0


From 31580b72b3d2ea827dfb743471793ab2b2ac377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 56/62] fix: a clock time no longer claims the blank behind it,
 so the next expression keeps its place

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index fc597ed..3c5bc15 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -26,7 +26,7 @@
                                  R"(?(\d{1,4}|noon|midnight)(?:(?:\.|\:|\：)(\d{1,2})(?:(?:\:|\：))"
                                  R"((\d{2})(?:\.(\d{1,6}))?)?)?(?:\s*(A\.M\.?|P\.M\.?|AM?|PM?|)"
                                  R"(O\W*CLOCK))?(?=\W|$))"
-                                 R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
+                                 R"(((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
                                  R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b))?)", std::regex::icase);
             return PATTERN;
-- 
2.43.0


From 1d73fff18171adb54bf38ce396db0b7f96324ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 57/62] fix: a weekday claims no blanks before or behind it, so
 a neighbouring time is not dropped

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 06e3888..03571d3 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -22,10 +22,10 @@
         std::regex getPattern() const override {
             static const std::regex PATTERN {
                 R"((\b))"
-                    R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?)"
+                    R"((?:(?:(earl(?:ier|y)|late)\s*)?)"
+                        R"((this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
-                                R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
+                                R"((?:\s*(this|last|next)(?:\s*(week))?)?)"
                 R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
-- 
2.43.0


From 6d089c02d1e583296d910106fa735641d84c6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 58/62] fix: 'june 2012 5pm' reads 2012 as the year of the
 month when another expression follows

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index e8c9f91..ba656ba 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -23,7 +23,7 @@
             std::regex PATTERN = std::regex(R"((^\s*|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?(?!\w)|(?=[^\s\w]|\s+[^0-9]|\s+$|$)))",
                                     std::regex::icase);
 
             return PATTERN;
-- 
2.43.0


From 30ae9edb8301e6623d442b112cd3a2f74792fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 59/62] fix: a range between weekdays ('monday to friday') is
 not swallowed as a date and its time

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 98b2074..05a5e7c 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -15,7 +15,8 @@ public:
     }
 
     bool isTimeOnly(parse::ParsedResult& r) {
-        return !r.startDate.isCertain("month") and !r.startDate.isCertain("mday");
+        return !r.startDate.isCertain("month") and !r.startDate.isCertain("mday")
+            and !r.getTag(utils::ENDayOfTheWeekParser); // a weekday names a day
     }
 
     bool isAbleToMerge(std::string text, parse::ParsedResult& prev, parse::ParsedResult& curr) {
-- 
2.43.0


From 578cab7b540c5751af85dfa2c6aa913db21015dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 60/62] fix: a time zone before punctuation or blanks at the
 end of a sentence is applied

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 4e44aa6..fc50719 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -3,7 +3,7 @@
 
 #include "refiner.hpp"
 
-#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})\\)?(?=\\W|$)"
+#define TIMEZONE_NAME_PATTERN "^\\s*\\(?([A-Z]{2,5})(?:\\)|(?=[^\\w\\s]|\\s*$))"
 
 class ExtractTimeZoneAbbreviation : public refiners::Refiner {
 public:
@@ -24,7 +24,7 @@ public:
                     std::cerr << e.what() << std::endl;
                     continue;
                 }
-                if(std::regex_match(tmp, match, std::regex(TIMEZONE_NAME_PATTERN, std::regex::icase))) {
+                if(std::regex_search(tmp, match, std::regex(TIMEZONE_NAME_PATTERN, std::regex::icase))) {
                     std::string tzAbbrev = utils::toUpperCase(match[1].str());
 
                     if(utils::DEFAULT_TIMEZONE_ABBR_MAP.find(tzAbbrev) != utils::DEFAULT_TIMEZONE_ABBR_MAP.end()) {
-- 
2.43.0


From 9e676fa839749f3ca109f9afc2a4ab5b0de14c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 61/62] fix: a year that comes out as -1 (1 BC, 542 BE) is read
 as no year at all

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 2 +-
 src/parsers/en/ENMonthNameParser.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 0622590..44be548 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -111,7 +111,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(year_s != "-1") {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index ba656ba..f377751 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -61,7 +61,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(!match.str(YEAR__GROUP).empty()) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
-- 
2.43.0


From 70c4d692248f183833529515aa1fd5dc028fbef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 62/62] fix: keep equally placed results in parser order
 however many there are

---
 time.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index 5417427..8d1091e 100644
--- a/time.cpp
+++ b/time.cpp
@@ -2,6 +2,7 @@
 #include <iostream>
 #include <string>
 #include <memory>
+#include <algorithm>
 
 #include "src/parsers/en/ENISOFormatParser.hpp"
 #include "src/parsers/en/ENTimeLaterParser.hpp"
@@ -87,7 +88,7 @@ int main(int argc, char* argv[]) {
         results.insert(results.end(), p_result.begin(), p_result.end());
     }
 
-    std::sort(results.begin(), results.end(),
+    std::stable_sort(results.begin(), results.end(),
             [&](parse::ParsedResult p1, parse::ParsedResult p2) {
                 return p1.getIndex() < p2.getIndex();
     });
-- 
2.43.0

