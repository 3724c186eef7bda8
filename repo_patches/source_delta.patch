From 171d187d13a7534ea4280acface03f0c31cc4c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 01/47] fix: date and time scanning refuses impossible fields,
 is exact for early years and never reads past the end

---
 src/utils.cpp | 153 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 93 insertions(+), 60 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..90bd57d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -286,9 +286,13 @@ bool ScanInt(const char *&p,int &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int x = 0;
+    int64_t x = 0;
     while (isdigit(*p1))
+    {
         x = x *10 + (*(p1++) - '0');
+        if (x > 0x80000000LL) return false; // out of range
+    }
+    if (!neg && x == 0x80000000LL) return false; // out of range
     
     p = p1;
     value = (neg ? -x : x);
@@ -422,6 +426,39 @@ const int LEAP_MONTH_OFFSET[12] = {
     //    31+29+31+30+31+30+31+31+30+31+30+31,
 };
 
+static bool IsLeapYear(int year)
+{
+    return (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
+}
+
+static int DaysInMonth(int year,int month)
+{
+    if (month == 2) return IsLeapYear(year) ? 29 : 28;
+    return (month == 4 || month == 6 || month == 9 || month == 11) ? 30 : 31;
+}
+
+static int FloorDiv(int a,int b) // b > 0
+{
+    return a >= 0 ? a / b : -((b - 1 - a) / b);
+}
+
+static int DaysFromDate(int year,int month,int day)
+// number of days since 1970-01-01 in gregorian calendar
+{
+    int days = (year - 1970) * 365;
+    days += FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    days -= FloorDiv(year - 1900 - 1,100);
+    days += FloorDiv(year - 1600 - 1,400);
+    days += IsLeapYear(year) ? LEAP_MONTH_OFFSET[month-1] : MONTH_OFFSET[month-1];
+    return days + day - 1;
+}
+
+static bool ScanTwoDigits(const char *&p,int limit,int &value)
+{
+    if (!ScanInt(p,value)) return false;
+    return value >= 0 && value < limit;
+}
+
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
 bool ScanUnixTime(const char *&p,uint32_t &value)
@@ -432,53 +469,54 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     const char *beg = p;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
+    if (day < 1 || day > DaysInMonth(year,month)) return false; // no such day
 
     if (year < 1970) 
     { 
         fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
         return false;
     }
-
-    value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
-
-    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
-        value += LEAP_MONTH_OFFSET[month-1];
-    else
-        value += MONTH_OFFSET[month-1];
-    value += day - 1;
-
-    if (value > (uint32_t)MAX_DAY)
+    if (year > 2106 || DaysFromDate(year,month,day) > MAX_DAY)
     {
         fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
         return false;
     }
 
-    value *= 24*60*60;
+    uint64_t seconds = (uint64_t)DaysFromDate(year,month,day) * (24*60*60);
+    value = seconds;
 
     if (*p == '\0') return true; // end of string
     if (*p != ' ' && *p != 'T') return false;
     p++;
     
-    if (!ScanInt(p,hour)) return false;    
-    value += hour*3600;
-    if (*p == '\0') return true; // end of string
-    if (*(p++) != ':') return false;
+    if (!ScanTwoDigits(p,24,hour)) return false;    
+    seconds += hour*3600;
+    if (*p != '\0') // not end of string
+    {
+        if (*p != ':') return false;
+        p++;
 
-    if (!ScanInt(p,minute)) return false;    
-    value += minute*60;
-    if (*(p++) != ':') return false;
+        if (!ScanTwoDigits(p,60,minute)) return false;    
+        seconds += minute*60;
+        if (*p != ':') return false;
+        p++;
 
-    if (!ScanInt(p,second)) return false;    
-    value += second;
+        if (!ScanTwoDigits(p,60,second)) return false;    
+        seconds += second;
+    }
+    if (seconds > 0xffffffff)
+    {
+        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
+        return false;
+    }
+    value = seconds;
     return true;
 }
 
@@ -490,11 +528,9 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     const char *start = p;
 
     if (!ScanUnixTime(p,tm32)) return false;
-    if (*(p++) != '.') 
-    {
-        value = (int64_t)tm32*1000; // whole seconds only
-        return true;  // OK
-    }
+    value = (int64_t)tm32*1000; // whole seconds
+    if (*p != '.') return true; // OK
+    p++;
 
     if (*p < '0' || *p > '9') return false;
     int v000 = 100 * (*(p++) - '0');
@@ -503,28 +539,28 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     if (*p < '0' || *p > '9') return false;
     v000 += (*(p++) - '0');
 
+    value += v000;
+
     if (start[10] == 'T') // zone expected
     {
     // skip next decimals
         while (*p >= '0' && *p <= '9') p++;
-        if (*p == 'Z') ;// UTC
+        if (*p == 'Z') p++; // UTC
         else if (*p == '+' || *p == '-')
         {
             char sign = *(p++);
             int hour,min;
-            if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
-            {
-                if (sign == '+')
-                    tm32 -= hour*3600 + min*60; 
-                else
-                    tm32 += hour*3600 + min*60; 
-            }
+            if (!ScanTwoDigits(p,24,hour) || *p != ':') return false;
+            p++;
+            if (!ScanTwoDigits(p,60,min)) return false;
+            int64_t zone = (hour*3600 + min*60) * 1000LL;
+            if (sign == '+')
+                value -= zone; 
+            else
+                value += zone; 
         }
-            
     }
 
-    value = v000 + (int64_t)tm32 * 1000;
-
     return true;
 }
 
@@ -535,11 +571,14 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     //const char *beg = p;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
+    if (day < 1 || day > DaysInMonth(year,month)) return false; // no such day
 
     if (year < -365749 || year > 369689) 
     { 
@@ -547,17 +586,7 @@ bool ScanUnixDate(const char *&p,int32_t &value)
         return false;
     }
 
-    value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
-
-    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
-        value += LEAP_MONTH_OFFSET[month-1];
-    else
-        value += MONTH_OFFSET[month-1];
-    value += day - 1;
+    value = DaysFromDate(year,month,day);
 
     return true;
 }
@@ -600,7 +629,7 @@ char *UnixDate2Str(int32_t value,char *dst)
     int year = 2000;
 
     int y400 = value / YEARS400_TO_DAYS;
-    if (value < 0) y400--; // 1999 -> 1600..1999
+    if (value < 0 && value % YEARS400_TO_DAYS != 0) y400--; // 1999 -> 1600..1999
     value -= y400 * YEARS400_TO_DAYS;
 
 
@@ -644,13 +673,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
@@ -890,9 +919,13 @@ bool ScanIntW(char *&p,int &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int x = 0;
+    int64_t x = 0;
     while (isdigit(*p1))
+    {
         x = x *10 + (*(p1++) - '0');
+        if (x > 0x80000000LL) return false; // out of range
+    }
+    if (!neg && x == 0x80000000LL) return false; // out of range
     
     p = p1;
     value = (neg ? -x : x);
-- 
2.43.0


From f189936e523e64adbafd8c9155ee1cd227d9ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 02/47] fix: XBT_Detect yields only types which can hold the
 text, UINT32 and DOUBLE can be encoded

---
 src/bin_xml_types.cpp | 110 ++++++++++++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 30 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..127c978 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -64,6 +64,8 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
     int spaces = 0;
     int whites = 0;
     int exponent_pos = -1;
+    int mantissa_digits = 0; // digits before exponent
+    int mantissa_dots = 0;   // dots before exponent
     bool overflow64 = false;
 
     int len = 0;
@@ -76,7 +78,7 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         value += 2;
     }
 
-    for(const char *p = value;*p != '\0';p++)
+    for(const char *p = value;*p != '\0';p++,len++)
     {
         if (*p == '-')
         {
@@ -102,6 +104,8 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
             {
                 exponent_pos = len;
                 EX = 0;
+                mantissa_digits = digits;
+                mantissa_dots = dots;
                 exponent++;
             }
         }
@@ -138,63 +142,95 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
                 << " && overflow64 == " << overflow64 << "\n";
 
     if (hex_prefix == 0 && str_len >= 7 && str_len <= 15 && digits >= 4 && hexadigits == 0 && negative == 0 && dots == 3 && dashes == 0 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1 && !overflow64)
-        return XBT_IPv4;
+    {
+        const char *p = value;
+        uint32_t ip_addr;
+        if (ScanIPv4(p,ip_addr) && *p == '\0') return XBT_IPv4;
+        return XBT_STRING;
+    }
 
-    if (str_len == 10 && digits == 8 && value[4] == '-' && value[7] == '-')
-        return XBT_UNIX_DATE;
+    if (hex_prefix == 0 && str_len == 10 && digits == 8 && value[4] == '-' && value[7] == '-')
+    {
+        const char *p = value;
+        int32_t date;
+        if (ScanUnixDate(p,date) && *p == '\0') return XBT_UNIX_DATE;
+        return XBT_STRING;
+    }
 
 
 //if (hex_prefix == 0 && str_len == 11 && digits == 10 && decimals == 0 && hexadigits == 0 && negative == 1 && dots == 0 && dashes == 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1 && overflow64 == 0
 
-    if (digits > 0 && digits <= 19 && hexadigits == 0 && negative <= 1 
-            && dots == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && !overflow64)
+    if (hex_prefix == 0 && digits > 0 && digits <= 19 && hexadigits == 0 && negative <= 1 
+            && dots == 0 && dashes == negative && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && !overflow64)
     {
         if (negative == 0 && X <= 0x7fffffff) return XBT_INT32;
         if (negative == 1 && X <= 0x80000000) return XBT_INT32;
         if (negative == 0 && (X >> 32) == 0) return XBT_UINT32;
         if (negative == 0 && X > 0x7fffffffffffffff) return XBT_UINT64;
-        return XBT_INT64;
+        if (X <= 0x8000000000000000) return XBT_INT64;
     }
 //    if (hex_prefix == 1 && digits+hexdigits > 0 && hexdigits+digits <= 16 && dots == 0 && dashes == 0 && colons == 0 && others == 0 && exponent == 0 && !overflow64)
-    if (digits > 0 && dots == 1 && hexadigits == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && !overflow64)
+    if (hex_prefix == 0 && digits > 0 && digits <= 19 && dots == 1 && hexadigits == 0 && dashes == negative && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && !overflow64)
     {
-        if ((negative == 0 && X <= 0x7fffffff) || (negative == 1 && X <= 0x80000000))
-        {
-            if (decimals == 1) return XBT_INT32_DECI;
-            if (decimals == 2) return XBT_INT32_CENTI;
-            if (decimals == 3) return XBT_INT32_MILI;
-            if (decimals <= 6) return XBT_INT32_MICRO;
-            if (decimals <= 9) return XBT_INT32_NANO;
-        }
+        // value is stored multiplied by 10^decimals of type - it must fit
+        const uint64_t limit = negative == 0 ? 0x7fffffff : 0x80000000;
+        if (decimals == 1 && X <= limit) return XBT_INT32_DECI;
+        if (decimals == 2 && X <= limit) return XBT_INT32_CENTI;
+        if (decimals == 3 && X <= limit) return XBT_INT32_MILI;
+        uint64_t scaled = X;
+        for(int i = decimals;i < 6;i++) 
+            if (scaled <= limit) scaled *= 10;
+        if (decimals <= 6 && scaled <= limit) return XBT_INT32_MICRO;
+        scaled = X;
+        for(int i = decimals;i < 9;i++) 
+            if (scaled <= limit) scaled *= 10;
+        if (decimals > 3 && decimals <= 9 && scaled <= limit) return XBT_INT32_NANO;
     }
-    if (digits > 0 && hexadigits-exponent == 0 && negative <= 2
-            && dots <= 1 && dashes <= 2 && colons == 0 && others == 0 && exponent <= 1)
+    if (hex_prefix == 0 && digits > 0 && hexadigits-exponent == 0 && dashes == negative
+            && dots <= 1 && colons == 0 && others == 0 && exponent <= 1 && spaces == 0 && whites == 0
+            && (exponent == 0 || (mantissa_digits > 0 && digits > mantissa_digits && mantissa_dots == dots)))
     {
         if (EX > 38 || digits >= 8) return XBT_DOUBLE;  
         else return XBT_FLOAT;
     }
-    if (digits+hexadigits == 40 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0)
+    if (hex_prefix == 0 && str_len == 40 && digits+hexadigits == 40 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0)
     {
         //        std::cout << ANSI_BLUE_DARK "XBT_SHA1 detected in value " << value << ANSI_RESET_LF;
         return XBT_SHA1;
     }
-    if (hex_prefix == 0 && str_len == 36 && digits+hexadigits == 32 && decimals == 0 && dots == 0 && dashes == 4 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1)
+    if (hex_prefix == 0 && str_len == 36 && digits+hexadigits == 32 && decimals == 0 && dots == 0 && dashes == 4 && colons == 0 && others == 0 && spaces == 0 && whites == 0 &&
+            value[8] == '-' && value[13] == '-' && value[18] == '-' && value[23] == '-')
         return XBT_GUID;
     // 2021-06-15 22:41:40
-    if (str_len == 19 && digits == 14 && spaces == 1 && negative == 2 && colons == 2 &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':')
-        return XBT_UNIX_TIME;
+    if (str_len == 19 && digits == 14 && spaces == 1 && dashes == 2 && colons == 2 &&
+            value[4] == '-' && value[7] == '-' && value[10] == ' ' && value[13] == ':' && value[16] == ':')
+    {
+        const char *p = value;
+        uint32_t tm;
+        if (ScanUnixTime(p,tm) && *p == '\0') return XBT_UNIX_TIME;
+        return XBT_STRING;
+    }
     // 2021-06-15 22:41:40.000
-    if (str_len == 23 && digits == 17 && spaces == 1 && negative == 2 && colons == 2 &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
-        return XBT_UNIX_TIME64_MSEC;
+    if (str_len == 23 && digits == 17 && spaces == 1 && dashes == 2 && colons == 2 &&
+            value[4] == '-' && value[7] == '-' && value[10] == ' ' && value[13] == ':' && value[16] == ':' && value[19] == '.')
+    {
+        const char *p = value;
+        int64_t tm;
+        if (ScanUnixTime64msec(p,tm) && *p == '\0') return XBT_UNIX_TIME64_MSEC;
+        return XBT_STRING;
+    }
     // 2026-03-20T15:51:55.773Z
-    if (str_len == 24 && digits == 17 && spaces == 0 && negative == 2 && colons == 2 &&
+    if (str_len == 24 && digits == 17 && spaces == 0 && dashes == 2 && colons == 2 &&
             value[10] == 'T' && value[23] == 'Z' &&
             value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
-        return XBT_UNIX_TIME64_MSEC;
+    {
+        const char *p = value;
+        int64_t tm;
+        if (ScanUnixTime64msec(p,tm) && *p == '\0') return XBT_UNIX_TIME64_MSEC;
+        return XBT_STRING;
+    }
     // 2024-12-22 - was DISABLED - not fully supported yet
-    if (digits+hexadigits > 0 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0) 
+    if (hex_prefix == 0 && digits+hexadigits > 0 && ((digits+hexadigits) & 1) == 0 && whites == 0 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0) 
         return XBT_HEX;
 
     return XBT_STRING;
@@ -574,6 +610,15 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 *_wp += sizeof(uint64_t);
                 return true;
             }
+        case XBT_UINT32:
+            {
+                uint64_t v;
+                ASSERT_NO_RET_FALSE(2199,ScanUInt64(src,v) && (v >> 32) == 0);
+                AA(*_wp);
+                *reinterpret_cast<uint32_t*>(*_wp) = v;
+                *_wp += sizeof(uint32_t);
+                return true;
+            }
             
         case XBT_STRING:
             strcpy(*_wp,src);
@@ -607,6 +652,11 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             *reinterpret_cast<float*>(*_wp) = atof(src);
             *_wp += sizeof(float);
             return true;
+        case XBT_DOUBLE:
+            AA8(*_wp);
+            *reinterpret_cast<double*>(*_wp) = atof(src);
+            *_wp += sizeof(double);
+            return true;
         case XBT_UNIX_TIME:
             {
                 AA(*_wp);
@@ -622,7 +672,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
+                AA8(*_wp);
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
-- 
2.43.0


From a17326312a8e23cc0703c5e12a2e4fc295967a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 03/47] fix: 64-bit integers and negative decimals are printed
 exactly

INT64 printed -576460752303423488 as 9223372036854775808, INT64_MIN as '-',
and INT64/UINT64 left out the terminating zero; decimals lost the sign between
-1 and 0 and ABS() overflowed on INT_MIN.  A type without text leaves an empty
string behind, not the previous content of the buffer.
---
 src/bin_xml_types.cpp | 105 ++++++++++++------------------------------
 1 file changed, 29 insertions(+), 76 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 127c978..20e1cff 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -847,6 +847,15 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
     return nullptr;
 }
 
+static int dec2str(int32_t value,uint32_t divisor,int decimals,char *dst,int dst_size)
+// the sign is printed separately: it would be lost for values between -1 and 0
+{
+    uint32_t abs_value = value < 0 ? 0u - static_cast<uint32_t>(value) : static_cast<uint32_t>(value);
+
+    snprintf(dst,dst_size,"%s%u.%0*u",value < 0 ? "-" : "",abs_value / divisor,decimals,abs_value % divisor);
+    return strlen(dst);
+}
+
 int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size)
 {
     ASSERT_NO_RET_N1(1203,dst != nullptr);
@@ -864,6 +873,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
     
 
     dst[--dst_size] = '\0';
+    dst[0] = '\0'; // no text yet
     switch(type)
     {
         case XBT_NULL: 
@@ -899,50 +909,30 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             snprintf(dst,dst_size,"%d",*reinterpret_cast<const int32_t*>(data));
             return strlen(dst);
         case XBT_INT32_DECI:
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
+            if (offset > 0) return 0;
+            offset += sizeof(int32_t);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
-                return strlen(dst);
-            }
+            return dec2str(*reinterpret_cast<const int32_t*>(data),10,1,dst,dst_size);
         case XBT_INT32_CENTI:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
+            if (offset > 0) return 0;
+            offset += sizeof(int32_t);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
-                return strlen(dst);
-            }
+            return dec2str(*reinterpret_cast<const int32_t*>(data),100,2,dst,dst_size);
         case XBT_INT32_MILI:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
+            if (offset > 0) return 0;
+            offset += sizeof(int32_t);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
-                return strlen(dst);
-            }
+            return dec2str(*reinterpret_cast<const int32_t*>(data),1000,3,dst,dst_size);
         case XBT_INT32_MICRO:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
+            if (offset > 0) return 0;
+            offset += sizeof(int32_t);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
-                return strlen(dst);
-            }
+            return dec2str(*reinterpret_cast<const int32_t*>(data),1000000,6,dst,dst_size);
         case XBT_INT32_NANO:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
+            if (offset > 0) return 0;
+            offset += sizeof(int32_t);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
-                return strlen(dst);
-            }
+            return dec2str(*reinterpret_cast<const int32_t*>(data),1000000000,9,dst,dst_size);
 
         case XBT_UINT32: 
             if (offset > 0) return 0;
@@ -966,53 +956,16 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 if (offset > 0) return 0;
                 offset += sizeof(int64_t);
 
-                int64_t value = *reinterpret_cast<const int64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                if (neg) *(--d) = '-';
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%lld",static_cast<long long>(*reinterpret_cast<const int64_t*>(data)));
+                return strlen(dst);
             }
         case XBT_UINT64:
             {
                 if (offset > 0) return 0;
                 offset += sizeof(uint64_t);
 
-                uint64_t value = *reinterpret_cast<const uint64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%llu",static_cast<unsigned long long>(*reinterpret_cast<const uint64_t*>(data)));
+                return strlen(dst);
             }
         case XBT_FLOAT:
             if (offset > 0) return 0;
-- 
2.43.0


From f7481eb3b806bc4578dea806dd28be8195d5f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 04/47] fix: GUID, HEX, IPv4, DOUBLE and millisecond times are
 printed completely

GUID chunks lacked the dashes XBT_ToString prints, HEX chunks counted their
terminating zero as text and refused buffers big enough for them, the HEX
buffer of XBT_ToString was one byte short, IPv4 and DOUBLE could not be printed
and times before 1970 or before 10 o'clock were printed wrong.
---
 src/bin_xml_types.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 20e1cff..6187c8c 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -781,6 +781,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
+        case XBT_IPv4:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -822,7 +824,7 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
 
                 const char *src = reinterpret_cast<const char*>(data)+4;   
 
-                int dst_size = size * 2 + (size >> 4)+2; // each 16 bytes makes a line
+                int dst_size = size * 2 + ((size+15) >> 4)+1; // each 16 bytes makes a line
                 char *dst = XBT_Buffer(dst_size);
                 ASSERT_NO_RET_NULL(2125,dst != nullptr);
                 char *d = dst;
@@ -973,6 +975,12 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
             snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
             return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+
+            snprintf(dst,dst_size,"%.17g",*reinterpret_cast<const double*>(data));
+            return strlen(dst);
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
@@ -1004,12 +1012,18 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 //                LOG("TIME64(%p) --> %08X:%08X",data, *reinterpret_cast<const uint32_t*>(data), *(reinterpret_cast<const uint32_t*>(data)+1));
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
+                int msec = (int)(value % 1000);
                 time_t tm0 = (time_t)(value/1000);
+                if (msec < 0) // time before 1970
+                {
+                    msec += 1000;
+                    tm0--;
+                }
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
@@ -1046,7 +1060,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 src  += offset;
 
                 if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
+                ASSERT_NO_RET_N1(2126,(int)size*2+2 <= dst_size);
 
                 Hex2Str(src,size,dst);
 
@@ -1054,20 +1068,15 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return hex_len+1;
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
-                offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                if (offset > 0) return 0;
+                offset += 16;
+
+                GUID2Str(data,dst);
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From 40891c355e525a7f73e69bb47f4e3dfdb5aa607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/47] fix: a fixed decimal which does not fit its type is
 refused

A symbol whose values are joined to a type with more decimals silently stored
another number for its big values; now such values fall back to text.
---
 src/bin_xml_types.cpp | 55 ++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6187c8c..59845cb 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -505,15 +505,17 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
-static int32_t str2dec(const char *src,int decimals)
+static bool str2dec(const char *src,int decimals,int32_t &result)
+// returns false if the number cannot be stored with this count of decimals
 {
     bool neg = (*src == '-');
     if (neg) src++;
 
-    int32_t value = 0;
+    int64_t value = 0;
     while (*src >= '0' && *src <= '9')
     {
         value = value * 10 + (*src) - '0';
+        if (value > 0x80000000LL) return false; // out of range
         src++;
     }
     if (*src == '.') // decimal point
@@ -522,18 +524,38 @@ static int32_t str2dec(const char *src,int decimals)
         while (*src >= '0' && *src <= '9' && decimals > 0)
         {
             value = value * 10 + (*src) - '0';
+            if (value > 0x80000000LL) return false; // out of range
             src++;
             decimals--;
         }
+        for (;*src >= '0' && *src <= '9';src++)
+            if (*src != '0') return false; // decimals would be lost
     }
     while (decimals > 0)
     {
         value *= 10;
+        if (value > 0x80000000LL) return false; // out of range
         decimals--;
     }
 
-    if (neg) return -value;
-    return value;
+    if (neg) value = -value;
+    else if (value == 0x80000000LL) return false; // out of range
+    result = static_cast<int32_t>(value);
+    return true;
+}
+
+static bool Dec2Binary(const char *src,XML_Binary_Type type,int decimals,char **_wp)
+{
+    int32_t value;
+    if (!str2dec(src,decimals,value))
+    {
+        fprintf(stderr,"%s: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
+        return false;
+    }
+    AA(*_wp);
+    *reinterpret_cast<int32_t*>(*_wp) = value;
+    *_wp += sizeof(int32_t);
+    return true;
 }
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
@@ -553,30 +575,15 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             return true;
         
         case XBT_INT32_DECI:
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,1);
-            *_wp += sizeof(int32_t);
-            return true;
+            return Dec2Binary(src,type,1,_wp);
         case XBT_INT32_CENTI:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,2);
-            *_wp += sizeof(int32_t);
-            return true;
+            return Dec2Binary(src,type,2,_wp);
         case XBT_INT32_MILI:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,3);
-            *_wp += sizeof(int32_t);
-            return true;
+            return Dec2Binary(src,type,3,_wp);
         case XBT_INT32_MICRO:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,6);
-            *_wp += sizeof(int32_t);
-            return true;
+            return Dec2Binary(src,type,6,_wp);
         case XBT_INT32_NANO:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,9);
-            *_wp += sizeof(int32_t);
-            return true;
+            return Dec2Binary(src,type,9,_wp);
         case XBT_IPv4:     
             {
                 AA(*_wp);
-- 
2.43.0


From 139517302f112be7348101ab74217e8ff86adbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/47] fix: the joined type of values does not depend on their
 order

A text after incompatible values kept the VARIANT type, before them it gave STRING.
---
 src/bin_xml_types.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 59845cb..1b86f71 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -286,7 +286,6 @@ XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B)
 
 XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
 {
-    if (expected == XBT_VARIANT) return expected; // non compatible types
     XML_Binary_Type detected = XBT_Detect(value);
     return XBT_JoinTypes(detected,expected);
 }
-- 
2.43.0


From 18bd72ea38c472558b092a9f039a10a5405df292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 07/47] fix: base64 text is always terminated

A destination filled up to its last byte was left without the terminating zero,
so XBT_ToString of a BLOB showed left-overs of an older, longer value.
---
 src/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 90bd57d..e97f45d 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1247,6 +1247,8 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
 {
 
     char *dst_base = dst;
+    if (dst_size <= 0) return dst_base;
+    dst_size--; // terminating zero
 
     while (src_size > 0 && dst_size >= 2)
     {
@@ -1269,8 +1271,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
-        *dst = 0;
+    *dst = 0;
     return dst_base;
 }
 
-- 
2.43.0


From d8780ae83dcd59637f131d7d2a3fe639573d1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 08/47] fix: number scanners refuse numbers which do not fit

---
 src/utils.cpp | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index e97f45d..a7ab6b2 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -319,6 +319,13 @@ bool ScanIPv4(const char *&p,uint32_t &value)
     return false;
 }
 
+static bool AppendDigit(uint64_t &value,int base,int digit,uint64_t limit)
+{
+    if (value > limit / base || (value == limit / base && (uint64_t)digit > limit % base)) return false; // out of range
+    value = value * base + digit;
+    return true;
+}
+
 bool ScanInt64(const char *&p,int64_t &value)
 {
     while (isspace(*p)) p++;
@@ -328,12 +335,12 @@ bool ScanInt64(const char *&p,int64_t &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int64_t x = 0;
+    uint64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+        if (!AppendDigit(x,10,*(p1++) - '0',neg ? (uint64_t)INT64_MAX + 1 : INT64_MAX)) return false;
     
     p = p1;
-    value = (neg ? -x : x);
+    value = (neg ? 0 - x : x);
     return true;
 }
 
@@ -350,11 +357,11 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         while (*p1 != '\0')
         {
             if (*p1 >= '0' && *p1 <= '9')
-                x = (x << 4) + (*(p1++) - '0');
+                { if (!AppendDigit(x,16,*(p1++) - '0',UINT64_MAX)) return false; }
             else if (*p1 >= 'A' && *p1 <= 'F')
-                x = (x << 4) + (*(p1++) - 'A' + 10);
+                { if (!AppendDigit(x,16,*(p1++) - 'A' + 10,UINT64_MAX)) return false; }
             else if (*p1 >= 'a' && *p1 <= 'f')
-                x = (x << 4) + (*(p1++) - 'a' + 10);
+                { if (!AppendDigit(x,16,*(p1++) - 'a' + 10,UINT64_MAX)) return false; }
             else break;
         }
     }
@@ -363,7 +370,7 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+            if (!AppendDigit(x,10,*(p1++) - '0',UINT64_MAX)) return false;
     }
     
     p = p1;
@@ -381,11 +388,11 @@ bool ScanUInt64Hex(const char *&p,uint64_t &value)
     while (*p1 != '\0')
     {
         if (*p1 >= '0' && *p1 <= '9')
-            x = (x << 4) + (*(p1++) - '0');
+            { if (!AppendDigit(x,16,*(p1++) - '0',UINT64_MAX)) return false; }
         else if (*p1 >= 'A' && *p1 <= 'F')
-            x = (x << 4) + (*(p1++) - 'A' + 10);
+            { if (!AppendDigit(x,16,*(p1++) - 'A' + 10,UINT64_MAX)) return false; }
         else if (*p1 >= 'a' && *p1 <= 'f')
-            x = (x << 4) + (*(p1++) - 'a' + 10);
+            { if (!AppendDigit(x,16,*(p1++) - 'a' + 10,UINT64_MAX)) return false; }
         else break;
     }
 
@@ -941,12 +948,12 @@ bool ScanInt64W(char *&p,int64_t &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int64_t x = 0;
+    uint64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+        if (!AppendDigit(x,10,*(p1++) - '0',neg ? (uint64_t)INT64_MAX + 1 : INT64_MAX)) return false;
     
     p = p1;
-    value = (neg ? -x : x);
+    value = (neg ? 0 - x : x);
     return true;
 }
 
@@ -963,11 +970,11 @@ bool ScanUInt64W(char *&p,uint64_t &value)
         while (*p1 != '\0')
         {
             if (*p1 >= '0' && *p1 <= '9')
-                x = (x << 4) + (*(p1++) - '0');
+                { if (!AppendDigit(x,16,*(p1++) - '0',UINT64_MAX)) return false; }
             else if (*p1 >= 'A' && *p1 <= 'F')
-                x = (x << 4) + (*(p1++) - 'A' + 10);
+                { if (!AppendDigit(x,16,*(p1++) - 'A' + 10,UINT64_MAX)) return false; }
             else if (*p1 >= 'a' && *p1 <= 'f')
-                x = (x << 4) + (*(p1++) - 'a' + 10);
+                { if (!AppendDigit(x,16,*(p1++) - 'a' + 10,UINT64_MAX)) return false; }
             else break;
         }
     }
@@ -976,7 +983,7 @@ bool ScanUInt64W(char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+            if (!AppendDigit(x,10,*(p1++) - '0',UINT64_MAX)) return false;
     }
     
     p = p1;
@@ -1042,7 +1049,7 @@ int  GetInt(const char *p)
     bool neg = (*p == '-');
     if (neg) p++;
 
-    int x = 0;
+    uint64_t x = 0;
     if (p[0] == '0' && p[1] == 'x') // HEXADECIMAL !
     {
         p += 2;
@@ -1062,7 +1069,7 @@ int  GetInt(const char *p)
                 case '7':
                 case '8':
                 case '9':
-                    x = (x << 4) + *p - '0';
+                    if (!AppendDigit(x,16,*p - '0',UINT32_MAX)) return INT_NULL_VALUE;
                     break;
                 case 'A':
                 case 'B':
@@ -1070,7 +1077,7 @@ int  GetInt(const char *p)
                 case 'D':
                 case 'E':
                 case 'F':
-                    x = (x << 4) + *p - 'A' + 10;
+                    if (!AppendDigit(x,16,*p - 'A' + 10,UINT32_MAX)) return INT_NULL_VALUE;
                     break;
                 case 'a':
                 case 'b':
@@ -1078,7 +1085,7 @@ int  GetInt(const char *p)
                 case 'd':
                 case 'e':
                 case 'f':
-                    x = (x << 4) + *p - 'a' + 10;
+                    if (!AppendDigit(x,16,*p - 'a' + 10,UINT32_MAX)) return INT_NULL_VALUE;
                     break;
                 default:
                     return neg ? -x : x;
@@ -1094,7 +1101,7 @@ int  GetInt(const char *p)
         if (!isdigit(*p)) return INT_NULL_VALUE;
 
         while (isdigit(*p))
-            x = x *10 + (*(p++) - '0');
+            if (!AppendDigit(x,10,*(p++) - '0',neg ? 0x80000000u : 0x7FFFFFFFu)) return INT_NULL_VALUE;
     }
     
     return neg ? -x : x;
-- 
2.43.0


From 8f9998395113fdb7a8e56172e41108a062ce3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 09/47] fix: Int64ToStr prints the smallest number too

---
 src/utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index a7ab6b2..68a0561 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1227,17 +1227,17 @@ const char *Int64ToStr(int64_t value,char40_t buffer)
     if (buffer == nullptr) return nullptr;
 
     bool neg = (value < 0);
-    if (neg) value = -value;
+    uint64_t rest = neg ? 0 - (uint64_t)value : value;
 
     char *p = buffer + sizeof(char40_t);
     *(--p) = '\0'; // terminating symbol;
-    if (value == 0)
+    if (rest == 0)
         *(--p) = '0'; // zero
     else 
-        while (value > 0)
+        while (rest > 0)
         {
-            *(--p) = '0' + (value % 10);
-            value /= 10;
+            *(--p) = '0' + (rest % 10);
+            rest /= 10;
         }
 
     if (neg) 
-- 
2.43.0


From 9b7d05c31f53967dff211c825cc35d65c5c238ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 10/47] fix: StrWrite keeps src valid when there is no limit

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 68a0561..87387e9 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1134,7 +1134,7 @@ bool StrWrite(char *&dest,const char *dest_limit,const char *&src,const char *sr
     if (src_size > dst_space) return false; // nic neudělám a končím
     strncpy(dest,src,src_size);
     dest += src_size;
-    src = src_limit;
+    src += src_size;
     return true;
 }
 
-- 
2.43.0


From b04136797e485884047b95415e85a7cc36197798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 11/47] fix: a star in a mask matches any run of characters,
 empty one included

---
 src/utils.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 87387e9..20d6701 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -768,29 +768,25 @@ bool AdvEqual(const char *mask,const char *value)
     if (mask == nullptr) return true;
     while (*mask != '\0' && *value != '\0')
     {
-        if (*mask == *value || *mask == '?')
+        if (*mask != '*' && (*mask == *value || *mask == '?'))
         {
             mask++;
             value++;
         }
-        else if (*mask == '*' && *(mask+1) == '\0') // asterix at the end
-            return true; // ok
-        else if (*mask == '*')
-        {
-            mask++;
-            while (*mask == '*' || *mask == '?') mask++;
-
-            // I need to find the first character after *
-
-            while (*value != '\0')
-            {
-                if (*mask == *value && AdvEqual(mask+1,value+1)) return true; // found
-                value++;
-            }
-        }
+        else if (*mask == '*') break;
         else return false; // no match
 
     }
+    if (*mask == '*')
+    {
+        while (*mask == '*') mask++;
+        if (*mask == '\0') return true; // asterix at the end
+
+        // I need to find a place, where the rest after * matches
+        for (; *value != '\0'; value++)
+            if (AdvEqual(mask,value)) return true; // found
+        return false;
+    }
     return *mask == '\0' && *value == '\0'; // both strings has the same end
 }
 
-- 
2.43.0


From 8771da4abfaf1af952b99b6c5a07a143d129dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 12/47] fix: a dot in a directory name is not an extension

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 20d6701..0411a1b 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -240,6 +240,7 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
         return new_name;
     }
     const char *dot = strrchr(filepath,'.');
+    if (dot != nullptr && strchr(dot,'/') != nullptr) dot = nullptr; // dot in directory name is not extension
     int len = (dot != nullptr ? dot - filepath : strlen(filepath));
     int ext_len = strlen(extension);
 
-- 
2.43.0


From 3e093621eb47683a95f9d2ca8bfff621e2ea00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 13/47] fix: ScanStr never goes behind the end of text

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0411a1b..5e0cfee 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -738,7 +738,7 @@ bool ScanStr(const char *&p,char separator,char *value,unsigned value_size)
             }
             p++;
         }
-        if (*p == separator) p++; // sezere oddelovac!
+        if (*p != '\0') p++; // sezere oddelovac!
     }
     *d = '\0';
     return *value != '\0'; // string is not empty
-- 
2.43.0


From e8f0759b0715935a55044be1623b4a32810cecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 14/47] fix: a JSON file which cannot be parsed or has no
 content is refused

---
 src/bin_json_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..38bd5d6 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -111,6 +111,7 @@ bool Bin_json_plugin::Initialize()
 	jsmn_init(&JP);
 	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
+	if (num_tokens0 <= 0) return false; // not a JSON
 
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
-- 
2.43.0


From 3cdfe85f339095259cf42f7a6b905a1bf13e6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 15/47] fix: a JSON object whose members are not pairs of name
 and value is refused

---
 src/bin_json_plugin.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 38bd5d6..8650a1c 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,9 +13,12 @@
 namespace pklib_xml {
 
 
-static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
+static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx,int num_tokens)
 // will fill my extension of jmntok_t - total_size
+// returns -1 when members of objects are not pairs of name and value
 {
+    if (idx >= num_tokens) return -1; // value is missing
+
     int total_size = 1;
 	switch (tokens[idx].type)
 	{
@@ -25,14 +28,21 @@ static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
 		case JSMN_OBJECT:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				int key = idx+total_size;
+				if (key >= num_tokens || tokens[key].type != JSMN_STRING || tokens[key].size != 1) return -1;
+				total_size += jsmn_prepare_total_size(tokens,key,num_tokens);
+
+				int size = jsmn_prepare_total_size(tokens,idx+total_size,num_tokens);
+				if (size < 0) return -1;
+				total_size += size;
 			}
 			break;
 		case JSMN_ARRAY:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				int size = jsmn_prepare_total_size(tokens,idx+total_size,num_tokens);
+				if (size < 0) return -1;
+				total_size += size;
 			}
 			break;
 		default:
@@ -145,7 +155,7 @@ bool Bin_json_plugin::Initialize()
 
 	// 4. json filling total_size
 //	std::cout << "prepare total_size ... " << (void*)tokens << "\n" << std::flush;
-	int total_size = jsmn_prepare_total_size(tokens,0);
+	int total_size = jsmn_prepare_total_size(tokens,0,num_tokens0);
 	if (total_size != num_tokens0) 
 	{
 		std::cerr << ANSI_RED_BRIGHT "Error: jsmn_prepare_total_size() ---> " << total_size << " != " << num_tokens0 << ANSI_RESET_LF;
-- 
2.43.0


From 1c6a8c922dc4c3ef88289e1124d60a10f0438e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 16/47] fix: an element of a JSON array always gets a name

---
 src/bin_json_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8650a1c..f8f980a 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -207,7 +207,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			strncpy(last_str,source + P2->start,len);
 			
 			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			if (len > 1 && last_str[len-1] == 's')
 			{
 				last_str[len-1] = '\0';
 			}
-- 
2.43.0


From 806d092e01bac49c953088e304f71ef59a2a24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 17/47] fix: name and value of a JSON node do not share one
 buffer

---
 include/binary_xml/bin_json_plugin.h |  1 +
 src/bin_json_plugin.cpp              | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..367d8db 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -14,6 +14,7 @@ protected:
 	int		num_tokens1;
 	int		max_str_len;
 	char		*last_str;
+	char		*last_value;
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index f8f980a..83370a0 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -72,6 +72,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->tokens = nullptr;
 	this->max_str_len = 0;
 	this->last_str = nullptr;
+	this->last_value = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -86,6 +87,11 @@ Bin_json_plugin::~Bin_json_plugin()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	if (last_value != nullptr)
+	{
+		delete [] last_value;
+		last_value = nullptr;
+	}
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
@@ -173,6 +179,8 @@ bool Bin_json_plugin::Initialize()
 
 	last_str = new char[max_str_len+1+4];	// possible adding "Item"
 	last_str[max_str_len] = '\0';
+	last_value = new char[max_str_len+1];	// name and value can be used together
+	last_value[max_str_len] = '\0';
 
 	return true;
 }
@@ -262,9 +270,9 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_value,source + X->start,X->end - X->start);
+	last_value[X->end - X->start] = 0;
+	return last_value;
 }
 
 void Bin_json_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
-- 
2.43.0


From a45aef9a189fb6cbaa787fd474c3605755fa0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 18/47] fix: qsort_r2 keeps its pivot while elements move

---
 src/missings.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..36d0d8d 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -21,27 +21,31 @@ void qsort_r2(void *base, int nmemb, int size,
     if (nmemb < 2) return;
 
     char *temp = (char*)alloca(size);
+    char *test = (char*)alloca(size);   // copy of pivot - elements are moved while splitting
 #define BASE(idx) ((char*)base + (size)*(idx))
 
-    int test = nmemb / 2;
+    memcpy(test,BASE(nmemb / 2),size);
 
     int left = 0;
     int right = nmemb - 1;
-    for(;;)
+    while (left <= right)
     {
-        while (compar(BASE(left),BASE(test),arg) < 0 && left < right) left++;
-        while (compar(BASE(right),BASE(test),arg) > 0 && left < right) right--;
+        while (compar(BASE(left),test,arg) < 0) left++;
+        while (compar(BASE(right),test,arg) > 0) right--;
 
-        if (left >= right) break;
+        if (left > right) break;
 
-        memcpy(temp,BASE(left),size);
-        memcpy(BASE(left),BASE(right),size);
-        memcpy(BASE(right),temp,size);
+        if (left < right)
+        {
+            memcpy(temp,BASE(left),size);
+            memcpy(BASE(left),BASE(right),size);
+            memcpy(BASE(right),temp,size);
+        }
         left++;
         right--;
     }
 
-    qsort_r2(base, left,                size,compar,arg);
+    qsort_r2(base, right + 1,           size,compar,arg);
     qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
 #undef BASE
 }
-- 
2.43.0


From 50e3d913997e3eb63ea6f8292c8900437ea2618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 19/47] fix: replacing the only element of a list left the new
 one linked to the old one

---
 src/bin_write_plugin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..8fa88bf 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -170,8 +170,11 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    if (old_value->next != old_value->offset) // otherwise it was alone in list and new_value will be too
+    {
+        new_value->next = old_value->next;
+        new_value->prev = old_value->prev;
+    }
 
     BWE(new_value->next)->prev = new_value->offset;
     BWE(new_value->prev)->next = new_value->offset;
-- 
2.43.0


From 52cef0899a46c8c6727c7c57cec9f22626ce2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 20/47] fix: an empty symbol table can be opened for
 registration

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 8fa88bf..baa8cff 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1440,6 +1440,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 {
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
+    if (size == 0) // no names yet - table will start here
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
-- 
2.43.0


From eb907a8c398c0bda1231d568934b542cbefd560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 21/47] fix: registerTag reports success of a registration

---
 src/bin_write_plugin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index baa8cff..61de891 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2045,8 +2045,9 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 
 // allocation
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
-    char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
-    ASSERT_NO_RET_FALSE(1121,dst != 0);
+    char *start = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
+    ASSERT_NO_RET_FALSE(1121,start != 0);
+    char *dst = start;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2056,7 +2057,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
-    ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
+    ASSERT_NO_RET_FALSE(2115,start+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
 
-- 
2.43.0


From 8f5196efd3007b173f1f4f2499a8f655fb3ae741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 22/47] fix: identifiers above 127 of the writable symbol
 tables are read whole

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 61de891..002ffce 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1249,8 +1249,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = *reinterpret_cast<const int16_t*>(p);
+            p += sizeof(int16_t);
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1321,7 +1321,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = *reinterpret_cast<const int16_t*>(p);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1359,7 +1359,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = *reinterpret_cast<const int16_t*>(p);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1403,8 +1403,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = *reinterpret_cast<const int16_t*>(p);
+            p += sizeof(int16_t);
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-- 
2.43.0


From 46cc353dc26a67e47331f71827e5fcca13541fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 23/47] fix: sequential search of a name steps over the
 terminator of the previous one

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 002ffce..80bad6d 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1270,6 +1270,7 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
             // skip rest of identifier
             while(p < p_limit && *p != '\0') p++; // find end of string
             if (p >= p_limit) return -1; // not found
+            p++; // skip ASCII.NUL
 
             AA(p); // round 4B
             // next id
-- 
2.43.0


From 844df9916371a80b90a99ad3dfaed511934d95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:59 +0000
Subject: [PATCH 24/47] fix: a huge or refused allocation in the pool changes
 nothing

---
 src/bin_write_plugin.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 80bad6d..aaa95f3 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1640,9 +1640,10 @@ const char *BW_pool::getDocTypeName()
 char*  BW_pool::allocate(int size)
 {
     if (size <= 0) return 0;
-    ROUND32UP(size);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1080,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1080,size <= allocator_limit - allocator); // huge size should not overflow
+    ROUND32UP(size);
+    ASSERT_NO_RET_0(2140,size <= allocator_limit - allocator);
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -1656,13 +1657,14 @@ char*  BW_pool::allocate(int size)
 char*           BW_pool::allocate8(int size)        // 64 bit aligned value
 {
     if (size <= 0) return 0;
-    ROUND64UP(allocator);
-    ROUND64UP(size);
+    BW_offset_t offset = allocator;
+    ROUND64UP(offset);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1942,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1942,size <= allocator_limit - offset); // huge size should not overflow
+    ROUND64UP(size);
+    ASSERT_NO_RET_0(2141,size <= allocator_limit - offset);
 
-    BW_offset_t offset = allocator;
-    allocator += size;
+    allocator = offset + size;
 
     //MAXIMIZE(size,allocator);BUG!!
     memset(THIS+offset,0,size);
-- 
2.43.0


From 83d7630073c4b85c2dcb2da1ff30799833803237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 25/47] fix: UNIX_DATE is one of the 4 byte types

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..11d0a37 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32 || (type) == XBT_UNIX_DATE)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From 992442dd8608222ce19af252a89ea82f393cdc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 26/47] fix: size of SHA1 value is 20 bytes

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 1b86f71..323d712 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -411,7 +411,7 @@ int XBT_Size2(XML_Binary_Type type,int size)
             return 16;
         case XBT_SHA1:
             ASSERT_NO_RET_N1(1075,size == 0 || size == 20);
-            return 24;
+            return 20;
         case XBT_UNIX_TIME:
             //printf("XBT_UNIX_TIME: size = %d\n",size);
             ASSERT_NO_RET_N1(1076,size == 0 || size == 4);
-- 
2.43.0


From 6ca1f779c3d06fe65b44c003f3cd77cbb578b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 27/47] fix: setters of child values return the element which
 holds the value

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index aaa95f3..61bdc53 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -789,7 +789,9 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
+            if (new_item == nullptr) return nullptr; // value is not compatible, nothing changed
             replace(target,new_item);
+            target = new_item;
         }
          
     }
@@ -817,7 +819,9 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
+            if (new_item == nullptr) return nullptr; // value is not compatible, nothing changed
             replace(target,new_item);
+            target = new_item;
         }
          
     }
@@ -850,7 +854,9 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         if (to_replace)
         {
             BW_element *new_item = getPool()->tagString(id,value);
+            if (new_item == nullptr) return nullptr; // value is not compatible, nothing changed
             replace(target,new_item);
+            target = new_item;
         }
          
     }
-- 
2.43.0


From 8eedeef52879ee4186ec1d613a86068760a3758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 28/47] fix: setting no string or hash stores an empty value
 instead of crashing

---
 src/bin_write_plugin.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 61bdc53..553d319 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -847,7 +847,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
-                strcpy(dst,value); // shorter or in the same allocation size
+                strcpy(dst,value != nullptr ? value : ""); // shorter or in the same allocation size
             else
                 to_replace = true;
         }
@@ -1767,7 +1767,8 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
-    strcpy(reinterpret_cast<char*>(result+1),value);
+    if (value != nullptr)
+        strcpy(reinterpret_cast<char*>(result+1),value);
     return result;
 }
 
@@ -1793,7 +1794,8 @@ BW_element* BW_pool::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(this,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,value,20);
+    if (value != nullptr)
+        memcpy(result+1,value,20);
     return result;
 }
 
-- 
2.43.0


From 86a71ecbc88aa1399f89037df7ffb31bccf93bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 29/47] fix: tagSetTime writes only the 4 bytes of the value

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 553d319..6dc4fc9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -870,8 +870,9 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        ASSERT_NO_RET_NULL(2142,target->value_type == XBT_UNIX_TIME);
+        uint32_t *tm = reinterpret_cast<uint32_t*>(target+1);
+        *tm = (uint32_t)value;
     }
     else
     {
-- 
2.43.0


From 4d69fedeb23a7403b380b76443f016d64791401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 30/47] fix: setStr replaces longer text on its place, for
 attributes too, and keeps children

---
 src/bin_write_plugin.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 6dc4fc9..c391fb5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1045,7 +1045,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
-    if (strcmp(data_ref.content,value) == 0) return false; // no change
+    if (strcmp(data_ref.content,value != nullptr ? value : "") == 0) return false; // no change
 
     int value_len = value != nullptr ? strlen(value) : 0;
 
@@ -1058,16 +1058,18 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     }
     else // must reallocate and it is not so easy
     {
-        // remove and add
-        BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
+        // replace by new element of the same kind on the same place
+        ASSERT_NO_RET_FALSE(2143,W->makeSpace(BW2_INITIAL_FILE_SIZE+value_len*2));
+        BW_element *new_value = getPool()->new_element(static_cast<XML_Binary_Type>(value_type),value_len);
+        ASSERT_NO_RET_FALSE(2144,new_value != nullptr);
+        new_value->init(getPool(),identification,value_type,flags);
+        strcpy(new_value->getStr(),value);
 
-        parent->remove(this);
+        new_value->first_child = first_child;
+        new_value->first_attribute = first_attribute;
+        first_child = first_attribute = 0; // disconnect children
 
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
-
-        new_value->first_attribute = _first_attribute;
+        parent->replace(this,new_value);
     }
     return true;
 }
-- 
2.43.0


From 9bb7709103359b836366125fba8943fc472d4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 31/47] fix: getters of the writable form check the type of the
 stored value

---
 src/bin_write_plugin.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c391fb5..3cf4832 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -911,7 +911,7 @@ int32_t *BW_element::getInt32()
     if (THIS_IS_NULL) return nullptr;
 
 //    BW_pool             *pool = getPool();    
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol could be changed since the value was stored
     if (!XBT_IS_4(attr_type))
     {
         LOG_ERROR("[1173] +%d %s'type = %d = %s but XBT_INT32 is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
@@ -926,7 +926,7 @@ float *BW_element::getFloat()
     if (THIS_IS_NULL) return nullptr;
 
 //    BW_pool             *pool = getPool();    
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol could be changed since the value was stored
     if (attr_type != XBT_FLOAT)
     {
         LOG_ERROR("[10430] +%d %s'type = %d = %s but XBT_FLOAT is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
@@ -941,7 +941,7 @@ time_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol could be changed since the value was stored
     if (attr_type != XBT_UNIX_TIME)
     {
         LOG_ERROR("[2122] +%d %s'type = %d = %s but XBT_UNIX_TIME is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
@@ -956,8 +956,8 @@ int64_t *BW_element::getInt64()
     if (THIS_IS_NULL) return nullptr;
 
 //    BW_pool             *pool = getPool();    
-    XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC)
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol could be changed since the value was stored
+    if (attr_type != XBT_INT64 && attr_type != XBT_UNIX_TIME64_MSEC)
     {
         //ASSERT_NO_RET_NULL(2026,attr_type == XBT_INT64 || value_type == XBT_INT64);// || attr_type == XBT_VARIANT);
         LOG_ERROR("[2026] +%d %s'type = %d/%d = %s/%s but XBT_INT64/XBT_UNIX_TIME64_MSEC is expected!",
@@ -974,7 +974,7 @@ uint64_t *BW_element::getUInt64()
 {
     if (THIS_IS_NULL) return nullptr;
 
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol could be changed since the value was stored
     if (attr_type != XBT_UINT64)
     {
         LOG_ERROR("[2096] +%d %s'type = %d/%d = %s/%s but XBT_UINT64 is expected!",offset,getName(),
@@ -989,7 +989,7 @@ GUID_t *BW_element::getGUID()
 {
     if (THIS_IS_NULL) return nullptr;
 
-    XML_Binary_Type     attr_type = getSymbolType();
+    XML_Binary_Type     attr_type = static_cast<XML_Binary_Type>(value_type); // type of symbol could be changed since the value was stored
     if (attr_type != XBT_GUID)
     {
         LOG_ERROR("[10435] +%d %s'type = %d/%d = %s/%s but XBT_GUID is expected!",offset,getName(),
-- 
2.43.0


From 582763e49e9384cc5ab0b97367d905a2e2d47c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:00 +0000
Subject: [PATCH 32/47] fix: getTime gives access to the stored 4 bytes

---
 include/binary_xml/bin_write_plugin.h | 2 +-
 src/bin_write_plugin.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..6ab3b3c 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -220,7 +220,7 @@ public:
 
     int32_t     *getInt32();
     float       *getFloat();
-    time_t      *getTime();
+    uint32_t    *getTime();
     int64_t     *getInt64();
     uint64_t    *getUInt64();
     GUID_t      *getGUID();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3cf4832..61759d9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -937,7 +937,7 @@ float *BW_element::getFloat()
 }
 
 
-time_t *BW_element::getTime()
+uint32_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
@@ -948,7 +948,7 @@ time_t *BW_element::getTime()
         return nullptr;
     }
 
-    return reinterpret_cast<time_t*>(this+1); // just after this element
+    return reinterpret_cast<uint32_t*>(this+1); // just after this element
 }
 
 int64_t *BW_element::getInt64()
-- 
2.43.0


From 0c907ce6bd954a4d98f42ed8ae54417e977158a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 33/47] fix: the integrity check looks at every parameter, the
 value and the children

---
 src/bin_xml.cpp | 99 +++++++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 44 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..fac7432 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -22,14 +22,38 @@ namespace pklib_xml
 {
 
 
+static bool CheckValue(int type,const char *p,const char *end)
+// value of this type stored at p must end before the end
+{
+    if (type == XBT_NULL) return true;
+    if (p > end) return false;
+
+    size_t room = end - p;
+    if (type == XBT_STRING) 
+        return strnlen(p,room) < room; // must be terminated
+    if (XBT_IS_4(type)) 
+        return room >= 4;
+    if (XBT_IS_VARSIZE(type))
+    {
+        if (room < sizeof(int32_t)) return false;
+        int32_t size = *reinterpret_cast<const int32_t*>(p);
+        if (size < 0 || (size_t)size > room - sizeof(int32_t)) return false;
+        return type != XBT_BLOB_STRING || strnlen(p + sizeof(int32_t),size) < (size_t)size;
+    }
+    int size = XBT_FIXEDSIZE(type);
+    return size >= 0 && room >= (size_t)size;
+}
+
 bool XML_Item::Check(XB_reader *R,bool recursive) 
 // I want to check everything to be 100% sure, data are ok
 {
     if (THIS_IS_NULL) return false;  // NULL is not ok
     if (R == nullptr) return false;
     if (this < R->doc) return false; // out of space
-    if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    if (reinterpret_cast<const char *>(this)+length > reinterpret_cast<const char *>(R->doc)+R->size) return false;
+    const char *doc_end = reinterpret_cast<const char *>(R->doc)+R->size;
+    if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > doc_end) return false;
+    if (length < 0) return false;
+    if (reinterpret_cast<const char *>(this)+length > doc_end) return false;
     
     const char *p = reinterpret_cast<const char*>(this);
     const char *p0 = p;
@@ -45,7 +69,10 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
     if (name <= XTNR_LAST) return false;
     if (name >= R->tag_symbols.count) return false;
 // size check
-    if (sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t) > (unsigned)length) return false; // not safe to access params or children
+    if (paramcount < 0 || childcount < 0) return false;
+    size_t head_size = sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t);
+    if (head_size + 1 > (size_t)length) return false; // not safe to access params, children or type of value
+    const char *end = p0 + length;
 // params check
     for(int p = 0;p < paramcount;p++)
     {
@@ -56,54 +83,38 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
         if (PD->type >= XBT_LAST) return false;
     // inline parameters
         if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
+        if (XBT_IS_4(PD->type)) continue;
     // check link
         if (PD->data < 0) return false; // reference out of node is not allowed here and yet
         if (PD->data >= length) return false; // pointer out of limit
-        
-
-        switch (PD->type)
-        {
-            case XBT_STRING:
-                {
-                    int max_len = this->length - PD->data;
-                    int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
-                }
-            case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
-            case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
-            case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-            case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
-            case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
-            case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
-            case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
-            default:
-                std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
-                return false;
-        }
+        if (!CheckValue(PD->type,p0 + PD->data,end)) return false;
+    }
+// value check
+    const char *value = p0 + head_size;
+    int value_type = *reinterpret_cast<const XML_Binary_Type_Stored*>(value++);
+    int align = XBT_Align(static_cast<XML_Binary_Type>(value_type));
+    if (align == 4)
+        AA(value);
+    else if (align == 8)
+        AA8(value);
+    if (!CheckValue(value_type,value,end)) return false;
+
+// children check
+    for(int i = 0;i < childcount;i++)
+    {
+        int64_t child = getChildren()[i];
+        if ((child & 3) != 0) return false;
+    // child is inside of this node or it is whole before this node (packed reference) - so there cannot be any cycle
+        const char *c_begin = child < 0 ? reinterpret_cast<const char *>(R->doc) : p0 + sizeof(XML_Item);
+        const char *c_end = child < 0 ? p0 : end;
+        if (child < c_begin - p0 || child + (int64_t)sizeof(XML_Item) > c_end - p0) return false;
+        XML_Item *X = getChildByIndex(i);
+        if (X->length < 0 || child + X->length > c_end - p0) return false;
     }
-// TODO: check value
-
 
     if (recursive)
         for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
-        }
+            if (!getChildByIndex(i)->Check(R,true)) return false;
             
     return true;
 }
-- 
2.43.0


From e1eb8a1ef8d14413c90d016bd070db4137d2e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 34/47] fix: a 64-bit parameter is read from where it is stored

---
 src/bin_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index fac7432..8393853 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -146,7 +146,7 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(reinterpret_cast<const char *>(X)+data);
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
-- 
2.43.0


From c11b9c5befa357a816eaecf76d467151712eabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 35/47] fix: the number in a text value is taken from the node
 asked for

---
 src/bin_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 8393853..fedfc42 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -451,7 +451,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p);
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From 788d429d8d64db698d2b8ad266a33856c13d30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 36/47] fix: damaged symbol tables are refused on loading

---
 src/bin_xml.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index fedfc42..1c0379b 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -659,12 +659,13 @@ bool _XB_symbol_table::Load(XML_Item *container)
     item_container = container;
     count = container->getParamByName(XPNR_COUNT)->getInt(container);
     if (count == INT32_NULL) return false;
+    if (count < 0) return false;
     if (count == 0) return true; // ok, no symbols
 
     type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
     if (type_count == INT32_NULL)
         type_count = 0;
-
+    if (type_count < 0) return false;
     
     int32_t size = -1; // size of whole data block - reference_array & strings
     reference_array = reinterpret_cast<const relative_ptr_t*>(container->getBinary(&size));
@@ -680,6 +681,7 @@ bool _XB_symbol_table::Load(XML_Item *container)
     const char *A0 = reinterpret_cast<const char*>(type_array+type_count);  // start of string area after last item in reference_array
     const char *A1 = reinterpret_cast<const char*>(reference_array)+size;   // end of string area as begin of binary data + it's size
     if (A0 > A1) return false; // no place for strings and reference_arrays
+    if (A1 > reinterpret_cast<const char*>(container) + container->length) return false; // out of element
     for(int s = 0;s < count;s++)
     {
         const char *value = reinterpret_cast<const char*>(container) + reference_array[s];
@@ -688,6 +690,7 @@ bool _XB_symbol_table::Load(XML_Item *container)
         int max_len = A1-value;
         int len = strnlen(value,max_len);
         if (len == max_len) return false; // unterminated string
+        if (s > 0 && strcmp(getSymbol(s-1),value) >= 0) return false; // must be ordered for getID()
     }
     return true;
 }
-- 
2.43.0


From 43d51e03f1d0c9bc8f799ada5ebd489ae1aa04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:05 +0000
Subject: [PATCH 37/47] fix: an attribute of hexadecimal type is not written
 over its neighbours

---
 src/bin_xml_creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..d9f6486 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -972,7 +972,7 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     type = XBT_Detect2(param_value,type);
     int size = XBT_Size2(type,0);
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    if (size == 4 && !XBT_IS_VARSIZE(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
-- 
2.43.0


From d27d7f12fb62b914d0564aaef4fa534f3e2997f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 38/47] fix: 8-byte values keep their alignment when nodes are
 packed

---
 src/bin_xml_packer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..04eb24b 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -252,9 +252,11 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 // _x is pointer to XML_Item in destionation data2 space
 {
     AA(*_wp);
+    XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
+    // values aligned to 8 bytes must keep their alignment
+    if (X_src->name != XTNR_REFERENCE && (((*_wp-data2) ^ (_X-data)) & 4) != 0) *_wp += 4; 
     char *_x = *_wp;
     
-    XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(_x);
 
     DBG(if (X_src->name == XTNR_PARAM_SYMBOLS)
-- 
2.43.0


From b28f26f55fedabb95410ad9f4864f9d59414a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 39/47] fix: gaps between the values in the image are zeros,
 not remains of memory

---
 src/bin_xml_creator.cpp | 2 +-
 src/bin_xml_packer.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index d9f6486..e977e4d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -395,7 +395,7 @@ bool Bin_xml_creator::Make_xb()
     // 3. allocate and fill--------------------------
     src->updateFileSize();
     this->data_size_allocated = 1024 + src->getFileSize()*4;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
+    this->data = reinterpret_cast<char *>(calloc(1,data_size_allocated)); // some reserve, gaps are zeros
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
     if (this->data == nullptr)
diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 04eb24b..8b36532 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -88,7 +88,7 @@ int32_t Bin_xml_packer::Pack()
 
     DBG(std::cout << "\n===========================================================\n");
 // now i should recursively copy/repair all
-    data2 = new char [dst_file_size]; // reinterpret_cast<char *>(alloca(dst_file_size));
+    data2 = new char [dst_file_size](); // reinterpret_cast<char *>(alloca(dst_file_size));
     char *_wp = data2;
 
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(PackNode(&_wp,this->data));
-- 
2.43.0


From 7dd08e6b8b6ee05576e495ef359f01e0ede69dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:52 +0000
Subject: [PATCH 40/47] fix: the image buffer is big enough for every document

---
 include/binary_xml/bin_xml_creator.h |  4 +++
 src/bin_xml_creator.cpp              | 48 +++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..e8ee2ef 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -94,6 +94,7 @@ protected:
 // 1st pass to enumerate paramcount
     int     total_node_count;
     int     total_param_count;
+    int64_t total_value_size;
 // 2nd pass to fill tables
     const char              **symbol_table[SYMBOL_TABLES_COUNT];
     XML_Binary_Type_Stored  *symbol_table_types[SYMBOL_TABLES_COUNT];
@@ -118,6 +119,9 @@ protected:
         static void FirstPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
         static void FirstPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
 
+        void AddStringSize(const char *value);
+        int64_t getDataSizeLimit();
+
         static void SecondPassEvent(void *element,void *userdata,int deep);
         static void SecondPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
         static void SecondPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e977e4d..a99d175 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -375,6 +375,7 @@ bool Bin_xml_creator::Make_xb()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->total_value_size = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
@@ -394,7 +395,10 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
-    this->data_size_allocated = 1024 + src->getFileSize()*4;
+    int64_t data_size = 1024 + static_cast<int64_t>(src->getFileSize())*4;
+    if (data_size < getDataSizeLimit()) data_size = getDataSizeLimit();
+    ASSERT_NO_RET_FALSE(2145,data_size <= INT32_MAX);
+    this->data_size_allocated = data_size;
     this->data = reinterpret_cast<char *>(calloc(1,data_size_allocated)); // some reserve, gaps are zeros
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
@@ -536,6 +540,15 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+
+    XML_Binary_Type type = XBT_UNKNOWN;
+    int size = 0;
+    const char *bin_value = _this->src->getNodeBinValue(element,type,size);
+    if (type == XBT_UNKNOWN)
+        _this->AddStringSize(_this->src->getNodeValue(element));
+    else if (bin_value != nullptr)
+        _this->total_value_size += XBT_Size2(type,size);
+
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
     
@@ -545,12 +558,44 @@ void Bin_xml_creator::FirstPassBinParamEvent(const char *param_name,int param_id
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    if (param_value == nullptr || type == XBT_NULL) return;
+    if (type == XBT_STRING)
+        _this->AddStringSize(param_value);
+    else if (XBT_IS_VARSIZE(type))
+    {
+        AA(param_value);
+        _this->total_value_size += sizeof(int32_t) + *reinterpret_cast<const int32_t*>(param_value);
+    }
+    else
+        _this->total_value_size += XBT_Size2(type,0);
 }
 
 void Bin_xml_creator::FirstPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->AddStringSize(param_value);
+}
+
+void Bin_xml_creator::AddStringSize(const char *value)
+{
+    if (value != nullptr)
+        total_value_size += strlen(value) + 1 + sizeof(int32_t); // binary form is not bigger than this
+}
+
+int64_t Bin_xml_creator::getDataSizeLimit()
+// size of the whole image cannot be bigger
+{
+    const int ALIGN_RESERVE = 3 + 15; // alignment of node, of value with its type and place which XBT_Copy requires
+    int64_t limit = total_value_size 
+        + static_cast<int64_t>(total_node_count) * (sizeof(XML_Item) + sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored) + ALIGN_RESERVE)
+        + static_cast<int64_t>(total_param_count) * (sizeof(XML_Param_Description) + ALIGN_RESERVE);
+
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+        for(int i = 0;i < symbol_count[t];i++)
+            limit += sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored) + strlen(symbol_table[t][i]) + 1;
+    
+    return limit + strlen(src->getFilename()) + 256; // service elements
 }
 
 void Bin_xml_creator::SecondPassEvent(void *element,void *userdata,int deep)
@@ -596,6 +641,7 @@ bool Bin_xml_creator::Make_xbw()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->total_value_size = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From b563e9726a89a5bfddff07abd3dbcc94c27e84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 41/47] fix: removing a plugin moves whole registry entries

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 61759d9..3b9df47 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2982,7 +2982,8 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            plugins_count--;
+            memmove(plugins+i,plugins+i+1,(plugins_count - i) * sizeof(*plugins));
             return true;
         }
     return false;
-- 
2.43.0


From 2fccbef34aee3b70ab2d850741c8eafd491bc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:08 +0000
Subject: [PATCH 42/47] fix: an element without attributes presents none as
 text

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3b9df47..2c898e2 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2875,6 +2875,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
-- 
2.43.0


From 0299a0cb1270a0772ac607731656bac0eaf89745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:30 +0000
Subject: [PATCH 43/47] fix: tell the size of a BLOB_STRING value

---
 src/bin_write_plugin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2c898e2..f416cf2 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2821,6 +2821,8 @@ const char *BW_plugin::getNodeBinValue(void *element,XML_Binary_Type &type,int &
         size = *reinterpret_cast<int32_t*>(E+1);
     else if (type == XBT_STRING)
         size = strlen(reinterpret_cast<char*>(E+1));
+    else if (type == XBT_BLOB_STRING)
+        size = *reinterpret_cast<int32_t*>(E+1) - 1; // terminating character is counted by XBT_Size2
     else if (type == XBT_NULL)
     {
         size = 0;
-- 
2.43.0


From 93ac86eb1b6fd0eab5bec8bc73038876300d58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:49 +0000
Subject: [PATCH 44/47] fix: text attributes of a binary source are copied
 whole

---
 src/bin_xml_creator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a99d175..0d7d30d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -964,14 +964,17 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
     {
         AA(param_value);
         content_size = *reinterpret_cast<const int32_t*>(param_value);
+        if (type == XBT_BLOB_STRING) content_size--; // terminating character is counted by XBT_Size2
     }
+    else if (type == XBT_STRING)
+        content_size = strlen(param_value);
     else
     {
         int size = XBT_Size2(type,0); // empty size of type
         char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
         // bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
         
-        if (type != XBT_STRING && size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+        if (size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
         { // store parameter value directly to params.data
             ASSERT_NO_DO_NOTHING(1207,in_place_wp == reinterpret_cast<char*>(&xstore_data->params->data) + 4);
             xstore_data->params->type = type;
-- 
2.43.0


From 92afb19a130463148f9cf0a9d525192fb5988c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:32 +0000
Subject: [PATCH 45/47] fix: clearing a pool keeps the symbols wherever they
 lie

---
 src/bin_write_plugin.cpp | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index f416cf2..97f4853 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2342,28 +2342,15 @@ bool BW_plugin::Clear()
 
     // this is requested situation
     char *tags_dst = reinterpret_cast<char*>(pool+1);
-    char *params_dst = tags_dst+tags_size;
-    // Is it possible to have situatiation, which cannot be solved by this code?
     // -------[PARAMS----][TAGS------------]
-    // Yes - when between old params and new TAGS is not enough space for growth TAGS
+    // new places can overlap both old places, so names are collected outside of pool first
+    char *names = reinterpret_cast<char*>(malloc(tags_size + params_size + 1));
+    ASSERT_NO_RET_FALSE(2103,names != nullptr);
+    memcpy(names,tags_src,tags_size);
+    memcpy(names+tags_size,params_src,params_size);
+    memcpy(tags_dst,names,tags_size + params_size);
+    free(names);
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
-    { // copy params to new place
-        char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
-        ASSERT_NO_RET_FALSE(2103,params2_src);
-        memcpy(params2_src,params_src,params_size);
-        params_src = params2_src;
-    }
-    if (tags_src != tags_dst)
-    {
-        ASSERT_NO_RET_FALSE(2104,(tags_dst >= params_src + params_size) || (tags_dst + tags_size <= params_src));
-        memmove(tags_dst,tags_src,tags_size);
-    }
-    if (params_src != params_dst)
-    {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
-        memmove(params_dst,params_src,params_size);
-    }
     pool->tags.names_offset = sizeof(*pool);
     pool->tags.index = 0; // to be constructed
     pool->params.names_offset = sizeof(*pool)+tags_size;
-- 
2.43.0


From 602b6b3558a5d7a043932ad21e5d7af0209943d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:34 +0000
Subject: [PATCH 46/47] fix: positions in the header of an opened pool are
 verified before use

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 45 ++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 6ab3b3c..26f728f 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -89,6 +89,7 @@ public:
     const char      *getName(BW_pool *pool,int search_id);
     XML_Binary_Type_Stored *getType(BW_pool *pool,int search_id);
     int32_t         getNamesSize(BW_pool *pool);
+    bool            checkNames(BW_pool *pool);
     bool            check(BW_pool *pool);
     bool            Open(BW_pool *pool);
 };
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 97f4853..860cc4e 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1413,18 +1413,16 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *reinterpret_cast<const int16_t*>(p);
-            p += sizeof(int16_t);
-            if (id != prev_id+1) // don't go to other table
+            bool ok = p_limit - p > 3; // there must be place for id, type and name
+            const char *end = ok ? reinterpret_cast<const char*>(memchr(p+3,'\0',p_limit-p-3)) : nullptr;
+            if (ok) id = *reinterpret_cast<const int16_t*>(p);
+            if (end == nullptr || id != prev_id+1) // don't go to other table
             {
-                LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
+                LOG_ERROR("%s correcting max_id: %d --> %d",(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
                 max_id = prev_id;
-                p -= 2;
                 break;
             }
-            p++; // skip type
-            while(p < p_limit && *p != '\0') p++;
-            p++; // ASCII.NUL
+            p = end+1; // behind ASCII.NUL
             AA(p);
             prev_id = id;
             id++;
@@ -1432,16 +1430,27 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     return p - start_p;
 }
 
+bool BW_symbol_table_16B::checkNames(BW_pool *pool)
+// table of opened file is not trusted - names must be in used part of pool
+{
+    if (names_offset == 0) return max_id == -1;
+    return max_id >= -1 && names_offset >= (int)sizeof(*pool) && names_offset <= pool->allocator;
+}
+
 bool BW_symbol_table_16B::check(BW_pool *pool)
 {
+    int names_size = getNamesSize(pool); // wrong max_id is corrected here
     if (index == 0) return true; // OK, no index is OK
+    if (index < (int)sizeof(*pool) || index > pool->allocator) return false;
+    if (max_id >= (pool->allocator - index) / (int)sizeof(BW_offset_t)) return false;
     char *POOL = reinterpret_cast<char*>(pool);
     BW_offset_t *elements = reinterpret_cast<BW_offset_t*>(POOL+index);
-    int names_size = getNamesSize(pool);
     for(int i = 0;i <= max_id;i++)
     {
         // index reference must be in range of correct names, otherwise index is invalid
-        ASSERT_NO_RET_FALSE(2109,elements[i] >= names_offset && elements[i] < names_offset + names_size);
+        int rest = names_size - (elements[i] - names_offset) - 3; // for name with its end
+        if (elements[i] < names_offset || elements[i] >= names_offset + names_size) return false;
+        if (rest <= 0 || memchr(POOL+elements[i]+3,'\0',rest) == nullptr) return false;
     }
     return true; // OK
 }
@@ -1630,9 +1639,10 @@ const char *BW_pool::getDocTypeName()
 //    }
     if (root > getPoolSize() && root < allocator)
     {
+        // this function is used in error messages, so no assertions here
         BW_element *root = BWE(this->root);   
-        ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
-        const char *name = tags.getName(this,root->identification);    
+        if (!(root->flags & BIN_WRITE_ELEMENT_FLAG)) return "(bad root flags)";
+        const char *name = root->identification <= tags.max_id ? tags.getName(this,root->identification) : nullptr;
         if (name != nullptr) return name;
     }
 // OK, no root name - so some early stage
@@ -1854,6 +1864,8 @@ bool BW_plugin::setMaxPoolSize(int max_pool_size)
     return true;
 }
 
+#undef WORK_ID
+#define WORK_ID getFilename() // pool is not verified yet
 bool BW_plugin::Initialize()
 {
     if (initialized) return true; // no double initialize!!
@@ -1923,6 +1935,8 @@ bool BW_plugin::Initialize()
     return true;
 }
 
+#undef WORK_ID
+#define WORK_ID pool->getDocTypeName()
 bool BW_plugin::Finalize()
 {
     if (fd != -1)
@@ -1976,6 +1990,8 @@ bool BW_plugin::InitEmptyFile()
     return true;
 }
 
+#undef WORK_ID
+#define WORK_ID getFilename() // pool is not verified yet
 bool BW_plugin::CheckExistingFile(int file_size)
 {
     ASSERT_NO_RET_FALSE(1953,strcmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org") == 0);
@@ -1985,6 +2001,9 @@ bool BW_plugin::CheckExistingFile(int file_size)
     ASSERT_NO_RET_FALSE(1945,pool->allocator_limit == (int)pool->file_size);
     ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
     ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
+    ASSERT_NO_RET_FALSE(2146,pool->root == 0 || (pool->root >= (int)sizeof(*pool) && pool->root <= pool->allocator - (int)sizeof(BW_element)));
+    ASSERT_NO_RET_FALSE(2147,pool->tags.checkNames(pool));
+    ASSERT_NO_RET_FALSE(2148,pool->params.checkNames(pool));
 
     this->check_only = true;
     this->check_failures = 0;
@@ -2008,6 +2027,8 @@ bool BW_plugin::CheckExistingFile(int file_size)
 #endif
 }
 
+#undef WORK_ID
+#define WORK_ID pool->getDocTypeName()
 bool BW_plugin::makeSpace(int size)
 {
     int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
-- 
2.43.0


From baa6770bbbd15edf93094df1a837ba4096451741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:35 +0000
Subject: [PATCH 47/47] fix: print times before 1970 with the right day and
 time of day

---
 src/utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 5e0cfee..21e1439 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -698,9 +698,16 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
+    const int64_t day_msec = 1000 * 60*60*24;
+    int64_t day = value / day_msec;
+    value %= day_msec;
+    if (value < 0) // time before 1970
+    {
+        value += day_msec;
+        day--;
+    }
+    char *p = UnixDate2Str(day,dst);
     p += strlen(p);
-    value %= 1000 * 60*60*24;
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0

