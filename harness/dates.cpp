//@SRC bin_xml_types.cpp utils.cpp macros.cpp missings.cpp
// Calendar dates and times: text to number and back (V08)
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
#include <binary_xml/macros.h>
using namespace pklib_xml;
#ifndef YN
#define YN 8
#endif
// the oracle: the day number of the proleptic Gregorian calendar counted from its definition
static int leap(int y) { return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); }          // y >= 0
static int in_month(int y, int m) { static const int8_t D[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return D[m] + ((m == 2) & leap(y)); }
static int day_number(int y, int m, int d)      // y >= -4000, m concrete
{
    static const int16_t B[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    uint32_t p = (uint32_t)(y + 3999);          // whole years since the year -3999 (a multiple of 400 plus 1)
    int since = (int)(p * 365 + p / 4 - p / 100 + p / 400) + B[m] + ((m > 2) & leap(y + 4000)) + d - 1;
    return since - 2180132;                 // checked below: 1970-01-01 is day 0
}
static int two(const char *s) { return (s[0] - '0') * 10 + (s[1] - '0'); }
static void digs(char *s, int n) { for (int i = 0; i < n; i++) s[i] = (char)('0' + vh_below8(10)); }
static void put2(char *s, int v) { s[0] = (char)('0' + v / 10); s[1] = (char)('0' + v % 10); }
static void put4(char *s, int v) { put2(s, v / 100); put2(s + 2, v % 100); }
//@H date_known prop=V08 time=30
//@B date_known known days: the oracle and the code on the same well-known dates
H(date_known)
{
    static const int K[8][4] = {{1970,1,1,0}, {2000,2,29,11016}, {2000,3,1,11017}, {1969,12,31,-1}, {2106,2,7,49710}, {1600,1,1,-135140}, {1900,3,1,-25508}, {2100,3,1,47541}};
    for (int i = 0; i < 8; i++)
    {
        VH_ASSERT(day_number(K[i][0], K[i][1], K[i][2]) == K[i][3], "the oracle knows the day");
        char s[16]; put4(s, K[i][0]); s[4] = '-'; put2(s + 5, K[i][1]); s[7] = '-'; put2(s + 8, K[i][2]); s[10] = 0;
        const char *p = s; int32_t v; VH_ASSERT(ScanUnixDate(p, v) && *p == 0 && v == K[i][3], "a known date has its day number");
        char d[32]; VH_ASSERT(UnixDate2Str(v, d) == d && strcmp(s, d) == 0, "a day number has its date");
    }
    VH_REACH("known");
}
//@H date_scan prop=V08 time=200 shards=13
//@B date_scan every text dddd-mm-dd: any year 0000..9999, any month 00..99, any day 00..99
H(date_scan)
{
    debug_status = nullptr;
    int m = (int)vh_choose(13), y0 = (int)vh_choose(10), y1 = (int)vh_choose(10); char s[16];
    s[0] = (char)('0' + y0); s[1] = (char)('0' + y1); digs(s + 2, 2); s[4] = '-'; if (m) put2(s + 5, m); else { digs(s + 5, 2); vh_assume((two(s + 5) < 1) | (two(s + 5) > 12)); }
    s[7] = '-'; digs(s + 8, 2); s[10] = 0;
    int y = (y0 * 10 + y1) * 100 + two(s + 2), d = two(s + 8);
    const char *p = s; int32_t v = 0; bool ok = ScanUnixDate(p, v);
    if (m == 0) { VH_ASSERT(!ok, "a month that does not exist is refused"); VH_REACH("no month"); return; }
    int possible = (d >= 1) & (d <= in_month(y, m));
    VH_ASSERT(ok == (possible != 0), "exactly the days of the calendar are accepted");
    if (ok) { VH_ASSERT(*p == 0, "the whole date is read"); VH_ASSERT(v == day_number(y, m, d), "a date has its day number"); VH_REACH("date"); }
    else VH_REACH("no such day");
}
static const int YEARS[] = {2000, 1999, 2100, 1970, 1600, 0, 9999, 2004, 1900, 1969, 4, 2001, 400, 2399, 2400, 1601};
//@H date_print prop=V08 time=200 shards=8 defs=YN=8 tdefs=YN=16 tshards=16 ttime=800
//@B date_print every day of eight years (thorough sixteen) (leap, common, century, four-century, the years around 1970 and both ends of 0..9999), the day symbolic
H(date_print)
{
    debug_status = nullptr;
    int y = YEARS[vh_choose(YN)], n = 365 + leap(y), first = day_number(y, 1, 1), k = (int)vh_concrete64(vh_choose(12)) + 1;
    int lo = day_number(y, k, 1) - first, cnt = in_month(y, k); (void)n;
    int32_t v = first + lo + (int)vh_below8((uint32_t)cnt);
    char d[32]; VH_ASSERT(UnixDate2Str(v, d) == d, "a day number has a text");
    char w[16]; put4(w, y); w[4] = '-'; put2(w + 5, k); w[7] = '-';
    VH_ASSERT(strlen(d) == 10 && vh_eqn(d, w, 8), "the text is the year and the month of the day");
    VH_ASSERT(((uint8_t)(d[8] - '0') <= 9) & ((uint8_t)(d[9] - '0') <= 9), "the day has two digits");
    VH_ASSERT(two(d + 8) == v - first - lo + 1, "the text is the day of the number");
    VH_REACH("date");
}
static const int DAYS[8][3] = {{1970,1,1}, {2000,2,29}, {2106,2,7}, {2024,12,31}, {2106,2,6}, {2106,2,8}, {2038,1,19}, {1969,12,31}};
static int put_date(char *s, const int *D) { put4(s, D[0]); s[4] = '-'; put2(s + 5, D[1]); s[7] = '-'; put2(s + 8, D[2]); return day_number(D[0], D[1], D[2]); }
//@H time_scan prop=V08 time=200 shards=16
//@B time_scan eight dates (the ends of the 32-bit range, leap day, year end) with any two digits as hour, minute and second, after a blank or T; with any milliseconds and any zone of two digits each
H(time_scan)
{
    debug_status = nullptr;
    int c = (int)vh_choose(16), zone = (int)vh_choose(4); char s[40]; int day = put_date(s, DAYS[c & 7]); bool T = c >= 8; s[10] = T ? 'T' : ' ';
    digs(s + 11, 2); s[13] = ':'; digs(s + 14, 2); s[16] = ':'; digs(s + 17, 2); s[19] = 0;
    int h = two(s + 11), m = two(s + 14), x = two(s + 17); int64_t sec = (int64_t)day * 86400 + h * 3600 + m * 60 + x;
    bool ok = (h < 24) & (m < 60) & (x < 60) & (sec >= 0) & (sec <= 0xffffffffll);
    const char *p = s;
    if (zone == 0)
    {
        uint32_t v = 0; bool r = ScanUnixTime(p, v);
        VH_ASSERT(r == ok, "exactly the times of the 32-bit range are accepted");
        if (r) { VH_ASSERT(*p == 0 && v == (uint32_t)sec, "a date with time gives the exact Unix time"); VH_REACH("time"); } else VH_REACH("no such time");
        return;
    }
    if (!T && zone > 1) return;                      // zones belong to the T form
    s[19] = '.'; digs(s + 20, 3); s[23] = 0; int64_t want = sec * 1000 + (s[20] - '0') * 100 + two(s + 21);
    if (T && zone == 1) { s[23] = 'Z'; s[24] = 0; }
    if (zone > 1)
    {
        s[23] = zone == 2 ? '+' : '-'; digs(s + 24, 2); s[26] = ':'; digs(s + 27, 2); s[29] = 0; int zh = two(s + 24), zm = two(s + 27);
        ok = ok & (zh < 24) & (zm < 60); int64_t off = (zh * 3600 + zm * 60) * 1000ll; want = zone == 2 ? want - off : want + off;
    }
    int64_t v = 0; bool r = ScanUnixTime64msec(p, v);
    VH_ASSERT(r == ok, "exactly the possible times and zones are accepted");
    if (r) { VH_ASSERT(*p == 0 && v == want, "a date with time and milliseconds gives the exact Unix time"); VH_REACH("milliseconds"); } else VH_REACH("no such time or zone");
}
//@H time_date prop=V08 time=200 shards=15
//@B time_date every date of the years 1900..2199 with a fixed time: exactly the times of the 32-bit range are accepted, with their Unix time
H(time_date)
{
    debug_status = nullptr;
    int c = (int)vh_choose(36), m = c % 12 + 1, cc = 19 + c / 12; char s[24]; put2(s, cc); int dec = (int)vh_choose(10); s[2] = (char)('0' + dec); digs(s + 3, 1); s[4] = '-'; put2(s + 5, m); s[7] = '-'; digs(s + 8, 2); memcpy(s + 10, " 06:28:15", 10);
    int y = cc * 100 + two(s + 2), d = two(s + 8); int64_t sec = (int64_t)day_number(y, m, d) * 86400 + 6 * 3600 + 28 * 60 + 15;
    bool ok = (d >= 1) & (d <= in_month(y, m)) & (sec >= 0) & (sec <= 0xffffffffll);
    const char *p = s; uint32_t v = 0; bool r = ScanUnixTime(p, v);
    VH_ASSERT(r == ok, "exactly the times of the 32-bit range are accepted");
    if (r) { VH_ASSERT(*p == 0 && v == (uint32_t)sec, "a date with time gives the exact Unix time"); VH_REACH("time"); } else VH_REACH("no such time");
}
//@H time_print prop=V08 time=200 shards=16
//@B time_print eight days (for milliseconds before 1970 too), the first and last hours, minutes, seconds and milliseconds and those around two and three digits, case by case (a symbolic time of day is out of reach for the printers): the printed text of both time types and of UnixTime642Str
H(time_print)
{
    debug_status = nullptr;
    int c = (int)vh_choose(8), which = (int)vh_choose(5), kind = (int)vh_choose(3); const int *D = DAYS[c];
    char w[40]; int day = put_date(w, D), h = 21, m = 9, x = 58, ms = 907; w[10] = ' ';
    static const int HH[4] = {0, 9, 10, 23}, MM[4] = {0, 9, 10, 59}, SS[6] = {0, 1, 9, 10, 99, 999};
    if (which == 0) h = HH[vh_choose(4)]; else if (which == 1) m = MM[vh_choose(4)]; else if (which == 2) x = MM[vh_choose(4)]; else if (which == 3) { h = m = x = 0; ms = SS[vh_choose(6)]; if (kind == 0) ms = 0; }
    else { h = 23; m = x = 59; ms = SS[vh_choose(6)]; if (kind == 0) ms = 0; }
    int64_t sec = (int64_t)day * 86400 + h * 3600 + m * 60 + x; if (kind == 0 && (D[0] < 1970 || D[0] == 2106)) return;
    put2(w + 11, h); w[13] = ':'; put2(w + 14, m); w[16] = ':'; put2(w + 17, x); w[19] = 0; int n = 19;
    if (kind) { w[19] = '.'; w[20] = (char)('0' + ms / 100); put2(w + 21, ms % 100); w[23] = 0; n = 23; }
    alignas(8) int64_t v64 = sec * 1000 + ms; alignas(8) uint32_t v32 = (uint32_t)sec; char buf[64]; const char *r;
    if (kind == 0) r = XBT_ToString(XBT_UNIX_TIME, (char*)&v32); else if (kind == 1) r = XBT_ToString(XBT_UNIX_TIME64_MSEC, (char*)&v64); else r = UnixTime642Str(v64, buf);
    VH_ASSERT((int)strlen(r) == n && vh_eqn(r, w, n), "a time has its text");
    VH_REACH("printed");
}
//@H date_ends prop=V08 time=200 shards=8
//@B date_ends the two days before and after the turn of every year, and before and after the end of February of every year, of a whole 400-year cycle (2000..2399), case by case
H(date_ends)
{
    debug_status = nullptr;
    int y = 2000 + (int)vh_choose(400), k = (int)vh_choose(8), mar = k >= 4, lp = leap(y); k &= 3;
    int32_t v = day_number(y, mar ? 3 : 1, 1) - 2 + k; char w[16], d[32];
    if (mar) { put4(w, y); put2(w + 5, k < 2 ? 2 : 3); put2(w + 8, k < 2 ? 27 + lp + k : k - 1); }
    else { put4(w, y - (k < 2)); put2(w + 5, k < 2 ? 12 : 1); put2(w + 8, k < 2 ? 30 + k : k - 1); }
    w[4] = w[7] = '-'; w[10] = 0;
    VH_ASSERT(UnixDate2Str(v, d) == d && strlen(d) == 10 && vh_eqn(d, w, 10), "a day number has its date");
    const char *p = w; int32_t u = 0; VH_ASSERT(ScanUnixDate(p, u) && *p == 0 && u == v, "a date has its day number");
    VH_REACH("ends");
}
