//@SRC bin_xml_types.cpp utils.cpp macros.cpp missings.cpp
#include "vh.h"
#include <string.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
#include <binary_xml/macros.h>
using namespace pklib_xml;
#ifndef DHI
#define DHI 8
#define NUMD 11
#define NSH 12
#endif
static int dig(char c) { return c >= '0' && c <= '9'; }
static int hexv(char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
struct Num { int ok; uint64_t x; int dots, decimals, digits, neg; };
// [-] digits with at most one dot
static Num number(const char *s, int n)
{
    Num r = {1, 0, 0, 0, 0, 0};
    for (int i = 0; i < n; i++)
    {
        char c = s[i];
        if (dig(c)) { r.x = r.x * 10 + (uint64_t)(c - '0'); r.digits++; if (r.dots) r.decimals++; }
        else if (c == '-' && i == 0) r.neg = 1;
        else if (c == '.') r.dots++;
        else r.ok = 0;
    }
    if (r.digits == 0 || r.dots > 1) r.ok = 0;
    return r;
}
// [-] digits [. digits] [E [-] digits]
static int isfloat(const char *s, int n)
{
    int ok = 1, m = 0, e = 0, ed = 0, dots = 0;
    for (int i = 0; i < n; i++)
    {
        char c = s[i];
        int prevE = i > 0 && (s[i-1] == 'E' || s[i-1] == 'e');
        if (dig(c)) { if (e) ed++; else m++; }
        else if (c == '-') { if (!(i == 0 || prevE)) ok = 0; }
        else if (c == '.') { dots++; if (e) ok = 0; }
        else if (c == 'E' || c == 'e') e++;
        else ok = 0;
    }
    if (m == 0 || e > 1 || dots > 1 || (e && ed == 0)) ok = 0;
    return ok;
}
static bool encode(const char *s, XML_Binary_Type t, char *out, int size, char *&end)
{
    char *wp = out; bool ok = XBT_FromString(s, t, &wp, out + size); end = wp; return ok;
}

// what the shape of a text must be for the type it is detected as (values are checked by the other harnesses)
static void check_shape(const char *s, int n, XML_Binary_Type t)
{
    switch (t)
    {
    case XBT_INT32: case XBT_UINT32: case XBT_INT64: case XBT_UINT64:
        {
            int ok = 1, dg = 0;
            for (int i = 0; i < n; i++) { if (dig(s[i])) dg++; else if (!(s[i] == '-' && i == 0)) ok = 0; }
            VH_ASSERT(ok & (dg > 0), "a text detected as an integer is an optional minus sign and digits");
            VH_REACH("integer");
            break;
        }
    case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO:
        {
            int D = t == XBT_INT32_DECI ? 1 : t == XBT_INT32_CENTI ? 2 : t == XBT_INT32_MILI ? 3 : t == XBT_INT32_MICRO ? 6 : 9;
            int ok = 1, dg = 0, dots = 0, dec = 0;
            for (int i = 0; i < n; i++) { if (dig(s[i])) { dg++; if (dots) dec++; } else if (s[i] == '.') dots++; else if (!(s[i] == '-' && i == 0)) ok = 0; }
            VH_ASSERT(ok & (dg > 0) & (dots == 1), "a text detected as a fixed decimal is an optional minus sign, digits and one decimal point");
            VH_ASSERT(dec <= D, "a fixed decimal type has room for all decimals of the text");
            VH_REACH("decimal");
            break;
        }
    case XBT_FLOAT: case XBT_DOUBLE:
        VH_ASSERT(isfloat(s, n), "a text detected as a floating point number is one");
        VH_REACH("float");
        break;
    case XBT_IPv4:
        {
            int dots = 0, dg = 0, ok = 1;
            for (int i = 0; i < n; i++) { if (dig(s[i])) dg = 1; else if (s[i] == '.') { if (!dg) ok = 0; dg = 0; dots++; } else ok = 0; }
            VH_ASSERT(ok & dg & (dots == 3), "a text detected as an address is four numbers with dots between them");
            VH_REACH("address");
            break;
        }
    case XBT_HEX: case XBT_SHA1: case XBT_GUID:
        {
            int bad = 0;
            for (int i = 0; i < n; i++)
                if (t == XBT_GUID && (i == 8 || i == 13 || i == 18 || i == 23)) bad |= s[i] != '-';
                else bad |= hexv(s[i]) < 0;
            VH_ASSERT(!bad, "a text detected as hexadecimal is made of hexadecimal digits");
            VH_ASSERT(t == XBT_SHA1 ? n == 40 : t == XBT_GUID ? n == 36 : n % 2 == 0, "a text detected as hexadecimal has the digits of whole bytes");
            VH_REACH("hex");
            break;
        }
    case XBT_UNIX_DATE: case XBT_UNIX_TIME: case XBT_UNIX_TIME64_MSEC:
        {
            const char *f = n == 10 ? "dddd-dd-dd" : n == 19 ? "dddd-dd-dd dd:dd:dd" : n == 23 ? "dddd-dd-dd dd:dd:dd.ddd" : n == 24 ? "dddd-dd-ddTdd:dd:dd.dddZ" : "";
            VH_ASSERT(n == (t == XBT_UNIX_DATE ? 10 : t == XBT_UNIX_TIME ? 19 : n == 24 ? 24 : 23), "a text detected as a date or time has the length of one");
            int bad = 0;
            for (int i = 0; i < n; i++) bad |= f[i] == 'd' ? !dig(s[i]) : s[i] != f[i];
            VH_ASSERT(!bad, "a text detected as a date or time has the shape of one");
            VH_REACH("time");
            break;
        }
    case XBT_STRING: VH_REACH("string"); break;
    case XBT_NULL: VH_ASSERT(n == 0, "only the empty text is detected as no value"); break;
    default: VH_ASSERT(false, "detection yields a type that can hold a text");
    }
}
//@H det_any prop=V02 time=150 merge=1 shards=8 tdefs=DHI=10,NUMD=19,NSH=21 tshards=10 ttime=800
//@B det_any every text of 1..8 bytes (1..10 thorough), all non-zero byte values: the text has the shape its detected type promises
H(det_any)
{
    debug_status = nullptr;
    char s[DHI + 1]; int n = vh_len(1, DHI); vh_str(s, n);
    check_shape(s, n, XBT_Detect(s));
}
static void digits(char *&p, int n) { for (int i = 0; i < n; i++) *p++ = '0' + vh_below8(10); }
// numbers: the shape is chosen, every digit is arbitrary
//@H det_num prop=V02 time=150 shards=12 tshards=21 ttime=800
//@B det_num every number [-]digits[.digits] of 1..11 digits (1..20 thorough): it is detected as a number, fits the type, and the stored number is the one in the text
H(det_num)
{
    debug_status = nullptr;
    char s[32], *p = s;
    int total = 1 + (int)vh_choose(NSH - 1), neg = (int)vh_choose(2), dec = (int)vh_choose((uint32_t)total + 2) - 1;   // dec = -1: no point
    if (neg) *p++ = '-';
    digits(p, dec < 0 ? total : total - dec);
    if (dec >= 0) { *p++ = '.'; digits(p, dec); }
    *p = 0; int n = p - s;
    XML_Binary_Type t = XBT_Detect(s);
    uint64_t x = 0; int over = 0;
    for (int i = 0; i < n; i++) if (dig(s[i])) { uint64_t d = (uint64_t)(s[i] - '0'); if (total > 18) over |= (x > 1844674407370955161ull) | ((x == 1844674407370955161ull) & (d > 5)); x = x * 10 + d; }
    alignas(16) char out[32]; char *end;
    if (t == XBT_INT32 || t == XBT_UINT32 || t == XBT_INT64 || t == XBT_UINT64)
    {
        VH_ASSERT(dec < 0, "an integer type does not drop a decimal point");
        VH_ASSERT(!over, "a number detected as an integer fits 64 bits");
        if (t == XBT_INT32) VH_ASSERT(neg ? x <= 0x80000000ull : x <= 0x7fffffffull, "a number detected as 32 bit signed fits it");
        if (t == XBT_UINT32) VH_ASSERT(!neg && x <= 0xffffffffull, "a number detected as 32 bit unsigned fits it");
        if (t == XBT_INT64) VH_ASSERT(neg ? x <= 0x8000000000000000ull : x <= 0x7fffffffffffffffull, "a number detected as 64 bit signed fits it");
        if (t == XBT_UINT64) VH_ASSERT(!neg, "a negative number is not detected as unsigned");
        VH_ASSERT(encode(s, t, out, sizeof(out), end), "a text detected as an integer can be encoded as one");
        int64_t v;
        if (t == XBT_INT32) v = *(int32_t*)out; else if (t == XBT_UINT32) v = *(uint32_t*)out; else v = *(int64_t*)out;
        VH_ASSERT((uint64_t)v == (neg ? 0 - x : x), "the integer stored is the number in the text");
        VH_ASSERT(end == out + XBT_Size2(t, 0), "an encoded integer has the size of its type");
        VH_REACH("integer");
    }
    else if (t == XBT_INT32_DECI || t == XBT_INT32_CENTI || t == XBT_INT32_MILI || t == XBT_INT32_MICRO || t == XBT_INT32_NANO)
    {
        int D = t == XBT_INT32_DECI ? 1 : t == XBT_INT32_CENTI ? 2 : t == XBT_INT32_MILI ? 3 : t == XBT_INT32_MICRO ? 6 : 9;
        VH_ASSERT(dec >= 0 && dec <= D, "a fixed decimal type has room for all decimals of the text");
        uint64_t lim = 0x80000000ull - (neg ? 0 : 1); uint64_t f = 1;
        for (int k = 0; k < 9; k++) if (k < D - dec) { lim /= 10; f *= 10; }
        VH_ASSERT(!over && x <= lim, "a number detected as a fixed decimal fits its storage");
        VH_ASSERT(encode(s, t, out, sizeof(out), end), "a text detected as a fixed decimal can be encoded as one");
        uint32_t want = (uint32_t)x * (uint32_t)f;
        VH_ASSERT(*(uint32_t*)out == (neg ? 0 - want : want), "the fixed decimal stored is the number in the text");
        VH_REACH("decimal");
    }
    else
    {
        VH_ASSERT(t == XBT_FLOAT || t == XBT_DOUBLE || (t == XBT_HEX && !neg && dec < 0), "a number is detected as a number");
        if (t == XBT_FLOAT) VH_ASSERT(total <= 7, "a 32 bit float is chosen only for numbers of at most 7 digits");
        VH_ASSERT(encode(s, t, out, sizeof(out), end), "a text detected as a floating point number can be encoded as one");
        VH_REACH("float");
    }
    if (dec < 0 && total <= 9) VH_ASSERT(t == XBT_INT32, "a short integer is detected as 32 bit signed");
}
// four groups of digits with dots
//@H det_ip prop=V02,V07 time=150 shards=8 tshards=8 ttime=800
//@B det_ip every text a.b.c.d with groups of 0..4 decimal digits
H(det_ip)
{
    debug_status = nullptr;
    char s[24], *p = s; uint32_t v = 0; bool ok = true;
    for (int g = 0; g < 4; g++)
    {
        int k = (int)vh_choose(5); char *q = p; digits(p, k);
        uint32_t a = 0; for (; q < p; q++) a = a * 10 + (uint32_t)(*q - '0');
        ok = ok & (k > 0) & (a < 256); v = (v << 8) | (a & 255);
        if (g < 3) *p++ = '.';
    }
    *p = 0;
    XML_Binary_Type t = XBT_Detect(s);
    alignas(16) char out[32]; char *end;
    if (t == XBT_IPv4)
    {
        VH_ASSERT(ok, "a text detected as an address has four numbers 0..255");
        VH_ASSERT(encode(s, t, out, sizeof(out), end) && end == out + 4, "a text detected as an address can be encoded as one");
        VH_ASSERT(*(uint32_t*)out == v, "the address stored is the one in the text");
        VH_REACH("address");
    }
    else { VH_ASSERT(t == XBT_STRING, "four groups of digits that are no address stay text"); VH_ASSERT(!ok || p - s > 15, "an address is detected as one"); VH_REACH("not an address"); }
}
// texts of the long fixed shapes with one arbitrary byte at an arbitrary place
static int shaped(char *s, const char *const *F, int nf, int &w, bool &exact)
{
    int total = 0; for (int i = 0; i < nf; i++) total += (int)strlen(F[i]) + 1;
    int at = (int)vh_choose((uint32_t)total); w = 0;   // at == length: no byte is changed
    while (at > (int)strlen(F[w])) at -= (int)strlen(F[w++]) + 1;
    const char *f = F[w];
    static const char fill[] = "0aF9b3Ce1d";
    int n = (int)strlen(f), win = n > 6 && at == n && f[0] == 'h' ? (int)vh_choose((uint32_t)(n + 3) / 4) * 4 : -1;
    for (int i = 0; i < n; i++)
    {
        uint8_t c;
        if (i != at && f[i] != 'd' && f[i] != 'h') { s[i] = f[i]; continue; }
        if (i != at && at < n && n > 10 && f[i] == 'd') { s[i] = "2026-11-23 15:47:38.123"[i]; continue; }
        if (i != at && f[i] == 'd') { s[i] = '0' + vh_below8(10); continue; }
        if (i != at && f[i] == 'h' && n > 6 && (win < 0 || i < win || i >= win + 4)) { s[i] = fill[i % 10]; continue; }
        c = vh_u8();
        if (i == at) vh_assume(c != 0);
        else vh_assume(((uint8_t)(c - '0') <= 9) | ((uint8_t)(c - 'a') <= 5) | ((uint8_t)(c - 'A') <= 5));
        s[i] = (char)c;
    }
    s[n] = 0; exact = at == n; return n;
}
//@H det_time prop=V02 time=200 shards=8 tshards=8 ttime=800 merge=1
//@B det_time every date of years 0000..9999 with at most one arbitrary byte at any place; every time of years 2020..2029 and at the two ends of the 32-bit range; a fixed time of each shape with one arbitrary byte at any place
H(det_time)
{
    debug_status = nullptr;
    static const char *const F[6] = {"dddd-dd-dd", "202d-dd-dd dd:dd:dd", "202d-dd-dd dd:dd:dd.ddd", "202d-dd-ddTdd:dd:dd.dddZ", "2106-02-0d dd:dd:dd", "1969-1d-3d dd:dd:dd"};
    static const XML_Binary_Type T[6] = {XBT_UNIX_DATE, XBT_UNIX_TIME, XBT_UNIX_TIME64_MSEC, XBT_UNIX_TIME64_MSEC, XBT_UNIX_TIME, XBT_UNIX_TIME};
    int w; bool exact; char s[32]; int n = shaped(s, F, 6, w, exact);
    XML_Binary_Type t = XBT_Detect(s);
    check_shape(s, n, t);
    if (t == XBT_UNIX_DATE || t == XBT_UNIX_TIME || t == XBT_UNIX_TIME64_MSEC)
    {
        alignas(16) char out[32]; char *end;
        VH_ASSERT(t == T[w], "a date or time is detected as the type of its shape");
        VH_ASSERT(encode(s, t, out, sizeof(out), end) && end == out + XBT_Size2(t, 0), "a text detected as a date or time can be encoded as one");
        VH_REACH("encoded");
    }
}
//@H det_hex prop=V02,V09 time=150 shards=8 tshards=8 ttime=800 merge=1
//@B det_hex a fixed GUID, SHA1 and 8..12 hexadecimal digits with any 4 neighbouring digits arbitrary or with one arbitrary byte at any place; all of 2..6 hexadecimal digits with at most one arbitrary byte at any place
H(det_hex)
{
    debug_status = nullptr;
    static const char *const F[8] = {"hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh", "hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh", "hh", "hhhh", "hhhhhh", "hhhhhhhh", "hhhhhhhhhh", "hhhhhhhhhhhh"};
    int w; bool exact; char s[48]; int n = shaped(s, F, 8, w, exact);
    XML_Binary_Type t = XBT_Detect(s);
    check_shape(s, n, t);
    if (exact && w == 0) VH_ASSERT(t == XBT_GUID, "a GUID is detected as one");
    if (t == XBT_HEX || t == XBT_GUID || t == XBT_SHA1)
    {
        alignas(16) char out[64]; char *end;
        VH_ASSERT(encode(s, t, out, sizeof(out), end), "a text detected as hexadecimal can be encoded");
        uint8_t *b = (uint8_t*)out; int count = t == XBT_SHA1 ? 20 : t == XBT_GUID ? 16 : n / 2;
        if (t == XBT_HEX) { VH_ASSERT(*(int32_t*)out == count, "every hexadecimal digit of the text is stored and no more"); b += 4; }
        VH_ASSERT(end == (char*)b + count, "an encoded hexadecimal value has its size");
        int k = 0, bad = 0;
        for (int i = 0; i < n; i++)
        {
            if (t == XBT_GUID && (i == 8 || i == 13 || i == 18 || i == 23)) continue;
            uint8_t nib = (k & 1) ? (b[k / 2] & 15) : (b[k / 2] >> 4);
            if (exact) VH_ASSERT(nib == (uint8_t)hexv(s[i]), "the bytes stored are the ones spelled in the text");
            bad |= nib != (uint8_t)hexv(s[i]); k++;
        }
        if (!exact) VH_ASSERT(!bad, "the bytes stored are the ones spelled in the text");
        VH_ASSERT(k == 2 * count, "the bytes stored are the ones spelled in the text");
        VH_REACH("hex");
    }
}
