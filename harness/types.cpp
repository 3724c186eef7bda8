//@SRC bin_xml_types.cpp utils.cpp macros.cpp missings.cpp
// Joining of types (V03), stored size and copying (V04), comparison (V05), XML escaping (V11)
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <binary_xml/macros.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
using namespace pklib_xml;
namespace pklib_xml { int XBT_GetBLOB_STRING_Size(int length); }
static XML_Binary_Data_Ref ref(XML_Binary_Type t, void *d, int n) { XML_Binary_Data_Ref r; memset(&r, 0, sizeof r); r.type = t; r.data = (char*)d; r.size = n; return r; }
// ---- V03
static XML_Binary_Type any_type() { uint8_t t = vh_u8(); vh_assume(t < XBT_LAST && t != XBT_UNKNOWN); return (XML_Binary_Type)t; }
static int decimals(int t) { return t == XBT_INT32 ? 0 : t == XBT_INT32_DECI ? 1 : t == XBT_INT32_CENTI ? 2 : t == XBT_INT32_MILI ? 3 : t == XBT_INT32_MICRO ? 6 : t == XBT_INT32_NANO ? 9 : -1; }
static bool covers(int big, int small)                       // the widening order
{
    if (big == small || small == XBT_NULL || big == XBT_BLOB_STRING) return true;
    if (small == XBT_BLOB_STRING) return false;
    if (big == XBT_STRING) return true; if (small == XBT_STRING) return false;
    if (big == XBT_VARIANT) return true; if (small == XBT_VARIANT) return false;
    if (decimals(small) >= 0 && decimals(big) >= 0) return decimals(big) >= decimals(small);
    if (small == XBT_INT32) return big == XBT_INT64 || big == XBT_FLOAT || big == XBT_DOUBLE;
    return (small == XBT_INT64 || small == XBT_FLOAT) && big == XBT_DOUBLE;
}
//@H join_two prop=V03 time=150 merge=1
//@B join_two every pair of types: commutative, covers both, and no type covering both is below it (every third type)
H(join_two)
{
    XML_Binary_Type a = any_type(), b = any_type(), c = any_type(), j = XBT_JoinTypes(a, b);
    VH_ASSERT(j == XBT_JoinTypes(b, a), "joining does not depend on the order of two");
    VH_ASSERT(covers(j, a) && covers(j, b), "the joined type covers both");
    if (covers(c, a) && covers(c, b)) VH_ASSERT(covers(c, j), "the joined type is the least one");
    VH_ASSERT(XBT_JoinTypes(a, a) == a, "joining a type with itself changes nothing"); VH_REACH("joined");
}
//@H join_three prop=V03 time=150 merge=1
//@B join_three every three types in any order and grouping
H(join_three)
{
    XML_Binary_Type a = any_type(), b = any_type(), c = any_type();
    VH_ASSERT(XBT_JoinTypes(XBT_JoinTypes(a, b), c) == XBT_JoinTypes(a, XBT_JoinTypes(b, c)), "joining does not depend on the grouping"); VH_REACH("joined");
}
//@H join_absent prop=V03 time=60 merge=1
//@B join_absent every type with an absent value (unknown, not used, nothing)
H(join_absent)
{
    XML_Binary_Type a = any_type(), n = vh_choose(3) == 0 ? XBT_NULL : vh_choose(2) ? XBT_UNKNOWN : XBT_LAST; vh_assume(a != XBT_NULL);
    VH_ASSERT(XBT_JoinTypes(a, n) == a && XBT_JoinTypes(n, a) == a, "an absent value does not influence the type"); VH_REACH("joined");
}
//@H join_detect prop=V03 time=100
//@B join_detect 8 texts with every expected type
H(join_detect)
{
    static const char *VS[8] = {nullptr, "", "5", "4.5", "x", "12345678901", "1.2.3.4", "0x"}; const char *v = VS[vh_choose(8)]; XML_Binary_Type a = any_type();
    VH_ASSERT(XBT_Detect2(v, a) == XBT_JoinTypes(XBT_Detect(v), a), "the expected type is joined with the detected one"); VH_REACH("joined");
}
// ---- V11
static const char *entity(char c) { return c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : nullptr; }
static void escaped(const char *s)
{
    vh_os_reset(); XBT_ToXMLStream(XBT_STRING, s, *vh_os()); size_t n = vh_os_size(), p = 0; bool ok = true;
    for (; *s; s++)
    {
        const char *e = entity(*s);
        if (e && !(*s == '"' && p < n && vh_os_at(p) == '"')) { for (; *e; e++, p++) ok = ok && p < n && vh_os_at(p) == (uint8_t)*e; }
        else { ok = ok && p < n && vh_os_at(p) == (uint8_t)*s; p++; }
        if (!ok) break;
    }
    VH_ASSERT(ok && p == n, "markup characters are entities and everything else is unchanged"); VH_REACH("escaped");
}
#ifndef ESC
#define ESC 5
#endif
//@H esc_any prop=V11 time=150 shards=6 tdefs=ESC=7 ttime=600
//@B esc_any every text of up to 5 bytes (thorough 7)
H(esc_any) { int n = (int)vh_choose(ESC + 1); char *s = (char*)malloc((size_t)n + 1); for (int i = 0; i < n; i++) { uint8_t c = vh_u8(); vh_assume(c != 0); s[i] = (char)c; } s[n] = 0; escaped(s); }
//@H esc_long prop=V11 time=200 shards=8 steps=20000000
//@B esc_long texts of 4093..4100 bytes (the printing buffer holds 4096) with 3 arbitrary bytes around the end of the buffer
H(esc_long)
{
    int n = 4093 + (int)vh_choose(8); char *s = (char*)malloc((size_t)n + 1); memset(s, 'a', (size_t)n); s[n] = 0;
    int at = 4094; for (int i = at; i < at + 3 && i < n; i++) { uint8_t c = vh_u8(); vh_assume(c != 0); s[i] = (char)c; }
    escaped(s);
}
//@H esc_blob prop=V11 time=100
//@B esc_blob every number, address and decimal type gives text without markup (one arbitrary value byte)
H(esc_blob)
{
    static const XML_Binary_Type T[] = {XBT_INT32, XBT_UINT32, XBT_INT32_DECI, XBT_INT32_NANO, XBT_IPv4, XBT_INT64, XBT_UINT64, XBT_GUID, XBT_SHA1};
    XML_Binary_Type t = T[vh_choose(9)]; char *d = (char*)aligned_alloc(16, 32); memset(d, 0, 32); d[vh_choose(2)] = (char)vh_u8();
    vh_os_reset(); XBT_ToXMLStream(t, d, *vh_os()); size_t n = vh_os_size(); VH_ASSERT(n > 0, "a value has text");
    for (size_t i = 0; i < n; i++) { uint8_t c = (uint8_t)vh_os_at(i); VH_ASSERT(c != '<' && c != '>' && c != '&' && c != '"', "the text has no markup"); } VH_REACH("printed");
}
// ---- V05
static int sgn(int c) { return c < 0 ? -1 : c > 0; }
static void *val(int n) { char *p = (char*)aligned_alloc(16, 32); for (int i = 0; i < n; i++) p[i] = (char)vh_u8(); return p; }
static const struct { XML_Binary_Type t; int n; bool sign; } NT[] = {{XBT_INT32,4,1},{XBT_INT32_DECI,4,1},{XBT_INT32_CENTI,4,1},{XBT_INT32_MILI,4,1},{XBT_INT32_MICRO,4,1},{XBT_INT32_NANO,4,1},{XBT_UNIX_DATE,4,1},{XBT_UINT32,4,0},{XBT_UNIX_TIME,4,0},{XBT_INT64,8,1},{XBT_UINT64,8,0},{XBT_UNIX_TIME64_MSEC,8,1}};
//@H cmp_num prop=V05 time=150 shards=12
//@B cmp_num every three values of every whole number, decimal, date and time type
H(cmp_num)
{
    int k = (int)vh_choose(12), n = NT[k].n; XML_Binary_Type t = NT[k].t; void *a = val(n), *b = val(n);
    int c = XBT_Compare(t, a, n, t, b, n), e;
    if (n == 4) { int32_t x = *(int32_t*)a, y = *(int32_t*)b; e = NT[k].sign ? (x > y) - (x < y) : ((uint32_t)x > (uint32_t)y) - ((uint32_t)x < (uint32_t)y); }
    else { int64_t x = *(int64_t*)a, y = *(int64_t*)b; e = NT[k].sign ? (x > y) - (x < y) : ((uint64_t)x > (uint64_t)y) - ((uint64_t)x < (uint64_t)y); }
    VH_ASSERT(sgn(c) == e, "comparing agrees with the order of numbers"); VH_ASSERT(sgn(XBT_Compare(t, b, n, t, a, n)) == -e, "comparing is antisymmetric");
    XML_Binary_Data_Ref A = ref(t, a, n), B = ref(t, b, n);
    VH_ASSERT(XBT_Equal(A, B) == (e == 0) && XBT_Equal(B, A) == (e == 0), "equality is the same value"); VH_REACH("compared");
}
//@H cmp_bytes prop=V05 time=150 shards=5
//@B cmp_bytes every two GUIDs, hashes, addresses, IPv6 addresses and 5-byte strings of bytes
H(cmp_bytes)
{
    static const struct { XML_Binary_Type t; int n; } BT[] = {{XBT_GUID,16},{XBT_SHA1,20},{XBT_IPv4,4},{XBT_IPv6,16},{XBT_HEX,5}}; int k = (int)vh_choose(5), n = BT[k].n; XML_Binary_Type t = BT[k].t;
    void *a = val(n), *b = val(n); int e = sgn(memcmp(a, b, (size_t)n));
    VH_ASSERT(sgn(XBT_Compare(t, a, n, t, b, n)) == e && sgn(XBT_Compare(t, b, n, t, a, n)) == -e, "comparing is the order of the bytes");
    XML_Binary_Data_Ref A = ref(t, a, n), B = ref(t, b, n); VH_ASSERT(XBT_Equal(A, B) == (e == 0), "equality is the same value"); VH_REACH("compared");
}
static char *str(int max) { int n = (int)vh_choose((uint32_t)max + 1); char *s = (char*)malloc((size_t)n + 1); for (int i = 0; i < n; i++) { uint8_t c = vh_u8(); vh_assume(c != 0); s[i] = (char)c; } s[n] = 0; return s; }
//@H cmp_str prop=V05 time=150 shards=4
//@B cmp_str every two texts of up to 3 bytes
H(cmp_str)
{
    char *a = str(3), *b = str(3); int n = (int)strlen(a) + 1, m = (int)strlen(b) + 1, e = sgn(strcmp(a, b));
    VH_ASSERT(sgn(XBT_Compare(XBT_STRING, a, n, XBT_STRING, b, m)) == e && sgn(XBT_Compare(XBT_STRING, b, m, XBT_STRING, a, n)) == -e, "comparing is the order of the texts");
    XML_Binary_Data_Ref A = ref(XBT_STRING, a, n), B = ref(XBT_STRING, b, m); VH_ASSERT(XBT_Equal(A, B) == (e == 0), "equality is the same text"); VH_REACH("compared");
}
//@H eq_text prop=V05 time=200 shards=8
//@B eq_text every 32-bit number against every text of up to 4 digits with sign, every address against 4 octets, every hash of 2 arbitrary bytes against its text, in both directions
H(eq_text)
{
    int k = (int)vh_choose(8); char *s = (char*)malloc(64); XML_Binary_Type t; char *d = (char*)aligned_alloc(16, 32); int n; bool e;
    if (k < 4)
    {
        int neg = k & 1, len = 1 + k / 2 * 2; int64_t v = 0; char *p = s; if (neg) *p++ = '-'; for (int i = 0; i < len; i++) { int c = vh_below8(10); *p++ = (char)('0' + c); v = v * 10 + c; } *p = 0;
        if (neg) v = -v; t = XBT_INT32; n = 4; *(uint32_t*)d = vh_u32(); e = *(int32_t*)d == v;
    }
    else if (k < 6) { strcpy(s, "1.20.3."); uint8_t o = (uint8_t)vh_below8(10); s[7] = (char)('0' + o); s[8] = 0; t = XBT_IPv4; n = 4; *(uint32_t*)d = vh_u32(); char *q = (char*)aligned_alloc(16, 32), *w = q; XBT_FromString(s, XBT_IPv4, &w, q + 32); e = memcmp(q, d, 4) == 0; }
    else
    {
        t = k == 6 ? XBT_SHA1 : XBT_GUID; n = k == 6 ? 20 : 16; static const char X[] = "0123456789abcdef"; uint8_t b0 = vh_u8(); memset(d, 0x5a, 32); d[0] = (char)vh_u8(); d[n - 1] = (char)vh_u8();
        strcpy(s, k == 6 ? "5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a" : "5a5a5a5a-5a5a-5a5a-5a5a-5a5a5a5a5a5a"); char hi = 0, lo = 0; for (int i = 0; i < 16; i++) { if (b0 >> 4 == i) hi = X[i]; if ((b0 & 15) == i) lo = X[i]; } size_t z = strlen(s); s[z-2] = hi; s[z-1] = lo;
        e = (uint8_t)d[0] == 0x5a && (uint8_t)d[n - 1] == b0;
    }
    XML_Binary_Data_Ref A = ref(t, d, n), B = ref(XBT_STRING, s, (int)strlen(s) + 1);
    VH_ASSERT(XBT_Equal(A, B) == e, "a value equals a text which encodes to it"); VH_ASSERT(XBT_Equal(B, A) == e, "equality is symmetric"); VH_REACH("compared");
}
// ---- V04
//@H size_text prop=V04 time=200 shards=18
//@B size_text one text of every encodable type (with arbitrary digits or letters) at each of 8 positions of the cursor, and every text of up to 4 bytes as string
H(size_text)
{
    static const struct { XML_Binary_Type t; const char *s; int n; } K[18] = {{XBT_INT32,"-12?",4},{XBT_INT32_DECI,"1.?",4},{XBT_INT32_CENTI,"1.2?",4},{XBT_INT32_MILI,"1.23?",4},{XBT_INT32_MICRO,"1.2?",4},{XBT_INT32_NANO,"1.2?",4},{XBT_INT64,"1234567890?",8},{XBT_UINT64,"1234567890?",8},{XBT_UINT32,"123456789?",4},{XBT_IPv4,"1.2.3.?",4},{XBT_GUID,"01234567-89ab-cdef-0123-456789abcde?",16},{XBT_SHA1,"0123456789abcdef0123456789abcdef0123456?",20},{XBT_HEX,"abcde?",7},{XBT_UNIX_DATE,"2021-06-1?",4},{XBT_UNIX_TIME,"2021-06-15 22:41:4?",4},{XBT_UNIX_TIME64_MSEC,"2021-06-15 22:41:4?.123",8},{XBT_STRING,"ab?",4},{XBT_FLOAT,"1.5",4}};
    int w = (int)vh_choose(18 * 8), k = w % 18, off = w / 18; char *s = (char*)malloc(64); strcpy(s, K[k].s); for (char *p = s; *p; p++) if (*p == '?') *p = (char)('0' + (k >= 13 && k <= 15 ? (int)vh_choose(10) : vh_below8(10)));
    XML_Binary_Type t = K[k].t; char *d = (char*)aligned_alloc(16, 64); memset(d, 0x33, 64); char *p = d + off;
    int al = XBT_Align(t), a = al ? (off + al - 1) / al * al : off, total = XBT_Size2(t, XBT_SizeFromString(s, t));
    VH_ASSERT(XBT_FromString(s, t, &p, d + a + total), "the text is encoded");
    VH_ASSERT(total == K[k].n && p == d + a + total, "the size known beforehand is the size written at the alignment asked for");
    for (int i = 0; i < 64; i++) if (i < a || i >= a + total) VH_ASSERT(d[i] == 0x33, "nothing outside is changed");
    // copying
    int cs = t == XBT_STRING ? total - 1 : t == XBT_HEX ? total - 4 : total, off2 = (int)vh_choose(4) * 3; char *e = (char*)aligned_alloc(16, 64); memset(e, 0x44, 64); char *q = e + off2; int b = al ? (off2 + al - 1) / al * al : off2;
    VH_ASSERT(XBT_Copy(d + a, t, cs, &q, e + 64) && q == e + b + total, "the copy has the same size");
    VH_ASSERT(memcmp(d + a, e + b, (size_t)total) == 0, "the copy is identical");
    for (int i = 0; i < 64; i++) if (i < b || i >= b + total) VH_ASSERT(e[i] == 0x44, "nothing outside is changed");
    char *lim = (char*)aligned_alloc(16, 64); memset(lim, 0x55, 64); char *r = lim + off2; int room = (int)vh_choose(3);
    char *end = lim + b + total - 1 - room; if (end >= r) { bool ok = XBT_Copy(d + a, t, cs, &r, end); VH_ASSERT(!ok && r == lim + off2, "a value which does not fit is refused"); for (int i = 0; i < 64; i++) VH_ASSERT(lim[i] == 0x55, "nothing is written when refused"); }
    VH_REACH("copied");
}
//@H size_blob prop=V04 time=100
//@B size_blob every length up to 2^30-2: the room for a text with reserve is at least its length and terminator, at most the double (or 16), and grows with the length
H(size_blob)
{
    uint32_t n = vh_u32(); vh_assume(n < (1u << 30) - 1); int s = XBT_GetBLOB_STRING_Size((int)n);
    VH_ASSERT(s >= 16 && (uint32_t)s >= n + 1 && (s == 16 || (uint32_t)s < 2 * (n + 1)), "the room fits the text"); VH_ASSERT(s % 8 == 0, "the room is aligned");
    VH_ASSERT(n == 0 || XBT_GetBLOB_STRING_Size((int)n - 1) <= s, "the room grows with the length");
    VH_ASSERT(XBT_Size2(XBT_BLOB_STRING, (int)n) == 4 + s && XBT_Size2(XBT_BLOB, (int)n) == 4 + (int)n && XBT_Size2(XBT_HEX, (int)n) == 4 + (int)n && XBT_Size2(XBT_STRING, (int)n) == (int)n + 1, "the stored size is the content with its envelope"); VH_REACH("sized");
}
