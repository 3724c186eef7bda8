//@SRC bin_xml_types.cpp utils.cpp macros.cpp missings.cpp
// Text forms of typed values: integers, decimals, addresses (V01 V07 V10) and chunked printing (V06)
#include "vh.h"
#include "gen.h"
#include <string.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/utils.h>
#include <binary_xml/macros.h>
using namespace pklib_xml;
static int dig(char c) { return c >= '0' && c <= '9'; }
// the three ways of printing give the same text; it is left in buf
static int print3(XML_Binary_Type t, const void *v, char *buf, int size)
{
    int off = 0;
    int n = XBT_ToStringChunk(t, (const char*)v, off, buf, size);
    VH_ASSERT(n > 0 && n < size && buf[n] == 0, "a printed value is terminated");
    VH_ASSERT((int)strlen(buf) == n, "the length reported is the length of the text");
    char more[300];
    VH_ASSERT(XBT_ToStringChunk(t, (const char*)v, off, more, sizeof(more)) == 0, "a small value is printed in one chunk");
    const char *s = XBT_ToString(t, (const char*)v);
    VH_ASSERT(s != nullptr, "a value has a text");
    VH_ASSERT((int)strlen(s) == n && vh_eqn(s, buf, n), "the buffered form is the chunked form");
    vh_os_reset();
    XBT_ToStringStream(t, (const char*)v, *vh_os());
    VH_ASSERT((int)vh_os_size() == n, "the stream form is as long as the chunked form");
    uint32_t ne = 0; for (int i = 0; i < n; i++) ne |= (uint8_t)buf[i] ^ vh_os_at(i);
    VH_ASSERT(ne == 0, "the stream form is the chunked form");
    return n;
}
template<class T> static void roundtrip(XML_Binary_Type t, T v, bool neg, uint64_t mag)
{
    debug_status = nullptr;
    alignas(8) char st[8]; memcpy(st, &v, sizeof(T));
    char buf[300]; int n = print3(t, st, buf, sizeof(buf));
    int k = 0; if (neg) { VH_ASSERT(buf[0] == '-', "a negative value has a minus sign"); k = 1; }
    int bad = 0; uint64_t x = 0;
    for (int i = k; i < n; i++) { bad |= !dig(buf[i]); x = x * 10 + (uint64_t)(buf[i] - '0'); }
    VH_ASSERT(n > k && n - k <= 20, "a printed integer has digits");
    VH_ASSERT(!bad, "a printed integer has digits only");
    VH_ASSERT(x == mag, "the digits spell the value");
    VH_ASSERT(buf[k] != '0' || (n == 1), "a printed integer has no leading zeros");
    alignas(8) char out[16]; char *wp = out;
    VH_ASSERT(XBT_FromString(buf, t, &wp, out + sizeof(out)), "the printed text is read back");
    VH_ASSERT(wp == out + sizeof(T), "the value has its size");
    T r; memcpy(&r, out, sizeof(T));
    VH_ASSERT(r == v, "reading the printed text gives the value back");
    if (t == XBT_INT64)
    {
        char40_t small; const char *d = Int64ToStr((int64_t)v, small);
        VH_ASSERT(d >= small && d + n == small + sizeof(small) - 1 && d[n] == 0 && vh_eqn(d, buf, n), "the number printer gives the same text");
    }
    VH_REACH("round trip");
}
//@H int_32 prop=V01 time=120 shards=3
//@B int_32 every 32-bit signed and unsigned value
H(int_32)
{
    int kind = (int)vh_choose(3), n = 1 + (int)vh_choose(10);
    uint64_t x = gen_number(n, kind == 0 ? 0xffffffffull : kind == 1 ? 0x7fffffffull : 0x80000000ull);
    if (kind == 0) roundtrip<uint32_t>(XBT_UINT32, (uint32_t)x, false, x);
    else if (kind == 1) roundtrip<int32_t>(XBT_INT32, (int32_t)x, false, x);
    else { vh_assume(x != 0); roundtrip<int32_t>(XBT_INT32, (int32_t)(0 - x), true, x); }
}
//@H int_64 prop=V01 time=200 shards=3
//@B int_64 every 64-bit signed and unsigned value
H(int_64)
{
    int kind = (int)vh_choose(3), n = 1 + (int)vh_choose(20);
    uint64_t x = gen_number(n, kind == 0 ? 0xffffffffffffffffull : kind == 1 ? 0x7fffffffffffffffull : 0x8000000000000000ull);
    if (kind == 0) roundtrip<uint64_t>(XBT_UINT64, x, false, x);
    else if (kind == 1) roundtrip<int64_t>(XBT_INT64, (int64_t)x, false, x);
    else { vh_assume(x != 0); roundtrip<int64_t>(XBT_INT64, (int64_t)(0 - x), true, x); }
}
// ---- fixed decimals
static const struct { XML_Binary_Type t; int d; uint64_t div; } DEC[] = {{XBT_INT32_DECI, 1, 10}, {XBT_INT32_CENTI, 2, 100}, {XBT_INT32_MILI, 3, 1000}, {XBT_INT32_MICRO, 6, 1000000}, {XBT_INT32_NANO, 9, 1000000000}};
//@H dec_value prop=V10 time=120 shards=10
//@B dec_value every 32-bit stored value of each of the five fixed-decimal types
H(dec_value)
{
    debug_status = nullptr;
    int k = (int)vh_choose(10), neg = k & 1; k >>= 1; int n = 1 + (int)vh_choose(10);
    uint64_t x = gen_number(n, neg ? 0x80000000ull : 0x7fffffffull);
    if (neg) vh_assume(x != 0);
    alignas(8) int32_t v = (int32_t)(neg ? 0 - x : x);
    char buf[300]; int len = print3(DEC[k].t, &v, buf, sizeof(buf));
    int i = 0; if (neg) { VH_ASSERT(buf[0] == '-', "a negative decimal has a minus sign"); i = 1; }
    VH_ASSERT(len >= i + 2 + DEC[k].d && len <= i + 12, "a printed decimal has digits on both sides of its point");
    int pt = len - 1 - DEC[k].d, bad = 0; uint64_t y = 0;
    VH_ASSERT(pt > i && buf[pt] == '.', "the point stands before the type's number of decimals");
    VH_ASSERT(buf[i] != '0' || pt == i + 1, "a printed decimal has no leading zeros");
    for (int j = i; j < len; j++) if (j != pt) { bad |= !dig(buf[j]); y = y * 10 + (uint64_t)(buf[j] - '0'); }
    VH_ASSERT(!bad, "a printed decimal has digits only");
    VH_ASSERT(y == x, "the digits spell the value");
    alignas(8) char out[16]; char *wp = out;
    VH_ASSERT(XBT_FromString(buf, DEC[k].t, &wp, out + sizeof(out)), "the printed text is read back");
    VH_ASSERT(wp == out + 4 && *(int32_t*)out == v, "reading the printed text gives the value back");
    VH_REACH("round trip");
}
#ifndef DTXT
#define DTXT 10
#endif
//@H dec_text prop=V10 time=150 shards=10 tdefs=DTXT=13 ttime=600
//@B dec_text every text [-]digits[.digits] of up to 10 digits (13 thorough), read as each fixed-decimal type
H(dec_text)
{
    debug_status = nullptr;
    int k = (int)vh_choose(10), neg = k & 1; k >>= 1; int D = DEC[k].d;
    int total = 1 + (int)vh_choose(DTXT), dec = (int)vh_choose((uint32_t)total + 1);      // dec = 0: no point
    if (dec > D + 1) vh_assume(false);
    char s[24], *p = s; if (neg) *p++ = '-';
    uint8_t dg[24]; gen_digits(dg, dec > D ? total - 1 : total, dec < D ? D - dec : 0, neg ? 0x80000000ull : 0x7fffffffull); if (dec > D) dg[total - 1] = vh_below8(10);
    uint64_t x = 0; uint8_t last = 0;
    for (int i = 0; i < total; i++) { if (i == total - dec) *p++ = '.'; last = dg[i]; *p++ = (char)('0' + last); if (!(dec > D && i == total - 1)) x = x * 10 + last; }
    *p = 0;
    for (int i = dec < D ? dec : D; i < D; i++) x *= 10;
    int fits = x <= (neg ? 0x80000000ull : 0x7fffffffull); if (dec > D) fits &= last == 0;
    alignas(8) char out[16]; memset(out, 0x55, sizeof(out)); char *wp = out;
    bool ok = XBT_FromString(s, DEC[k].t, &wp, out + sizeof(out));
    VH_ASSERT(ok == (fits != 0), "a decimal text is read exactly when the type can hold it");
    if (ok) { VH_ASSERT(wp == out + 4 && *(int32_t*)out == (int32_t)(neg ? 0 - x : x), "the value read is the number in the text"); VH_REACH("read"); }
    else { VH_ASSERT(wp == out && (uint8_t)out[0] == 0x55, "a refused text stores nothing"); VH_REACH("refused"); }
}
// ---- addresses
//@H ip_print prop=V07 time=120 shards=12
//@B ip_print every IPv4 address
H(ip_print)
{
    debug_status = nullptr;
    int first = (int)vh_choose(36); uint64_t o[4]; uint8_t d[4][3]; int n[4];
    for (int i = 0; i < 4; i++)
    {
        int c = i == 0 ? first / 6 : i == 1 ? first % 6 : (int)vh_choose(6);   // 1 digit, 2 digits, 1dd, 20d..24d, 250..254, 255
        n[i] = c == 0 ? 1 : c == 1 ? 2 : 3;
        if (c == 0) d[i][0] = vh_below8(10);
        else if (c == 1) { d[i][0] = 1 + vh_below8(9); d[i][1] = vh_below8(10); }
        else if (c == 2) { d[i][0] = 1; d[i][1] = vh_below8(10); d[i][2] = vh_below8(10); }
        else if (c == 3) { d[i][0] = 2; d[i][1] = vh_below8(5); d[i][2] = vh_below8(10); }
        else if (c == 4) { d[i][0] = 2; d[i][1] = 5; d[i][2] = vh_below8(5); }
        else { d[i][0] = 2; d[i][1] = 5; d[i][2] = 5; }
        o[i] = 0; for (int j = 0; j < n[i]; j++) o[i] = o[i] * 10 + d[i][j];
    }
    uint32_t v = 0; for (int i = 0; i < 4; i++) v = (v << 8) | (uint8_t)o[i];
    alignas(8) uint32_t st = v; char buf[300]; int len = print3(XBT_IPv4, &st, buf, sizeof(buf)), k = 0; uint32_t ne = 0;
    VH_ASSERT(len == n[0] + n[1] + n[2] + n[3] + 3, "an address is printed in canonical dotted decimal");
    for (int i = 0; i < 4; i++) { for (int j = 0; j < n[i]; j++) ne |= (uint32_t)(buf[k++] ^ ('0' + d[i][j])); if (i < 3) ne |= (uint32_t)(buf[k++] ^ '.'); }
    VH_ASSERT(ne == 0, "an address is printed in canonical dotted decimal");
    const char *p = buf; uint32_t w = 0;
    VH_ASSERT(ScanIPv4(p, w) && w == v && p == buf + len, "the printed address scans back to itself");
    alignas(8) char out[16]; char *wp = out;
    VH_ASSERT(XBT_FromString(buf, XBT_IPv4, &wp, out + sizeof(out)) && wp == out + 4 && *(uint32_t*)out == v, "the printed address is read back");
    VH_REACH("round trip");
}
static bool ref_ip(const char *s, uint32_t &v, int &end)
{
    int i = 0; v = 0;
    for (int k = 0; k < 4; k++)
    {
        if (k) { if (s[i] != '.') return false; i++; }
        while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
        int neg = s[i] == '-'; if (neg) i++;
        if (!dig(s[i])) return false;
        uint64_t x = 0; while (dig(s[i])) { x = x * 10 + (uint64_t)(s[i] - '0'); i++; }
        if (neg ? x != 0 : x > 255) return false;
        v = (v << 8) | (uint32_t)x;
    }
    end = i; return true;
}
static void check_ip(const char *s)
{
    uint32_t v = 0, r = 0; int e = 0; const char *p = s;
    bool want = ref_ip(s, r, e), ok = ScanIPv4(p, v);
    VH_ASSERT(ok == want, "a text is accepted as an address exactly when it starts with four dotted numbers 0..255");
    if (ok) { VH_ASSERT(v == r, "the address scanned is the one in the text"); VH_ASSERT(p == s + e, "the cursor is left behind the address"); VH_REACH("address"); }
    else { VH_ASSERT(p == s, "a refused text is not consumed"); VH_REACH("refused"); }
    alignas(8) char out[16]; char *wp = out;
    ok = XBT_FromString(s, XBT_IPv4, &wp, out + sizeof(out));
    VH_ASSERT(ok == want, "a text is encoded as an address exactly when it is one");
    if (ok) VH_ASSERT(wp == out + 4 && *(uint32_t*)out == r, "the address stored is the one in the text");
    else VH_ASSERT(wp == out || wp == out + 0, "a refused text stores nothing");
}
#ifndef IPA
#define IPA 6
#endif
#ifndef IPL
#define IPL 3
#endif
//@H ip_scan prop=V07 time=150 shards=9 tdefs=IPL=4 tshards=16 ttime=800
//@B ip_scan four dotted digit groups of 1..3 (1..4 thorough) digits each, all digits arbitrary, with any one byte replaced by any byte, or a suffix of any byte
H(ip_scan)
{
    debug_status = nullptr;
    char s[24]; int n = 0, pt = (int)vh_choose(IPL * IPL), len[4];
    len[0] = 1 + pt / IPL; len[1] = 1 + pt % IPL; len[2] = 1 + (int)vh_choose(IPL); len[3] = 1 + (int)vh_choose(IPL);
    for (int i = 0; i < 4; i++) { if (i) s[n++] = '.'; for (int j = 0; j < len[i]; j++) s[n++] = '0' + vh_below8(10); }
    int q = (int)vh_choose((uint32_t)n + 1); s[q] = (char)vh_u8(); if (q == n) n++; s[n] = 0;
    check_ip(s);
}
//@H ip_any prop=V07 time=150 shards=8 merge=1 defs=IPA=6 tdefs=IPA=7 ttime=900
//@B ip_any every text of up to 6 bytes (7 thorough)
H(ip_any)
{
    debug_status = nullptr;
    char s[10]; int n = (int)vh_choose(IPA + 1); vh_str(s, n);
    check_ip(s);
}
// ---- chunked printing
#include <stdlib.h>
static const int MAXTXT = 3000;
// print in chunks of buffers of the given size; the joined text is left in all
static int print_chunks(XML_Binary_Type t, const char *v, int size, char *all, int payload)
{
    int off = 0, total = 0, chunks = 0;
    for (;;)
    {
        char *dst = (char*)malloc(size); int before = off;
        int n = XBT_ToStringChunk(t, v, off, dst, size);
        VH_ASSERT(n >= 0 && n < size, "a chunk fits its buffer");
        VH_ASSERT(dst[n] == 0, "every chunk is terminated behind its text");
        if (n == 0) { free(dst); break; }
        VH_ASSERT(off > before, "every chunk makes progress");
        VH_ASSERT(++chunks <= payload / 16 + 2, "chunking ends");
        int zero = 0; for (int i = 0; i < n; i++) { zero |= dst[i] == 0; all[total++] = dst[i]; }
        VH_ASSERT(!zero, "a chunk holds text only");
        free(dst);
    }
    return total;
}
static void same_stream(XML_Binary_Type t, const char *v, const char *all, int total)
{
    vh_os_reset();
    XBT_ToStringStream(t, v, *vh_os());
    VH_ASSERT((int)vh_os_size() == total, "the chunks add up to the length of the streamed text");
    uint32_t ne = 0; for (int i = 0; i < total; i++) ne |= (uint8_t)all[i] ^ vh_os_at(i);
    VH_ASSERT(ne == 0, "the chunks add up to the streamed text");
}
static char nz() { return (char)(1 + vh_below8(255)); }
//@H chunk_text prop=V06 time=150 shards=8 tdefs=CHT=1 ttime=600
//@B chunk_text strings and string blobs with any bytes, of length 0..2, 255..259, 511..514 (more thorough), in chunk buffers of 257, 258, 260 and 300 bytes
H(chunk_text)
{
    debug_status = nullptr;
#ifdef CHT
    static const int LEN[] = {0, 1, 2, 15, 16, 17, 254, 255, 256, 257, 258, 259, 260, 299, 300, 510, 511, 512, 513, 514, 515, 516, 598, 599, 600, 767, 768, 769, 770, 771, 776, 1024, 1025};
#else
    static const int LEN[] = {0, 1, 2, 255, 256, 257, 258, 259, 511, 512, 513, 514};
#endif
    static const int SZ[] = {257, 258, 260, 300};
    int k = (int)vh_choose(2 * sizeof(LEN) / sizeof(LEN[0])), blob = k & 1, len = LEN[k >> 1], size = SZ[vh_choose(4)];
    char *mem = (char*)malloc((4 + len + 1 + 7) / 8 * 8), *txt = blob ? mem + 4 : mem;
    if (blob) *(uint32_t*)mem = (uint32_t)len + 1;
    for (int i = 0; i < len; i++) txt[i] = nz();
    txt[len] = 0;
    XML_Binary_Type t = blob ? XBT_BLOB_STRING : XBT_STRING;
    char *all = (char*)malloc(MAXTXT); int total = print_chunks(t, mem, size, all, len);
    VH_ASSERT(total == len && vh_eqn(all, txt, len), "the chunks of a string add up to the string");
    same_stream(t, mem, all, total);
    const char *s = XBT_ToString(t, mem);
    VH_ASSERT(s != nullptr && (int)strlen(s) == len && vh_eqn(s, txt, len), "the buffered form of a string is the string");
    VH_REACH("printed");
}
static const char B64[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// all[0..total-1] is padded base64 of src[0..n-1]
static void check_b64(const char *all, int total, const char *src, int n)
{
    VH_ASSERT(total == (n + 2) / 3 * 4, "binary text is whole groups of base64 characters");
    for (int i = 0, k = 0; i < total; i += 4, k += 3)
    {
        int left = n - k; uint32_t bad = 0, A = (uint8_t)src[k], B = left > 1 ? (uint8_t)src[k+1] : 0, C = left > 2 ? (uint8_t)src[k+2] : 0;
        bad |= all[i] != B64[A >> 2];
        bad |= all[i+1] != B64[((A & 3) << 4) | (B >> 4)];
        bad |= all[i+2] != (left < 2 ? '=' : B64[((B & 15) << 2) | (C >> 6)]);
        bad |= all[i+3] != (left < 3 ? '=' : B64[C & 63]);
        VH_ASSERT(!bad, "the base64 text spells the bytes of the value");
    }
}
//@H chunk_blob prop=V06 time=200 shards=8 tdefs=CHT=1 tshards=18 ttime=800
//@B chunk_blob binary values with any bytes, of length 0..4 and around the chunk limits of buffers of 257, 258 and 261 bytes: base64 which decodes to the same bytes
H(chunk_blob)
{
    debug_status = nullptr;
#ifdef CHT
    static const int LEN[] = {0, 1, 2, 3, 4, 187, 188, 189, 190, 191, 192, 193, 378, 379, 380, 381, 567, 568};
#else
    static const int LEN[] = {0, 1, 2, 3, 4, 188, 189, 190};
#endif
    static const int SZ[] = {257, 258, 261};
    int len = LEN[vh_choose(sizeof(LEN) / sizeof(LEN[0]))], size = SZ[vh_choose(3)];
    char *mem = (char*)malloc((4 + len + 7) / 8 * 8); *(uint32_t*)mem = (uint32_t)len;
    for (int i = 0; i < len; i++) mem[4+i] = (char)vh_u8();
    char *all = (char*)malloc(MAXTXT); int total = print_chunks(XBT_BLOB, mem, size, all, len);
    check_b64(all, total, mem + 4, len);
    same_stream(XBT_BLOB, mem, all, total);
    if (len) { const char *s = XBT_ToString(XBT_BLOB, mem); VH_ASSERT(s != nullptr && (int)strlen(s) == total && vh_eqn(s, all, total), "the buffered form is the chunked form"); }
    VH_REACH("printed");
}
static int hexv(char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
//@H chunk_hex prop=V06,V09 time=150 shards=13 merge=1
//@B chunk_hex hex values with any bytes, of 0..3, 15..17, 31..33 and 48 bytes, GUIDs and hashes, in buffers of 257, 258 and 300 bytes
H(chunk_hex)
{
    debug_status = nullptr;
    static const int LEN[] = {0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 48, 16, 20};
    static const int SZ[] = {257, 258, 300};
    int k = (int)vh_choose(13), len = LEN[k], size = SZ[vh_choose(3)];
    XML_Binary_Type t = k == 11 ? XBT_GUID : k == 12 ? XBT_SHA1 : XBT_HEX;
    alignas(8) char mem[64]; char *src = t == XBT_HEX ? mem + 4 : mem;
    if (t == XBT_HEX) *(uint32_t*)mem = (uint32_t)len;
    for (int i = 0; i < len; i++) src[i] = (char)vh_u8();
    char all[200]; int total = print_chunks(t, mem, size, all, len), nib = 0; uint32_t bad = 0;
    for (int i = 0; i < total; i++)
    {
        if (t == XBT_HEX && (nib % 32 == 0 ? nib > 0 : nib == 2 * len) && all[i] == '\n') continue;
        if (t == XBT_GUID && (i == 8 || i == 13 || i == 18 || i == 23)) { bad |= all[i] != '-'; continue; }
        VH_ASSERT(nib < 2 * len, "no more digits than the bytes have");
        uint32_t b = (uint8_t)src[nib >> 1], want = nib & 1 ? b & 15 : b >> 4;
        uint32_t lc = vh_ite32(want < 10, want + '0', want - 10 + 'a'), uc = vh_ite32(want < 10, want + '0', want - 10 + 'A');
        bad |= ((uint8_t)all[i] != lc) & ((uint8_t)all[i] != uc);
        nib++;
    }
    VH_ASSERT(!bad, "binary text spells the bytes of the value in hexadecimal");
    VH_ASSERT(nib == 2 * len, "every byte is printed");
    same_stream(t, mem, all, total);
    const char *s = XBT_ToString(t, mem);
    if (len) VH_ASSERT(s != nullptr && (int)strlen(s) == total && vh_eqn(s, all, total), "the buffered form is the chunked form");
    if (len && t != XBT_HEX)
    {
        alignas(8) char out[32]; char *wp = out;
        VH_ASSERT(XBT_FromString(s, t, &wp, out + sizeof(out)) && wp == out + len && vh_eqn(out, src, len), "the printed text is read back");
    }
    VH_REACH("printed");
}
