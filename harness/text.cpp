//@SRC utils.cpp macros.cpp missings.cpp
// Text utilities: number scanners (U01), masks (U02), base64 (U03), bounded string helpers (U04), file names (U05)
#include "vh.h"
#include "gen.h"
#include <string.h>
#include <binary_xml/macros.h>
#include <binary_xml/utils.h>
static int dig(char c) { return c >= '0' && c <= '9'; }
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int hexv(char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static int alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
// an exactly sized text of n arbitrary non-zero bytes
static char *text(int n) { char *s = (char*)malloc(n + 1); vh_str(s, n); return s; }
#ifndef NT
#define NT 5
#define NM 4
#define NV 4
#define NB 7
#define NF 4
#endif
// what a text starts with: ok, number of characters up to the end of the number, sign, magnitude, does it fit in 64 bits
struct Ref { int ok, end, neg, over; uint64_t x; };
static Ref ref(const char *s, bool sign, int hex)     // hex: 0 never, 1 after 0x, 2 always
{
    Ref r = {0, 0, 0, 0, 0}; int i = 0;
    while (sp(s[i])) i++;
    if (sign && s[i] == '-') { r.neg = 1; i++; }
    int base = 10;
    if (hex == 2) base = 16; else if (hex == 1 && s[i] == '0' && s[i+1] == 'x') { base = 16; i += 2; }
    for (;; i++)
    {
        int v = base == 16 ? hexv(s[i]) : dig(s[i]) ? s[i] - '0' : -1;
        if (v < 0) break;
        r.ok = 1; uint64_t lim = 0xffffffffffffffffull;
        if (r.x > lim / base || (r.x == lim / base && (uint64_t)v > lim % base)) r.over = 1;
        r.x = r.x * base + (uint64_t)v;
    }
    r.end = i; return r;
}
static void scanners(char *s, int n, int kind)
{
    const char *p = s; char *w = s; bool ok = false, okw = false, fits = true;
    Ref r = ref(s, kind <= 1 || kind == 4, kind == 2 || kind == 4 ? 1 : kind == 3 ? 2 : 0);
    uint64_t lim = kind == 0 ? (r.neg ? 0x80000000ull : 0x7fffffffull) : kind == 1 ? (r.neg ? 0x8000000000000000ull : 0x7fffffffffffffffull) : 0xffffffffffffffffull;
    fits = !r.over && r.x <= lim; uint64_t want = r.neg ? 0 - r.x : r.x, got = 0, gotw = 0;
    if (kind == 0) { int v = 0, v2 = 0; ok = ScanInt(p, v); got = (uint64_t)(int64_t)v; okw = ScanIntW(w, v2); gotw = (uint64_t)(int64_t)v2; }
    else if (kind == 1) { int64_t v = 0, v2 = 0; ok = ScanInt64(p, v); got = (uint64_t)v; okw = ScanInt64W(w, v2); gotw = (uint64_t)v2; }
    else if (kind == 2) { ok = ScanUInt64(p, got); okw = ScanUInt64W(w, gotw); }
    else if (kind == 3) { ok = ScanUInt64Hex(p, got); okw = ok; w = (char*)p; gotw = got; }
    VH_ASSERT(ok == okw && p == w, "both variants of a scanner agree");
    VH_ASSERT(ok == (r.ok && fits), "a scanner accepts exactly a number which fits");
    VH_ASSERT(p >= s && p <= s + n, "the cursor stays in the text");
    if (ok)
    {
        VH_ASSERT(p == s + r.end, "the cursor stands behind the last digit");
        VH_ASSERT(got == want && gotw == want, "a scanner gives the number spelled");
        VH_REACH("accepted");
    }
    else VH_REACH("refused");
}
static void getint(const char *s)
{
    Ref r = ref(s, true, 1); int v = GetInt(s);
    int hex = 0; { const char *q = s; while (sp(*q)) q++; if (*q == '-') q++; hex = q[0] == '0' && q[1] == 'x'; }
    uint64_t lim = hex ? 0xffffffffull : r.neg ? 0x80000000ull : 0x7fffffffull;
    if (r.ok && !r.over && r.x <= lim) { VH_ASSERT(v == (int)(r.neg ? 0 - r.x : r.x), "GetInt gives the number spelled"); VH_REACH("a number"); }
    else { VH_ASSERT(v == (int)0x80000000, "GetInt reports a text without a number, or a number which does not fit, as no value"); VH_REACH("no number"); }
}
//@H scan_any prop=U01 time=200 shards=15 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=35
//@B scan_any all texts of up to 5 bytes (thorough 7): ScanInt, ScanInt64, ScanUInt64, ScanUInt64Hex, GetInt and their writable variants
H(scan_any)
{
    int k = (int)vh_choose(5 * NT), kind = k % 5, n = k / 5 + 1;
    if (n == 1 && vh_choose(2)) n = 0;
    char *s = text(n);
    if (kind == 4) getint(s); else scanners(s, n, kind);
}
//@H scan_long prop=U01 time=200 shards=24
//@B scan_long with or without a blank, an optional sign and every number of up to two more digits than the type holds (17 hexadecimal digits), followed by any byte: acceptance, value and cursor of all scanners
H(scan_long)
{
    int c = (int)vh_choose(120), k = c % 20, n = k + 1, kind = c / 20, neg = 0, blank = (k + kind) & 1, i = 0;
    if (kind <= 1 || kind >= 4) neg = (int)vh_choose(2);
    bool hex = kind == 3 || kind == 5; if (hex && n > 17) return;
    char *s = (char*)malloc(n + 8); uint64_t x = 0; bool fits = true;
    if (blank) s[i++] = ' ';
    if (neg) s[i++] = '-';
    if (kind == 5) { s[i++] = '0'; s[i++] = 'x'; }
    uint64_t lim = kind == 0 || kind == 4 ? (neg ? 0x80000000ull : 0x7fffffffull) : kind == 1 ? (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull) : kind == 5 ? 0xffffffffull : 0xffffffffffffffffull;
    if (hex)
    {
        int z = (int)vh_choose(n + 1);       // leading zeros
        int pat = (int)vh_choose(5);         // decimal digits, small, capital letters, mixed
        for (int j = 0; j < n; j++)
        {
            int cls = j < z ? 0 : pat < 3 ? pat : (j & 1) ? 0 : pat - 2; uint8_t d;
            if (j < z) d = 0; else if (cls) d = (uint8_t)(10 + vh_below8(6)); else if (j == z) d = (uint8_t)(1 + vh_below8(9)); else d = vh_below8(10);
            s[i++] = (char)(cls == 0 ? '0' + d : cls == 1 ? 'a' + d - 10 : 'A' + d - 10); x = x * 16 + d;
        }
        fits = n - z <= (kind == 5 ? 8 : 16);
    }
    else
    {
        int d10 = 0; uint64_t t = lim; while (t) { d10++; t /= 10; }
        if (n > d10 + 2) return;
        uint8_t d[24]; int above = 0;
        if (n < d10) x = gen_number(n, lim, true, d);
        else
        {
            above = (int)vh_choose(3);
            if (above == 0) { int z = n - d10; for (int j = 0; j < z; j++) d[j] = 0; x = gen_number(d10, lim, true, d + z); }
            else if (above == 1)
            {                                // same number of digits, greater than the limit
                int z = n - d10; for (int j = 0; j < z; j++) d[j] = 0;
                int pd[20]; uint64_t t2 = lim; for (int j = d10; j-- > 0;) { pd[j] = (int)(t2 % 10); t2 /= 10; }
                int j = (int)vh_choose(d10); if (pd[j] == 9) vh_assume(false);
                for (int m = 0; m < d10; m++) d[z+m] = m < j ? (uint8_t)pd[m] : m == j ? (uint8_t)(pd[m] + 1 + vh_below8(9 - pd[m])) : vh_below8(10);
                fits = false;
            }
            else
            {                                // more digits than the limit
                int z = n - d10; if (z == 0) return;
                int j = vh_choose(2) ? z - 1 : 0; for (int m = 0; m < n; m++) d[m] = m < j ? 0 : m == j ? (uint8_t)(1 + vh_below8(9)) : vh_below8(10);
                fits = false;
            }
        }
        for (int j = 0; j < n; j++) s[i++] = (char)('0' + d[j]);
    }
    int end = i; char e = (char)vh_u8(); vh_assume(hex ? hexv(e) < 0 : !dig(e));
    if (!hex && n == 1) vh_assume(e != 'x');
    s[i++] = e; s[i] = 0;
    if (kind >= 4)
    {
        int v = GetInt(s);
        VH_ASSERT(v == (fits ? (int)(neg ? 0 - x : x) : (int)0x80000000), "GetInt gives the number spelled, or no value when it does not fit");
        VH_REACH("GetInt"); return;
    }
    const char *p = s; char *w = s; bool ok = false, okw = false; uint64_t got = 0, gotw = 0, want = neg ? 0 - x : x;
    if (kind == 0) { int v = 0, v2 = 0; ok = ScanInt(p, v); got = (uint64_t)(int64_t)v; okw = ScanIntW(w, v2); gotw = (uint64_t)(int64_t)v2; }
    else if (kind == 1) { int64_t v = 0, v2 = 0; ok = ScanInt64(p, v); got = (uint64_t)v; okw = ScanInt64W(w, v2); gotw = (uint64_t)v2; }
    else if (kind == 2) { ok = ScanUInt64(p, got); okw = ScanUInt64W(w, gotw); }
    else { ok = ScanUInt64Hex(p, got); okw = ok; w = (char*)p; gotw = got; }
    VH_ASSERT(ok == fits && okw == fits, "a scanner accepts exactly a number which fits");
    if (ok) { VH_ASSERT(p == s + end && w == s + end, "the cursor stands behind the last digit"); VH_ASSERT(got == want && gotw == want, "a scanner gives the number spelled"); VH_REACH("accepted"); }
    else VH_REACH("refused");
}
//@H scan_word prop=U01 time=100 shards=5 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=7
//@B scan_word all texts of up to 5 bytes and words of up to 3 bytes (thorough 7 and 4): Scan and ScanW
H(scan_word)
{
    int n = (int)vh_choose(NT + 1), m = vh_len(0, NT > 5 ? 4 : 3);
    char *s = text(n), *b = text(m); const char *p = s; char *w = s;
    int i = 0; while (sp(s[i])) i++;
    int eq = 1; for (int j = 0; j < m; j++) if (i + j >= n || s[i+j] != b[j]) { eq = 0; break; }
    bool ok = Scan(p, b), okw = ScanW(w, b);
    VH_ASSERT(ok == (eq != 0) && okw == ok, "a word is found exactly when the text goes on with it");
    VH_ASSERT(p == s + i + (eq ? m : 0) && w == p, "the cursor stands behind the blanks and the word found");
    if (ok) VH_REACH("found"); else VH_REACH("not found");
}
//@H mask prop=U02 time=200 shards=25 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=49
//@B mask all masks of up to 4 bytes and values of up to 4 bytes (thorough 6 and 6)
H(mask)
{
    int k = (int)vh_choose((NM + 1) * (NV + 1)), m = k % (NM + 1), n = k / (NM + 1);
    char *a = text(m), *v = text(n);
    uint32_t t[NM + 1][NV + 1];      // t[i][j]: the mask from i matches the value from j
    for (int i = m; i >= 0; i--) for (int j = n; j >= 0; j--)
    {
        if (i == m) { t[i][j] = j == n; continue; }
        uint32_t star = a[i] == '*', one = 0, run = t[i+1][j] | (j < n ? t[i][j+1] : 0);
        if (j < n) one = ((uint32_t)(a[i] == '?') | (uint32_t)(a[i] == v[j])) & t[i+1][j+1];
        t[i][j] = (star & run) | ((star ^ 1) & one);
    }
    uint32_t got = AdvEqual(a, v) ? 1 : 0;
    VH_ASSERT(got == t[0][0], "a value matches a mask exactly by the definition of the mask");
    VH_ASSERT(AdvEqual(nullptr, v), "no mask matches everything");
    VH_REACH("compared");
}
static const char B64[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
//@H b64_enc prop=U03 time=200 shards=8 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=14
//@B b64_enc all byte strings of up to 7 bytes (thorough 13) in every destination size from 1 to one more than needed
H(b64_enc)
{
    int n = (int)vh_choose(NB + 1), full = (n + 2) / 3 * 4, size = vh_len(1, full + 2);
    uint8_t *src = (uint8_t*)malloc(n + 1); uint8_t *in = (uint8_t*)malloc(n ? n : 1);
    for (int i = 0; i < n; i++) in[i] = src[i] = vh_u8();
    char *dst = (char*)malloc(size);
    for (int i = 0; i < size; i++) dst[i] = 'Z';
    char *r = base64_encode(in, n, dst, size);
    VH_ASSERT(r == dst, "the text is returned");
    int len = 0; while (len < size && dst[len] != 0) len++;
    VH_ASSERT(len < size, "the text is terminated inside its destination");
    uint32_t bad = 0;
    for (int i = 0; i < len; i++)
    {
        int g = i / 4 * 3, left = n - g; uint32_t A = g < n ? src[g] : 0, B = left > 1 ? src[g+1] : 0, C = left > 2 ? src[g+2] : 0;
        char want = i % 4 == 0 ? B64[A >> 2] : i % 4 == 1 ? B64[((A & 3) << 4) | (B >> 4)] : i % 4 == 2 ? (left < 2 ? '=' : B64[((B & 15) << 2) | (C >> 6)]) : left < 3 ? '=' : B64[C & 63];
        if (size > full) bad |= dst[i] != want;
        else { uint32_t in64 = 0; for (int j = 0; j < 64; j++) in64 |= dst[i] == B64[j]; bad |= !(in64 | (dst[i] == '=')); }
    }
    VH_ASSERT(!bad, "the text is base64 of the bytes");
    if (size > full)
    {
        VH_ASSERT(len == full, "every byte is encoded");
        char *back = (char*)malloc(n ? n : 1);
        int got = base64_decode((const unsigned char*)dst, len, back, n);
        VH_ASSERT(got == n && vh_eqn(back, src, n), "decoding gives the bytes back");
        char *more = (char*)malloc(n + 2); more[n] = 1; more[n+1] = 1;
        got = base64_decode((const unsigned char*)dst, len, more, n + 2);
        VH_ASSERT(got == n && vh_eqn(more, src, n), "decoding into a bigger destination gives the same bytes");
        VH_REACH("round trip");
    }
    else VH_REACH("too small");
}
static int b64v(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
//@H b64_dec prop=U03 time=200 shards=7 merge=1 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6
//@B b64_dec all texts of up to 8 bytes decoded into every destination size of 0..7
H(b64_dec)
{
    int size = (int)vh_choose(8), n = vh_len(0, 8);
    unsigned char *src = (unsigned char*)malloc(n ? n : 1); for (int i = 0; i < n; i++) src[i] = vh_u8();
    char *dst = (char*)malloc(size ? size : 1);
    int got = base64_decode(src, n, dst, size);
    VH_ASSERT(got >= 0 && got <= size, "the number of decoded bytes fits the destination");
    VH_ASSERT(got <= n / 4 * 3 + (n % 4 == 3 ? 2 : n % 4 == 2 ? 1 : 0), "not more bytes are decoded than the text holds");
    // the first character outside the alphabet ends the data
    int good = 0; while (good < n && b64v((char)src[good]) >= 0) good++;
    int bytes = good / 4 * 3 + (good % 4 == 3 ? 2 : good % 4 == 2 ? 1 : 0); if (bytes > size) bytes = size;
    VH_ASSERT(got == bytes, "the data end at the first character outside the alphabet");
    uint32_t bad = 0;
    for (int i = 0; i < bytes; i++)
    {
        int g = i / 3 * 4; uint32_t a = (uint32_t)b64v((char)src[g]), b = (uint32_t)b64v((char)src[g+1]), c = g + 2 < n ? (uint32_t)b64v((char)src[g+2]) : 0, d = g + 3 < n ? (uint32_t)b64v((char)src[g+3]) : 0;
        uint32_t want = i % 3 == 0 ? (a << 2) | (b >> 4) : i % 3 == 1 ? ((b & 15) << 4) | (c >> 2) : ((c & 3) << 6) | d;
        bad |= (want & 0xff) ^ (uint8_t)dst[i];
    }
    VH_ASSERT(!bad, "the decoded bytes are those of the text");
    VH_REACH("decoded");
}
//@H field prop=U04 time=200 shards=6 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=8
//@B field all texts of up to 5 bytes (thorough 7), a blank or any separator, destinations of 1..4 bytes: ScanStr and ScanStrW
H(field)
{
    int n = (int)vh_choose(NT + 1), size = vh_len(1, 4); char *s = text(n), sep = vh_choose(2) ? (char)vh_u8() : ' ';
    char *dst = (char*)malloc(size), *dst2 = (char*)malloc(size); const char *p = s; char *w = s;
    int i = 0; while (sp(s[i])) i++;
    int b = i; while (i < n && !(sep == ' ' ? sp(s[i]) : s[i] == sep)) i++;
    int len = i - b, end = i < n ? i + 1 : i, cut = len < size ? len : size - 1;
    bool ok = ScanStr(p, sep, dst, size), okw = ScanStrW(w, sep, dst2, size);
    VH_ASSERT(p == s + end && w == p, "the cursor stands behind the separator");
    VH_ASSERT(dst[cut] == 0 && vh_eqn(dst, s + b, cut) && dst2[cut] == 0 && vh_eqn(dst2, s + b, cut), "the field is copied, cut to the destination and terminated");
    VH_ASSERT(ok == (cut > 0) && okw == ok, "an empty field is reported");
    if (len > cut) VH_REACH("cut"); else VH_REACH("whole");
}
//@H strwrite prop=U04 time=60
//@B strwrite all sources of up to 5 bytes (with and without limit) and destinations of up to 6 bytes: StrWrite
H(strwrite)
{
    int n = (int)vh_choose(6), space = vh_len(0, 6); char *s = text(n), *d = (char*)malloc(space ? space : 1);
    for (int i = 0; i < space; i++) d[i] = 'Z';
    int m = n; const char *lim = nullptr; if (vh_choose(2)) { m = vh_len(0, n); lim = s + m; }
    char *dp = d; const char *sp_ = s;
    bool ok = StrWrite(dp, d + space, sp_, lim);
    VH_ASSERT(ok == (m <= space), "a text is copied exactly when it fits");
    int k = ok ? m : 0; VH_ASSERT(dp == d + k && sp_ == s + k, "both cursors stand behind the copied text");
    VH_ASSERT(vh_eqn(d, s, k), "the text is copied"); uint32_t bad = 0; for (int i = k; i < space; i++) bad |= d[i] != 'Z';
    VH_ASSERT(!bad, "nothing else is written");
    if (ok) VH_REACH("copied"); else VH_REACH("refused");
}
//@H skips prop=U04 time=100 shards=6 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=8
//@B skips all texts of up to 5 bytes (thorough 7): SkipSpaces, SkipLine, Go, GetIdentLen
H(skips)
{
    int n = (int)vh_choose(NT + 1), kind = (int)vh_choose(4); char *s = text(n); const char *p = s; char *w = s; int i = 0;
    if (kind == 0) { while (sp(s[i])) i++; SkipSpaces(p); SkipSpacesW(w); VH_ASSERT(p == s + i && w == p, "blanks are skipped"); VH_REACH("blanks"); }
    else if (kind == 1)
    {
        while (i < n && s[i] != '\n') i++;
        bool ok = SkipLine(p), okw = SkipLineW(w);
        VH_ASSERT(ok == (i < n) && okw == ok && p == s + i + (i < n) && w == p, "a line is skipped with its end"); VH_REACH("line");
    }
    else if (kind == 2)
    {
        char c = (char)vh_u8(); vh_assume(c != 0);
        while (i < n && s[i] != c) i++;
        bool ok = Go(p, c); VH_ASSERT(ok == (i < n) && p == s + i + (i < n), "the cursor goes behind the separator or to the end"); VH_REACH("go");
    }
    else
    {
        if (alpha(s[0]) || s[0] == '_') { i = 1; while (alpha(s[i]) || dig(s[i]) || s[i] == '_') i++; }
        VH_ASSERT(GetIdentLen(s) == i, "the length of an identifier is the number of its characters"); VH_REACH("identifier");
    }
}
//@H ends prop=U04 time=100 shards=5 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6
//@B ends all pairs of texts of up to 4 bytes (thorough 6): EatEnd and streq (with null pointers)
H(ends)
{
    int n = (int)vh_choose(NF + 1), m = vh_len(0, NF), kind = (int)vh_choose(2); char *s = text(n), *e = text(m); char old[16]; memcpy(old, s, n + 1);
    if (kind == 0)
    {
        int eq = m <= n; for (int i = 0; eq && i < m; i++) eq = s[n-m+i] == e[i];
        bool ok = EatEnd(s, e);
        VH_ASSERT(ok == (eq != 0), "an ending is found exactly when the text ends with it");
        VH_ASSERT(vh_eqn(s, old, ok ? n - m : n + 1) && s[ok ? n - m : n] == 0, "exactly the ending is cut off");
        if (ok) VH_REACH("cut"); else VH_REACH("other ending");
        return;
    }
    int eq = n == m; for (int i = 0; eq && i < n; i++) eq = s[i] == e[i];
    VH_ASSERT(streq(s, e) == (eq != 0), "texts are equal exactly when they have the same characters");
    VH_ASSERT(streq(s, nullptr) == (n == 0) && streq(nullptr, s) == (n == 0) && streq(nullptr, nullptr), "no text is an empty text");
    VH_REACH("equality");
}
//@H ident prop=U04 time=200 shards=7 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6
//@B ident all texts of up to 4 bytes (thorough 6), in six styles, and texts of 60..70 letters: MakeIdent gives a terminated identifier of at most 63 characters
H(ident)
{
    static const char *ST[] = {"", "_", "U", "U!", "_U", "_U!"};
    int k = (int)vh_choose(7), st = k;
    if (k == 6)
    {
        int n = vh_len(60, 70), at = (int)vh_choose(3); char *s = (char*)malloc(n + 1); for (int i = 0; i < n; i++) s[i] = (char)('a' + vh_below8(26)); s[n] = 0;
        if (at == 0) s[0] = (char)('0' + vh_below8(10)); if (at == 1) { s[59] = ' '; }
        const char *r = MakeIdent(s, ST[vh_choose(6)]); VH_ASSERT(strlen(r) < 64, "an identifier fits its buffer"); VH_REACH("long"); return;
    }
    int n = vh_len(0, NF); char *s = text(n); const char *r = MakeIdent(s, ST[st]); int len = (int)strlen(r);
    VH_ASSERT(len <= n + 1, "an identifier is not longer than its source");
    VH_ASSERT(len == 0 || GetIdentLen(r) == len, "the result is an identifier");
    if (st == 0 && n > 0)
    {   // a valid identifier is kept as it is
        int ok = alpha(s[0]) || s[0] == '_'; for (int i = 1; ok && i < n; i++) ok = alpha(s[i]) || dig(s[i]) || s[i] == '_';
        if (ok) { VH_ASSERT(len == n && vh_eqn(r, s, n), "an identifier stays the same"); VH_REACH("kept"); }
    }
    VH_REACH("made");
}
//@H version prop=U01 time=100 shards=6
//@B version all texts of up to 5 bytes: GetVersion gives up to four dot-separated numbers, each limited to 0..255
H(version)
{
    int n = (int)vh_choose(6); char *s = text(n); uint32_t want = 0; int i = 0;
    for (int k = 0; k < 4 && s[i]; k++)
    {
        Ref r = ref(s + i, true, 0); if (!r.ok || r.over || r.x > 0x7fffffff) break;
        uint32_t v = r.neg ? 0 : r.x > 255 ? 255 : (uint32_t)r.x; want |= v << (24 - 8 * k);
        i += r.end; if (s[i] != '.') break; i++;
    }
    VH_ASSERT(GetVersion(s) == want, "a version is its numbers"); VH_ASSERT(GetVersion(nullptr) == 0, "no version is zero"); VH_REACH("version");
}
//@H filename prop=U05 time=200 shards=15 steps=20000000 tdefs=NT=7,NM=6,NV=6,NB=13,NF=6 tshards=21
//@B filename all names of up to 4 bytes (thorough 6), target directories of up to 2 bytes or none, an extension of 0..3 bytes or none
H(filename)
{
    int k = (int)vh_choose(3 * (NF + 1)), n = k / 3, dirk = k % 3, ext = vh_len(-1, 2); char *s = text(n);
    char *dir = dirk == 0 ? nullptr : text(dirk); char *e = ext < 0 ? nullptr : text(ext);
    char want[40]; int w = 0, b = 0;
    while (s[b] == '.' && s[b+1] == '/') b += 2;
    if (dir) { for (int i = 0; i < dirk; i++) want[w++] = dir[i]; want[w++] = '/'; if (s[b] == '/') b++; }
    for (int i = b; i < n; i++) want[w++] = s[i];
    int dot = -1, start = 0; for (int i = 0; i < w; i++) { if (want[i] == '/') { dot = -1; start = i + 1; } else if (want[i] == '.') dot = i; }
    if (e)
    {
        vh_assume(dot < 0 || dot > start);         // a name which only has a leading dot: not specified
        vh_assume(w > start);                      // no name at all
        if (dot >= 0) w = dot;
        for (int i = 0; i < ext; i++) want[w++] = e[i];
    }
    char *r = AllocFilenameChangeExt(s, e, dir);
    VH_ASSERT(r != nullptr && (int)strlen(r) == w && vh_eqn(r, want, w), "the name has its extension replaced and its directory prepended");
    VH_ASSERT(AllocFilenameChangeExt(nullptr, e, dir) == nullptr, "no name gives no name");
    VH_REACH("named");
}
