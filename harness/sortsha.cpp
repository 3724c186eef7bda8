//@SRC missings.cpp macros.cpp
// Sorting (M01) and SHA-1 (M02)
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <binary_xml/missings.h>
#ifndef SN
#define SN 6
#endif
static int g_arg;
static int cmp(const void *a, const void *b, void *arg)
{
    VH_ASSERT(arg == &g_arg, "the comparison gets its argument");
    uint8_t x = *(const uint8_t*)a, y = *(const uint8_t*)b;
    return x < y ? -1 : x > y ? 1 : 0;
}
static const int ES[] = {2, 4, 12, 3};
// n elements of es bytes: the key, the number of the element, filling
static void prepare(uint8_t *m, int n, int es) { for (int i = 0; i < n; i++) { m[i*es] = vh_u8(); m[i*es+1] = (uint8_t)i; for (int j = 2; j < es; j++) m[i*es+j] = (uint8_t)(i * 16 + j); } }
static void check(const uint8_t *m, const uint8_t *old, int n, int es, bool stable)
{
    int seen = 0;
    for (int i = 0; i < n; i++)
    {
        int k = m[i*es+1];
        VH_ASSERT(k < n && !(seen >> k & 1), "every element is there once"); seen |= 1 << k;
        VH_ASSERT(vh_eqn(m + i*es, old + k*es, es), "elements stay whole");
        if (i == 0) continue;
        VH_ASSERT(m[(i-1)*es] <= m[i*es], "the elements are in order");
        if (stable) VH_ASSERT(m[(i-1)*es] != m[i*es] || m[(i-1)*es+1] < k, "equal elements keep their order");
    }
}
//@H merge_sort prop=M01 time=200 shards=7 tdefs=SN=7 ttime=800 tshards=8
//@B merge_sort all lists of up to 6 elements (thorough 7) of 2, 3, 4 and 12 bytes with any keys: mergesort_r2
H(merge_sort)
{
    int n = SN - (int)vh_choose(SN + 1), es = n == SN ? 4 : ES[vh_choose(4)];
    uint8_t *m = (uint8_t*)malloc(n * es + 1), *old = (uint8_t*)malloc(n * es + 1);
    m = (uint8_t*)realloc(m, n ? n * es : 1);
    prepare(m, n, es); memcpy(old, m, n * es);
    mergesort_r2(m, n, es, cmp, &g_arg);
    check(m, old, n, es, true);
    VH_REACH("sorted");
}
// presorted and repeating keys: longer lists, whose order is known up to a symbolic element
//@H merge_long prop=M01 time=200 shards=8
//@B merge_long lists of 7..17 elements (and 31..33) made of a known order (ascending, descending, equal, saw) with one element of any key at any place
H(merge_long)
{
    static const int NS[] = {7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33};
    int c = (int)vh_choose(14 * 4), n = NS[c % 14], pat = c / 14, at = (int)vh_choose(n);
    uint8_t *m = (uint8_t*)malloc(n * 2), old[80];
    for (int i = 0; i < n; i++) { m[2*i] = (uint8_t)(pat == 0 ? 3 * i + 5 : pat == 1 ? 3 * (n - i) : pat == 2 ? 50 : (i * 7) % 13 * 9); m[2*i+1] = (uint8_t)i; }
    m[2*at] = vh_u8(); memcpy(old, m, n * 2);
    mergesort_r2(m, n, 2, cmp, &g_arg);
    unsigned long long seen = 0;
    for (int i = 0; i < n; i++)
    {
        int k = m[2*i+1]; VH_ASSERT(k < n && !(seen >> k & 1), "every element is there once"); seen |= 1ull << k;
        VH_ASSERT(m[2*i] == old[2*k], "elements stay whole");
        if (i) VH_ASSERT(m[2*i-2] < m[2*i] || (m[2*i-2] == m[2*i] && m[2*i-1] < k), "the elements are in order and equal ones keep it");
    }
    VH_REACH("sorted");
}
//@H quick_sort prop=M01 time=200 shards=7 steps=200000
//@B quick_sort all lists of up to 6 elements of 2, 3, 4 and 12 bytes with any keys: qsort_r2 (order of equal elements is free)
H(quick_sort)
{
    int n = SN - (int)vh_choose(SN + 1), es = n == SN ? 4 : ES[vh_choose(4)];
    uint8_t *m = (uint8_t*)malloc(n ? n * es : 1), *old = (uint8_t*)malloc(n * es + 1);
    prepare(m, n, es); memcpy(old, m, n * es);
    qsort_r2(m, n, es, cmp, &g_arg);
    check(m, old, n, es, false);
    VH_REACH("sorted");
}
// ---- SHA-1, written from FIPS 180
#define rol(x, n) ({ uint32_t r_; __asm__("rol %1,%0" : "=r"(r_) : "i"(n), "0"((uint32_t)(x))); r_; })
static void compress(uint32_t *h, const uint8_t *b)
{
    uint32_t w[80];
    uint32_t A = h[0], B = h[1], C = h[2], D = h[3], E = h[4];
    for (int t = 0; t < 80; t++)
    {
        uint32_t x; if (t < 16) x = ((uint32_t)b[4*t] << 24) | ((uint32_t)b[4*t+1] << 16) | ((uint32_t)b[4*t+2] << 8) | b[4*t+3]; else x = rol(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16], 1);
        w[t] = x;
        uint32_t f = t < 20 ? (((C ^ D) & B) ^ D) : t < 40 ? (B ^ C ^ D) : t < 60 ? ((B & C) + (D & (B ^ C))) : (B ^ C ^ D);
        uint32_t k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
        uint32_t T = E + (x + rol(A, 5) + f + k);
        E = D; D = C; C = rol(B, 30); B = A; A = T;
    }
    h[0] += A; h[1] += B; h[2] += C; h[3] += D; h[4] += E;
}
static void ref_sha1(const uint8_t *m, int n, uint8_t *out)
{
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    uint8_t b[64]; int i = 0;
    for (; n - i >= 64; i += 64) compress(h, m + i);
    int r = n - i; memset(b, 0, 64); memcpy(b, m + i, r); b[r] = 0x80;
    if (r >= 56) { compress(h, b); memset(b, 0, 64); }
    uint64_t bits = (uint64_t)n * 8; for (int j = 0; j < 8; j++) b[56+j] = (uint8_t)(bits >> (56 - 8 * j));
    compress(h, b);
    for (int j = 0; j < 20; j++) out[j] = (uint8_t)(h[j/4] >> (24 - 8 * (j % 4)));
}
//@H sha_vectors prop=M02 time=60
//@B sha_vectors the published digests of "", "abc" and the 56-byte message of FIPS 180: reference and code
H(sha_vectors)
{
    static const char *M[] = {"", "abc", "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"};
    static const uint8_t D[3][20] = {{0xda,0x39,0xa3,0xee,0x5e,0x6b,0x4b,0x0d,0x32,0x55,0xbf,0xef,0x95,0x60,0x18,0x90,0xaf,0xd8,0x07,0x09}, {0xa9,0x99,0x3e,0x36,0x47,0x06,0x81,0x6a,0xba,0x3e,0x25,0x71,0x78,0x50,0xc2,0x6c,0x9c,0xd0,0xd8,0x9d}, {0x84,0x98,0x3e,0x44,0x1c,0x3b,0xd2,0x6e,0xba,0xae,0x4a,0xa1,0xf9,0x51,0x29,0xe5,0xe5,0x46,0x70,0xf1}};
    int i = (int)vh_choose(3); uint8_t a[20], b[20];
    ref_sha1((const uint8_t*)M[i], (int)strlen(M[i]), a); SHA1((const unsigned char*)M[i], strlen(M[i]), b);
    VH_ASSERT(!memcmp(a, D[i], 20), "the reference gives the published digest");
    VH_ASSERT(!memcmp(b, D[i], 20), "the code gives the published digest");
    VH_REACH("vector");
}
//@H sha_msg prop=M02 time=200 shards=16 steps=100000000
//@B sha_msg all messages of 0..8, 52..66, 116..130 and 180..194 bytes at once, split into two updates at every place near a block boundary, and into three
H(sha_msg)
{
    int c = (int)vh_choose(54), n = c < 9 ? c : c < 24 ? 43 + c : c < 39 ? 92 + c : 141 + c;
    uint8_t *m = (uint8_t*)malloc(n ? n : 1), want[20], got[20]; for (int i = 0; i < n; i++) m[i] = vh_u8();
    ref_sha1(m, n, want);
    VH_ASSERT(SHA1(m, n, got) == got && vh_eqn(got, want, 20), "the digest is that of the standard");
    int a = (int)vh_choose(n + 1), r = a & 63; if (n > 8 && !(r < 3 || r > 61 || (r > 53 && r < 58))) vh_assume(false);
    int b = n - a > 3 ? a + (n - a) / 2 + (a & 1) : a;
    for (int parts = 2; parts <= 3; parts++)
    {
        blk_SHA_CTX x; blk_SHA1_Init(&x);
        blk_SHA1_Update(&x, m, a);
        if (parts == 3) { blk_SHA1_Update(&x, m + a, b - a); blk_SHA1_Update(&x, m + b, n - b); } else blk_SHA1_Update(&x, m + a, n - a);
        blk_SHA1_Final(got, &x);
        VH_ASSERT(vh_eqn(got, want, 20), "the digest does not depend on the chunking");
    }
    VH_REACH("digest");
}
// an arbitrary state of a running digest with i bytes waiting
static void any_state(blk_SHA_CTX &x, uint32_t *h, uint8_t *w, int i)
{
    for (int j = 0; j < 5; j++) x.H[j] = h[j] = vh_u32();
    for (int j = 0; j < 64; j++) ((uint8_t*)x.W)[j] = w[j] = vh_u8();
    uint64_t hi = vh_u64(); x.size = (hi & 0x1fffffffffffffc0ull) | (unsigned)i;     // messages of up to 2^61 bytes
}
//@H sha_final prop=M02 time=200 shards=8 steps=100000000
//@B sha_final from any intermediate state and any total length up to 2^61 bytes: padding, length and output
H(sha_final)
{
    int i = (int)vh_choose(64); blk_SHA_CTX x; uint32_t h[5]; uint8_t w[64], out[20]; any_state(x, h, w, i);
    uint64_t bits = x.size << 3; uint8_t b[64]; memset(b, 0, 64); memcpy(b, w, i); b[i] = 0x80;
    if (i >= 56) { compress(h, b); memset(b, 0, 64); }
    for (int j = 0; j < 8; j++) b[56+j] = (uint8_t)(bits >> (56 - 8 * j));
    compress(h, b);
    blk_SHA1_Final(out, &x);
    for (int j = 0; j < 20; j++) VH_ASSERT(out[j] == (uint8_t)(h[j/4] >> (24 - 8 * (j % 4))), "the digest of the final state is that of the standard");
    VH_REACH("final");
}
//@H sha_update prop=M02 time=200 shards=16 steps=100000000
//@B sha_update from any intermediate state with 0..63 waiting bytes, an update of 0..3, 62..66 or 128..130 bytes, or one around the end of the block: state and total length
H(sha_update)
{
    int i = (int)vh_choose(64), k = (int)vh_choose(16), n = k < 4 ? k : k < 9 ? 58 + k : k < 12 ? 119 + k : 64 - i + k - 14; if (n < 0) n = 0;
    blk_SHA_CTX x; uint32_t h[5]; uint8_t w[64]; any_state(x, h, w, i); uint64_t size = x.size;
    uint8_t *m = (uint8_t*)malloc(n ? n : 1), all[64 + 200]; memcpy(all, w, i); for (int j = 0; j < n; j++) all[i+j] = m[j] = vh_u8();
    blk_SHA1_Update(&x, m, n);
    int at = 0; for (; i + n - at >= 64; at += 64) compress(h, all + at);
    VH_ASSERT(x.size == size + (uint64_t)n, "the total length grows by the length of the update");
    for (int j = 0; j < 5; j++) VH_ASSERT(x.H[j] == h[j], "whole blocks are mixed into the state");
    VH_ASSERT(vh_eqn(x.W, all + at, i + n - at), "the rest waits for its block");
    VH_REACH("update");
}
