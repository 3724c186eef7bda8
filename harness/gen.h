// every number of a given number of decimal digits up to a maximum, as symbolic digits (case split over the shape)
#pragma once
#include "vh.h"
static uint64_t gen_number(int n, uint64_t max, bool leading_zeros = false, uint8_t *out = nullptr)
{
    int md[20], mn = 0; uint64_t t = max; int tmp[20];
    while (t > 0 || mn == 0) { tmp[mn++] = (int)(t % 10); t /= 10; }
    for (int i = 0; i < mn; i++) md[i] = tmp[mn - 1 - i];
    uint64_t v = 0; int lo = (leading_zeros || n == 1) ? 0 : 1;
    if (n > mn) vh_assume(false);
    if (n < mn)
    {
        for (int i = 0; i < n; i++) { uint8_t d = i == 0 ? (uint8_t)(lo + vh_below8(10 - lo)) : vh_below8(10); if (out) out[i] = d; v = v * 10 + d; }
        return v;
    }
    int j = (int)vh_choose((uint32_t)n + 1);
    for (int i = 0; i < n; i++)
    {
        int l = i == 0 ? lo : 0; uint8_t d;
        if (i < j) d = (uint8_t)md[i];
        else if (i == j) { if (md[i] - l <= 0) vh_assume(false); d = (uint8_t)(l + vh_below8((uint32_t)(md[i] - l))); }
        else d = vh_below8(10);
        if (out) out[i] = d;
        v = v * 10 + d;
    }
    return v;
}
// digits d[0..n-1] (most significant first) of every n-digit string read with z zeros appended, split so that the comparison with a
// 10-digit pivot is decided by the shape: leading zeros, then below / equal / above the pivot
static void gen_digits(uint8_t *d, int n, int z, uint64_t pivot)
{
    int T = n + z;
    if (T <= 9) { for (int i = 0; i < n; i++) d[i] = vh_below8(10); return; }
    int lead = (int)vh_choose((uint32_t)n + 1), m = T - lead;         // leading zeros
    for (int i = 0; i < lead; i++) d[i] = 0;
    if (lead == n) return;
    if (m != 10) { for (int i = lead; i < n; i++) d[i] = i == lead ? (uint8_t)(1 + vh_below8(9)) : vh_below8(10); return; }
    int pd[10]; uint64_t t = pivot; for (int i = 9; i >= 0; i--) { pd[i] = (int)(t % 10); t /= 10; }
    int k = n - lead, j = (int)vh_choose((uint32_t)k + 1), above = j < k ? (int)vh_choose(2) : 0;
    for (int i = 0; i < k; i++)
    {
        int lo = i == 0 ? 1 : 0; uint8_t x;
        if (i < j) x = (uint8_t)pd[i];
        else if (i == j && above) { if (pd[i] == 9) vh_assume(false); x = (uint8_t)(pd[i] + 1 + vh_below8((uint32_t)(9 - pd[i]))); }
        else if (i == j) { if (pd[i] - lo <= 0) vh_assume(false); x = (uint8_t)(lo + vh_below8((uint32_t)(pd[i] - lo))); }
        else x = vh_below8(10);
        d[lead + i] = x;
    }
}
