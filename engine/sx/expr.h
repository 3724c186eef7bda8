// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <string>
#include <cassert>
#include <algorithm>
#include <z3.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t s64;
enum Kind : u8 { KConst, KSym, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
                 KConcat, KExtract, KZExt, KSExt, KEq, KUlt, KUle, KSlt, KSle, KNot, KIte };
struct Expr;
typedef const Expr *E;
typedef std::vector<u32> SymSet;         // sorted
struct Expr {
    Kind k; u8 w; u32 id; u64 c;          // c: constant, symbol index or extract offset
    E a, b, d;
    const SymSet *syms;
    mutable u64 evm; mutable u64 evv; mutable u64 evub; mutable bool evub_set;     // evaluation memo: model id, value
    mutable Z3_ast zbv, zbool;
    mutable Z3_ast proxy; mutable u64 proxy_gen;
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline s64 sextw(u64 v, unsigned w) { if (w >= 64) return (s64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (s64)((v ^ m) - m); }
struct Key { Kind k; u8 w; u64 c; E a, b, d; bool operator==(const Key &o) const { return k == o.k && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct KeyH { size_t operator()(const Key &x) const { u64 h = x.k * 0x9E3779B97F4A7C15ULL + x.w; h = (h ^ x.c) * 0xff51afd7ed558ccdULL; h ^= h >> 29; h = (h ^ (u64)x.a) * 0xc4ceb9fe1a85ec53ULL; h = (h ^ (u64)x.b) * 0x9E3779B97F4A7C15ULL; h ^= h >> 32; h = (h ^ (u64)x.d) * 0xff51afd7ed558ccdULL; return h ^ (h >> 31); } };
extern std::unordered_map<Key, E, KeyH> g_tab;
extern u32 g_nexpr;
struct SymInfo { u8 w; bool input; std::string name; u64 ord; u64 ub; };
extern std::vector<SymInfo> g_syms;
E mkraw(Kind k, u8 w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr);
E mkc(u64 v, unsigned w);
E mksym(unsigned w, bool input, const std::string &nm, u64 ub = 0);
E mkbin(Kind k, E a, E b);
E mknot(E a);
E mkite(E c, E a, E b);
E mkext(E a, unsigned off, unsigned w);     // extract
E mkconcat(E hi, E lo);
E mkz(E a, unsigned w);
E mks(E a, unsigned w);
u64 upper(E e);
u64 evalE(E e, const std::vector<u64> &m, u64 mid);
static inline bool isc(E e) { return e->k == KConst; }
static inline bool istrue(E e) { return e->k == KConst && e->c == 1; }
static inline bool isfalse(E e) { return e->k == KConst && e->c == 0; }
static inline E mkeq(E a, E b) { return mkbin(KEq, a, b); }
std::string showE(E e, int depth = 6);
u64 ubound(E e);
E acnorm(E root);
size_t dagsize(E root, size_t lim);
