#include "expr.h"
#include <random>
#include <cstdio>
#include <vector>
#include <functional>
typedef unsigned __int128 u128;
static std::mt19937_64 R;
static u64 mk(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static s64 sx(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }
struct N { E e; std::vector<u64> val; };   // value under K assignments
static const int K = 6;
int main(int c, char **v) {
  u64 seed = c > 1 ? atoll(v[1]) : 1, rounds = c > 2 ? atoll(v[2]) : 20000; R.seed(seed);
  const unsigned ws[] = {1, 8, 16, 32, 64};
  u64 consts[] = {0,1,2,3,5,9,10,16,31,48,57,100,127,128,255,256,1000,3600,86400,1000000000ull,0x7fffffffull,0x80000000ull,0xffffffffull,10000000000000000000ull,0x7fffffffffffffffull,0x8000000000000000ull,~0ull,~0ull-9};
  std::vector<N> syms; std::vector<std::vector<u64>> asg(K);
  for (int i = 0; i < 24; i++) { unsigned w = ws[1 + i % 4]; u64 b = 0; if (i % 4 == 0 && i % 8) b = 9; if (i == 8) b = 5; N n; n.e = mksym(w, true, "s" + std::to_string(i), b); for (int k = 0; k < K; k++) { u64 x = R() & mk(w); if (R() % 4 == 0) x = consts[R() % 28] & mk(w); if (b) x %= b + 1; n.val.push_back(x); asg[k].push_back(x); } syms.push_back(n); }
  u64 id = 1, bad = 0;
  for (u64 r = 0; r < rounds; r++) {
    std::vector<N> pool; for (int i = 0; i < 6; i++) pool.push_back(syms[R() % syms.size()]);
    for (int i = 0; i < 3; i++) { unsigned w = ws[R() % 5]; u64 x = R() % 3 ? consts[R() % 28] : R(); N n; n.e = mkc(x & mk(w), w); n.val.assign(K, x & mk(w)); pool.push_back(n); }
    for (int st = 0; st < 25; st++) {
      N a = pool[R() % pool.size()], n; unsigned w = a.e->w; int op = R() % 17; n.val.resize(K);
      auto conv = [&](N x, unsigned w) { N y; y.val.resize(K); if (x.e->w == w) return x; if (x.e->w > w) { y.e = mkext(x.e, 0, w); for (int k = 0; k < K; k++) y.val[k] = x.val[k] & mk(w); } else if (R() % 2) { y.e = mkz(x.e, w); y.val = x.val; } else { y.e = mks(x.e, w); for (int k = 0; k < K; k++) y.val[k] = (u64)sx(x.val[k], x.e->w) & mk(w); } return y; };
      if (op < 12) {
        static const Kind kk[] = {KAdd,KSub,KMul,KUDiv,KURem,KSDiv,KSRem,KAnd,KOr,KXor,KAdd,KMul};
        N b = conv(pool[R() % pool.size()], w); Kind k = kk[op];
        if (k >= KUDiv && k <= KSRem || (op == 11) || (op==2)) { u64 x = consts[R() % 28] & mk(w); if (k != KMul && x == 0) x = 1; b.e = mkc(x, w); b.val.assign(K, x); }
        n.e = mkbin(k, a.e, b.e);
        for (int i = 0; i < K; i++) { u64 x = a.val[i], y = b.val[i], z = 0; switch (k) { case KAdd: z = x + y; break; case KSub: z = x - y; break; case KMul: z = x * y; break; case KUDiv: z = x / y; break; case KURem: z = x % y; break;
          case KSDiv: z = sx(y, w) == -1 ? 0 - x : (u64)(sx(x, w) / sx(y, w)); break; case KSRem: z = sx(y, w) == -1 ? 0 : (u64)(sx(x, w) % sx(y, w)); break; case KAnd: z = x & y; break; case KOr: z = x | y; break; case KXor: z = x ^ y; break; default:; } n.val[i] = z & mk(w); }
      } else if (op == 12) { unsigned s = R() % w; Kind k = R() % 3 == 0 ? KShl : R() % 2 ? KLShr : KAShr; n.e = mkbin(k, a.e, mkc(s, w)); for (int i = 0; i < K; i++) n.val[i] = (k == KShl ? a.val[i] << s : k == KLShr ? a.val[i] >> s : (u64)(sx(a.val[i], w) >> s)) & mk(w); }
      else if (op == 13) { n = conv(a, ws[R() % 5]); }
      else if (op == 14) { N b = conv(pool[R() % pool.size()], w); Kind kk[] = {KEq, KUlt, KUle, KSlt, KSle}; Kind k = kk[R() % 5]; n.e = mkbin(k, a.e, b.e); for (int i = 0; i < K; i++) { u64 x = a.val[i], y = b.val[i]; s64 p = sx(x, w), q = sx(y, w); n.val[i] = k == KEq ? x == y : k == KUlt ? x < y : k == KUle ? x <= y : k == KSlt ? p < q : p <= q; } }
      else if (op == 15) { N b = conv(pool[R() % pool.size()], w), d = conv(pool[R() % pool.size()], 1); n.e = mkite(d.e, a.e, b.e); for (int i = 0; i < K; i++) n.val[i] = d.val[i] ? a.val[i] : b.val[i]; }
      else { N b = pool[R() % pool.size()]; if (w + b.e->w > 64) continue; n.e = mkconcat(a.e, b.e); for (int i = 0; i < K; i++) n.val[i] = (a.val[i] << b.e->w) | b.val[i]; unsigned lo = R() % (w + b.e->w); unsigned ww = 8; if (lo + 8 <= w + b.e->w && R() % 2) { n.e = mkext(n.e, lo, ww); for (int i = 0; i < K; i++) n.val[i] = (n.val[i] >> lo) & 255; } else if (n.e->w != 16 && n.e->w != 32 && n.e->w != 64) continue; }
      for (int i = 0; i < K; i++) { u64 g = evalE(n.e, asg[i], id++); if (g != n.val[i]) { bad++; printf("MISMATCH op %d w %u got %llx want %llx\n  a=%s\n  e=%s\n", op, w, (unsigned long long)g, (unsigned long long)n.val[i], showE(a.e).substr(0,300).c_str(), showE(n.e).substr(0, 600).c_str()); if (bad > 3) return 1; break; } if (upper(n.e) < n.val[i]) { printf("UB wrong\n"); return 1; } }
      pool.push_back(n); if (pool.size() > 22) pool.erase(pool.begin());
    }
  }
  printf("done bad=%llu\n", (unsigned long long)bad); return bad != 0;
}
