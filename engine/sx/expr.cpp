#include "expr.h"
#include <deque>
std::unordered_map<Key, E, KeyH> g_tab;
u32 g_nexpr = 0;
std::vector<SymInfo> g_syms;
static std::deque<Expr> pool;
static SymSet emptyset;
static std::deque<SymSet> setpool;
static const SymSet *unionset(const SymSet *a, const SymSet *b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    SymSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    if (r.size() == a->size()) return a;
    if (r.size() == b->size()) return b;
    setpool.push_back(std::move(r)); return &setpool.back();
}
E mkraw(Kind k, u8 w, u64 c, E a, E b, E d) {
    Key key{k, w, c, a, b, d};
    auto it = g_tab.find(key);
    if (it != g_tab.end()) return it->second;
    pool.emplace_back();
    Expr &x = pool.back();
    x.k = k; x.w = w; x.id = g_nexpr++; x.c = c; x.a = a; x.b = b; x.d = d; x.evm = 0; x.evv = 0; x.zbv = x.zbool = x.proxy = nullptr; x.proxy_gen = 0; x.evub = 0; x.evub_set = false;
    const SymSet *s = &emptyset;
    if (k == KSym) { setpool.push_back(SymSet{(u32)c}); s = &setpool.back(); }
    else { if (a) s = unionset(s, a->syms); if (b) s = unionset(s, b->syms); if (d) s = unionset(s, d->syms); }
    x.syms = s;
    g_tab.emplace(key, &x);
    return &x;
}
E mkc(u64 v, unsigned w) { return mkraw(KConst, w, v & maskw(w)); }
E mksym(unsigned w, bool input, const std::string &nm, u64 b) { u32 i = g_syms.size(); g_syms.push_back({(u8)w, input, nm, i, b}); return mkraw(KSym, w, i); }
static u64 fold(Kind k, u64 a, u64 b, unsigned w) {
    u64 m = maskw(w);
    switch (k) {
    case KAdd: return (a + b) & m; case KSub: return (a - b) & m; case KMul: return (a * b) & m;
    case KUDiv: return b ? a / b : m; case KURem: return b ? a % b : a;
    case KSDiv: { s64 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case KSRem: { s64 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case KAnd: return a & b; case KOr: return a | b; case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << b) & m; case KLShr: return b >= w ? 0 : a >> b;
    case KAShr: { s64 x = sextw(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
    case KEq: return a == b; case KUlt: return a < b; case KUle: return a <= b;
    case KSlt: return sextw(a, w) < sextw(b, w); case KSle: return sextw(a, w) <= sextw(b, w);
    default: assert(0); return 0;
    }
}
static bool iscmp(Kind k) { return k == KEq || k == KUlt || k == KUle || k == KSlt || k == KSle; }
// upper bound, memoised per node
static u64 ub(E e, int = 0);
u64 ubound(E e) { return ub(e); }
static u64 ub1(E e) {
    switch (e->k) {
    case KZExt: return ub(e->a);
    case KAnd: return std::min(ub(e->a), ub(e->b));
    case KURem: if (isc(e->b) && e->b->c) return std::min(e->b->c - 1, ub(e->a)); return maskw(e->w);
    case KLShr: if (isc(e->b) && e->b->c < e->w) return ub(e->a) >> e->b->c; return maskw(e->w);
    case KIte: return std::max(ub(e->b), ub(e->d));
    case KConcat: return (ub(e->a) << e->b->w) + ub(e->b);
    case KAdd: case KMul: { u64 x = ub(e->a), y = ub(e->b), m = maskw(e->w); unsigned __int128 t = e->k == KAdd ? (unsigned __int128)x + y : (unsigned __int128)x * y; return t <= m ? (u64)t : m; }
    case KUDiv: if (isc(e->b) && e->b->c) return ub(e->a) / e->b->c; return maskw(e->w);
    case KExtract: return std::min(ub(e->a) >> e->c, maskw(e->w));
    case KOr: case KXor: { if (e->w == 1) return 1; u64 x = ub(e->a) | ub(e->b); for (int i = 1; i < 64; i *= 2) x |= x >> i; return x; }
    case KSym: if (g_syms[e->c].ub) return g_syms[e->c].ub; return maskw(e->w);
    default: return maskw(e->w);
    }
}
static u64 ub(E e, int) {
    if (e->k == KConst) return e->c;
    if (e->evub_set) return e->evub;
    u64 r = ub1(e); e->evub = r; e->evub_set = true; return r;
}
u64 upper(E e) { return ub(e, 40); }
// linear normal form: sum of coefficient * atom + constant, atoms ordered by id
static const size_t LINMAX = 48;
static inline bool lin1(E e) { return e->k == KAdd || e->k == KSub || (e->k == KMul && isc(e->b)); }
static inline bool lin(E e) { return lin1(e) || (e->k == KExtract && e->c == 0 && e->w >= 16 && lin1(e->a)); }
static bool srange(E e, __int128 &lo, __int128 &hi);
typedef std::vector<std::pair<E, u64>> Lin;
static bool lincollect(E e, u64 k, Lin &l, u64 &c) {
    if (l.size() > LINMAX) return false;
    if (isc(e)) { c += k * e->c; return true; }
    if (e->k == KAdd) return lincollect(e->a, k, l, c) && lincollect(e->b, k, l, c);
    if (e->k == KSub) return lincollect(e->a, k, l, c) && lincollect(e->b, 0 - k, l, c);
    if (e->k == KMul && isc(e->b)) return lincollect(e->a, k * e->b->c, l, c);
    if (e->k == KExtract && e->c == 0 && e->w >= 16 && lin1(e->a)) {   // a sum of small values keeps its shape at a smaller width
        Lin t, n; u64 cc = 0; bool ok = lincollect(e->a, 1, t, cc); std::vector<E> at;
        for (auto &p : t) { if (!ok) break; ok = p.first->k == KZExt && p.first->a->w < e->w; if (ok) at.push_back(mkz(p.first->a, e->w)); }
        if (ok) { c += k * (cc & maskw(e->w)); for (size_t i = 0; i < t.size(); i++) { u64 kk = (t[i].second & maskw(e->w)) * k; bool f = false; for (auto &p : l) if (p.first == at[i]) { p.second += kk; f = true; break; } if (!f) l.push_back({at[i], kk}); } return l.size() <= LINMAX; }
    }
    for (auto &p : l) if (p.first == e) { p.second += k; return true; }
    l.push_back({e, k}); return true;
}
static E linbuild(Lin &l, u64 c, unsigned w) {
    u64 m = maskw(w); c &= m;
    std::sort(l.begin(), l.end(), [](const std::pair<E,u64> &x, const std::pair<E,u64> &y) { return x.first->id < y.first->id; });
    E r = nullptr;
    for (auto &p : l) {
        u64 k = p.second & m; if (!k) continue;
        E t = k == 1 ? p.first : mkraw(KMul, w, 0, p.first, mkc(k, w));
        r = r ? mkraw(KAdd, w, 0, r, t) : t;
    }
    if (!r) return mkc(c, w);
    return c ? mkraw(KAdd, w, 0, r, mkc(c, w)) : r;
}
static E linear(Kind k, E a, E b) {
    unsigned w = a->w; if (w == 1) return nullptr;
    Lin l; u64 c = 0;
    if (k == KMul) { if (!isc(b) || !lin(a)) return nullptr; if (!lincollect(a, b->c, l, c)) return nullptr; }
    else {
        if (!lin(a) && !lin(b) && k == KAdd && a != b) return nullptr;
        if (!lincollect(a, 1, l, c) || !lincollect(b, k == KSub ? ~0ULL : 1, l, c)) return nullptr;
    }
    if (l.size() > LINMAX) return nullptr;
    return linbuild(l, c, w);
}
// exact range of a linear form with its coefficients read as signed numbers and its atoms as unsigned ones
static bool linrange(E e, Lin &l, __int128 &c, __int128 &lo, __int128 &hi) {
    u64 cc = 0; if (!lincollect(e, 1, l, cc)) return false;
    c = sextw(cc, e->w); lo = hi = c;
    for (auto &p : l) { s64 k = sextw(p.second, e->w); __int128 u = (__int128)ub(p.first, 40) * k; if (u >> 100 != 0 && u >> 100 != -1) return false; if (k > 0) hi += u; else lo += u; }
    return true;
}
// the same for the unsigned value of e: true if the sum, without wrapping, is the value
static bool linrangeu(E e, std::vector<std::pair<E, __int128>> &l, __int128 &c, __int128 &lo, __int128 &hi) {
    Lin r; u64 cc = 0; if (!lincollect(e, 1, r, cc)) return false;
    u64 m = maskw(e->w); __int128 M = (__int128)m;
    for (int uns = 1; uns >= 0; uns--) {
        l.clear(); bool bad = false; c = lo = hi = (__int128)(cc & m);
        for (auto &p : r) { u64 kk = p.second & m; if (!kk) continue; __int128 k = uns ? (__int128)kk : (__int128)sextw(kk, e->w); u64 bd = ub(p.first, 40); if (uns && bd > m / kk) { bad = true; break; } __int128 u = (__int128)bd * k; if (u >> 100 != 0 && u >> 100 != -1) { bad = true; break; } if (k > 0) hi += u; else lo += u; l.push_back({p.first, k}); if (hi > 4 * M || lo < -4 * M) { bad = true; break; } }
        if (bad) continue;
        while (lo < 0) { c += M + 1; lo += M + 1; hi += M + 1; }
        while (lo > M) { c -= M + 1; lo -= M + 1; hi -= M + 1; }
        if (lo >= 0 && hi <= M) return true;
    }
    return false;
}
// unsigned division of a linear form by a constant, exact when the parts not divisible stay below the divisor
static E lindivrem(E e, u64 k, bool rem) {
    if (!k || !lin(e)) return nullptr;
    std::vector<std::pair<E, __int128>> l; __int128 c, lo, hi; if (!linrangeu(e, l, c, lo, hi)) return nullptr;
    if (hi < (__int128)k) return rem ? e : mkc(0, e->w);
    __int128 K = k, rhi = 0; Lin q, r; auto fl = [&](__int128 x) { __int128 d = x / K; if (x % K < 0) d--; return d; };
    for (auto &p : l) { __int128 d = fl(p.second), m = p.second - d * K; u64 bd = ub(p.first, 40); if (m > 0 && (__int128)bd > K / m) return nullptr; rhi += m * (__int128)bd; q.push_back({p.first, (u64)d}); r.push_back({p.first, (u64)m}); if (rhi >= K) return nullptr; }
    __int128 d = fl(c), m = c - d * K; rhi += m; if (rhi >= K) return nullptr;
    return rem ? linbuild(r, (u64)m, e->w) : linbuild(q, (u64)d, e->w);
}
static E linwiden(Lin &l, __int128 c, unsigned from, unsigned w) {
    Lin n; u64 cc = (u64)c;
    for (auto &p : l) { u64 k = (u64)sextw(p.second, from); if (!lincollect(mkz(p.first, w), k, n, cc)) return nullptr; }
    return n.size() > LINMAX ? nullptr : linbuild(n, cc, w);
}
// signed range, false if nothing better than the width is known
static bool srange(E e, __int128 &lo, __int128 &hi) {
    if (isc(e)) { lo = hi = sextw(e->c, e->w); return true; }
    if (e->w > 1 && e->w < 64 && lin(e)) { Lin l; __int128 c; __int128 h = (__int128)1 << (e->w - 1); if (linrange(e, l, c, lo, hi) && lo >= -h && hi < h) return true; }
    if (e->w == 64 && lin(e)) { Lin l; __int128 c; __int128 h = (__int128)1 << 63; if (linrange(e, l, c, lo, hi) && lo >= -h && hi < h) return true; }
    if (e->k == KSExt) { if (srange(e->a, lo, hi)) return true; lo = -((__int128)1 << (e->a->w - 1)); hi = -lo - 1; return true; }
    u64 u = ub(e, 40); if (u < (1ULL << (e->w - 1))) { lo = 0; hi = u; return true; }
    return false;
}
// unsigned comparison of two linear forms neither of which wraps: decided by the range of their difference; -1 unknown
static int lindiff(Kind k, E a, E b) {
    if (!(lin(a) || lin(b)) || a->w == 1) return -1;
    std::vector<std::pair<E, __int128>> la, lb; __int128 ca, cb, lo, hi;
    if (!linrangeu(a, la, ca, lo, hi) || !linrangeu(b, lb, cb, lo, hi)) return -1;
    std::unordered_map<E, __int128> d;
    for (auto &p : la) d[p.first] += p.second;
    for (auto &p : lb) d[p.first] -= p.second;
    lo = hi = ca - cb;
    for (auto &p : d) { __int128 t = (__int128)ub(p.first, 40) * p.second; if (p.second > 0) hi += t; else lo += t; }
    if (k == KUlt) { if (hi < 0) return 1; if (lo >= 0) return 0; }
    else { if (hi <= 0) return 1; if (lo > 0) return 0; }
    return -1;
}
static bool smallE(E e, int &n) { if (--n < 0) return false; if (e->k == KConst || e->k == KSym) return true; if (e->a && !smallE(e->a, n)) return false; if (e->b && !smallE(e->b, n)) return false; if (e->d && !smallE(e->d, n)) return false; return true; }
E mknot(E a) {
    assert(a->w == 1);
    if (isc(a)) return mkc(!a->c, 1);
    if (a->k == KNot) return a->a;
    if (a->k == KUlt) return mkraw(KUle, 1, 0, a->b, a->a);
    if (a->k == KUle) return mkraw(KUlt, 1, 0, a->b, a->a);
    if (a->k == KSlt) return mkraw(KSle, 1, 0, a->b, a->a);
    if (a->k == KSle) return mkraw(KSlt, 1, 0, a->b, a->a);
    return mkraw(KNot, 1, 0, a);
}
E mkbin(Kind k, E a, E b) {
    assert(a->w == b->w);
    unsigned w = a->w; unsigned rw = iscmp(k) ? 1 : w;
    if (isc(a) && isc(b)) return mkc(fold(k, a->c, b->c, w), rw);
    // constant to the right for commutative operators
    switch (k) { case KAdd: case KMul: case KAnd: case KOr: case KXor: case KEq: if (isc(a)) std::swap(a, b); else if (!isc(b) && a->id > b->id) std::swap(a, b); break; default: break; }
    u64 m = maskw(w);
    if ((k == KAnd || k == KOr || k == KXor) && isc(b) && b->c && b->c != m && w > 1) {       // bitwise with a constant: piece by piece
        if (a->k == KConcat) { unsigned n = a->b->w; return mkconcat(mkbin(k, a->a, mkc(b->c >> n, w - n)), mkbin(k, a->b, mkc(b->c, n))); }
        if (a->k == KZExt && k != KAnd) { unsigned n = a->a->w; return mkconcat(mkc(b->c >> n, w - n), mkbin(k, a->a, mkc(b->c, n))); }
    }
    switch (k) {
    case KAdd:
        if (isfalse(b)) return a;
        if (isc(b) && a->k == KAdd && isc(a->b)) return mkbin(KAdd, a->a, mkc(a->b->c + b->c, w));
        if (isc(b) && a->k == KIte && isc(a->b) && isc(a->d)) return mkite(a->a, mkc(a->b->c + b->c, w), mkc(a->d->c + b->c, w));
        if (w == 1) return mkbin(KXor, a, b);
        if (E r = linear(KAdd, a, b)) return r;
        break;
    case KSub:
        if (isfalse(b)) return a;
        if (a == b) return mkc(0, w);
        if (isc(b)) return mkbin(KAdd, a, mkc(0 - b->c, w));
        if (w == 1) return mkbin(KXor, a, b);
        if (E r = linear(KSub, a, b)) return r;
        break;
    case KMul:
        if (isfalse(b)) return b;
        if (istrue(b) ) return a;
        if (E r = linear(KMul, a, b)) return r;
        if (isc(b) && (b->c & (b->c - 1)) == 0) return mkbin(KShl, a, mkc(__builtin_ctzll(b->c), w));
        break;
    case KUDiv: if (istrue(b)) return a; if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) return mkbin(KLShr, a, mkc(__builtin_ctzll(b->c), w)); if (isc(b) && ub(a) < b->c) return mkc(0, w); if (isc(b)) if (E r = lindivrem(a, b->c, false)) return r; break;
    case KURem: if (isc(b) && b->c && (b->c & (b->c - 1)) == 0) return mkbin(KAnd, a, mkc(b->c - 1, w)); if (isc(b) && ub(a) < b->c) return a; if (isc(b)) if (E r = lindivrem(a, b->c, true)) return r; break;
    case KSDiv: case KSRem: {
        if (k == KSDiv && istrue(b)) return a;
        __int128 lo, hi;
        if (isc(b) && b->c && sextw(b->c, w) > 0 && srange(a, lo, hi)) {
            if (lo >= 0) return mkbin(k == KSDiv ? KUDiv : KURem, a, b);
            if (hi <= 0 && lo > -((__int128)1 << (w - 1))) return mkbin(KSub, mkc(0, w), mkbin(k == KSDiv ? KUDiv : KURem, mkbin(KSub, mkc(0, w), a), b));
        }
        break;
    }
    case KAnd:
        if (isfalse(b)) return b;
        if (isc(b) && b->c == m) return a;
        if (a == b) return a;
        if (isc(b) && a->k == KAnd && isc(a->b)) return mkbin(KAnd, a->a, mkc(a->b->c & b->c, w));
        if (isc(b) && a->k == KZExt) { unsigned iw = a->a->w; return mkz(mkbin(KAnd, a->a, mkc(b->c, iw)), w); }
        if (isc(b) && (b->c & (b->c + 1)) == 0 && b->c) { unsigned n = __builtin_popcountll(b->c); if (n < w) return mkz(mkext(a, 0, n), w); }
        if (w == 1 && ((a->k == KNot && a->a == b) || (b->k == KNot && b->a == a))) return mkc(0, 1);
        break;
    case KOr:
        if (isfalse(b)) return a;
        if (isc(b) && b->c == m) return b;
        if (a == b) return a;
        // split at the boundary of a part known to be zero
        { E x = a, y = b; for (int t = 0; t < 2; t++, std::swap(x, y)) {
              if (x->k == KConcat && isfalse(x->b)) { unsigned n = x->b->w; return mkconcat(mkbin(KOr, x->a, mkext(y, n, w - n)), mkext(y, 0, n)); }
              if (x->k == KZExt) { unsigned n = x->a->w; return mkconcat(mkext(y, n, w - n), mkbin(KOr, mkext(y, 0, n), x->a)); } } }
        if (w == 1 && ((a->k == KNot && a->a == b) || (b->k == KNot && b->a == a))) return mkc(1, 1);
        break;
    case KXor:
        if (isfalse(b)) return a;
        if (a == b) return mkc(0, w);
        if (w == 1 && istrue(b)) return mknot(a);
        if (isc(b) && a->k == KXor && isc(a->b)) return mkbin(KXor, a->a, mkc(a->b->c ^ b->c, w));
        break;
    case KShl:
        if (isfalse(b)) return a;
        if (isc(b) && b->c >= w) return mkc(0, w);
        if (isc(b)) return mkconcat(mkext(a, 0, w - b->c), mkc(0, b->c));
        break;
    case KLShr:
        if (isfalse(b)) return a;
        if (isc(b) && b->c >= w) return mkc(0, w);
        if (isc(b)) return mkz(mkext(a, b->c, w - b->c), w);
        break;
    case KAShr:
        if (isfalse(b)) return a;
        if (isc(b) && w > 1 && ub(a) < (1ull << (w - 1))) return mkbin(KLShr, a, b);
        if (isc(b)) { u64 n = std::min<u64>(b->c, w - 1); return mks(mkext(a, n, w - n), w); }
        break;
    case KEq:
        if (a == b) return mkc(1, 1);
        if (w == 1 && isc(b)) return b->c ? a : mknot(a);
        if (isc(b)) {
            if (a->k == KZExt) { if (b->c > maskw(a->a->w)) return mkc(0, 1); return mkbin(KEq, a->a, mkc(b->c, a->a->w)); }
            if (a->k == KSExt) { if ((u64)sextw(b->c, a->a->w) != (u64)sextw(b->c, w)) return mkc(0, 1); return mkbin(KEq, a->a, mkc(b->c, a->a->w)); }
            if (a->k == KAdd && isc(a->b)) return mkbin(KEq, a->a, mkc(b->c - a->b->c, w));
            if (a->k == KSub && isc(a->a)) return mkbin(KEq, a->b, mkc(a->a->c - b->c, w));
            if (a->k == KXor && isc(a->b)) return mkbin(KEq, a->a, mkc(b->c ^ a->b->c, w));
            if (a->k == KConcat && (isc(a->a) || isc(a->b))) { unsigned lw = a->b->w; return mkbin(KAnd, mkbin(KEq, a->a, mkc(b->c >> lw, a->a->w)), mkbin(KEq, a->b, mkc(b->c, lw))); }
            if (a->k == KIte && (isc(a->b) || isc(a->d))) {
                E t = mkbin(KEq, a->b, b), f = mkbin(KEq, a->d, b);
                if (isc(t) && isc(f)) { if (t->c == f->c) return t; return t->c ? a->a : mknot(a->a); }
                if (isc(t)) return t->c ? mkbin(KOr, a->a, f) : mkbin(KAnd, mknot(a->a), f);
                if (isc(f)) return f->c ? mkbin(KOr, mknot(a->a), t) : mkbin(KAnd, a->a, t);
            }
            if (ub(a) < b->c) return mkc(0, 1);
        }
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkbin(KEq, a->a, b->a);
        if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return mkbin(KAnd, mkbin(KEq, a->a, b->a), mkbin(KEq, a->b, b->b));
        if (a->k == KZExt && b->k == KConcat) std::swap(a, b);
        if (a->k == KConcat && b->k == KZExt) { unsigned n = a->b->w; return mkbin(KAnd, mkbin(KEq, a->a, mkext(b, n, w - n)), mkbin(KEq, a->b, mkext(b, 0, n))); }
        if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkbin(KEq, a->a, b->a);
        if (w >= 16 && (lin(a) || lin(b))) if (E d = linear(KSub, a, b)) if (isc(d)) return mkc(d->c == 0, 1);
        break;
    case KUlt:
        if (a == b) return mkc(0, 1);
        if (isfalse(b)) return mkc(0, 1);
        if (isc(b) && ub(a) < b->c) return mkc(1, 1);
        if (isc(a) && ub(b) <= a->c) return mkc(0, 1);
        if (isfalse(a)) return mknot(mkeq(b, mkc(0, w)));
        if (int d = lindiff(k, a, b); d >= 0) return mkc(d, 1);
        if (istrue(b)) return mkeq(a, mkc(0, w));
        if (isc(b) && a->k == KZExt && b->c <= maskw(a->a->w)) return mkbin(KUlt, a->a, mkc(b->c, a->a->w));
        if (isc(a) && b->k == KZExt && a->c <= maskw(b->a->w)) return mkbin(KUlt, mkc(a->c, b->a->w), b->a);
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkbin(KUlt, a->a, b->a);
        break;
    case KUle:
        if (a == b) return mkc(1, 1);
        if (isc(b) && ub(a) <= b->c) return mkc(1, 1);
        if (isc(a) && ub(b) < a->c) return mkc(0, 1);
        if (isfalse(b)) return mkeq(a, mkc(0, w));
        if (int d = lindiff(k, a, b); d >= 0) return mkc(d, 1);
        if (isc(b) && a->k == KZExt && b->c <= maskw(a->a->w)) return mkbin(KUle, a->a, mkc(b->c, a->a->w));
        if (isc(a) && b->k == KZExt && a->c <= maskw(b->a->w)) return mkbin(KUle, mkc(a->c, b->a->w), b->a);
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkbin(KUle, a->a, b->a);
        break;
    case KSlt: case KSle:
        if (a == b) return mkc(k == KSle, 1);
        { u64 h = 1ULL << (w - 1);
          auto nonneg = [&](E e) { return isc(e) ? e->c < h : ub(e) < h; };
          if (nonneg(a) && nonneg(b)) return mkbin(k == KSlt ? KUlt : KUle, a, b);
          if (nonneg(a) && isc(b) && b->c >= h) return mkc(0, 1);
          if (nonneg(b) && isc(a) && a->c >= h) return mkc(1, 1);
          __int128 al, ah, bl, bh;
          if (w > 1 && srange(a, al, ah) && srange(b, bl, bh)) { if (k == KSlt ? ah < bl : ah <= bl) return mkc(1, 1); if (k == KSlt ? al >= bh : al > bh) return mkc(0, 1); }
          if (a->k == KSExt && isc(b) && (u64)sextw(b->c, a->a->w) == (u64)sextw(b->c, w)) return mkbin(k, a->a, mkc(b->c, a->a->w));
          if (b->k == KSExt && isc(a) && (u64)sextw(a->c, b->a->w) == (u64)sextw(a->c, w)) return mkbin(k, mkc(a->c, b->a->w), b->a);
          if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkbin(k, a->a, b->a);
        }
        break;
    default: break;
    }
    return mkraw(k, rw, 0, a, b);
}
E mkite(E c, E a, E b) {
    if (isc(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == KNot) return mkite(c->a, b, a);
    if (a->w == 1) {
        if (isc(a) && isc(b)) return a->c ? c : mknot(c);
        if (istrue(a)) return mkbin(KOr, c, b);
        if (isfalse(a)) return mkbin(KAnd, mknot(c), b);
        if (istrue(b)) return mkbin(KOr, mknot(c), a);
        if (isfalse(b)) return mkbin(KAnd, c, a);
    }
    if (b->k == KIte && b->a == c) return mkite(c, a, b->d);
    if (a->k == KIte && a->a == c) return mkite(c, a->b, b);
    return mkraw(KIte, a->w, 0, c, a, b);
}
E mkext(E a, unsigned off, unsigned w) {
    assert(off + w <= a->w);
    if (w == a->w) return a;
    if (isc(a)) return mkc(a->c >> off, w);
    switch (a->k) {
    case KExtract: return mkext(a->a, off + a->c, w);
    case KConcat: {
        unsigned lw = a->b->w;
        if (off + w <= lw) return mkext(a->b, off, w);
        if (off >= lw) return mkext(a->a, off - lw, w);
        return mkconcat(mkext(a->a, 0, off + w - lw), mkext(a->b, off, lw - off));
    }
    case KZExt: {
        unsigned iw = a->a->w;
        if (off >= iw) return mkc(0, w);
        if (off + w <= iw) return mkext(a->a, off, w);
        return mkz(mkext(a->a, off, iw - off), w);
    }
    case KSExt: { unsigned iw = a->a->w; if (off + w <= iw) return mkext(a->a, off, w); if (off < iw) return mks(mkext(a->a, off, iw - off), w); break; }
    case KAnd: case KOr: case KXor: if (isc(a->b)) return mkbin(a->k, mkext(a->a, off, w), mkext(a->b, off, w)); break;
    case KAdd: case KMul: case KSub:
        if (off > 0 && off < 64 && a->k != KSub && ub(a, 40) >> off == 0) return mkc(0, w); if (int n = 8; off == 0 && w >= 8 && smallE(a, n)) return mkbin(a->k, mkext(a->a, 0, w), mkext(a->b, 0, w)); break;
    case KIte: if (isc(a->b) || isc(a->d)) return mkite(a->a, mkext(a->b, off, w), mkext(a->d, off, w)); break;
    default: break;
    }
    return mkraw(KExtract, w, off, a);
}
E mkconcat(E hi, E lo) {
    unsigned w = hi->w + lo->w; assert(w <= 64);
    if (isc(hi) && isc(lo)) return mkc((hi->c << lo->w) | lo->c, w);
    if (isfalse(hi)) return mkz(lo, w);
    if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->c == lo->c + lo->w) return mkext(hi->a, lo->c, w);
    // extract directly above the low part of the same base:  hi = ext(x, n), lo = whole low extract through nested concat
    if (lo->k == KConcat && hi->k == KExtract && lo->a->k == KExtract && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w) return mkconcat(mkext(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
    if (isc(hi) && lo->k == KConcat && isc(lo->a)) return mkconcat(mkc((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
    if (hi->k == KConcat && isc(hi->b) && isc(lo)) return mkconcat(hi->a, mkc((hi->b->c << lo->w) | lo->c, hi->b->w + lo->w));
    if (hi->k == KConcat) return mkconcat(hi->a, mkconcat(hi->b, lo));        // to the right
    return mkraw(KConcat, w, 0, hi, lo);
}
E mkz(E a, unsigned w) {
    if (w == a->w) return a;
    if (isc(a)) return mkc(a->c, w);
    if (a->k == KZExt) return mkz(a->a, w);
    if (a->k == KExtract && a->c == 0 && ub(a->a, 40) <= maskw(a->w)) return a->a->w == w ? a->a : a->a->w > w ? mkext(a->a, 0, w) : mkz(a->a, w);
    // zero extension commutes with sums and products that cannot overflow
    if ((a->k == KAdd || a->k == KMul) && a->w > 1) {
        unsigned __int128 x = ub(a->a, 40), y = ub(a->b, 40), t = a->k == KAdd ? x + y : x * y;
        if (t <= maskw(a->w)) return mkbin(a->k, mkz(a->a, w), mkz(a->b, w));
        Lin l; __int128 c, lo, hi;
        if (a->w < 64 && lin(a) && linrange(a, l, c, lo, hi) && lo >= 0 && hi <= (__int128)maskw(a->w)) if (E r = linwiden(l, c, a->w, w)) return r;
    }
    return mkraw(KZExt, w, 0, a);
}
E mks(E a, unsigned w) {
    if (w == a->w) return a;
    if (isc(a)) return mkc((u64)sextw(a->c, a->w), w);
    if (a->k == KSExt) return mks(a->a, w);
    if (a->k == KZExt) return mkz(a->a, w);
    if (a->w > 1 && ub(a, 40) < (1ULL << (a->w - 1))) return mkz(a, w);
    if (a->w > 1 && a->w < 64 && lin(a)) { Lin l; __int128 c, lo, hi, h = (__int128)1 << (a->w - 1); if (linrange(a, l, c, lo, hi) && lo >= -h && hi < h) if (E r = linwiden(l, c, a->w, w)) return r; }
    if (a->k == KExtract && a->c == 0 && a->a->w <= w) { __int128 lo, hi, h = (__int128)1 << (a->w - 1); if (srange(a->a, lo, hi) && lo >= -h && hi < h) return mks(a->a, w); }
    return mkraw(KSExt, w, 0, a);
}
u64 evalE(E e, const std::vector<u64> &m, u64 mid) {
    if (e->k == KConst) return e->c;
    if (e->k == KSym) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
    if (e->evm == mid) return e->evv;
    // iterative on the left spine is not needed: depth is bounded by the program, but be safe for long chains
    u64 r = 0, x, y;
    switch (e->k) {
    case KConcat: x = evalE(e->a, m, mid); y = evalE(e->b, m, mid); r = (x << e->b->w) | y; break;
    case KExtract: r = (evalE(e->a, m, mid) >> e->c) & maskw(e->w); break;
    case KZExt: r = evalE(e->a, m, mid); break;
    case KSExt: r = (u64)sextw(evalE(e->a, m, mid), e->a->w) & maskw(e->w); break;
    case KNot: r = !evalE(e->a, m, mid); break;
    case KIte: r = evalE(e->a, m, mid) ? evalE(e->b, m, mid) : evalE(e->d, m, mid); break;
    default: x = evalE(e->a, m, mid); y = evalE(e->b, m, mid); r = fold(e->k, x, y, e->a->w); break;
    }
    e->evm = mid; e->evv = r; return r;
}
static const char *kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","not","ite"};
std::string showE(E e, int d) {
    if (e->k == KConst) return std::to_string(e->c);
    if (e->k == KSym) return g_syms[e->c].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + kn[e->k];
    if (e->k == KExtract) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
    if (e->k == KZExt || e->k == KSExt) s += std::to_string(e->w);
    for (E x : {e->a, e->b, e->d}) if (x) s += " " + showE(x, d - 1);
    return s + ")";
}
// ---- normal form modulo associativity and commutativity of +, ^, &, | (used on big questions before they go to a solver)
static std::unordered_map<E, E> g_ac;
static E acbuild(Kind k, std::vector<std::pair<E, u64>> &l, u64 c, unsigned w) {
    u64 m = maskw(w); std::sort(l.begin(), l.end(), [](const std::pair<E,u64> &x, const std::pair<E,u64> &y) { return x.first->id < y.first->id; });
    E r = nullptr;
    for (size_t i = 0; i < l.size();) {
        E e = l[i].first; u64 n = 0; for (; i < l.size() && l[i].first == e; i++) n += l[i].second;
        if (k == KXor) n &= 1; else if (k != KAdd) n = 1;
        n &= m; if (!n) continue;
        E t = n == 1 ? e : mkraw(KMul, w, 0, e, mkc(n, w));
        r = r ? mkraw(k, w, 0, r, t) : t;
    }
    c &= m;
    if (k == KAnd && !c) return mkc(0, w);
    if (k == KOr && c == m) return mkc(m, w);
    if (!r) return mkc(c, w);
    return c == (k == KAnd ? m : 0) ? r : mkraw(k, w, 0, r, mkc(c, w));
}
static void acflat(Kind k, E e, u64 n, std::vector<std::pair<E, u64>> &l, u64 &c) {      // e: normalised
    unsigned w = e->w;
    if (isc(e)) { if (k == KAdd) c += n * e->c; else if (k == KXor) c ^= e->c; else if (k == KAnd) c &= e->c; else c |= e->c; return; }
    if (e->k == k && l.size() < 600) { acflat(k, e->a, n, l, c); acflat(k, e->b, n, l, c); return; }
    if (k == KAdd && e->k == KMul && isc(e->b)) { l.push_back({e->a, (n * e->b->c) & maskw(w)}); return; }
    l.push_back({e, n});
}
E acnorm(E root) {
    std::vector<E> st{root};
    while (!st.empty()) {
        E e = st.back(); if (g_ac.count(e)) { st.pop_back(); continue; }
        bool wait = false; for (E x : {e->a, e->b, e->d}) if (x && !g_ac.count(x)) { st.push_back(x); wait = true; }
        if (wait) continue;
        st.pop_back();
        E a = e->a ? g_ac[e->a] : nullptr, b = e->b ? g_ac[e->b] : nullptr, d = e->d ? g_ac[e->d] : nullptr, r;
        switch (e->k) {
        case KConst: case KSym: r = e; break;
        case KAdd: case KXor: case KAnd: case KOr: if (e->w > 1) { std::vector<std::pair<E,u64>> l; u64 c = e->k == KAnd ? maskw(e->w) : 0; acflat(e->k, a, 1, l, c); acflat(e->k, b, 1, l, c); r = acbuild(e->k, l, c, e->w); } else r = mkbin(e->k, a, b); break;
        case KSub: if (e->w > 1) { std::vector<std::pair<E,u64>> l; u64 c = 0; acflat(KAdd, a, 1, l, c); acflat(KAdd, b, ~0ull, l, c); r = acbuild(KAdd, l, c, e->w); } else r = mkbin(e->k, a, b); break;
        case KConcat: r = mkconcat(a, b); break;
        case KExtract: r = mkext(a, e->c, e->w); break;
        case KZExt: r = mkz(a, e->w); break;
        case KSExt: r = mks(a, e->w); break;
        case KNot: r = mknot(a); break;
        case KIte: r = mkite(a, b, d); break;
        default: r = mkbin(e->k, a, b); break;
        }
        g_ac[e] = r;
    }
    return g_ac[root];
}
size_t dagsize(E root, size_t lim) {
    std::unordered_map<E, bool> seen; std::vector<E> st{root}; size_t n = 0;
    while (!st.empty() && n < lim) { E e = st.back(); st.pop_back(); if (seen.count(e)) continue; seen[e] = true; n++; for (E x : {e->a, e->b, e->d}) if (x) st.push_back(x); }
    return n;
}
