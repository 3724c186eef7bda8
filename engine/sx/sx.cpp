// sx: a small path-exploring symbolic executor for LLVM 18 bitcode, deciding with Z3 (cvc5/z3-new as fallback).
// usage: sx file.bc H_name [--time S] [--steps N] [--paths N] [--shard i/n] [--out file.json]
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/PostDominators.h>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <cstdio>
#include <cstring>
#include <sys/resource.h>
#include <unistd.h>
#include <cmath>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; };

// one object of memory; a byte is concrete, symbolic or never written
struct Obj {
    u64 base, size; bool ro = false, heap = false, stack = false, freed = false; std::string name;
    std::vector<u8> c;              // concrete byte
    std::vector<u8> st;             // 0 undef, 1 concrete, 2 symbolic
    std::unordered_map<u32, E> s;   // symbolic bytes
};
typedef std::shared_ptr<Obj> OP;
struct FnInfo { std::unordered_map<const Value*, u32> idx; u32 n = 0; };
struct Frame {
    Function *f; BasicBlock *bb, *prev; BasicBlock::iterator it; std::shared_ptr<std::vector<Val>> regs; CallInst *caller = nullptr;
    std::vector<u64> allocas; std::vector<Val> varargs;
};
struct State {
    std::vector<Frame> fr;
    std::map<u64, OP> mem;
    std::vector<E> cs; Model m;
    std::vector<E> inputs;              // in call order
    std::vector<u64> ghost;
    std::vector<std::pair<E, std::vector<E>>> digs;   // decimal digits already introduced for a value
    std::vector<std::pair<E,E>> defs;   // known equalities lhs = rhs, used to rewrite queries before solving
    u64 steps = 0; u64 nextaddr = 0; u32 forks = 0;
    bool dead = false; const void *nomerge = nullptr; std::vector<u32> reached;
};
struct Fail { std::string what, func; std::vector<u64> inputs; };

static std::unique_ptr<Module> M; static const DataLayout *DL; static LLVMContext ctx;
static Solver *S;
static std::vector<State*> work;
static std::map<const Function*, FnInfo> finfo;
static std::map<u64, OP> rom;                       // read-only globals
static std::map<const GlobalValue*, u64> gaddr; static std::map<u64, Function*> faddr;
static std::vector<Fail> fails; static std::set<std::string> failkeys;
static std::map<std::string, std::vector<u64>> reach; static std::set<std::string> incon; static std::map<std::string, std::vector<u64>> limits;
static std::set<std::string> fnused;
static u64 total_steps = 0, npaths = 0, ninf = 0, nasserts = 0, nmem = 0, nbranch = 0; static u64 maxsteps = 3000000, maxpaths = 2000000; static double tmax = 300, T0;
static int shard_i = 0, shard_n = 1; static bool verbose = false;
static u64 undefcount = 0; static bool g_merge = false; static u64 nmerged = 0;

static std::string dem(StringRef n) { return demangle(n.str()); }
static unsigned wof(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }

// the symbol of an input byte: the same on all paths (each path asks about its own constraints only), so that answers are found again
static E insym(size_t nr, unsigned byte, u64 ub) {
    static std::map<std::tuple<size_t, unsigned, u64>, E> known;
    E &e = known[{nr, byte, ub}];
    if (!e) e = mksym(8, true, "in" + std::to_string(nr) + "b" + std::to_string(byte) + "_" + std::to_string(g_syms.size()), ub);
    return e;
}
static std::vector<u64> inputs_under(State &st, const Model &m) { std::vector<u64> r; for (E e : st.inputs) r.push_back(evalE(e, m.v, m.id)); return r; }
static void addfail(State &st, const Model &m, const std::string &what) {
    std::string fn = st.fr.empty() ? "" : dem(st.fr.back().f->getName());
    std::string key = what + "|" + fn;
    int n = 0; for (auto &f : fails) if (f.what == what && f.func == fn) n++;
    if (n >= 2) return;
    fails.push_back({what, fn, inputs_under(st, m)});
}
static void inconcl(State &st, const std::string &w) { incon.insert(w + " in " + (st.fr.empty() ? "" : dem(st.fr.back().f->getName()))); st.dead = true; }

// ---------------------------------------------------------------- solver interface per state
static u64 evalm(State &st, E e) { return evalE(e, st.m.v, st.m.id); }
static void addc(State &st, E c) {
    if (istrue(c)) return;
    if (c->k == KAnd && c->w == 1) { addc(st, c->a); addc(st, c->b); return; }
    st.cs.push_back(c);
}
static void adddef(State &st, E l, E r) {
    for (;;) {
        if (isc(l) || l == r) return;
        if (l->k == KZExt || l->k == KSExt) { r = mkext(r, 0, l->a->w); l = l->a; continue; }
        if (l->k == KAdd && isc(l->b)) { r = mkbin(KSub, r, l->b); l = l->a; continue; }
        if (l->k == KMul && isc(l->b) && l->b->c == maskw(l->w)) { r = mkbin(KSub, mkc(0, r->w), r); l = l->a; continue; }
        break;
    }
    st.defs.push_back({l, r});
}
static E subst(E e, const std::unordered_map<E,E> &d, std::unordered_map<E,E> &memo, int depth) {
    if (isc(e) || depth > 400) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    auto jt = d.find(e); E r;
    if (jt != d.end()) { memo[e] = e; r = subst(jt->second, d, memo, depth + 1); }
    else if (e->k == KSym) r = e;
    else {
        E a = e->a ? subst(e->a, d, memo, depth + 1) : nullptr, b = e->b ? subst(e->b, d, memo, depth + 1) : nullptr, c = e->d ? subst(e->d, d, memo, depth + 1) : nullptr;
        if (a == e->a && b == e->b && c == e->d) r = e;
        else switch (e->k) {
            case KConcat: r = mkconcat(a, b); break; case KExtract: r = mkext(a, e->c, e->w); break; case KZExt: r = mkz(a, e->w); break; case KSExt: r = mks(a, e->w); break;
            case KNot: r = mknot(a); break; case KIte: r = mkite(a, b, c); break; default: r = mkbin(e->k, a, b); break; }
    }
    memo[e] = r; return r;
}
static u64 nrewritten = 0;
static Res sat(State &st, E q, Model &m) {
    if (!st.defs.empty()) {
        std::unordered_map<E,E> d, memo; for (auto &p : st.defs) d.emplace(p.first, p.second);
        E r = subst(q, d, memo, 0);
        if (isfalse(r)) { nrewritten++; return UNSAT; }
        if (!isc(r) && r != q) { // the rewritten form is equivalent under the constraints
            Res x = S->check(st.cs, r, st.m, m); return x; }
    }
    Res r = S->check(st.cs, q, st.m, m);
    return r;
}
// assume c; returns false if infeasible
static bool assume(State &st, E c) {
    if (istrue(c)) return true;
    if (isfalse(c)) return false;
    if (evalm(st, c)) { addc(st, c); return true; }
    Model m; Res r = sat(st, c, m);
    if (r == UNKNOWN) { inconcl(st, "solver gave no answer"); return false; }
    if (r == UNSAT) return false;
    st.m = m; addc(st, c); return true;
}
// decide a branch: 1 = must be true, 0 = must be false, 2 = both (m gets the model of the other side)
static int decide(State &st, E c, Model &other) {
    if (isc(c)) return c->c;
    bool v = evalm(st, c);
    Res r = sat(st, v ? mknot(c) : c, other);
    if (r == UNKNOWN) { inconcl(st, "solver gave no answer"); return -1; }
    if (r == UNSAT) { return v; }
    return 2;
}
static State *forkst(State &st) { State *n = new State(st); for (auto &f : n->fr) f.regs = std::make_shared<std::vector<Val>>(*f.regs); n->forks++; return n; }

// ---------------------------------------------------------------- memory
static u64 g_base = 0x100000;
static OP newobj(State *st, u64 size, const std::string &name, u64 align = 16) {
    OP o = std::make_shared<Obj>();
    u64 &na = st ? st->nextaddr : g_base;
    if (align < 16) align = 16;
    na = (na + align - 1) / align * align;
    o->base = na; o->size = size; o->name = name; na += size + 64;
    o->c.assign(size, 0); o->st.assign(size, 0);
    return o;
}
static OP findobj(State &st, u64 a) {
    auto it = st.mem.upper_bound(a);
    if (it != st.mem.begin()) { --it; Obj &o = *it->second; if (a >= o.base && a < o.base + std::max<u64>(o.size, 1)) return it->second; }
    auto jt = rom.upper_bound(a);
    if (jt != rom.begin()) { --jt; Obj &o = *jt->second; if (a >= o.base && a < o.base + std::max<u64>(o.size, 1)) return jt->second; }
    return nullptr;
}
static Obj *wobj(State &st, u64 base) {
    OP &p = st.mem[base];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
}
static E rdbyte(State &st, OP &o, u64 off) {
    if (o->st[off] == 1) return mkc(o->c[off], 8);
    if (o->st[off] == 2) return o->s.find((u32)off)->second;
    // never written: an arbitrary value, fixed from now on
    E e = mksym(8, false, "undef_" + o->name + "_" + std::to_string(undefcount++));
    Obj *w = wobj(st, o->base); w->st[off] = 2; w->s[(u32)off] = e; o = st.mem[o->base];
    return e;
}
static void wrbyte(Obj *o, u64 off, E e) {
    if (isc(e)) { o->c[off] = (u8)e->c; if (o->st[off] == 2) o->s.erase((u32)off); o->st[off] = 1; }
    else { o->s[(u32)off] = e; o->st[off] = 2; }
}
static E rdint(State &st, OP o, u64 off, unsigned bytes) {
    bool allc = true; for (unsigned i = 0; i < bytes; i++) if (o->st[off + i] != 1) { allc = false; break; }
    if (allc) { u64 v = 0; for (unsigned i = 0; i < bytes; i++) v |= (u64)o->c[off + i] << (8 * i); return mkc(v, bytes * 8); }
    E r = rdbyte(st, o, off);
    for (unsigned i = 1; i < bytes; i++) r = mkconcat(rdbyte(st, o, off + i), r);
    return r;
}
static void wrint(Obj *o, u64 off, E e, unsigned bytes) { for (unsigned i = 0; i < bytes; i++) wrbyte(o, off + i, mkext(e, i * 8, 8)); }

// Resolve an address to a concrete one, forking over the feasible values when it is symbolic.
// `redo`: the state whose current instruction must be re-executed for the other values.
static bool concretize(State &st, E e, u64 &out) {
    if (isc(e)) { out = e->c; return true; }
    u64 v = evalm(st, e);
    E eq = mkeq(e, mkc(v, e->w));
    Model o; int d = decide(st, eq, o);
    if (d < 0) return false;
    if (d == 2) {
        State *n = forkst(st); n->m = o; addc(*n, mknot(eq));
        // the forked state re-executes the current instruction (iterator has not been advanced)
        work.push_back(n);
        addc(st, eq);
    }
    out = v; return true;
}
static bool chkaccess(State &st, u64 a, u64 n, bool write, OP &o) {
    nmem++;
    o = findobj(st, a);
    const char *rw = write ? "write" : "read";
    if (!o || a + n > o->base + o->size) {
        std::string w = std::string("memory safety: out-of-bounds or invalid ") + rw;
        if (a < 4096) w = std::string("memory safety: null pointer ") + rw;
        if (o) w += " past the end of " + o->name;
        addfail(st, st.m, w); st.dead = true; return false;
    }
    if (o->freed) { addfail(st, st.m, std::string("memory safety: ") + rw + " of freed memory"); st.dead = true; return false; }
    if (write && o->ro) { addfail(st, st.m, "memory safety: write to constant " + o->name); st.dead = true; return false; }
    return true;
}
// symbolic address read within one small object as an if-then-else over the offsets
static bool symread(State &st, E ad, unsigned bytes, E &out) {
    u64 v = evalm(st, ad); OP o = findobj(st, v);
    if (!o || o->size > 4096 || o->size < bytes || v + bytes > o->base + o->size) return false;
    E off = mkbin(KSub, ad, mkc(o->base, 64));
    E inb = mkbin(KUle, off, mkc(o->size - bytes, 64));
    Model ot; int d = decide(st, inb, ot);
    if (d < 0) return true;
    if (d == 2) { State *n = forkst(st); n->m = ot; addc(*n, mknot(inb)); work.push_back(n); addc(st, inb); }
    // candidates
    E r = nullptr;
    std::vector<std::pair<u64,E>> ent;
    u64 step = 1;
    // stride: off is a multiple of `step` when its low bits are constant zero
    while (step < 16 && isc(mkext(off, 0, __builtin_ctzll(step) + 1)) && mkext(off, 0, __builtin_ctzll(step) + 1)->c == 0) step *= 2;
    if ((o->size / step) > 300) return false;
    u64 top = ubound(off);
    for (u64 k = 0; k + bytes <= o->size && (k <= top || !k); k += step) ent.push_back({k, rdint(st, o, k, bytes)});
    // group runs of equal value
    for (size_t i = ent.size(); i-- > 0;) {
        if (!r) { r = ent[i].second; continue; }
        if (ent[i].second == ent[i + 1].second && false) continue;
        r = mkite(mkeq(off, mkc(ent[i].first, 64)), ent[i].second, r);
    }
    out = r; return true;
}

// ---------------------------------------------------------------- constants
static u64 constaddr(const Constant *c);
static Val cval(const Constant *c) {
    Val r; Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) r.e = mkc(ci->getZExtValue(), ci->getBitWidth()); return r; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) r.e = mkc(b.getZExtValue(), b.getBitWidth()); return r; }
    if (isa<ConstantPointerNull>(c)) { r.e = mkc(0, 64); return r; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (t->isStructTy() || t->isArrayTy()) {
            r.agg = std::make_shared<std::vector<Val>>();
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) r.agg->push_back(cval(c->getAggregateElement(i)));
            return r;
        }
        if (wof(t) && wof(t) <= 64) r.e = mkc(0, wof(t));
        return r;
    }
    if (t->isPointerTy()) { r.e = mkc(constaddr(c), 64); return r; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::PtrToInt) { r.e = mkext(mkc(constaddr(ce->getOperand(0)), 64), 0, wof(t)); return r; }
        if (ce->isCast()) { Val a = cval(ce->getOperand(0)); if (ce->getOpcode() == Instruction::Trunc) r.e = mkext(a.e, 0, wof(t)); else if (ce->getOpcode() == Instruction::ZExt) r.e = mkz(a.e, wof(t)); else if (ce->getOpcode() == Instruction::SExt) r.e = mks(a.e, wof(t)); return r; }
        Val a = cval(ce->getOperand(0)), b = cval(ce->getOperand(1));
        switch (ce->getOpcode()) { case Instruction::Add: r.e = mkbin(KAdd, a.e, b.e); break; case Instruction::Sub: r.e = mkbin(KSub, a.e, b.e); break; case Instruction::And: r.e = mkbin(KAnd, a.e, b.e); break; case Instruction::Or: r.e = mkbin(KOr, a.e, b.e); break; case Instruction::Xor: r.e = mkbin(KXor, a.e, b.e); break; default: break; }
        return r;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
        r.agg = std::make_shared<std::vector<Val>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(cval(c->getAggregateElement(i)));
    }
    return r;
}
static u64 constaddr(const Constant *c) {
    c = cast<Constant>(c->stripPointerCasts());
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constaddr(ga->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; return 0; } return it->second; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (gep->accumulateConstantOffset(*DL, off)) return constaddr(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue(); }
        if (ce->getOpcode() == Instruction::IntToPtr) { Val v = cval(ce->getOperand(0)); return v.e ? v.e->c : 0; }
    }
    errs() << "constaddr? " << *c << "\n"; return 0;
}
static void initmem(Obj *o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n; i++) { o->c[off + i] = 0; o->st[off + i] = 1; } return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) { o->c[off + i] = (u8)r[i]; o->st[off + i] = 1; } return; }
    if (t->isStructTy()) { auto *sl = DL->getStructLayout(cast<StructType>(t)); u64 n = sl->getSizeInBytes(); for (u64 i = 0; i < n; i++) o->st[off + i] = 1; for (unsigned i = 0; i < t->getStructNumElements(); i++) initmem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) initmem(o, off + i * es, c->getAggregateElement(i)); return; }
    Val v = cval(c); unsigned n = DL->getTypeStoreSize(t);
    E e = v.e ? mkz(v.e, n * 8) : mkc(0, 8);
    for (unsigned i = 0; i < n && i < 8; i++) { o->c[off + i] = (u8)(e->c >> (8 * i)); o->st[off + i] = 1; }
}

// ---------------------------------------------------------------- registers
static FnInfo &info(Function *f) {
    auto it = finfo.find(f); if (it != finfo.end()) return it->second;
    FnInfo &fi = finfo[f];
    for (auto &a : f->args()) fi.idx[&a] = fi.n++;
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) fi.idx[&i] = fi.n++;
    fnused.insert(f->getName().str());
    return fi;
}
static Val get(State &st, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
        static std::unordered_map<const Constant*, Val> memo;
        auto it = memo.find(c); if (it != memo.end()) return it->second;
        Val r = cval(c); memo[c] = r; return r;
    }
    Frame &fr = st.fr.back();
    return (*fr.regs)[finfo[fr.f].idx[v]];
}
static void put(State &st, const Value *v, Val x) {
    Frame &fr = st.fr.back();
    (*fr.regs)[finfo[fr.f].idx[v]] = x;
}
static void putE(State &st, const Value *v, E e) { Val x; x.e = e; put(st, v, x); }
static void entersetup(State &st, Function *f, const std::vector<Val> &args, CallInst *caller) {
    FnInfo &fi = info(f);
    Frame fr; fr.f = f; fr.bb = &f->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.caller = caller;
    fr.regs = std::make_shared<std::vector<Val>>(fi.n);
    unsigned i = 0; for (auto &a : f->args()) { (*fr.regs)[fi.idx[&a]] = args[i++]; }
    for (; i < args.size(); i++) fr.varargs.push_back(args[i]);
    st.fr.push_back(std::move(fr));
}
static void jump(State &st, BasicBlock *to) {
    Frame &fr = st.fr.back(); BasicBlock *from = fr.bb;
    std::vector<std::pair<const Value*, Val>> ph;
    for (auto &p : to->phis()) ph.push_back({&p, get(st, p.getIncomingValueForBlock(from))});
    for (auto &x : ph) put(st, x.first, x.second);
    fr.prev = from; fr.bb = to; fr.it = to->getFirstNonPHIIt();
}
static void storeVal(State &st, Obj *o, u64 off, Type *t, const Val &v) {
    if (t->isStructTy()) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) storeVal(st, o, off + sl->getElementOffset(i), t->getStructElementType(i), (*v.agg)[i]); return; }
    if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeVal(st, o, off + i * es, t->getArrayElementType(), (*v.agg)[i]); return; }
    unsigned n = DL->getTypeStoreSize(t);
    wrint(o, off, v.e->w < n * 8 ? mkz(v.e, n * 8) : v.e, n);
}
static Val loadVal(State &st, OP o, u64 off, Type *t) {
    Val r;
    if (t->isStructTy()) { r.agg = std::make_shared<std::vector<Val>>(); auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) r.agg->push_back(loadVal(st, o, off + sl->getElementOffset(i), t->getStructElementType(i))); return r; }
    if (t->isArrayTy()) { r.agg = std::make_shared<std::vector<Val>>(); u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) r.agg->push_back(loadVal(st, o, off + i * es, t->getArrayElementType())); return r; }
    unsigned n = DL->getTypeStoreSize(t);
    E e = rdint(st, o, off, n);
    unsigned w = wof(t); if (w < n * 8) e = mkext(e, 0, w);
    r.e = e; return r;
}
static std::string cstr(State &st, E p) {
    std::string s; if (!p || !isc(p)) return "?";
    OP o = findobj(st, p->c); if (!o) return "?";
    for (u64 i = p->c - o->base; i < o->size && o->st[i] == 1 && o->c[i]; i++) s += (char)o->c[i];
    return s;
}
static double asd(E e) { if (e->w == 32) { u32 x = (u32)e->c; float f; memcpy(&f, &x, 4); return f; } double d; u64 x = e->c; memcpy(&d, &x, 8); return d; }
static E ofd(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return mkc(x, 32); } u64 x; memcpy(&x, &d, 8); return mkc(x, 64); }

// true when the external call was handled; state's iterator is advanced by the caller
enum CallRes { DONE, AGAIN, KILLED, ENTER };
static std::set<std::string> noop, wraps;
static bool isnoop(StringRef n) { return noop.count(n.str()) || n.startswith("llvm.lifetime") || n.startswith("llvm.dbg") || n.startswith("llvm.assume") || n.startswith("llvm.experimental.noalias") || n.startswith("llvm.prefetch"); }

static CallRes memop(State &st, CallInst *ci, int kind) {   // 0 set 1 cpy 2 move
    E len = get(st, ci->getArgOperand(2)).e; u64 n, d, s = 0;
    if (!concretize(st, len, n)) return KILLED;
    if (!concretize(st, get(st, ci->getArgOperand(0)).e, d)) return KILLED;
    E sv = get(st, ci->getArgOperand(1)).e;
    if (kind && !concretize(st, sv, s)) return KILLED;
    if (n == 0) return DONE;
    OP o, p;
    if (n > (1ULL << 32)) { addfail(st, st.m, "memory safety: block operation of " + std::to_string(n) + " bytes"); st.dead = true; return KILLED; }
    if (!chkaccess(st, d, n, true, o)) return KILLED;
    if (kind == 0) { Obj *w = wobj(st, o->base); E b = mkext(sv, 0, 8); u64 off = d - w->base; for (u64 i = 0; i < n; i++) wrbyte(w, off + i, b); return DONE; }
    if (!chkaccess(st, s, n, false, p)) return KILLED;
    // undefined source bytes stay undefined in the copy
    std::vector<u8> tc(n), ts(n); std::vector<E> te(n, nullptr);
    for (u64 i = 0; i < n; i++) { u64 k = s - p->base + i; ts[i] = p->st[k]; tc[i] = p->c[k]; if (ts[i] == 2) te[i] = p->s.find((u32)k)->second; }
    Obj *w = wobj(st, o->base); u64 off = d - w->base;
    for (u64 i = 0; i < n; i++) { if (ts[i] == 2) wrbyte(w, off + i, te[i]); else { if (w->st[off + i] == 2) w->s.erase((u32)(off + i)); w->st[off + i] = ts[i]; w->c[off + i] = tc[i]; } }
    return DONE;
}
static E asmrot(State &st, CallInst *ci, bool &ok) {
    auto *ia = cast<InlineAsm>(ci->getCalledOperand()); std::string s = ia->getAsmString(), c = ia->getConstraintString();
    ok = true;
    if (s.empty()) return ci->arg_size() ? get(st, ci->getArgOperand(0)).e : nullptr;
    bool rol = s.find("rol") != std::string::npos, ror = s.find("ror") != std::string::npos;
    if ((rol || ror) && ci->arg_size() == 2) {
        std::vector<std::string> cons; size_t p = 0; while (p <= c.size()) { size_t q = c.find(',', p); if (q == std::string::npos) q = c.size(); std::string x = c.substr(p, q - p); if (x.size() && x[0] != '=' && x[0] != '~') cons.push_back(x); p = q + 1; }
        unsigned vi = 0; for (unsigned i = 0; i < cons.size(); i++) if (cons[i] == "0") vi = i;
        E v = get(st, ci->getArgOperand(vi)).e, k = get(st, ci->getArgOperand(1 - vi)).e;
        if (isc(k) && v->w == 32) { unsigned n = k->c & 31; if (ror) n = (32 - n) & 31; return n ? mkbin(KOr, mkbin(KShl, v, mkc(n, 32)), mkbin(KLShr, v, mkc(32 - n, 32))) : v; }
    }
    if (s.find("bswap") != std::string::npos && ci->arg_size() == 1) { E v = get(st, ci->getArgOperand(0)).e; E r = mkext(v, 0, 8); for (unsigned i = 1; i < v->w / 8; i++) r = mkconcat(r, mkext(v, 8 * i, 8)); return r; }
    ok = false; return nullptr;
}
static CallRes docall(State &st, CallInst *ci) {
    Value *cv = ci->getCalledOperand();
    if (isa<InlineAsm>(cv)) {
        bool ok; E e = asmrot(st, ci, ok);
        if (!ok) { inconcl(st, "inline asm"); return KILLED; }
        if (!ci->getType()->isVoidTy()) putE(st, ci, e);
        return DONE;
    }
    Function *f = dyn_cast<Function>(cv->stripPointerCasts());
    if (auto *ga = dyn_cast<GlobalAlias>(cv->stripPointerCasts())) f = dyn_cast<Function>(ga->getAliaseeObject());
    if (!f) {
        u64 a; if (!concretize(st, get(st, cv).e, a)) return KILLED;
        auto it = faddr.find(a);
        if (it == faddr.end()) { addfail(st, st.m, a == 0 ? "memory safety: call through a null function pointer" : "memory safety: call through an invalid function pointer"); st.dead = true; return KILLED; }
        f = it->second;
    }
    StringRef n = f->getName();
    auto A = [&](unsigned i) { return get(st, ci->getArgOperand(i)).e; };
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
        case Intrinsic::memset: return memop(st, ci, 0);
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return memop(st, ci, 1);
        case Intrinsic::memmove: return memop(st, ci, 2);
        case Intrinsic::stacksave: putE(st, ci, mkc(0, 64)); return DONE;
        case Intrinsic::stackrestore: case Intrinsic::vaend: return DONE;
        case Intrinsic::vastart: {
            // all variadic arguments in the overflow area
            Frame &fr = st.fr.back(); u64 ap; if (!concretize(st, A(0), ap)) return KILLED;
            u64 sz = fr.varargs.size() * 8 + 8; OP o = newobj(&st, sz, "va_area"); st.mem[o->base] = o;
            for (size_t i = 0; i < fr.varargs.size(); i++) { E v = fr.varargs[i].e; if (v->w < 64) v = mkz(v, 64); wrint(o.get(), i * 8, v, 8); }
            fr.allocas.push_back(o->base);
            OP l; if (!chkaccess(st, ap, 24, true, l)) return KILLED;
            Obj *w = wobj(st, l->base); u64 off = ap - w->base;
            wrint(w, off, mkc(48, 32), 4); wrint(w, off + 4, mkc(304, 32), 4); wrint(w, off + 8, mkc(o->base, 64), 8); wrint(w, off + 16, mkc(0, 64), 8);
            return DONE; }
        case Intrinsic::vacopy: { u64 d, s; if (!concretize(st, A(0), d) || !concretize(st, A(1), s)) return KILLED; OP o, p; if (!chkaccess(st, d, 24, true, o) || !chkaccess(st, s, 24, false, p)) return KILLED; E v[3]; for (int i = 0; i < 3; i++) v[i] = rdint(st, p, s - p->base + 8 * i, 8); Obj *w = wobj(st, o->base); for (int i = 0; i < 3; i++) wrint(w, d - w->base + 8 * i, v[i], 8); return DONE; }
        case Intrinsic::umax: putE(st, ci, mkite(mkbin(KUlt, A(0), A(1)), A(1), A(0))); return DONE;
        case Intrinsic::umin: putE(st, ci, mkite(mkbin(KUlt, A(0), A(1)), A(0), A(1))); return DONE;
        case Intrinsic::smax: putE(st, ci, mkite(mkbin(KSlt, A(0), A(1)), A(1), A(0))); return DONE;
        case Intrinsic::smin: putE(st, ci, mkite(mkbin(KSlt, A(0), A(1)), A(0), A(1))); return DONE;
        case Intrinsic::abs: { E x = A(0); putE(st, ci, mkite(mkbin(KSlt, x, mkc(0, x->w)), mkbin(KSub, mkc(0, x->w), x), x)); return DONE; }
        case Intrinsic::expect: putE(st, ci, A(0)); return DONE;
        case Intrinsic::is_constant: putE(st, ci, mkc(0, 1)); return DONE;
        case Intrinsic::objectsize: putE(st, ci, mkc(~0ULL, wof(ci->getType()))); return DONE;
        case Intrinsic::bswap: { E v = A(0); E r = mkext(v, 0, 8); for (unsigned i = 1; i < v->w / 8; i++) r = mkconcat(r, mkext(v, 8 * i, 8)); putE(st, ci, r); return DONE; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E a = A(0), b = A(1), k = A(2); unsigned w = a->w; if (!isc(k)) { inconcl(st, "funnel shift"); return KILLED; }
            unsigned s = k->c % w; E r;
            if (f->getIntrinsicID() == Intrinsic::fshl) r = s ? mkbin(KOr, mkbin(KShl, a, mkc(s, w)), mkbin(KLShr, b, mkc(w - s, w))) : a;
            else r = s ? mkbin(KOr, mkbin(KShl, a, mkc(w - s, w)), mkbin(KLShr, b, mkc(s, w))) : b;
            putE(st, ci, r); return DONE; }
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
            E a = A(0), b = A(1); unsigned w = a->w; E r, o;
            switch (f->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: r = mkbin(KAdd, a, b); o = mkbin(KUlt, r, a); break;
            case Intrinsic::usub_with_overflow: r = mkbin(KSub, a, b); o = mkbin(KUlt, a, b); break;
            case Intrinsic::umul_with_overflow: r = mkbin(KMul, a, b); if (w <= 32) o = mkbin(KUlt, mkc(maskw(w), 2 * w), mkbin(KMul, mkz(a, 2 * w), mkz(b, 2 * w))); else if (isc(b)) o = b->c ? mkbin(KUlt, mkc(maskw(w) / b->c, w), a) : mkc(0, 1); else { inconcl(st, "mul overflow"); return KILLED; } break;
            default: if (w > 32) { inconcl(st, "signed overflow intrinsic"); return KILLED; } { Kind k = f->getIntrinsicID() == Intrinsic::smul_with_overflow ? KMul : f->getIntrinsicID() == Intrinsic::sadd_with_overflow ? KAdd : KSub; E wide = mkbin(k, mks(a, 2 * w), mks(b, 2 * w)); r = mkext(wide, 0, w); o = mknot(mkeq(wide, mks(r, 2 * w))); } break;
            }
            Val v; v.agg = std::make_shared<std::vector<Val>>(2); (*v.agg)[0].e = r; (*v.agg)[1].e = o; put(st, ci, v); return DONE; }
        case Intrinsic::trap: addfail(st, st.m, "the code traps"); st.dead = true; return KILLED;
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            E a = A(0); unsigned w = a->w; E r = mkc(f->getIntrinsicID() == Intrinsic::ctpop ? 0 : w, w);
            if (f->getIntrinsicID() == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) r = mkbin(KAdd, r, mkz(mkext(a, i, 1), w));
            else if (f->getIntrinsicID() == Intrinsic::ctlz) for (unsigned i = 0; i < w; i++) r = mkite(mkext(a, i, 1), mkc(w - 1 - i, w), r);
            else for (unsigned i = w; i-- > 0;) r = mkite(mkext(a, i, 1), mkc(i, w), r);
            putE(st, ci, r); return DONE; }
        case Intrinsic::fabs: { E a = A(0); putE(st, ci, mkbin(KAnd, a, mkc(maskw(a->w) >> 1, a->w))); return DONE; }
        default: if (isnoop(n)) return DONE; inconcl(st, "intrinsic " + n.str()); return KILLED;
        }
    }
    if (wraps.count(n.str())) { Function *g = M->getFunction(("vh_" + n).str()); if (!g || g->isDeclaration()) { inconcl(st, "wrapped function missing " + n.str()); return KILLED; } f = g; n = f->getName(); }
    if (n.startswith("vh_")) {
        if (n == "vh_u8" || n == "vh_u16" || n == "vh_u32" || n == "vh_u64") {
            unsigned w = n == "vh_u8" ? 8 : n == "vh_u16" ? 16 : n == "vh_u32" ? 32 : 64;
            E e = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = insym(st.inputs.size(), i / 8, 0); e = e ? mkconcat(b, e) : b; }
            st.inputs.push_back(e); putE(st, ci, e); return DONE;
        }
        if (n == "vh_below8") {
            E k = A(0); if (!isc(k) || k->c == 0 || k->c > 256) { inconcl(st, "vh_below8"); return KILLED; }
            E b = insym(st.inputs.size(), 0, k->c - 1);
            if (k->c < 256) addc(st, mkraw(KUle, 1, 0, b, mkc(k->c - 1, 8)));
            st.inputs.push_back(b); putE(st, ci, k->c == 1 ? mkc(0, 8) : b); return DONE;
        }
        if (n == "vh_nondet64") { E e = mksym(64, false, "nd" + std::to_string(g_syms.size())); putE(st, ci, e); return DONE; }
        if (n == "vh_digit") { E e = mksym(8, false, "dg" + std::to_string(g_syms.size()), 9); addc(st, mkraw(KUle, 1, 0, e, mkc(9, 8))); putE(st, ci, e); return DONE; }
        if (n == "vh_digits") {   // the n decimal digits of v (10^(n-1) <= v < 10^n on this path)
            E v = A(0); u64 k, p; if (!concretize(st, A(1), k) || !concretize(st, A(2), p)) return KILLED;
            OP o; if (!chkaccess(st, p, k, true, o)) return KILLED;
            Obj *w = wobj(st, o->base); E sum = mkc(0, 64); u64 val = evalm(st, v), pw = 1;
            { std::vector<E> ds; E x = v, ten = mkc(10, 64); for (u64 i = 0; i < k; i++) { E r = mkbin(KURem, x, ten); if (r->k == KURem) break; ds.push_back(mkext(r, 0, 8)); x = mkbin(KUDiv, x, ten); }
              if (ds.size() == k) { for (u64 i = 0; i < k; i++) wrbyte(w, p - w->base + i, ds[i]); return DONE; } }
            if (getenv("SX_DIG")) errs() << "digits " << k << " of " << showE(v, 7) << "\n";
            for (auto &m : st.digs) if (m.first == v && m.second.size() == k) { for (u64 i = 0; i < k; i++) wrbyte(w, p - w->base + i, m.second[i]); return DONE; }
            std::vector<E> ds;
            for (u64 i = 0; i < k; i++, pw *= 10, val /= 10) {
                E e = (i == 19) ? mkc(1, 8) : mksym(8, false, "dg" + std::to_string(g_syms.size()), 9);
                if (i < 19) { addc(st, mkraw(KUle, 1, 0, e, mkc(9, 8))); st.m.v.resize(g_syms.size() + 1, 0); st.m.v[e->c] = val % 10; }
                ds.push_back(e); wrbyte(w, p - w->base + i, e); sum = mkbin(KAdd, sum, mkbin(KMul, mkz(e, 64), mkc(pw, 64)));
            }
            st.digs.push_back({v, ds});
            st.m.id = ++S->nextmodel;
            addc(st, mkeq(v, sum)); adddef(st, v, sum); return DONE;
        }
        if (n == "vh_is_const") { putE(st, ci, mkc(isc(A(0)), 32)); return DONE; }
        if (n == "vh_ite32") { E c = A(0); if (c->w > 1) c = mkext(c, 0, 1); putE(st, ci, mkite(c, A(1), A(2))); return DONE; }
        if (n == "vh_objsize") { u64 p; if (!concretize(st, A(0), p)) return KILLED; OP o = findobj(st, p); if (!o || o->base != p || !o->heap || o->freed) { addfail(st, st.m, "memory safety: realloc of an invalid pointer"); st.dead = true; return KILLED; } putE(st, ci, mkc(o->size, 64)); return DONE; }
        if (n == "vh_nondet8") { E e = mksym(8, false, "nd" + std::to_string(g_syms.size())); putE(st, ci, e); return DONE; }
        if (n == "vh_choose") {
            E k = A(0); if (!isc(k)) { inconcl(st, "vh_choose"); return KILLED; }
            u64 lo = 0, cnt = k->c; bool first = true;
            for (auto g : st.ghost) if (g == 1) first = false;
            State *cur = nullptr;
            std::vector<u64> vals;
            for (u64 i = lo; i < cnt; i++) { if (first && shard_n > 1 && (int)(i % shard_n) != shard_i) continue; vals.push_back(i); }
            st.ghost.push_back(1);
            if (vals.empty()) { st.dead = true; return KILLED; }
            for (size_t j = vals.size(); j-- > 1;) {
                cur = forkst(st); E e = mkc(vals[j], 32); cur->inputs.push_back(e); putE(*cur, ci, e); ++cur->fr.back().it; work.push_back(cur);
            }
            E e = mkc(vals[0], 32); st.inputs.push_back(e); putE(st, ci, e); return DONE;
        }
        if (n == "vh_concrete64") { u64 v; E e = A(0); if (!concretize(st, e, v)) return KILLED; putE(st, ci, mkc(v, e->w)); return DONE; }
        if (n == "vh_assume") { E c = A(0); if (c->w > 1) c = mkext(c, 0, 1); if (!assume(st, c)) { if (!st.dead) ninf++; st.dead = true; return KILLED; } return DONE; }
        if (n == "vh_assert") {
            nasserts++;
            E c = A(0); if (c->w > 1) c = mkext(c, 0, 1);
            if (istrue(c)) return DONE;
            std::string what = cstr(st, A(1));
            E nc = mknot(c);
            if (isfalse(c) || evalm(st, nc)) { addfail(st, st.m, what); if (!assume(st, c)) { st.dead = true; return KILLED; } return DONE; }
            Model m; Res r = sat(st, nc, m);
            if (r == UNKNOWN) { inconcl(st, "solver gave no answer on: " + what); return KILLED; }
            if (r == SAT) addfail(st, m, what);
            addc(st, c);
            return DONE;
        }
        if (n == "vh_reach") { std::string w = cstr(st, A(0)); if (!reach.count(w)) reach[w] = inputs_under(st, st.m); return DONE; }
        if (n == "vh_solver") { putE(st, ci, mkc(1, 32)); return DONE; }
        if (n == "vh_fail_model") { inconcl(st, "unmodelled: " + cstr(st, A(0))); return KILLED; }
        if (n == "vh_kill") { st.dead = true; return KILLED; }
        if (n == "vh_alloc") {
            u64 sz; if (!concretize(st, A(0), sz)) return KILLED;
            if (sz > (64u << 20)) { if (verbose) errs() << "huge allocation\n"; putE(st, ci, mkc(0, 64)); return DONE; }
            OP o = newobj(&st, sz, "heap block of " + std::to_string(sz) + " bytes"); o->heap = true; st.mem[o->base] = o;
            u64 z; if (!concretize(st, A(1), z)) return KILLED;
            if (z) o->st.assign(sz, 1);
            putE(st, ci, mkc(o->base, 64)); return DONE;
        }
        if (n == "vh_free") {
            u64 p; if (!concretize(st, A(0), p)) return KILLED; if (p == 0) return DONE;
            OP o = findobj(st, p);
            if (!o || !o->heap || o->base != p || o->freed) { addfail(st, st.m, o && o->freed ? "memory safety: double free" : "memory safety: free of an invalid pointer"); st.dead = true; return KILLED; }
            Obj *w = wobj(st, o->base); w->freed = true; return DONE;
        }
    }
    if (isnoop(n)) {
        Type *t = ci->getType();
        if (!t->isVoidTy()) putE(st, ci, mkc(0, wof(t)));
        return DONE;
    }
    if (f->isDeclaration()) { inconcl(st, "unmodelled external " + dem(n)); return KILLED; }
    std::vector<Val> args; for (auto &a : ci->args()) args.push_back(get(st, a));
    if (args.size() < f->arg_size()) { inconcl(st, "call with too few arguments"); return KILLED; }
    if (st.fr.size() > 3000) { limits["recursion deeper than 3000 calls in " + dem(n)] = inputs_under(st, st.m); st.dead = true; return KILLED; }
    Frame &fr = st.fr.back(); ++fr.it;
    entersetup(st, f, args, ci);
    return ENTER;
}
// ---------------------------------------------------------------- local path merging
// A symbolic branch whose two sides meet again without calls, loops or faults is not explored as two paths: the region up to the
// immediate post-dominator is evaluated once, values that differ become if-then-else expressions, stores become conditional stores.
struct Region { bool ok = false; BasicBlock *end = nullptr; std::vector<BasicBlock*> order; bool stores = false; std::set<BasicBlock*> exits; };
static std::map<const BasicBlock*, Region> regions; static std::map<const Function*, std::unique_ptr<PostDominatorTree>> pdts;
static bool pureinst(Instruction *I, bool &stores) {
    switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::ICmp: case Instruction::FCmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::Freeze: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::GetElementPtr: case Instruction::Select: case Instruction::Load: case Instruction::PHI: case Instruction::Br: case Instruction::Switch: return !I->getType()->isStructTy() && !I->getType()->isArrayTy();
    case Instruction::Store: stores = true; return !I->getOperand(0)->getType()->isStructTy() && !I->getOperand(0)->getType()->isArrayTy();
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { auto *c = dyn_cast<ConstantInt>(I->getOperand(1)); return c && !c->isZero(); }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return isa<ConstantInt>(I->getOperand(1));
    case Instruction::Call: { auto *f = cast<CallInst>(I)->getCalledFunction(); return f && (f->getName().startswith("llvm.dbg") || f->getName().startswith("llvm.lifetime")); }
    default: return false;
    }
}
// a block from which the function is left without any further branch
static bool leaves(BasicBlock *b) {
    for (int i = 0; i < 12 && b; i++) { Instruction *T = b->getTerminator(); if (isa<ReturnInst>(T) || isa<UnreachableInst>(T)) return true; b = b->getSingleSuccessor(); }
    return false;
}
static bool tryregion(BasicBlock *bb, BasicBlock *end, bool exits, Region &r) {
    std::map<BasicBlock*, int> seen; std::vector<BasicBlock*> post; bool bad = false; size_t ninst = 0; r.exits.clear(); r.stores = false;
    std::function<void(BasicBlock*)> dfs = [&](BasicBlock *b) {
        if (bad || b == end) return;
        if (b == bb) { bad = true; return; }
        if (exits && leaves(b)) { r.exits.insert(b); return; }
        int &s = seen[b]; if (s == 2) return; if (s == 1) { bad = true; return; }
        s = 1; if (seen.size() > 96) { bad = true; return; }
        for (auto &I : *b) { ninst++; if (!pureinst(&I, r.stores) || ninst > 900) { bad = true; return; } }
        if (!isa<BranchInst>(b->getTerminator()) && !isa<SwitchInst>(b->getTerminator())) { bad = true; return; }
        for (auto *n : successors(b)) dfs(n);
        seen[b] = 2; post.push_back(b);
    };
    for (auto *n : successors(bb)) dfs(n);
    if (bad) return false;
    r.end = end; r.order.assign(post.rbegin(), post.rend()); r.ok = true; return true;
}
static Region &region(BasicBlock *bb) {
    auto it = regions.find(bb); if (it != regions.end()) return it->second;
    Region &r = regions[bb]; Function *f = bb->getParent();
    auto &pd = pdts[f]; if (!pd) pd = std::make_unique<PostDominatorTree>(*f);
    auto *nd = pd->getNode(bb);
    if (nd && nd->getIDom() && nd->getIDom()->getBlock() && tryregion(bb, nd->getIDom()->getBlock(), false, r)) return r;
    // the sides may meet again if edges that leave the function are set aside
    std::vector<BasicBlock*> q; std::set<BasicBlock*> in; for (auto *n : successors(bb)) if (in.insert(n).second) q.push_back(n);
    for (size_t i = 0; i < q.size() && q.size() < 64; i++) for (auto *n : successors(q[i])) if (in.insert(n).second) q.push_back(n);
    for (size_t i = 0; i < q.size() && i < 64; i++) {
        if (leaves(q[i])) continue;
        size_t direct = 0; for (auto *n : successors(bb)) direct += n == q[i];
        if (tryregion(bb, q[i], true, r)) { if (r.order.empty()) { r.ok = false; continue; } return r; }
    }
    r.ok = false; return r;
}
static bool dostep(State &st);
static void outedges(State &st, BasicBlock *b, E cond, std::map<std::pair<BasicBlock*, BasicBlock*>, E> &ed) {
    auto add = [&](BasicBlock *t, E c) { E &x = ed[{b, t}]; x = x ? mkbin(KOr, x, c) : c; };
    Instruction *T = b->getTerminator();
    if (auto *br = dyn_cast<BranchInst>(T)) {
        if (br->isUnconditional()) { add(br->getSuccessor(0), cond); return; }
        E c = get(st, br->getCondition()).e; add(br->getSuccessor(0), mkbin(KAnd, cond, c)); add(br->getSuccessor(1), mkbin(KAnd, cond, mknot(c))); return;
    }
    auto *sw = cast<SwitchInst>(T); E v = get(st, sw->getCondition()).e, def = mkc(1, 1);
    for (auto &c : sw->cases()) { E eq = mkeq(v, mkc(c.getCaseValue()->getZExtValue(), v->w)); def = mkbin(KAnd, def, mknot(eq)); add(c.getCaseSuccessor(), mkbin(KAnd, cond, eq)); }
    add(sw->getDefaultDest(), mkbin(KAnd, cond, def));
}
static bool trymerge(State &st) {
    Frame &fr = st.fr.back(); BasicBlock *bb = fr.bb, *prev = fr.prev; auto it0 = fr.it;
    if (st.nomerge == &*fr.it) { st.nomerge = nullptr; return false; }
    Region &r = region(bb); if (!r.ok) return false;
    std::unique_ptr<State> pre; if (!r.exits.empty()) pre.reset(forkst(st));
    std::map<u64, OP> saved; if (r.stores) saved = st.mem;
    auto undo = [&]() { Frame &f = st.fr.back(); f.bb = bb; f.prev = prev; f.it = it0; if (r.stores) st.mem = saved; return false; };
    std::map<std::pair<BasicBlock*, BasicBlock*>, E> ed;
    outedges(st, bb, mkc(1, 1), ed);
    auto phival = [&](PHINode &p, BasicBlock *b, Val &out) -> bool {
        bool first = true; bool ptr = p.getType()->isPointerTy();
        for (auto *pr : predecessors(b)) {
            auto e = ed.find({pr, b}); if (e == ed.end() || isfalse(e->second)) continue;
            Val v = get(st, p.getIncomingValueForBlock(pr)); if (!v.e) return false;
            if (first) { out = v; first = false; continue; }
            if (v.e == out.e) continue;
            if (ptr) return false;
            Val n; n.e = mkite(e->second, v.e, out.e); out = n;
        }
        return !first;
    };
    auto cond = [&](BasicBlock *b) { E c = mkc(0, 1); std::set<BasicBlock*> done; for (auto *pr : predecessors(b)) if (done.insert(pr).second) { auto e = ed.find({pr, b}); if (e != ed.end()) c = mkbin(KOr, c, e->second); } return c; };
    for (BasicBlock *b : r.order) {
        E c = cond(b); if (isfalse(c)) continue;
        std::vector<std::pair<const Value*, Val>> ph;
        for (auto &p : b->phis()) { Val v; if (!phival(p, b, v)) return undo(); ph.push_back({&p, v}); }
        for (auto &x : ph) put(st, x.first, x.second);
        Frame &f = st.fr.back(); f.bb = b; f.prev = nullptr; f.it = b->getFirstNonPHIIt();
        while (&*f.it != b->getTerminator()) {
            Instruction *I = &*f.it;
            if (auto *ld = dyn_cast<LoadInst>(I)) {
                E ad = get(st, ld->getPointerOperand()).e; if (!isc(ad)) return undo();
                OP o = findobj(st, ad->c); u64 n = DL->getTypeStoreSize(ld->getType());
                if (!o || ad->c + n > o->base + o->size || o->freed) return undo();
            } else if (auto *sr = dyn_cast<StoreInst>(I)) {
                E ad = get(st, sr->getPointerOperand()).e; if (!isc(ad)) return undo();
                OP o = findobj(st, ad->c); u64 n = DL->getTypeStoreSize(sr->getValueOperand()->getType());
                if (!o || ad->c + n > o->base + o->size || o->freed || o->ro) return undo();
                E old = rdint(st, o, ad->c - o->base, n); E v = get(st, sr->getValueOperand()).e; if (!v) return undo();
                if (v->w < n * 8) v = mkz(v, n * 8);
                if (sr->getValueOperand()->getType()->isPointerTy() && v != old && !istrue(c)) return undo();
                Obj *w = wobj(st, o->base); wrint(w, ad->c - w->base, mkite(c, v, old), n); nmem++; ++f.it; continue;
            } else if (auto *sel = dyn_cast<SelectInst>(I)) { if (sel->getType()->isPointerTy()) { E sc = get(st, sel->getCondition()).e; if (!isc(sc)) return undo(); } }
            else if (isa<CallInst>(I)) { ++f.it; continue; }
            if (!dostep(st)) { return undo(); }
        }
        outedges(st, b, c, ed);
    }
    if (!r.exits.empty()) {
        E x = mkc(0, 1), in = mkc(0, 1); for (auto &e : ed) { if (r.exits.count(e.first.second)) x = mkbin(KOr, x, e.second); if (e.first.second == r.end) in = mkbin(KOr, in, e.second); }
        if (istrue(x)) return undo();
        if (!isfalse(x)) {
            Model o; int d = decide(st, x, o);
            if (d < 0 || d == 1) return undo();
            if (d == 2) {
                bool v = evalm(st, x); Model mine = st.m;
                pre->m = v ? mine : o; addc(*pre, x); pre->nomerge = &*it0; work.push_back(pre.release());
                if (v) st.m = o; addc(st, mknot(x)); nbranch++;
            }
        }
    }
    std::vector<std::pair<const Value*, Val>> ph;
    for (auto &p : r.end->phis()) { Val v; if (!phival(p, r.end, v)) return undo(); ph.push_back({&p, v}); }
    for (auto &x : ph) put(st, x.first, x.second);
    Frame &f = st.fr.back(); f.bb = r.end; f.prev = nullptr; f.it = r.end->getFirstNonPHIIt(); nmerged++;
    return true;
}
static bool dostep(State &st) {
    Frame &fr = st.fr.back(); Instruction *I = &*fr.it;
    st.steps++; total_steps++;
    auto A = [&](unsigned i) { return get(st, I->getOperand(i)).e; };
    auto adv = [&]() { ++st.fr.back().it; };
    switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        static const std::map<unsigned, Kind> k = {{Instruction::Add, KAdd}, {Instruction::Sub, KSub}, {Instruction::Mul, KMul}, {Instruction::And, KAnd}, {Instruction::Or, KOr}, {Instruction::Xor, KXor}};
        if (wof(I->getType()) > 64) { inconcl(st, "wide integer"); return false; }
        putE(st, I, mkbin(k.at(I->getOpcode()), A(0), A(1))); adv(); return true; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        E a = A(0), b = A(1);
        if (!isc(b)) { // shift amounts at least as large as the width are undefined: report
            E ok = mkbin(KUlt, b, mkc(a->w, a->w)); Model m; int d = decide(st, ok, m);
            if (d < 0) return false;
            if (d != 1) { addfail(st, d == 0 ? st.m : m, "undefined behaviour: shift amount out of range"); if (!assume(st, ok)) { st.dead = true; return false; } }
        } else if (b->c >= a->w) { addfail(st, st.m, "undefined behaviour: shift amount out of range"); st.dead = true; return false; }
        putE(st, I, mkbin(I->getOpcode() == Instruction::Shl ? KShl : I->getOpcode() == Instruction::LShr ? KLShr : KAShr, a, b)); adv(); return true; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E a = A(0), b = A(1);
        E ok = mknot(mkeq(b, mkc(0, b->w))); Model m; int d = decide(st, ok, m);
        if (d < 0) return false;
        if (d != 1) { addfail(st, d == 0 ? st.m : m, "division by zero"); if (!assume(st, ok)) { st.dead = true; return false; } }
        static const std::map<unsigned, Kind> k = {{Instruction::UDiv, KUDiv}, {Instruction::SDiv, KSDiv}, {Instruction::URem, KURem}, {Instruction::SRem, KSRem}};
        Kind kk = k.at(I->getOpcode()); E r = nullptr;
        // signed division of a provably non-negative dividend is unsigned division
        if ((kk == KSDiv || kk == KSRem) && isc(b) && sextw(b->c, b->w) > 0) {
            E nn = mkbin(KSle, mkc(0, a->w), a);
            if (istrue(nn)) r = mkbin(kk == KSDiv ? KUDiv : KURem, a, b);
            else if (!isc(a)) {
                if (evalm(st, nn)) { Model m2; Res q = sat(st, mknot(nn), m2); if (q == UNSAT) r = mkbin(kk == KSDiv ? KUDiv : KURem, a, b); }
            }
        }
        // division by a constant: introduce quotient and remainder (kept as plain terms when the divisor is a power of two)
        E aa = a; Kind base = kk; if (r) { base = kk == KSDiv ? KUDiv : KURem; }
        {   // exact simplification of the division, if there is one
            E x = r ? r : mkbin(kk, a, b); auto isdiv = [](E e) { return e->k == KUDiv || e->k == KURem || e->k == KSDiv || e->k == KSRem; };
            if (!isdiv(x) && !(x->k == KMul && isdiv(x->a)) && !(x->k == KSub && isdiv(x->b))) { putE(st, I, x); adv(); return true; }
        }
        if (!isc(a) && isc(b) && (base == KUDiv || base == KURem) && (b->c & (b->c - 1)) != 0) {
            static std::map<std::pair<E,E>, std::pair<E,E>> qr;
            auto &p = qr[{aa, b}];
            if (!p.first) { p.first = mksym(a->w, false, "q" + std::to_string(g_syms.size()), upper(aa) / b->c); p.second = mksym(a->w, false, "r" + std::to_string(g_syms.size()), b->c - 1); }
            E q = p.first, rm = p.second;
            bool have = false; for (auto g : st.ghost) if (g == 1000 + q->c) { have = true; break; }
            if (!have) {
                st.ghost.push_back(1000 + q->c);
                u64 av = evalm(st, aa);
                st.m.v.resize(g_syms.size() + 1, 0); st.m.v[q->c] = av / b->c; st.m.v[rm->c] = av % b->c; st.m.id = ++S->nextmodel;
                addc(st, mkraw(KUle, 1, 0, q, mkc(upper(aa) / b->c, a->w)));
                addc(st, mkraw(KUle, 1, 0, rm, mkc(b->c - 1, a->w)));
                addc(st, mkeq(aa, mkbin(KAdd, mkbin(KMul, q, b), rm)));
                // q*b + rm does not wrap: q*b <= aa
                addc(st, mkbin(KUle, mkbin(KMul, q, b), aa));
                adddef(st, aa, mkbin(KAdd, mkbin(KMul, q, b), rm));
            }
            r = (base == KUDiv) ? q : rm;
        }
        if (!r) r = mkbin(kk, a, b);
        putE(st, I, r); adv(); return true; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: {
        E a = A(0); if (I->getOpcode() == Instruction::FNeg) { putE(st, I, mkbin(KXor, a, mkc(1ULL << (a->w - 1), a->w))); adv(); return true; }
        E b = A(1); if (!isc(a) || !isc(b)) { inconcl(st, "symbolic floating point"); return false; }
        double x = asd(a), y = asd(b), r = 0; switch (I->getOpcode()) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; default: r = x / y; }
        putE(st, I, ofd(r, a->w)); adv(); return true; }
    case Instruction::FCmp: {
        E a = A(0), b = A(1); auto pr = cast<FCmpInst>(I)->getPredicate();
        // order-preserving integer image of IEEE values; NaN handled explicitly
        unsigned w = a->w; u64 h = 1ULL << (w - 1); unsigned mb = w == 32 ? 23 : 52; u64 inf = ((w == 32 ? 0xffULL : 0x7ffULL) << mb);
        auto nan = [&](E x) { return mkbin(KUlt, mkc(inf, w), mkbin(KAnd, x, mkc(h - 1, w))); };
        auto zero = [&](E x) { return mkeq(mkbin(KAnd, x, mkc(h - 1, w)), mkc(0, w)); };
        auto img = [&](E x) { return mkite(mkext(x, w - 1, 1), mkbin(KXor, x, mkc(maskw(w), w)), mkbin(KXor, x, mkc(h, w))); };
        E un = mkbin(KOr, nan(a), nan(b)); E bz = mkbin(KAnd, zero(a), zero(b));
        E eq = mkbin(KOr, bz, mkeq(a, b)), lt = mkbin(KAnd, mknot(bz), mkbin(KUlt, img(a), img(b))), gt = mkbin(KAnd, mknot(bz), mkbin(KUlt, img(b), img(a)));
        E r; bool ord = true;
        switch (pr) {
        case CmpInst::FCMP_OEQ: r = eq; break; case CmpInst::FCMP_OLT: r = lt; break; case CmpInst::FCMP_OLE: r = mkbin(KOr, lt, eq); break; case CmpInst::FCMP_OGT: r = gt; break; case CmpInst::FCMP_OGE: r = mkbin(KOr, gt, eq); break; case CmpInst::FCMP_ONE: r = mkbin(KOr, lt, gt); break; case CmpInst::FCMP_ORD: r = mkc(1, 1); break;
        case CmpInst::FCMP_UEQ: r = eq; ord = false; break; case CmpInst::FCMP_ULT: r = lt; ord = false; break; case CmpInst::FCMP_ULE: r = mkbin(KOr, lt, eq); ord = false; break; case CmpInst::FCMP_UGT: r = gt; ord = false; break; case CmpInst::FCMP_UGE: r = mkbin(KOr, gt, eq); ord = false; break; case CmpInst::FCMP_UNE: r = mkbin(KOr, lt, gt); ord = false; break; case CmpInst::FCMP_UNO: r = mkc(0, 1); ord = false; break;
        default: inconcl(st, "fcmp"); return false; }
        putE(st, I, ord ? mkbin(KAnd, mknot(un), r) : mkbin(KOr, un, r)); adv(); return true; }
    case Instruction::ICmp: {
        E a = A(0), b = A(1), r; auto p = cast<ICmpInst>(I)->getPredicate();
        switch (p) {
        case CmpInst::ICMP_EQ: r = mkeq(a, b); break; case CmpInst::ICMP_NE: r = mknot(mkeq(a, b)); break;
        case CmpInst::ICMP_ULT: r = mkbin(KUlt, a, b); break; case CmpInst::ICMP_ULE: r = mkbin(KUle, a, b); break; case CmpInst::ICMP_UGT: r = mkbin(KUlt, b, a); break; case CmpInst::ICMP_UGE: r = mkbin(KUle, b, a); break;
        case CmpInst::ICMP_SLT: r = mkbin(KSlt, a, b); break; case CmpInst::ICMP_SLE: r = mkbin(KSle, a, b); break; case CmpInst::ICMP_SGT: r = mkbin(KSlt, b, a); break; default: r = mkbin(KSle, b, a); break; }
        putE(st, I, r); adv(); return true; }
    case Instruction::Trunc: putE(st, I, mkext(A(0), 0, wof(I->getType()))); adv(); return true;
    case Instruction::ZExt: putE(st, I, mkz(A(0), wof(I->getType()))); adv(); return true;
    case Instruction::SExt: putE(st, I, mks(A(0), wof(I->getType()))); adv(); return true;
    case Instruction::PtrToInt: { E a = A(0); unsigned w = wof(I->getType()); putE(st, I, w < 64 ? mkext(a, 0, w) : a); adv(); return true; }
    case Instruction::IntToPtr: { E a = A(0); putE(st, I, a->w < 64 ? mkz(a, 64) : a); adv(); return true; }
    case Instruction::BitCast: case Instruction::Freeze: put(st, I, get(st, I->getOperand(0))); adv(); return true;
    case Instruction::FPExt: case Instruction::FPTrunc: { E a = A(0); if (!isc(a)) { inconcl(st, "symbolic floating point"); return false; } if (wof(I->getType()) == 0) { inconcl(st, "long double"); return false; } putE(st, I, ofd(asd(a), wof(I->getType()))); adv(); return true; }
    case Instruction::SIToFP: case Instruction::UIToFP: { E a = A(0); if (!isc(a)) { inconcl(st, "symbolic floating point"); return false; } double d = I->getOpcode() == Instruction::SIToFP ? (double)sextw(a->c, a->w) : (double)a->c; putE(st, I, ofd(d, wof(I->getType()))); adv(); return true; }
    case Instruction::FPToSI: case Instruction::FPToUI: { E a = A(0); if (!isc(a)) { inconcl(st, "symbolic floating point"); return false; } double d = asd(a); putE(st, I, mkc(I->getOpcode() == Instruction::FPToSI ? (u64)(s64)d : (u64)d, wof(I->getType()))); adv(); return true; }
    case Instruction::Select: {
        E c = A(0); Val a = get(st, I->getOperand(1)), b = get(st, I->getOperand(2));
        if (isc(c)) put(st, I, c->c ? a : b);
        else if (a.e && !I->getType()->isPointerTy()) putE(st, I, mkite(c, a.e, b.e));
        else { u64 v; if (!concretize(st, c, v)) return false; put(st, I, v ? a : b); }
        adv(); return true; }
    case Instruction::Alloca: {
        auto *ai = cast<AllocaInst>(I); u64 n; if (!concretize(st, get(st, ai->getArraySize()).e, n)) return false;
        u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
        if (sz > (64u << 20)) { limits["stack allocation of more than 64 MB"] = inputs_under(st, st.m); st.dead = true; return false; }
        OP o = newobj(&st, sz, "local " + (ai->hasName() ? ai->getName().str() : std::string("variable"))); o->stack = true; st.mem[o->base] = o; fr.allocas.push_back(o->base);
        putE(st, I, mkc(o->base, 64)); adv(); return true; }
    case Instruction::Load: {
        Type *t = I->getType(); E ad = A(0); unsigned n = DL->getTypeStoreSize(t);
        if (!isc(ad) && wof(t)) { E e = nullptr; if (symread(st, ad, n, e)) { if (!e) return false; unsigned w = wof(t); putE(st, I, w < n * 8 ? mkext(e, 0, w) : e); adv(); return true; } }
        u64 a; if (!concretize(st, ad, a)) return false;
        OP o; if (!chkaccess(st, a, n, false, o)) return false;
        put(st, I, loadVal(st, o, a - o->base, t)); adv(); return true; }
    case Instruction::Store: {
        Type *t = I->getOperand(0)->getType(); unsigned n = DL->getTypeStoreSize(t);
        u64 a; if (!concretize(st, A(1), a)) return false;
        OP o; if (!chkaccess(st, a, n, true, o)) return false;
        Val v = get(st, I->getOperand(0));
        Obj *w = wobj(st, o->base); storeVal(st, w, a - w->base, t, v); adv(); return true; }
    case Instruction::GetElementPtr: {
        auto *gep = cast<GetElementPtrInst>(I); E r = A(0);
        for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
            Value *op = it.getOperand();
            if (StructType *sty = it.getStructTypeOrNull()) { r = mkbin(KAdd, r, mkc(DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()), 64)); continue; }
            E x = get(st, op).e; x = x->w < 64 ? mks(x, 64) : x; u64 sz = DL->getTypeAllocSize(it.getIndexedType());
            r = mkbin(KAdd, r, mkbin(KMul, x, mkc(sz, 64)));
        }
        putE(st, I, r); adv(); return true; }
    case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(I); Val v = get(st, ev->getAggregateOperand()); for (unsigned i : ev->indices()) { Val t = (*v.agg)[i]; v = t; } put(st, I, v); adv(); return true; }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(I); Val v = get(st, iv->getAggregateOperand()), x = get(st, iv->getInsertedValueOperand());
        std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val a, ArrayRef<unsigned> ix) { if (ix.empty()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg); (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.drop_front()); return r; };
        put(st, I, ins(v, iv->getIndices())); adv(); return true; }
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if (b->isUnconditional()) { jump(st, b->getSuccessor(0)); return true; }
        E c = A(0); if (g_merge && !isc(c) && trymerge(st)) return true;
        Model o; int d = decide(st, c, o);
        if (d < 0) return false;
        nbranch++;
        if (d == 2) {
            bool v = evalm(st, c);
            State *n = forkst(st); n->m = o; addc(*n, v ? mknot(c) : c); jump(*n, b->getSuccessor(v ? 1 : 0)); work.push_back(n);
            addc(st, v ? c : mknot(c)); jump(st, b->getSuccessor(v ? 0 : 1));
        } else jump(st, b->getSuccessor(d ? 0 : 1));
        return true; }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I); E v = A(0);
        if (isc(v)) { BasicBlock *t = sw->getDefaultDest(); for (auto &c : sw->cases()) if (c.getCaseValue()->getZExtValue() == v->c) { t = c.getCaseSuccessor(); break; } jump(st, t); return true; }
        if (g_merge && trymerge(st)) return true;
        std::vector<std::pair<BasicBlock*, E>> tg; E def = mkc(1, 1);
        for (auto &c : sw->cases()) {
            E eq = mkeq(v, mkc(c.getCaseValue()->getZExtValue(), v->w)); def = mkbin(KAnd, def, mknot(eq));
            bool f = false; for (auto &t : tg) if (t.first == c.getCaseSuccessor()) { t.second = mkbin(KOr, t.second, eq); f = true; }
            if (!f) tg.push_back({c.getCaseSuccessor(), eq});
        }
        { bool f = false; for (auto &t : tg) if (t.first == sw->getDefaultDest()) { t.second = mkbin(KOr, t.second, def); f = true; } if (!f) tg.push_back({sw->getDefaultDest(), def}); }
        int mine = -1;
        for (size_t i = 0; i < tg.size(); i++) if (evalm(st, tg[i].second)) { mine = i; break; }
        for (size_t i = 0; i < tg.size(); i++) if ((int)i != mine) {
            Model o; Res r = sat(st, tg[i].second, o);
            if (r == UNKNOWN) { inconcl(st, "solver gave no answer"); return false; }
            if (r == UNSAT) continue;
            State *n = forkst(st); n->m = o; addc(*n, tg[i].second); jump(*n, tg[i].first); work.push_back(n);
        }
        addc(st, tg[mine].second); jump(st, tg[mine].first); return true; }
    case Instruction::Ret: {
        Val v; bool has = I->getNumOperands() > 0; if (has) v = get(st, I->getOperand(0));
        for (u64 a : fr.allocas) st.mem.erase(a);
        CallInst *c = fr.caller; st.fr.pop_back();
        if (st.fr.empty()) return false;
        if (c && has && !c->getType()->isVoidTy()) put(st, c, v);
        return true; }
    case Instruction::Unreachable: addfail(st, st.m, "undefined behaviour: unreachable code is executed (missing return or similar)"); st.dead = true; return false;
    case Instruction::Call: {
        CallRes r = docall(st, cast<CallInst>(I));
        if (r == DONE) { adv(); return true; }
        if (r == ENTER) return true;
        return false; }
    default: inconcl(st, std::string("instruction ") + I->getOpcodeName()); return false;
    }
}
static void jstr(FILE *f, const std::string &s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void jvec(FILE *f, const std::vector<u64> &v) { fputc('[', f); for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v[i]); fputc(']', f); }

int main(int argc, char **argv) {
    { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30) && !getenv("SX_REEXEC")) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ul << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SX_REEXEC", "1", 1); execv("/proc/self/exe", argv); } } }
    std::string out; bool errfail = false; (void)errfail; T0 = now(); bool stopfirst = false;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--time") tmax = atof(argv[++i]); else if (a == "--steps") maxsteps = atoll(argv[++i]); else if (a == "--paths") maxpaths = atoll(argv[++i]);
        else if (a == "--out") out = argv[++i]; else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard_i, &shard_n); else if (a == "-v") verbose = true; else if (a == "--stop") stopfirst = true; else if (a == "--merge") g_merge = true;
        else if (a == "--wrap") { std::string l = argv[++i]; size_t p = 0; while (p <= l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); if (q > p) wraps.insert(l.substr(p, q - p)); p = q + 1; } }
    }
    SMDiagnostic err; M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("sx", errs()); return 2; }
    DL = &M->getDataLayout();
    S = new Solver; S->tmpdir = getenv("SX_TMP") ? getenv("SX_TMP") : "/tmp"; if (getenv("SX_BIGTMO")) S->big_tmo_s = atoi(getenv("SX_BIGTMO"));
    if (getenv("SX_TMO")) { S->tmo_ms = atoi(getenv("SX_TMO")); S->reset(); }
    for (auto s : {"fflush", "fprintf", "printf", "puts", "putchar", "perror", "syslog", "vfprintf", "fputs", "fputc", "fwrite", "__cxa_atexit"}) noop.insert(s);
    // addresses
    u64 fa = 0x1000; for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
    State *st0 = new State; std::vector<std::pair<GlobalVariable*, OP>> gv;
    g_base = 0x1000000;
    for (auto &g : M->globals()) {
        if (g.getName().startswith("llvm.")) continue;
        u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 16; if (g.isDeclaration() && sz < 512) sz = 512;
        OP o = newobj(nullptr, sz, "global " + dem(g.getName()), 64); gaddr[&g] = o->base; gv.push_back({&g, o});
    }
    for (auto &p : gv) {
        if (p.first->hasInitializer()) initmem(p.second.get(), 0, p.first->getInitializer()); else p.second->st.assign(p.second->size, 1);
        if (p.first->isConstant()) { p.second->ro = true; rom[p.second->base] = p.second; } else st0->mem[p.second->base] = p.second;
    }
    st0->nextaddr = 0x10000000; st0->m.id = ++S->nextmodel;
    Function *f = M->getFunction(argv[2]);
    if (!f) { errs() << "no function " << argv[2] << "\n"; return 2; }
    entersetup(*st0, f, {}, nullptr);
    work.push_back(st0);
    bool timeup = false; u64 tick = 0; size_t maxwork = 0;
    while (!work.empty() && !timeup) {
        State *st = work.back(); work.pop_back(); maxwork = std::max(maxwork, work.size());
        while (!st->fr.empty()) {
            if (!dostep(*st)) break;
            if (st->steps > maxsteps) { limits["more than " + std::to_string(maxsteps) + " instructions on one path (in " + dem(st->fr.back().f->getName()) + ")"] = inputs_under(*st, st->m); break; }
            if ((++tick & 0xfff) == 0 && now() - T0 > tmax) { timeup = true; break; }
        }
        if (now() - T0 > tmax) timeup = true;
        npaths++;
        if (npaths > maxpaths) { incon.insert("path limit"); break; }
        if (stopfirst && !fails.empty()) { delete st; break; }
        if (verbose && (npaths % 1000 == 0)) errs() << "paths " << npaths << " work " << work.size() << " queries " << S->nq << " t " << now() - T0 << "\n";
        delete st;
    }
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"status\":\"%s\",\"paths\":%llu,\"infeasible\":%llu,\"steps\":%llu,\"asserts\":%llu,\"memchecks\":%llu,\"branches\":%llu,\"queries\":%llu,\"cached\":%llu,\"unsat\":%llu,\"sat\":%llu,\"fallback\":%llu,\"rewritten\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"left\":%zu,\n\"fails\":[",
        timeup ? "timeout" : "ok", (unsigned long long)npaths, (unsigned long long)ninf, (unsigned long long)total_steps, (unsigned long long)nasserts, (unsigned long long)nmem, (unsigned long long)nbranch, (unsigned long long)S->nq, (unsigned long long)S->ncache, (unsigned long long)S->nunsat, (unsigned long long)S->nsat, (unsigned long long)S->nfallback, (unsigned long long)nrewritten, S->secs, now() - T0, work.size());
    bool first = true;
    for (auto &x : fails) { fprintf(o, "%s{\"what\":", first ? "" : ",\n"); jstr(o, x.what); fprintf(o, ",\"func\":"); jstr(o, x.func); fprintf(o, ",\"inputs\":"); jvec(o, x.inputs); fprintf(o, "}"); first = false; }
    fprintf(o, "],\n\"reach\":{"); first = true;
    for (auto &x : reach) { if (!first) fprintf(o, ","); jstr(o, x.first); fprintf(o, ":"); jvec(o, x.second); first = false; }
    fprintf(o, "},\n\"limits\":{"); first = true;
    for (auto &x : limits) { if (!first) fprintf(o, ","); jstr(o, x.first); fprintf(o, ":"); jvec(o, x.second); first = false; }
    fprintf(o, "},\n\"inconclusive\":["); first = true;
    for (auto &x : incon) { if (!first) fprintf(o, ","); jstr(o, x); first = false; }
    fprintf(o, "],\n\"functions\":["); first = true;
    for (auto &x : fnused) { if (!first) fprintf(o, ","); jstr(o, x); first = false; }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    _exit(0);
}
