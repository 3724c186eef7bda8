#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onerr(Z3_context, Z3_error_code) { }
Solver::Solver() {
    Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, onerr);
    s = nullptr; reset();
}
void Solver::reset() {
    if (s) Z3_solver_dec_ref(c, s);
    s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), inc_ms);
    Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
    gen++; since = 0;
}
Z3_ast Solver::bo(E e) {
    assert(e->w == 1);
    if (e->zbool) return e->zbool;
    Z3_ast r;
    switch (e->k) {
    case KConst: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case KEq: r = (e->a->w == 1) ? Z3_mk_eq(c, bo(e->a), bo(e->b)) : Z3_mk_eq(c, bv(e->a), bv(e->b)); break;
    case KUlt: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
    case KUle: r = Z3_mk_bvule(c, bv(e->a), bv(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
    case KSle: r = Z3_mk_bvsle(c, bv(e->a), bv(e->b)); break;
    case KNot: r = Z3_mk_not(c, bo(e->a)); break;
    case KAnd: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_and(c, 2, x); break; }
    case KOr: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_or(c, 2, x); break; }
    case KXor: r = Z3_mk_xor(c, bo(e->a), bo(e->b)); break;
    case KIte: r = Z3_mk_ite(c, bo(e->a), bo(e->b), bo(e->d)); break;
    default: r = Z3_mk_eq(c, bv(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); break;
    }
    Z3_inc_ref(c, r); e->zbool = r; return r;
}
Z3_ast Solver::bv(E e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    Z3_sort so = Z3_mk_bv_sort(c, e->w);
    switch (e->k) {
    case KConst: r = Z3_mk_unsigned_int64(c, e->c, so); break;
    case KSym: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->c), so); break;
    case KAdd: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
    case KSub: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
    case KMul: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
    case KUDiv: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
    case KURem: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
    case KSRem: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
    case KShl: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
    case KLShr: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
    case KAShr: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
    case KConcat: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
    case KExtract: r = Z3_mk_extract(c, e->c + e->w - 1, e->c, bv(e->a)); break;
    case KZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, bv(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, bv(e->a)); break;
    case KIte: if (e->w > 1) { r = Z3_mk_ite(c, bo(e->a), bv(e->b), bv(e->d)); break; } goto boolish;
    case KAnd: if (e->w > 1) { r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break; } goto boolish;
    case KOr: if (e->w > 1) { r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break; } goto boolish;
    case KXor: if (e->w > 1) { r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break; } goto boolish;
    default: boolish:
        r = Z3_mk_ite(c, bo(e), Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so)); break;
    }
    Z3_inc_ref(c, r); e->zbv = r; return r;
}
Z3_ast Solver::proxy(E e) {
    if (e->proxy && e->proxy_gen == gen) return e->proxy;
    char nm[32]; snprintf(nm, sizeof nm, "p%u_%llu", e->id, (unsigned long long)gen);
    Z3_ast p = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bool_sort(c)); Z3_inc_ref(c, p);
    Z3_solver_assert(c, s, Z3_mk_implies(c, p, bo(e)));
    e->proxy = p; e->proxy_gen = gen; since++;
    return p;
}
Res Solver::check(const std::vector<E> &cs, E q, const Model &base, Model &m) {
    if (isfalse(q)) return UNSAT;
    if (dagsize(q, 2000) >= 2000) { q = acnorm(q); if (isfalse(q)) { nq++; nunsat++; return UNSAT; } }
    // slice: constraints transitively sharing symbols with q
    std::vector<E> sl; sl.push_back(q);
    static std::vector<u8> mark; mark.assign(g_syms.size() + 1, 0);
    std::vector<u32> vars;
    auto addset = [&](const SymSet *ss) { for (u32 i : *ss) if (!mark[i]) { mark[i] = 1; vars.push_back(i); } };
    addset(q->syms);
    std::vector<u8> used(cs.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = cs.size(); i-- > 0;) if (!used[i]) {
            bool hit = false;
            for (u32 x : *cs[i]->syms) if (mark[x]) { hit = true; break; }
            if (hit) { used[i] = 1; sl.push_back(cs[i]); addset(cs[i]->syms); ch = true; }
        }
    }
    std::vector<u32> key; for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    Res r; std::vector<std::pair<u32,u64>> asg;
    if (it != cache.end()) { ncache++; r = it->second.first; asg = it->second.second; }
    else {
        double t0 = now(); nq++;
        static int mode = getenv("SX_MODE") ? atoi(getenv("SX_MODE")) : 2;
        Z3_lbool z = Z3_L_UNDEF; Z3_solver used = nullptr, fresh = nullptr;
        if (mode != 1) {
            if (since > 4000) reset();
            std::vector<Z3_ast> as; for (E e : sl) as.push_back(proxy(e));
            z = Z3_solver_check_assumptions(c, s, as.size(), as.data()); used = s;
            if (z == Z3_L_UNDEF && mode == 2) reset();
        }
        if (z == Z3_L_UNDEF && mode >= 1) {
            static Z3_tactic tac = nullptr;
            if (!tac) {
                const char *names[] = {"simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "solve-eqs", "ackermannize_bv", "bit-blast", "simplify", "sat"};
                for (const char *n : names) { Z3_tactic t = Z3_mk_tactic(c, n); Z3_tactic_inc_ref(c, t); if (!tac) tac = t; else { tac = Z3_tactic_and_then(c, tac, t); Z3_tactic_inc_ref(c, tac); } }
            }
            fresh = Z3_mk_solver_from_tactic(c, tac); Z3_solver_inc_ref(c, fresh);
            Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), tmo_ms); Z3_solver_set_params(c, fresh, p); Z3_params_dec_ref(c, p);
            for (E e : sl) Z3_solver_assert(c, fresh, bo(e));
            z = Z3_solver_check(c, fresh); used = fresh; nfresh++;
        }
        if (z == Z3_L_TRUE) {
            r = SAT; Z3_model zm = Z3_solver_get_model(c, used); Z3_model_inc_ref(c, zm);
            for (u32 v : vars) {
                Z3_sort so = Z3_mk_bv_sort(c, g_syms[v].w);
                Z3_ast k = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)v), so), out;
                u64 val = 0;
                if (Z3_model_eval(c, zm, k, true, &out)) { Z3_inc_ref(c, out); uint64_t x = 0; if (Z3_get_numeral_uint64(c, out, &x)) val = x; Z3_dec_ref(c, out); }
                asg.push_back({v, val});
            }
            Z3_model_dec_ref(c, zm);
        } else if (z == Z3_L_FALSE) r = UNSAT;
        else { reset(); r = fallback(sl, asg, vars); }
        if (fresh) Z3_solver_dec_ref(c, fresh);
        secs += now() - t0;
        if (getenv("SX_SLOW") && now() - t0 > (getenv("SX_SLOWT") ? atof(getenv("SX_SLOWT")) : 0.5)) { fprintf(stderr, "slow %.2fs %d q=%s slice=%zu\n", now() - t0, (int)r, showE(q, 8).c_str(), sl.size()); if (getenv("SX_SLOW")[0]=='2') for (E e : sl) fprintf(stderr, "      %s\n", showE(e,7).c_str()); }
        if (r == SAT) nsat++; else if (r == UNSAT) nunsat++;
        cache.emplace(key, std::make_pair(r, asg));
    }
    if (r == SAT) { m.v = base.v; m.id = ++nextmodel; for (auto &p : asg) { if (p.first >= m.v.size()) m.v.resize(p.first + 1, 0); m.v[p.first] = p.second; } }
    return r;
}
// portfolio of external solvers on the SMT-LIB form
Res Solver::fallback(const std::vector<E> &cs, std::vector<std::pair<u32,u64>> &out, const std::vector<u32> &vars) {
    nfallback++;
    char fn[600]; snprintf(fn, sizeof fn, "%s/q%d_%llu.smt2", tmpdir.empty() ? "/tmp" : tmpdir.c_str(), (int)getpid(), (unsigned long long)nfallback);
    std::vector<Z3_ast> as; for (E e : cs) as.push_back(bo(e));
    std::string body;
    {
        Z3_solver t = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, t);
        for (auto a : as) Z3_solver_assert(c, t, a);
        body = Z3_solver_to_string(c, t);
        Z3_solver_dec_ref(c, t);
    }
    FILE *f = fopen(fn, "w"); if (!f) return UNKNOWN;
    fprintf(f, "(set-option :produce-models true)\n(set-logic QF_BV)\n%s\n(check-sat)\n", body.c_str());
    if (!vars.empty()) { fprintf(f, "(get-value ("); for (u32 v : vars) fprintf(f, " k!%u", v); fprintf(f, "))\n"); }
    fclose(f);
    const char *cmds[] = {"z3-new", "cvc5 --bitblast=eager --bv-sat-solver=cadical", "cvc5 --solve-bv-as-int=sum --nl-ext-tplanes", "z3 smt.arith.solver=2"};
    const int N = 3; pid_t pid[N]; std::string of[N];
    for (int i = 0; i < N; i++) {
        of[i] = std::string(fn) + ".o" + std::to_string(i);
        pid[i] = fork();
        if (pid[i] == 0) {
            setpgid(0, 0);
            char cmd[2000]; snprintf(cmd, sizeof cmd, "exec timeout %u %s %s > %s 2>/dev/null", big_tmo_s, cmds[i], fn, of[i].c_str());
            execl("/bin/sh", "sh", "-c", cmd, (char*)0); _exit(127);
        }
    }
    Res res = UNKNOWN; int left = N;
    while (left > 0 && res == UNKNOWN) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        for (int i = 0; i < N; i++) if (pid[i] == p) {
            left--; pid[i] = 0;
            FILE *g = fopen(of[i].c_str(), "r"); if (!g) continue;
            std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, g)) > 0) s.append(b, n); fclose(g);
            if (s.compare(0, 5, "unsat") == 0) res = UNSAT;
            else if (s.compare(0, 3, "sat") == 0 && s.find("(error") == std::string::npos) {
                res = SAT;
                for (u32 v : vars) {
                    std::string nm = "(k!" + std::to_string(v) + " "; size_t q = s.find(nm); u64 val = 0;
                    if (q != std::string::npos) {
                        q += nm.size();
                        if (s.compare(q, 2, "#x") == 0) val = strtoull(s.c_str() + q + 2, 0, 16);
                        else if (s.compare(q, 2, "#b") == 0) val = strtoull(s.c_str() + q + 2, 0, 2);
                        else if (s.compare(q, 5, "(_ bv") == 0) val = strtoull(s.c_str() + q + 5, 0, 10);
                    }
                    out.push_back({v, val});
                }
            }
        }
    }
    for (int i = 0; i < N; i++) if (pid[i]) { kill(-pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); }
    for (int i = 0; i < N; i++) unlink(of[i].c_str());
    if (!getenv("SX_KEEPQ")) unlink(fn);
    return res;
}
