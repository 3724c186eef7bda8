#pragma once
#include "expr.h"
#include <map>
struct Model { std::vector<u64> v; u64 id; };
enum Res { SAT, UNSAT, UNKNOWN };
struct Solver {
    Z3_context c; Z3_solver s; u64 gen = 1; u64 nq = 0, ncache = 0, nsliced = 0, nfallback = 0; double secs = 0; u64 since = 0;
    u64 nfresh = 0; unsigned inc_ms = 60; u64 nunsat = 0, nsat = 0;
    unsigned tmo_ms = 20000; unsigned big_tmo_s = 120; std::string tmpdir;
    std::map<std::vector<u32>, std::pair<Res, std::vector<std::pair<u32,u64>>>> cache;
    u64 nextmodel = 1;
    Solver();
    void reset();
    Z3_ast bv(E e); Z3_ast bo(E e);
    Z3_ast proxy(E e);
    // is cs /\ q satisfiable?  On SAT m is base updated with a satisfying assignment.
    Res check(const std::vector<E> &cs, E q, const Model &base, Model &m);
    Res fallback(const std::vector<E> &cs, std::vector<std::pair<u32,u64>> &out, const std::vector<u32> &vars);
};
