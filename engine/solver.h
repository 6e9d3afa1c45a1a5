#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>

enum Sat { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };

struct SolverStats {
    uint64_t queries = 0;      // decided by the SMT solver
    uint64_t cacheHits = 0;
    uint64_t orderHits = 0;    // decided by the built-in order procedure
    uint64_t modelHits = 0;    // decided sat by re-evaluating an earlier model
    uint64_t witHits = 0;      // decided sat by trial evaluation (constraints with products)
    uint64_t sat = 0, unsat = 0, unknown = 0;
    double time = 0;
    double maxTime = 0;
};

struct Solver {
    SolverStats st;
    unsigned timeoutMs = 30000000; // Z3 rlimit units (no timer threads: the engine forks)
    std::string dumpDir; // when set, dump every n-th query as SMT-LIB2
    unsigned dumpEvery = 0;
    // Is (pc /\ q) satisfiable?  base is a model of pc; on S_SAT *out = base updated on the variables of the relevant slice.
    Sat check(const std::vector<Expr*>& pc, Expr* q, const Model& base, Model* out);
    Sat rawCheck(const std::vector<Expr*>& cs, std::vector<std::pair<uint32_t, uint64_t>>* asg);
    Sat viaEqualities(std::vector<Expr*>& cs, const Model& base, Model* out);
    Sat abstracted(const std::vector<Expr*>& cs, const Model& base, Model* out);
    Sat order(const std::vector<Expr*>& cs, const Model& base, Model* out);
    bool witness(const std::vector<Expr*>& cs, const Model& base, Model* out);
    int witnessTries = 40;
    std::unordered_map<Expr*, Expr*> prodVar;
    uint64_t mulUnsat = 0;
    Z3_ast tr(Expr* e);
    void init();

  private:
    Z3_context ctx = nullptr;
    Z3_solver slv = nullptr, slvFp = nullptr;
    uint64_t sinceReset = 0, orderUnsat = 0;
    struct Entry { uint8_t res; std::vector<std::pair<uint32_t, uint64_t>> asg; };
    struct KeyHash { size_t operator()(const std::pair<uint64_t, uint64_t>& k) const { return k.first; } };
    std::unordered_map<std::pair<uint64_t, uint64_t>, Entry, KeyHash> cache;
    std::vector<std::vector<std::pair<uint32_t, uint64_t>>> recent;
    size_t recentPos = 0;
    std::vector<uint64_t> mark;
    uint64_t markEpoch = 0;
    Z3_sort fpsort(unsigned w);
    Z3_ast toFp(Expr* e);
    bool hasFp(Expr* e);
    bool hasMul(Expr* e);
    void products(Expr* e, std::vector<Expr*>& out, std::unordered_set<Expr*>& seen);
    std::unordered_map<Expr*, bool> mulMemo;
    uint64_t wrand = 0x9e3779b97f4a7c15ull;
    std::unordered_map<Expr*, bool> fpMemo;
};
