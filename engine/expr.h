// Hash-consed bit-vector expressions with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <cassert>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
    K_CONST, K_VAR,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT, // width-1 results; NOT only on width 1
    K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FTOSI, K_FTOUI, K_SITOF, K_UITOF, K_FTOF, K_FLT, K_FLE, K_FEQ // the last three: x87 operands only
};

struct VarSet {
    std::vector<uint32_t> v; // sorted
    uint32_t id;
};

struct Expr {
    Kind kind;
    uint16_t width;
    uint32_t id;
    uint32_t h;
    uint32_t depth;
    Expr* k[3];
    uint64_t val; // const low / var index / extract offset
    uint64_t hi;  // const high
    uint64_t umin, umax; // unsigned interval (width<=64)
    const VarSet* vars;
    uint64_t evEpoch;
    uint64_t evLo, evHi;
    void* ast; // solver cache
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }
static inline i128 sextw128(u128 v, unsigned w) { return w >= 128 ? (i128)v : ((i128)(v << (128 - w)) >> (128 - w)); }

struct VarInfo {
    std::string name;
    unsigned width;
    Expr* e;
};

struct Model {
    std::vector<uint64_t> v;
    uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
    void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};

struct ExprPool {
    std::vector<VarInfo> vars;
    uint64_t count = 0;

    Expr* cst(u128 v, unsigned w);
    Expr* var(const std::string& name, unsigned w); // new variable
    Expr* mk(Kind k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint64_t val = 0);

    Expr* bin(Kind k, Expr* a, Expr* b);
    Expr* cmp(Kind k, Expr* a, Expr* b);
    Expr* lnot(Expr* a);
    Expr* land(Expr* a, Expr* b) { return bin(K_AND, a, b); }
    Expr* lor(Expr* a, Expr* b) { return bin(K_OR, a, b); }
    Expr* ite(Expr* c, Expr* a, Expr* b);
    Expr* extract(Expr* a, unsigned lo, unsigned w);
    Expr* concat(Expr* hi, Expr* lo);
    Expr* zext(Expr* a, unsigned w);
    Expr* sext(Expr* a, unsigned w);
    Expr* fop(Kind k, unsigned w, Expr* a, Expr* b = nullptr) ;
    Expr* fcmp_lt(Expr* a, Expr* b, bool orEq); // ordered a<b / a<=b on IEEE bits
    Expr* fcmp_eq(Expr* a, Expr* b);
    Expr* fisnan(Expr* a);
    Expr* fcmp80(unsigned pred, Expr* a, Expr* b); // LLVM fcmp predicate on x87 values obtained by conversion
    Expr* ftoi(Expr* a, unsigned w, Expr** frac, Expr** big);
    Expr* itof(bool sgn, unsigned w, Expr* x);
    Expr* widen(Expr* a);
    Expr* tru() { return cst(1, 1); }
    Expr* fls() { return cst(0, 1); }

    u128 eval(Expr* e, const Model& m); // uses epochs: call newEpoch() when the model changes
    uint64_t epoch = 1;
    void newEpoch() { ++epoch; }
    std::string str(Expr* e, int depth = 6);
    Expr* subst(Expr* e, std::unordered_map<Expr*, Expr*>& m); // m: terms to replace; also the memo table
    const VarSet* unionVars(const VarSet* a, const VarSet* b);

    ExprPool();
  private:
    std::vector<std::vector<Expr*>*> dummy;
    // open addressing table
    std::vector<Expr*> table;
    size_t tcount = 0;
    Expr* arena = nullptr;
    size_t arenaLeft = 0;
    Expr* alloc();
    Expr* intern(Kind k, unsigned w, Expr* a, Expr* b, Expr* c, uint64_t val, uint64_t hi);
    void grow();
    u128 evalRec(Expr* e, const Model& m);
    std::unordered_map<uint64_t, const VarSet*> ucache;
    std::unordered_map<uint64_t, std::vector<const VarSet*>> vsIntern;
    const VarSet* internVS(std::vector<uint32_t>&& v);
    const VarSet* emptyVS;
    uint32_t vsCount = 0;
    Expr* smallc[65][17];
};

static inline bool isC(const Expr* e) { return e->kind == K_CONST; }
static inline u128 cv(const Expr* e) { return ((u128)e->hi << 64) | e->val; }

extern ExprPool X;

u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
bool foldCmp(Kind k, u128 a, u128 b, unsigned w);
u128 foldFp(Kind k, unsigned w, u128 a, unsigned wa, u128 b);
