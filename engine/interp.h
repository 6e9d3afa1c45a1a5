// Symbolic interpreter for LLVM bitcode.
#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <map>
#include <set>
#include <memory>

struct LaneT {
    uint16_t w;
    uint16_t bytes;
    uint32_t off;
};
typedef std::vector<LaneT> Lanes;

enum Op : uint8_t {
    I_BIN, I_ADD, I_SUB, I_AND, I_OR, I_XOR, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_FCAST,
    I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_MOV, I_BITCAST,
    I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE,
    I_LANDINGPAD, I_RESUME, I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE,
    I_CMPXCHG, I_RMW, I_FENCE, I_UNSUPPORTED
};

struct CFunc;

struct CI {
    uint8_t op, sub;
    uint16_t w;
    uint16_t n;
    uint16_t flag;
    int32_t dst, a, b, c;
    uint64_t imm;
    int32_t x, y;
    uint32_t hit;
    const llvm::Instruction* I;
};

struct Edge {
    int32_t pc;
    std::vector<std::pair<int32_t, int32_t>> copies;
};

struct GepIdx {
    int32_t op;
    uint16_t w;
    int64_t scale;
};

struct CallInfo {
    int kind = 0; // 0 direct, 1 indirect, 2 builtin, 3 unsupported external
    CFunc* callee = nullptr;
    int builtin = -1;
    int32_t calleeOp = 0;
    std::vector<int32_t> argOp;
    std::vector<uint16_t> argN, argW;
    std::vector<uint32_t> byval;
    int32_t dst = -1;
    uint16_t dstN = 0, dstW = 0;
    int32_t normalEdge = -1, unwindEdge = -1;
    std::string name;
    unsigned iid = 0;
};

struct SwitchInfo {
    int32_t defEdge;
    std::vector<std::pair<u128, int32_t>> cases; // value -> edge
    std::vector<int32_t> caseTarget; // target block pc
};

struct LPadInfo {
    bool cleanup;
    std::vector<std::pair<bool, int32_t>> clauses; // (isCatch, operand)
    std::vector<std::vector<int32_t>> filters;
};

struct CFunc {
    llvm::Function* F = nullptr;
    std::string name;
    bool compiled = false;
    bool inSeq = false;
    int nregs = 0;
    uint64_t addr = 0;
    std::vector<CI> code;
    std::vector<Val> consts;
    std::vector<Edge> edges;
    std::vector<CallInfo> calls;
    std::vector<std::vector<GepIdx>> geps;
    std::vector<Lanes> lanes;
    std::vector<SwitchInfo> switches;
    std::vector<LPadInfo> lpads;
    std::vector<std::vector<int>> masks;
    std::vector<int32_t> paramReg;
    std::vector<uint16_t> paramN;
    uint64_t callsMade = 0;
};

struct Frame {
    CFunc* f;
    uint32_t pc;
    uint32_t base;
    uint32_t sp;
    uint64_t freeExc;
};

static const int MAXT = 4;
struct VClock {
    uint16_t v[MAXT] = { 0, 0, 0, 0 };
    void join(const VClock& o) { for (int i = 0; i < MAXT; ++i) if (o.v[i] > v[i]) v[i] = o.v[i]; }
};

struct Thread {
    std::vector<Val> stk;
    std::vector<Frame> fr;
    uint32_t sp = 1; // next stack object index
    uint8_t status = 0; // 0 runnable, 1 blocked in join, 2 finished
    int8_t joinOn = -1;
    bool passed = false;
    std::vector<uint64_t> caught;
    uint64_t curExc = 0;
    uint32_t uncaught = 0;
    std::vector<std::pair<CFunc*, std::vector<Val>>> todo;
    VClock vc, relFence, acqPend;
    bool yielded = false;
    uint8_t skips = 0;
    uint32_t spin = 0;
};

struct Exc {
    uint64_t addr, type, dtor;
    int handlers;
    bool rethrown;
};

struct Known {
    std::vector<std::pair<Expr*, uint64_t>> t;
    uint32_t n = 0;
    const uint64_t* get(Expr* e) const
    {
        if (t.empty()) return nullptr;
        size_t m = t.size() - 1;
        for (size_t i = e->id & m;; i = (i + 1) & m) {
            if (!t[i].first) return nullptr;
            if (t[i].first == e) return &t[i].second;
        }
    }
    void set(Expr* e, uint64_t v)
    {
        if ((n + 1) * 2 > t.size()) {
            std::vector<std::pair<Expr*, uint64_t>> o;
            o.swap(t);
            t.assign(o.empty() ? 32 : o.size() * 2, { nullptr, 0 });
            n = 0;
            for (auto& p : o)
                if (p.first) set(p.first, p.second);
        }
        size_t m = t.size() - 1;
        size_t i = e->id & m;
        while (t[i].first && t[i].first != e) i = (i + 1) & m;
        if (!t[i].first) ++n;
        t[i] = { e, v };
    }
};

struct InputRec {
    const std::string* name;
    Expr* e; // variable, or null when value is concrete
    uint64_t v;
};

struct ObsRec {
    Val v;
};

struct State {
    std::vector<Thread> th;
    uint32_t cur = 0;
    Memory mem;
    std::vector<Expr*> pc;
    Known known;
    Model model;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    uint64_t steps = 0;
    uint32_t depth = 0;
    int cfg = 0;
    std::vector<Exc> excs;
    std::vector<std::pair<std::pair<uint64_t, uint32_t>, uint64_t>> tls;
    std::vector<uint8_t> sched; // thread chosen at each scheduling decision
    uint32_t schedPoints = 0;
    uint32_t preempt = 0;
    uint32_t nspawn = 0;
    std::vector<std::pair<uint64_t, VClock>> sync;
    uint64_t reach = 0;
    uint64_t yieldStreak = 0;
    uint64_t clock = 1000000;
    uint32_t tick = 0;
    State() {}
    State(const State& o) = default;
};
