#pragma once
#include "interp.h"
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>

enum EndKind { E_OK, E_DISCARD, E_VIOLATION, E_INCOMPLETE };
struct PathEnd {
    EndKind kind;
    std::string what, msg;
};

struct Shared { // mmap'd between the forked workers
    volatile int live;
    volatile int stop;
    volatile int violations;
    volatile int nextPart;
    volatile int splits;
};

struct Builtin;

struct Eng {
    llvm::Module* M = nullptr;
    const llvm::DataLayout* DL = nullptr;
    Solver solver;
    std::string srcFilter = "seq/";
    llvm::DenseMap<const llvm::GlobalValue*, uint64_t> gaddr;
    llvm::DenseMap<const llvm::Function*, CFunc*> funcs;
    std::unordered_map<uint64_t, CFunc*> byAddr;
    std::unordered_map<uint64_t, const llvm::GlobalVariable*> tlsByAddr;
    std::unordered_map<uint64_t, const llvm::GlobalValue*> gByAddr;
    std::vector<CFunc*> allFuncs;
    std::vector<State*> work;
    std::map<std::pair<uint32_t, std::pair<uint32_t, std::string>>, Expr*> symMemo;
    std::set<std::string> names;
    std::map<std::string, int> reachIdx;
    std::vector<std::string> reachNames;
    uint64_t reachAll = 0;
    std::map<std::string, uint64_t> typeIds;

    // options
    double timeLimit = 60;
    uint64_t stepLimit = 20000000;
    unsigned maxWorkers = 8;
    int maxPreempt = 2;
    std::map<int, int> cfgPreempt;
    bool raceCheck = true;
    bool forkSelect = false; // case-split selects and widened conditions instead of merging values
    bool forkPtr = false;    // case-split 64-bit words loaded from symbolic addresses
    int maxViolations = 8;
    std::string outPrefix = "/tmp/sxe";
    bool verbose = false;
    uint64_t sampleSeed = 1;
    unsigned sampleMax = 6;
    bool fullSymAddr = true;

    // statistics
    struct CfgStat { uint64_t ok = 0, discarded = 0, incomplete = 0, violations = 0, steps = 0, maxSteps = 0; };
    std::map<int, CfgStat> cstat;
    uint64_t forks = 0, totalSteps = 0, asserts = 0, assertsSym = 0;
    std::map<std::string, uint64_t> incompleteWhy;
    struct Viol { int cfg; std::string what, msg, loc; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<uint8_t> sched; };
    std::vector<Viol> viols;
    struct Sample { int cfg; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<uint64_t> obs; uint64_t key; std::vector<uint8_t> sched; };
    std::map<int, std::vector<Sample>> samples;
    std::set<std::string> seenViol;
    double startT = 0;
    Shared* sh = nullptr;

    [[noreturn]] void fatal(const std::string& s);
    void flatten(llvm::Type* t, Lanes& out, uint32_t off);
    uint64_t globalAddr(const llvm::GlobalValue* g);
    void constLanes(const llvm::Constant* c, std::vector<Val>& out);
    CFunc* getFunc(const llvm::Function* f);
    void compileFunc(CFunc* f);
    int builtinId(const std::string& n, const llvm::Function* f);
    int asmId(const std::string& n);

    void load(const std::string& bc);
    State* initial();
    void run(State* s);
    void exec(State& s);

    // path helpers
    CI* curInst(State& s);
    std::string loc(State& s);
    [[noreturn]] void violation(State& s, const std::string& what, const std::string& msg);
    [[noreturn]] void end(EndKind k, const std::string& what = "", const std::string& msg = "") { throw PathEnd{ k, what, msg }; }
    State* fork(State& s);
    bool decide(State& s, Expr* c);
    bool decide(State& s, Val v) { return v.e ? decide(s, v.e) : (v.c & 1); }
    void addC(State& s, Expr* c);
    void know(State& s, Expr* c, bool v);
    Expr* simp(State& s, Expr* c);
    bool mustBe(State& s, Expr* c); // is c implied by the path condition?
    uint64_t conc(State& s, Val v, unsigned w);
    u128 evalM(State& s, Expr* e);

    // memory
    Obj* access(State& s, uint64_t addr, uint64_t n, bool write, uint32_t& off, uint32_t& id);
    Val loadScalar(State& s, Obj* o, uint32_t off, unsigned bytes, unsigned w);
    void storeScalar(State& s, Obj* o, uint32_t off, unsigned bytes, unsigned w, Val v);
    bool resolve(State& s, Val a, uint64_t n, bool write, uint64_t& out, Expr** symOff, uint32_t* symId);
    Val symLoad(State& s, uint32_t id, Expr* off, unsigned bytes, unsigned w);
    void race(State& s, Obj* o, uint32_t id, uint32_t off, uint32_t n, bool write);
    uint64_t heapAlloc(State& s, uint64_t size, uint64_t align, uint8_t kind);
    void heapFree(State& s, uint64_t p, int kind, int64_t size, int64_t align);
    std::string cstr(State& s, uint64_t p);
    void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n);
    void setMem(State& s, uint64_t d, Val b, uint64_t n);

    // calls
    void pushFrame(State& s, CFunc* f, const std::vector<Val>& args);
    void popFrame(State& s);
    bool doReturn(State& s, const Val* rv, unsigned n);
    void takeEdge(State& s, Frame& f, const Edge& e);
    bool unwind(State& s);
    void throwExc(State& s, uint64_t obj);
    bool typeMatches(State& s, uint64_t thrown, uint64_t caught);
    std::string typeName(State& s, uint64_t ti);
    uint64_t typeId(State& s, uint64_t ti);
    void throwStd(State& s, const char* tiName);
    // returns: 0 = finished (result written), 1 = control changed (frames pushed or unwound, thread switched)
    int builtin(State& s, CallInfo& k, CI& ci);
    int intrinsic(State& s, CallInfo& k, CI& ci);
    Val arg(State& s, CallInfo& k, int i, int lane = 0);
    void setRes(State& s, CallInfo& k, Val v, int lane = 0);
    Val fcmp(unsigned pred, Val a, Val b, unsigned w);

    // threads
    int schedPoint(State& s);
    bool switchAway(State& s, bool includeSelf);
    void atomicSync(State& s, uint64_t addr, unsigned order, bool isLoad, bool isStore);
    void fenceSync(State& s, unsigned order);

    // driver
    void mainLoop();
    void maybeSplit();
    void writePart();
    void recordViolation(State& s, const std::string& what, const std::string& msg);
    void finishPath(State* s, const PathEnd& e);
};
extern Eng G;
double nowS();
