// External functions, LLVM intrinsics, harness API, exceptions runtime and threads.
#include "eng.h"
#include <cmath>
#include <functional>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;

typedef std::function<int(Eng&, State&, CallInfo&)> BF;
static std::vector<BF> table;
static std::unordered_map<std::string, int> byName;
static int idNoop, idIntrin, idPopcntAsm;

static void reg(std::initializer_list<const char*> names, BF f)
{
    table.push_back(f);
    for (auto n : names) byName[n] = (int)table.size() - 1;
}

static uint64_t carg(Eng& E, State& s, CallInfo& k, int i) { return E.conc(s, E.arg(s, k, i), 64); }

static int doThrowStd(Eng& E, State& s, const char* n)
{
    E.throwStd(s, n);
    E.unwind(s);
    return 1;
}

static Expr* symVar(Eng& E, State& s, const std::string& name, unsigned bits)
{
    auto key = std::make_pair((uint32_t)s.inputs.size(), std::make_pair((uint32_t)bits, name));
    auto it = E.symMemo.find(key);
    Expr* v;
    if (it != E.symMemo.end()) v = it->second;
    else {
        v = X.var(name, bits);
        E.symMemo[key] = v;
    }
    s.inputs.push_back(InputRec{ &*E.names.insert(name).first, v, 0 });
    return v;
}

// the current thread finished its call: advance past the call instruction
static void completeCall(State& s)
{
    Thread& t = s.th[s.cur];
    Frame& f = t.fr.back();
    CI& ci = f.f->code[f.pc];
    CallInfo& k = f.f->calls[ci.x];
    if (k.normalEdge >= 0) G.takeEdge(s, f, f.f->edges[k.normalEdge]);
    else ++f.pc;
}

static int doYield(Eng& E, State& s, CallInfo& k)
{
    completeCall(s);
    if (s.th.size() <= 1) return 1;
    Thread& t = s.th[s.cur];
    t.yielded = true;
    if (++s.yieldStreak > 400) E.violation(s, "livelock", "all threads spin without progress");
    E.switchAway(s, false);
    return 1;
}

static std::vector<std::pair<uint64_t, std::string>> stdExcObjects;

static void init()
{
    if (!table.empty()) return;
    table.push_back([](Eng& E, State& s, CallInfo& k) { // no-op returning 0
        for (unsigned i = 0; i < k.dstN; ++i) E.setRes(s, k, VC(0), (int)i);
        return 0;
    });
    idNoop = 0;
    table.push_back([](Eng& E, State& s, CallInfo& k) { CI* c = E.curInst(s); return E.intrinsic(s, k, *c); });
    idIntrin = 1;
    table.push_back([](Eng& E, State& s, CallInfo& k) {
        CallInfo k2 = k;
        k2.iid = Intrinsic::ctpop;
        return E.intrinsic(s, k2, *E.curInst(s));
    });
    idPopcntAsm = 2;

    // ---- harness API
    reg({ "sx_symbolic" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(1)); return 0; });
    reg({ "sx_sym" }, [](Eng& E, State& s, CallInfo& k) {
        std::string n = E.cstr(s, carg(E, s, k, 0));
        unsigned bits = (unsigned)carg(E, s, k, 1);
        Expr* v = symVar(E, s, n, bits);
        E.setRes(s, k, fromE(X.zext(v, 64)));
        return 0;
    });
    reg({ "sx_range" }, [](Eng& E, State& s, CallInfo& k) {
        std::string n = E.cstr(s, carg(E, s, k, 0));
        uint64_t lo = carg(E, s, k, 1), hi = carg(E, s, k, 2);
        if (lo == hi) { s.inputs.push_back(InputRec{ &*E.names.insert(n).first, nullptr, lo }); E.setRes(s, k, VC(lo)); return 0; }
        unsigned bits = 64 - (unsigned)__builtin_clzll(hi);
        Expr* v = symVar(E, s, n, bits);
        s.model.set((uint32_t)v->val, lo);
        X.newEpoch();
        E.addC(s, X.cmp(K_ULE, X.cst(lo, bits), v));
        E.addC(s, X.cmp(K_ULE, v, X.cst(hi, bits)));
        E.setRes(s, k, fromE(X.zext(v, 64)));
        return 0;
    });
    reg({ "sx_pick" }, [](Eng& E, State& s, CallInfo& k) {
        std::string n = E.cstr(s, carg(E, s, k, 0));
        uint64_t lo = carg(E, s, k, 1), hi = carg(E, s, k, 2);
        if (hi < lo) E.end(E_DISCARD);
        if (lo == hi) { s.inputs.push_back(InputRec{ &*E.names.insert(n).first, nullptr, lo }); E.setRes(s, k, VC(lo)); return 0; }
        unsigned bits = 64 - (unsigned)__builtin_clzll(hi);
        Expr* v = symVar(E, s, n, bits);
        // a fresh variable: every value in the range is feasible
        for (uint64_t x = hi; x > lo; --x) {
            State* b = E.fork(s);
            b->model.set((uint32_t)v->val, x);
            E.addC(*b, X.cmp(K_EQ, v, X.cst(x, bits)));
            b->known.set(v, x);
            E.setRes(*b, k, VC(x));
            b->th[b->cur].fr.back().pc++;
            E.work.push_back(b);
        }
        s.model.set((uint32_t)v->val, lo);
        X.newEpoch();
        E.addC(s, X.cmp(K_EQ, v, X.cst(lo, bits)));
        s.known.set(v, lo);
        E.setRes(s, k, VC(lo));
        return 0;
    });
    reg({ "sx_conc" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(carg(E, s, k, 0))); return 0; });
    reg({ "sx_is_sym" }, [](Eng& E, State& s, CallInfo& k) { Val v = E.arg(s, k, 0); E.setRes(s, k, VC(v.e && !isC(v.e))); return 0; });
    reg({ "sx_assume" }, [](Eng& E, State& s, CallInfo& k) {
        Val v = E.arg(s, k, 0);
        if (v.e) v = fromE(E.simp(s, X.cmp(K_EQ, v.e, X.cst(0, v.e->width)))), v = v.e ? fromE(X.lnot(v.e)) : VC(!v.c);
        if (!v.e) {
            if (!v.c) E.end(E_DISCARD);
            return 0;
        }
        Expr* c = E.simp(s, v.e);
        if (isC(c)) { if (!c->val) E.end(E_DISCARD); return 0; }
        if (!E.evalM(s, c)) {
            Model m2;
            Sat r = E.solver.check(s.pc, c, s.model, &m2);
            if (r == S_UNSAT) E.end(E_DISCARD);
            if (r == S_UNKNOWN) E.end(E_INCOMPLETE, "solver gave no answer");
            s.model = m2;
            X.newEpoch();
        }
        E.addC(s, c);
        return 0;
    });
    reg({ "sx_assert" }, [](Eng& E, State& s, CallInfo& k) {
        Val v = E.arg(s, k, 0);
        ++E.asserts;
        if (v.e) v = fromE(E.simp(s, X.cmp(K_EQ, v.e, X.cst(0, v.e->width)))), v = v.e ? fromE(X.lnot(v.e)) : VC(!v.c);
        if (!v.e) {
            if (!v.c) E.violation(s, "assert", E.cstr(s, carg(E, s, k, 1)));
            return 0;
        }
        ++E.assertsSym;
        std::string msg = E.cstr(s, carg(E, s, k, 1));
        if (!E.decide(s, v.e)) E.violation(s, "assert", msg);
        return 0;
    });
    reg({ "sx_fail" }, [](Eng& E, State& s, CallInfo& k) -> int { E.violation(s, "assert", E.cstr(s, carg(E, s, k, 0))); });
    reg({ "sx_end" }, [](Eng& E, State& s, CallInfo& k) -> int { E.end(E_OK); });
    reg({ "sx_discard" }, [](Eng& E, State& s, CallInfo& k) -> int { E.end(E_DISCARD); });
    reg({ "sx_reach" }, [](Eng& E, State& s, CallInfo& k) {
        std::string n = E.cstr(s, carg(E, s, k, 0));
        auto it = E.reachIdx.find(n);
        if (it == E.reachIdx.end()) {
            it = E.reachIdx.insert({ n, (int)E.reachNames.size() }).first;
            E.reachNames.push_back(n);
        }
        if (it->second < 64) s.reach |= 1ull << it->second;
        return 0;
    });
    reg({ "sx_obs" }, [](Eng& E, State& s, CallInfo& k) { s.obs.push_back(ObsRec{ E.arg(s, k, 0) }); return 0; });
    reg({ "sx_live" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(s.mem.liveHeap)); return 0; });
    reg({ "sx_print" }, [](Eng& E, State& s, CallInfo& k) {
        if (E.verbose) {
            Val v = E.arg(s, k, 1);
            fprintf(stderr, "[sx] %s %s\n", E.cstr(s, carg(E, s, k, 0)).c_str(), v.e ? X.str(v.e, 5).c_str() : std::to_string((long long)v.c).c_str());
        }
        return 0;
    });
    reg({ "sx_spawn" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t fn = carg(E, s, k, 0);
        auto it = E.byAddr.find(fn);
        if (it == E.byAddr.end()) E.violation(s, "memory", "spawn of an invalid function");
        if (s.th.size() >= MAXT) E.end(E_INCOMPLETE, "too many threads");
        Val a = E.arg(s, k, 1);
        uint32_t me = s.cur;
        s.th.emplace_back();
        uint32_t id = (uint32_t)s.th.size() - 1;
        s.th[id].vc = s.th[me].vc;
        s.th[id].vc.v[id] = 1;
        s.th[me].vc.v[me]++;
        s.nspawn++;
        s.cur = id;
        E.pushFrame(s, it->second, { a });
        s.cur = me;
        E.setRes(s, k, VC(id));
        completeCall(s);
        return 1; // thread vector may have moved
    });
    reg({ "sx_join" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t id = carg(E, s, k, 0);
        if (id >= s.th.size()) return 0;
        if (s.th[id].status == 2) {
            s.th[s.cur].vc.join(s.th[id].vc);
            return 0;
        }
        s.th[s.cur].status = 1;
        s.th[s.cur].joinOn = (int8_t)id;
        if (!E.switchAway(s, false)) E.violation(s, "deadlock", "all threads blocked");
        return 1;
    });
    reg({ "sx_tick" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(++s.tick)); return 0; });
    reg({ "sx_thread" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(s.cur)); return 0; });
    reg({ "sx_yield", "sched_yield", "nanosleep", "usleep", "clock_nanosleep" }, doYield);

    // ---- memory
    auto newFn = [](uint8_t kind, bool nothrow, bool aligned) {
        return [=](Eng& E, State& s, CallInfo& k) {
            uint64_t n = carg(E, s, k, 0);
            uint64_t al = aligned ? carg(E, s, k, 1) : 16;
            if (n > (15u << 20)) {
                if (nothrow) { E.setRes(s, k, VC(0)); return 0; }
                return doThrowStd(E, s, "_ZTISt9bad_alloc");
            }
            E.setRes(s, k, VC(E.heapAlloc(s, n, al, kind)));
            return 0;
        };
    };
    reg({ "_Znwm" }, newFn(OK_NEW, false, false));
    reg({ "_Znam" }, newFn(OK_NEWARR, false, false));
    reg({ "_ZnwmRKSt9nothrow_t" }, newFn(OK_NEW, true, false));
    reg({ "_ZnamRKSt9nothrow_t" }, newFn(OK_NEWARR, true, false));
    reg({ "_ZnwmSt11align_val_t" }, newFn(OK_NEWAL, false, true));
    reg({ "_ZnamSt11align_val_t" }, newFn(OK_NEWARRAL, false, true));
    reg({ "malloc" }, newFn(OK_MALLOC, true, false));
    reg({ "calloc" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t n = carg(E, s, k, 0) * carg(E, s, k, 1);
        if (n > (15u << 20)) { E.setRes(s, k, VC(0)); return 0; }
        uint64_t p = E.heapAlloc(s, n, 16, OK_MALLOC);
        E.setMem(s, p, VC(0), n);
        E.setRes(s, k, VC(p));
        return 0;
    });
    reg({ "realloc" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t p = carg(E, s, k, 0), n = carg(E, s, k, 1);
        if (n > (15u << 20)) { E.setRes(s, k, VC(0)); return 0; }
        uint64_t q = E.heapAlloc(s, n, 16, OK_MALLOC);
        if (p) {
            Obj* o = s.mem.find((uint32_t)(p >> 24));
            uint64_t m = o && o->st == OS_LIVE ? std::min<uint64_t>(n, o->size) : 0;
            E.copyMem(s, q, p, m);
            E.heapFree(s, p, OK_MALLOC, -1, -1);
        }
        E.setRes(s, k, VC(q));
        return 0;
    });
    reg({ "free", "cfree" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_MALLOC, -1, -1); return 0; });
    reg({ "_ZdlPv", "_ZdlPvRKSt9nothrow_t" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEW, -1, -1); return 0; });
    reg({ "_ZdaPv", "_ZdaPvRKSt9nothrow_t" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEWARR, -1, -1); return 0; });
    reg({ "_ZdlPvm" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEW, (int64_t)carg(E, s, k, 1), -1); return 0; });
    reg({ "_ZdaPvm" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEWARR, (int64_t)carg(E, s, k, 1), -1); return 0; });
    reg({ "_ZdlPvSt11align_val_t" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEWAL, -1, (int64_t)carg(E, s, k, 1)); return 0; });
    reg({ "_ZdlPvmSt11align_val_t" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEWAL, (int64_t)carg(E, s, k, 1), (int64_t)carg(E, s, k, 2)); return 0; });
    reg({ "_ZdaPvSt11align_val_t" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEWARRAL, -1, (int64_t)carg(E, s, k, 1)); return 0; });
    reg({ "_ZdaPvmSt11align_val_t" }, [](Eng& E, State& s, CallInfo& k) { E.heapFree(s, carg(E, s, k, 0), OK_NEWARRAL, (int64_t)carg(E, s, k, 1), (int64_t)carg(E, s, k, 2)); return 0; });
    reg({ "posix_memalign" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t pp = carg(E, s, k, 0), al = carg(E, s, k, 1), n = carg(E, s, k, 2);
        if (al < 8 || (al & (al - 1))) { E.setRes(s, k, VC(22)); return 0; }
        if (n > (15u << 20)) { E.setRes(s, k, VC(12)); return 0; }
        uint64_t p = E.heapAlloc(s, n, al, OK_MEMALIGN);
        uint32_t off, id;
        Obj* o = E.access(s, pp, 8, true, off, id);
        E.storeScalar(s, o, off, 8, 64, VC(p));
        E.setRes(s, k, VC(0));
        return 0;
    });
    reg({ "aligned_alloc", "memalign" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t al = carg(E, s, k, 0), n = carg(E, s, k, 1);
        E.setRes(s, k, VC(n > (15u << 20) ? 0 : E.heapAlloc(s, n, al, OK_MEMALIGN)));
        return 0;
    });
    reg({ "memcpy", "memmove" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t n = carg(E, s, k, 2), d = carg(E, s, k, 0), a = carg(E, s, k, 1);
        E.copyMem(s, d, a, n);
        E.setRes(s, k, VC(d));
        return 0;
    });
    reg({ "memset" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t n = carg(E, s, k, 2), d = carg(E, s, k, 0);
        Val v = E.arg(s, k, 1);
        v = v.e ? fromE(X.extract(v.e, 0, 8)) : VC(v.c & 255);
        E.setMem(s, d, v, n);
        E.setRes(s, k, VC(d));
        return 0;
    });
    auto cmpFn = [](bool order) {
        return [=](Eng& E, State& s, CallInfo& k) {
            uint64_t n = carg(E, s, k, 2), a = carg(E, s, k, 0), b = carg(E, s, k, 1);
            if (!n) { E.setRes(s, k, VC(0)); return 0; }
            uint32_t oa, ob, ia, ib;
            Obj* A = E.access(s, a, n, false, oa, ia);
            Obj* B = E.access(s, b, n, false, ob, ib);
            Expr* r = X.cst(0, 32);
            for (uint64_t i = n; i-- > 0;) {
                Val x = E.loadScalar(s, A, oa + (uint32_t)i, 1, 8), y = E.loadScalar(s, B, ob + (uint32_t)i, 1, 8);
                if (!x.e && !y.e) {
                    if (x.c == y.c) continue;
                    r = X.cst(order && x.c < y.c ? 0xffffffffu : 1, 32);
                }
                else {
                    Expr *ex = toE(x, 8), *ey = toE(y, 8);
                    Expr* d = order ? X.ite(X.cmp(K_ULT, ex, ey), X.cst(0xffffffffu, 32), X.cst(1, 32)) : X.cst(1, 32);
                    r = X.ite(X.cmp(K_EQ, ex, ey), r, d);
                }
            }
            E.setRes(s, k, fromE(r));
            return 0;
        };
    };
    reg({ "memcmp" }, cmpFn(true));
    reg({ "bcmp" }, cmpFn(false));

    // ---- process, I/O
    reg({ "abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_deleted_virtual" }, [](Eng& E, State& s, CallInfo& k) -> int { E.violation(s, "abort", "program aborted in " + k.name); });
    reg({ "__assert_fail" }, [](Eng& E, State& s, CallInfo& k) -> int { E.violation(s, "abort", "assertion failed: " + E.cstr(s, carg(E, s, k, 0))); });
    reg({ "exit", "_exit", "quick_exit" }, [](Eng& E, State& s, CallInfo& k) -> int { E.violation(s, "abort", "process exit"); });
    reg({ "__stack_chk_fail" }, [](Eng& E, State& s, CallInfo& k) -> int { E.violation(s, "memory", "stack smashed"); });
    for (const char* n : { "printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fflush", "fwrite", "putc", "perror", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "getenv", "__cxa_free_exception_noop",
             "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv", "setlocale", "pthread_mutex_lock_noop" })
        byName[n] = idNoop;
    reg({ "pthread_self" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(s.cur + 1)); return 0; });
    reg({ "_ZNSt6thread20hardware_concurrencyEv", "get_nprocs" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(4)); return 0; });
    reg({ "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "time", "clock" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(s.clock += 1000)); return 0; });
    reg({ "__errno_location" }, [](Eng& E, State& s, CallInfo& k) {
        for (auto& t : s.tls)
            if (t.first.first == 1 && t.first.second == s.cur) { E.setRes(s, k, VC(t.second)); return 0; }
        uint64_t p = s.mem.create(s.mem.nextHeap++, 8, 16, OK_TLS, 0);
        s.tls.push_back({ { 1, s.cur }, p });
        E.setRes(s, k, VC(p));
        return 0;
    });

    // ---- exceptions
    reg({ "__cxa_allocate_exception" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t n = carg(E, s, k, 0);
        uint32_t id = s.mem.nextHeap++;
        E.setRes(s, k, VC(s.mem.create(id, (uint32_t)n, 16, OK_EXC, 0xA5)));
        return 0;
    });
    byName["__cxa_free_exception"] = idNoop;
    reg({ "__cxa_throw" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t p = carg(E, s, k, 0), ti = carg(E, s, k, 1), d = carg(E, s, k, 2);
        s.excs.push_back(Exc{ p, ti, d, 0, false });
        E.throwExc(s, p);
        E.unwind(s);
        return 1;
    });
    reg({ "__cxa_begin_catch" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t p = carg(E, s, k, 0);
        Thread& t = s.th[s.cur];
        for (auto& x : s.excs)
            if (x.addr == p) { x.handlers++; x.rethrown = false; }
        if (t.uncaught) t.uncaught--;
        t.caught.push_back(p);
        E.setRes(s, k, VC(p));
        return 0;
    });
    reg({ "__cxa_get_exception_ptr" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, E.arg(s, k, 0)); return 0; });
    reg({ "__cxa_end_catch" }, [](Eng& E, State& s, CallInfo& k) {
        Thread& t = s.th[s.cur];
        if (t.caught.empty()) return 0;
        uint64_t p = t.caught.back();
        t.caught.pop_back();
        for (size_t i = 0; i < s.excs.size(); ++i) {
            Exc& x = s.excs[i];
            if (x.addr != p) continue;
            if (--x.handlers == 0 && !x.rethrown) {
                uint64_t d = x.dtor;
                s.excs.erase(s.excs.begin() + (long)i);
                auto it = d ? E.byAddr.find(d) : E.byAddr.end();
                if (it != E.byAddr.end() && !it->second->F->isDeclaration()) {
                    E.pushFrame(s, it->second, { VC(p) });
                    s.th[s.cur].fr.back().freeExc = p;
                    return 1;
                }
                s.mem.findW((uint32_t)(p >> 24))->st = OS_FREED;
            }
            break;
        }
        return 0;
    });
    reg({ "__cxa_rethrow" }, [](Eng& E, State& s, CallInfo& k) -> int {
        Thread& t = s.th[s.cur];
        if (t.caught.empty()) E.violation(s, "abort", "rethrow without an exception");
        uint64_t p = t.caught.back();
        for (auto& x : s.excs)
            if (x.addr == p) x.rethrown = true;
        E.throwExc(s, p);
        E.unwind(s);
        return 1;
    });
    reg({ "_ZSt19uncaught_exceptionsv" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(s.th[s.cur].uncaught)); return 0; });
    reg({ "_ZSt18uncaught_exceptionv" }, [](Eng& E, State& s, CallInfo& k) { E.setRes(s, k, VC(s.th[s.cur].uncaught > 0)); return 0; });
    static const char* thr[][2] = { { "_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range" }, { "_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range" },
        { "_ZSt20__throw_length_errorPKc", "_ZTISt12length_error" }, { "_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error" }, { "_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc" },
        { "_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length" }, { "_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument" }, { "_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error" },
        { "__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length" }, { "_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call" }, { "_ZSt16__throw_bad_castv", "_ZTISt8bad_cast" }, { "__cxa_bad_cast", "_ZTISt8bad_cast" } };
    for (auto& t : thr) {
        const char* ty = t[1];
        reg({ t[0] }, [ty](Eng& E, State& s, CallInfo& k) { return doThrowStd(E, s, ty); });
    }
    reg({ "__cxa_guard_acquire" }, [](Eng& E, State& s, CallInfo& k) {
        uint32_t off, id;
        Obj* o = E.access(s, carg(E, s, k, 0), 1, false, off, id);
        E.setRes(s, k, VC(o->d->b[off] == 0));
        return 0;
    });
    reg({ "__cxa_guard_release" }, [](Eng& E, State& s, CallInfo& k) {
        uint32_t off, id;
        Obj* o = E.access(s, carg(E, s, k, 0), 1, true, off, id);
        o->d->b[off] = 1;
        return 0;
    });
    byName["__cxa_guard_abort"] = idNoop;

    // ---- math on concrete values
    auto m1 = [](const char* n, double (*f)(double)) {
        reg({ n }, [f](Eng& E, State& s, CallInfo& k) {
            Val v = E.arg(s, k, 0);
            if (v.e) E.end(E_INCOMPLETE, "symbolic argument of a math function");
            double d;
            memcpy(&d, &v.c, 8);
            d = f(d);
            uint64_t r;
            memcpy(&r, &d, 8);
            E.setRes(s, k, VC(r));
            return 0;
        });
    };
    m1("floor", floor); m1("ceil", ceil); m1("trunc", trunc); m1("round", round); m1("rint", rint); m1("nearbyint", nearbyint);
    m1("log10", log10); m1("log", log); m1("log2", log2); m1("exp", exp); m1("sqrt", sqrt); m1("exp2", exp2);
    reg({ "pow" }, [](Eng& E, State& s, CallInfo& k) {
        Val a = E.arg(s, k, 0), b = E.arg(s, k, 1);
        if (a.e || b.e) E.end(E_INCOMPLETE, "symbolic argument of a math function");
        double x, y;
        memcpy(&x, &a.c, 8);
        memcpy(&y, &b.c, 8);
        x = pow(x, y);
        uint64_t r;
        memcpy(&r, &x, 8);
        E.setRes(s, k, VC(r));
        return 0;
    });
    // a CPU with every feature (the code is compiled for one anyway); operands: leaf, [subleaf]
    reg({ "sx_cpuid" }, [](Eng& E, State& s, CallInfo& k) {
        uint64_t leaf = E.conc(s, E.arg(s, k, 0), 32) & 0xffffffffu;
        uint64_t r = leaf == 0 ? 7 : leaf == 0x80000000u ? 0x80000001u : 0xffffffffu;
        for (int i = 0; i < 4; ++i) E.setRes(s, k, VC(i ? 0xffffffffu : r), i);
        return 0;
    });
    reg({ "ldexp", "scalbn" }, [](Eng& E, State& s, CallInfo& k) {
        Val a = E.arg(s, k, 0), b = E.arg(s, k, 1);
        if (a.e || b.e) E.end(E_INCOMPLETE, "symbolic argument of a math function");
        double x;
        memcpy(&x, &a.c, 8);
        x = ldexp(x, (int)(int32_t)b.c);
        uint64_t r;
        memcpy(&r, &x, 8);
        E.setRes(s, k, VC(r));
        return 0;
    });
}

int Eng::asmId(const std::string& n)
{
    init();
    if (n.find("popcnt") != std::string::npos) return idPopcntAsm;
    if (n.find("cpuid") != std::string::npos) return byName["sx_cpuid"];
    if (n.find("pause") != std::string::npos) return byName["sx_yield"];
    if (n.empty()) return idNoop; // compiler barrier
    return -1;
}

int Eng::builtinId(const std::string& n, const Function* f)
{
    init();
    if (f && !f->isDeclaration()) return -1;
    if (n.compare(0, 5, "llvm.") == 0) return idIntrin;
    auto it = byName.find(n);
    if (it != byName.end()) return it->second;
    // std exception constructors and destructors: the object's state is not observed by the harnesses
    if (n.compare(0, 5, "_ZNSt") == 0 || n.compare(0, 6, "_ZNKSt") == 0) {
        for (const char* c : { "logic_error", "runtime_error", "out_of_range", "length_error", "invalid_argument", "domain_error", "bad_alloc", "exception", "range_error", "overflow_error", "bad_cast", "bad_typeid" })
            if (n.find(c) != std::string::npos) return idNoop;
    }
    return -1;
}

// ---------------------------------------------------------------- intrinsics

static Expr* popcount(Expr* a)
{
    unsigned w = a->width;
    // adder tree over single bits, narrow widths
    std::vector<Expr*> v;
    unsigned rw = 8;
    for (unsigned i = 0; i < w; ++i) v.push_back(X.zext(X.extract(a, i, 1), rw));
    while (v.size() > 1) {
        std::vector<Expr*> n;
        for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(X.bin(K_ADD, v[i], v[i + 1]));
        if (v.size() & 1) n.push_back(v.back());
        v.swap(n);
    }
    return w >= rw ? X.zext(v[0], w) : X.extract(v[0], 0, w);
}

int Eng::intrinsic(State& s, CallInfo& k, CI& ci)
{
    unsigned w = k.argW.empty() ? 0 : k.argW[0];
    unsigned n = k.dstN;
    auto A = [&](int i, int lane = 0) { return arg(s, k, i, lane); };
    auto AE = [&](int i, int lane = 0) { return toE(arg(s, k, i, lane), k.argW[i]); };
    auto dbl = [](const Val& v) { double d; memcpy(&d, &v.c, 8); return d; };
    auto und = [](double d) { uint64_t r; memcpy(&r, &d, 8); return VC(r); };
    switch (k.iid) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            uint64_t len = conc(s, A(2), k.argW[2]);
            uint64_t d = conc(s, A(0), 64), a = conc(s, A(1), 64);
            copyMem(s, d, a, len);
            return 0;
        }
        case Intrinsic::memset: {
            uint64_t len = conc(s, A(2), k.argW[2]);
            setMem(s, conc(s, A(0), 64), A(1), len);
            return 0;
        }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
            setRes(s, k, A(0));
            return 0;
        case Intrinsic::is_constant: setRes(s, k, VC(0)); return 0;
        case Intrinsic::objectsize: setRes(s, k, VC(A(1).c ? 0 : maskw(k.dstW))); return 0;
        case Intrinsic::stacksave: setRes(s, k, VC(0)); return 0;
        case Intrinsic::trap: case Intrinsic::debugtrap: violation(s, "abort", "trap executed");
        case Intrinsic::ubsantrap: violation(s, "ub", "undefined behaviour trap " + std::to_string((unsigned)A(0).c));
        case Intrinsic::eh_typeid_for: setRes(s, k, VC(typeId(s, A(0).c))); return 0;
        case Intrinsic::threadlocal_address: {
            uint64_t g = A(0).c;
            for (auto& t : s.tls)
                if (t.first.first == g && t.first.second == s.cur) { setRes(s, k, VC(t.second)); return 0; }
            if (s.cur == 0) { s.tls.push_back({ { g, 0 }, g }); setRes(s, k, VC(g)); return 0; }
            // another thread: a fresh copy of the initial value
            auto it = tlsByAddr.find(g);
            if (it == tlsByAddr.end()) fatal("unknown thread local");
            Type* ty = it->second->getValueType();
            uint64_t sz = DL->getTypeAllocSize(ty);
            uint32_t id = s.mem.nextHeap++;
            uint64_t p = s.mem.create(id, (uint32_t)sz, it->second->getAlign() ? (uint32_t)it->second->getAlign()->value() : 16, OK_TLS, 0);
            if (it->second->hasInitializer()) {
                Lanes l;
                flatten(ty, l, 0);
                std::vector<Val> v;
                constLanes(it->second->getInitializer(), v);
                Obj* o = s.mem.wdata(id);
                for (size_t i = 0; i < l.size(); ++i) storeScalar(s, o, l[i].off, l[i].bytes, l[i].w, v[i]);
            }
            s.tls.push_back({ { g, s.cur }, p });
            setRes(s, k, VC(p));
            return 0;
        }
        case Intrinsic::ctpop:
            for (unsigned i = 0; i < n; ++i) {
                Val a = A(0, (int)i);
                Val r = !a.e ? VC((uint64_t)__builtin_popcountll(a.c)) : fromE(popcount(a.e));
                if (k.dstW != w) r = r.e ? fromE(k.dstW < w ? X.extract(r.e, 0, k.dstW) : X.zext(r.e, k.dstW)) : VC(r.c & maskw(k.dstW));
                setRes(s, k, r, (int)i);
            }
            return 0;
        case Intrinsic::ctlz: case Intrinsic::cttz:
            for (unsigned i = 0; i < n; ++i) {
                Val a = A(0, (int)i);
                bool lz = k.iid == Intrinsic::ctlz;
                if (!a.e) {
                    uint64_t r = w;
                    if (a.c) r = lz ? (uint64_t)__builtin_clzll(a.c) - (64 - w) : (uint64_t)__builtin_ctzll(a.c);
                    setRes(s, k, VC(r), (int)i);
                }
                else if (forkPtr) { // case split on the position
                    unsigned b = 0;
                    while (b < w && !decide(s, X.extract(a.e, lz ? w - 1 - b : b, 1))) ++b;
                    setRes(s, k, VC(b), (int)i);
                }
                else {
                    Expr* r = X.cst(w, w);
                    for (unsigned b = 0; b < w; ++b) {
                        unsigned bit = lz ? b : w - 1 - b;
                        r = X.ite(X.extract(a.e, bit, 1), X.cst(lz ? w - 1 - bit : bit, w), r);
                    }
                    setRes(s, k, fromE(r), (int)i);
                }
            }
            return 0;
        case Intrinsic::bswap:
            for (unsigned i = 0; i < n; ++i) {
                Expr* a = AE(0, (int)i);
                Expr* r = X.extract(a, 0, 8);
                for (unsigned b = 1; b < w / 8; ++b) r = X.concat(r, X.extract(a, b * 8, 8));
                setRes(s, k, fromE(r), (int)i);
            }
            return 0;
        case Intrinsic::bitreverse:
            for (unsigned i = 0; i < n; ++i) {
                Expr* a = AE(0, (int)i);
                Expr* r = X.extract(a, 0, 1);
                for (unsigned b = 1; b < w; ++b) r = X.concat(r, X.extract(a, b, 1));
                setRes(s, k, fromE(r), (int)i);
            }
            return 0;
        case Intrinsic::fshl: case Intrinsic::fshr:
            for (unsigned i = 0; i < n; ++i) {
                Expr *a = AE(0, (int)i), *b = AE(1, (int)i), *c = AE(2, (int)i);
                Expr* sh = X.bin(K_UREM, c, X.cst(w, w));
                Expr* r;
                if (isC(sh)) {
                    unsigned x = (unsigned)sh->val;
                    if (k.iid == Intrinsic::fshl) r = x ? X.concat(X.extract(a, 0, w - x), X.extract(b, w - x, x)) : a;
                    else r = x ? X.concat(X.extract(a, 0, x), X.extract(b, x, w - x)) : b;
                }
                else {
                    Expr* cat = X.concat(a, b);
                    Expr* s2 = X.zext(sh, 2 * w);
                    r = k.iid == Intrinsic::fshl ? X.extract(X.bin(K_SHL, cat, s2), w, w) : X.extract(X.bin(K_LSHR, cat, s2), 0, w);
                }
                setRes(s, k, fromE(r), (int)i);
            }
            return 0;
        case Intrinsic::abs:
            for (unsigned i = 0; i < n; ++i) {
                Expr* a = AE(0, (int)i);
                setRes(s, k, fromE(X.ite(X.cmp(K_SLT, a, X.cst(0, w)), X.bin(K_SUB, X.cst(0, w), a), a)), (int)i);
            }
            return 0;
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
            for (unsigned i = 0; i < n; ++i) {
                Expr *a = AE(0, (int)i), *b = AE(1, (int)i);
                bool u = k.iid == Intrinsic::umax || k.iid == Intrinsic::umin, mx = k.iid == Intrinsic::smax || k.iid == Intrinsic::umax;
                Expr* lt = simp(s, X.cmp(u ? K_ULT : K_SLT, a, b));
                setRes(s, k, fromE(mx ? X.ite(lt, b, a) : X.ite(lt, a, b)), (int)i);
            }
            return 0;
        case Intrinsic::usub_sat: {
            for (unsigned i = 0; i < n; ++i) {
                Expr *a = AE(0, (int)i), *b = AE(1, (int)i);
                setRes(s, k, fromE(X.ite(X.cmp(K_ULT, a, b), X.cst(0, w), X.bin(K_SUB, a, b))), (int)i);
            }
            return 0;
        }
        case Intrinsic::uadd_sat: {
            for (unsigned i = 0; i < n; ++i) {
                Expr *a = AE(0, (int)i), *b = AE(1, (int)i);
                Expr* r = X.bin(K_ADD, a, b);
                setRes(s, k, fromE(X.ite(X.cmp(K_ULT, r, a), X.cst(maskw128(w), w), r)), (int)i);
            }
            return 0;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            Expr *a = AE(0), *b = AE(1);
            bool sg = k.iid == Intrinsic::sadd_with_overflow || k.iid == Intrinsic::ssub_with_overflow || k.iid == Intrinsic::smul_with_overflow;
            Kind op = (k.iid == Intrinsic::uadd_with_overflow || k.iid == Intrinsic::sadd_with_overflow) ? K_ADD : (k.iid == Intrinsic::usub_with_overflow || k.iid == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
            Expr* r = X.bin(op, a, b);
            Expr* ov;
            if (!sg && op == K_ADD) ov = X.cmp(K_ULT, r, a);
            else if (!sg && op == K_SUB) ov = X.cmp(K_ULT, a, b);
            else if (!sg && isC(b) && cv(b)) ov = X.cmp(K_ULT, X.cst(maskw128(w) / cv(b), w), a);
            else {
                unsigned W = 2 * w;
                if (W > 128) end(E_INCOMPLETE, "wide overflow intrinsic");
                Expr *x = sg ? X.sext(a, W) : X.zext(a, W), *y = sg ? X.sext(b, W) : X.zext(b, W);
                Expr* f = X.bin(op, x, y);
                ov = X.lnot(X.cmp(K_EQ, f, sg ? X.sext(r, W) : X.zext(r, W)));
            }
            setRes(s, k, fromE(r), 0);
            setRes(s, k, fromE(ov), 1);
            return 0;
        }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul:
        case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
            Expr* r = AE(0, 0);
            for (unsigned i = 1; i < k.argN[0]; ++i) {
                Expr* b = AE(0, (int)i);
                switch (k.iid) {
                    case Intrinsic::vector_reduce_or: r = X.bin(K_OR, r, b); break;
                    case Intrinsic::vector_reduce_and: r = X.bin(K_AND, r, b); break;
                    case Intrinsic::vector_reduce_xor: r = X.bin(K_XOR, r, b); break;
                    case Intrinsic::vector_reduce_add: r = X.bin(K_ADD, r, b); break;
                    case Intrinsic::vector_reduce_mul: r = X.bin(K_MUL, r, b); break;
                    case Intrinsic::vector_reduce_umax: r = X.ite(X.cmp(K_ULT, r, b), b, r); break;
                    case Intrinsic::vector_reduce_umin: r = X.ite(X.cmp(K_ULT, r, b), r, b); break;
                    case Intrinsic::vector_reduce_smax: r = X.ite(X.cmp(K_SLT, r, b), b, r); break;
                    default: r = X.ite(X.cmp(K_SLT, r, b), r, b);
                }
            }
            setRes(s, k, fromE(r));
            return 0;
        }
        case Intrinsic::ptrmask: setRes(s, k, fromE(X.bin(K_AND, AE(0), AE(1)))); return 0;
        case Intrinsic::fabs:
            for (unsigned i = 0; i < n; ++i) setRes(s, k, fromE(X.bin(K_AND, AE(0, (int)i), X.cst(maskw128(w - 1), w))), (int)i);
            return 0;
        case Intrinsic::copysign: {
            Expr *a = AE(0), *b = AE(1);
            setRes(s, k, fromE(X.concat(X.extract(b, w - 1, 1), X.extract(a, 0, w - 1))));
            return 0;
        }
        case Intrinsic::is_fpclass: {
            Expr* a = AE(0);
            unsigned m = (unsigned)A(1).c;
            if (w != 64 && w != 32) end(E_INCOMPLETE, "is.fpclass on x87");
            unsigned eb = w == 64 ? 11 : 8, mb = w - 1 - eb;
            Expr* sg = X.extract(a, w - 1, 1);
            Expr* ex = X.extract(a, mb, eb);
            Expr* fr = X.extract(a, 0, mb);
            Expr* emax = X.cmp(K_EQ, ex, X.cst(maskw(eb), eb));
            Expr* ezero = X.cmp(K_EQ, ex, X.cst(0, eb));
            Expr* fzero = X.cmp(K_EQ, fr, X.cst(0, mb));
            Expr* q = X.extract(fr, mb - 1, 1);
            Expr* r = X.fls();
            auto add = [&](unsigned bit, Expr* c) { if (m & (1u << bit)) r = X.lor(r, c); };
            Expr* nan = X.land(emax, X.lnot(fzero));
            add(0, X.land(nan, X.lnot(q)));
            add(1, X.land(nan, q));
            Expr* inf = X.land(emax, fzero);
            Expr* norm = X.land(X.lnot(emax), X.lnot(ezero));
            Expr* sub = X.land(ezero, X.lnot(fzero));
            Expr* zero = X.land(ezero, fzero);
            add(2, X.land(sg, inf)); add(3, X.land(sg, norm)); add(4, X.land(sg, sub)); add(5, X.land(sg, zero));
            Expr* ps = X.lnot(sg);
            add(6, X.land(ps, zero)); add(7, X.land(ps, sub)); add(8, X.land(ps, norm)); add(9, X.land(ps, inf));
            setRes(s, k, fromE(r));
            return 0;
        }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::sqrt: {
            Val a = A(0);
            if (a.e || w != 64) end(E_INCOMPLETE, "symbolic argument of a math function");
            double d = dbl(a);
            switch (k.iid) {
                case Intrinsic::floor: d = floor(d); break;
                case Intrinsic::ceil: d = ceil(d); break;
                case Intrinsic::trunc: d = trunc(d); break;
                case Intrinsic::round: d = round(d); break;
                case Intrinsic::sqrt: d = sqrt(d); break;
                default: d = rint(d);
            }
            setRes(s, k, und(d));
            return 0;
        }
        case Intrinsic::fmuladd: case Intrinsic::fma: {
            if (w == 80) end(E_INCOMPLETE, "x87 fma");
            setRes(s, k, fromE(X.fop(K_FADD, w, X.fop(K_FMUL, w, AE(0), AE(1)), AE(2))));
            return 0;
        }
        case Intrinsic::maxnum: case Intrinsic::minnum: {
            Val lt = fcmp(CmpInst::FCMP_OLT, A(0), A(1), w);
            Expr *a = AE(0), *b = AE(1);
            bool mx = k.iid == Intrinsic::maxnum;
            Expr* r = mx ? X.ite(toE(lt, 1), b, a) : X.ite(toE(lt, 1), a, b);
            if (w != 80) r = X.ite(X.fisnan(a), b, X.ite(X.fisnan(b), a, r));
            setRes(s, k, fromE(r));
            return 0;
        }
        case Intrinsic::pow: {
            Val a = A(0), b = A(1);
            if (a.e || b.e || w != 64) end(E_INCOMPLETE, "symbolic argument of a math function");
            setRes(s, k, und(pow(dbl(a), dbl(b))));
            return 0;
        }
        case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
            Expr* r = nullptr;
            for (unsigned i = 0; i < k.argN[0]; ++i) {
                Expr* b = X.extract(AE(0, (int)i), 7, 1);
                r = r ? X.concat(b, r) : b;
            }
            setRes(s, k, fromE(X.zext(r, 32)));
            return 0;
        }
        case Intrinsic::x86_sse2_pause: return doYield(*this, s, k);
        case Intrinsic::x86_sse2_lfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse_sfence:
            if (s.nspawn) fenceSync(s, 7);
            return 0;
        case Intrinsic::annotation: case Intrinsic::ptr_annotation: setRes(s, k, A(0)); return 0;
        default: break;
    }
    end(E_INCOMPLETE, "unsupported intrinsic " + k.name);
}

// ---------------------------------------------------------------- threads

// Returns 1 when control moved to another thread.
int Eng::schedPoint(State& s)
{
    Thread& t = s.th[s.cur];
    if (t.passed) return 0;
    bool others = false;
    for (uint32_t j = 0; j < s.th.size(); ++j)
        if (j != s.cur && s.th[j].status == 0) others = true;
    t.passed = true;
    if (!others) return 0;
    ++s.schedPoints;
    auto cp = cfgPreempt.find(s.cfg);
    if ((int)s.preempt < (cp == cfgPreempt.end() ? maxPreempt : cp->second)) {
        for (uint32_t j = 0; j < s.th.size(); ++j) {
            if (j == s.cur || s.th[j].status != 0 || s.th[j].yielded) continue;
            State* b = fork(s);
            b->preempt++;
            b->sched.push_back((uint8_t)j);
            b->cur = j;
            work.push_back(b);
        }
    }
    s.sched.push_back((uint8_t)s.cur);
    return 0;
}

// The current thread gives up the processor: every eligible other thread may continue.
bool Eng::switchAway(State& s, bool includeSelf)
{
    // wake joiners
    for (auto& t : s.th)
        if (t.status == 1 && s.th[t.joinOn].status == 2) t.status = 0;
    std::vector<uint32_t> el;
    for (int round = 0; round < 2 && el.empty(); ++round) {
        for (uint32_t j = 0; j < s.th.size(); ++j)
            if (s.th[j].status == 0 && !s.th[j].yielded && (j != s.cur || round)) el.push_back(j);
        if (el.empty())
            for (auto& t : s.th) t.yielded = false;
    }
    if (el.empty()) return false;
    // bounded unfairness: a thread that could run and was passed over several times in a row runs now
    std::vector<uint32_t> all = el, due;
    for (uint32_t j : el)
        if (s.th[j].skips >= 2) due.push_back(j);
    if (!due.empty()) el = due;
    for (uint32_t j : all) s.th[j].skips++;
    for (size_t i = 1; i < el.size(); ++i) {
        State* b = fork(s);
        b->th[el[i]].skips = 0;
        b->sched.push_back((uint8_t)el[i]);
        b->cur = el[i];
        work.push_back(b);
    }
    s.th[el[0]].skips = 0;
    s.sched.push_back((uint8_t)el[0]);
    s.cur = el[0];
    return true;
}

static VClock& syncOf(State& s, uint64_t a)
{
    for (auto& p : s.sync)
        if (p.first == a) return p.second;
    s.sync.push_back({ a, VClock() });
    return s.sync.back().second;
}

void Eng::atomicSync(State& s, uint64_t addr, unsigned order, bool isLoad, bool isStore)
{
    Thread& t = s.th[s.cur];
    VClock& c = syncOf(s, addr);
    bool acq = order == 4 || order >= 6, rel = order >= 5;
    if (isLoad) {
        if (acq) t.vc.join(c);
        else t.acqPend.join(c);
    }
    if (isStore) {
        VClock r = rel ? t.vc : t.relFence;
        if (isLoad) c.join(r);
        else c = r;
        t.vc.v[s.cur]++;
        for (uint32_t j = 0; j < s.th.size(); ++j)
            if (j != s.cur) s.th[j].yielded = false;
        if (!isLoad) s.yieldStreak = 0;
    }
}

void Eng::fenceSync(State& s, unsigned order)
{
    Thread& t = s.th[s.cur];
    bool acq = order == 4 || order >= 6, rel = order >= 5;
    if (acq) t.vc.join(t.acqPend);
    if (rel) { t.relFence = t.vc; t.vc.v[s.cur]++; }
}

void Eng::race(State& s, Obj* o, uint32_t id, uint32_t off, uint32_t n, bool write)
{
    if (o->kind == OK_CONST || o->kind == OK_TLS || o->kind == OK_EXC) return;
    o = s.mem.findW(id);
    if (!o->sh) {
        o->sh = (Shadow*)calloc(1, sizeof(Shadow) + sizeof(RaceCell) * (size_t)o->size);
        o->sh->rc = 1;
        o->sh->size = o->size;
    }
    else if (o->sh->rc > 1) {
        size_t b = sizeof(Shadow) + sizeof(RaceCell) * (size_t)o->sh->size;
        Shadow* c = (Shadow*)malloc(b);
        memcpy(c, o->sh, b);
        c->rc = 1;
        --o->sh->rc;
        o->sh = c;
    }
    Thread& t = s.th[s.cur];
    for (uint32_t i = off; i < off + n; ++i) {
        RaceCell& c = o->sh->c[i];
        if (c.wclk && c.wtid != s.cur && c.wclk > t.vc.v[c.wtid]) violation(s, "race", write ? "data race: unsynchronised writes" : "data race: read of a location another thread writes without synchronisation");
        if (write) {
            for (uint32_t j = 0; j < MAXT; ++j)
                if (j != s.cur && c.rclk[j] > t.vc.v[j]) violation(s, "race", "data race: write to a location another thread reads without synchronisation");
            c.wclk = t.vc.v[s.cur];
            c.wtid = (uint8_t)s.cur;
        }
        else c.rclk[s.cur] = t.vc.v[s.cur];
    }
}

int Eng::builtin(State& s, CallInfo& k, CI& ci) { return table[k.builtin](*this, s, k); }
