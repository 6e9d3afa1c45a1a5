// Driver: loading, path scheduling across processes, reporting.
#include "eng.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
using namespace llvm;

Eng G;

double nowS()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

void Eng::fatal(const std::string& s)
{
    fprintf(stderr, "engine fatal: %s\n", s.c_str());
    throw PathEnd{ E_INCOMPLETE, "engine: " + s, "" };
}

CFunc* Eng::getFunc(const Function* f)
{
    auto it = funcs.find(f);
    if (it != funcs.end()) return it->second;
    CFunc* c = new CFunc();
    c->F = const_cast<Function*>(f);
    c->name = f->getName().str();
    funcs[f] = c;
    allFuncs.push_back(c);
    return c;
}

static LLVMContext ctx;
static std::unique_ptr<Module> mod;

void Eng::load(const std::string& bc)
{
    SMDiagnostic err;
    mod = parseIRFile(bc, err, ctx);
    if (!mod) {
        err.print("sxe", errs());
        exit(3);
    }
    M = mod.get();
    DL = &M->getDataLayout();
}

State* Eng::initial()
{
    State* s = new State();
    s->th.emplace_back();
    s->th[0].vc.v[0] = 1;
    // addresses first
    for (auto& f : M->functions()) {
        if (f.isIntrinsic()) continue;
        uint32_t id = s->mem.nextHeap++;
        uint64_t p = s->mem.create(id, 16, 16, OK_FUNC, 0);
        if (f.hasExternalWeakLinkage() && f.isDeclaration()) p = 0;
        gaddr[&f] = p;
        if (p) {
            CFunc* c = getFunc(&f);
            c->addr = p;
            byAddr[p] = c;
            gByAddr[p] = &f;
        }
    }
    for (auto& g : M->globals()) {
        uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 16;
        if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
        if (g.hasExternalWeakLinkage() && g.isDeclaration()) { gaddr[&g] = 0; continue; }
        if (sz > (15u << 20)) { fprintf(stderr, "engine: global too large\n"); exit(3); }
        uint32_t id = s->mem.nextHeap++;
        uint64_t p = s->mem.create(id, (uint32_t)sz, g.getAlign() ? (uint32_t)g.getAlign()->value() : 16, OK_GLOBAL, 0);
        gaddr[&g] = p;
        gByAddr[p] = &g;
        if (g.isThreadLocal()) tlsByAddr[p] = &g;
    }
    for (auto& h : { "_ZTISt9exception", "_ZTISt11logic_error", "_ZTISt13runtime_error", "_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt16invalid_argument", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call", "_ZTISt8bad_cast" }) {
        uint32_t id = s->mem.nextHeap++;
        typeIds[h] = s->mem.create(id, 32, 16, OK_GLOBAL, 0);
    }
    for (auto& g : M->globals()) {
        if (!g.hasInitializer() || !gaddr[&g]) continue;
        Lanes l;
        std::vector<Val> v;
        uint32_t id = (uint32_t)(gaddr[&g] >> 24);
        if (!g.getInitializer()->isNullValue()) {
            flatten(g.getValueType(), l, 0);
            constLanes(g.getInitializer(), v);
            Obj* o = s->mem.wdata(id);
            for (size_t i = 0; i < l.size(); ++i) storeScalar(*s, o, l[i].off, l[i].bytes, l[i].w, v[i]);
        }
        if (g.isConstant()) s->mem.findW(id)->kind = OK_CONST;
    }
    s->mem.liveHeap = 0;
    // static initialisers
    std::vector<std::pair<uint64_t, const Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors", true))
        if (auto* a = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : a->operands()) {
                auto* cs = cast<ConstantStruct>(o);
                if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f });
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) {
        pushFrame(*s, getFunc(c.second), {});
        s->steps = 0;
        exec(*s);
    }
    s->steps = 0;
    return s;
}

void Eng::recordViolation(State& s, const std::string& what, const std::string& msg)
{
    Viol v;
    v.cfg = s.cfg;
    v.what = what;
    v.msg = msg;
    v.loc = loc(s);
    for (auto& i : s.inputs) v.inputs.push_back({ *i.name, i.e ? (uint64_t)evalM(s, i.e) : i.v });
    v.sched = s.sched;
    ++cstat[s.cfg].violations;
    std::string key = what + "|" + msg + "|" + v.loc.substr(0, 60);
    if (!seenViol.insert(key).second) return;
    viols.push_back(v);
    if (verbose) {
        fprintf(stderr, "VIOL cfg=%d %s: %s\n   at %s\n  ", v.cfg, what.c_str(), msg.c_str(), v.loc.c_str());
        for (auto& p : v.inputs) fprintf(stderr, " %s=%llu", p.first.c_str(), (unsigned long long)p.second);
        fprintf(stderr, "\n");
        if (!v.sched.empty()) {
            fprintf(stderr, "   sched ");
            for (auto c : v.sched) fprintf(stderr, "%d", c);
            fprintf(stderr, "\n");
        }
    }
    if (sh && __sync_add_and_fetch(&sh->violations, 1) >= maxViolations) sh->stop = 1;
}

void Eng::finishPath(State* s, const PathEnd& e)
{
    auto& c = cstat[s->cfg];
    c.steps += s->steps;
    c.maxSteps = std::max(c.maxSteps, s->steps);
    X.newEpoch();
    switch (e.kind) {
        case E_OK: {
            ++c.ok;
            reachAll |= s->reach;
            // keep a pseudo-random subset of completed paths for replay against the compiled code
            uint64_t h = sampleSeed * 0x9e3779b97f4a7c15ull + 12345;
            for (auto& i : s->inputs) { h ^= (i.e ? (uint64_t)evalM(*s, i.e) : i.v) + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
            h ^= h >> 31;
            auto& bucket = samples[s->cfg];
            if (!s->inputs.empty() && (bucket.size() < sampleMax || h < bucket.back().key)) {
                Sample sm;
                sm.cfg = s->cfg;
                sm.key = h;
                for (auto& i : s->inputs) sm.inputs.push_back({ *i.name, i.e ? (uint64_t)evalM(*s, i.e) : i.v });
                for (auto& o : s->obs) sm.obs.push_back(o.v.e ? (uint64_t)evalM(*s, o.v.e) : o.v.c);
                sm.sched = s->sched;
                bucket.push_back(sm);
                std::sort(bucket.begin(), bucket.end(), [](auto& a, auto& b) { return a.key < b.key; });
                if (bucket.size() > sampleMax) bucket.pop_back();
            }
            break;
        }
        case E_DISCARD: ++c.discarded; break;
        case E_INCOMPLETE:
            ++c.incomplete;
            ++incompleteWhy[e.what];
            if (verbose && incompleteWhy[e.what] < 3) fprintf(stderr, "incomplete: %s at %s\n", e.what.c_str(), loc(*s).c_str());
            break;
        case E_VIOLATION: recordViolation(*s, e.what, e.msg); break;
    }
}

static void jstr(FILE* f, const std::string& s)
{
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

void Eng::writePart()
{
    int n = sh ? __sync_fetch_and_add(&sh->nextPart, 1) : 0;
    std::string fn = outPrefix + ".part" + std::to_string(n) + ".json", tmp = fn + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"cfg\":{");
    bool first = true;
    for (auto& c : cstat) {
        fprintf(f, "%s\"%d\":{\"ok\":%llu,\"discarded\":%llu,\"incomplete\":%llu,\"violations\":%llu,\"steps\":%llu,\"maxsteps\":%llu}", first ? "" : ",", c.first, (unsigned long long)c.second.ok, (unsigned long long)c.second.discarded,
                (unsigned long long)c.second.incomplete, (unsigned long long)c.second.violations, (unsigned long long)c.second.steps, (unsigned long long)c.second.maxSteps);
        first = false;
    }
    auto& st = solver.st;
    fprintf(f, "},\"forks\":%llu,\"steps\":%llu,\"asserts\":%llu,\"asserts_sym\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"order_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.4f,\"solver_max_s\":%.4f,", (unsigned long long)forks,
            (unsigned long long)totalSteps, (unsigned long long)asserts, (unsigned long long)assertsSym, (unsigned long long)st.queries, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.orderHits, (unsigned long long)st.sat, (unsigned long long)st.unsat,
            (unsigned long long)st.unknown, st.time, st.maxTime);
    fprintf(f, "\"incomplete_why\":{");
    first = true;
    for (auto& p : incompleteWhy) { if (!first) fputc(',', f); first = false; jstr(f, p.first); fprintf(f, ":%llu", (unsigned long long)p.second); }
    fprintf(f, "},\"reach\":[");
    first = true;
    for (size_t i = 0; i < reachNames.size(); ++i)
        if (reachAll >> i & 1) { if (!first) fputc(',', f); first = false; jstr(f, reachNames[i]); }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : viols) {
        fprintf(f, "%s{\"cfg\":%d,\"what\":", first ? "" : ",", v.cfg);
        first = false;
        jstr(f, v.what); fprintf(f, ",\"msg\":"); jstr(f, v.msg); fprintf(f, ",\"loc\":"); jstr(f, v.loc); fprintf(f, ",\"inputs\":[");
        for (size_t i = 0; i < v.inputs.size(); ++i) { if (i) fputc(',', f); fputc('[', f); jstr(f, v.inputs[i].first); fprintf(f, ",%llu]", (unsigned long long)v.inputs[i].second); }
        fprintf(f, "],\"sched\":[");
        for (size_t i = 0; i < v.sched.size(); ++i) fprintf(f, "%s%d", i ? "," : "", v.sched[i]);
        fprintf(f, "]}");
    }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto& bk : samples)
    for (auto& v : bk.second) {
        fprintf(f, "%s{\"cfg\":%d,\"key\":%llu,\"inputs\":[", first ? "" : ",", v.cfg, (unsigned long long)v.key);
        first = false;
        for (size_t i = 0; i < v.inputs.size(); ++i) { if (i) fputc(',', f); fputc('[', f); jstr(f, v.inputs[i].first); fprintf(f, ",%llu]", (unsigned long long)v.inputs[i].second); }
        fprintf(f, "],\"obs\":[");
        for (size_t i = 0; i < v.obs.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v.obs[i]);
        fprintf(f, "],\"sched\":[");
        for (size_t i = 0; i < v.sched.size(); ++i) fprintf(f, "%s%d", i ? "," : "", v.sched[i]);
        fprintf(f, "]}");
    }
    // coverage: source lines of the library executed, functions encoded
    std::map<std::string, std::set<int>> lines;
    std::set<std::string> fns;
    for (auto* cf : allFuncs) {
        if (!cf->compiled) continue;
        for (auto& ci : cf->code) {
            if (!ci.hit || !ci.I) continue;
            const DILocation* d = ci.I->getDebugLoc().get();
            while (d) {
                if (d->getFilename().contains(srcFilter)) {
                    std::string file = d->getFilename().str();
                    size_t p = file.find("seq/");
                    if (p != std::string::npos) file = file.substr(p);
                    lines[file].insert((int)d->getLine());
                    if (auto* sp = d->getScope()->getSubprogram()) fns.insert(file + ":" + sp->getName().str());
                }
                d = d->getInlinedAt();
            }
        }
    }
    fprintf(f, "],\"functions\":[");
    first = true;
    for (auto& x : fns) { if (!first) fputc(',', f); first = false; jstr(f, x); }
    fprintf(f, "],\"lines\":{");
    first = true;
    for (auto& p : lines) {
        if (!first) fputc(',', f);
        first = false;
        jstr(f, p.first);
        fprintf(f, ":[");
        bool f2 = true;
        for (int l : p.second) { fprintf(f, "%s%d", f2 ? "" : ",", l); f2 = false; }
        fprintf(f, "]");
    }
    fprintf(f, "}}\n");
    fclose(f);
    rename(tmp.c_str(), fn.c_str());
}

static double lastSplit = 0;

void Eng::maybeSplit()
{
    if (!sh || maxWorkers < 2 || work.size() < 2) return;
    if (sh->live >= (int)maxWorkers) return;
    double t = nowS();
    if (t - lastSplit < 0.02) return;
    int v = __sync_add_and_fetch(&sh->live, 1);
    if (v > (int)maxWorkers) { __sync_sub_and_fetch(&sh->live, 1); return; }
    fflush(stdout);
    fflush(stderr);
    pid_t p = ::fork();
    if (p < 0) { __sync_sub_and_fetch(&sh->live, 1); return; }
    // interleaved halves: both get shallow (large) and deep (small) subtrees
    std::vector<State*> mine, other;
    for (size_t i = 0; i < work.size(); ++i) ((i & 1) ? mine : other).push_back(work[i]);
    if (p == 0) std::swap(mine, other);
    for (auto* s : other) delete s;
    work.swap(mine);
    lastSplit = nowS();
    __sync_add_and_fetch(&sh->splits, 1);
    if (p == 0) {
        cstat.clear();
        forks = totalSteps = asserts = assertsSym = 0;
        incompleteWhy.clear();
        viols.clear();
        samples.clear();
        solver.st = SolverStats();
    }
}

void Eng::mainLoop()
{
    while (!work.empty()) {
        if (sh && sh->stop) break;
        if (nowS() - startT > timeLimit) break;
        State* s = work.back();
        work.pop_back();
        run(s);
        maybeSplit();
    }
    for (auto* s : work) {
        ++cstat[s->cfg].incomplete;
        ++incompleteWhy[sh && sh->stop ? "stopped after violations" : "time limit"];
    }
    work.clear();
}

int selftest(unsigned long n, uint64_t seed);

int main(int argc, char** argv)
{
    std::string bc;
    std::vector<int> cfgs;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--cfg") {
            std::string c = nx();
            size_t p = 0;
            while (p < c.size()) {
                size_t q = c.find(',', p);
                if (q == std::string::npos) q = c.size();
                std::string t = c.substr(p, q - p);
                size_t d = t.find('-', 1);
                if (d != std::string::npos) for (int x = atoi(t.c_str()); x <= atoi(t.c_str() + d + 1); ++x) cfgs.push_back(x);
                else cfgs.push_back(atoi(t.c_str()));
                p = q + 1;
            }
        }
        else if (a == "--time") G.timeLimit = atof(nx().c_str());
        else if (a == "--steps") G.stepLimit = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--workers") G.maxWorkers = (unsigned)atoi(nx().c_str());
        else if (a == "--out") G.outPrefix = nx();
        else if (a == "--preempt") G.maxPreempt = atoi(nx().c_str());
        else if (a == "--cfgpreempt") { std::string v = nx(); G.cfgPreempt[atoi(v.c_str())] = atoi(v.c_str() + v.find('=') + 1); }
        else if (a == "--maxviol") G.maxViolations = atoi(nx().c_str());
        else if (a == "--seed") G.sampleSeed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--samples") G.sampleMax = (unsigned)atoi(nx().c_str());
        else if (a == "--forksel") G.forkSelect = true;
        else if (a == "--forkptr") G.forkPtr = true;
        else if (a == "--norace") G.raceCheck = false;
        else if (a == "--dump") { G.solver.dumpDir = nx(); G.solver.dumpEvery = 200; }
        else if (a == "--rlimit") G.solver.timeoutMs = (unsigned)strtoul(nx().c_str(), nullptr, 10);
        else if (a == "--selftest") return selftest(strtoul(nx().c_str(), nullptr, 10), G.sampleSeed);
        else if (a == "-v") G.verbose = true;
        else bc = a;
    }
    if (cfgs.empty()) cfgs.push_back(0);
    signal(SIGCHLD, SIG_IGN);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    G.startT = nowS();
    G.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)G.sh, 0, sizeof(Shared));
    G.sh->live = 1;
    pid_t root = getpid();
    try {
        G.load(bc);
        State* s0 = G.initial();
        Function* mf = G.M->getFunction("sx_main");
        if (!mf || mf->isDeclaration()) { fprintf(stderr, "engine: no sx_main\n"); return 3; }
        for (size_t i = cfgs.size(); i-- > 0;) {
            State* s = new State(*s0);
            s->cfg = cfgs[i];
            G.pushFrame(*s, G.getFunc(mf), { VC((uint64_t)(uint32_t)cfgs[i]) });
            G.cstat[cfgs[i]];
            G.work.push_back(s);
        }
        delete s0;
    }
    catch (PathEnd& e) {
        fprintf(stderr, "engine: start-up failed: %s %s\n", e.what.c_str(), e.msg.c_str());
        return 3;
    }
    G.mainLoop();
    G.writePart();
    __sync_sub_and_fetch(&G.sh->live, 1);
    if (getpid() != root) _exit(0);
    while (G.sh->live > 0) {
        usleep(2000);
        if (nowS() - G.startT > G.timeLimit + 60) break;
    }
    if (G.sh->live > 0) {
        // a worker died or is stuck: never reported as complete
        FILE* f = fopen((G.outPrefix + ".lost").c_str(), "w");
        if (f) { fprintf(f, "%d\n", G.sh->live); fclose(f); }
    }
    return 0;
}
