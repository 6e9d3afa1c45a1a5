// The symbolic execution core.
#include "eng.h"
#include <cmath>
#include <cfloat>
using namespace llvm;

#define RG(op, i) ((op) >= 0 ? R[(op) + (i)] : K[~(op) + (i)])

static inline Val vbin(Kind k, const Val& a, const Val& b, unsigned w)
{
    if (!a.e && !b.e && w <= 64) return VC((uint64_t)foldBin(k, a.c, b.c, w));
    return fromE(X.bin(k, toE(a, w), toE(b, w)));
}
static inline Val vcmp(Kind k, const Val& a, const Val& b, unsigned w)
{
    if (!a.e && !b.e && w <= 64) return VC(foldCmp(k, a.c, b.c, w));
    return fromE(X.cmp(k, toE(a, w), toE(b, w)));
}
static inline Val vnot(const Val& a) { return a.e ? fromE(X.lnot(a.e)) : VC(!a.c); }
static inline Val vand(const Val& a, const Val& b) { return vbin(K_AND, a, b, 1); }
static inline Val vor(const Val& a, const Val& b) { return vbin(K_OR, a, b, 1); }

// ---------------------------------------------------------------- path condition

u128 Eng::evalM(State& s, Expr* e) { return X.eval(e, s.model); }

Expr* Eng::simp(State& s, Expr* c)
{
    if (isC(c)) return c;
    bool neg = false;
    Expr* b = c;
    if (b->kind == K_NOT) { b = b->k[0]; neg = true; }
    if (const uint64_t* v = s.known.get(b)) return X.cst((*v & 1) ^ neg, 1);
    if (!neg && (b->kind == K_ULE || b->kind == K_SLE)) {
        // a<=b is the negation of b<a
        Expr* o = X.cmp(b->kind == K_ULE ? K_ULT : K_SLT, b->k[1], b->k[0]);
        if (isC(o)) return X.cst(!o->val, 1);
        if (const uint64_t* v = s.known.get(o)) return X.cst(!(*v & 1), 1);
    }
    return c;
}

void Eng::know(State& s, Expr* c, bool v)
{
    if (isC(c)) return;
    if (c->kind == K_NOT) { know(s, c->k[0], !v); return; }
    s.known.set(c, v);
    if (v && c->kind == K_AND) { know(s, c->k[0], true); know(s, c->k[1], true); }
    if (!v && c->kind == K_OR) { know(s, c->k[0], false); know(s, c->k[1], false); }
    if (v && c->kind == K_EQ && isC(c->k[1]) && c->k[0]->width <= 64) s.known.set(c->k[0], c->k[1]->val);
    if (c->kind == K_ULT || c->kind == K_ULE || c->kind == K_SLT || c->kind == K_SLE) {
        Kind o = c->kind == K_ULT ? K_ULE : c->kind == K_ULE ? K_ULT : c->kind == K_SLT ? K_SLE : K_SLT;
        Expr* d = X.cmp(o, c->k[1], c->k[0]);
        if (!isC(d)) s.known.set(d->kind == K_NOT ? d->k[0] : d, d->kind == K_NOT ? v : !v);
        if (v && (c->kind == K_ULT || c->kind == K_SLT)) {
            Expr* q = X.cmp(K_EQ, c->k[0], c->k[1]);
            if (!isC(q)) know(s, q, false);
        }
    }
}

void Eng::addC(State& s, Expr* c)
{
    if (isC(c)) return;
    if (c->kind == K_AND) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
    if (simp(s, c)->kind == K_CONST) return;
    s.pc.push_back(c);
    know(s, c, true);
}

State* Eng::fork(State& s)
{
    ++forks;
    State* b = new State(s);
    ++b->depth;
    ++s.depth;
    return b;
}

bool Eng::decide(State& s, Expr* c)
{
    c = simp(s, c);
    if (isC(c)) return c->val;
    bool v = (bool)evalM(s, c);
    Expr* other = v ? X.lnot(c) : c;
    Model m2;
    Sat r = solver.check(s.pc, other, s.model, &m2);
    if (r == S_UNSAT) {
        know(s, c, v);
        return v;
    }
    if (r == S_UNKNOWN) {
        ++incompleteWhy["solver gave no answer"];
        ++cstat[s.cfg].incomplete;
        addC(s, v ? c : X.lnot(c));
        return v;
    }
    State* b = fork(s);
    b->model = std::move(m2);
    addC(*b, other);
    work.push_back(b);
    addC(s, v ? c : X.lnot(c));
    return v;
}

bool Eng::mustBe(State& s, Expr* c)
{
    c = simp(s, c);
    if (isC(c)) return c->val;
    if (!evalM(s, c)) return false;
    Sat r = solver.check(s.pc, X.lnot(c), s.model, nullptr);
    if (r == S_UNSAT) { know(s, c, true); return true; }
    return false;
}

uint64_t Eng::conc(State& s, Val v, unsigned w)
{
    if (!v.e) return v.c;
    if (isC(v.e)) return v.e->val;
    if (const uint64_t* k = s.known.get(v.e)) return *k;
    uint64_t x = (uint64_t)evalM(s, v.e);
    Expr* eq = X.cmp(K_EQ, v.e, X.cst(x, v.e->width));
    Expr* es = simp(s, eq);
    if (isC(es)) return x;
    Model m2;
    Sat r = solver.check(s.pc, X.lnot(eq), s.model, &m2);
    if (r == S_UNSAT) {
        know(s, eq, true);
        s.known.set(v.e, x);
        return x;
    }
    if (r == S_SAT) {
        State* b = fork(s);
        b->model = std::move(m2);
        addC(*b, X.lnot(eq));
        work.push_back(b);
    }
    else {
        ++incompleteWhy["solver gave no answer"];
        ++cstat[s.cfg].incomplete;
    }
    addC(s, eq);
    s.known.set(v.e, x);
    return x;
}

CI* Eng::curInst(State& s)
{
    Thread& t = s.th[s.cur];
    if (t.fr.empty()) return nullptr;
    Frame& f = t.fr.back();
    if (f.pc >= f.f->code.size()) return nullptr;
    return &f.f->code[f.pc];
}

std::string Eng::loc(State& s)
{
    std::string r;
    Thread& t = s.th[s.cur];
    int n = 0;
    for (int i = (int)t.fr.size() - 1; i >= 0 && n < 14; --i) {
        Frame& f = t.fr[i];
        if (f.pc >= f.f->code.size()) continue;
        const DILocation* d = f.f->code[f.pc].I->getDebugLoc().get();
        if (!d) {
            r += (n++ ? " < " : "") + f.f->name;
            continue;
        }
        while (d && n < 14) {
            auto fn = d->getFilename();
            size_t p = fn.rfind('/');
            if (p != StringRef::npos) fn = fn.substr(p + 1);
            r += std::string(n++ ? " < " : "") + fn.str() + ":" + std::to_string(d->getLine());
            d = d->getInlinedAt();
        }
    }
    return r;
}

void Eng::violation(State& s, const std::string& what, const std::string& msg) { throw PathEnd{ E_VIOLATION, what, msg }; }

// ---------------------------------------------------------------- memory

Obj* Eng::access(State& s, uint64_t addr, uint64_t n, bool write, uint32_t& off, uint32_t& id)
{
    uint64_t idl = addr >> 24;
    if (idl == 0 || idl >= (1u << (REGION_BITS + 3))) violation(s, "memory", addr < 4096 ? "null pointer access" : "wild pointer access");
    id = (uint32_t)idl;
    Obj* o = s.mem.find(id);
    if (!o || o->st == OS_NONE) violation(s, "memory", "wild pointer access");
    if (o->st == OS_FREED) violation(s, "memory", o->kind == OK_STACK ? "use of a dead stack object" : "use after free");
    uint32_t a = (uint32_t)(addr & 0xffffff);
    if (a < o->base || (uint64_t)(a - o->base) + n > o->size) {
        char b[128];
        snprintf(b, sizeof b, "out of bounds %s of %llu byte(s) at offset %lld of a %u-byte object", write ? "write" : "read", (unsigned long long)n, (long long)a - (long long)o->base, o->size);
        violation(s, "memory", b);
    }
    off = a - o->base;
    if (o->kind == OK_FUNC) violation(s, "memory", "data access to code");
    if (write) {
        if (o->kind == OK_CONST) violation(s, "memory", "write to constant memory");
        o = s.mem.wdata(id);
    }
    if (raceCheck && s.nspawn && n) {
        race(s, o, id, off, (uint32_t)n, write);
        o = s.mem.find(id);
    }
    return o;
}

Val Eng::loadScalar(State& s, Obj* o, uint32_t off, unsigned bytes, unsigned w)
{
    Data* d = o->d;
    bool sym = false;
    if (d->ov)
        for (unsigned i = 0; i < bytes; ++i)
            if (d->ov[off + i]) { sym = true; break; }
    if (!sym) {
        if (bytes <= 8) {
            uint64_t v = 0;
            memcpy(&v, d->b + off, bytes);
            return VC(v & maskw(w));
        }
        u128 v = 0;
        memcpy(&v, d->b + off, bytes);
        return fromE(X.cst(v & maskw128(w), w));
    }
    Expr* r = nullptr;
    unsigned i = 0;
    while (i < bytes) {
        Expr* piece;
        uint64_t ov = d->ov[off + i];
        if (!ov) {
            unsigned j = i;
            u128 v = 0;
            while (j < bytes && j - i < 16 && !d->ov[off + j]) ++j;
            memcpy(&v, d->b + off + i, j - i);
            piece = X.cst(v, (j - i) * 8);
            i = j;
        }
        else {
            Expr* e = (Expr*)(uintptr_t)(ov >> 8);
            unsigned bi = (unsigned)(ov & 0xff), j = i + 1;
            while (j < bytes && d->ov[off + j] && (Expr*)(uintptr_t)(d->ov[off + j] >> 8) == e && (d->ov[off + j] & 0xff) == bi + (j - i)) ++j;
            piece = X.extract(e, bi * 8, (j - i) * 8);
            i = j;
        }
        r = r ? X.concat(piece, r) : piece;
    }
    if (r->width != w) r = X.extract(r, 0, w);
    return fromE(r);
}

void Eng::storeScalar(State& s, Obj* o, uint32_t off, unsigned bytes, unsigned w, Val v)
{
    Data* d = o->d;
    if (v.e && isC(v.e)) {
        u128 x = cv(v.e);
        memcpy(d->b + off, &x, bytes);
        if (d->ov) memset(d->ov + off, 0, 8 * bytes);
        return;
    }
    if (!v.e) {
        memcpy(d->b + off, &v.c, bytes);
        if (d->ov) memset(d->ov + off, 0, 8 * bytes);
        return;
    }
    Expr* e = v.e;
    if (e->width != bytes * 8) e = X.zext(e, bytes * 8);
    // constant pieces of a concat stay concrete bytes
    if (e->kind == K_CONCAT || e->kind == K_ZEXT) {
        if (!d->ov) d->ov = (uint64_t*)calloc(d->size ? d->size : 1, 8);
        for (unsigned i = 0; i < bytes; ++i) {
            Expr* b = X.extract(e, i * 8, 8);
            if (isC(b)) { d->b[off + i] = (uint8_t)b->val; d->ov[off + i] = 0; }
            else d->ov[off + i] = ((uint64_t)(uintptr_t)e << 8) | i;
        }
        return;
    }
    setSym(d, off, e, bytes);
}

static unsigned tzE(Expr* e)
{
    switch (e->kind) {
        case K_CONST: return e->val ? (unsigned)__builtin_ctzll(e->val) : 64;
        case K_CONCAT: if (isC(e->k[1]) && cv(e->k[1]) == 0) return e->k[1]->width + tzE(e->k[0]); return tzE(e->k[1]) >= e->k[1]->width ? e->k[1]->width : tzE(e->k[1]);
        case K_ZEXT: case K_SEXT: return tzE(e->k[0]);
        case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(tzE(e->k[0]), tzE(e->k[1]));
        case K_MUL: return std::min(64u, tzE(e->k[0]) + tzE(e->k[1]));
        case K_ITE: return std::min(tzE(e->k[1]), tzE(e->k[2]));
        default: return 0;
    }
}

// Resolves a pointer. Returns true with a concrete address in `out`; false when the access is a load that is to be made through
// a symbolic offset (symOff, symId) of one object, already proved in bounds.
bool Eng::resolve(State& s, Val a, uint64_t n, bool write, uint64_t& out, Expr** symOff, uint32_t* symId)
{
    if (!a.e) { out = a.c; return true; }
    Expr* e = a.e;
    if (const uint64_t* k = s.known.get(e)) { out = *k; return true; }
    uint64_t v = (uint64_t)evalM(s, e);
    uint64_t id = v >> 24;
    Obj* o = (id && id < (1u << (REGION_BITS + 3))) ? s.mem.find((uint32_t)id) : nullptr;
    uint32_t off = 0;
    bool bad = !o || o->st != OS_LIVE;
    if (!bad) {
        uint64_t x = v & 0xffffff;
        if (x < o->base || x - o->base + n > o->size) bad = true;
        off = (uint32_t)(x - o->base);
    }
    (void)off;
    if (bad) {
        addC(s, X.cmp(K_EQ, e, X.cst(v, 64)));
        out = v; // access() reports it
        return true;
    }
    uint64_t base = (id << 24) + o->base;
    Expr* rel = X.bin(K_SUB, e, X.cst(base, 64));
    Expr* in = X.cmp(K_ULE, rel, X.cst(o->size - n, 64));
    if (!decide(s, in)) { // cannot happen under the current model
        out = v;
        return true;
    }
    if (!symOff || o->size > 8192) { out = conc(s, a, 64); return true; }
    unsigned tz = tzE(rel);
    uint64_t step = tz >= 20 ? (1u << 20) : (1u << tz);
    uint64_t lo = rel->umin, hi = std::min<uint64_t>(rel->umax, o->size - n);
    lo = (lo + step - 1) / step * step;
    if (hi < lo || (hi - lo) / step > 1024) { out = conc(s, a, 64); return true; }
    *symOff = rel;
    *symId = (uint32_t)id;
    return false;
}

Val Eng::symLoad(State& s, uint32_t id, Expr* rel, unsigned bytes, unsigned w)
{
    Obj* o = s.mem.find(id);
    unsigned tz = tzE(rel);
    uint64_t step = tz >= 20 ? (1u << 20) : (1u << tz);
    uint64_t lo = (rel->umin + step - 1) / step * step, hi = std::min<uint64_t>(rel->umax, o->size - bytes);
    uint64_t cnt = (hi - lo) / step + 1;
    std::vector<Expr*> leaf(cnt);
    for (uint64_t i = 0; i < cnt; ++i) leaf[i] = toE(loadScalar(s, o, (uint32_t)(lo + i * step), bytes, w), w);
    struct Rec {
        std::vector<Expr*>& leaf; Expr* rel; uint64_t lo, step;
        Expr* go(size_t a, size_t b)
        {
            if (a == b) return leaf[a];
            bool same = true;
            for (size_t i = a + 1; i <= b && same; ++i) same = leaf[i] == leaf[a];
            if (same) return leaf[a];
            size_t m = (a + b + 1) / 2;
            return X.ite(X.cmp(K_ULT, rel, X.cst(lo + m * step, 64)), go(a, m - 1), go(m, b));
        }
    } rec{ leaf, rel, lo, step };
    Val r = fromE(rec.go(0, cnt - 1));
    if (forkPtr && w == 64 && r.e) {
        bool k = true;
        for (auto* l : leaf) if (!isC(l)) { k = false; break; }
        if (k) return VC(conc(s, r, 64));
    }
    return r;
}

uint64_t Eng::heapAlloc(State& s, uint64_t size, uint64_t align, uint8_t kind)
{
    uint32_t id = s.mem.nextHeap++;
    if (id >= (1u << REGION_BITS)) end(E_INCOMPLETE, "too many heap objects");
    s.mem.liveHeap++;
    return s.mem.create(id, (uint32_t)size, align < 16 ? 16 : (uint32_t)align, kind, 0xA5);
}

void Eng::heapFree(State& s, uint64_t p, int kind, int64_t size, int64_t align)
{
    if (!p) return;
    uint32_t id = (uint32_t)(p >> 24);
    Obj* o = id < (1u << (REGION_BITS + 3)) ? s.mem.find(id) : nullptr;
    if (!o || o->st == OS_NONE) violation(s, "memory", "deallocation of a wild pointer");
    if (o->st == OS_FREED) violation(s, "memory", "double free");
    if (o->kind < OK_MALLOC || o->kind > OK_MEMALIGN) violation(s, "memory", "deallocation of a non-heap object");
    if ((p & 0xffffff) != o->base) violation(s, "memory", "deallocation of an interior pointer");
    bool ok = kind == OK_MALLOC ? (o->kind == OK_MALLOC || o->kind == OK_MEMALIGN) : o->kind == kind;
    if (!ok) violation(s, "memory", "mismatched allocation and deallocation functions");
    if (size >= 0 && (uint64_t)size != o->size) violation(s, "memory", "sized deallocation with a size different from the allocated one");
    if (align >= 0 && (uint64_t)align != o->align) violation(s, "memory", "aligned deallocation with a different alignment");
    o = s.mem.findW(id);
    if (raceCheck && s.nspawn && o->size) { race(s, o, id, 0, o->size, true); o = s.mem.findW(id); }
    o->st = OS_FREED;
    decData(o->d);
    decShadow(o->sh);
    o->d = nullptr;
    o->sh = nullptr;
    s.mem.liveHeap--;
}

std::string Eng::cstr(State& s, uint64_t p)
{
    std::string r;
    for (;; ++p) {
        uint32_t off, id;
        Obj* o = access(s, p, 1, false, off, id);
        char c = (char)o->d->b[off];
        if (!c) return r;
        r += c;
        if (r.size() > 300) return r;
    }
}

void Eng::copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n)
{
    if (!n) return;
    uint32_t so, si, to, ti;
    Obj* a = access(s, src, n, false, so, si);
    static std::vector<uint8_t> tmp;
    static std::vector<uint64_t> tov;
    tmp.resize(n);
    memcpy(tmp.data(), a->d->b + so, n);
    bool sym = false;
    if (a->d->ov) {
        tov.assign(a->d->ov + so, a->d->ov + so + n);
        for (auto x : tov)
            if (x) { sym = true; break; }
    }
    Obj* b = access(s, dst, n, true, to, ti);
    memcpy(b->d->b + to, tmp.data(), n);
    if (sym) {
        if (!b->d->ov) b->d->ov = (uint64_t*)calloc(b->d->size ? b->d->size : 1, 8);
        memcpy(b->d->ov + to, tov.data(), 8 * n);
    }
    else if (b->d->ov) memset(b->d->ov + to, 0, 8 * n);
}

void Eng::setMem(State& s, uint64_t dst, Val v, uint64_t n)
{
    if (!n) return;
    uint32_t to, ti;
    Obj* b = access(s, dst, n, true, to, ti);
    if (!v.e) {
        memset(b->d->b + to, (int)v.c, n);
        if (b->d->ov) memset(b->d->ov + to, 0, 8 * n);
    }
    else
        for (uint64_t i = 0; i < n; ++i) setSym(b->d, to + (uint32_t)i, v.e, 1);
}

// ---------------------------------------------------------------- frames

void Eng::pushFrame(State& s, CFunc* f, const std::vector<Val>& args)
{
    if (!f->compiled) compileFunc(f);
    ++f->callsMade;
    Thread& t = s.th[s.cur];
    if (t.fr.size() > 400) violation(s, "hang", "recursion deeper than 400 frames");
    Frame fr;
    fr.f = f;
    fr.pc = 0;
    fr.base = (uint32_t)t.stk.size();
    fr.sp = t.sp;
    fr.freeExc = 0;
    t.stk.resize(fr.base + f->nregs);
    for (size_t i = 0; i < args.size() && i < (size_t)f->nregs; ++i) t.stk[fr.base + i] = args[i];
    t.fr.push_back(fr);
}

void Eng::popFrame(State& s)
{
    Thread& t = s.th[s.cur];
    Frame fr = t.fr.back();
    for (uint32_t i = fr.sp; i < t.sp; ++i) {
        Obj* o = s.mem.findW(((STACK_REGION + s.cur) << REGION_BITS) + i);
        o->st = OS_FREED;
        decData(o->d);
        decShadow(o->sh);
        o->d = nullptr;
        o->sh = nullptr;
    }
    t.sp = fr.sp;
    t.stk.resize(fr.base);
    t.fr.pop_back();
    if (fr.freeExc) {
        Obj* o = s.mem.findW((uint32_t)(fr.freeExc >> 24));
        o->st = OS_FREED;
    }
}

void Eng::takeEdge(State& s, Frame& f, const Edge& e)
{
    Thread& t = s.th[s.cur];
    Val* R = t.stk.data() + f.base;
    const Val* K = f.f->consts.data();
    size_t n = e.copies.size();
    if (n == 1) R[e.copies[0].first] = RG(e.copies[0].second, 0);
    else if (n) {
        Val tmp[64];
        std::vector<Val> big;
        Val* tp = tmp;
        if (n > 64) { big.resize(n); tp = big.data(); }
        for (size_t i = 0; i < n; ++i) tp[i] = RG(e.copies[i].second, 0);
        for (size_t i = 0; i < n; ++i) R[e.copies[i].first] = tp[i];
    }
    f.pc = (uint32_t)e.pc;
}

// true: execution continues in this thread; false: the thread ended
bool Eng::doReturn(State& s, const Val* rv, unsigned n)
{
    Val buf[64];
    std::vector<Val> big;
    Val* tp = buf;
    if (n > 64) { big.resize(n); tp = big.data(); }
    for (unsigned i = 0; i < n; ++i) tp[i] = rv[i];
    popFrame(s);
    Thread& t = s.th[s.cur];
    if (t.fr.empty()) {
        if (!t.todo.empty()) {
            auto p = t.todo.front();
            t.todo.erase(t.todo.begin());
            pushFrame(s, p.first, p.second);
            return true;
        }
        return false;
    }
    Frame& f = t.fr.back();
    CI& ci = f.f->code[f.pc];
    CallInfo& k = f.f->calls[ci.x];
    if (k.dst >= 0 && n)
        for (unsigned i = 0; i < k.dstN && i < n; ++i) t.stk[f.base + k.dst + i] = tp[i];
    if (k.normalEdge >= 0) takeEdge(s, f, f.f->edges[k.normalEdge]);
    else ++f.pc;
    return true;
}

bool Eng::unwind(State& s)
{
    for (;;) {
        Thread& t = s.th[s.cur];
        if (t.fr.empty()) {
            std::string ty = "?";
            for (auto& x : s.excs)
                if (x.addr == t.curExc) ty = typeName(s, x.type);
            violation(s, "exception", "uncaught exception of type " + ty);
        }
        Frame& f = t.fr.back();
        CI& ci = f.f->code[f.pc];
        if (ci.op == I_CALL) {
            CallInfo& k = f.f->calls[ci.x];
            if (k.unwindEdge >= 0) {
                takeEdge(s, f, f.f->edges[k.unwindEdge]);
                return true;
            }
        }
        popFrame(s);
    }
}

static const char* stdHier[][2] = {
    { "_ZTISt9exception", "" }, { "_ZTISt11logic_error", "_ZTISt9exception" }, { "_ZTISt13runtime_error", "_ZTISt9exception" },
    { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" },
    { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" }, { "_ZTISt14overflow_error", "_ZTISt13runtime_error" },
    { "_ZTISt15underflow_error", "_ZTISt13runtime_error" }, { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" },
    { "_ZTISt8bad_cast", "_ZTISt9exception" }, { "_ZTISt10bad_typeid", "_ZTISt9exception" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" },
};

std::string Eng::typeName(State& s, uint64_t ti)
{
    auto it = gByAddr.find(ti);
    if (it != gByAddr.end()) return it->second->getName().str();
    for (auto& p : typeIds)
        if (p.second == ti) return p.first;
    return "?";
}

bool Eng::typeMatches(State& s, uint64_t thrown, uint64_t caught)
{
    if (caught == 0 || thrown == caught) return true;
    std::string a = typeName(s, thrown), b = typeName(s, caught);
    for (int depth = 0; depth < 10; ++depth) {
        if (a == b) return true;
        bool found = false;
        for (auto& h : stdHier)
            if (a == h[0]) { a = h[1]; found = true; break; }
        if (found) {
            if (a.empty()) return false;
            continue;
        }
        GlobalVariable* g = M->getGlobalVariable(a, true);
        if (!g || !g->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!cs || cs->getNumOperands() < 3) return false;
        auto* base = dyn_cast<GlobalVariable>(cs->getOperand(cs->getNumOperands() == 3 ? 2 : 4)->stripPointerCasts());
        if (!base) return false;
        a = base->getName().str();
    }
    return false;
}

uint64_t Eng::typeId(State& s, uint64_t ti)
{
    static std::map<std::string, uint64_t> ids;
    std::string n = typeName(s, ti);
    auto it = ids.find(n);
    if (it != ids.end()) return it->second;
    uint64_t k = ids.size() + 1;
    ids[n] = k;
    return k;
}

void Eng::throwExc(State& s, uint64_t obj)
{
    s.th[s.cur].curExc = obj;
    s.th[s.cur].uncaught++;
}

void Eng::throwStd(State& s, const char* tiName)
{
    uint32_t id = s.mem.nextHeap++;
    uint64_t p = s.mem.create(id, 64, 16, OK_EXC, 0);
    uint64_t ti = 0;
    if (auto* g = M->getGlobalVariable(tiName, true)) ti = globalAddr(g);
    else ti = typeIds[tiName];
    s.excs.push_back(Exc{ p, ti, 0, 0, false });
    throwExc(s, p);
}

// ---------------------------------------------------------------- floating point

static long double asFp(const Val& v, unsigned w)
{
    if (w == 64) { double d; memcpy(&d, &v.c, 8); return d; }
    if (w == 32) { float f; uint32_t x = (uint32_t)v.c; memcpy(&f, &x, 4); return f; }
    long double l = 0;
    u128 x = v.e ? cv(v.e) : (u128)v.c;
    memcpy(&l, &x, 10);
    return l;
}

Val Eng::fcmp(unsigned p, Val a, Val b, unsigned w)
{
    bool cc = (!a.e || isC(a.e)) && (!b.e || isC(b.e));
    Val lt, le, eq, nan;
    if (cc) {
        long double x = asFp(a, w), y = asFp(b, w);
        bool un = x != x || y != y;
        bool r = false;
        switch (p) {
            case CmpInst::FCMP_FALSE: r = false; break;
            case CmpInst::FCMP_OEQ: r = !un && x == y; break;
            case CmpInst::FCMP_OGT: r = !un && x > y; break;
            case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break;
            case CmpInst::FCMP_OLE: r = !un && x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UNE: r = un || x != y; break;
            default: r = true;
        }
        return VC(r);
    }
    Expr *A = toE(a, w), *B = toE(b, w);
    if (w == 80) {
        // x87 operands: supported when both come from exact conversions
        return fromE(X.fcmp80(p, A, B));
    }
    auto un = [&]() { return X.lor(X.fisnan(A), X.fisnan(B)); };
    Expr* r = nullptr;
    switch (p) {
        case CmpInst::FCMP_FALSE: r = X.fls(); break;
        case CmpInst::FCMP_OEQ: r = X.fcmp_eq(A, B); break;
        case CmpInst::FCMP_OGT: r = X.fcmp_lt(B, A, false); break;
        case CmpInst::FCMP_OGE: r = X.fcmp_lt(B, A, true); break;
        case CmpInst::FCMP_OLT: r = X.fcmp_lt(A, B, false); break;
        case CmpInst::FCMP_OLE: r = X.fcmp_lt(A, B, true); break;
        case CmpInst::FCMP_ONE: r = X.land(X.lnot(un()), X.lnot(X.fcmp_eq(A, B))); break;
        case CmpInst::FCMP_ORD: r = X.lnot(un()); break;
        case CmpInst::FCMP_UNO: r = un(); break;
        case CmpInst::FCMP_UEQ: r = X.lor(un(), X.fcmp_eq(A, B)); break;
        case CmpInst::FCMP_UGT: r = X.lnot(X.fcmp_lt(A, B, true)); break;
        case CmpInst::FCMP_UGE: r = X.lnot(X.fcmp_lt(A, B, false)); break;
        case CmpInst::FCMP_ULT: r = X.lnot(X.fcmp_lt(B, A, true)); break;
        case CmpInst::FCMP_ULE: r = X.lnot(X.fcmp_lt(B, A, false)); break;
        case CmpInst::FCMP_UNE: r = X.lnot(X.fcmp_eq(A, B)); break;
        default: r = X.tru();
    }
    return fromE(r);
}

// ---------------------------------------------------------------- main loop

Val Eng::arg(State& s, CallInfo& k, int i, int lane)
{
    Thread& t = s.th[s.cur];
    Frame& f = t.fr.back();
    Val* R = t.stk.data() + f.base;
    const Val* K = f.f->consts.data();
    return RG(k.argOp[i], lane);
}

void Eng::setRes(State& s, CallInfo& k, Val v, int lane)
{
    if (k.dst < 0) return;
    Thread& t = s.th[s.cur];
    t.stk[t.fr.back().base + k.dst + lane] = v;
}

void Eng::run(State* sp)
{
    X.newEpoch();
    uint64_t st0 = sp->steps;
    PathEnd pe{ E_OK, "", "" };
    try {
        exec(*sp);
    }
    catch (PathEnd& e) {
        pe = e;
    }
    totalSteps += sp->steps - st0;
    finishPath(sp, pe);
    delete sp;
}

void Eng::exec(State& s)
{
    std::vector<Val> args;
reenter:
    Thread* T = &s.th[s.cur];
    Frame* F = &T->fr.back();
    CFunc* cf = F->f;
    CI* code = cf->code.data();
    Val* R = T->stk.data() + F->base;
    const Val* K = cf->consts.data();
    uint32_t pc = F->pc;
    for (;;) {
        CI& ci = code[pc];
        F->pc = pc;
        ci.hit++;
        if (((++s.steps) & 0x3fff) == 0) {
            if (s.steps > stepLimit) violation(s, "hang", "step limit exceeded on one path");
            if (nowS() - startT > timeLimit) end(E_INCOMPLETE, "time limit");
            if (sh && sh->stop) end(E_INCOMPLETE, "stopped");
        }
        switch (ci.op) {
            case I_ADD: {
                const Val &a = RG(ci.a, 0), &b = RG(ci.b, 0);
                if (!a.e && !b.e) R[ci.dst] = VC((a.c + b.c) & maskw(ci.w));
                else R[ci.dst] = fromE(X.bin(K_ADD, toE(a, ci.w), toE(b, ci.w)));
                ++pc;
                break;
            }
            case I_SUB: {
                const Val &a = RG(ci.a, 0), &b = RG(ci.b, 0);
                if (!a.e && !b.e) R[ci.dst] = VC((a.c - b.c) & maskw(ci.w));
                else R[ci.dst] = fromE(X.bin(K_SUB, toE(a, ci.w), toE(b, ci.w)));
                ++pc;
                break;
            }
            case I_AND: {
                const Val &a = RG(ci.a, 0), &b = RG(ci.b, 0);
                if (!a.e && !b.e) R[ci.dst] = VC(a.c & b.c);
                else R[ci.dst] = fromE(X.bin(K_AND, toE(a, ci.w), toE(b, ci.w)));
                ++pc;
                break;
            }
            case I_OR: {
                const Val &a = RG(ci.a, 0), &b = RG(ci.b, 0);
                if (!a.e && !b.e) R[ci.dst] = VC(a.c | b.c);
                else R[ci.dst] = fromE(X.bin(K_OR, toE(a, ci.w), toE(b, ci.w)));
                ++pc;
                break;
            }
            case I_XOR: {
                const Val &a = RG(ci.a, 0), &b = RG(ci.b, 0);
                if (!a.e && !b.e) R[ci.dst] = VC(a.c ^ b.c);
                else R[ci.dst] = fromE(X.bin(K_XOR, toE(a, ci.w), toE(b, ci.w)));
                ++pc;
                break;
            }
            case I_BIN: {
                for (unsigned i = 0; i < ci.n; ++i) {
                    const Val a = RG(ci.a, i), b = RG(ci.b, i);
                    if (ci.sub >= K_UDIV && ci.sub <= K_SREM) {
                        Val z = vcmp(K_EQ, b, ci.w <= 64 ? VC(0) : Val{ 0, X.cst(0, ci.w) }, ci.w);
                        if (decide(s, z)) violation(s, "arithmetic", "integer division by zero");
                    }
                    R[ci.dst + i] = vbin((Kind)ci.sub, a, b, ci.w);
                }
                ++pc;
                break;
            }
            case I_ICMP: {
                if (ci.n == 1) {
                    const Val &a = RG(ci.a, 0), &b = RG(ci.b, 0);
                    if (!a.e && !b.e && ci.w <= 64) {
                        bool r;
                        switch (ci.sub) {
                            case K_EQ: r = a.c == b.c; break;
                            case K_ULT: r = a.c < b.c; break;
                            case K_ULE: r = a.c <= b.c; break;
                            case K_SLT: r = sextw(a.c, ci.w) < sextw(b.c, ci.w); break;
                            default: r = sextw(a.c, ci.w) <= sextw(b.c, ci.w);
                        }
                        R[ci.dst] = VC(r ^ (bool)ci.flag);
                        ++pc;
                        break;
                    }
                }
                for (unsigned i = 0; i < ci.n; ++i) {
                    Val r = vcmp((Kind)ci.sub, RG(ci.a, i), RG(ci.b, i), ci.w);
                    R[ci.dst + i] = ci.flag ? vnot(r) : r;
                }
                ++pc;
                break;
            }
            case I_FCMP:
                for (unsigned i = 0; i < ci.n; ++i) R[ci.dst + i] = fcmp(ci.sub, RG(ci.a, i), RG(ci.b, i), ci.w);
                ++pc;
                break;
            case I_FBIN:
                for (unsigned i = 0; i < ci.n; ++i) {
                    const Val a = RG(ci.a, i), b = RG(ci.b, i);
                    if (ci.w == 80 && !(isC(toE(a, 80)) && isC(toE(b, 80)))) end(E_INCOMPLETE, "symbolic x87 arithmetic");
                    R[ci.dst + i] = fromE(X.fop((Kind)ci.sub, ci.w, toE(a, ci.w), toE(b, ci.w)));
                }
                ++pc;
                break;
            case I_FNEG:
                for (unsigned i = 0; i < ci.n; ++i) R[ci.dst + i] = fromE(X.bin(K_XOR, toE(RG(ci.a, i), ci.w), X.cst((u128)1 << (ci.w - 1), ci.w)));
                ++pc;
                break;
            case I_FCAST:
                for (unsigned i = 0; i < ci.n; ++i) R[ci.dst + i] = fromE(X.fop((Kind)ci.sub, ci.w, toE(RG(ci.a, i), ci.flag)));
                ++pc;
                break;
            case I_SELECT: {
                Val c = RG(ci.c, 0);
                if (!ci.flag) {
                    if (c.e) {
                        Expr* ce = simp(s, c.e);
                        if (isC(ce)) c = VC(ce->val);
                    }
                    if (!c.e || ci.sub || forkSelect) {
                        bool b = c.e ? decide(s, c.e) : (c.c & 1);
                        for (unsigned i = 0; i < ci.n; ++i) { Val t = b ? RG(ci.a, i) : RG(ci.b, i); R[ci.dst + i] = t; }
                    }
                    else {
                        const Lanes& l = cf->lanes[ci.x];
                        for (unsigned i = 0; i < ci.n; ++i) R[ci.dst + i] = fromE(X.ite(c.e, toE(RG(ci.a, i), l[i].w), toE(RG(ci.b, i), l[i].w)));
                    }
                }
                else {
                    for (unsigned i = 0; i < ci.n; ++i) {
                        Val cc = RG(ci.c, i);
                        if (!cc.e) { Val t = (cc.c & 1) ? RG(ci.a, i) : RG(ci.b, i); R[ci.dst + i] = t; }
                        else R[ci.dst + i] = fromE(X.ite(cc.e, toE(RG(ci.a, i), ci.w), toE(RG(ci.b, i), ci.w)));
                    }
                }
                ++pc;
                break;
            }
            case I_TRUNC:
                for (unsigned i = 0; i < ci.n; ++i) {
                    const Val a = RG(ci.a, i);
                    if (!a.e) R[ci.dst + i] = VC(a.c & maskw(ci.w));
                    else R[ci.dst + i] = fromE(X.extract(a.e, 0, ci.w));
                }
                ++pc;
                break;
            case I_ZEXT:
                for (unsigned i = 0; i < ci.n; ++i) {
                    const Val a = RG(ci.a, i);
                    if (!a.e && ci.w <= 64) R[ci.dst + i] = a;
                    else if (forkSelect && ci.flag == 1 && ci.w >= 32) R[ci.dst + i] = VC(decide(s, a.e));
                    else R[ci.dst + i] = fromE(X.zext(toE(a, ci.flag), ci.w));
                }
                ++pc;
                break;
            case I_SEXT:
                for (unsigned i = 0; i < ci.n; ++i) {
                    const Val a = RG(ci.a, i);
                    if (!a.e && ci.w <= 64) R[ci.dst + i] = VC((uint64_t)sextw(a.c, ci.flag) & maskw(ci.w));
                    else R[ci.dst + i] = fromE(X.sext(toE(a, ci.flag), ci.w));
                }
                ++pc;
                break;
            case I_MOV:
                for (unsigned i = 0; i < ci.n; ++i) { Val t = RG(ci.a, i); R[ci.dst + i] = t; }
                ++pc;
                break;
            case I_BITCAST: {
                unsigned sw = ci.flag, sn = (unsigned)ci.x, dw = ci.w, dn = ci.n;
                std::vector<Expr*> src(sn);
                for (unsigned i = 0; i < sn; ++i) src[i] = toE(RG(ci.a, i), sw);
                if (dw >= sw && dw % sw == 0) {
                    unsigned r = dw / sw;
                    for (unsigned i = 0; i < dn; ++i) {
                        Expr* e = src[i * r];
                        for (unsigned j = 1; j < r; ++j) e = X.concat(src[i * r + j], e);
                        R[ci.dst + i] = fromE(e);
                    }
                }
                else {
                    unsigned r = sw / dw;
                    for (unsigned i = 0; i < dn; ++i) R[ci.dst + i] = fromE(X.extract(src[i / r], (i % r) * dw, dw));
                }
                ++pc;
                break;
            }
            case I_LOAD: {
                const Val a = RG(ci.a, 0);
                if (ci.flag) {
                    if (s.th.size() > 1 && schedPoint(s)) goto reenter;
                }
                const Lanes& l = cf->lanes[ci.x];
                uint64_t addr;
                Expr* so = nullptr;
                uint32_t sid = 0, off, id;
                if (!a.e) addr = a.c;
                else if (!resolve(s, a, ci.imm, false, addr, ci.n == 1 && !ci.flag && !s.nspawn ? &so : nullptr, &sid)) {
                    R[ci.dst] = symLoad(s, sid, so, l[0].bytes, l[0].w);
                    ++pc;
                    break;
                }
                if (ci.flag && s.nspawn) atomicSync(s, addr, ci.flag, true, false);
                bool sv = s.nspawn;
                if (ci.flag) s.nspawn = 0;
                Obj* o = access(s, addr, ci.imm, false, off, id);
                s.nspawn = sv;
                if (ci.n == 1) R[ci.dst] = loadScalar(s, o, off, l[0].bytes, l[0].w);
                else
                    for (unsigned i = 0; i < ci.n; ++i) R[ci.dst + i] = loadScalar(s, o, off + l[i].off, l[i].bytes, l[i].w);
                T->passed = false;
                ++pc;
                break;
            }
            case I_STORE: {
                const Val a = RG(ci.a, 0);
                if (ci.flag) {
                    if (s.th.size() > 1 && schedPoint(s)) goto reenter;
                }
                uint64_t addr;
                uint32_t off, id;
                if (!a.e) addr = a.c;
                else resolve(s, a, ci.imm, true, addr, nullptr, nullptr);
                if (ci.flag && s.nspawn) atomicSync(s, addr, ci.flag, false, true);
                bool sv = s.nspawn;
                if (ci.flag) s.nspawn = 0;
                Obj* o = access(s, addr, ci.imm, true, off, id);
                s.nspawn = sv;
                const Lanes& l = cf->lanes[ci.x];
                for (unsigned i = 0; i < ci.n; ++i) storeScalar(s, o, off + l[i].off, l[i].bytes, l[i].w, RG(ci.b, i));
                T->passed = false;
                ++pc;
                break;
            }
            case I_ALLOCA: {
                uint64_t n = conc(s, RG(ci.a, 0), 64) * ci.imm;
                if (n > (8u << 20)) violation(s, "memory", "huge stack allocation");
                uint32_t i = T->sp++;
                uint64_t p = s.mem.create(((STACK_REGION + s.cur) << REGION_BITS) + i, (uint32_t)n, (uint32_t)ci.x, OK_STACK, 0xA5);
                R[ci.dst] = VC(p);
                ++pc;
                break;
            }
            case I_GEP: {
                Val b = RG(ci.a, 0);
                if (ci.flag == 0) {
                    if (!b.e) R[ci.dst] = VC(b.c + ci.imm);
                    else R[ci.dst] = fromE(X.bin(K_ADD, b.e, X.cst(ci.imm, 64)));
                    ++pc;
                    break;
                }
                uint64_t cst = ci.imm;
                Expr* e = b.e;
                if (!b.e) cst += b.c;
                for (auto& g : cf->geps[ci.x]) {
                    const Val ix = RG(g.op, 0);
                    if (!ix.e) cst += (uint64_t)(sextw(ix.c, g.w) * g.scale);
                    else {
                        Expr* t = g.w < 64 ? X.sext(ix.e, 64) : ix.e;
                        t = X.bin(K_MUL, t, X.cst((uint64_t)g.scale, 64));
                        e = e ? X.bin(K_ADD, e, t) : t;
                    }
                }
                R[ci.dst] = e ? fromE(X.bin(K_ADD, e, X.cst(cst, 64))) : VC(cst);
                ++pc;
                break;
            }
            case I_BR:
                takeEdge(s, *F, cf->edges[ci.x]);
                pc = F->pc;
                break;
            case I_CBR: {
                const Val c = RG(ci.a, 0);
                bool b = c.e ? decide(s, c.e) : (c.c & 1);
                takeEdge(s, *F, cf->edges[b ? ci.x : ci.y]);
                pc = F->pc;
                break;
            }
            case I_SWITCH: {
                const Val c = RG(ci.a, 0);
                SwitchInfo& si = cf->switches[ci.x];
                int edge = si.defEdge;
                if (!c.e || isC(c.e)) {
                    u128 v = c.e ? cv(c.e) : (u128)c.c;
                    for (auto& k : si.cases)
                        if (k.first == v) { edge = k.second; break; }
                }
                else {
                    u128 v = evalM(s, c.e);
                    for (auto& k : si.cases)
                        if (k.first == v) { edge = k.second; break; }
                    Expr* cond = X.fls();
                    for (auto& k : si.cases)
                        if (edge == si.defEdge || k.second == edge) cond = X.lor(cond, X.cmp(K_EQ, c.e, X.cst(k.first, ci.w)));
                    if (edge == si.defEdge) cond = X.lnot(cond);
                    decide(s, cond); // true under the current model
                }
                takeEdge(s, *F, cf->edges[edge]);
                pc = F->pc;
                break;
            }
            case I_RET: {
                const Val* rv = ci.n ? &RG(ci.a, 0) : nullptr;
                if (doReturn(s, rv, ci.n)) goto reenter;
                if (s.cur == 0) return;
                s.th[s.cur].status = 2;
                if (!switchAway(s, false)) violation(s, "deadlock", "all threads blocked");
                goto reenter;
            }
            case I_CALL: {
                CallInfo& k = cf->calls[ci.x];
                CFunc* callee = k.callee;
                switch (k.kind) {
                    case 2: {
                        int r = builtin(s, k, ci);
                        if (r) goto reenter;
                        if (k.normalEdge >= 0) {
                            takeEdge(s, *F, cf->edges[k.normalEdge]);
                            pc = F->pc;
                        }
                        else ++pc;
                        break;
                    }
                    case 3: end(E_INCOMPLETE, "unsupported external call " + k.name);
                    case 1: {
                        uint64_t a = conc(s, RG(k.calleeOp, 0), 64);
                        auto it = byAddr.find(a);
                        if (it == byAddr.end()) violation(s, "memory", "call through an invalid function pointer");
                        callee = it->second;
                        if (callee->F->isDeclaration()) {
                            int b = builtinId(callee->name, callee->F);
                            if (b < 0) end(E_INCOMPLETE, "unsupported external call " + callee->name);
                            CallInfo k2 = k;
                            k2.kind = 2;
                            k2.builtin = b;
                            k2.name = callee->name;
                            int r = builtin(s, k2, ci);
                            if (r) goto reenter;
                            if (k.normalEdge >= 0) {
                                takeEdge(s, *F, cf->edges[k.normalEdge]);
                                pc = F->pc;
                            }
                            else ++pc;
                            break;
                        }
                    } // fallthrough
                    case 0: {
                        args.clear();
                        for (size_t i = 0; i < k.argOp.size(); ++i) {
                            if (k.byval[i]) {
                                uint64_t src = conc(s, RG(k.argOp[i], 0), 64);
                                uint32_t si = T->sp++;
                                uint64_t p = s.mem.create(((STACK_REGION + s.cur) << REGION_BITS) + si, k.byval[i], 16, OK_STACK, 0xA5);
                                copyMem(s, p, src, k.byval[i]);
                                args.push_back(VC(p));
                            }
                            else
                                for (unsigned j = 0; j < k.argN[i]; ++j) args.push_back(RG(k.argOp[i], j));
                        }
                        pushFrame(s, callee, args);
                        goto reenter;
                    }
                }
                break;
            }
            case I_UNREACHABLE: violation(s, "unreachable", "reached code declared unreachable");
            case I_LANDINGPAD: {
                LPadInfo& lp = cf->lpads[ci.x];
                uint64_t ex = T->curExc, ty = 0;
                for (auto& x : s.excs)
                    if (x.addr == ex) ty = x.type;
                bool hit = false;
                uint64_t sel = 0;
                for (auto& c : lp.clauses) {
                    if (c.first) {
                        uint64_t ti = RG(c.second, 0).c;
                        if (typeMatches(s, ty, ti)) {
                            hit = true;
                            sel = ti ? typeId(s, ti) : 9999;
                            break;
                        }
                    }
                    else {
                        bool allowed = false;
                        for (int o : lp.filters[c.second])
                            if (typeMatches(s, ty, RG(o, 0).c)) allowed = true;
                        if (!allowed) { hit = true; sel = (uint32_t)-1; break; }
                    }
                }
                if (!hit && !lp.cleanup) {
                    unwind(s);
                    goto reenter;
                }
                R[ci.dst] = VC(ex);
                R[ci.dst + 1] = VC(sel);
                ++pc;
                break;
            }
            case I_RESUME:
                T->curExc = RG(ci.a, 0).c;
                unwind(s);
                goto reenter;
            case I_INSERTV:
                for (unsigned i = 0; i < ci.n; ++i) {
                    Val t = (int)i >= ci.x && (int)i < ci.x + ci.y ? RG(ci.b, (int)i - ci.x) : RG(ci.a, i);
                    R[ci.dst + i] = t;
                }
                ++pc;
                break;
            case I_EXTRACTE: {
                const Val ix = RG(ci.b, 0);
                uint64_t i = conc(s, ix, ci.flag);
                if ((int)i >= ci.x) i = 0;
                Val t = RG(ci.a, (int)i);
                R[ci.dst] = t;
                ++pc;
                break;
            }
            case I_INSERTE: {
                uint64_t ix = conc(s, RG(ci.c, 0), ci.flag);
                Val nv = RG(ci.b, 0);
                for (unsigned i = 0; i < ci.n; ++i) { Val t = i == ix ? nv : RG(ci.a, i); R[ci.dst + i] = t; }
                ++pc;
                break;
            }
            case I_SHUFFLE: {
                auto& m = cf->masks[ci.x];
                std::vector<Val> tmp(m.size());
                for (size_t i = 0; i < m.size(); ++i) tmp[i] = m[i] < 0 ? VC(0) : m[i] < ci.y ? RG(ci.a, m[i]) : RG(ci.b, m[i] - ci.y);
                for (size_t i = 0; i < m.size(); ++i) R[ci.dst + i] = tmp[i];
                ++pc;
                break;
            }
            case I_CMPXCHG:
            case I_RMW: {
                if (s.th.size() > 1 && schedPoint(s)) goto reenter;
                uint64_t addr;
                uint32_t off, id;
                Val a = RG(ci.a, 0);
                if (!a.e) addr = a.c;
                else resolve(s, a, ci.imm, true, addr, nullptr, nullptr);
                bool sv = s.nspawn;
                s.nspawn = 0;
                Obj* o = access(s, addr, ci.imm, true, off, id);
                s.nspawn = sv;
                Val old = loadScalar(s, o, off, (unsigned)ci.imm, ci.w);
                if (ci.op == I_CMPXCHG) {
                    Val eq = vcmp(K_EQ, old, RG(ci.b, 0), ci.w);
                    bool ok = decide(s, eq);
                    if (s.nspawn) atomicSync(s, addr, ok ? ci.flag : ci.sub, true, ok);
                    if (ok) {
                        o = s.mem.wdata(id);
                        storeScalar(s, o, off, (unsigned)ci.imm, ci.w, RG(ci.c, 0));
                        s.yieldStreak = 0;
                    }
                    R[ci.dst] = old;
                    R[ci.dst + 1] = VC(ok);
                    T->passed = false;
                    ++pc;
                    break;
                }
                Val b = RG(ci.b, 0), nv = b;
                if (s.nspawn) atomicSync(s, addr, ci.flag, true, true);
                s.yieldStreak = 0;
                switch (ci.sub) {
                    case AtomicRMWInst::Xchg: break;
                    case AtomicRMWInst::Add: nv = vbin(K_ADD, old, b, ci.w); break;
                    case AtomicRMWInst::Sub: nv = vbin(K_SUB, old, b, ci.w); break;
                    case AtomicRMWInst::And: nv = vbin(K_AND, old, b, ci.w); break;
                    case AtomicRMWInst::Or: nv = vbin(K_OR, old, b, ci.w); break;
                    case AtomicRMWInst::Xor: nv = vbin(K_XOR, old, b, ci.w); break;
                    case AtomicRMWInst::Nand: nv = vbin(K_XOR, vbin(K_AND, old, b, ci.w), VC(maskw(ci.w)), ci.w); break;
                    case AtomicRMWInst::UMax: case AtomicRMWInst::UMin: case AtomicRMWInst::Max: case AtomicRMWInst::Min: {
                        bool u = ci.sub == AtomicRMWInst::UMax || ci.sub == AtomicRMWInst::UMin;
                        bool mx = ci.sub == AtomicRMWInst::UMax || ci.sub == AtomicRMWInst::Max;
                        Val lt = vcmp(u ? K_ULT : K_SLT, old, b, ci.w);
                        nv = fromE(X.ite(toE(lt, 1), toE(mx ? b : old, ci.w), toE(mx ? old : b, ci.w)));
                        break;
                    }
                    default: end(E_INCOMPLETE, "unsupported atomicrmw");
                }
                storeScalar(s, o, off, (unsigned)ci.imm, ci.w, nv);
                R[ci.dst] = old;
                T->passed = false;
                ++pc;
                break;
            }
            case I_FENCE:
                if (s.nspawn) fenceSync(s, ci.flag);
                ++pc;
                break;
            default: {
                std::string t;
                raw_string_ostream o(t);
                ci.I->print(o);
                end(E_INCOMPLETE, "unsupported instruction " + t);
            }
        }
    }
}
