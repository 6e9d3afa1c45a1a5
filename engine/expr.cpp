#include "expr.h"
#include <sstream>
#include <cmath>

ExprPool X;

static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}

ExprPool::ExprPool()
{
    table.resize(1 << 16, nullptr);
    std::vector<uint32_t> e;
    emptyVS = internVS(std::move(e));
    memset(smallc, 0, sizeof(smallc));
}

const VarSet* ExprPool::internVS(std::vector<uint32_t>&& v)
{
    uint64_t h = 1469598103934665603ull;
    for (auto x : v) h = mix(h, x);
    auto& b = vsIntern[h];
    for (auto* s : b)
        if (s->v == v) return s;
    VarSet* s = new VarSet();
    s->v = std::move(v);
    s->id = vsCount++;
    b.push_back(s);
    return s;
}

const VarSet* ExprPool::unionVars(const VarSet* a, const VarSet* b)
{
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = ucache.find(key);
    if (it != ucache.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    const VarSet* s = internVS(std::move(r));
    ucache[key] = s;
    return s;
}

Expr* ExprPool::alloc()
{
    if (!arenaLeft) {
        arenaLeft = 8192;
        arena = (Expr*)malloc(sizeof(Expr) * arenaLeft);
    }
    --arenaLeft;
    return arena++;
}

void ExprPool::grow()
{
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    size_t m = nt.size() - 1;
    for (Expr* e : table)
        if (e) {
            size_t i = e->h & m;
            while (nt[i]) i = (i + 1) & m;
            nt[i] = e;
        }
    table.swap(nt);
}

Expr* ExprPool::intern(Kind k, unsigned w, Expr* a, Expr* b, Expr* c, uint64_t val, uint64_t hi)
{
    uint64_t h = mix(k * 131 + w, val);
    h = mix(h, hi);
    if (a) h = mix(h, a->id + 1);
    if (b) h = mix(h, b->id + 7);
    if (c) h = mix(h, c->id + 13);
    uint32_t h32 = (uint32_t)(h ^ (h >> 32));
    size_t m = table.size() - 1;
    size_t i = h32 & m;
    while (Expr* e = table[i]) {
        if (e->h == h32 && e->kind == k && e->width == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->val == val && e->hi == hi)
            return e;
        i = (i + 1) & m;
    }
    Expr* e = alloc();
    e->kind = k;
    e->width = w;
    e->id = (uint32_t)count++;
    e->h = h32;
    e->k[0] = a;
    e->k[1] = b;
    e->k[2] = c;
    e->val = val;
    e->hi = hi;
    e->evEpoch = 0;
    e->ast = nullptr;
    const VarSet* vs = emptyVS;
    uint32_t d = 0;
    for (int j = 0; j < 3; ++j)
        if (e->k[j]) {
            vs = unionVars(vs, e->k[j]->vars);
            d = std::max(d, e->k[j]->depth + 1);
        }
    if (k == K_VAR) vs = internVS(std::vector<uint32_t>{ (uint32_t)val });
    e->vars = vs;
    e->depth = d;
    // intervals
    uint64_t M = maskw(w);
    e->umin = 0;
    e->umax = M;
    if (w <= 64) {
        switch (k) {
            case K_CONST: e->umin = e->umax = val; break;
            case K_ADD:
                if (a->umax <= M - b->umax) { e->umin = a->umin + b->umin; e->umax = a->umax + b->umax; }
                break;
            case K_SUB:
                if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; }
                break;
            case K_MUL: {
                u128 p = (u128)a->umax * b->umax;
                if (p <= M) { e->umin = a->umin * b->umin; e->umax = (uint64_t)p; }
                break;
            }
            case K_UDIV:
                if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; }
                break;
            case K_UREM:
                if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); }
                break;
            case K_AND: e->umax = std::min(a->umax, b->umax); break;
            case K_OR: {
                e->umin = std::max(a->umin, b->umin);
                uint64_t x = a->umax | b->umax;
                int bits = x ? 64 - __builtin_clzll(x) : 0;
                e->umax = std::min<uint64_t>(M, bits ? maskw(bits) : 0);
                break;
            }
            case K_XOR: {
                uint64_t x = a->umax | b->umax;
                int bits = x ? 64 - __builtin_clzll(x) : 0;
                e->umax = bits ? std::min(M, maskw(bits)) : 0;
                break;
            }
            case K_LSHR: e->umax = a->umax; break;
            case K_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
            case K_ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); break;
            case K_CONCAT:
                e->umin = (a->umin << b->width) | b->umin;
                e->umax = (a->umax << b->width) | b->umax;
                break;
            case K_EXTRACT:
                if (a->width <= 64) {
                    uint64_t hiv = a->umax >> val, lov = a->umin >> val;
                    if (hiv <= M) { e->umin = lov; e->umax = hiv; }
                }
                break;
            case K_SEXT:
                if (a->umax < (1ull << (a->width - 1))) { e->umin = a->umin; e->umax = a->umax; }
                break;
            default: break;
        }
    }
    table[i] = e;
    if (++tcount * 2 > table.size()) grow();
    return e;
}

Expr* ExprPool::cst(u128 v, unsigned w)
{
    v &= maskw128(w);
    if (w <= 64 && v <= 16) {
        Expr*& s = smallc[w][(int)v];
        if (!s) s = intern(K_CONST, w, nullptr, nullptr, nullptr, (uint64_t)v, 0);
        return s;
    }
    return intern(K_CONST, w, nullptr, nullptr, nullptr, (uint64_t)v, (uint64_t)(v >> 64));
}

Expr* ExprPool::var(const std::string& name, unsigned w)
{
    assert(w <= 64);
    uint32_t i = (uint32_t)vars.size();
    Expr* e = intern(K_VAR, w, nullptr, nullptr, nullptr, i, 0);
    vars.push_back({ name, w, e });
    return e;
}

Expr* ExprPool::mk(Kind k, unsigned w, Expr* a, Expr* b, Expr* c, uint64_t val) { return intern(k, w, a, b, c, val, 0); }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w)
{
    u128 M = maskw128(w);
    switch (k) {
        case K_ADD: return (a + b) & M;
        case K_SUB: return (a - b) & M;
        case K_MUL: return (a * b) & M;
        case K_UDIV: return b ? (a / b) & M : M;
        case K_UREM: return b ? (a % b) & M : a;
        case K_SDIV: {
            i128 x = sextw128(a, w), y = sextw128(b, w);
            if (y == 0) return (x < 0 ? (u128)1 : M);
            if (y == -1) return (u128)(-(u128)x) & M;
            return (u128)(x / y) & M;
        }
        case K_SREM: {
            i128 x = sextw128(a, w), y = sextw128(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & M;
        }
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
        case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
        case K_ASHR: {
            i128 x = sextw128(a, w);
            return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & M;
        }
        default: assert(0); return 0;
    }
}

bool foldCmp(Kind k, u128 a, u128 b, unsigned w)
{
    switch (k) {
        case K_EQ: return a == b;
        case K_ULT: return a < b;
        case K_ULE: return a <= b;
        case K_SLT: return sextw128(a, w) < sextw128(b, w);
        case K_SLE: return sextw128(a, w) <= sextw128(b, w);
        default: assert(0); return 0;
    }
}

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static long double asL(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static u128 fromL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return x; }

u128 foldFp(Kind k, unsigned w, u128 a, unsigned wa, u128 b)
{
    if (k >= K_FADD && k <= K_FDIV) {
#define OPS(T, as, from) { T x = as(a), y = as(b); volatile T r = k == K_FADD ? x + y : k == K_FSUB ? x - y : k == K_FMUL ? x * y : x / y; return from(r); }
        if (wa == 64) OPS(double, asD, fromD)
        if (wa == 32) OPS(float, asF, fromF)
        OPS(long double, asL, fromL)
    }
    if (k == K_FTOSI || k == K_FTOUI) {
        long double x = wa == 64 ? asD(a) : wa == 32 ? asF(a) : asL(a);
        u128 r;
        if (k == K_FTOSI) {
            if (!(x > -9.3e18L && x < 9.3e18L)) r = (u128)1 << (w - 1);
            else r = (u128)(i128)x;
        }
        else
            r = (x < 0) ? (u128)(i128)x : (x < 3e38L ? (u128)x : 0);
        return r & maskw128(w);
    }
    if (k == K_SITOF || k == K_UITOF) {
        i128 s = sextw128(a, wa);
        if (w == 64) return fromD(k == K_SITOF ? (double)s : (double)a);
        if (w == 32) return fromF(k == K_SITOF ? (float)s : (float)a);
        return fromL(k == K_SITOF ? (long double)s : (long double)a);
    }
    if (k == K_FTOF) {
        long double x = wa == 64 ? asD(a) : wa == 32 ? asF(a) : asL(a);
        if (w == 64) return fromD((double)x);
        if (w == 32) return fromF(wa == 64 ? (float)asD(a) : (float)x);
        return fromL(x);
    }
    assert(0);
    return 0;
}

Expr* ExprPool::lnot(Expr* a)
{
    assert(a->width == 1);
    if (isC(a)) return cst(!a->val, 1);
    if (a->kind == K_NOT) return a->k[0];
    if (a->kind == K_ULT) return cmp(K_ULE, a->k[1], a->k[0]);
    if (a->kind == K_ULE) return cmp(K_ULT, a->k[1], a->k[0]);
    if (a->kind == K_SLT) return cmp(K_SLE, a->k[1], a->k[0]);
    if (a->kind == K_SLE) return cmp(K_SLT, a->k[1], a->k[0]);
    return mk(K_NOT, 1, a);
}

Expr* ExprPool::extract(Expr* a, unsigned lo, unsigned w)
{
    assert(lo + w <= a->width);
    if (lo == 0 && w == a->width) return a;
    if (isC(a)) return cst(cv(a) >> lo, w);
    switch (a->kind) {
        case K_EXTRACT: return extract(a->k[0], lo + (unsigned)a->val, w);
        case K_CONCAT: {
            Expr *h = a->k[0], *l = a->k[1];
            if (lo >= l->width) return extract(h, lo - l->width, w);
            if (lo + w <= l->width) return extract(l, lo, w);
            return concat(extract(h, 0, lo + w - l->width), extract(l, lo, l->width - lo));
        }
        case K_ZEXT: {
            Expr* x = a->k[0];
            if (lo >= x->width) return cst(0, w);
            if (lo + w <= x->width) return extract(x, lo, w);
            return zext(extract(x, lo, x->width - lo), w);
        }
        case K_SEXT: {
            Expr* x = a->k[0];
            if (lo + w <= x->width) return extract(x, lo, w);
            if (lo == 0) return sext(x, w);
            break;
        }
        case K_AND: case K_OR: case K_XOR:
            if (isC(a->k[1]) || lo == 0 || a->k[0]->kind == K_CONCAT || a->k[0]->kind == K_ZEXT || a->k[1]->kind == K_CONCAT || a->k[1]->kind == K_ZEXT)
                return bin(a->kind, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
            break;
        case K_ADD: case K_SUB: case K_MUL:
            if (lo == 0) return bin(a->kind, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
            break;
        case K_ITE:
            if (isC(a->k[1]) || isC(a->k[2]) || lo == 0) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
            break;
        default: break;
    }
    if (a->width <= 64 && w <= 64 && lo < 64 && (a->umax >> lo) == 0) return cst(0, w);
    return mk(K_EXTRACT, w, a, nullptr, nullptr, lo);
}

Expr* ExprPool::concat(Expr* h, Expr* l)
{
    unsigned w = h->width + l->width;
    assert(w <= 512);
    if (w <= 128 && isC(h) && isC(l)) return cst((cv(h) << l->width) | cv(l), w);
    if (isC(h) && cv(h) == 0) return zext(l, w);
    if (h->kind == K_EXTRACT && l->kind == K_EXTRACT && h->k[0] == l->k[0] && h->val == l->val + l->width) return extract(h->k[0], (unsigned)l->val, w);
    if (h->kind == K_EXTRACT && h->k[0] == l && h->val == l->width) { /* cannot happen: widths */ }
    // concat(a, concat(b, c)) with mergeable a,b
    if (l->kind == K_CONCAT) {
        Expr* m = l->k[0];
        if (h->kind == K_EXTRACT && m->kind == K_EXTRACT && h->k[0] == m->k[0] && h->val == m->val + m->width)
            return concat(extract(h->k[0], (unsigned)m->val, h->width + m->width), l->k[1]);
        if (isC(h) && isC(m) && h->width + m->width <= 128) return concat(cst((cv(h) << m->width) | cv(m), h->width + m->width), l->k[1]);
    }
    if (h->kind == K_ZEXT) return zext(concat(h->k[0], l), w);
    if (h->kind == K_CONCAT && l->width + h->k[1]->width <= 128) {
        // right-assoc normal form
        return concat(h->k[0], concat(h->k[1], l));
    }
    // sign bits: concat(sext piece)
    return mk(K_CONCAT, w, h, l);
}

Expr* ExprPool::zext(Expr* a, unsigned w)
{
    assert(w >= a->width);
    if (w == a->width) return a;
    if (isC(a)) return w <= 128 ? cst(cv(a), w) : mk(K_ZEXT, w, a);
    if (a->kind == K_ZEXT) return zext(a->k[0], w);
    if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
    return mk(K_ZEXT, w, a);
}

Expr* ExprPool::sext(Expr* a, unsigned w)
{
    assert(w >= a->width);
    if (w == a->width) return a;
    if (isC(a)) return cst((u128)sextw128(cv(a), a->width), w);
    if (a->kind == K_SEXT) return sext(a->k[0], w);
    if (a->kind == K_ZEXT) return zext(a->k[0], w);
    if (a->width <= 64 && a->umax < (1ull << (a->width - 1))) return zext(a, w);
    if (a->width == 1) return ite(a, cst(~(u128)0, w), cst(0, w));
    if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    return mk(K_SEXT, w, a);
}

Expr* ExprPool::ite(Expr* c, Expr* a, Expr* b)
{
    assert(c->width == 1 && a->width == b->width);
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->kind == K_NOT) return ite(c->k[0], b, a);
    if (a->width == 1) {
        if (isC(a) && isC(b)) return a->val ? c : lnot(c);
        if (isC(a)) return a->val ? lor(c, b) : land(lnot(c), b);
        if (isC(b)) return b->val ? lor(lnot(c), a) : land(c, a);
        if (a == c) return lor(c, b);
        if (b == c) return land(c, a);
    }
    if (a->kind == K_ITE && a->k[0] == c) a = a->k[1];
    if (b->kind == K_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->kind == K_ITE && b->k[1] == a) return ite(lor(c, b->k[0]), a, b->k[2]);
    return mk(K_ITE, a->width, c, a, b);
}

Expr* ExprPool::bin(Kind k, Expr* a, Expr* b)
{
    unsigned w = a->width;
    assert(w == b->width);
    bool ca = isC(a), cb = isC(b);
    if (ca && cb && w <= 128) return cst(foldBin(k, cv(a), cv(b), w), w);
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
    if (comm && (ca || (!cb && a->id > b->id))) { std::swap(a, b); std::swap(ca, cb); }
    u128 M = maskw128(w);
    u128 B = cb ? cv(b) : 0;
    // push through ite of constants
    if (cb && a->kind == K_ITE && w > 1 && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(k, a->k[1], b), bin(k, a->k[2], b));
    if (ca && b->kind == K_ITE && w > 1 && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], bin(k, a, b->k[1]), bin(k, a, b->k[2]));
    switch (k) {
        case K_ADD:
            if (w == 1) return bin(K_XOR, a, b);
            if (cb) {
                if (B == 0) return a;
                if (a->kind == K_ADD && isC(a->k[1])) return bin(K_ADD, a->k[0], cst(cv(a->k[1]) + B, w));
                if (a->kind == K_SUB && isC(a->k[0])) return bin(K_SUB, cst(cv(a->k[0]) + B, w), a->k[1]);
            }
            else {
                if (a->kind == K_ADD && isC(a->k[1])) return bin(K_ADD, bin(K_ADD, a->k[0], b), a->k[1]);
                if (b->kind == K_ADD && isC(b->k[1])) return bin(K_ADD, bin(K_ADD, a, b->k[0]), b->k[1]);
                if (b->kind == K_SUB && b->k[1] == a) return b->k[0];
                if (a->kind == K_SUB && a->k[1] == b) return a->k[0];
                if (b->kind == K_SUB && isC(b->k[0]) && cv(b->k[0]) == 0) return bin(K_SUB, a, b->k[1]);
                if (a->kind == K_SUB && isC(a->k[0]) && cv(a->k[0]) == 0) return bin(K_SUB, b, a->k[1]);
            }
            break;
        case K_SUB:
            if (w == 1) return bin(K_XOR, a, b);
            if (a == b) return cst(0, w);
            if (cb) return bin(K_ADD, a, cst((~B + 1), w));
            if (a->kind == K_ADD) {
                if (a->k[0] == b) return a->k[1];
                if (a->k[1] == b) return a->k[0];
                if (isC(a->k[1])) return bin(K_ADD, bin(K_SUB, a->k[0], b), a->k[1]);
            }
            if (b->kind == K_ADD && isC(b->k[1])) return bin(K_ADD, bin(K_SUB, a, b->k[0]), cst(~cv(b->k[1]) + 1, w));
            if (b->kind == K_ADD && (b->k[0] == a)) return bin(K_SUB, cst(0, w), b->k[1]);
            if (b->kind == K_ADD && (b->k[1] == a)) return bin(K_SUB, cst(0, w), b->k[0]);
            if (b->kind == K_SUB && b->k[0] == a) return b->k[1];
            if (ca && cv(a) == 0 && b->kind == K_SUB) return bin(K_SUB, b->k[1], b->k[0]);
            break;
        case K_MUL:
            if (w == 1) return bin(K_AND, a, b);
            if (cb) {
                if (B == 0) return b;
                if (B == 1) return a;
                if ((B & (B - 1)) == 0) {
                    unsigned s = 0;
                    while (!((B >> s) & 1)) ++s;
                    return bin(K_SHL, a, cst(s, w));
                }
                if (a->kind == K_MUL && isC(a->k[1])) return bin(K_MUL, a->k[0], cst(cv(a->k[1]) * B, w));
                if (a->kind == K_ADD && isC(a->k[1])) return bin(K_ADD, bin(K_MUL, a->k[0], b), cst(cv(a->k[1]) * B, w));
            }
            break;
        case K_UDIV:
            if (cb && B == 1) return a;
            if (cb && B && (B & (B - 1)) == 0) {
                unsigned s = 0;
                while (!((B >> s) & 1)) ++s;
                return bin(K_LSHR, a, cst(s, w));
            }
            if (w <= 64 && a->umax < b->umin) return cst(0, w);
            // narrow zext'd operands
            if (cb && a->kind == K_ZEXT && a->k[0]->width >= 2) {
                unsigned nw = a->k[0]->width;
                if (B <= maskw128(nw)) return zext(bin(K_UDIV, a->k[0], cst(B, nw)), w);
            }
            break;
        case K_UREM:
            if (cb && B == 1) return cst(0, w);
            if (cb && B && (B & (B - 1)) == 0) {
                unsigned s = 0;
                while (!((B >> s) & 1)) ++s;
                return zext(extract(a, 0, s), w);
            }
            if (w <= 64 && a->umax < b->umin) return a;
            if (cb && a->kind == K_ZEXT && a->k[0]->width >= 2) {
                unsigned nw = a->k[0]->width;
                if (B <= maskw128(nw)) return zext(bin(K_UREM, a->k[0], cst(B, nw)), w);
            }
            break;
        case K_SDIV:
            if (cb && B == 1) return a;
            if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1)) && b->umin > 0) return bin(K_UDIV, a, b);
            break;
        case K_SREM:
            if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1)) && b->umin > 0) return bin(K_UREM, a, b);
            break;
        case K_AND:
            if (a == b) return a;
            if (cb) {
                if (B == 0) return b;
                if (B == M) return a;
                if (a->kind == K_AND && isC(a->k[1])) return bin(K_AND, a->k[0], cst(cv(a->k[1]) & B, w));
                // mask of contiguous bits -> extract
                if (w <= 128 && w > 1) {
                    unsigned lo = 0;
                    while (!((B >> lo) & 1)) ++lo;
                    unsigned n = 0;
                    while (lo + n < w && ((B >> (lo + n)) & 1)) ++n;
                    if (lo + n == w || (B >> (lo + n)) == 0) {
                        Expr* x = extract(a, lo, n);
                        if (lo) x = concat(x, cst(0, lo));
                        return zext(x, w);
                    }
                }
                if (a->kind == K_ZEXT) {
                    unsigned nw = a->k[0]->width;
                    return zext(bin(K_AND, a->k[0], cst(B & maskw128(nw), nw)), w);
                }
            }
            if (w == 1) {
                if (a->kind == K_NOT && a->k[0] == b) return fls();
                if (b->kind == K_NOT && b->k[0] == a) return fls();
                if (a->kind == K_AND && (a->k[0] == b || a->k[1] == b)) return a;
                if (b->kind == K_AND && (b->k[0] == a || b->k[1] == a)) return b;
            }
            if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
                unsigned nw = std::max(a->k[0]->width, b->k[0]->width);
                if (nw < w) return zext(bin(K_AND, zext(a->k[0], nw), zext(b->k[0], nw)), w);
            }
            break;
        case K_OR:
            if (a == b) return a;
            if (cb) {
                if (B == 0) return a;
                if (B == M) return b;
                if (a->kind == K_OR && isC(a->k[1])) return bin(K_OR, a->k[0], cst(cv(a->k[1]) | B, w));
                if (w > 1 && w <= 128) {
                    // split off constant low/high parts so that byte-wise structure survives
                    unsigned lo = 0;
                    while (lo < w && !((B >> lo) & 1)) ++lo;
                    if (lo >= 8 && lo < w) return concat(bin(K_OR, extract(a, lo, w - lo), cst(B >> lo, w - lo)), extract(a, 0, lo));
                    if (a->kind == K_ZEXT && a->k[0]->width < w) {
                        unsigned nw = a->k[0]->width;
                        return concat(cst(B >> nw, w - nw), bin(K_OR, a->k[0], cst(B, nw)));
                    }
                }
            }
            if (w == 1) {
                if (a->kind == K_NOT && a->k[0] == b) return tru();
                if (b->kind == K_NOT && b->k[0] == a) return tru();
                if (a->kind == K_OR && (a->k[0] == b || a->k[1] == b)) return a;
                if (b->kind == K_OR && (b->k[0] == a || b->k[1] == a)) return b;
            }
            else if (!cb) {
                // zext(x) | concat(y, 0)  -> concat
                Expr *z = a, *c = b;
                if (z->kind != K_ZEXT) std::swap(z, c);
                if (z->kind == K_ZEXT) {
                    unsigned nw = z->k[0]->width;
                    Expr* low = extract(c, 0, nw);
                    if (isC(low) && cv(low) == 0) return concat(extract(c, nw, w - nw), z->k[0]);
                }
                if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
                    unsigned nw = std::max(a->k[0]->width, b->k[0]->width);
                    if (nw < w) return zext(bin(K_OR, zext(a->k[0], nw), zext(b->k[0], nw)), w);
                }
                // concat with trailing zero const vs something with high zeros handled above; generic split on concat boundary
                if (a->kind == K_CONCAT && isC(a->k[1]) && b->kind == K_CONCAT && a->k[1]->width == b->k[1]->width)
                    return concat(bin(K_OR, a->k[0], b->k[0]), bin(K_OR, a->k[1], b->k[1]));
                if (a->kind == K_CONCAT && b->kind == K_CONCAT && isC(b->k[1]) && a->k[1]->width == b->k[1]->width)
                    return concat(bin(K_OR, a->k[0], b->k[0]), bin(K_OR, a->k[1], b->k[1]));
            }
            break;
        case K_XOR:
            if (a == b) return cst(0, w);
            if (cb) {
                if (B == 0) return a;
                if (w == 1) return lnot(a);
                if (a->kind == K_XOR && isC(a->k[1])) return bin(K_XOR, a->k[0], cst(cv(a->k[1]) ^ B, w));
            }
            if (w == 1 && a->kind == K_NOT) return lnot(bin(K_XOR, a->k[0], b));
            if (w == 1 && b->kind == K_NOT) return lnot(bin(K_XOR, a, b->k[0]));
            if (a->kind == K_XOR) {
                if (a->k[0] == b) return a->k[1];
                if (a->k[1] == b) return a->k[0];
            }
            if (b->kind == K_XOR) {
                if (b->k[0] == a) return b->k[1];
                if (b->k[1] == a) return b->k[0];
            }
            if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
                unsigned nw = std::max(a->k[0]->width, b->k[0]->width);
                if (nw < w) return zext(bin(K_XOR, zext(a->k[0], nw), zext(b->k[0], nw)), w);
            }
            break;
        case K_SHL:
            if (cb) {
                if (B == 0) return a;
                if (B >= w) return cst(0, w);
                return concat(extract(a, 0, w - (unsigned)B), cst(0, (unsigned)B));
            }
            break;
        case K_LSHR:
            if (cb) {
                if (B == 0) return a;
                if (B >= w) return cst(0, w);
                return zext(extract(a, (unsigned)B, w - (unsigned)B), w);
            }
            break;
        case K_ASHR:
            if (cb) {
                if (B == 0) return a;
                unsigned s = B >= w ? w - 1 : (unsigned)B;
                return sext(extract(a, s, w - s), w);
            }
            if (w <= 64 && a->umax < (1ull << (w - 1))) return bin(K_LSHR, a, b);
            break;
        default: break;
    }
    return mk(k, w, a, b);
}

// number of leaves of a tree of choices between constants; large when it is something else
static unsigned constTree(Expr* e)
{
    if (isC(e)) return 1;
    if (e->kind != K_ITE || e->depth > 40) return 1000;
    unsigned n = constTree(e->k[1]);
    return n > 64 ? n : n + constTree(e->k[2]);
}

Expr* ExprPool::cmp(Kind k, Expr* a, Expr* b)
{
    unsigned w = a->width;
    assert(w == b->width);
    bool ca = isC(a), cb = isC(b);
    if (ca && cb) return cst(foldCmp(k, cv(a), cv(b), w), 1);
    if (a == b) return cst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
    if (w <= 64) {
        // intervals
        switch (k) {
            case K_EQ:
                if (a->umax < b->umin || b->umax < a->umin) return fls();
                break;
            case K_ULT:
                if (a->umax < b->umin) return tru();
                if (a->umin >= b->umax) return fls();
                break;
            case K_ULE:
                if (a->umax <= b->umin) return tru();
                if (a->umin > b->umax) return fls();
                break;
            case K_SLT:
            case K_SLE: {
                uint64_t S = 1ull << (w - 1);
                bool an = a->umin >= S, ap = a->umax < S, bn = b->umin >= S, bp = b->umax < S;
                if ((an || ap) && (bn || bp)) {
                    if (an && bp) return tru();
                    if (ap && bn) return fls();
                    return cmp(k == K_SLT ? K_ULT : K_ULE, a, b);
                }
                break;
            }
            default: break;
        }
    }
    // push through ite-of-constants
    if (cb && a->kind == K_ITE && constTree(a) <= 64) return ite(a->k[0], cmp(k, a->k[1], b), cmp(k, a->k[2], b));
    if (ca && b->kind == K_ITE && constTree(b) <= 64) return ite(b->k[0], cmp(k, a, b->k[1]), cmp(k, a, b->k[2]));
    if (cb && a->kind == K_ITE && (isC(a->k[1]) || isC(a->k[2]))) {
        Expr* x = cmp(k, a->k[1], b);
        Expr* y = cmp(k, a->k[2], b);
        if (isC(x) || isC(y) ) return ite(a->k[0], x, y);
    }
    if (ca && b->kind == K_ITE && (isC(b->k[1]) || isC(b->k[2]))) {
        Expr* x = cmp(k, a, b->k[1]);
        Expr* y = cmp(k, a, b->k[2]);
        if (isC(x) || isC(y)) return ite(b->k[0], x, y);
    }
    switch (k) {
        case K_EQ: {
            if (ca || (!cb && a->id > b->id)) { std::swap(a, b); std::swap(ca, cb); }
            if (w == 1) {
                if (cb) return b->val ? a : lnot(a);
                if (a->kind == K_NOT) return lnot(cmp(K_EQ, a->k[0], b));
                if (b->kind == K_NOT) return lnot(cmp(K_EQ, a, b->k[0]));
            }
            if (cb) {
                u128 B = cv(b);
                if (a->kind == K_ZEXT) {
                    unsigned nw = a->k[0]->width;
                    if (B > maskw128(nw)) return fls();
                    return cmp(K_EQ, a->k[0], cst(B, nw));
                }
                if (a->kind == K_SEXT) {
                    unsigned nw = a->k[0]->width;
                    if ((u128)sextw128(B & maskw128(nw), nw) != (u128)sextw128(B, w)) return fls();
                    return cmp(K_EQ, a->k[0], cst(B, nw));
                }
                if (a->kind == K_CONCAT && w <= 128) {
                    unsigned lw = a->k[1]->width;
                    return land(cmp(K_EQ, a->k[0], cst(B >> lw, w - lw)), cmp(K_EQ, a->k[1], cst(B, lw)));
                }
                if (a->kind == K_ADD && isC(a->k[1])) return cmp(K_EQ, a->k[0], cst(B - cv(a->k[1]), w));
                if (a->kind == K_SUB && isC(a->k[0])) return cmp(K_EQ, a->k[1], cst(cv(a->k[0]) - B, w));
                if (a->kind == K_SUB && B == 0) return cmp(K_EQ, a->k[0], a->k[1]);
                if (a->kind == K_XOR && B == 0) return cmp(K_EQ, a->k[0], a->k[1]);
                if (a->kind == K_XOR && isC(a->k[1])) return cmp(K_EQ, a->k[0], cst(B ^ cv(a->k[1]), w));
                if (a->kind == K_OR && B == 0) return land(cmp(K_EQ, a->k[0], b), cmp(K_EQ, a->k[1], b));
                if (a->kind == K_MUL && isC(a->k[1]) && (cv(a->k[1]) & 1)) {
                    // odd multiplier is invertible
                    u128 c = cv(a->k[1]), inv = c;
                    for (int i = 0; i < 7; ++i) inv *= 2 - c * inv;
                    return cmp(K_EQ, a->k[0], cst(B * inv, w));
                }
            }
            else {
                if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
                    unsigned nw = std::max(a->k[0]->width, b->k[0]->width);
                    if (nw < w) return cmp(K_EQ, zext(a->k[0], nw), zext(b->k[0], nw));
                }
                if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width) return cmp(K_EQ, a->k[0], b->k[0]);
                if (a->kind == K_ADD && b->kind == K_ADD) {
                    if (a->k[0] == b->k[0]) return cmp(K_EQ, a->k[1], b->k[1]);
                    if (a->k[1] == b->k[1]) return cmp(K_EQ, a->k[0], b->k[0]);
                }
                if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->k[1]->width == b->k[1]->width)
                    return land(cmp(K_EQ, a->k[0], b->k[0]), cmp(K_EQ, a->k[1], b->k[1]));
                if (a->kind == K_MUL && b->kind == K_MUL && a->k[1] == b->k[1] && isC(a->k[1]) && (cv(a->k[1]) & 1)) return cmp(K_EQ, a->k[0], b->k[0]);
                if (a->kind == K_XOR && b->kind == K_XOR) {
                    if (a->k[0] == b->k[0]) return cmp(K_EQ, a->k[1], b->k[1]);
                    if (a->k[1] == b->k[1]) return cmp(K_EQ, a->k[0], b->k[0]);
                }
            }
            break;
        }
        case K_ULT:
        case K_ULE: {
            if (w == 1) {
                // a<b : !a & b ; a<=b : !a | b
                return k == K_ULT ? land(lnot(a), b) : lor(lnot(a), b);
            }
            {
                // complements reverse the order
                auto cpl = [&](Expr* x) { return x->kind == K_XOR && isC(x->k[1]) && cv(x->k[1]) == maskw128(w); };
                bool na = cpl(a), nb = cpl(b);
                if ((na || ca) && (nb || cb)) return cmp(k, nb ? b->k[0] : cst(~cv(b) & maskw128(w), w), na ? a->k[0] : cst(~cv(a) & maskw128(w), w));
            }
            if (k == K_ULT && cb && cv(b) == 1) return cmp(K_EQ, a, cst(0, w));
            if (k == K_ULE && cb && cv(b) == 0) return cmp(K_EQ, a, b);
            if (k == K_ULE && cb && w <= 64) return cmp(K_ULT, a, cst(cv(b) + 1, w)); // not max (interval)
            if (k == K_ULE && ca && w <= 64 && cv(a) > 0) return cmp(K_ULT, cst(cv(a) - 1, w), b);
            if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
                unsigned nw = std::max(a->k[0]->width, b->k[0]->width);
                if (nw < w) return cmp(k, zext(a->k[0], nw), zext(b->k[0], nw));
            }
            if (cb && a->kind == K_ZEXT && cv(b) <= maskw128(a->k[0]->width)) return cmp(k, a->k[0], cst(cv(b), a->k[0]->width));
            if (ca && b->kind == K_ZEXT && cv(a) <= maskw128(b->k[0]->width)) return cmp(k, cst(cv(a), b->k[0]->width), b->k[0]);
            if (k == K_ULT && ca && cv(a) == 0) return lnot(cmp(K_EQ, b, a));
            if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->k[1] == b->k[1] ) return cmp(k, a->k[0], b->k[0]);
            if (k == K_ULT && w <= 64) {
                // additions that do not wrap, low zero bits
                auto nowrap = [&](Expr* x) { return x->kind == K_ADD && isC(x->k[1]) && x->k[0]->umax <= maskw(w) - x->k[1]->val; };
                if (cb && nowrap(a) && b->val >= a->k[1]->val) return cmp(k, a->k[0], cst(b->val - a->k[1]->val, w));
                if (ca && nowrap(b) && a->val >= b->k[1]->val) return cmp(k, cst(a->val - b->k[1]->val, w), b->k[0]);
                if (cb && a->kind == K_CONCAT && isC(a->k[0])) { // same leading constant (intervals decide the others)
                    unsigned n = a->k[1]->width;
                    if (a->k[0]->val == b->val >> n) return cmp(k, a->k[1], cst(b->val & maskw(n), n));
                }
                if (ca && b->kind == K_CONCAT && isC(b->k[0])) {
                    unsigned n = b->k[1]->width;
                    if (b->k[0]->val == a->val >> n) return cmp(k, cst(a->val & maskw(n), n), b->k[1]);
                }
                if (cb && a->kind == K_CONCAT && isC(a->k[1]) && a->k[1]->width < w) { // h:l < c  <=>  h < ceil((c - l) / 2^n) when c > l
                    uint64_t l = a->k[1]->val, c = b->val;
                    unsigned n = a->k[1]->width;
                    if (c <= l) return fls();
                    if ((c - l - 1) >> n == maskw(w - n)) return tru();
                    return cmp(k, a->k[0], cst(((c - l - 1) >> n) + 1, w - n));
                }
                if (ca && b->kind == K_CONCAT && isC(b->k[1]) && b->k[1]->width < w) { // c < h:l  <=>  h > (c - l) / 2^n
                    uint64_t l = b->k[1]->val, c = a->val;
                    unsigned n = b->k[1]->width;
                    if (c < l) return tru();
                    return cmp(k, cst((c - l) >> n, w - n), b->k[0]);
                }
            }
            break;
        }
        case K_SLT:
        case K_SLE:
            if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width) return cmp(k, a->k[0], b->k[0]);
            if (cb && a->kind == K_SEXT) {
                unsigned nw = a->k[0]->width;
                i128 B = sextw128(cv(b), w);
                i128 mx = ((i128)1 << (nw - 1)) - 1, mn = -((i128)1 << (nw - 1));
                if (B >= mn && B <= mx) return cmp(k, a->k[0], cst((u128)B, nw));
                return cst(B > mx, 1);
            }
            if (ca && b->kind == K_SEXT) {
                unsigned nw = b->k[0]->width;
                i128 A = sextw128(cv(a), w);
                i128 mx = ((i128)1 << (nw - 1)) - 1, mn = -((i128)1 << (nw - 1));
                if (A >= mn && A <= mx) return cmp(k, cst((u128)A, nw), b->k[0]);
                return cst(A < mn, 1);
            }
            if (k == K_SLT && cb && cv(b) == 0 && a->kind == K_CONCAT) return cmp(K_EQ, extract(a, w - 1, 1), tru());
            break;
        default: break;
    }
    return mk(k, 1, a, b);
}

Expr* ExprPool::fop(Kind k, unsigned w, Expr* a, Expr* b)
{
    if (isC(a) && (!b || isC(b))) return cst(foldFp(k, w, cv(a), a->width, b ? cv(b) : 0), w);
    if (a->width == 80) {
        // undo exact widening conversions
        if (k == K_FTOF && a->kind == K_FTOF && a->k[0]->width == w) return a->k[0];
        if (k == K_FTOF && a->kind == K_SITOF) return fop(K_SITOF, w, a->k[0]);
        if (k == K_FTOF && a->kind == K_UITOF) return fop(K_UITOF, w, a->k[0]);
        if ((k == K_FTOSI || k == K_FTOUI) && a->kind == K_FTOF) return fop(k, w, a->k[0]);
        if ((k == K_FTOSI || k == K_FTOUI) && (a->kind == K_SITOF || a->kind == K_UITOF)) {
            Expr* x = a->k[0];
            if (x->width >= w) return extract(x, 0, w);
            return a->kind == K_SITOF ? sext(x, w) : zext(x, w);
        }
    }
    if (k == K_FTOF && w == 80 && a->kind == K_FTOF && a->width == 64 && a->k[0]->width == 32) return fop(K_FTOF, 80, a->k[0]);
    // conversions as bit-vector circuits
    if ((k == K_FTOSI || k == K_FTOUI) && a->width <= 64 && w <= 64) return extract(ftoi(a, 66, nullptr, nullptr), 0, w);
    if ((k == K_SITOF || k == K_UITOF) && w <= 64 && a->width <= 64) return itof(k == K_SITOF, w, a);
    if (k == K_FTOF && w == 64 && a->width == 32) return widen(a);
    return mk(k, w, a, b);
}

static unsigned expBits(unsigned w) { return w == 64 ? 11 : 8; }
static unsigned manBits(unsigned w) { return w == 64 ? 52 : 23; }

// Truncation of an IEEE value toward zero as a signed integer of w bits (exact when |a| < 2^(w-1)); frac: a fractional
// part was dropped; big: |a| >= 2^(w-1), infinity or nan.
Expr* ExprPool::ftoi(Expr* a, unsigned w, Expr** frac, Expr** big)
{
    unsigned E = expBits(a->width), M = manBits(a->width), bias = (1u << (E - 1)) - 1, W = w + M;
    Expr* e = extract(a, M, E);
    Expr* lt1 = cmp(K_ULT, e, cst(bias, E)); // |a| < 1
    Expr* man = concat(cst(1, 1), extract(a, 0, M));
    Expr* sh = zext(bin(K_SUB, e, cst(bias, E)), W);
    Expr* reg = bin(K_SHL, zext(man, W), sh);
    Expr* mag = ite(lt1, cst(0, w), extract(reg, M, w));
    if (frac) *frac = ite(lt1, lnot(cmp(K_EQ, extract(a, 0, a->width - 1), cst(0, a->width - 1))), lnot(cmp(K_EQ, extract(reg, 0, M), cst(0, M))));
    if (big) *big = cmp(K_ULE, cst(bias + w - 1, E), e);
    return ite(extract(a, a->width - 1, 1), bin(K_SUB, cst(0, w), mag), mag);
}

// Round to nearest even conversion of an integer of at most 64 bits to an IEEE value of w bits.
Expr* ExprPool::itof(bool sgn, unsigned w, Expr* x)
{
    unsigned E = expBits(w), M = manBits(w), bias = (1u << (E - 1)) - 1, n = x->width;
    Expr* neg = sgn ? extract(x, n - 1, 1) : fls();
    Expr* mag = sgn ? ite(neg, bin(K_SUB, cst(0, n), x), x) : x;
    unsigned N = 1;
    while (N < n) N *= 2;
    if (N < M + 2) N = M + 2 <= 32 ? 32 : 64;
    Expr* r = zext(mag, N);
    Expr* lz = cst(0, E);
    for (unsigned st = N / 2; st; st /= 2) {
        Expr* z = cmp(K_EQ, extract(r, N - st, st), cst(0, st));
        r = ite(z, bin(K_SHL, r, cst(st, N)), r);
        lz = ite(z, bin(K_ADD, lz, cst(st, E)), lz);
    }
    Expr* ex = bin(K_SUB, cst(bias + N - 1, E), lz);
    Expr* body = concat(ex, extract(r, N - 1 - M, M)); // exponent and mantissa
    if (n > M + 1) {
        unsigned low = N - 1 - M; // dropped bits
        Expr* guard = extract(r, low - 1, 1);
        Expr* sticky = low > 1 ? lnot(cmp(K_EQ, extract(r, 0, low - 1), cst(0, low - 1))) : fls();
        Expr* odd = extract(r, low, 1);
        body = bin(K_ADD, body, zext(land(guard, lor(sticky, odd)), E + M));
    }
    body = ite(cmp(K_EQ, mag, cst(0, n)), cst(0, E + M), body);
    return concat(neg, body);
}

// float to double, exact
Expr* ExprPool::widen(Expr* a)
{
    Expr *s = extract(a, 31, 1), *e = extract(a, 23, 8), *m = extract(a, 0, 23);
    Expr* norm = concat(bin(K_ADD, zext(e, 11), cst(1023 - 127, 11)), concat(m, cst(0, 29)));
    Expr* special = concat(cst(2047, 11), concat(bin(K_OR, m, ite(cmp(K_EQ, m, cst(0, 23)), cst(0, 23), cst(1u << 22, 23))), cst(0, 29)));
    // subnormal: normalise the 23 bit mantissa
    Expr* r = zext(m, 32);
    Expr* lz = cst(0, 11);
    for (unsigned st = 16; st; st /= 2) {
        Expr* z = cmp(K_EQ, extract(r, 32 - st, st), cst(0, st));
        r = ite(z, bin(K_SHL, r, cst(st, 32)), r);
        lz = ite(z, bin(K_ADD, lz, cst(st, 11)), lz);
    }
    // value = m * 2^-149; leading bit at position 31 - lz
    Expr* sub = concat(bin(K_SUB, cst(1023 - 149 + 31, 11), lz), concat(extract(r, 0, 31), cst(0, 21)));
    Expr* z = cmp(K_EQ, m, cst(0, 23));
    Expr* body = ite(cmp(K_EQ, e, cst(0, 8)), ite(z, cst(0, 63), sub), ite(cmp(K_EQ, e, cst(255, 8)), special, norm));
    return concat(s, body);
}

// Exact comparison of converted values: integers through a common wide signed integer, floats on their own bits.
Expr* ExprPool::fcmp80(unsigned p, Expr* a, Expr* b)
{
    auto isInt = [](Expr* e) { return e->kind == K_SITOF || e->kind == K_UITOF; };
    auto wide = [&](Expr* e) { return e->kind == K_SITOF ? sext(e->k[0], 68) : zext(e->k[0], 68); };
    Expr *un = fls(), *lt, *gt, *eq;
    // constants that are integers or doubles
    auto simp = [&](Expr* e) -> Expr* {
        if (!isC(e)) return e;
        long double d = asL(cv(e));
        if (d != d) return e;
        if (d == (long double)(double)d) { double x = (double)d; uint64_t u; memcpy(&u, &x, 8); return mk(K_FTOF, 80, cst(u, 64)); }
        if (d >= -0x1p63L && d < 0x1p63L && d == (long double)(long long)d) return mk(K_SITOF, 80, cst((u128)(unsigned long long)(long long)d, 64));
        if (d >= 0 && d < 0x1p64L && d == (long double)(unsigned long long)d) return mk(K_UITOF, 80, cst((u128)(unsigned long long)d, 64));
        return e;
    };
    a = simp(a);
    b = simp(b);
    auto nanOf = [&](Expr* e) -> Expr* {
        if (isInt(e)) return fls();
        if (e->kind == K_FTOF) return fisnan(e->k[0]);
        long double d = asL(cv(e));
        return cst(d != d, 1);
    };
    un = lor(nanOf(a), nanOf(b));
    if (isInt(a) && isInt(b)) {
        lt = cmp(K_SLT, wide(a), wide(b));
        gt = cmp(K_SLT, wide(b), wide(a));
        eq = cmp(K_EQ, wide(a), wide(b));
    }
    else if (a->kind == K_FTOF && b->kind == K_FTOF && a->k[0]->width == b->k[0]->width) {
        lt = fcmp_lt(a->k[0], b->k[0], false);
        gt = fcmp_lt(b->k[0], a->k[0], false);
        eq = fcmp_eq(a->k[0], b->k[0]);
    }
    else if (a->kind == K_FTOF && b->kind == K_FTOF && a->k[0]->width < 80 && b->k[0]->width < 80) {
        Expr *x = fop(K_FTOF, 64, a->k[0]), *y = fop(K_FTOF, 64, b->k[0]);
        if (a->k[0]->width == 64) x = a->k[0];
        if (b->k[0]->width == 64) y = b->k[0];
        lt = fcmp_lt(x, y, false);
        gt = fcmp_lt(y, x, false);
        eq = fcmp_eq(x, y);
    }
    else if ((isInt(a) && b->kind == K_FTOF && b->k[0]->width < 80) || (isInt(b) && a->kind == K_FTOF && a->k[0]->width < 80)) {
        bool sw = isInt(b);
        Expr *i = wide(sw ? b : a), *f = (sw ? a : b)->k[0], *frac, *big;
        Expr* t = sext(ftoi(f, 66, &frac, &big), 68);
        Expr* neg = extract(f, f->width - 1, 1);
        Expr* same = cmp(K_EQ, i, t);
        Expr* il = ite(big, lnot(neg), lor(cmp(K_SLT, i, t), land(same, land(frac, lnot(neg))))); // i < f
        Expr* ig = ite(big, neg, lor(cmp(K_SLT, t, i), land(same, land(frac, neg))));
        eq = land(lnot(big), land(same, lnot(frac)));
        lt = sw ? ig : il;
        gt = sw ? il : ig;
    }
    else {
        lt = mk(K_FLT, 1, a, b);
        gt = mk(K_FLT, 1, b, a);
        eq = mk(K_FEQ, 1, a, b);
    }
    Expr* r = fls();
    // LLVM predicate bits: 1 = eq, 2 = gt, 4 = lt, 8 = unordered
    if (p & 1) r = lor(r, eq);
    if (p & 2) r = lor(r, gt);
    if (p & 4) r = lor(r, lt);
    r = land(r, lnot(un));
    if (p & 8) r = lor(r, un);
    return r;
}

Expr* ExprPool::fisnan(Expr* a)
{
    unsigned w = a->width;
    unsigned e = w == 64 ? 11 : 8, m = w - 1 - e;
    Expr* abs = extract(a, 0, w - 1);
    return cmp(K_ULT, cst(((((u128)1 << e) - 1) << m), w - 1), abs);
}

Expr* ExprPool::fcmp_lt(Expr* a, Expr* b, bool orEq)
{
    unsigned w = a->width;
    Expr* ordered = land(lnot(fisnan(a)), lnot(fisnan(b)));
    Expr* absA = extract(a, 0, w - 1);
    Expr* absB = extract(b, 0, w - 1);
    Expr* z = cst(0, w - 1);
    Expr* bothZero = land(cmp(K_EQ, absA, z), cmp(K_EQ, absB, z));
    Expr* sa = extract(a, w - 1, 1);
    Expr* sb = extract(b, w - 1, 1);
    Expr* lt = ite(sa, ite(sb, cmp(K_ULT, absB, absA), lnot(bothZero)), ite(sb, fls(), cmp(K_ULT, absA, absB)));
    if (orEq) lt = lor(lt, lor(bothZero, cmp(K_EQ, a, b)));
    return land(ordered, lt);
}

Expr* ExprPool::fcmp_eq(Expr* a, Expr* b)
{
    unsigned w = a->width;
    Expr* ordered = land(lnot(fisnan(a)), lnot(fisnan(b)));
    Expr* z = cst(0, w - 1);
    Expr* bothZero = land(cmp(K_EQ, extract(a, 0, w - 1), z), cmp(K_EQ, extract(b, 0, w - 1), z));
    return land(ordered, lor(bothZero, cmp(K_EQ, a, b)));
}

u128 ExprPool::eval(Expr* e, const Model& m) { return evalRec(e, m); }

u128 ExprPool::evalRec(Expr* e, const Model& m)
{
    if (e->kind == K_CONST) return cv(e);
    if (e->kind == K_VAR) return m.get((uint32_t)e->val) & maskw(e->width);
    if (e->evEpoch == epoch) return ((u128)e->evHi << 64) | e->evLo;
    u128 r = 0;
    switch (e->kind) {
        case K_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
        case K_CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->width) | evalRec(e->k[1], m); break;
        case K_EXTRACT: r = (evalRec(e->k[0], m) >> (unsigned)e->val) & maskw128(e->width); break;
        case K_ZEXT: r = evalRec(e->k[0], m); break;
        case K_SEXT: r = (u128)sextw128(evalRec(e->k[0], m), e->k[0]->width) & maskw128(e->width); break;
        case K_NOT: r = !evalRec(e->k[0], m); break;
        case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = foldCmp(e->kind, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->width); break;
        case K_AND: if (e->width == 1) { r = evalRec(e->k[0], m) && evalRec(e->k[1], m); break; } r = evalRec(e->k[0], m) & evalRec(e->k[1], m); break;
        default:
            if (e->kind >= K_FLT) { long double x = asL(evalRec(e->k[0], m)), y = asL(evalRec(e->k[1], m)); r = e->kind == K_FLT ? x < y : e->kind == K_FLE ? x <= y : x == y; }
            else if (e->kind >= K_FADD) r = foldFp(e->kind, e->width, evalRec(e->k[0], m), e->k[0]->width, e->k[1] ? evalRec(e->k[1], m) : 0);
            else r = foldBin(e->kind, evalRec(e->k[0], m), evalRec(e->k[1], m), e->width);
    }
    e->evEpoch = epoch;
    e->evLo = (uint64_t)r;
    e->evHi = (uint64_t)(r >> 64);
    return r;
}

static const char* kn[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "not", "fadd", "fsub", "fmul", "fdiv", "ftosi", "ftoui", "sitof", "uitof", "ftof", "flt", "fle", "feq" };

std::string ExprPool::str(Expr* e, int d)
{
    std::ostringstream o;
    if (isC(e)) { o << (uint64_t)e->val << ":" << e->width; return o.str(); }
    if (e->kind == K_VAR) return vars[e->val].name + "#" + std::to_string(e->val);
    if (d == 0) return "...";
    o << "(" << kn[e->kind] << e->width;
    if (e->kind == K_EXTRACT) o << "@" << e->val;
    for (int i = 0; i < 3; ++i)
        if (e->k[i]) o << " " << str(e->k[i], d - 1);
    o << ")";
    return o.str();
}

Expr* ExprPool::subst(Expr* e, std::unordered_map<Expr*, Expr*>& m)
{
    if (e->kind == K_CONST || !e->vars->v.size()) return e;
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    Expr* r = e;
    if (e->kind != K_VAR) {
        Expr *a = e->k[0] ? subst(e->k[0], m) : nullptr, *b = e->k[1] ? subst(e->k[1], m) : nullptr, *c = e->k[2] ? subst(e->k[2], m) : nullptr;
        if (a != e->k[0] || b != e->k[1] || c != e->k[2]) switch (e->kind) {
            case K_NOT: r = lnot(a); break;
            case K_CONCAT: r = concat(a, b); break;
            case K_EXTRACT: r = extract(a, (unsigned)e->val, e->width); break;
            case K_ZEXT: r = zext(a, e->width); break;
            case K_SEXT: r = sext(a, e->width); break;
            case K_ITE: r = ite(a, b, c); break;
            case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = cmp(e->kind, a, b); break;
            default: r = e->kind >= K_FADD ? (isC(a) && (!b || isC(b)) && e->kind < K_FLT ? fop(e->kind, e->width, a, b) : mk(e->kind, e->width, a, b)) : bin(e->kind, a, b);
        }
    }
    m[e] = r;
    return r;
}
