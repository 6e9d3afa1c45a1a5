#include "solver.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

static void onErr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

void Solver::init()
{
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); // terms live as long as the context: the translation nests calls without holding references
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    slv = nullptr;
}

static void setParams(Z3_context ctx, Z3_solver s, unsigned ms)
{
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}

Z3_sort Solver::fpsort(unsigned w)
{
    if (w == 64) return Z3_mk_fpa_sort_double(ctx);
    if (w == 32) return Z3_mk_fpa_sort_single(ctx);
    return Z3_mk_fpa_sort(ctx, 15, 64); // x87: same exponent range and precision, explicit integer bit dropped
}

Z3_ast Solver::toFp(Expr* e)
{
    if (e->width == 80) {
        auto bv = [&](Expr* x) -> Z3_ast {
            Z3_ast t = tr(x);
            if (x->width != 1) return t;
            return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
        };
        Z3_sort so = fpsort(80);
        if (e->kind == K_SITOF) return Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), bv(e->k[0]), so);
        if (e->kind == K_UITOF) return Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), bv(e->k[0]), so);
        if (e->kind == K_FTOF) return Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), toFp(e->k[0]), so);
        if (e->kind == K_CONST) {
            Z3_ast sg = Z3_mk_unsigned_int64(ctx, (e->hi >> 15) & 1, Z3_mk_bv_sort(ctx, 1));
            Z3_ast ex = Z3_mk_unsigned_int64(ctx, e->hi & 0x7fff, Z3_mk_bv_sort(ctx, 15));
            Z3_ast fr = Z3_mk_unsigned_int64(ctx, e->val & 0x7fffffffffffffffull, Z3_mk_bv_sort(ctx, 63));
            return Z3_mk_fpa_fp(ctx, sg, ex, fr);
        }
        fprintf(stderr, "engine: unsupported x87 expression\n");
        abort();
    }
    return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fpsort(e->width));
}

bool Solver::hasFp(Expr* e)
{
    if (e->kind >= K_FADD) return true;
    if (e->kind <= K_VAR) return false;
    auto it = fpMemo.find(e);
    if (it != fpMemo.end()) return it->second;
    bool r = false;
    for (int i = 0; i < 3 && !r; ++i)
        if (e->k[i]) r = hasFp(e->k[i]);
    fpMemo[e] = r;
    return r;
}

Z3_ast Solver::tr(Expr* e)
{
    if (e->ast) return (Z3_ast)e->ast;
    Z3_ast r = nullptr;
    if (e->kind == K_FLT || e->kind == K_FLE || e->kind == K_FEQ) {
        Z3_ast x = toFp(e->k[0]), y = toFp(e->k[1]);
        r = e->kind == K_FLT ? Z3_mk_fpa_lt(ctx, x, y) : e->kind == K_FLE ? Z3_mk_fpa_leq(ctx, x, y) : Z3_mk_fpa_eq(ctx, x, y);
        Z3_inc_ref(ctx, r);
        e->ast = r;
        return r;
    }
    Z3_ast a = e->k[0] ? tr(e->k[0]) : nullptr;
    Z3_ast b = e->k[1] ? tr(e->k[1]) : nullptr;
    Z3_ast c = e->k[2] ? tr(e->k[2]) : nullptr;
    bool w1 = e->width == 1;
    // width-1 values are Z3 Bools; other widths are bit-vectors
    auto bv = [&](Expr* x, Z3_ast t) -> Z3_ast {
        if (x->width != 1) return t;
        return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
    };
    auto tobool = [&](Z3_ast t) { return Z3_mk_eq(ctx, t, Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
    switch (e->kind) {
        case K_CONST:
            if (w1) r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
            else if (e->width <= 64) r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->width));
            else {
                Z3_ast lo = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, 64));
                Z3_ast hi = Z3_mk_unsigned_int64(ctx, e->hi, Z3_mk_bv_sort(ctx, e->width - 64));
                r = Z3_mk_concat(ctx, hi, lo);
            }
            break;
        case K_VAR: {
            char nm[32];
            snprintf(nm, sizeof nm, "v%llu", (unsigned long long)e->val);
            Z3_sort s = w1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->width);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), s);
            break;
        }
        case K_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
        case K_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
        case K_AND: { Z3_ast x[2] = { a, b }; r = w1 ? Z3_mk_and(ctx, 2, x) : Z3_mk_bvand(ctx, a, b); break; }
        case K_OR: { Z3_ast x[2] = { a, b }; r = w1 ? Z3_mk_or(ctx, 2, x) : Z3_mk_bvor(ctx, a, b); break; }
        case K_XOR: r = w1 ? Z3_mk_xor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
        case K_CONCAT: r = Z3_mk_concat(ctx, bv(e->k[0], a), bv(e->k[1], b)); break;
        case K_EXTRACT:
            r = Z3_mk_extract(ctx, (unsigned)e->val + e->width - 1, (unsigned)e->val, a);
            if (w1) r = tobool(r);
            break;
        case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, bv(e->k[0], a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, bv(e->k[0], a)); break;
        case K_ITE: r = Z3_mk_ite(ctx, a, b, c); break;
        case K_EQ: r = Z3_mk_eq(ctx, a, b); break;
        case K_ULT: r = Z3_mk_bvult(ctx, bv(e->k[0], a), bv(e->k[1], b)); break;
        case K_ULE: r = Z3_mk_bvule(ctx, bv(e->k[0], a), bv(e->k[1], b)); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, bv(e->k[0], a), bv(e->k[1], b)); break;
        case K_SLE: r = Z3_mk_bvsle(ctx, bv(e->k[0], a), bv(e->k[1], b)); break;
        case K_NOT: r = Z3_mk_not(ctx, a); break;
        case K_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), toFp(e->k[0]), toFp(e->k[1]))); break;
        case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), toFp(e->k[0]), toFp(e->k[1]))); break;
        case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), toFp(e->k[0]), toFp(e->k[1]))); break;
        case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), toFp(e->k[0]), toFp(e->k[1]))); break;
        case K_FTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toFp(e->k[0]), e->width); break;
        case K_FTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toFp(e->k[0]), e->width); break;
        case K_SITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), bv(e->k[0], a), fpsort(e->width))); break;
        case K_UITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), bv(e->k[0], a), fpsort(e->width))); break;
        case K_FLT: case K_FLE: case K_FEQ: break;
        case K_FTOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), toFp(e->k[0]), fpsort(e->width))); break;
    }
    Z3_inc_ref(ctx, r);
    e->ast = r;
    return r;
}

// Order reasoning: unsigned comparisons between terms treated as opaque numbers. Infeasible bounds prove UNSAT (the other
// constraints can only restrict further); a candidate solution counts only after every constraint evaluates to true under it.
struct Ord {
    struct Node { Expr* e; __int128 lo, hi; };
    struct Edge { int x, y, d; }; // x + d <= y
    std::vector<Node> n;
    std::vector<Edge> ed;
    std::vector<std::pair<int, int>> ne;
    std::vector<std::pair<int, uint64_t>> nec;
    struct Top { int h, p, l; unsigned s; }; // h: the bits of p from s upwards; l: those below, or -1
    static bool halves(Expr* a, Expr* b) { return a->kind == K_EXTRACT && b->kind == K_EXTRACT && a->k[0] == b->k[0] && b->val == 0 && a->val == b->width && a->val + a->width == a->k[0]->width && a->k[0]->width <= 64; }
    std::vector<std::pair<int, int>> eqs;
    std::vector<Top> tops;
    bool bad = false;
    // relates terms to their leading bits
    void slices()
    {
        for (size_t i = 0; i < n.size(); ++i) {
            Expr* e = n[i].e;
            if (e->kind == K_EXTRACT && e->val && e->val + e->width == e->k[0]->width && e->k[0]->width <= 64) { int p = node(e->k[0]); tops.push_back({ (int)i, p, -1, (unsigned)e->val }); }
            else if (e->kind == K_CONCAT && e->k[0]->kind != K_CONST && e->k[0]->width > 1) { int h = node(e->k[0]); tops.push_back({ h, (int)i, -1, e->k[1]->width }); }
        }
        for (size_t i = 0; i < n.size(); ++i) {
            Expr* e = n[i].e;
            for (auto& t : tops) {
                Expr* p = n[t.p].e;
                if (e->width == t.s && (p->kind == K_CONCAT ? e == p->k[1] : e->kind == K_EXTRACT && !e->val && e->k[0] == p)) t.l = (int)i;
            }
        }
        // equal halves make equal terms
        for (auto& x : tops)
            for (auto& y : tops) {
                if (x.p >= y.p || x.s != y.s || x.l < 0 || y.l < 0) continue;
                auto eq = [&](int a, int b) { for (auto& q : eqs) if ((q.first == a && q.second == b) || (q.first == b && q.second == a)) return true; return false; };
                if (eq(x.h, y.h) && eq(x.l, y.l)) { ed.push_back({ x.p, y.p, 0 }); ed.push_back({ y.p, x.p, 0 }); }
            }
        size_t m = ed.size();
        for (size_t i = 0; i < m; ++i)
            for (auto& x : tops)
                for (auto& y : tops) {
                    if (x.s != y.s) continue;
                    if (ed[i].x == x.h && ed[i].y == y.h && ed[i].d == 1) ed.push_back({ x.p, y.p, 1 });
                    if (ed[i].x == x.p && ed[i].y == y.p && ed[i].d >= 0) ed.push_back({ x.h, y.h, 0 });
                }
    }
    int node(Expr* e)
    {
        for (size_t i = 0; i < n.size(); ++i)
            if (n[i].e == e) return (int)i;
        n.push_back({ e, 0, e->width >= 64 ? (__int128)UINT64_MAX : ((__int128)1 << e->width) - 1 });
        return (int)n.size() - 1;
    }
    static Expr* strip(Expr* e) { while (e->kind == K_ZEXT && e->k[0]->width > 1) e = e->k[0]; return e; }
    void le(Expr* a, Expr* b, int d) // a + d <= b
    {
        if (a->width > 64) return;
        a = strip(a);
        b = strip(b);
        if (a->kind == K_CONST && b->kind == K_CONST) { if ((__int128)a->val + d > (__int128)b->val) bad = true; return; }
        if (a->kind == K_CONST) { int y = node(b); if (n[y].lo < (__int128)a->val + d) n[y].lo = (__int128)a->val + d; return; }
        if (b->kind == K_CONST) { int x = node(a); if (n[x].hi > (__int128)b->val - d) n[x].hi = (__int128)b->val - d; return; }
        int x = node(a), y = node(b);
        ed.push_back({ x, y, d });
    }
    void add(Expr* c, bool pos)
    {
        switch (c->kind) {
            case K_NOT: add(c->k[0], !pos); break;
            case K_AND: if (c->width != 1) break;
                if (pos) { add(c->k[0], true); add(c->k[1], true); }
                else if (c->k[0]->kind == K_EQ && c->k[1]->kind == K_EQ) { // a term differs from a constant, half by half
                    Expr *x = c->k[0], *y = c->k[1];
                    for (int s = 0; s < 2; ++s, std::swap(x, y))
                        for (int i = 0; i < 4; ++i) {
                            Expr *h = x->k[i & 1], *hc = x->k[1 - (i & 1)], *l = y->k[i >> 1], *lc = y->k[1 - (i >> 1)];
                            if (hc->kind == K_CONST && lc->kind == K_CONST && halves(h, l)) nec.push_back({ node(h->k[0]), (hc->val << l->width) | lc->val });
                        }
                }
                break;
            case K_OR: if (!pos && c->width == 1) { add(c->k[0], false); add(c->k[1], false); } break;
            case K_ULT: if (pos) le(c->k[0], c->k[1], 1); else le(c->k[1], c->k[0], 0); break;
            case K_ULE: if (pos) le(c->k[0], c->k[1], 0); else le(c->k[1], c->k[0], 1); break;
            case K_EQ: {
                Expr *a = c->k[0], *b = c->k[1];
                if (a->width == 1 || a->width > 64) break;
                if (pos) { le(a, b, 0); le(b, a, 0); a = strip(a); b = strip(b); if (a->kind != K_CONST && b->kind != K_CONST) { int x = node(a), y = node(b); eqs.push_back({ x, y }); } break; }
                a = strip(a);
                b = strip(b);
                if (a->kind == K_CONST) std::swap(a, b);
                if (a->kind == K_CONST) break;
                if (b->kind == K_CONST) nec.push_back({ node(a), b->val });
                else { int x = node(a), y = node(b); ne.push_back({ x, y }); }
                break;
            }
            default: break;
        }
    }
    // least (or greatest) solution; false: none
    bool close()
    {
        for (size_t r = 0; r <= n.size() + 1; ++r) {
            bool ch = false;
            for (auto& e : ed) {
                if (n[e.y].lo < n[e.x].lo + e.d) { n[e.y].lo = n[e.x].lo + e.d; ch = true; }
                if (n[e.x].hi > n[e.y].hi - e.d) { n[e.x].hi = n[e.y].hi - e.d; ch = true; }
            }
            for (auto& p : nec) {
                Node& v = n[p.first];
                if (v.lo == (__int128)p.second) { ++v.lo; ch = true; }
                if (v.hi == (__int128)p.second) { --v.hi; ch = true; }
            }
            for (auto& t : tops) {
                Node &h = n[t.h], &p = n[t.p];
                auto up = [&](__int128& a, __int128 v) { if (a < v) { a = v; ch = true; } };
                auto dn = [&](__int128& a, __int128 v) { if (a > v) { a = v; ch = true; } };
                if (h.lo > h.hi || p.lo > p.hi || p.lo < 0 || p.hi < 0) continue;
                __int128 ll = 0, lh = ((__int128)1 << t.s) - 1;
                if (t.l >= 0) { ll = n[t.l].lo; lh = n[t.l].hi; if (ll > lh || ll < 0) continue; }
                up(p.lo, (h.lo << t.s) + ll);
                dn(p.hi, (h.hi << t.s) + lh);
                if (t.l >= 0 && h.lo == h.hi) { up(n[t.l].lo, p.lo - (h.lo << t.s)); dn(n[t.l].hi, p.hi - (h.lo << t.s)); }
                up(h.lo, p.lo >> t.s);
                dn(h.hi, p.hi >> t.s);
            }
            for (auto& v : n)
                if (v.lo > v.hi) return false;
            if (!ch) return true;
        }
        return !tops.empty() || !nec.empty(); // otherwise, still moving after |n| rounds means a positive cycle
    }
};

static void putBits(Expr* e, uint64_t v, Model& m)
{
    switch (e->kind) {
        case K_VAR: m.set((uint32_t)e->val, v); break;
        case K_ZEXT: putBits(e->k[0], v, m); break;
        case K_SEXT: putBits(e->k[0], e->k[0]->width >= 64 ? v : v & ((1ull << e->k[0]->width) - 1), m); break;
        case K_CONCAT: { unsigned w = e->k[1]->width; if (w < 64) { putBits(e->k[0], v >> w, m); putBits(e->k[1], v & ((1ull << w) - 1), m); } break; }
        case K_EXTRACT: { Expr* x = e->k[0]; if (x->kind == K_VAR && x->width <= 64) { uint64_t mk = (e->width >= 64 ? ~0ull : (1ull << e->width) - 1) << e->val; m.set((uint32_t)x->val, (m.get((uint32_t)x->val) & ~mk) | ((v << e->val) & mk)); } break; }
        case K_ADD: { uint64_t mk = e->width >= 64 ? ~0ull : (1ull << e->width) - 1; for (int i = 0; i < 2; ++i) if (e->k[i]->kind == K_CONST) { putBits(e->k[1 - i], (v - e->k[i]->val) & mk, m); break; } break; }
        case K_XOR: for (int i = 0; i < 2; ++i) if (e->k[i]->kind == K_CONST && e->width > 1) { putBits(e->k[1 - i], v ^ e->k[i]->val, m); break; } break;
        default: break;
    }
}

Sat Solver::order(const std::vector<Expr*>& cs, const Model& base, Model* out)
{
    Ord o;
    for (auto* c : cs) o.add(c, true);
    if (o.bad) return S_UNSAT;
    o.slices();
    if (!o.close()) return S_UNSAT;
    { // few assignments possible: try them all
        struct Dom { uint32_t v; uint64_t lo, n, fix, free; };
        std::vector<Dom> ds;
        uint64_t tot = 1;
        for (auto* c : cs)
            for (auto v : c->vars->v) {
                bool seen = false;
                for (auto& d : ds) if (d.v == v) { seen = true; break; }
                if (seen || tot > 70000) continue;
                uint64_t fixed = 0, val = 0;
                for (auto& x : o.n)
                    if (x.e->kind == K_EXTRACT && x.e->k[0]->kind == K_VAR && x.e->k[0]->val == v && x.lo == x.hi) { fixed |= maskw(x.e->width) << x.e->val; val |= (uint64_t)x.lo << x.e->val; }
                uint64_t lo = 0, n = X.vars[v].width >= 12 ? 1000000 : 1ull << X.vars[v].width;
                for (auto& x : o.n)
                    if (x.e->kind == K_VAR && x.e->val == v && x.hi - x.lo < 4096) { lo = (uint64_t)x.lo; n = (uint64_t)(x.hi - x.lo) + 1; }
                uint64_t fr = maskw(X.vars[v].width) & ~fixed;
                int nb = __builtin_popcountll(fr);
                if (fixed && nb < 13 && 1ull << nb < n) { n = 1ull << nb; lo = val; }
                else fr = 0;
                ds.push_back({ v, lo, n, fr != 0, fr });
                tot *= n;
            }
        if (tot <= 70000) {
            Model m = base;
            std::vector<Expr*> ord = cs;
            for (uint64_t i = 0; i < tot; ++i) {
                uint64_t j = i;
                for (auto& d : ds) {
                    uint64_t x = j % d.n, y = d.lo;
                    j /= d.n;
                    if (!d.fix) y += x;
                    else for (uint64_t f = d.free; f; f &= f - 1, x >>= 1) if (x & 1) y |= f & -f;
                    m.set(d.v, y);
                }
                X.newEpoch();
                bool ok = true;
                for (size_t k = 0; ok && k < ord.size(); ++k)
                    if (!X.eval(ord[k], m)) { ok = false; if (k) std::swap(ord[k], ord[k / 2]); }
                if (ok) { X.newEpoch(); *out = m; return S_SAT; }
            }
            X.newEpoch();
            return S_UNSAT;
        }
    }
    for (int t = 0; t < 3; ++t) {
        Ord q = o;
        bool ok = true;
        // make the disequalities true by raising lower bounds (or lowering upper bounds)
        for (int it = 0; ok && it < 24; ++it) {
            bool ch = false;
            for (auto& p : q.nec)
                if (t != 1 ? q.n[p.first].lo == (__int128)p.second : q.n[p.first].hi == (__int128)p.second) { t != 1 ? ++q.n[p.first].lo : --q.n[p.first].hi; ch = true; }
            for (auto& p : q.ne)
                if (t != 1 ? q.n[p.first].lo == q.n[p.second].lo : q.n[p.first].hi == q.n[p.second].hi) {
                    int w = t == 2 ? p.second : p.first;
                    t != 1 ? ++q.n[w].lo : --q.n[w].hi;
                    ch = true;
                }
            if (!ch) break;
            ok = q.close();
        }
        if (!ok) continue;
        Model m = base;
        std::vector<char> part(q.n.size(), 0);
        for (auto& t : q.tops) { part[t.h] = 1; if (t.l >= 0) part[t.l] = 1; }
        for (size_t i = 0; i < q.n.size(); ++i)
            if (!part[i]) putBits(q.n[i].e, (uint64_t)(t != 1 ? q.n[i].lo : q.n[i].hi), m);
        X.newEpoch();
        for (size_t j = 0; ok && j < cs.size(); ++j)
            if (!X.eval(cs[j], m)) ok = false;
        X.newEpoch();
        if (ok) { *out = m; return S_SAT; }
    }
    return S_UNKNOWN;
}

bool Solver::hasMul(Expr* e)
{
    if (e->kind == K_MUL) return !isC(e->k[1]) || e->width > 16;
    if (e->kind >= K_UDIV && e->kind <= K_SREM) return !isC(e->k[1]);
    if (e->kind <= K_VAR || e->kind >= K_FADD) return false;
    auto it = mulMemo.find(e);
    if (it != mulMemo.end()) return it->second;
    bool r = false;
    for (int i = 0; i < 3 && !r; ++i)
        if (e->k[i]) r = hasMul(e->k[i]);
    mulMemo[e] = r;
    return r;
}

// Products (hash functions) are easy to evaluate and hard to invert. Three steps before they are handed to the SMT solver:
// equalities are used to eliminate variables; products are abstracted to unknowns, refined with instances at the models
// found (no solution for the abstraction: none for the query); satisfying assignments are looked for by local search, and
// evaluated against every constraint.
Sat Solver::viaEqualities(std::vector<Expr*>& cs, const Model& base, Model* out)
{
    std::vector<std::pair<uint32_t, Expr*>> done;
    std::unordered_set<Expr*> terms;
    auto finish = [&](Model& m) {
        for (size_t i = done.size(); i-- > 0;) { X.newEpoch(); uint64_t v = (uint64_t)X.eval(done[i].second, m); m.set(done[i].first, v); }
        X.newEpoch();
    };
    for (int round = 0; round < 40; ++round) {
        Expr *var = nullptr, *by = nullptr;
        auto take = [&](Expr* a, Expr* b) {
            for (int t = 0; t < 2 && !var; ++t, std::swap(a, b))
                if (a->kind == K_VAR && !std::binary_search(b->vars->v.begin(), b->vars->v.end(), (uint32_t)a->val)) { var = a; by = b; }
        };
        std::vector<Expr*> todo = cs;
        for (size_t i = 0; i < todo.size() && !var; ++i) {
            Expr* c = todo[i];
            if (c->kind == K_EQ) take(c->k[0], c->k[1]);
            else if (c->kind == K_AND) { todo.push_back(c->k[0]); todo.push_back(c->k[1]); }
            else if (c->kind == K_VAR) { var = c; by = X.tru(); }
            else if (c->kind == K_NOT && c->k[0]->kind == K_VAR) { var = c->k[0]; by = X.fls(); }
            else if (c->kind == K_ULE || (c->kind == K_NOT && c->k[0]->kind == K_ULT)) {
                Expr *x = c->kind == K_ULE ? c->k[0] : c->k[0]->k[1], *y = c->kind == K_ULE ? c->k[1] : c->k[0]->k[0];
                for (auto* d : todo) {
                    Expr *p = nullptr, *q = nullptr;
                    if (d->kind == K_ULE) { p = d->k[0]; q = d->k[1]; }
                    else if (d->kind == K_NOT && d->k[0]->kind == K_ULT) { p = d->k[0]->k[1]; q = d->k[0]->k[0]; }
                    if (p == y && q == x) { take(x, y); break; }
                }
            }
        }
        if (!var) { // a term equal to a constant
            Expr* t = nullptr;
            for (auto* c : todo)
                if (c->kind == K_EQ && isC(c->k[1]) && terms.insert(c->k[0]).second) { t = c; break; }
            if (!t) break;
            std::unordered_map<Expr*, Expr*> m;
            m[t->k[0]] = t->k[1];
            std::vector<Expr*> n;
            n.push_back(t);
            for (auto* c : cs) {
                if (c == t) continue;
                Expr* r = X.subst(c, m);
                if (isC(r)) { if (!r->val) return S_UNSAT; continue; }
                n.push_back(r);
            }
            std::sort(n.begin(), n.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
            n.erase(std::unique(n.begin(), n.end()), n.end());
            cs.swap(n);
            continue;
        }
        std::unordered_map<Expr*, Expr*> m;
        m[var] = by;
        done.push_back({ (uint32_t)var->val, by });
        std::vector<Expr*> n;
        for (auto* c : cs) {
            Expr* r = X.subst(c, m);
            if (isC(r)) { if (!r->val) return S_UNSAT; continue; }
            n.push_back(r);
        }
        std::sort(n.begin(), n.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
        n.erase(std::unique(n.begin(), n.end()), n.end());
        cs.swap(n);
    }
    Model m = base;
    Sat r = S_SAT;
    if (!cs.empty()) {
        bool mul = false;
        for (auto* c : cs) if (hasMul(c)) { mul = true; break; }
        r = order(cs, base, &m);
        if (r == S_UNKNOWN && mul) {
            if (witness(cs, base, &m)) r = S_SAT;
            else r = abstracted(cs, base, &m);
        }
        if (r == S_UNKNOWN) {
            std::vector<std::pair<uint32_t, uint64_t>> asg;
            r = rawCheck(cs, &asg);
            m = base;
            for (auto& p : asg) m.set(p.first, p.second);
        }
    }
    if (r == S_SAT) { finish(m); *out = m; }
    return r;
}

void Solver::products(Expr* e, std::vector<Expr*>& out, std::unordered_set<Expr*>& seen)
{
    if (!hasMul(e) || !seen.insert(e).second) return;
    for (int i = 0; i < 3; ++i)
        if (e->k[i]) products(e->k[i], out, seen);
    if (e->kind == K_MUL) out.push_back(e);
}

Sat Solver::abstracted(const std::vector<Expr*>& cs, const Model& base, Model* out)
{
    std::vector<Expr*> ps;
    std::unordered_set<Expr*> seen;
    for (auto* c : cs) products(c, ps, seen); // inner products first
    std::unordered_map<Expr*, Expr*> m;
    struct P { Expr *e, *u, *a, *b; };
    std::vector<P> pr;
    for (auto* p : ps) {
        Expr *a = X.subst(p->k[0], m), *b = X.subst(p->k[1], m);
        Expr*& u = prodVar[p];
        if (!u) u = p->width <= 64 ? X.var("product", p->width) : X.concat(X.var("product", p->width - 64), X.var("product", 64));
        m[p] = u;
        pr.push_back({ p, u, a, b });
    }
    std::vector<Expr*> q;
    for (auto* c : cs) q.push_back(X.subst(c, m));
    // facts about the products: range, and the low part of a wider product of the same operands
    for (auto& p : pr) {
        unsigned w = p.e->width;
        if (w > 64) continue;
        if (p.e->umin) q.push_back(X.cmp(K_ULE, X.cst(p.e->umin, w), p.u));
        if (p.e->umax != maskw(w)) q.push_back(X.cmp(K_ULE, p.u, X.cst(p.e->umax, w)));
        for (auto& o : pr)
            if (o.e->width > w && X.extract(o.a, 0, w) == p.a && X.extract(o.b, 0, w) == p.b)
                q.push_back(X.cmp(K_EQ, p.u, X.extract(o.u, 0, w)));
    }
    for (auto* c : q) if (isC(c) && !c->val) return S_UNSAT;
    for (int round = 0; round < 12; ++round) {
        std::vector<std::pair<uint32_t, uint64_t>> asg;
        std::vector<Expr*> live;
        for (auto* c : q) if (!isC(c)) live.push_back(c);
        Sat r = rawCheck(live, &asg);
        if (r != S_SAT) return r;
        Model w = base;
        for (auto& p : asg) w.set(p.first, p.second);
        X.newEpoch();
        bool ok = true;
        for (size_t i = 0; ok && i < cs.size(); ++i) if (!X.eval(cs[i], w)) ok = false;
        if (ok) { X.newEpoch(); *out = w; return S_SAT; }
        if (witness(cs, w, out)) return S_SAT;
        std::vector<Expr*> lem;
        X.newEpoch();
        for (size_t i = 0; i < pr.size(); ++i) {
            u128 real = X.eval(pr[i].e, w), a = X.eval(pr[i].e->k[0], w), b = X.eval(pr[i].e->k[1], w);
            if (X.eval(pr[i].u, w) == real) continue;
            Expr* at = X.land(X.cmp(K_EQ, pr[i].a, X.cst(a, pr[i].e->width)), X.cmp(K_EQ, pr[i].b, X.cst(b, pr[i].e->width)));
            lem.push_back(X.lor(X.lnot(at), X.cmp(K_EQ, pr[i].u, X.cst(real, pr[i].e->width))));
            for (size_t j = 0; j < pr.size(); ++j)
                if (j != i && pr[j].b == pr[i].b && pr[j].e->width == pr[i].e->width)
                    lem.push_back(X.lor(X.lnot(X.cmp(K_EQ, pr[i].a, pr[j].a)), X.cmp(K_EQ, pr[i].u, pr[j].u)));
        }
        X.newEpoch();
        if (lem.empty()) return S_UNKNOWN;
        for (auto* l : lem) { if (isC(l) && !l->val) return S_UNSAT; q.push_back(l); }
    }
    return S_UNKNOWN;
}

bool Solver::witness(const std::vector<Expr*>& cs, const Model& base, Model* out)
{
    std::vector<uint32_t> vs;
    for (auto* c : cs) vs.insert(vs.end(), c->vars->v.begin(), c->vars->v.end());
    std::sort(vs.begin(), vs.end());
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    if (vs.empty()) return false;
    std::vector<std::vector<Expr*>> by(vs.size());
    for (size_t i = 0; i < vs.size(); ++i)
        for (auto* c : cs) if (std::binary_search(c->vars->v.begin(), c->vars->v.end(), vs[i])) by[i].push_back(c);
    auto rnd = [&] { wrand ^= wrand << 13; wrand ^= wrand >> 7; wrand ^= wrand << 17; return wrand * 0x2545F4914F6CDD1Dull >> 11; };
    Model m = base;
    uint64_t keep = wrand = 0x9e3779b97f4a7c15ull + cs.size(); // same search for the same query
    (void)keep;
    for (int t = 0; t < witnessTries; ++t) {
        X.newEpoch();
        std::vector<Expr*> viol;
        for (auto* c : cs) if (!X.eval(c, m)) viol.push_back(c);
        if (viol.empty()) { X.newEpoch(); *out = m; ++st.witHits; return true; }
        Expr* c = viol[rnd() % viol.size()];
        uint32_t v = c->vars->v[rnd() % c->vars->v.size()];
        size_t vi = std::lower_bound(vs.begin(), vs.end(), v) - vs.begin();
        uint64_t mk = maskw(X.vars[v].width), old = m.get(v), best = old;
        // range left by comparisons with constants and with the other variables
        uint64_t lo = 0, hi = mk;
        for (auto* d : by[vi]) {
            bool neg = d->kind == K_NOT;
            Expr* k = neg ? d->k[0] : d;
            if (k->kind != K_ULT && k->kind != K_ULE) continue;
            Expr *a = k->k[0], *b = k->k[1];
            bool le = (k->kind == K_ULE) != neg; // not (a < b): b <= a
            if (neg) std::swap(a, b);
            auto isV = [&](Expr* e) { return e->kind == K_VAR && e->val == v; };
            if (isV(a) == isV(b)) continue;
            Expr* o = isV(a) ? b : a;
            if (o->kind != K_VAR && o->kind != K_CONST) continue;
            uint64_t x = o->kind == K_CONST ? o->val : m.get((uint32_t)o->val);
            if (isV(a)) { if (!le) { if (!x) continue; --x; } hi = std::min(hi, x); }
            else { if (!le) { if (x == mk) continue; ++x; } lo = std::max(lo, x); }
        }
        if (lo > hi) { lo = 0; hi = mk; }
        size_t bc = SIZE_MAX;
        for (int k = 0; k < 400 && bc; ++k) {
            uint64_t x = rnd() ^ rnd() << 32;
            switch (rnd() % 6) {
                case 0: x = old ^ 1ull << (x & 63); break;
                case 1: x = m.get(vs[x % vs.size()]) + x / 64 % 5 - 2; break;
                case 2: x &= 0xff; break;
                case 3: x = lo + (k & 63) <= hi ? lo + (k & 63) : lo; break;
                default: x = hi - lo == ~0ull ? x : lo + x % (hi - lo + 1);
            }
            x &= mk;
            if (x == old) continue;
            m.set(v, x);
            X.newEpoch();
            size_t n = 0;
            for (auto* d : by[vi]) { if (!X.eval(d, m) && ++n > bc) break; }
            if (n < bc || (n == bc && rnd() % 4 == 0)) { bc = n; best = x; }
        }
        m.set(v, best);
    }
    X.newEpoch();
    return false;
}

Sat Solver::rawCheck(const std::vector<Expr*>& cs, std::vector<std::pair<uint32_t, uint64_t>>* asg)
{
    if (!ctx) init();
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false;
    for (auto* c : cs)
        if (hasFp(c)) { fp = true; break; }
    Z3_solver s;
    if (fp) {
        if (!slvFp) {
            slvFp = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, slvFp);
            setParams(ctx, slvFp, timeoutMs);
        }
        s = slvFp;
    }
    else {
        if (!slv || ++sinceReset > 4000) {
            if (slv) Z3_solver_dec_ref(ctx, slv);
            slv = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, slv);
            setParams(ctx, slv, timeoutMs);
            sinceReset = 0;
        }
        s = slv;
    }
    Z3_solver_push(ctx, s);
    for (auto* c : cs) Z3_solver_assert(ctx, s, tr(c));
    if (!dumpDir.empty() && dumpEvery && (st.queries % dumpEvery) == 0) {
        char fn[256];
        snprintf(fn, sizeof fn, "%s/q%d_%llu.smt2", dumpDir.c_str(), (int)getpid(), (unsigned long long)st.queries);
        if (FILE* f = fopen(fn, "w")) {
            fprintf(f, "(set-logic QF_BV)\n%s\n(check-sat)\n", Z3_solver_to_string(ctx, s));
            fclose(f);
        }
    }
    Z3_lbool r = Z3_solver_check(ctx, s);
    Sat res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNKNOWN;
    if (res == S_SAT && asg) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        std::vector<uint32_t> vs;
        for (auto* c : cs) vs.insert(vs.end(), c->vars->v.begin(), c->vars->v.end());
        std::sort(vs.begin(), vs.end());
        vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        for (auto v : vs) {
            Z3_ast out = nullptr;
            uint64_t x = 0;
            if (Z3_model_eval(ctx, m, tr(X.vars[v].e), true, &out) && out) {
                Z3_inc_ref(ctx, out);
                if (X.vars[v].width == 1) x = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
                else Z3_get_numeral_uint64(ctx, out, &x);
                Z3_dec_ref(ctx, out);
            }
            asg->push_back({ v, x });
        }
        Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, s, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt;
    st.maxTime = std::max(st.maxTime, dt);
    static const char* slow = getenv("SXE_SLOW");
    if (slow && dt > atof(slow)) {
        fprintf(stderr, "slow query %.3f s, %s:\n", dt, res == S_SAT ? "sat" : res == S_UNSAT ? "unsat" : "unknown");
        for (auto* c : cs) fprintf(stderr, "  %s\n", X.str(c, 12).c_str());
    }
    ++st.queries;
    if (res == S_SAT) ++st.sat;
    else if (res == S_UNSAT) ++st.unsat;
    else ++st.unknown;
    return res;
}

Sat Solver::check(const std::vector<Expr*>& pc, Expr* q, const Model& base, Model* out)
{
    if (isC(q)) {
        if (q->val && out) *out = base;
        return q->val ? S_SAT : S_UNSAT;
    }
    // independent slice
    ++markEpoch;
    if (mark.size() < X.vars.size()) mark.resize(X.vars.size() + 64, 0);
    for (auto v : q->vars->v) mark[v] = markEpoch;
    static std::vector<Expr*> slice, rest, rest2;
    slice.clear();
    slice.push_back(q);
    rest = pc;
    bool ch = true;
    while (ch) {
        ch = false;
        rest2.clear();
        for (auto* c : rest) {
            bool hit = false;
            for (auto v : c->vars->v)
                if (mark[v] == markEpoch) { hit = true; break; }
            if (hit) {
                for (auto v : c->vars->v)
                    if (mark[v] != markEpoch) { mark[v] = markEpoch; ch = true; }
                slice.push_back(c);
            }
            else rest2.push_back(c);
        }
        rest.swap(rest2);
    }
    std::sort(slice.begin(), slice.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
    uint64_t h1 = 1469598103934665603ull, h2 = 0x9e3779b97f4a7c15ull;
    for (auto* e : slice) {
        h1 = (h1 ^ e->id) * 1099511628211ull;
        h2 = (h2 + e->id) * 0xff51afd7ed558ccdull;
        h2 ^= h2 >> 29;
    }
    auto it = cache.find({ h1, h2 });
    if (it != cache.end()) {
        ++st.cacheHits;
        if (it->second.res == S_SAT && out) {
            *out = base;
            for (auto& p : it->second.asg) out->set(p.first, p.second);
        }
        return (Sat)it->second.res;
    }
    // recent models
    for (size_t i = 0; i < recent.size(); ++i) {
        auto& r = recent[(recentPos + recent.size() - 1 - i) % recent.size()];
        Model m = base;
        for (auto& p : r) m.set(p.first, p.second);
        X.newEpoch();
        bool ok = true;
        if (!X.eval(q, m)) ok = false;
        for (size_t j = 0; ok && j < slice.size(); ++j)
            if (!X.eval(slice[j], m)) ok = false;
        if (ok) {
            ++st.modelHits;
            Entry e;
            e.res = S_SAT;
            std::vector<uint32_t> vs;
            for (auto* c : slice) vs.insert(vs.end(), c->vars->v.begin(), c->vars->v.end());
            std::sort(vs.begin(), vs.end());
            vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
            for (auto v : vs) e.asg.push_back({ v, m.get(v) });
            if (out) {
                *out = base;
                for (auto& p : e.asg) out->set(p.first, p.second);
            }
            cache[{ h1, h2 }] = std::move(e);
            X.newEpoch();
            return S_SAT;
        }
    }
    X.newEpoch();
    {
        Model m;
        Sat r = order(slice, base, &m);
        if (r != S_UNKNOWN) {
            ++st.orderHits;
            if (r == S_UNSAT && ++orderUnsat % 64 == 1 && (std::none_of(slice.begin(), slice.end(), [this](Expr* c) { return hasMul(c); }) || ++mulUnsat % 32 == 1) && rawCheck(slice, nullptr) == S_SAT) {
                fprintf(stderr, "engine: the order procedure and Z3 disagree\n");
                abort();
            }
            Entry e;
            e.res = r;
            if (r == S_SAT) {
                std::vector<uint32_t> vs;
                for (auto* c : slice) vs.insert(vs.end(), c->vars->v.begin(), c->vars->v.end());
                std::sort(vs.begin(), vs.end());
                vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
                for (auto v : vs) e.asg.push_back({ v, m.get(v) });
                if (out) {
                    *out = base;
                    for (auto& p : e.asg) out->set(p.first, p.second);
                }
            }
            if (cache.size() > 400000) cache.clear();
            cache[{ h1, h2 }] = std::move(e);
            return r;
        }
    }
    Entry e;
    Sat r = S_UNKNOWN;
    for (auto* c : slice)
        if (hasMul(c)) {
            std::vector<Expr*> cs = slice;
            Model m;
            r = viaEqualities(cs, base, &m);
            if (r == S_SAT) {
                std::vector<uint32_t> vs;
                for (auto* c : slice) vs.insert(vs.end(), c->vars->v.begin(), c->vars->v.end());
                std::sort(vs.begin(), vs.end());
                vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
                for (auto v : vs) e.asg.push_back({ v, m.get(v) });
            }
            break;
        }
    if (r == S_UNKNOWN) r = rawCheck(slice, &e.asg);
    e.res = r;
    if (r == S_SAT) {
        // self-check of the encoding: the solver's model must satisfy every constraint under the concrete evaluator
        Model m = base;
        for (auto& p : e.asg) m.set(p.first, p.second);
        X.newEpoch();
        for (auto* c : slice)
            if (!X.eval(c, m)) {
                if (hasFp(c)) { X.newEpoch(); --st.sat; ++st.unknown; return S_UNKNOWN; } // NaN payloads are not fixed by the FP theory
                fprintf(stderr, "engine: solver model does not satisfy %s\n", X.str(c, 8).c_str());
                abort();
            }
        X.newEpoch();
        if (out) *out = m;
        if (recent.size() < 12) recent.push_back(e.asg), recentPos = recent.size() % 12;
        else { recent[recentPos] = e.asg; recentPos = (recentPos + 1) % recent.size(); }
    }
    if (cache.size() > 400000) cache.clear();
    if (r != S_UNKNOWN) cache[{ h1, h2 }] = std::move(e);
    return r;
}
