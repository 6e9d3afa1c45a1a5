// Randomised self-test of the expression simplifier and of the translation to Z3: sxe --selftest N
#include "solver.h"
#include <cstdio>

int selftest(unsigned long n, uint64_t seed)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
    auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull >> 8; };
    constexpr int NM = 6; // models
    struct T { Expr* e; u128 v[NM]; };
    Solver S;
    unsigned long bad = 0, z3 = 0;
    for (unsigned long round = 0; round < n && bad < 5; ++round) {
        std::vector<T> ts;
        Model ms[NM];
        std::vector<Expr*> vars;
        auto small = [&](unsigned w) -> u128 {
            u128 r;
            switch (rnd() % 6) {
                case 0: r = rnd() % 4; break;
                case 1: r = ~(u128)0 - rnd() % 3; break;
                case 2: r = (u128)1 << rnd() % w; break;
                case 3: r = ((u128)1 << rnd() % w) - 1; break;
                case 4: r = rnd() & 0xff; break;
                default: r = ((u128)rnd() << 80) ^ ((u128)rnd() << 40) ^ rnd();
            }
            return r & maskw128(w);
        };
        static const unsigned ws[] = { 1, 3, 8, 8, 16, 32, 32, 64, 64 };
        for (int i = 0; i < 4; ++i) {
            unsigned w = ws[rnd() % 9];
            T t;
            t.e = X.var("t" + std::to_string(i), w);
            vars.push_back(t.e);
            for (int m = 0; m < NM; ++m) { t.v[m] = small(w); ms[m].set((uint32_t)t.e->val, (uint64_t)t.v[m]); }
            ts.push_back(t);
        }
        auto konst = [&](unsigned w) { T t; u128 c = small(w); t.e = X.cst(c, w); for (int m = 0; m < NM; ++m) t.v[m] = c; return t; };
        auto any = [&](unsigned w) -> T { // an operand of width w
            if (rnd() % 3 == 0) return konst(w);
            for (int k = 0; k < 12; ++k) {
                T& t = ts[rnd() % 3 ? ts.size() - 1 - rnd() % std::min<size_t>(ts.size(), 6) : rnd() % ts.size()];
                if (t.e->width == w) return t;
            }
            T t = ts[rnd() % ts.size()], r;
            if (t.e->width == w) return t;
            if (t.e->width > w) {
                unsigned lo = rnd() % 2 ? 0 : (unsigned)(rnd() % (t.e->width - w + 1));
                r.e = X.extract(t.e, lo, w);
                for (int m = 0; m < NM; ++m) r.v[m] = (t.v[m] >> lo) & maskw128(w);
                return r;
            }
            bool sx = rnd() & 1;
            r.e = sx ? X.sext(t.e, w) : X.zext(t.e, w);
            for (int m = 0; m < NM; ++m) r.v[m] = sx ? (u128)sextw128(t.v[m], t.e->width) & maskw128(w) : t.v[m];
            return r;
        };
        for (int step = 0; step < 24; ++step) {
            T r;
            unsigned w = ws[rnd() % 9];
            switch (rnd() % 10) {
                case 0: case 1: case 2: case 3: {
                    Kind k = (Kind)(K_ADD + rnd() % (K_ASHR - K_ADD + 1));
                    T a = any(w), b = any(w);
                    if (k >= K_UDIV && k <= K_SREM) { b = konst(w); if (!b.v[0]) continue; }
                    if (w == 1 && (k < K_AND || k > K_XOR)) k = (Kind)(K_AND + rnd() % 3);
                    if (k >= K_SHL && k <= K_ASHR) { if (rnd() % 4) { b.e = X.cst(rnd() % w, w); for (auto& q : b.v) q = cv(b.e); } }
                    r.e = X.bin(k, a.e, b.e);
                    for (int m = 0; m < NM; ++m) r.v[m] = foldBin(k, a.v[m], b.v[m], w) & maskw128(w);
                    break;
                }
                case 4: case 5: case 6: {
                    Kind k = (Kind)(K_EQ + rnd() % 5);
                    if (w == 1 && k > K_ULE) k = K_EQ;
                    T a = any(w), b = any(w);
                    r.e = X.cmp(k, a.e, b.e);
                    for (int m = 0; m < NM; ++m) r.v[m] = foldCmp(k, a.v[m], b.v[m], w);
                    break;
                }
                case 7: {
                    T c = any(1), a = any(w), b = any(w);
                    r.e = X.ite(c.e, a.e, b.e);
                    for (int m = 0; m < NM; ++m) r.v[m] = c.v[m] ? a.v[m] : b.v[m];
                    break;
                }
                case 8: {
                    T a = any(ws[rnd() % 7]), b = any(ws[rnd() % 7]);
                    r.e = X.concat(a.e, b.e);
                    for (int m = 0; m < NM; ++m) r.v[m] = (a.v[m] << b.e->width) | b.v[m];
                    break;
                }
                default: r = any(w); break;
            }
            ts.push_back(r);
            for (int m = 0; m < NM; ++m) {
                X.newEpoch();
                u128 g = X.eval(r.e, ms[m]);
                bool iv = r.e->width > 64 || ((uint64_t)r.v[m] >= r.e->umin && (uint64_t)r.v[m] <= r.e->umax);
                if (g != r.v[m] || !iv) {
                    fprintf(stderr, "selftest: round %lu: %s evaluates to %llx, expected %llx%s\n", round, X.str(r.e, 8).c_str(), (unsigned long long)g, (unsigned long long)r.v[m], iv ? "" : " (interval)");
                    ++bad;
                    break;
                }
            }
        }
        X.newEpoch();
        if (round % 50 == 0) { // the same through Z3
            std::vector<Expr*> cs;
            for (auto* v : vars) cs.push_back(X.cmp(K_EQ, v, X.cst(ms[0].get((uint32_t)v->val), v->width)));
            Expr* d = X.fls();
            for (auto& t : ts) if (t.e->width <= 64) d = X.lor(d, X.lnot(X.cmp(K_EQ, t.e, X.cst(t.v[0], t.e->width))));
            if (!isC(d)) { cs.push_back(d); ++z3; if (S.rawCheck(cs, nullptr) != S_UNSAT) { fprintf(stderr, "selftest: Z3 disagrees in round %lu\n", round); ++bad; } }
        }
        if (round % 50 == 25) { // the order procedure against Z3
            std::vector<Expr*> cs;
            for (auto& t : ts) if (t.e->width == 1 && !isC(t.e) && cs.size() < 5) cs.push_back(rnd() & 1 ? t.e : X.lnot(t.e));
            if (!cs.empty()) {
                Model o;
                Sat a = S.order(cs, ms[0], &o);
                if (a != S_UNKNOWN) { ++z3; Sat b = S.rawCheck(cs, nullptr); if (a != b && b != S_UNKNOWN) { fprintf(stderr, "selftest: order procedure says %d, Z3 %d in round %lu\n", a, b, round); ++bad; } }
            }
        }
    }
    // conversions between integers and floating point numbers, and exact mixed comparisons
    Expr *vi = X.var("i", 64), *vf = X.var("f", 64);
    for (unsigned long round = 0; round < n * 20 && bad < 5; ++round) {
        uint64_t i, f;
        switch (rnd() % 5) { case 0: i = rnd() % 5; break; case 1: i = 0 - (rnd() % 5); break; case 2: i = (1ull << rnd() % 64) + (rnd() % 5) - 2; break; case 3: i = (rnd() * 0x10001) >> rnd() % 64; break; default: i = rnd() << 8 | (rnd() & 255); }
        switch (rnd() % 5) {
            case 0: { double d = (double)(int64_t)i; memcpy(&f, &d, 8); f += rnd() % 3 - 1; break; }
            case 1: f = (rnd() << 40 & 0xffffffff00000000ull) | (rnd() & 0xffffffffull); break;
            case 2: { double d = (double)(float)(int64_t)i * 0.5; memcpy(&f, &d, 8); break; }
            case 3: { float g = (float)(int64_t)i + (float)(rnd() % 3) * 0.5f; uint32_t u; memcpy(&u, &g, 4); u += (uint32_t)(rnd() % 3) - 1; f = u; break; }
            default: f = rnd() << 8 ^ rnd() << 50 ^ rnd();
        }
        Model m;
        m.set((uint32_t)vi->val, i);
        m.set((uint32_t)vf->val, f);
        auto expect = [&](const char* what, Expr* e, u128 want) {
            X.newEpoch();
            u128 g = X.eval(e, m) & maskw128(e->width);
            if (g != (want & maskw128(e->width))) { fprintf(stderr, "selftest: %s: i=%llx f=%llx gives %llx, expected %llx\n", what, (unsigned long long)i, (unsigned long long)f, (unsigned long long)g, (unsigned long long)want); ++bad; }
        };
        static const unsigned iw[] = { 1, 8, 16, 32, 64 };
        unsigned w = iw[rnd() % 5];
        Expr* x = X.extract(vi, 0, w);
        u128 xv = i & maskw(w);
        for (unsigned fw : { 32u, 64u }) {
            expect("sitof", X.fop(K_SITOF, fw, x), foldFp(K_SITOF, fw, xv, w, 0));
            expect("uitof", X.fop(K_UITOF, fw, x), foldFp(K_UITOF, fw, xv, w, 0));
            Expr* y = X.extract(vf, 0, fw);
            u128 yv = f & maskw(fw);
            long double d;
            if (fw == 64) { double t; memcpy(&t, &f, 8); d = t; } else { float t; uint32_t u = (uint32_t)f; memcpy(&t, &u, 4); d = t; }
            if (d > -0x1p63L && d < 0x1p63L) expect("ftosi", X.fop(K_FTOSI, 64, y), foldFp(K_FTOSI, 64, yv, fw, 0));
            if (d >= 0 && d < 0x1p64L) expect("ftoui", X.fop(K_FTOUI, 64, y), foldFp(K_FTOUI, 64, yv, fw, 0));
            if (fw == 32) expect("widen", X.fop(K_FTOF, 64, y), foldFp(K_FTOF, 64, yv, 32, 0));
            for (int sg = 0; sg < 2; ++sg) {
                Expr *a = X.mk(sg ? K_SITOF : K_UITOF, 80, x), *b = X.mk(K_FTOF, 80, y);
                long double iv = sg ? (long double)(int64_t)sextw(xv, w) : (long double)(uint64_t)xv;
                for (unsigned p = 0; p < 16; ++p) {
                    bool lt = iv < d, gt = iv > d, eq = iv == d, un = d != d;
                    expect("fcmp80 int/float", X.fcmp80(p, a, b), ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un));
                    expect("fcmp80 float/int", X.fcmp80(p, b, a), ((p & 1) && eq) || ((p & 2) && lt) || ((p & 4) && gt) || ((p & 8) && un));
                }
                Expr* c = X.mk(K_FTOF, 80, X.extract(vf, 32, 32));
                float t; uint32_t u = (uint32_t)(f >> 32); memcpy(&t, &u, 4);
                for (unsigned p = 1; p < 16; p *= 2) expect("fcmp80 float/float", X.fcmp80(p, c, b), ((p & 1) && t == d) || ((p & 2) && t > d) || ((p & 4) && t < d) || ((p & 8) && (t != t || d != d)));
            }
        }
    }
    printf("selftest: %lu rounds, %lu Z3 comparisons, %lu failures\n", n, z3, bad);
    return bad ? 1 : 0;
}
