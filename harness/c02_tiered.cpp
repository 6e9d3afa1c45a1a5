//@cfg 0 : unsigned, bucket sizes 2..8: 2 operations
//@cfg 1 : non-relocatable objects, bucket sizes 2..8: 2 operations
//@cfg 2 : relocatable owning objects, bucket sizes 2..8: 2 operations
//@cfg 3 : unsigned, fixed buckets of 4: 2 operations
//@cfg 4 : unsigned, default parameters (64-element buckets), sizes around 64 and 128: 1 operation
//@cfg 5 : non-relocatable objects, fixed buckets of 4: 2 operations
//@cfg 6 : 8 pushes and pops at both ends, unsigned, buckets 2..8
//@cfg 7 : iterator arithmetic and comparison
//@cfg 8 thorough : unsigned, bucket sizes 2..8: 2 unrestricted operations
//@cfg 9 thorough : relocatable owning objects, bucket sizes 2..8: 3 operations
//@cfg 10 thorough : unsigned 64-bit, default parameters: 2 operations
//@bounds pre-states: 0 to 34 elements with wrapped and unwrapped circular buckets, partially filled first and last bucket (sizes 64..131 for default parameters); histories of one operation chosen from 36 followed by one (thorough: two, or one of all 36) chosen from 8 state-exposing operations; positions: all for up to 10 elements, 12 around the ends, the middle and bucket borders above; counts 0..3, target sizes around every bucket-size switch; element values symbolic (32 bit)
//@outside longer histories, more than about 140 elements (bucket size switch points at 128 elements and above)
#include "elems.h"
#include <seq/tiered_vector.hpp>

static bool g_light; // coarse choices only
static int pos(const char* nm, int lo, int n)
{
    if (g_light) {
        if (n - lo < 3) return (int)sx_pick(nm, (uint64_t)lo, (uint64_t)n);
        int p[] = { lo + 1, lo + (n - lo) / 2, n - 1 };
        return p[sx_pick(nm, 0, 2)];
    }
    if (n - lo <= 10) return (int)sx_pick(nm, (uint64_t)lo, (uint64_t)n);
    int k = (int)sx_pick(nm, 0, 11);
    int p[] = { lo, lo + 1, lo + 2, lo + 3, lo + (n - lo) / 4, lo + (n - lo) / 2 - 1, lo + (n - lo) / 2, lo + (n - lo) / 2 + 2, lo + (n - lo) * 3 / 4, n - 2, n - 1, n };
    return p[k];
}
template<class T, class D, int BIG> struct Run
{
    static constexpr int CAP = BIG ? 300 : 80;
    using R = RVec<unsigned, CAP>;
    D d;
    R r;
    static unsigned sv(const char* n) { return (unsigned)sx_sym(n, 32); }
    static void check(D& d, R& r, bool full = true)
    {
        const D& c = d;
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        if (BIG && !full) return;
        for (int i = 0; i < r.n; ++i) SX_CHECK(val(c[(size_t)i]) == r[i]);
        int i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) {
            if (i >= r.n) sx_fail("iteration runs past the end");
            SX_CHECK(val(*it) == r[i]);
        }
        SX_CHECK(i == r.n);
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            if (!i) sx_fail("reverse iteration runs past the begin");
            SX_CHECK(val(*it) == r[--i]);
        }
        SX_CHECK(c.end() - c.begin() == r.n);
        if (r.n) {
            SX_CHECK(val(c.front()) == r[0]);
            SX_CHECK(val(c.back()) == r[r.n - 1]);
            SX_CHECK(val(c.at((size_t)r.n - 1)) == r[r.n - 1]);
        }
        i = 0;
        c.for_each(0, c.size(), [&](const T& x) { if (i >= r.n || val(x) != r[i]) sx_fail("for_each visits every element in order"); ++i; });
        SX_CHECK(i == r.n);
    }
    void obs()
    {
        sx_obs(d.size());
        for (size_t i = 0; i < d.size(); ++i) sx_obs(val(d[i]));
    }
    void pb() { unsigned v = sv("e"); d.push_back(T(v)); r.push_back(v); }
    void pf() { unsigned v = sv("e"); d.push_front(T(v)); r.insert(0, v); }
    void qb() { d.pop_back(); r.erase(r.n - 1, r.n); }
    void qf() { d.pop_front(); r.erase(0, 1); }
    void shape()
    {
        if (BIG) {
            static const int N[] = { 63, 64, 65, 127, 129, 131 };
            int s = (int)sx_pick("shape", 0, 5), w = (int)sx_pick("wrap", 0, 2);
            for (int i = 0; i < N[s]; ++i) w == 1 && i % 3 ? pf() : pb();
            if (w == 2) for (int i = 0; i < 5; ++i) { qf(); pb(); }
            return;
        }
        static const int N[] = { 0, 1, 3, 7, 8, 9, 14, 31, 33 };
        int n = N[sx_pick("shape", 0, 8)];
        int w = n ? (int)sx_pick("wrap", 0, 2) : 0;
        switch (w) {
            case 0: for (int i = 0; i < n; ++i) pb(); break;
            case 1: for (int i = 0; i < n; ++i) i % 3 ? pf() : pb(); break;
            case 2: for (int i = 0; i < n + 3; ++i) pb(); qf(); qf(); qf(); break;
        }
    }
    int size_pick()
    {
        if (g_light) return r.n + 3;
        if (BIG) { static const int N[] = { 0, 1, 62, 64, 66, 128, 130, 140 }; return N[sx_pick("m", 0, 7)]; }
        static const int N[] = { 0, 1, 2, 4, 6, 7, 8, 9, 13, 20, 31, 32, 35 };
        return N[sx_pick("m", 0, 12)];
    }
    // light: a few representative operations that expose a corrupted state; otherwise all of them
    void op(bool light)
    {
        g_light = light;
        static const int L[] = { 0, 1, 4, 5, 6, 11, 13, 15 };
        int k = light ? L[sx_pick("op", 0, 7)] : (int)sx_pick("op", 0, 35);
        int n = r.n;
        switch (k) {
            case 0: { unsigned v = sv("v"); const T t(v); d.push_back(t); r.push_back(v); break; }
            case 1: { unsigned v = sv("v"); const T t(v); d.push_front(t); r.insert(0, v); break; }
            case 2: { unsigned v = sv("v"); T& x = d.emplace_back(v); r.push_back(v); SX_CHECK(&x == &d.back()); break; }
            case 3: { unsigned v = sv("v"); T& x = d.emplace_front(v); r.insert(0, v); SX_CHECK(&x == &d.front()); break; }
            case 4: if (!n) sx_discard(); qb(); break;
            case 5: if (!n) sx_discard(); qf(); break;
            case 6: { int p = pos("p", 0, n); unsigned v = sv("v"); const T t(v); auto it = d.insert(d.cbegin() + p, t); r.insert(p, v); SX_CHECK(it - d.begin() == p); SX_CHECK(val(*it) == v); break; }
            case 7: { int p = pos("p", 0, n); unsigned v = sv("v"); T& x = d.emplace((size_t)p, v); r.insert(p, v); SX_CHECK(&x == &d[(size_t)p]); break; }
            case 8: { int p = pos("p", 0, n), m = (int)sx_pick("m", 0, 3); unsigned v = sv("v"); const T t(v); auto it = d.insert(d.cbegin() + p, (size_t)m, t); for (int i = 0; i < m; ++i) r.insert(p, v); SX_CHECK(it - d.begin() == p); break; }
            case 9: case 10: {
                int p = pos("p", 0, n), m = (int)sx_pick("m", 0, 3);
                unsigned a[3];
                for (int i = 0; i < m; ++i) a[i] = sv("v");
                auto it = k == 9 ? d.insert(d.cbegin() + p, (const unsigned*)a, (const unsigned*)a + m) : d.insert(d.cbegin() + p, InIt<unsigned>{ a }, InIt<unsigned>{ a + m });
                for (int i = 0; i < m; ++i) r.insert(p + i, a[i]);
                SX_CHECK(it - d.begin() == p);
                break;
            }
            case 11: { if (!n) sx_discard(); int p = pos("p", 0, n - 1); auto it = d.erase(d.cbegin() + p); r.erase(p, p + 1); SX_CHECK(it - d.begin() == p); break; }
            case 12: { int p = pos("p", 0, n), q = pos("q", p, n); auto it = d.erase(d.cbegin() + p, d.cbegin() + q); r.erase(p, q); SX_CHECK(it - d.begin() == p); break; }
            case 13: { int m = size_pick(); d.resize((size_t)m); r.resize(m, 0); break; }
            case 14: { int m = size_pick(); unsigned v = sv("v"); const T t(v); d.resize((size_t)m, t); r.resize(m, v); break; }
            case 15: { int m = size_pick(); d.resize_front((size_t)m); if (r.n > m) r.erase(0, r.n - m); while (r.n < m) r.insert(0, 0); break; }
            case 16: { int m = size_pick(); unsigned v = sv("v"); const T t(v); d.resize_front((size_t)m, t); if (r.n > m) r.erase(0, r.n - m); while (r.n < m) r.insert(0, v); break; }
            case 17: { if (!n) sx_discard(); int p = pos("p", 0, n - 1); d.erase((size_t)p); r.erase(p, p + 1); break; }
            case 18: { int p = pos("p", 0, n); unsigned v = sv("v"); d.insert((size_t)p, T(v)); r.insert(p, v); break; }
            case 19: { int p = pos("p", 0, n); unsigned v = sv("v"); T& x = d.emplace(d.cbegin() + p, v); r.insert(p, v); SX_CHECK(&x == &d[(size_t)p]); break; }
            case 20: { int p = pos("p", 0, n), m = 10; unsigned a[10]; for (int i = 0; i < m; ++i) a[i] = sv("v"); d.insert((size_t)p, (const unsigned*)a, (const unsigned*)a + m); for (int i = 0; i < m; ++i) r.insert(p + i, a[i]); break; }
            case 21: d.clear(); r.clear(); break;
            case 22: { int m = size_pick(); unsigned v = sv("v"); const T t(v); d.assign((size_t)m, t); r.clear(); r.resize(m, v); break; }
            case 23: case 24: {
                int m = (int)sx_pick("m", 0, 3) * 3;
                unsigned a[9];
                r.clear();
                for (int i = 0; i < m; ++i) r.push_back(a[i] = sv("v"));
                if (k == 23) d.assign((const unsigned*)a, (const unsigned*)a + m);
                else d.assign(InIt<unsigned>{ a }, InIt<unsigned>{ a + m });
                break;
            }
            case 25: { D c(d); check(c, r); c.push_back(T(1u)); if (n) c.erase(c.cbegin()); check(d, r); break; }
            case 26: { D c; int m = (int)sx_pick("m", 0, 2) * 3; for (int i = 0; i < m; ++i) c.push_front(T(7u)); c = d; check(c, r); c.clear(); c.push_front(T(2u)); check(d, r); d = *&d; break; }
            case 27: { D c(std::move(d)); check(c, r); d = std::move(c); break; }
            case 28: { D c; R rc; int m = (int)sx_pick("m", 0, 2) * 3; for (int i = 0; i < m; ++i) { unsigned v = sv("v"); c.push_front(T(v)); rc.insert(0, v); } c.swap(d); check(c, r); r = rc; break; }
            case 29: { if (!n) sx_discard(); int i = pos("i", 0, n - 1); d.push_back(d[(size_t)i]); r.push_back(r[i]); break; }
            case 30: { if (!n) sx_discard(); int i = pos("i", 0, n - 1); d.push_front(d[(size_t)i]); r.insert(0, r[i]); break; }
            case 31: { if (!n) sx_discard(); int i = pos("i", 0, n - 1), p = pos("p", 0, n); d.insert(d.cbegin() + p, d[(size_t)i]); r.insert(p, r[i]); break; }
            case 32: {
                bool t = false;
                try { (void)d.at((size_t)n + sx_pick("m", 0, 1)); } catch (const std::out_of_range&) { t = true; }
                SX_CHECKM(t, "at() out of range throws");
                if (n) { unsigned v = sv("v"); d[(size_t)n - 1] = T(v); r[n - 1] = v; d.front() = T(v); r[0] = v; *(d.begin() + n / 2) = T(v); r[n / 2] = v; }
                break;
            }
            case 34: { if (!n) sx_discard(); int i = pos("i", 0, n - 1), m = size_pick(); unsigned v = r[i]; if (sx_pick("f", 0, 1)) { d.resize_front((size_t)m, d[(size_t)i]); if (r.n > m) r.erase(0, r.n - m); while (r.n < m) r.insert(0, v); } else { d.resize((size_t)m, d[(size_t)i]); r.resize(m, v); } break; }
            case 35: { if (!n) sx_discard(); int i = pos("i", 0, n - 1), p = pos("p", 0, n); unsigned v = r[i]; d.insert(d.cbegin() + p, (size_t)2, d[(size_t)i]); r.insert(p, v); r.insert(p, v); break; }
            case 33: { if (!n) sx_discard(); unsigned s = 0; int p = pos("p", 0, n), q = pos("q", p, n), i = p; d.for_each((size_t)p, (size_t)q, [&](T& x) { if (i >= q || val(x) != r[i]) sx_fail("for_each visits the requested range"); x = T(r[i] + 1u); r[i] = r[i] + 1u; ++i; }); SX_CHECK(i == q); (void)s; break; }
        }
        check(d, r);
    }
};
template<class T, class D, int BIG> static void hist(int nops, int full = 1)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        Run<T, D, BIG> x;
        x.shape();
        x.check(x.d, x.r);
        for (int i = 0; i < nops; ++i) x.op(i >= full);
        x.obs();
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
    sx_reach("history completed");
}
template<class T, class D> static void ends(int nops)
{
    uint64_t l0 = sx_live();
    {
        Run<T, D, 0> x;
        for (int i = 0; i < nops; ++i) {
            switch (sx_pick("op", 0, 3)) {
                case 0: x.pb(); break;
                case 1: x.pf(); break;
                case 2: if (!x.r.n) sx_discard(); x.qb(); break;
                case 3: if (!x.r.n) sx_discard(); x.qf(); break;
            }
            x.check(x.d, x.r);
        }
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class T, class D> static void iters()
{
    Run<T, D, 0> x;
    x.shape();
    int n = x.r.n, a = pos("a", 0, n), b = pos("b", 0, n);
    const D& c = x.d;
    auto ia = c.begin() + a, ib = c.begin() + b;
    SX_CHECK(ib - ia == b - a);
    SX_CHECK((ia == ib) == (a == b));
    SX_CHECK((ia != ib) == (a != b));
    SX_CHECK((ia < ib) == (a < b));
    SX_CHECK((ia > ib) == (a > b));
    SX_CHECK((ia <= ib) == (a <= b));
    SX_CHECK((ia >= ib) == (a >= b));
    auto ic = ia;
    ic += b - a;
    SX_CHECK(ic == ib);
    ic -= b - a;
    SX_CHECK(ic == ia);
    if (b < n) { SX_CHECK(val(ia[b - a]) == x.r[b]); SX_CHECK(val(*ib) == x.r[b]); auto t = ib; SX_CHECK(val(*t++) == x.r[b]); SX_CHECK(t - c.begin() == b + 1); }
    if (b > 0) { auto t = ib; --t; SX_CHECK(val(*t) == x.r[b - 1]); t = ib; t--; SX_CHECK(t - c.begin() == b - 1); }
    auto e = c.end();
    SX_CHECK(val(a < n ? *(e - (n - a)) : (n ? c.back() : T(0u))) == (a < n ? x.r[a] : (n ? x.r[n - 1] : 0u)));
}
template<class T, unsigned A, unsigned B> using TV = seq::tiered_vector<T, std::allocator<T>, A, B>;
void sx_main(int cfg)
{
    switch (cfg) {
        case 0: hist<unsigned, TV<unsigned, 2, 8>, 0>(2); break;
        case 1: hist<Obj, TV<Obj, 2, 8>, 0>(2); break;
        case 2: hist<Rel, TV<Rel, 2, 8>, 0>(2); break;
        case 3: hist<unsigned, TV<unsigned, 4, 4>, 0>(2); break;
        case 4: hist<unsigned, seq::tiered_vector<unsigned>, 1>(1); break;
        case 5: hist<Obj, TV<Obj, 4, 4>, 0>(2); break;
        case 6: ends<unsigned, TV<unsigned, 2, 8>>(8); break;
        case 7: iters<unsigned, TV<unsigned, 2, 8>>(); break;
        case 8: hist<unsigned, TV<unsigned, 2, 8>, 0>(2, 2); break;
        case 9: hist<Rel, TV<Rel, 2, 8>, 0>(3, 1); break;
        case 10: hist<size_t, seq::tiered_vector<size_t>, 1>(2); break;
    }
}
