//@cfg 0 : chunks of 4 non-relocatable objects: 2 operations
//@cfg 1 : chunks of 4 relocatable owning objects: 2 operations
//@cfg 2 : chunks of 8 objects, aligned allocation: 2 operations
//@cfg 3 : 9 pushes, pops, free-slot insertions and erasures, chunks of 4
//@cfg 4 : iterator arithmetic, comparison and conversion with holes, chunks of 4
//@cfg 5 : unsigned, chunks of 64: sizes around 64 and 128: 1 operation
//@cfg 6 : sort with holes, chunks of 4, up to 6 symbolic keys
//@cfg 7 thorough : chunks of 4 non-relocatable objects: 2 unrestricted operations
//@cfg 8 thorough : chunks of 4 relocatable owning objects: 3 operations
//@cfg 9 thorough : unsigned, chunks of 64: 2 operations
//@bounds pre-states: 0 to 13 elements in chunks of 4 (0 to 20 in chunks of 8, 0 to 131 in chunks of 64) pushed at both ends, with no hole, one hole anywhere, a hole of three or two separate holes; histories of one operation chosen from 34 followed by one (thorough: two, or one of all 34) state-exposing operations; every position; element values symbolic (32 bit); sort: up to 6 elements (thorough 7), symbolic keys
//@outside longer histories and larger containers
#include "elems.h"
#include <seq/sequence.hpp>

template<class B, unsigned N> struct Pad : B
{
    Pad() {}
    Pad(unsigned x) : B(x) {}
    char pad[N];
};
template<class B, unsigned N> unsigned val(const Pad<B, N>& p) { return p.get(); }
struct E { unsigned v; const void* a; };
static bool g_light;
template<class T, class D, int BIG> struct Run
{
    static constexpr int CAP = BIG ? 300 : 60;
    static constexpr int C = BIG == 1 ? 64 : BIG == 2 ? 8 : 4;
    struct R : RVec<E, CAP>
    {
        void ins(int p, unsigned v) { this->insert(p, E{ v, nullptr }); }
        void rs(int m, unsigned v) { this->resize(m, E{ v, nullptr }); }
        void forget() { for (int i = 0; i < this->n; ++i) this->a[i].a = nullptr; }
    };
    D d;
    R r;
    static unsigned sv(const char* n) { return (unsigned)sx_sym(n, 32); }
    static int pos(const char* nm, int lo, int n)
    {
        if (g_light) {
            if (n - lo < 3) return (int)sx_pick(nm, (uint64_t)lo, (uint64_t)n);
            int p[] = { lo + 1, lo + (n - lo) / 2, n - 1 };
            return p[sx_pick(nm, 0, 2)];
        }
        if (n - lo <= 14) return (int)sx_pick(nm, (uint64_t)lo, (uint64_t)n);
        int k = (int)sx_pick(nm, 0, 8);
        int p[] = { lo, lo + 1, lo + (n - lo) / 4, lo + (n - lo) / 2 - 1, lo + (n - lo) / 2, lo + (n - lo) * 3 / 4, n - 2, n - 1, n };
        return p[k];
    }
    static typename D::const_iterator at(const D& d, int p)
    {
        auto it = d.begin();
        while (p--) ++it;
        return it;
    }
    static int index(const D& d, typename D::const_iterator w)
    {
        int i = 0;
        for (auto it = d.begin(); it != w; ++it, ++i)
            if (it == d.end()) sx_fail("returned iterator is not in the container");
        return i;
    }
    // forward and backward traversal equal the reference; surviving elements keep their address
    static void check(D& d, R& r)
    {
        const D& c = d;
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        int i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) {
            if (i >= r.n) sx_fail("iteration runs past the end");
            SX_CHECKM(val(*it) == r[i].v, "forward iteration yields the reference values");
            if (r[i].a && r[i].a != (const void*)&*it) sx_fail("an element that was not erased has moved");
            r[i].a = &*it;
        }
        SX_CHECKM(i == r.n, "forward iteration yields every element");
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            if (!i) sx_fail("reverse iteration runs past the begin");
            --i;
            SX_CHECKM((const void*)&*it == r[i].a, "reverse iteration is the reverse of forward iteration");
        }
        SX_CHECK(i == 0);
        if (r.n) {
            SX_CHECK(&c.front() == r[0].a);
            SX_CHECK(&c.back() == r[r.n - 1].a);
        }
    }
    void obs()
    {
        sx_obs(d.size());
        for (auto it = d.begin(); it != d.end(); ++it) sx_obs(val(*it));
    }
    void pb() { unsigned v = sv("e"); d.push_back(T(v)); r.ins(r.n, v); }
    void pf() { unsigned v = sv("e"); d.push_front(T(v)); r.ins(0, v); }
    void qb() { d.pop_back(); r.erase(r.n - 1, r.n); }
    void qf() { d.pop_front(); r.erase(0, 1); }
    void er(int p) { auto it = d.erase(at(d, p)); r.erase(p, p + 1); SX_CHECK(index(d, it) == p); }
    void shape()
    {
        static const int N4[] = { 0, 1, 4, 5, 8, 10, 13 }, N8[] = { 0, 1, 7, 9, 16, 20 }, N64[] = { 0, 63, 65, 128, 131 };
        int n = BIG == 1 ? N64[sx_pick("shape", 0, 4)] : BIG == 2 ? N8[sx_pick("shape", 0, 5)] : N4[sx_pick("shape", 0, 6)];
        int w = n > 1 ? (int)sx_pick("wrap", 0, 1) : 0;
        for (int i = 0; i < n; ++i) w && i % 3 == 1 ? pf() : pb();
        if (n < 2) return;
        switch (sx_pick("holes", 0, 3)) {
            case 0: break;
            case 1: er(pos("h", 0, n - 1)); break;
            case 2: { if (n < 4) break; int p = pos("h", 0, n - 3); d.erase(at(d, p), at(d, p + 3)); r.erase(p, p + 3); break; }
            case 3: { if (n < 5) break; int p = n / 3, q = n - 3; er(q); er(p); break; }
        }
    }
    int size_pick()
    {
        if (g_light) return r.n + 3;
        if (BIG == 1) { static const int M[] = { 0, 1, 62, 64, 66, 128, 130, 200 }; return M[sx_pick("m", 0, 7)]; }
        int M[] = { 0, 1, C - 1, C, C + 1, 2 * C, 2 * C + 1, 3 * C, 5 * C + 1 };
        return M[sx_pick("m", 0, 8)];
    }
    // values in [first, first+diff) at front or back appended; the implementation may fill holes only at the ends
    void op(bool light)
    {
        g_light = light;
        static const int L[] = { 0, 1, 4, 5, 6, 8, 11, 18 };
        int k = light ? L[sx_pick("op", 0, 7)] : (int)sx_pick("op", 0, 33);
        int n = r.n;
        switch (k) {
            case 0: { unsigned v = sv("v"); const T t(v); d.push_back(t); r.ins(n, v); break; }
            case 1: { unsigned v = sv("v"); const T t(v); d.push_front(t); r.ins(0, v); break; }
            case 2: { unsigned v = sv("v"); T& x = d.emplace_back(v); r.ins(n, v); SX_CHECK(&x == &d.back()); break; }
            case 3: { unsigned v = sv("v"); T& x = d.emplace_front(v); r.ins(0, v); SX_CHECK(&x == &d.front()); break; }
            case 4: if (!n) sx_discard(); qb(); break;
            case 5: if (!n) sx_discard(); qf(); break;
            case 6: { unsigned v = sv("v"); const T t(v); auto it = d.insert(t); SX_CHECK(val(*it) == v); int p = index(d, it); r.ins(p, v); break; }
            case 7: { unsigned v = sv("v"); auto it = d.emplace(v); SX_CHECK(val(*it) == v); r.ins(index(d, it), v); break; }
            case 8: if (!n) sx_discard(); er(pos("p", 0, n - 1)); break;
            case 9: { int p = pos("p", 0, n), q = pos("q", p, n); auto it = d.erase(at(d, p), at(d, q)); r.erase(p, q); SX_CHECK(index(d, it) == p); break; }
            case 10: { int m = size_pick(); d.resize((size_t)m); r.rs(m, 0); break; }
            case 11: { int m = size_pick(); unsigned v = sv("v"); const T t(v); d.resize((size_t)m, t); r.rs(m, v); break; }
            case 12: { int m = size_pick(); d.resize_front((size_t)m); if (r.n > m) r.erase(0, r.n - m); while (r.n < m) r.ins(0, 0); break; }
            case 13: { int m = size_pick(); unsigned v = sv("v"); const T t(v); d.resize_front((size_t)m, t); if (r.n > m) r.erase(0, r.n - m); while (r.n < m) r.ins(0, v); break; }
            case 14: d.clear(); r.clear(); break;
            case 15: { int m = size_pick(); unsigned v = sv("v"); const T t(v); d.assign((size_t)m, t); r.clear(); r.rs(m, v); break; }
            case 16: case 17: {
                int m = (int)sx_pick("m", 0, 3) * 3;
                unsigned a[9];
                r.clear();
                for (int i = 0; i < m; ++i) r.ins(i, a[i] = sv("v"));
                if (k == 16) d.assign((const unsigned*)a, (const unsigned*)a + m);
                else d.assign(InIt<unsigned>{ a }, InIt<unsigned>{ a + m });
                break;
            }
            case 18: d.shrink_to_fit(); r.forget(); break;
            case 19: d.reserve((size_t)size_pick()); break;
            case 20: { D c(d); R rc = r; rc.forget(); check(c, rc); c.push_back(T(1u)); if (n) c.erase(c.cbegin()); check(d, r); break; }
            case 21: {
                D c;
                int m = (int)sx_pick("m", 0, 3) * 3 + 1;
                if (m == 10) m = r.n; // same size
                for (int i = 0; i < m; ++i) c.push_front(T(7u));
                if (m > 3 && sx_pick("h", 0, 1)) c.erase(at(c, 2));
                c = d;
                R rc = r; rc.forget();
                check(c, rc);
                c.push_back(T(2u)); rc.ins(rc.n, 2); c.push_front(T(2u)); rc.ins(0, 2);
                check(c, rc);
                d = *&d;
                break;
            }
            case 22: { D c(std::move(d)); check(c, r); R z; check(d, z); d = std::move(c); break; }
            case 23: { D c; R rc; int m = (int)sx_pick("m", 0, 2) * 3; for (int i = 0; i < m; ++i) { unsigned v = sv("v"); c.push_front(T(v)); rc.ins(0, v); } c.swap(d); check(c, r); r = rc; break; }
            case 24: { if (!n) sx_discard(); int i = pos("i", 0, n - 1); d.push_back(*at(d, i)); r.ins(n, r[i].v); break; }
            case 25: { if (!n) sx_discard(); int i = pos("i", 0, n - 1); d.push_front(*at(d, i)); r.ins(0, r[i].v); break; }
            case 26: { if (!n) sx_discard(); int i = pos("i", 0, n - 1); unsigned v = r[i].v; auto it = d.insert(*at(d, i)); r.ins(index(d, it), v); break; }
            case 27: { if (!n) sx_discard(); int i = pos("i", 0, n - 1), m = size_pick(); unsigned v = r[i].v; if (m <= n) sx_discard(); d.resize((size_t)m, *at(d, i)); r.rs(m, v); break; }
            case 28: { auto it = d.emplace_back_iter(5u); r.ins(n, 5); SX_CHECK(index(d, it) == n); it = d.emplace_front_iter(6u); r.ins(0, 6); SX_CHECK(it == d.begin()); break; }
            case 29: { // refill all the free slots, then one more
                for (int i = 0; i < 5; ++i) { unsigned v = sv("v"); auto it = d.insert(T(v)); r.ins(index(d, it), v); check(d, r); }
                break;
            }
            case 30: { d.assign({ T(1u), T(2u), T(3u) }); r.clear(); r.ins(0, 1); r.ins(1, 2); r.ins(2, 3); break; }
            case 31: { int m = size_pick(); unsigned v = sv("v"); D c((size_t)m, T(v)); R rc; rc.rs(m, v); check(c, rc); D e((size_t)m); rc.clear(); rc.rs(m, 0); check(e, rc); break; }
            case 32: { unsigned a[5]; R rc; int m = (int)sx_pick("m", 0, 5); for (int i = 0; i < m; ++i) rc.ins(i, a[i] = sv("v")); D c((const unsigned*)a, (const unsigned*)a + m); check(c, rc); d = std::move(c); r = rc; break; }
            case 33: { // erase in a forward walk everything but one element in three
                int p = 0, c = 0;
                for (auto it = d.begin(); it != d.end(); ++c) { if (c % 3) { it = d.erase(it); r.erase(p, p + 1); } else { ++it; ++p; } }
                SX_CHECK(p == r.n);
                break;
            }
        }
        check(d, r);
    }
};
template<class T, class D, int BIG> static void hist(int nops, int full = 1)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        Run<T, D, BIG> x;
        x.shape();
        x.check(x.d, x.r);
        for (int i = 0; i < nops; ++i) x.op(i >= full);
        x.obs();
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
    sx_reach("history completed");
}
template<class T, class D> static void ends(int nops)
{
    uint64_t l0 = sx_live();
    {
        Run<T, D, 0> x;
        for (int i = 0; i < nops; ++i) {
            switch (sx_pick("op", 0, 5)) {
                case 0: x.pb(); break;
                case 1: x.pf(); break;
                case 2: if (!x.r.n) sx_discard(); x.qb(); break;
                case 3: if (!x.r.n) sx_discard(); x.qf(); break;
                case 4: { unsigned v = x.sv("v"); auto it = x.d.insert(T(v)); x.r.ins(x.index(x.d, it), v); break; }
                case 5: if (x.r.n < 3) sx_discard(); x.er(x.r.n / 2); break;
            }
            x.check(x.d, x.r);
        }
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class T, class D> static void iters()
{
    Run<T, D, 0> x;
    x.shape();
    x.check(x.d, x.r);
    int n = x.r.n, a = x.pos("a", 0, n), b = x.pos("b", 0, n);
    const D& c = x.d;
    auto ia = x.at(c, a), ib = x.at(c, b);
    SX_CHECK((ia == ib) == (a == b));
    SX_CHECK((ia != ib) == (a != b));
    if (n) {
        SX_CHECK(ib - ia == b - a);
        SX_CHECK((ia < ib) == (a < b));
        SX_CHECK((ia > ib) == (a > b));
        SX_CHECK((ia <= ib) == (a <= b));
        SX_CHECK((ia >= ib) == (a >= b));
        auto ic = ia;
        ic += b - a;
        SX_CHECK(ic == ib);
        ic -= b - a;
        SX_CHECK(ic == ia);
        SX_CHECK(ib - (b - a) == ia);
        SX_CHECK(c.iterator_at((size_t)a) == ia);
        SX_CHECK(x.d.iterator_at((size_t)b) == ib);
    }
    if (b < n) { auto t = ib; SX_CHECK(val(*t++) == x.r[b].v); SX_CHECK(t == x.at(c, b + 1)); }
    if (b > 0) { auto t = ib; t--; SX_CHECK(&*t == x.r[b - 1].a); }
}
template<class T, class D> static void sorts(int mx)
{
    uint64_t l0 = sx_live();
    {
        Run<T, D, 0> x;
        int n = (int)sx_pick("n", 0, (uint64_t)mx);
        int f = (int)sx_pick("front", 0, (uint64_t)(n < 3 ? n : 3));
        int h = (int)sx_pick("hole", 0, 2);
        if (h == 1) { for (int i = 0; i < f; ++i) x.pf(); x.d.push_back(T(9u)); for (int i = f; i < n; ++i) x.pb(); x.d.erase(x.at(x.d, f)); }
        else { for (int i = 0; i < f; ++i) x.pf(); for (int i = f; i < n; ++i) x.pb(); }
        if (h == 2) { if (n < 5) sx_discard(); x.er(1); x.er(n - 3); n -= 2; }
        x.check(x.d, x.r);
        x.d.sort();
        // reference: stable insertion sort
        for (int i = 1; i < n; ++i)
            for (int j = i; j > 0 && x.r[j].v < x.r[j - 1].v; --j) { E t = x.r[j]; x.r[j] = x.r[j - 1]; x.r[j - 1] = t; }
        x.r.forget();
        x.check(x.d, x.r);
        x.pb();
        x.pf();
        x.check(x.d, x.r);
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
using O4 = Pad<Obj, 64>;
using R4 = Pad<Rel, 64>;
using O8 = Pad<Obj, 24>;
void sx_main(int cfg)
{
    switch (cfg) {
        case 0: hist<O4, seq::sequence<O4>, 0>(2); break;
        case 1: hist<R4, seq::sequence<R4>, 0>(2); break;
        case 2: hist<O8, seq::sequence<O8, std::allocator<O8>, true>, 2>(2); break;
        case 3: ends<O4, seq::sequence<O4>>(SXB(7, 9)); break;
        case 4: iters<O4, seq::sequence<O4>>(); break;
        case 5: hist<unsigned, seq::sequence<unsigned>, 1>(1); break;
        case 6: sorts<R4, seq::sequence<R4>>(SXB(6, 7)); break;
        case 7: hist<O4, seq::sequence<O4>, 0>(2, 2); break;
        case 8: hist<R4, seq::sequence<R4>, 0>(3, 1); break;
        case 9: hist<unsigned, seq::sequence<unsigned>, 1>(2); break;
    }
}
