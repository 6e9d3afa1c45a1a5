// radix_set / radix_map against an ordered reference model (C06, C07).
#pragma once
#include "elems.h"
#include <seq/radix_map.hpp>
#include <seq/tiny_string.hpp>

// Key kinds: R is the reference key (operator<), mk builds the library's key, un reads it back.
template<class T> struct IntKey // integral keys, reference keys in the same order
{
    using K = T;
    using R = T;
    static K mk(R r) { return r; }
    static R un(const K& k) { return k; }
    static R sym(const char* n) { return (R)sx_sym(n, sizeof(T) * 8); }
    static R at(unsigned h, unsigned l) { return (R)(((uint64_t)h << (sizeof(T) * 8 - 8)) | l); } // top byte h, low part l
};
struct BoolKey { using K = bool; using R = bool; static K mk(R r) { return r; } static R un(bool k) { return k; } static R sym(const char* n) { return sx_pick(n, 0, 1) != 0; } static R at(unsigned h, unsigned) { return h & 1; } };
// floating point: any bit pattern except NaN, -0.0 and +0.0 are equivalent
template<class T, class U> struct FltKey
{
    struct R { T f; bool operator<(const R& o) const { return f < o.f; } bool operator==(const R& o) const { return f == o.f; } };
    using K = T;
    static K mk(R r) { return r.f; }
    static R un(const K& k) { return R{ k }; }
    static R sym(const char* n) { U u = (U)sx_sym(n, sizeof(T) * 8); T f; memcpy(&f, &u, sizeof f); sx_assume(f == f); return R{ f }; }
    static R at(unsigned h, unsigned l) { return R{ (T)((int)h - 128) * (T)1.5 + (T)l * (T)0.0625 }; }
};
struct Pointee { char c[64]; };
extern Pointee g_pointees[];
struct PtrKey
{
    using K = const Pointee*;
    using R = uint64_t;
    static K mk(R r) { return (K)(uintptr_t)r; }
    static R un(const K& k) { return (uint64_t)(uintptr_t)k; }
    static R sym(const char* n) { return sx_sym(n, 64); }
    static R at(unsigned h, unsigned l) { return ((uint64_t)h << 40) | l; }
};
static unsigned g_rserial;
template<class KT, class D, bool MAP>
struct Radix
{
    using K = typename KT::K;
    using RK = typename KT::R;
    template<class T, class = void> struct Mapped { using type = unsigned; };
    template<class T> struct Mapped<T, std::void_t<typename T::mapped_type>> { using type = typename T::mapped_type; };
    using MV = typename Mapped<D>::type;
    using R = ROrd<RK, unsigned, 700>;
    D d;
    R r;
    RK last = RK();
    int nlast = 0;
    bool big = false, full = false; // full: the symbolic keys take every value, otherwise 1024 values
    // any key; around the concrete ones when the container is large
    RK anyKey(const char* n)
    {
        if (!big) return KT::sym(n);
        static const unsigned top[] = { 64, 65, 0, 200 };
        unsigned h = top[sx_pick("top", 0, 3)];
        return KT::at(h, (unsigned)sx_sym(n, 8));
    }
    RK sk() { last = anyKey("k"); ++nlast; return last; }
    static auto mkv(const RK& e, unsigned v) { if constexpr (MAP) return std::pair<K, MV>(KT::mk(e), MV(v)); else { (void)v; return KT::mk(e); } }
    template<class V> static const K& keyOf(const V& x) { if constexpr (MAP) return x.first; else return x; }
    template<class V> static unsigned valOf(const V& x) { if constexpr (MAP) return val(x.second); else { (void)x; return 0; } }
    static unsigned serial() { return MAP ? ++g_rserial : 0; }
    static bool eq(const RK& a, const RK& b) { return a == b; }
    template<class C> static void check(const C& c, const R& r)
    {
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        int i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) {
            if (i >= r.n) sx_fail("iteration runs past the end");
            SX_CHECKM(eq(KT::un(keyOf(*it)), r.k[i]), "keys in increasing order");
            if (MAP) SX_CHECKM(valOf(*it) == r.v[i], "mapped values");
        }
        SX_CHECK(i == r.n);
        if (!r.n) return;
        auto it = c.end();
        for (; i > 0;) {
            --it; --i;
            SX_CHECKM(eq(KT::un(keyOf(*it)), r.k[i]), "reverse iteration");
        }
        SX_CHECK(it == c.begin());
    }
    template<class It> void at(const It& it, int p, const char* what)
    {
        if (p == r.n) SX_CHECKM(it == d.end(), what);
        else { if (it == d.end()) sx_fail(what); SX_CHECKM(eq(KT::un(keyOf(*it)), r.k[p]), what); if (MAP) SX_CHECKM(valOf(*it) == r.v[p], what); }
    }
    void probe(const RK& e)
    {
        const D& c = d;
        K k = KT::mk(e);
        int lo = r.lb(e);
        int hi = lo < r.n && !(e < r.k[lo]) ? lo + 1 : lo;
        bool in = hi != lo;
        at(c.find(k), in ? lo : r.n, "find");
        SX_CHECKM(c.contains(k) == in, "contains");
        SX_CHECKM(c.count(k) == (size_t)in, "count");
        auto p = d.find_ptr(k);
        SX_CHECKM((p != nullptr) == in, "find_ptr finds exactly the present keys");
        if (in) SX_CHECKM(eq(KT::un(keyOf(*p)), r.k[lo]), "find_ptr");
        at(c.lower_bound(k), lo, "lower_bound");
        at(c.upper_bound(k), hi, "upper_bound");
        auto er = d.equal_range(k);
        if (in) { at(er.first, lo, "equal_range first"); at(er.second, hi, "equal_range second"); }
        else SX_CHECKM(er.first == er.second, "equal_range of an absent key is empty");
        if constexpr (MAP) {
            bool t = false;
            unsigned x = 0;
            try { x = val(c.at(k)); } catch (const std::out_of_range&) { t = true; }
            SX_CHECKM(t == !in, "at() throws exactly for absent keys");
            if (!t) SX_CHECKM(x == r.v[lo], "at() returns the mapped value");
        }
    }
    void obs() { sx_obs(d.size()); }
    int ins(const RK& e, unsigned v, bool* ok) { int w = 0; *ok = r.insert(e, v, &w); return w; }
    template<class P> void ret(const P& p, int w, bool ok) { at(p.first, w, "iterator to the element"); SX_CHECKM(p.second == ok, "insertion flag"); }
    void add(const RK& e) { bool ok; unsigned v = serial(); auto p = d.insert(mkv(e, v)); int w = ins(e, v, &ok); ret(p, w, ok); }
    void del(const RK& e) { size_t c = d.erase(KT::mk(e)); SX_CHECKM((int)c == r.erase(e), "number of erased elements"); }
    typename D::const_iterator iter(int p) { auto it = ((const D&)d).begin(); for (int i = 0; i < p; ++i) ++it; return it; }
    int pick(const char* n, int lo, int hi) // positions: both ends, the middle, next to them
    {
        if (hi - lo < 5) return (int)sx_pick(n, (uint64_t)lo, (uint64_t)hi);
        int p[] = { lo, lo + 1, (lo + hi) / 2, hi - 1, hi };
        return p[sx_pick(n, 0, 4)];
    }
    // Concrete pre-states. Leaves hold up to 64 elements; fuller ones split in directories, and a directory whose
    // children are all directories is merged with them.
    void shape(int s)
    {
        big = !full || s >= 3;
        switch (s) {
            case 0: break;
            case 1: for (unsigned i = 0; i < 3; ++i) add(KT::at(64, 20 * ((i * 2) % 3) + 10)); break;
            case 2: for (unsigned i = 0; i < 9; ++i) add(KT::at((i * 5 % 9) * 28, 10)); break;
            case 3: for (unsigned i = 0; i < 64; ++i) add(KT::at(64, ((i * 37) % 64) * 3)); break;               // a full leaf
            case 4: for (unsigned i = 0; i < 70; ++i) add(KT::at(64, ((i * 37) % 71) * 3)); break;               // a directory below a common prefix
            case 5: shape(4); for (unsigned i = 0; i < 5; ++i) add(KT::at(i * 60, 5)); break;                    // with leaves around it
            case 6: shape(4); { auto it = d.begin(); for (int i = 0; i < 67; ++i) { it = d.erase(it); r.eraseAt(0); } } break; // almost emptied
            case 7: for (unsigned h = 0; h < 4; ++h) for (unsigned i = 0; i < 66; ++i) add(KT::at(h * 64 + (i & 3) * 16, i)); break; // merged root
            case 8: shape(7); for (int i = r.n - 1; i >= 0; --i) if (i % 66 > 2) { del(RK(r.k[i])); } break;
            case 9: shape(7); for (int i = r.n - 1; i >= 0; --i) if (i > 70) { del(RK(r.k[i])); } break;            // about to be rebalanced
            case 10: shape(4); for (unsigned i = 0; i < 70; ++i) add(KT::at(65, ((i * 37) % 71) * 3)); break;
        }
        // emptied containers
    }
    int keys(RK* a)
    {
        switch (sx_pick("keys", 0, 3)) {
            case 0: return 0;
            case 1: a[0] = sk(); return 1;
            case 2: a[0] = KT::at(64, 35); a[1] = sk(); a[2] = KT::at(64, 35); a[3] = KT::at(0, 5); return 4;
            default: for (unsigned i = 0; i < 70; ++i) a[i] = KT::at(64, ((i * 41) % 70) * 3 + 1); return 70;
        }
    }
    static constexpr int NOPS = 26;
    void op(int k)
    {
        using V = decltype(mkv(std::declval<RK>(), 0));
        int n = r.n, w;
        bool ok;
        switch (k) {
            case 0: { RK e = sk(); unsigned v = serial(); const V x = mkv(e, v); auto p = d.insert(x); w = ins(e, v, &ok); ret(p, w, ok); break; }
            case 1: { RK e = sk(); unsigned v = serial(); V x = mkv(e, v); auto p = d.emplace(std::move(x)); w = ins(e, v, &ok); ret(p, w, ok); break; }
            case 2: case 3: {
                RK e = sk();
                unsigned v = serial();
                const V x = mkv(e, v);
                auto h = iter(pick("hint", 0, n));
                auto it = k == 2 ? d.insert(h, x) : d.emplace_hint(h, x);
                w = ins(e, v, &ok);
                at(it, w, "iterator to the element");
                break;
            }
            case 4: { RK e = sk(); del(e); break; }
            case 5: { if (!n) sx_discard(); int p = pick("p", 0, n - 1); auto it = d.erase(iter(p)); r.eraseAt(p); at(it, p, "iterator after the erased element"); break; }
            case 6: { int p = pick("p", 0, n), q = pick("q", p, n); auto it = d.erase(iter(p), iter(q)); for (int i = p; i < q; ++i) r.eraseAt(p); at(it, p, "iterator after the erased range"); break; }
            case 7: case 8: case 9: case 10: case 11: {
                static RK a[72];
                int m = keys(a);
                if (k >= 9) r.clear();
                unsigned v[72];
                for (int i = 0; i < m; ++i) v[i] = serial();
                struct Arr { alignas(V) char b[72 * sizeof(V)]; int n; V* p() { return (V*)b; } Arr() : n(0) {} ~Arr() { for (int i = 0; i < n; ++i) p()[i].~V(); } };
                Arr* arr = new Arr;
                for (int i = 0; i < m; ++i, ++arr->n) new (arr->p() + i) V(mkv(a[i], v[i]));
                const V* f = arr->p();
                if (k == 7) d.insert(f, f + m);
                else if (k == 8) d.insert(InIt<V>{ f }, InIt<V>{ f + m });
                else if (k == 9) d.assign(f, f + m);
                else if (k == 10) { D c(f, f + m); d = std::move(c); }
                else if (m == 1) d = { f[0] };
                else if (m == 4) d = { f[0], f[1], f[2], f[3] };
                else sx_discard();
                for (int i = 0; i < m; ++i) r.insert(a[i], v[i]);
                delete arr;
                break;
            }
            case 12: d.clear(); r.clear(); break;
            case 13: { D c(d); check(c, r); c.insert(mkv(KT::at(64, 33), 1)); if (n) c.erase(c.begin()); check(d, r); break; }
            case 14: { D c; for (unsigned i = 0; i < (unsigned)sx_pick("m", 0, 1) * 3; ++i) c.insert(mkv(KT::at(0, i), 1)); c = d; check(c, r); SX_CHECK(c == d); SX_CHECK(!(c != d)); c.clear(); c.insert(mkv(KT::at(1, 2), 1)); check(d, r); D& self = d; d = self; break; }
            case 15: { D c(std::move(d)); check(c, r); R z; check(d, z); d = std::move(c); break; }
            case 16: { D c; R rc; for (unsigned i = 0; i < (unsigned)sx_pick("m", 0, 1) * 3; ++i) { unsigned v = serial(); c.insert(mkv(KT::at(0, i), v)); rc.insert(KT::at(0, i), v); } c.swap(d); check(c, r); r = rc; break; }
            case 17: { RK e = sk(); auto c = erase_if(d, [&](const auto& x) { return KT::un(keyOf(x)) < e; }); int x = r.lb(e); SX_CHECKM((int)c == x, "erase_if count"); for (int i = 0; i < x; ++i) r.eraseAt(0); break; }
            case 18: { int cnt = 0, j = 0; auto c = erase_if(d, [&](const auto&) { return cnt++ % 8 != 3; }); for (int i = 0, x = n; i < x; ++i) if (i % 8 != 3) r.eraseAt(j); else ++j; SX_CHECK((int)c == n - r.n); break; }
            case 19: { // merge
                D c; R rc;
                static RK a[72];
                int m = keys(a);
                for (int i = 0; i < m; ++i) { unsigned v = serial(); c.insert(mkv(a[i], v)); rc.insert(a[i], v); }
                d.merge(c);
                R rem;
                for (int i = 0; i < rc.n; ++i) if (!r.insert(rc.k[i], rc.v[i])) rem.insert(rc.k[i], rc.v[i]);
                check(c, rem);
                break;
            }
            case 20: { D c; R rc; static RK a[72]; int m = keys(a); for (int i = 0; i < m; ++i) { unsigned v = serial(); c.insert(mkv(a[i], v)); rc.insert(a[i], v); } bool same = rc.n == n; for (int i = 0; same && i < n; ++i) if (!eq(r.k[i], rc.k[i]) || (MAP && r.v[i] != rc.v[i])) same = false; SX_CHECKM((c == d) == same, "operator=="); SX_CHECKM((d != c) == !same, "operator!="); break; }
            case 21: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); auto p = d.try_emplace(KT::mk(e), MV(v)); w = ins(e, v, &ok); ret(p, w, ok); } else { d.shrink_to_fit(); } break;
            case 22: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); auto p = d.insert_or_assign(KT::mk(e), MV(v)); w = ins(e, v, &ok); r.v[w] = v; ret(p, w, ok); } else sx_discard(); break;
            case 23: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); int f = r.find(e); MV& x = d[KT::mk(e)]; if (f < 0) { ins(e, 0, &ok); SX_CHECK(val(x) == 0); } else SX_CHECK(val(x) == r.v[f]); x = MV(v); r.v[r.find(e)] = v; } else sx_discard(); break;
            case 24: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); auto it = d.try_emplace(iter(pick("hint", 0, n)), KT::mk(e), MV(v)); w = ins(e, v, &ok); at(it, w, "iterator to the element"); } else sx_discard(); break;
            case 25: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); auto it = d.insert_or_assign(iter(pick("hint", 0, n)), KT::mk(e), MV(v)); w = ins(e, v, &ok); r.v[w] = v; at(it, w, "iterator to the element"); } else sx_discard(); break;
        }
        check(d, r);
    }
    template<class F> static void run(F f)
    {
        long o0 = g_objs;
        uint64_t l0 = sx_live();
        { Radix* x = new Radix; f(*x); delete x; }
        SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
        SX_CHECKM(sx_live() == l0, "no memory is leaked");
        sx_reach("history completed");
    }
    // one operation (any of NOPS) on shapes lo..hi, then a lookup
    static void hist(int lo, int hi, int nops, bool pr = false, bool full = false)
    {
        run([&](Radix& x) {
            x.full = full;
            x.shape((int)sx_pick("shape", (uint64_t)lo, (uint64_t)hi));
            static const int core[] = { 0, 4, 17, 22 };
            for (int i = 0; i < nops; ++i) x.op(full ? core[sx_pick("op", 0, 3)] : (int)sx_pick("op", 0, NOPS - 1));
            if (pr) x.probe(x.anyKey("probe"));
            else if (x.nlast) x.probe(x.last);
            for (unsigned i = 0; i < 4; ++i) x.probe(KT::at(i & 1 ? 64 : 65, i * 17));
            x.obs();
        });
    }
    static void look(int lo, int hi)
    {
        run([&](Radix& x) {
            x.full = lo == 0;
            x.shape((int)sx_pick("shape", (uint64_t)lo, (uint64_t)hi));
            check(x.d, x.r);
            x.probe(x.anyKey("probe"));
            x.obs();
        });
    }
    static void orders(int n)
    {
        run([&](Radix& x) {
            for (int i = 0; i < n; ++i) x.add(KT::sym("k"));
            check(x.d, x.r);
            x.probe(x.anyKey("probe"));
            x.obs();
        });
    }
};
