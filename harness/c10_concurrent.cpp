//@cfg 0 : concurrent_map, one shard, hash = key: every insertion order of 3 symbolic keys, lookup
//@cfg 1 : concurrent_map, one shard, hash = key: one operation on small tables
//@cfg 2 : concurrent_map, one shard, constant hash: one operation on chained buckets
//@cfg 3 : concurrent_set, no concurrency, hash = key: one operation, rehash and chains
//@cfg 4 : concurrent_set, no concurrency, hash functions with few distinct values
//@cfg 5 : concurrent_map, 2 shards with shared locks, hash = key
//@cfg 6 : concurrent_set, 4 shards with shared locks, constant hash
//@cfg 7 : concurrent_map, 2 shards, non-relocatable key and value
//@cfg 8 : concurrent_set, one shard, stateful allocator
//@cfg 9 : concurrent_map, 32 shards (default concurrency), owning values, hash mixed by the library
//@cfg 10 thorough : concurrent_map, one shard, hash = key: two operations on small tables
//@cfg 11 thorough : concurrent_map, one shard, constant hash: two operations
//@cfg 12 thorough : concurrent_map, 4 shards with shared locks, hash = key: one operation on every shape
//@parts 13
//@bounds one operation (thorough: two) on tables of 0 to 50 elements (full buckets, chained nodes, after erasures, rehashed, cleared), then lookups of the operated key and of every key in the model, size and full traversal; comparison, merge and copy with equal and different hash function states
//@bounds keys: with hash = key every 64-bit key whose bucket in a table of up to 256 buckets is one of four and whose shard is one of two (all other bits free); with the other hash functions every 64-bit key. Hash functions: identity, constant, 4 values, tag only, upper half of the key, stateful with different states
//@bounds concurrency levels: none, 1, 2, 4 and 32 shards, exclusive and shared bucket locks; std::execution::seq for the policy overloads
//@outside throwing hash functions, comparisons and visitors (C26); several threads (C11); parallel execution policies; transparent lookups
//@engine --forksel --forkptr
#include "hmap.h"
#include <seq/concurrent_map.hpp>

template<class K, class D, class H, bool MAP, unsigned SH, class RK = uint64_t>
struct CMap
{
    template<class T, class = void> struct Mapped { using type = unsigned; };
    template<class T> struct Mapped<T, std::void_t<typename T::mapped_type>> { using type = typename T::mapped_type; };
    using MV = typename Mapped<D>::type;
    using R = RMap<RK, unsigned, 200>;
    D d;
    R r;
    RK last = RK();
    int nlast = 0;
    explicit CMap(unsigned salt) : d(0, H(salt)) {}
    static K mk(RK k) { if constexpr (std::is_arithmetic_v<K>) return (K)k; else return K((unsigned)k); }
    static RK un(const K& k) { if constexpr (std::is_arithmetic_v<K>) return k; else return k.get(); }
    static constexpr bool WIDE = sizeof(RK) == 8;
    RK anyKey(const char* n)
    {
        if (g_hmode == H_ID) { // bucket (in tables of up to 256) and shard are one of a few, the rest of the key is free
            static const unsigned low[] = { 0, 1, 6, 255 };
            RK l = low[sx_pick("bucket", 0, 3)];
            if (!WIDE) return (RK)(sx_sym(n, 8) << 8 | l);
            if (SH != seq::no_concurrency && (SH & 15)) {
                uint64_t sh = sx_pick("shard", 0, 1);
                uint64_t top = sx_sym(n, 8);
                return (RK)(top << 56 | sh * 3 << 47 | sx_sym("low", 24) << 8 | l);
            }
            return (RK)(sx_sym(n, 56) << 8 | l);
        }
        if (g_hmode == H_LOW2) { unsigned l = (unsigned)sx_pick("hash", 0, 3); return (RK)(sx_sym(n, sizeof(RK) * 8 - 2) << 2 | l); }
        if (g_hmode == H_HALF) { static const unsigned low[] = { 0, 1, 2, 30, 63, 255 }; uint64_t l = low[sx_pick("hash", 0, 5)]; uint64_t a = sx_sym(n, 32); return (RK)(sx_sym("high", 24) << 40 | l << 32 | a); }
        return (RK)sx_sym(n, sizeof(RK) * 8);
    }
    RK sk() { last = anyKey("k"); ++nlast; return last; }
    static auto mkv(RK e, unsigned v) { if constexpr (MAP) return std::pair<K, MV>(mk(e), MV(v)); else { (void)v; return mk(e); } }
    using V = decltype(mkv(RK(), 0));
    template<class X> static const K& keyOf(const X& x) { if constexpr (MAP) return x.first; else return x; }
    template<class X> static unsigned valOf(const X& x) { if constexpr (MAP) return val(x.second); else { (void)x; return 0; } }
    static unsigned serial() { return MAP ? ++g_serial : 0; }
    static void check(const D& c, const R& r)
    {
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        static bool seen[200];
        int i = 0;
        for (int j = 0; j < r.n; ++j) seen[j] = false;
        bool all = c.visit_all([&](const V& x) {
            if (++i > r.n) sx_fail("traversal visits too many elements");
            int p = r.find(un(keyOf(x)));
            if (p < 0) sx_fail("traversal visits a key that was not inserted");
            if (seen[p]) sx_fail("traversal visits an element twice");
            seen[p] = true;
            if (MAP) SX_CHECKM(valOf(x) == r.v[p], "mapped values");
            return true;
        });
        SX_CHECK(all);
        SX_CHECKM(i == r.n, "traversal visits every element");
    }
    static void find(const D& c, const R& r) // every element is reachable by its key
    {
        for (int j = 0; j < r.n; ++j) if (!c.contains(mk(r.k[j]))) sx_fail("every key is found");
    }
    void probe(RK e)
    {
        const D& c = d;
        K k = mk(e);
        int p = r.find(e), hits = 0;
        auto f = [&](const V& x) { ++hits; SX_CHECKM(un(keyOf(x)) == e, "visited key"); if (p >= 0) SX_CHECKM(valOf(x) == r.v[p], "visited value"); };
        SX_CHECKM(c.visit(k, f) == (size_t)(p >= 0) && hits == (p >= 0), "const visit calls the functor exactly when the key is present");
        hits = 0;
        SX_CHECKM(d.visit(k, f) == (size_t)(p >= 0) && hits == (p >= 0), "visit calls the functor exactly when the key is present");
        hits = 0;
        SX_CHECKM(d.cvisit(k, f) == (size_t)(p >= 0) && hits == (p >= 0), "cvisit calls the functor exactly when the key is present");
        SX_CHECKM(c.contains(k) == (p >= 0), "contains");
        SX_CHECKM(c.count(k) == (size_t)(p >= 0), "count");
    }
    void ins(bool flag, RK e, unsigned v)
    {
        int p = r.find(e);
        SX_CHECKM(flag == (p < 0), "insertion flag");
        if (p < 0) r.insert(e, v);
    }
    void add(RK e) { unsigned v = serial(); ins(d.insert(mkv(e, v)), e, v); }
    void del(RK e) { size_t c = d.erase(mk(e)); SX_CHECKM(c == (size_t)r.erase(e), "number of erased elements"); }
    // a visitor for insertions: called exactly when the key was there, with the stored value
    template<bool MUT> auto vis(RK e, unsigned v, int& hits)
    {
        return [this, e, v, &hits](auto& x) {
            ++hits;
            int p = r.find(e);
            if (p < 0) sx_fail("a visitor is called for an absent key");
            SX_CHECKM(un(keyOf(x)) == e && valOf(x) == r.v[p], "the visitor gets the stored element");
            if constexpr (MUT && MAP) { x.second = MV(v + 1000); r.v[p] = v + 1000; }
        };
    }
    static RK key(unsigned i)
    {
        if (!WIDE) return (RK)(i * 5 + (i % 3 ? 6 : 1));
        return (RK)((uint64_t)(i % 7) << 56 | (uint64_t)(SH != seq::no_concurrency && (SH & 15) ? i & 3 : 0) << 47 | (uint64_t)i << 8 | (i % 3 ? 6 : 1)); // two buckets
    }
    void fill(int lo, int hi) { for (int i = lo; i < hi; ++i) add(key((unsigned)i)); }
    void shape(int s)
    {
        switch (s) {
            case 0: break;
            case 1: fill(0, 3); break;
            case 2: fill(0, 15); break;
            case 3: fill(0, 16); break;                   // a chained node when they share the bucket
            case 4: fill(0, 34); break;                   // two chained nodes
            case 5: fill(0, 50); for (int i = 0; i < 50; ++i) if (i % 3 == 1) del(key((unsigned)i)); break;
            case 6: fill(0, 4); d.clear(); r.clear(); break;
            case 7: fill(0, 20); for (int i = 19; i >= 2; --i) del(key((unsigned)i)); break;
            case 8: fill(0, 31); d.rehash(1); break;
        }
    }
    static constexpr int NOPS = 33;
    void op(int k)
    {
        int n = r.n;
        switch (k) {
            case 0: { RK e = sk(); unsigned v = serial(); const V x = mkv(e, v); ins(d.insert(x), e, v); break; }
            case 1: { RK e = sk(); unsigned v = serial(); V x = mkv(e, v); ins(d.emplace(std::move(x)), e, v); break; }
            case 2: case 3: {
                RK e = sk();
                unsigned v = serial();
                int hits = 0;
                bool was = r.find(e) >= 0, f;
                V x = mkv(e, v);
                if (k == 2) { if (sx_pick("c", 0, 1)) f = d.insert_or_cvisit(x, vis<false>(e, v, hits)); else f = d.insert_or_visit(x, vis<true>(e, v, hits)); }
                else { if (sx_pick("c", 0, 1)) f = d.emplace_or_cvisit(x, vis<false>(e, v, hits)); else f = d.emplace_or_visit(x, vis<true>(e, v, hits)); }
                SX_CHECKM(hits == was, "the visitor is called exactly when the key is present");
                ins(f, e, v);
                break;
            }
            case 4: { RK e = sk(); unsigned v = serial(); int hits = 0; bool was = r.find(e) >= 0; size_t c = d.visit(mk(e), vis<true>(e, v, hits)); SX_CHECK(c == (size_t)was && hits == was); break; }
            case 5: { RK e = sk(); del(e); break; }
            case 6: {
                RK e = sk();
                bool yes = sx_pick("yes", 0, 1);
                int hits = 0;
                bool was = r.find(e) >= 0;
                size_t c = d.erase_if(mk(e), [&](const V& x) { ++hits; SX_CHECKM(un(keyOf(x)) == e, "the predicate gets the element"); return yes; });
                SX_CHECKM(hits == was && c == (size_t)(was && yes), "conditional erasure");
                if (c) r.erase(e);
                break;
            }
            case 7: case 8: case 9: {
                RK e = k == 7 ? sk() : key(8);
                int x = 0, hits = 0;
                auto f = [&](const V& y) { ++hits; return un(keyOf(y)) < e; };
                size_t c = k == 7 ? d.erase_if(f) : k == 8 ? erase_if(d, f) : d.erase_if(std::execution::seq, f);
                for (int i = 0; i < n; ++i) if (r.k[x] < e) r.eraseAt(x); else ++x;
                SX_CHECKM((int)c == n - r.n && (k == 8 || hits == n), "erase_if counts and visits every element once");
                break;
            }
            case 10: case 11: case 12: case 13: {
                static RK a[36];
                int m = 0;
                switch (sx_pick("keys", 0, 3)) {
                    case 0: break;
                    case 1: a[0] = sk(); m = 1; break;
                    case 2: a[0] = key(1); a[1] = sk(); a[2] = key(20); a[3] = key(20); m = 4; break;
                    default: for (unsigned i = 0; i < 36; ++i) a[i] = key(i); m = 36;
                }
                unsigned v[36];
                for (int i = 0; i < m; ++i) v[i] = serial();
                struct Arr { alignas(V) char b[36 * sizeof(V)]; int n; V* p() { return (V*)b; } Arr() : n(0) {} ~Arr() { for (int i = 0; i < n; ++i) p()[i].~V(); } };
                Arr* arr = new Arr;
                for (int i = 0; i < m; ++i, ++arr->n) new (arr->p() + i) V(mkv(a[i], v[i]));
                const V* f = arr->p();
                int hits = 0, old = 0;
                if (k == 12) r.clear();
                for (int i = 0; i < m; ++i) if (!r.insert(a[i], v[i])) ++old;
                if (k == 10) d.insert(f, f + m);
                else if (k == 11) d.insert(InIt<V>{ f }, InIt<V>{ f + m });
                else if (k == 12) {
                    if (m == 4) { D c({ f[0], f[1], f[2], f[3] }, 0, H(1)); d = std::move(c); }
                    else { D c(f, f + m, sx_pick("buckets", 0, 1) * 40, H(3)); d = std::move(c); }
                }
                else { auto g = [&](const V&) { ++hits; }; if (m == 1) d.insert_or_cvisit({ f[0] }, g); else d.insert_or_visit(f, f + m, g); SX_CHECKM(hits == old, "the visitor is called for every key already present"); }
                delete arr;
                break;
            }
            case 14: d.clear(); r.clear(); break;
            case 15: { D c(d); check(c, r); find(c, r); if (n) { K kk = mk(r.k[0]); c.erase(kk); SX_CHECK(!c.contains(kk)); } c.insert(mkv(key(40), 1)); check(d, r); break; }
            case 16: {
                D c(0, H(7));
                int m = (int)sx_pick("m", 0, 2) * 3;
                for (int i = 0; i < m; ++i) c.insert(mkv(key(30 + (unsigned)i), 1));
                c = d;
                check(c, r);
                find(c, r);
                for (int i = 0; i < m; ++i) { RK e = key(30 + (unsigned)i); SX_CHECK(c.contains(mk(e)) == (r.find(e) >= 0)); }
                SX_CHECKM(c == d, "a copy equals the original");
                SX_CHECK(!(c != d));
                c.clear(); c.insert(mkv(key(31), 1)); SX_CHECK(c.size() == 1 && c.contains(mk(key(31))));
                check(d, r);
                D& self = d; d = self;
                break;
            }
            case 17: { D c(std::move(d)); check(c, r); R z; check(d, z); SX_CHECK(!d.contains(mk(key(0)))); if (sx_pick("use", 0, 1)) { d.insert(mkv(key(2), 1)); SX_CHECK(d.contains(mk(key(2))) && d.size() == 1); } d = std::move(c); break; }
            case 18: {
                D c(0, H(5)); R rc;
                int m = (int)sx_pick("m", 0, 1) * 3;
                for (int i = 0; i < m; ++i) { unsigned v = serial(); c.insert(mkv(key(30 + (unsigned)i), v)); rc.insert(key(30 + (unsigned)i), v); }
                c.swap(d);
                check(c, r);
                find(c, r);
                SX_CHECK(d.hash_function().salt == 5);
                if (sx_pick("back", 0, 1)) r = rc;
                else { c.swap(d); check(c, rc); }
                break;
            }
            case 19: case 20: {
                D c(0, H(sx_pick("hash", 0, 1) ? 5 : d.hash_function().salt)); R rc;
                RK e = k == 19 ? sk() : key(77);
                static const int ms[] = { 0, 2, 20 };
                int m = ms[sx_pick("m", 0, 2)];
                if (m) { unsigned v = serial(); c.insert(mkv(e, v)); rc.insert(e, v); }
                for (int i = 0; i < m; ++i) { unsigned v = serial(); RK q = key(2 * (unsigned)i); c.insert(mkv(q, v)); rc.insert(q, v); }
                int x = 0, moved = 0, cn = rc.n;
                size_t g = k == 19 ? d.merge(c) : d.merge(std::execution::seq, c);
                for (int i = 0; i < cn; ++i) if (r.insert(rc.k[x], rc.v[x])) { rc.eraseAt(x); ++moved; } else ++x;
                SX_CHECKM((int)g == moved, "merge returns the number of moved elements");
                check(c, rc);
                break;
            }
            case 21: {
                D c(0, H(sx_pick("hash", 0, 1) ? 2 : d.hash_function().salt));
                bool same = true;
                for (int i = 0; i < n; ++i) c.insert(mkv(r.k[n - 1 - i], r.v[n - 1 - i]));
                switch (sx_pick("eq", 0, MAP ? 3 : 2)) {
                    case 0: break;
                    case 1: { RK e = sk(); c.insert(mkv(e, serial())); same = r.find(e) >= 0; break; }
                    case 2: { if (!n) sx_discard(); RK e = sk(); int p = (int)sx_pick("p", 0, 1) ? n - 1 : 0; c.erase(mk(r.k[p])); unsigned v = r.v[p]; c.insert(mkv(e, v)); int f = r.find(e); same = f == p; break; }
                    default: if constexpr (MAP) { if (!n) sx_discard(); c.visit(mk(r.k[n / 2]), [](V& x) { x.second = MV(~0u); }); same = false; }
                }
                SX_CHECKM((c == d) == same, "operator==");
                SX_CHECKM((d != c) == !same, "operator!=");
                SX_CHECKM(d == d, "a container equals itself");
                break;
            }
            case 22: { static const int s[] = { 0, 1, 2, 16, 17, 200 }; d.rehash((size_t)s[sx_pick("buckets", 0, 5)]); break; }
            case 23: { static const int s[] = { 0, 1, 64, 100 }; d.reserve((size_t)s[sx_pick("count", 0, 3)]); break; }
            case 24: { if (sx_pick("mlf", 0, 1)) d.max_load_factor(0.1f); else d.max_load_factor(2.f); SX_CHECK(d.load_factor() <= 100.f); for (unsigned i = 0; i < 5; ++i) add(key(60 + i)); break; }
            case 25: { // traversal stops when the visitor returns false
                int stop = (int)sx_pick("stop", 0, 2), c = 0, form = (int)sx_pick("form", 0, 3);
                auto f = [&](const V&) { return c++ != stop; };
                const D& cd = d;
                bool a = form == 0 ? d.visit_all(f) : form == 1 ? cd.visit_all(f) : form == 2 ? d.cvisit_all(f) : d.visit_all(std::execution::seq, f);
                SX_CHECKM(a == (stop >= n), "visit_all returns whether every element was visited");
                if (form < 3) SX_CHECKM(c == (n < stop + 1 ? n : stop + 1), "visit_all stops when the visitor returns false");
                break;
            }
            case 26: if constexpr (MAP) { d.visit_all([&](V& x) { unsigned v = ++g_serial; int p = r.find(un(keyOf(x))); x.second = MV(v); r.v[p] = v; }); } else sx_discard(); break;
            case 27: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); ins(d.try_emplace(mk(e), MV(v)), e, v); } else sx_discard(); break;
            case 28: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); bool f; const K kk = mk(e); if (sx_pick("form", 0, 1)) f = d.insert_or_assign(kk, MV(v)); else f = d.insert_or_assign(mk(e), MV(v)); int p = r.find(e); if (p >= 0) r.v[p] = v; ins(f, e, v); } else sx_discard(); break;
            case 29: case 30: if constexpr (MAP) {
                RK e = sk();
                unsigned v = serial();
                int hits = 0;
                bool was = r.find(e) >= 0, f;
                if (k == 29) { const K kk = mk(e); if (sx_pick("c", 0, 1)) f = d.try_emplace_or_cvisit(kk, MV(v), vis<false>(e, v, hits)); else f = d.try_emplace_or_visit(kk, MV(v), vis<true>(e, v, hits)); }
                else { if (sx_pick("c", 0, 1)) f = d.try_emplace_or_cvisit(mk(e), MV(v), vis<false>(e, v, hits)); else f = d.emplace_or_visit(mk(e), MV(v), vis<true>(e, v, hits)); }
                SX_CHECKM(hits == was, "the visitor is called exactly when the key is present");
                ins(f, e, v);
            } else sx_discard(); break;
            case 31: { RK e = sk(); int p = r.find(e); if (p < 0) sx_discard(); del(e); check(d, r); add(e); break; }
            case 32: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); ins(d.emplace(mk(e), MV(v)), e, v); } else sx_discard(); break;
        }
        check(d, r);
    }
    template<class F> static void run(unsigned mode, F f)
    {
        { D warm; warm.insert(mkv(key(0), 0)); } // function-local statics
        long o0 = g_objs;
        g_hmode = mode;
        uint64_t l0 = sx_live();
        { CMap* x = new CMap(mode == H_ID ? 0 : 9); f(*x); delete x; }
        SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
        SX_CHECKM(sx_live() == l0, "no memory is leaked");
        sx_reach("history completed");
    }
    static void hist(unsigned mode, int lo, int hi, int nops)
    {
        run(mode, [&](CMap& x) {
            x.shape((int)sx_pick("shape", (uint64_t)lo, (uint64_t)hi));
            for (int i = 0; i < nops; ++i) x.op((int)sx_pick("op", 0, NOPS - 1));
            if (x.nlast) x.probe(x.last); else x.probe(x.anyKey("probe"));
            find(x.d, x.r);
            sx_obs(x.d.size());
        });
    }
    static void orders(unsigned mode, int n)
    {
        run(mode, [&](CMap& x) {
            for (int i = 0; i < n; ++i) x.add(x.anyKey("k"));
            check(x.d, x.r);
            x.probe(x.anyKey("probe"));
            sx_obs(x.d.size());
        });
    }
};
using U = uint64_t;
template<unsigned SH, class K = U, class T = unsigned, class RK = U, class H = Hs> using CM = CMap<K, seq::concurrent_map<K, T, H, std::equal_to<>, std::allocator<std::pair<K, T>>, SH>, H, true, SH, RK>;
template<unsigned SH, class A = std::allocator<U>> using CS = CMap<U, seq::concurrent_set<U, Hs, std::equal_to<>, A, SH>, Hs, false, SH>;

void sx_main(int cfg)
{
    using namespace seq;
    switch (cfg) {
        SX_CASE(0, (CM<low_concurrency>::orders(H_ID, 3)));
        SX_CASE(1, (CM<low_concurrency>::hist(H_ID, 0, 1, 1)));
        SX_CASE(2, (CM<low_concurrency>::hist(H_CONST, 3, 8, 1)));
        SX_CASE(3, (CS<no_concurrency>::hist(H_ID, 2, 6, 1)));
        SX_CASE(4, (CS<no_concurrency>::hist((unsigned)sx_pick("hash", H_TOP, H_MAX - 1), 1, 4, 1)));
        SX_CASE(5, (CM<1 | shared_concurrency>::hist(H_ID, 0, 4, 1)));
        SX_CASE(6, (CS<2 | shared_concurrency>::hist(H_CONST, 0, 6, 1)));
        SX_CASE(7, (CM<1, Obj, Obj, unsigned>::hist(H_LOW2, 0, 4, 1)));
        SX_CASE(8, (CS<low_concurrency, LAlloc<U>>::hist(H_ID, 1, 4, 1)));
        SX_CASE(9, (CM<medium_concurrency, U, Rel, U, Hm>::hist(H_CONST, 0, 2, 1)));
        SX_CASE(10, (CM<low_concurrency>::hist(H_ID, 1, 1, 2)));
        SX_CASE(11, (CM<low_concurrency>::hist(H_CONST, 2, 3, 2)));
        SX_CASE(12, (CM<2 | shared_concurrency>::hist(H_ID, 0, 8, 1)));
    }
}
