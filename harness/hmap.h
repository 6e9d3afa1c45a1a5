// Hash sets and maps against a reference model (C08, C09).
#pragma once
#include "elems.h"
#include <seq/hash.hpp>

// ---------------------------------------------------------------- hash functions
// Which one is a global choice: every distribution below is a legal hash function of the key.
static unsigned g_hmode;
enum { H_ID, H_CONST, H_TOP, H_LOW2, H_HALF, H_MAX };
inline uint64_t hashOf(uint64_t k, unsigned salt)
{
    switch (g_hmode) {
        case H_ID: return k + salt;                 // any hash value, chosen by the key
        case H_CONST: return salt;                  // every key collides
        case H_TOP: return (k << 56) + salt;        // same bucket, different tags
        case H_LOW2: return (k & 3) + salt;         // 4 values
        case H_HALF: return (k >> 32) + salt;
        default: return (k & 1 ? ~0ull : ~0ull << 7) - salt;
    }
}
struct Hs // stateful
{
    using is_avalanching = int; // the value is used as it is
    unsigned salt;
    Hs(unsigned s = 0) noexcept : salt(s) {}
    template<class K> size_t operator()(const K& k) const noexcept { return hashOf(kv(k), salt); }
    static uint64_t kv(uint64_t k) { return k; }
    template<bool A, bool B> static uint64_t kv(const ObjT<A, B>& o) { return o.get(); }
    template<bool B> static uint64_t kv(const RelT<B>& o) { return o.get(); }
};
// not avalanching: the library mixes it
struct Hm { unsigned salt; Hm(unsigned s = 0) noexcept : salt(s) {} template<class K> size_t operator()(const K& k) const noexcept { return hashOf(Hs::kv(k), salt); } };
static unsigned g_serial;
// K: key type, D: container, MAP: has mapped values, ORD: keeps insertion order
template<class K, class D, class H, bool MAP, bool ORD, class RK = uint64_t>
struct HMap
{
    template<class T, class = void> struct Mapped { using type = unsigned; };
    template<class T> struct Mapped<T, std::void_t<typename T::mapped_type>> { using type = typename T::mapped_type; };
    using MV = typename Mapped<D>::type;
    using R = RMap<RK, unsigned, 700>;
    D d;
    R r;
    RK last = RK();
    int nlast = 0;
    bool moved = false; // references are not expected to stay valid
    bool holes = false; // an insertion without position may go anywhere
    bool big = false;   // symbolic keys take 28 values around the stored ones
    bool wide = true;   // symbolic keys take every value (otherwise low parts near the stored ones)
    explicit HMap(unsigned salt) : d(H(salt)) {}
    static K mk(RK k) { if constexpr (std::is_arithmetic_v<K>) return (K)k; else return K((unsigned)k); }
    static RK un(const K& k) { if constexpr (std::is_arithmetic_v<K>) return k; else return k.get(); }
    RK anyKey(const char* n)
    {
        if (!ORD && g_hmode == H_ID && big) { // radix tree: a few prefixes
            static const unsigned top[] = { 64, 65, 0, 200 };
            uint64_t h = top[sx_pick("top", 0, 3)];
            return (RK)(h << (sizeof(RK) * 8 - 8) | sx_sym(n, 8));
        }
        if (ORD && g_hmode == H_ID && !wide) { // the bucket in tables of up to 256 is one of seven, the rest of the key is free
            static const unsigned low[] = { 61, 62, 63, 0, 1, 30, 128 + 62 };
            RK l = low[sx_pick("bucket", 0, 6)];
            return (RK)((big ? sx_sym(n, 2) : sx_sym(n, sizeof(RK) * 8 - 8)) << 8 | l);
        }
        if (g_hmode == H_LOW2) { unsigned l = (unsigned)sx_pick("hash", 0, 3); return (RK)(sx_sym(n, sizeof(RK) * 8 - 2) << 2 | l); }
        if (g_hmode == H_HALF) { static const unsigned low[] = { 0, 1, 2, 30, 63, 255 }; uint64_t l = low[sx_pick("hash", 0, 5)]; uint64_t a = sx_sym(n, 32); return (RK)(sx_sym("high", 24) << 40 | l << 32 | a); }
        return (RK)sx_sym(n, sizeof(RK) * 8);
    }
    RK sk() { last = anyKey("k"); ++nlast; return last; }
    static auto mkv(RK e, unsigned v) { if constexpr (MAP) return std::pair<K, MV>(mk(e), MV(v)); else { (void)v; return mk(e); } }
    using V = decltype(mkv(RK(), 0));
    template<class X> static const K& keyOf(const X& x) { if constexpr (MAP) return x.first; else return x; }
    template<class X> static unsigned valOf(const X& x) { if constexpr (MAP) return val(x.second); else { (void)x; return 0; } }
    static unsigned serial() { return MAP ? ++g_serial : 0; }
    template<class C> static void check(const C& c, const R& r)
    {
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        int i = 0;
        static bool seen[700];
        if (!ORD) for (int j = 0; j < r.n; ++j) seen[j] = false;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) {
            if (i >= r.n) sx_fail("iteration runs past the end");
            int p = i;
            if (!ORD) {
                p = r.find(un(keyOf(*it)));
                if (p < 0) sx_fail("iteration shows a key that was not inserted");
                if (seen[p]) sx_fail("iteration shows an element twice");
                seen[p] = true;
            }
            else SX_CHECKM(un(keyOf(*it)) == r.k[i], "keys in insertion order");
            if (MAP) SX_CHECKM(valOf(*it) == r.v[p], "mapped values");
        }
        SX_CHECK(i == r.n);
        if constexpr (ORD) {
            auto rit = c.rbegin();
            for (int j = r.n - 1; j >= 0; --j, ++rit) SX_CHECKM(un(keyOf(*rit)) == r.k[j], "reverse iteration");
            SX_CHECK(rit == c.rend());
        }
        else if (r.n) {
            auto it = c.end();
            for (int j = 0; j < r.n; ++j) --it;
            SX_CHECKM(it == c.begin(), "reverse iteration");
        }
    }
    template<class It> void at(const It& it, int p, const char* what)
    {
        if (p < 0) { SX_CHECKM(it == d.end(), what); return; }
        if (it == d.end()) sx_fail(what);
        SX_CHECKM(un(keyOf(*it)) == r.k[p], what);
        if (MAP) SX_CHECKM(valOf(*it) == r.v[p], what);
    }
    void probe(RK e)
    {
        const D& c = d;
        K k = mk(e);
        int p = r.find(e);
        at(c.find(k), p, "find");
        at(d.find(k), p, "find");
        SX_CHECKM(c.contains(k) == (p >= 0), "contains");
        SX_CHECKM(c.count(k) == (size_t)(p >= 0), "count");
        if constexpr (MAP) {
            bool t = false;
            unsigned x = 0;
            try { x = val(c.at(k)); } catch (const std::out_of_range&) { t = true; }
            SX_CHECKM(t == (p < 0), "at() throws exactly for absent keys");
            if (!t) SX_CHECKM(x == r.v[p], "at() returns the mapped value");
        }
    }
    enum W { Any, Front, Back };
    // what an insertion must do, given the iterator and flag it returned
    template<class It> void ins(const It& it, RK e, unsigned v, W w, int flag)
    {
        int p = r.find(e);
        bool in = p >= 0;
        if (!in) {
            if (it == d.end()) sx_fail("insertion returns an iterator to the element");
            p = r.n;
            if (ORD && w == Front) p = 0;
            if (ORD && w == Any) {
                p = 0;
                for (auto i = d.cbegin(); i != d.cend() && i != it; ++i) ++p;
                if (!holes) SX_CHECKM(p == r.n, "a new element goes to the end");
            }
            r.insert(e, v);
            for (int i = r.n - 1; i > p; --i) { r.k[i] = r.k[i - 1]; r.v[i] = r.v[i - 1]; }
            r.k[p] = e; r.v[p] = v;
            if (w == Front) holes = true;
        }
        at(it, p, "iterator to the element");
        if (flag >= 0) SX_CHECKM((bool)flag == !in, "insertion flag");
    }
    template<class P> void ret(const P& p, RK e, unsigned v, W w = Any) { ins(p.first, e, v, w, p.second); }
    void add(RK e) { unsigned v = serial(); ret(d.insert(mkv(e, v)), e, v); }
    void del(RK e) { size_t c = d.erase(mk(e)); bool was = r.erase(e); SX_CHECKM(c == (size_t)was, "number of erased elements"); if (was) holes = true; }
    typename D::const_iterator iter(int p) { auto it = ((const D&)d).begin(); for (int i = 0; i < p; ++i) ++it; return it; }
    RK keyAt(int p) { return ORD ? r.k[p] : un(keyOf(*iter(p))); }
    void pushb(RK e) { unsigned v = serial(); if constexpr (ORD) ret(d.push_back(mkv(e, v)), e, v, Back); else add(e); }
    int pick(const char* n, int lo, int hi)
    {
        if (hi - lo < 5) return (int)sx_pick(n, (uint64_t)lo, (uint64_t)hi);
        int p[] = { lo, lo + 1, (lo + hi) / 2, hi - 1, hi };
        return p[sx_pick(n, 0, 4)];
    }
    static RK key(unsigned i) {
        if (!ORD) return (RK)((uint64_t)(i & 1 ? 64 : 65) << (sizeof(RK) * 8 - 8) | i * 3);
        return (RK)((uint64_t)i * 0x100000040ull + (i % 3 ? 62 : 61)); } // clustered around the end of a 64-entry table
    void fill(int lo, int hi, bool spread = false) { for (int i = lo; i < hi; ++i) add(spread ? (RK)(i * 3) : key((unsigned)i)); }
    void shape(int s)
    {
        switch (s) {
            case 0: break;
            case 1: fill(0, 3); break;
            case 2: fill(0, 9); break;
            case 3: fill(0, ORD ? 8 : 40); big = !ORD; del(key(3)); del(key(0)); pushb(key(3)); break;
            case 4: fill(0, 63, true); big = true; break;                                          // the next insertion rehashes
            case 5: fill(0, 128); wide = false; big = !ORD; break;                                 // long probe sequences
            case 6: shape(5); for (int i = 0; i < 128; ++i) if (i % 4) del(key((unsigned)i)); break;
            case 7: shape(6); for (int i = 0; i < 4; ++i) add(key((unsigned)i)); break;    // erased, inserted again
            case 8: fill(0, 3); d.clear(); r.clear(); holes = false; break;
            case 9: fill(0, 63, true); big = true; for (int i = 0; i < 60; ++i) del((RK)(i * 3)); break;
            case 10: fill(0, 13); break;
        }
    }
    int keys(RK* a)
    {
        switch (sx_pick("keys", 0, 3)) {
            case 0: return 0;
            case 1: a[0] = sk(); return 1;
            case 2: a[0] = key(1); a[1] = sk(); a[2] = key(20); a[3] = key(20); return 4;
            default: for (unsigned i = 0; i < 70; ++i) a[i] = key(i); return 70;
        }
    }
    void forget(int p) { if (!ORD) { RK e = keyAt(p); p = r.find(e); } r.eraseAt(p); holes = true; }
    static constexpr int NOPS = 34;
    void op(int k)
    {
        int n = r.n;
        switch (k) {
            case 0: { RK e = sk(); unsigned v = serial(); const V x = mkv(e, v); ret(d.insert(x), e, v); break; }
            case 1: { RK e = sk(); unsigned v = serial(); V x = mkv(e, v); ret(d.emplace(std::move(x)), e, v); break; }
            case 2: { RK e = sk(); unsigned v = serial(); const V x = mkv(e, v); ins(d.insert(d.cbegin(), x), e, v, Any, -1); break; }
            case 3: { RK e = sk(); unsigned v = serial(); V x = mkv(e, v); ins(d.emplace_hint(d.cend(), std::move(x)), e, v, Any, -1); break; }
            case 4: { RK e = sk(); del(e); break; }
            case 5: {
                if (!n) sx_discard();
                int p = pick("p", 0, n - 1);
                auto i = iter(p);
                forget(p);
                auto it = d.erase(i);
                if (ORD) { if (p == r.n) SX_CHECK(it == d.end()); else at(it, p, "iterator after the erased element"); }
                else { int j = 0; for (auto x = d.cbegin(); x != d.cend() && x != it; ++x) ++j; SX_CHECKM(j == p, "iterator after the erased element"); }
                break;
            }
            case 6: {
                int p = pick("p", 0, n);
                int q = pick("q", p, n);
                auto i = iter(p), j = iter(q);
                if constexpr (ORD) for (int x = p; x < q; ++x) forget(p);
                else { RK e[256]; int m = 0; for (auto x = i; x != j; ++x) e[m++] = un(keyOf(*x)); for (int x = 0; x < m; ++x) r.erase(e[x]); }
                auto it = d.erase(i, j);
                if (ORD) { if (p == r.n) SX_CHECK(it == d.end()); else at(it, p, "iterator after the erased range"); }
                else { int c = 0; for (auto x = d.cbegin(); x != d.cend() && x != it; ++x) ++c; SX_CHECKM(c == p, "iterator after the erased range"); }
                break;
            }
            case 7: case 8: case 9: case 10: {
                static RK a[72];
                int m = keys(a);
                unsigned v[72];
                for (int i = 0; i < m; ++i) v[i] = serial();
                struct Arr { alignas(V) char b[72 * sizeof(V)]; int n; V* p() { return (V*)b; } Arr() : n(0) {} ~Arr() { for (int i = 0; i < n; ++i) p()[i].~V(); } };
                Arr* arr = new Arr;
                for (int i = 0; i < m; ++i, ++arr->n) new (arr->p() + i) V(mkv(a[i], v[i]));
                const V* f = arr->p();
                if (k >= 9) { r.clear(); holes = false; }
                if (k == 7) d.insert(f, f + m);
                else if (k == 8) d.insert(InIt<V>{ f }, InIt<V>{ f + m });
                else if (k == 9) { D c(f, f + m, H(3)); d = std::move(c); }
                else if (m == 1) d = D{ { f[0] }, H(1) };
                else if (m == 4) d.clear(), d.insert({ f[0], f[1], f[2], f[3] });
                else sx_discard();
                if (!ORD || !holes) for (int i = 0; i < m; ++i) r.insert(a[i], v[i]);
                else { // somewhere: take the order from the container, the rest must agree
                    R old = r;
                    for (int i = 0; i < m; ++i) r.insert(a[i], v[i]);
                    R now; int j = 0;
                    for (auto it = d.cbegin(); it != d.cend(); ++it) {
                        RK e = un(keyOf(*it));
                        int p = r.find(e);
                        if (p < 0) sx_fail("range insertion adds a key of its own");
                        if (j < old.n && p < old.n) { SX_CHECKM(p == j, "earlier elements keep their order"); ++j; }
                        if (!now.insert(e, r.v[p])) sx_fail("a key is stored twice");
                    }
                    SX_CHECKM(now.n == r.n, "range insertion inserts every key");
                    r = now;
                }
                delete arr;
                break;
            }
            case 11: d.clear(); r.clear(); holes = false; break;
            case 12: { D c(d); check(c, r); if (n) { K kk = mk(keyAt(0)); SX_CHECK(c.contains(kk)); c.erase(kk); SX_CHECK(!c.contains(kk)); } c.insert(mkv(key(40), 1)); check(d, r); break; }
            case 13: {
                D c(H(7));
                int m = (int)sx_pick("m", 0, 2) * 3;
                for (int i = 0; i < m; ++i) c.insert(mkv(key(30 + (unsigned)i), 1));
                c = d;
                check(c, r);
                for (int i = 0; i < n; ++i) { RK e = r.k[i]; if (!c.contains(mk(e))) sx_fail("a copy contains the keys of the original"); }
                for (int i = 0; i < m; ++i) { RK e = key(30 + (unsigned)i); SX_CHECK(c.contains(mk(e)) == (r.find(e) >= 0)); }
                SX_CHECK(c == d);
                SX_CHECK(!(c != d));
                c.clear(); c.insert(mkv(key(31), 1)); SX_CHECK(c.size() == 1);
                check(d, r);
                D& self = d; d = self;
                break;
            }
            case 14: { D c(std::move(d)); check(c, r); R z; check(d, z); SX_CHECK(!d.contains(mk(key(0)))); if (sx_pick("use", 0, 1)) { d.insert(mkv(key(2), 1)); SX_CHECK(d.contains(mk(key(2))) && d.size() == 1); } d = std::move(c); break; }
            case 15: {
                D c(H(5)); R rc;
                int m = (int)sx_pick("m", 0, 1) * 3;
                for (int i = 0; i < m; ++i) { unsigned v = serial(); c.insert(mkv(key(30 + (unsigned)i), v)); rc.insert(key(30 + (unsigned)i), v); }
                c.swap(d);
                check(c, r);
                SX_CHECK(d.hash_function().salt == 5);
                for (int i = 0; i < n; ++i) { RK e = r.k[i]; if (!c.contains(mk(e))) sx_fail("a swapped container contains the keys"); }
                if (sx_pick("back", 0, 1)) { c.insert(mkv(key(50), 1)); SX_CHECK(c.size() == (size_t)n + (r.find(key(50)) < 0)); r = rc; holes = false; }
                else { c.swap(d); check(c, rc); }
                break;
            }
            case 16: { RK e = sk(); int x = 0, m = n; auto c = erase_if(d, [&](const auto& y) { return un(keyOf(y)) < e; }); for (int i = 0; i < m; ++i) if (r.k[x] < e) r.eraseAt(x); else ++x; SX_CHECKM((int)c == m - r.n, "erase_if count"); if (m != r.n) holes = true; break; }
            case 17: {
                D c(H(2)); R rc;
                bool same = true;
                for (int i = 0; i < n; ++i) c.insert(mkv(r.k[n - 1 - i], r.v[n - 1 - i]));
                switch (sx_pick("eq", 0, MAP ? 3 : 2)) {
                    case 0: break;
                    case 1: { RK e = sk(); c.insert(mkv(e, serial())); same = r.find(e) >= 0; break; }
                    case 2: { if (!n) sx_discard(); RK e = sk(); int p = pick("p", 0, n - 1); c.erase(mk(r.k[p])); unsigned v = r.v[p]; c.insert(mkv(e, v)); int f = r.find(e); same = f == p; break; }
                    default: if constexpr (MAP) { if (!n) sx_discard(); int p = pick("p", 0, n - 1); c.at(mk(r.k[p])) = MV(~0u); same = false; }
                }
                SX_CHECKM((c == d) == same, "operator==");
                SX_CHECKM((d != c) == !same, "operator!=");
                break;
            }
            case 18: d.rehash(); break;
            case 19: { static const int s[] = { 1, 2, 3, 64, 65, 200 }; d.rehash((size_t)s[sx_pick("buckets", 0, 5)]); break; }
            case 20: { static const int s[] = { 0, 1, 64, 100 }; d.reserve((size_t)s[sx_pick("count", 0, 3)]); break; }
            case 21: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); ret(d.try_emplace(mk(e), MV(v)), e, v); } else sx_discard(); break;
            case 22: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); auto p = d.insert_or_assign(mk(e), MV(v)); int f = r.find(e); if (f >= 0) r.v[f] = v; ret(p, e, v); } else sx_discard(); break;
            case 23: if constexpr (MAP) {
                RK e = sk();
                unsigned v = serial();
                int f = r.find(e);
                MV& x = d[mk(e)];
                if (f < 0) { SX_CHECK(val(x) == 0); ins(d.find(mk(e)), e, 0, Any, -1); } else SX_CHECK(val(x) == r.v[f]);
                x = MV(v);
                r.v[r.find(e)] = v;
            } else sx_discard(); break;
            case 24: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); ins(d.try_emplace(d.cbegin(), mk(e), MV(v)), e, v, Any, -1); } else sx_discard(); break;
            case 25: if constexpr (MAP) { RK e = sk(); unsigned v = serial(); const K kk = mk(e); auto it = d.insert_or_assign(d.cbegin(), kk, MV(v)); int f = r.find(e); if (f >= 0) r.v[f] = v; ins(it, e, v, Any, -1); } else sx_discard(); break;
            case 26: case 27: if constexpr (ORD) {
                RK e = sk();
                unsigned v = serial();
                V x = mkv(e, v);
                if (k == 26) { if (sx_pick("form", 0, 1)) ret(d.push_back(std::move(x)), e, v, Back); else { const V& y = x; ret(d.emplace_back(y), e, v, Back); } }
                else { if (sx_pick("form", 0, 1)) ret(d.push_front(std::move(x)), e, v, Front); else { const V& y = x; ret(d.emplace_front(y), e, v, Front); } }
            } else sx_discard(); break;
            case 28: if constexpr (ORD && MAP) {
                RK e = sk();
                unsigned v = serial();
                switch (sx_pick("form", 0, 3)) {
                    case 0: ret(d.try_emplace_back(mk(e), MV(v)), e, v, Back); break;
                    case 1: ret(d.try_emplace_front(mk(e), MV(v)), e, v, Front); break;
                    case 2: { auto p = d.push_back_or_assign(mk(e), MV(v)); int f = r.find(e); if (f >= 0) r.v[f] = v; ret(p, e, v, Back); break; }
                    default: { auto p = d.push_front_or_assign(mk(e), MV(v)); int f = r.find(e); if (f >= 0) r.v[f] = v; ret(p, e, v, Front); break; }
                }
            } else sx_discard(); break;
            case 29: if constexpr (ORD) {
                bool down = sx_pick("down", 0, 1);
                if (down) d.sort([](const auto& a, const auto& b) { return un(b) < un(a); });
                else d.sort();
                for (int i = 1; i < r.n; ++i) for (int j = i; j > 0 && (down ? r.k[j - 1] < r.k[j] : r.k[j] < r.k[j - 1]); --j) {
                    RK t = r.k[j]; r.k[j] = r.k[j - 1]; r.k[j - 1] = t;
                    unsigned u = r.v[j]; r.v[j] = r.v[j - 1]; r.v[j - 1] = u;
                }
                holes = true;
            } else sx_discard(); break;
            case 30: if constexpr (ORD) { d.shrink_to_fit(); holes = false; } else sx_discard(); break;
            case 31: if constexpr (ORD) { // direct modification of the sequence, duplicates included
                auto& s = d.sequence();
                RK e = sk();
                unsigned v = serial(), v2 = serial();
                s.push_back(mkv(e, v));
                s.push_back(mkv(key(1), v2));
                bool t = false;
                try { d.contains(mk(e)); } catch (const std::logic_error&) { t = true; }
                SX_CHECKM(t, "lookups throw until rehash()");
                t = false;
                try { d.insert(mkv(e, v)); } catch (const std::logic_error&) { t = true; }
                SX_CHECKM(t, "insertions throw until rehash()");
                if (sx_pick("dirtycopy", 0, 1)) { D c(H(4)); c = d; d = std::move(c); moved = true; }
                d.rehash();
                r.insert(e, v);
                r.insert(key(1), v2);
                holes = true;
            } else sx_discard(); break;
            case 32: d.max_load_factor(0.9f); for (unsigned i = 0; i < 5; ++i) add(key(100 + i)); break;
            case 33: { RK e = sk(); int p = r.find(e); if (p < 0) sx_discard(); del(e); check(d, r); add(e); break; } // erase, insert again
        }
        check(d, r);
    }
    template<class F> static void run(unsigned mode, F f)
    {
        long o0 = g_objs;
        g_hmode = mode;
        uint64_t l0 = sx_live();
        { HMap* x = new HMap(mode == H_ID ? 0 : 9); f(*x); delete x; }
        SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
        SX_CHECKM(sx_live() == l0, "no memory is leaked");
        sx_reach("history completed");
    }
    static void hist(unsigned mode, int lo, int hi, int nops, bool wide = false)
    {
        run(mode, [&](HMap& x) {
            x.wide = wide;
            x.shape((int)sx_pick("shape", (uint64_t)lo, (uint64_t)hi));
            // references and iterators to surviving elements
            struct { const void* p; RK k; } ref[3] = {};
            int nr = 0;
            bool stable = false;
            for (int i = 0; i < nops; ++i) {
                int k = (int)sx_pick("op", 0, NOPS - 1);
                if (ORD && i == 0 && !(k >= 9 && k <= 15) && k != 29 && k != 30) {
                    stable = true;
                    int ps[] = { 0, x.r.n / 2, x.r.n - 1 };
                    if (x.r.n) for (int p : ps) { auto it = x.iter(p); ref[nr].p = &*it; ref[nr].k = x.r.k[p]; ++nr; }
                }
                else stable = false;
                x.op(k);
                if (k == 33 || x.moved) stable = false;
                if (stable) for (int j = 0; j < nr; ++j) {
                    if (x.r.find(ref[j].k) < 0) continue;
                    auto it = x.d.find(mk(ref[j].k));
                    if (it == x.d.end()) sx_fail("a surviving element is found");
                    SX_CHECKM((const void*)&*it == ref[j].p, "references to surviving elements stay valid");
                }
            }
            if (x.nlast) x.probe(x.last); else x.probe(x.anyKey("probe"));
            for (unsigned i = 0; i < 4; ++i) x.probe(key(i * 7));
            sx_obs(x.d.size());
        });
    }
    static void orders(unsigned mode, int n)
    {
        run(mode, [&](HMap& x) {
            x.wide = false;
            for (int i = 0; i < n; ++i) x.add(x.anyKey("k"));
            check(x.d, x.r);
            x.probe(x.anyKey("probe"));
            sx_obs(x.d.size());
        });
    }
};
