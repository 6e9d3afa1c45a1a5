// flat_set / flat_map / flat_multiset / flat_multimap against ordered reference models (C04, C05).
#pragma once
#include "elems.h"
// Small buckets, so that a few elements exercise several (configuration macro of tiered_vector.hpp).
#define SEQ_MIN_BUCKET_SIZE(T) 2
#include <seq/flat_map.hpp>

// key conversions: reference keys are plain integers, order preserving
template<class K, class = void> struct Key
{
    static K mk(unsigned k) { return K(k); }
    static unsigned un(const K& k) { return val(k); }
};
struct Str { using T = seq::tiny_string<char>; };
template<> struct Key<Str::T>
{
    static Str::T mk(unsigned k) { char c[2] = { (char)(k >> 8), (char)k }; return Str::T(c, (size_t)2); }
    static unsigned un(const Str::T& s) { if (s.size() != 2) sx_fail("stored string key has an unexpected size"); return ((unsigned)(unsigned char)s[0] << 8) | (unsigned char)s[1]; }
};
struct Greater // stateful comparator: descending when g is set
{
    bool g = true;
    Greater() {}
    explicit Greater(bool x) : g(x) {}
    template<class A, class B> bool operator()(const A& a, const B& b) const { return g ? b < a : a < b; }
};
static unsigned g_serial;
static bool g_light;

template<class K, bool MAP> struct VT { using type = std::pair<K, unsigned>; static const K& key(const type& v) { return v.first; } static unsigned mapped(const type& v) { return v.second; } static type mk(unsigned k, unsigned v) { return type(Key<K>::mk(k), v); } };
template<class K> struct VT<K, false> { using type = K; static const K& key(const type& v) { return v; } static unsigned mapped(const type&) { return 0; } static type mk(unsigned k, unsigned) { return Key<K>::mk(k); } };

template<class D, class K, bool MAP, bool MULTI, bool STABLE, bool DESC = false, int KBITS = 32>
struct Flat
{
    using W = VT<K, MAP>;
    using V = typename W::type;
    using R = ROrd<unsigned, unsigned, 130, MULTI>;
    using const_iterator = typename D::const_iterator;
    D d;
    R r;
    static unsigned enc(unsigned k) { return DESC ? ~k : k; }
    static unsigned dec(unsigned k) { return DESC ? ~k : k; }
    static K mk(unsigned e) { return Key<K>::mk(dec(e)); }
    static V mkv(unsigned e, unsigned v) { return W::mk(dec(e), v); }
    static unsigned key(const V& v) { return enc(Key<K>::un(W::key(v))); }
    static unsigned serial() { return MAP ? ++g_serial : 0; }
    static unsigned sk(const char* n) { return enc((unsigned)sx_sym(n, KBITS)); }
    static void check(const D& c, const R& r)
    {
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        int i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) {
            if (i >= r.n) sx_fail("iteration runs past the end");
            SX_CHECKM(key(*it) == r.k[i], "keys in comparator order");
            if (MAP) SX_CHECKM(W::mapped(*it) == r.v[i], "mapped values");
            SX_CHECKM(&c.pos((size_t)i) == &*it, "positional access");
        }
        SX_CHECK(i == r.n);
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            if (!i) sx_fail("reverse iteration runs past the begin");
            --i;
            SX_CHECKM(key(*it) == r.k[i], "reverse iteration");
        }
    }
    void obs()
    {
        sx_obs(d.size());
        for (size_t i = 0; i < d.size(); ++i) { sx_obs(key(d.pos(i))); sx_obs(W::mapped(d.pos(i))); }
    }
    void probe(unsigned e)
    {
        const D& c = d;
        K k = mk(e);
        int lo = r.lb(e), hi = r.ub(e);
        SX_CHECKM((int)c.lower_bound_pos(k) == lo, "lower_bound");
        SX_CHECKM((int)c.upper_bound_pos(k) == hi, "upper_bound");
        SX_CHECKM(c.lower_bound(k) - c.begin() == lo, "lower_bound iterator");
        SX_CHECKM(c.upper_bound(k) - c.begin() == hi, "upper_bound iterator");
        SX_CHECKM(c.contains(k) == (lo != hi), "contains");
        SX_CHECKM((int)c.count(k) == hi - lo, "count");
        SX_CHECKM((int)c.find_pos(k) == (lo != hi ? lo : r.n), "find position");
        SX_CHECKM(c.find(k) - c.begin() == (lo != hi ? lo : r.n), "find");
        auto er = c.equal_range_pos(k);
        SX_CHECKM((int)er.first == lo && (int)er.second == hi, "equal_range positions");
        auto ei = c.equal_range(k);
        SX_CHECKM(ei.first - c.begin() == lo && ei.second - c.begin() == hi, "equal_range iterators");
        auto em = d.equal_range(k);
        SX_CHECKM(em.first - d.begin() == lo && em.second - d.begin() == hi, "equal_range mutable iterators");
        SX_CHECKM(d.lower_bound(k) - d.begin() == lo && d.upper_bound(k) - d.begin() == hi, "mutable bounds");
        if constexpr (MAP) {
            bool t = false;
            unsigned x = 0;
            try { x = c.at(k); } catch (const std::out_of_range&) { t = true; }
            SX_CHECKM(t == (lo == hi), "at() throws exactly for absent keys");
            if (!t) SX_CHECKM(x == r.v[lo], "at() returns the mapped value");
        }
    }
    int ins(unsigned e, unsigned v, bool* ok)
    {
        int w = 0;
        *ok = r.insert(e, v, &w);
        return w;
    }
    template<class P> void ret(const P& p, int w, bool ok)
    {
        if constexpr (MULTI) { (void)ok; SX_CHECKM(p - d.begin() == w, "iterator to the inserted element"); }
        else { SX_CHECKM(p.first - d.begin() == w, "iterator to the element"); SX_CHECKM(p.second == ok, "insertion flag"); }
    }
    void add(unsigned e) { bool ok; unsigned v = serial(); auto p = d.insert(mkv(e, v)); int w = ins(e, v, &ok); ret(p, w, ok); }
    // keys are multiples of 10 (multi: with duplicates), inserted in several orders, so that the buckets wrap
    void shape(int mx)
    {
        static const int N[] = { 0, 1, 2, 3, 5, 8, 11, 17 };
        int n = N[sx_pick("shape", 0, (uint64_t)mx)];
        int w = n > 2 ? (int)sx_pick("order", 0, 2) : 0;
        for (int i = 0; i < n; ++i) {
            int j = w == 0 ? i : w == 1 ? n - 1 - i : (i & 1 ? i / 2 : n - 1 - i / 2);
            add(enc((unsigned)(MULTI ? (j / 3) * 10 + 10 : j * 10 + 10)));
        }
        if (n > 3 && w == 2) { d.erase(d.begin()); r.eraseAt(0); d.erase(d.begin() + 1); r.eraseAt(1); }
    }
    int pos(const char* nm, int lo, int n)
    {
        if (g_light) {
            if (n - lo < 3) return (int)sx_pick(nm, (uint64_t)lo, (uint64_t)n);
            int p[] = { lo + 1, lo + (n - lo) / 2, n - 1 };
            return p[sx_pick(nm, 0, 2)];
        }
        return (int)sx_pick(nm, (uint64_t)lo, (uint64_t)n);
    }
    // a few keys: symbolic, duplicated and concrete ones
    int keys(unsigned* a, bool dup = true)
    {
        int pat = (int)sx_pick("keys", 0, 5);
        switch (pat) {
            case 0: return 0;
            case 1: a[0] = sk("k"); return 1;
            case 2: if (!dup) sx_discard(); a[0] = a[1] = sk("k"); return 2;
            case 3: a[0] = enc(35); a[1] = sk("k"); a[2] = enc(5); return 3;
            case 4: { static const unsigned c[] = { 5, 25, 45, 20, 65, 85, 1, 105, 120 }; int m = dup ? 9 : 9; for (int i = 0; i < m; ++i) a[i] = enc(c[i]); return m; }
            default: if (!dup) sx_discard(); a[0] = enc(15); a[1] = sk("k"); a[2] = enc(15); a[3] = a[1]; return 4;
        }
    }
    int sorted_keys(unsigned* a)
    {
        a[0] = sk("k");
        int m = (int)sx_pick("m", 0, 3);
        for (int i = 1; i < m; ++i) { a[i] = a[0] + (unsigned)i * (MULTI && i > 1 ? 0u : 7u); if (MULTI && i > 1) a[i] = a[i - 1]; sx_assume(!(a[i] < a[i - 1])); if (KBITS < 32) sx_assume(dec(a[i]) < (1u << (KBITS & 31))); }
        return m;
    }
    static constexpr int NOPS = 34;
    void op(bool light)
    {
        g_light = light;
        static const int L[] = { 0, 6, 7, 2, 11 };
        int k = light ? L[sx_pick("op", 0, 4)] : (int)sx_pick("op", 0, NOPS - 1);
        int n = r.n, w;
        bool ok;
        switch (k) {
            case 0: { unsigned e = sk("k"), v = serial(); const V x = mkv(e, v); auto p = d.insert(x); w = ins(e, v, &ok); ret(p, w, ok); break; }
            case 1: { unsigned e = sk("k"), v = serial(); V x = mkv(e, v); auto p = d.emplace(std::move(x)); w = ins(e, v, &ok); ret(p, w, ok); break; }
            case 2: case 3: {
                unsigned e = sk("k"), v = serial();
                int h = pos("hint", 0, n);
                const V x = mkv(e, v);
                auto it = k == 2 ? d.insert(d.begin() + h, x) : d.emplace_hint(d.begin() + h, x);
                int at = (int)(it - d.begin());
                if (MULTI) { // anywhere among the equivalent keys
                    int lo = r.lb(e), hi = r.ub(e);
                    SX_CHECKM(lo <= at && at <= hi, "hinted insertion keeps the order");
                    r.insAt(at, e, v);
                }
                else { w = ins(e, v, &ok); SX_CHECKM(at == w, "iterator to the element"); }
                break;
            }
            case 4: { unsigned e = sk("k"); V x = mkv(e, 1); (void)x; unsigned v = serial(); V y = mkv(e, v); auto p = d.emplace_pos(y); w = ins(e, v, &ok); if constexpr (MULTI) SX_CHECK((int)p == w); else { SX_CHECK((int)p.first == w); SX_CHECK(p.second == ok); } break; }
            case 5: { unsigned e = sk("k"), v = serial(); const V x = mkv(e, v); auto p = d.insert_pos(x); w = ins(e, v, &ok); if constexpr (MULTI) SX_CHECK((int)p == w); else { SX_CHECK((int)p.first == w); SX_CHECK(p.second == ok); } break; }
            case 6: { unsigned e = sk("k"); auto c = d.erase(mk(e)); SX_CHECKM((int)c == r.erase(e), "number of erased elements"); break; }
            case 7: { if (!n) sx_discard(); int p = pos("p", 0, n - 1); auto it = d.erase(d.begin() + p); r.eraseAt(p); SX_CHECK(it - d.begin() == p); break; }
            case 8: { int p = pos("p", 0, n), q = pos("q", p, n); auto it = d.erase(d.begin() + p, d.begin() + q); for (int i = p; i < q; ++i) r.eraseAt(p); SX_CHECK(it - d.begin() == p); break; }
            case 9: { if (!n) sx_discard(); int p = pos("p", 0, n - 1); d.erase_pos((size_t)p); r.eraseAt(p); break; }
            case 10: { int p = pos("p", 0, n), q = pos("q", p, n); d.erase((size_t)p, (size_t)q); for (int i = p; i < q; ++i) r.eraseAt(p); break; }
            case 11: case 12: case 13: case 14: case 15: { // insert, assign, construct from a range
                unsigned a[12];
                int m = keys(a);
                RVec<V, 12> s;
                if (k >= 13) r.clear();
                unsigned v[12];
                for (int i = 0; i < m; ++i) v[i] = serial();
                struct Arr { alignas(V) char b[12 * sizeof(V)]; int n; V* p() { return (V*)b; } Arr() : n(0) {} ~Arr() { for (int i = 0; i < n; ++i) p()[i].~V(); } } arr;
                for (int i = 0; i < m; ++i, ++arr.n) new (arr.p() + i) V(mkv(a[i], v[i]));
                const V* f = arr.p();
                if (k == 11) d.insert(f, f + m);
                else if (k == 12) d.insert(InIt<V>{ f }, InIt<V>{ f + m });
                else if (k == 13) d.assign(f, f + m);
                else if (k == 14) d.assign(InIt<V>{ f }, InIt<V>{ f + m });
                else { D c(f, f + m); d = std::move(c); }
                R r0 = r;
                for (int i = 0; i < m; ++i) { int x; r.insert(a[i], v[i], &x); }
                if (MAP && !STABLE) { // which of several equivalent elements is kept is unspecified
                    SX_CHECK(d.size() == (size_t)r.n);
                    for (int i = 0; i < r.n; ++i) {
                        unsigned got = W::mapped(d.pos((size_t)i));
                        bool found = false;
                        for (int j = 0; j < m; ++j) if (v[j] == got && a[j] == r.k[i]) found = true;
                        for (int j = 0; j < r0.n; ++j) if (r0.v[j] == got && r0.k[j] == r.k[i]) found = true;
                        SX_CHECKM(found, "mapped value comes from an equivalent element");
                        r.v[i] = got;
                    }
                }
                break;
            }
            case 16: d.clear(); r.clear(); break;
            case 17: { D c(d); check(c, r); c.insert(mkv(enc(33), 1)); if (n) c.erase(c.begin()); check(d, r); SX_CHECK(!(c == d) || c.size() == d.size()); break; }
            case 18: { D c; for (int i = 0; i < (int)sx_pick("m", 0, 2) * 3; ++i) c.insert(mkv(enc((unsigned)i), 1)); c = d; check(c, r); SX_CHECK(c == d); SX_CHECK(!(c != d)); c.clear(); c.insert(mkv(enc(2), 1)); check(d, r); D& self = d; d = self; break; }
            case 19: { D c(std::move(d)); check(c, r); R z; check(d, z); d = std::move(c); break; }
            case 20: { D c; R rc; int m = (int)sx_pick("m", 0, 2) * 3; for (int i = 0; i < m; ++i) { unsigned v = serial(); c.insert(mkv(enc((unsigned)i), v)); rc.insert(enc((unsigned)i), v); } c.swap(d); check(c, r); r = rc; break; }
            case 21: { unsigned e = sk("k"); auto c = erase_if(d, [&](const V& x) { return key(x) < e; }); int x = r.lb(e); SX_CHECKM((int)c == x, "erase_if count"); for (int i = 0; i < x; ++i) r.eraseAt(0); break; }
            case 22: { int cnt = 0, j = 0; auto c = erase_if(d, [&](const V&) { return cnt++ % 2 == 0; }); for (int i = 0; i < n; ++i) if (i % 2 == 0) r.eraseAt(j); else ++j; SX_CHECK((int)c == (n + 1) / 2); break; }
            case 23: { auto c = d.extract(); R z; check(d, z); SX_CHECK((int)c.size() == n); d.replace(std::move(c)); break; }
            case 24: { unsigned a[12]; int m = sorted_keys(a); unsigned v[12]; for (int i = 0; i < m; ++i) v[i] = serial(); struct Arr { alignas(V) char b[12 * sizeof(V)]; int n; V* p() { return (V*)b; } Arr() : n(0) {} ~Arr() { for (int i = 0; i < n; ++i) p()[i].~V(); } } arr; for (int i = 0; i < m; ++i, ++arr.n) new (arr.p() + i) V(mkv(a[i], v[i])); const V* f = arr.p();
                if constexpr (MULTI) d.insert(seq::sorted_equivalent, f, f + m); else d.insert(seq::sorted_unique, f, f + m);
                for (int i = 0; i < m; ++i) r.insert(a[i], v[i]); break; }
            case 25: case 26: case 27: case 28: case 29: case 30: case 33:
                if constexpr (MAP && !MULTI) {
                    unsigned e = sk("k"), v = serial();
                    int at = r.find(e);
                    switch (k) {
                        case 25: { auto p = d.try_emplace(mk(e), v); w = ins(e, v, &ok); ret(p, w, ok); break; }
                        case 26: { auto p = d.insert_or_assign(mk(e), v); w = ins(e, v, &ok); r.v[w] = v; ret(p, w, ok); break; }
                        case 27: { const K c = mk(e); unsigned& x = d[c]; if (at < 0) { ins(e, 0, &ok); SX_CHECK(x == 0); } else SX_CHECK(x == r.v[at]); x = v; r.v[r.find(e)] = v; break; }
                        case 28: { auto p = d.try_emplace_pos(mk(e), v); w = ins(e, v, &ok); SX_CHECK((int)p.first == w); SX_CHECK(p.second == ok); break; }
                        case 29: { auto p = d.insert_or_assign_pos(mk(e), v); w = ins(e, v, &ok); r.v[w] = v; SX_CHECK((int)p.first == w); SX_CHECK(p.second == ok); break; }
                        case 30: { int h = pos("hint", 0, n); auto it = d.try_emplace(d.begin() + h, mk(e), v); w = ins(e, v, &ok); SX_CHECK(it - d.begin() == w); break; }
                        case 33: { auto p = d.emplace(mk(e), v); w = ins(e, v, &ok); ret(p, w, ok); break; }
                    }
                }
                else if constexpr (MAP) { unsigned e = sk("k"), v = serial(); auto p = d.emplace(mk(e), v); w = ins(e, v, &ok); ret(p, w, ok); if (k != 25) sx_discard(); }
                else sx_discard();
                break;
            case 31: case 32:
                if constexpr (!MAP && !MULTI && !DESC) {
                    D c;
                    R rc;
                    unsigned a[12];
                    int m = keys(a);
                    for (int i = 0; i < m; ++i) { c.insert(mkv(a[i], 0)); rc.insert(a[i], 0); }
                    if (k == 31) {
                        d.merge(c);
                        R rem;
                        for (int i = 0; i < rc.n; ++i) if (!r.insert(rc.k[i], 0)) rem.insert(rc.k[i], 0);
                        check(c, rem);
                    }
                    else { SX_CHECK((c == d) == (c.size() == d.size() && [&] { for (int i = 0; i < n; ++i) if (r.k[i] != rc.k[i]) return false; return true; }())); }
                }
                else sx_discard();
                break;
        }
        check(d, r);
    }
    static void hist(int nops, int full, int mx)
    {
        long o0 = g_objs;
        uint64_t l0 = sx_live();
        {
            Flat x;
            x.shape(mx);
            x.check(x.d, x.r);
            for (int i = 0; i < nops; ++i) x.op(i >= full);
            x.probe(sk("probe"));
            x.obs();
        }
        SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
        SX_CHECKM(sx_live() == l0, "no memory is leaked");
        sx_reach("history completed");
    }
    // lookups in larger containers
    static void look(int n, int step)
    {
        uint64_t l0 = sx_live();
        {
            Flat x;
            for (int i = 0; i < n; ++i) { int j = (i * step) % n; x.add(enc((unsigned)(MULTI ? (j / 3) * 10 + 10 : j * 10 + 10))); }
            x.check(x.d, x.r);
            x.probe(sk("probe"));
            x.obs();
        }
        SX_CHECKM(sx_live() == l0, "no memory is leaked");
    }
    // every insertion order of symbolic keys
    static void orders(int n)
    {
        uint64_t l0 = sx_live();
        {
            Flat x;
            for (int i = 0; i < n; ++i) x.add(sk("k"));
            x.check(x.d, x.r);
            x.probe(sk("probe"));
            x.obs();
        }
        SX_CHECKM(sx_live() == l0, "no memory is leaked");
    }
};
