//@cfg 0 : devector<unsigned>: 2 operations from every pre-state shape
//@cfg 1 : devector of self-checking non-relocatable objects: 2 operations
//@cfg 2 : devector of relocatable owning objects: 2 operations
//@cfg 3 thorough : devector<unsigned>: 3 operations
//@cfg 4 thorough : devector of non-relocatable objects: 3 operations
//@cfg 5 thorough : devector of relocatable owning objects: 3 operations
//@cfg 6 : push/pop histories of 7 operations at both ends (growth and in-place recentring), unsigned
//@cfg 7 : push/pop histories of 7 operations at both ends, non-relocatable objects
//@bounds pre-states: empty; 1 to 8 elements with every combination of {no, ample} front and back slack; after shrink_to_fit; after move-out. Histories: 2 (quick) or 3 (thorough) operations chosen from 33, every position, count 0..3, target sizes 0..10; all element values symbolic (32 bit)
//@outside longer histories, more than about 14 elements, element types other than the three modelled
#include "elems.h"
#include <seq/devector.hpp>

template<class T> struct Run
{
    using D = seq::devector<T>;
    using R = RVec<unsigned, 40>;
    D d;
    R r;
    static unsigned sv(const char* n) { return (unsigned)sx_sym(n, 32); }
    static void check(D& d, R& r)
    {
        const D& c = d;
        SX_CHECK(c.size() == (size_t)r.n);
        SX_CHECK(c.empty() == (r.n == 0));
        SX_CHECK(c.capacity() >= c.size());
        SX_CHECK(c.front_capacity() + c.back_capacity() + c.size() == c.capacity());
        for (int i = 0; i < r.n; ++i) SX_CHECK(val(c[(size_t)i]) == r[i]);
        int i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) SX_CHECK(val(*it) == r[i]);
        SX_CHECK(i == r.n);
        for (auto it = c.rbegin(); it != c.rend(); ++it) SX_CHECK(val(*it) == r[--i]);
        if (r.n) {
            SX_CHECK(val(c.front()) == r[0]);
            SX_CHECK(val(c.back()) == r[r.n - 1]);
            SX_CHECK(val(c.at((size_t)r.n - 1)) == r[r.n - 1]);
            SX_CHECK(c.data() == &c[0]);
        }
    }
    void obs()
    {
        sx_obs(d.size());
        for (size_t i = 0; i < d.size(); ++i) sx_obs(val(d[i]));
    }
    void shape()
    {
        int s = (int)sx_pick("shape", 0, 7);
        static const int N[] = { 0, 1, 3, 4, 4, 6, 8, 5 };
        int n = N[s];
        for (int i = 0; i < n; ++i) { unsigned v = sv("e"); d.push_back(T(v)); r.push_back(v); }
        switch (s) {
            case 1: d.shrink_to_fit(); break;
            case 2: d.reserve_front(5); break;
            case 3: d.reserve_back(5); d.reserve_front(1); break;
            case 4: d.reserve_front(7); d.pop_front(); d.pop_front(); r.erase(0, 2); break;
            case 5: d.shrink_to_fit(); break;
            case 6: d.pop_back(); d.pop_back(); d.pop_back(); d.pop_front(); r.erase(5, 8); r.erase(0, 1); break;
            case 7: { D t(std::move(d)); d = std::move(t); break; }
        }
    }
    void op()
    {
        int k = (int)sx_pick("op", 0, 34);
        int n = r.n;
        switch (k) {
            case 0: { unsigned v = sv("v"); const T t(v); bool room = d.back_capacity() > 0; T* p = d.data(); d.push_back(t); r.push_back(v); if (room) SX_CHECKM(d.data() == p, "push_back with spare capacity must not move elements"); break; }
            case 1: { unsigned v = sv("v"); const T t(v); bool room = d.front_capacity() > 0; T* p = d.data(); d.push_front(t); r.insert(0, v); if (room) SX_CHECKM(d.data() + 1 == p, "push_front with spare capacity must not move elements"); break; }
            case 2: { unsigned v = sv("v"); T& x = d.emplace_back(v); r.push_back(v); SX_CHECK(&x == &d.back()); break; }
            case 3: { unsigned v = sv("v"); T& x = d.emplace_front(v); r.insert(0, v); SX_CHECK(&x == &d.front()); break; }
            case 4: if (!n) sx_discard(); d.pop_back(); r.erase(n - 1, n); break;
            case 5: if (!n) sx_discard(); d.pop_front(); r.erase(0, 1); break;
            case 6: { int p = (int)sx_pick("p", 0, n); unsigned v = sv("v"); const T t(v); auto it = d.insert(d.cbegin() + p, t); r.insert(p, v); SX_CHECK(it - d.begin() == p); break; }
            case 7: { int p = (int)sx_pick("p", 0, n); unsigned v = sv("v"); auto it = d.emplace(d.cbegin() + p, v); r.insert(p, v); SX_CHECK(it - d.begin() == p); break; }
            case 8: { int p = (int)sx_pick("p", 0, n), m = (int)sx_pick("m", 0, 3); unsigned v = sv("v"); const T t(v); auto it = d.insert(d.cbegin() + p, (size_t)m, t); for (int i = 0; i < m; ++i) r.insert(p, v); SX_CHECK(it - d.begin() == p); break; }
            case 9: case 10: {
                int p = (int)sx_pick("p", 0, n), m = (int)sx_pick("m", 0, 3);
                unsigned a[3];
                for (int i = 0; i < m; ++i) a[i] = sv("v");
                auto it = k == 9 ? d.insert(d.cbegin() + p, (const unsigned*)a, (const unsigned*)a + m) : d.insert(d.cbegin() + p, InIt<unsigned>{ a }, InIt<unsigned>{ a + m });
                for (int i = 0; i < m; ++i) r.insert(p + i, a[i]);
                SX_CHECK(it - d.begin() == p);
                break;
            }
            case 11: { if (!n) sx_discard(); int p = (int)sx_pick("p", 0, n - 1); auto it = d.erase(d.cbegin() + p); r.erase(p, p + 1); SX_CHECK(it - d.cbegin() == p); break; }
            case 12: { int p = (int)sx_pick("p", 0, n), q = (int)sx_pick("q", p, n); auto it = d.erase(d.cbegin() + p, d.cbegin() + q); r.erase(p, q); SX_CHECK(it - d.cbegin() == p); break; }
            case 13: { int m = (int)sx_pick("m", 0, 10); d.resize((size_t)m); r.resize(m, 0); break; }
            case 14: { int m = (int)sx_pick("m", 0, 10); unsigned v = sv("v"); const T t(v); d.resize((size_t)m, t); r.resize(m, v); break; }
            case 15: { int m = (int)sx_pick("m", 0, 10); d.resize_front((size_t)m); while (r.n > m) r.erase(0, 1); while (r.n < m) r.insert(0, 0); break; }
            case 16: { int m = (int)sx_pick("m", 0, 10); unsigned v = sv("v"); const T t(v); d.resize_front((size_t)m, t); while (r.n > m) r.erase(0, 1); while (r.n < m) r.insert(0, v); break; }
            case 17: { int m = (int)sx_pick("m", 0, 12); d.reserve((size_t)m); SX_CHECK(d.capacity() >= (size_t)m); break; }
            case 18: { int m = (int)sx_pick("m", 0, 12); d.reserve_back((size_t)m); SX_CHECK(d.back_capacity() >= (size_t)m); break; }
            case 19: { int m = (int)sx_pick("m", 0, 12); d.reserve_front((size_t)m); SX_CHECK(d.front_capacity() >= (size_t)m); break; }
            case 20: d.shrink_to_fit(); SX_CHECK(d.capacity() == d.size()); break;
            case 21: d.clear(); r.clear(); break;
            case 22: { int m = (int)sx_pick("m", 0, 10); unsigned v = sv("v"); const T t(v); d.assign((size_t)m, t); r.clear(); r.resize(m, v); break; }
            case 23: case 24: {
                int m = (int)sx_pick("m", 0, 3) * 3;
                unsigned a[9];
                r.clear();
                for (int i = 0; i < m; ++i) r.push_back(a[i] = sv("v"));
                if (k == 23) d.assign((const unsigned*)a, (const unsigned*)a + m);
                else d.assign(InIt<unsigned>{ a }, InIt<unsigned>{ a + m });
                break;
            }
            case 25: { D c(d); check(c, r); c.push_back(T(1u)); if (n) c.erase(c.cbegin()); check(d, r); break; }
            case 26: { D c; int m = (int)sx_pick("m", 0, 2) * 3; for (int i = 0; i < m; ++i) c.push_front(T(7u)); c = d; check(c, r); c.clear(); c.push_front(T(2u)); check(d, r); d = *&d; break; }
            case 27: { D c(std::move(d)); check(c, r); d = std::move(c); break; }
            case 28: { D c; R rc; int m = (int)sx_pick("m", 0, 2) * 3; for (int i = 0; i < m; ++i) { unsigned v = sv("v"); c.push_front(T(v)); rc.insert(0, v); } c.swap(d); check(c, r); r = rc; break; }
            case 29: { if (!n) sx_discard(); int i = (int)sx_pick("i", 0, n - 1); d.push_back(d[(size_t)i]); r.push_back(r[i]); break; }
            case 30: { if (!n) sx_discard(); int i = (int)sx_pick("i", 0, n - 1); d.push_front(d[(size_t)i]); r.insert(0, r[i]); break; }
            case 31: { if (!n) sx_discard(); int i = (int)sx_pick("i", 0, n - 1), p = (int)sx_pick("p", 0, n); d.insert(d.cbegin() + p, d[(size_t)i]); r.insert(p, r[i]); break; }
            case 33: { if (!n) sx_discard(); int i = (int)sx_pick("i", 0, n - 1), m = (int)sx_pick("m", 0, 10); unsigned v = r[i]; if (sx_pick("f", 0, 1)) { d.resize_front((size_t)m, d[(size_t)i]); while (r.n > m) r.erase(0, 1); while (r.n < m) r.insert(0, v); } else { d.resize((size_t)m, d[(size_t)i]); r.resize(m, v); } break; }
            case 34: { if (!n) sx_discard(); int i = (int)sx_pick("i", 0, n - 1), p = (int)sx_pick("p", 0, n); unsigned v = r[i]; d.insert(d.cbegin() + p, (size_t)2, d[(size_t)i]); r.insert(p, v); r.insert(p, v); break; }
            case 32: {
                bool t = false;
                try { (void)d.at((size_t)n + sx_pick("m", 0, 1)); } catch (const std::out_of_range&) { t = true; }
                SX_CHECKM(t, "at() out of range throws");
                if (n) { unsigned v = sv("v"); d[(size_t)n - 1] = T(v); r[n - 1] = v; d.front() = T(v); r[0] = v; }
                break;
            }
        }
        check(d, r);
    }
};
template<class T> static void hist(int nops)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        Run<T> x;
        x.shape();
        x.check(x.d, x.r);
        for (int i = 0; i < nops; ++i) x.op();
        x.obs();
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
    sx_reach("history completed");
}
template<class T> static void ends(int nops)
{
    uint64_t l0 = sx_live();
    {
        Run<T> x;
        for (int i = 0; i < nops; ++i) {
            unsigned v = Run<T>::sv("v");
            switch (sx_pick("op", 0, 3)) {
                case 0: x.d.push_back(T(v)); x.r.push_back(v); break;
                case 1: x.d.push_front(T(v)); x.r.insert(0, v); break;
                case 2: if (!x.r.n) sx_discard(); x.d.pop_back(); x.r.erase(x.r.n - 1, x.r.n); break;
                case 3: if (!x.r.n) sx_discard(); x.d.pop_front(); x.r.erase(0, 1); break;
            }
            x.check(x.d, x.r);
        }
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
void sx_main(int cfg)
{
    switch (cfg) {
        case 0: hist<unsigned>(2); break;
        case 1: hist<Obj>(2); break;
        case 2: hist<Rel>(2); break;
        case 3: hist<unsigned>(3); break;
        case 4: hist<Obj>(3); break;
        case 5: hist<Rel>(3); break;
        case 6: ends<unsigned>(7); break;
        case 7: ends<Obj>(7); break;
    }
}
