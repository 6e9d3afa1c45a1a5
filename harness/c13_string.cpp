//@cfg 0 : char, 15 inline characters: one modifier, then push, shrink and pop
//@cfg 1 : wchar_t, 3 inline characters: one modifier, then push, shrink and pop
//@cfg 2 : char, 23 inline characters, allocator checking block ownership and sizes: one modifier, then push, shrink and pop
//@cfg 3 : char: arguments that alias the string itself
//@cfg 4 : wchar_t: arguments that alias the string itself
//@cfg 5 : char: construction, concatenation, conversion, substring and element access
//@cfg 6 : wchar_t: construction, concatenation, conversion, substring and element access
//@cfg 7 : char: other iterator categories, initializer lists, character ranges, replace of every occurrence
//@cfg 8 thorough : char: 2 modifiers
//@cfg 9 thorough : wchar_t: 2 modifiers
//@cfg 10 thorough : char, 119 inline characters: one modifier, then push, shrink and pop
//@flags -DSX_STRINGS
//@parts 4
//@bounds contents of 0 to 40 characters (around every inline capacity and every heap growth step), held inline, in an exact heap block, in a heap block with slack, or grown by push_back; every character symbolic, zero included; inserted ranges of 0, 1, 5 and 17 characters; positions at both ends, around the middle and next to the ends; counts 0, 1, 2, the rest, one more than the rest, npos and npos-1
//@outside positions beyond the size (undefined here, std::out_of_range for std::string), streams, custom character traits
#include "elems.h"
#include <seq/tiny_string.hpp>
using namespace seq;

template<class C> static C sv(const char* n) { return (C)sx_sym(n, 8 * sizeof(C)); }
template<class C> static C sz(const char* n) { C c = sv<C>(n); sx_assume(c != 0); return c; }
template<class C> struct R : RVec<C, 220>
{
    void rep(int p, int len, const C* s, int m)
    {
        C t[220];
        for (int i = 0; i < m; ++i) t[i] = s[i];
        this->erase(p, p + len);
        for (int i = 0; i < m; ++i) this->insert(p + i, t[i]);
    }
    void set(const C* s, int m) { rep(0, this->n, s, m); }
    void fill(int p, int len, int m, C c) { C t[220]; for (int i = 0; i < m; ++i) t[i] = c; rep(p, len, t, m); }
};
template<class S, class C> static void check(const S& s, const R<C>& r)
{
    SX_CHECK(s.size() == (size_t)r.n);
    SX_CHECK(s.length() == (size_t)r.n);
    SX_CHECK(s.empty() == (r.n == 0));
    SX_CHECK(s.capacity() >= (size_t)r.n);
    const C* p = s.data();
    SX_CHECK(s.c_str() == p && s.begin() == p && s.end() == p + r.n);
    for (int i = 0; i < r.n; ++i) SX_CHECKM(p[i] == r[i], "characters equal the reference");
    SX_CHECKM(p[r.n] == 0, "zero terminated");
}
template<class S> struct Run
{
    using C = typename S::value_type;
    using std_s = std::basic_string<C>;
    using std_v = std::basic_string_view<C>;
    static constexpr int SSO = (int)S::max_static_size;
    S s;
    R<C> r;
    bool light = false;
    static size_t npos() { return (size_t)-1; }
    static int lens()
    {
        int M[] = { 0, 1, SSO / 2, SSO - 1, SSO, SSO + 1, SSO * 2 + 1, SSO * 2 + 2, SSO * 2 + 10 };
        return M[sx_pick("n", 0, 8)];
    }
    int few() { int M[] = { 0, 1, 5, SSO + 2 }; return M[light ? 1 + sx_pick("m", 0, 1) * 2 : sx_pick("m", 0, 3)]; }
    int pos()
    {
        int n = r.n;
        if (light) return n / 2;
        if (n <= 4) return (int)sx_pick("p", 0, n);
        int M[] = { 0, 1, n / 2 - 1, n / 2 + 1, n - 1, n };
        return M[sx_pick("p", 0, 5)];
    }
    // count argument: value passed and number of characters meant
    size_t cnt(int p, int n, int& real, bool clamp = true)
    {
        int rest = n - p;
        size_t M[] = { 0, 1, 2, (size_t)rest, (size_t)rest + 1, npos(), npos() - 1 };
        size_t v = M[sx_pick("c", 0, clamp && !light ? 6 : 3)];
        if (v > (size_t)rest) { if (!clamp) sx_discard(); v == 1 || v == 2 ? sx_discard() : (void)0; real = rest; }
        else real = (int)v;
        return v;
    }
    void shape()
    {
        int n = lens(), kind = (int)sx_pick("kind", 0, 2);
        C a[64 * 4];
        if (n > 200) sx_fail("harness: too long");
        for (int i = 0; i < n; ++i) r.push_back(a[i] = sv<C>("e"));
        if (kind == 2) for (int i = 0; i < n; ++i) s.push_back(a[i]);
        else {
            if (kind == 1) s.reserve((size_t)SSO * 3 + 5);
            s.assign((const C*)a, (size_t)n);
        }
    }
    // an argument of m characters
    C b[64];
    int arg(int m, bool z = false) { for (int i = 0; i < m; ++i) b[i] = z ? sz<C>("a") : sv<C>("a"); b[m] = 0; return m; }
    static constexpr int NOPS = 45;
    void op(int k)
    {
        int n = r.n, p, q, l, m;
        C c;
        size_t v;
        switch (k) {
            case 0: c = sv<C>("c"); s.push_back(c); r.push_back(c); break;
            case 1: if (!n) sx_discard(); s.pop_back(); r.erase(n - 1, n); break;
            case 2: m = arg(few()); SX_CHECK(&s.append((const C*)b, (size_t)m) == &s); r.rep(n, 0, b, m); break;
            case 3: m = arg(few(), true); s.append((const C*)b); r.rep(n, 0, b, m); break;
            case 4: m = few(); c = sv<C>("c"); s.append((size_t)m, c); r.fill(n, 0, m, c); break;
            case 5: m = arg(few()); { S t((const C*)b, (size_t)m); s.append(t); check(t, [&] { R<C> x; x.set(b, m); return x; }()); } r.rep(n, 0, b, m); break;
            case 6: m = arg(few()); s.append(std_v(b, (size_t)m)); r.rep(n, 0, b, m); break;
            case 7: m = arg(few()); { S t((const C*)b, (size_t)m); int sp = m / 2; v = cnt(sp, m, l); s.append(t, (size_t)sp, v); r.rep(n, 0, b + sp, l); } break;
            case 8: m = arg(few()); { int sp = m / 2; v = cnt(sp, m, l); s.append(std_v(b, (size_t)m), (size_t)sp, v); r.rep(n, 0, b + sp, l); } break;
            case 9: m = arg(few()); s.append((const C*)b, (const C*)b + m); r.rep(n, 0, b, m); break;
            case 10: m = arg(few()); s += S((const C*)b, (size_t)m); s += std_v(b, (size_t)m); r.rep(n, 0, b, m); r.rep(n, 0, b, m); break;
            case 11: m = arg(few(), true); c = sv<C>("c"); s += (const C*)b; r.rep(n, 0, b, m); s += c; r.push_back(c); break;
            case 12: p = pos(); m = arg(few()); SX_CHECK(&s.insert((size_t)p, (const C*)b, (size_t)m) == &s); r.rep(p, 0, b, m); break;
            case 13: p = pos(); m = arg(few(), true); s.insert((size_t)p, (const C*)b); r.rep(p, 0, b, m); break;
            case 14: p = pos(); m = few(); c = sv<C>("c"); s.insert((size_t)p, (size_t)m, c); r.fill(p, 0, m, c); break;
            case 15: p = pos(); m = few(); c = sv<C>("c"); { auto it = s.insert(s.cbegin() + p, (size_t)m, c); SX_CHECK(it == s.begin() + p); } r.fill(p, 0, m, c); break;
            case 16: p = pos(); c = sv<C>("c"); { auto it = s.insert(s.cbegin() + p, c); SX_CHECK(it == s.begin() + p); } r.fill(p, 0, 1, c); break;
            case 17: p = pos(); m = arg(few()); s.insert((size_t)p, S((const C*)b, (size_t)m)); r.rep(p, 0, b, m); break;
            case 18: p = pos(); m = arg(few()); s.insert((size_t)p, std_v(b, (size_t)m)); r.rep(p, 0, b, m); break;
            case 19: p = pos(); m = arg(few()); { S t((const C*)b, (size_t)m); int sp = m / 2; v = cnt(sp, m, l); s.insert((size_t)p, t, (size_t)sp, v); r.rep(p, 0, b + sp, l); } break;
            case 20: p = pos(); m = arg(few()); { auto it = s.insert(s.cbegin() + p, (const C*)b, (const C*)b + m); SX_CHECK(it == s.begin() + p); } r.rep(p, 0, b, m); break;
            case 21: p = pos(); v = cnt(p, n, l); SX_CHECK(&s.erase((size_t)p, v) == &s); r.erase(p, p + l); break;
            case 22: if (!n) sx_discard(); p = pos(); if (p == n) sx_discard(); { auto it = s.erase(s.cbegin() + p); SX_CHECK(it == s.begin() + p); } r.erase(p, p + 1); break;
            case 23: p = pos(); v = cnt(p, n, l, false); { auto it = s.erase(s.cbegin() + p, s.cbegin() + p + l); SX_CHECK(it == s.begin() + p); } r.erase(p, p + l); break;
            case 24: p = pos(); v = cnt(p, n, l); m = arg(few()); s.replace((size_t)p, v, S((const C*)b, (size_t)m)); r.rep(p, l, b, m); break;
            case 25: p = pos(); v = cnt(p, n, l); m = arg(few()); s.replace((size_t)p, v, std_v(b, (size_t)m)); r.rep(p, l, b, m); break;
            case 26: p = pos(); v = cnt(p, n, l); m = arg(few()); s.replace((size_t)p, v, (const C*)b, (size_t)m); r.rep(p, l, b, m); break;
            case 27: p = pos(); v = cnt(p, n, l); m = arg(few(), true); s.replace((size_t)p, v, (const C*)b); r.rep(p, l, b, m); break;
            case 28: p = pos(); v = cnt(p, n, l); m = few(); c = sv<C>("c"); s.replace((size_t)p, v, (size_t)m, c); r.fill(p, l, m, c); break;
            case 29: p = pos(); cnt(p, n, l, false); m = arg(few()); s.replace(s.cbegin() + p, s.cbegin() + p + l, (const C*)b, (size_t)m); r.rep(p, l, b, m); break;
            case 30: p = pos(); cnt(p, n, l, false); m = few(); c = sv<C>("c"); s.replace(s.cbegin() + p, s.cbegin() + p + l, (size_t)m, c); r.fill(p, l, m, c); break;
            case 31: p = n / 2; q = n > 2 ? 2 : 0; m = arg(few()); { S t((const C*)b, (size_t)m); int sp = m / 2; v = cnt(sp, m, l); s.replace((size_t)p, (size_t)q, t, (size_t)sp, v); r.rep(p, q, b + sp, l); } break;
            case 32: p = n / 2; q = n > 2 ? 2 : 0; m = arg(few()); { int sp = m / 2; v = cnt(sp, m, l); s.replace((size_t)p, (size_t)q, std_v(b, (size_t)m), (size_t)sp, v); r.rep(p, q, b + sp, l); } break;
            case 33: m = lens(); s.resize((size_t)m); r.resize(m, 0); break;
            case 34: m = lens(); c = sv<C>("c"); s.resize((size_t)m, c); r.resize(m, c); break;
            case 35: m = lens(); c = sv<C>("c"); s.resize_front((size_t)m, c); if (m < n) r.erase(0, n - m); else r.fill(0, 0, m - n, c); break;
            case 36: { int M[] = { 0, 1, SSO, SSO + 1, 2 * SSO + 4, 4 * SSO }; m = M[sx_pick("m", 0, 5)]; s.reserve((size_t)m); SX_CHECK(s.capacity() >= (size_t)m); break; }
            case 37: s.shrink_to_fit(); break;
            case 38: s.clear(); r.clear(); break;
            case 39: m = arg(few()); s.assign((const C*)b, (size_t)m); r.set(b, m); break;
            case 40: m = lens(); c = sv<C>("c"); s.assign((size_t)m, c); r.fill(0, n, m, c); break;
            case 41: m = arg(few()); switch (sx_pick("how", 0, 4)) {
                case 0: s = std_v(b, (size_t)m); r.set(b, m); break;
                case 1: s.assign((const C*)b, (const C*)b + m); r.set(b, m); break;
                case 2: { S t((const C*)b, (size_t)m); int sp = m / 2; v = cnt(sp, m, l); s.assign(t, (size_t)sp, v); r.set(b + sp, l); break; }
                case 3: for (int i = 0; i < m; ++i) sx_assume(b[i] != 0); s = (const C*)b; r.set(b, m); break;
                case 4: c = sv<C>("c"); s = c; r.set(&c, 1); break;
            } break;
            case 42: case 43: case 44: { // copy, move, swap with another string of any size and storage
                Run x;
                if (light) { x.s.assign(3, C(1)); x.r.fill(0, 0, 3, C(1)); }
                else x.shape();
                if (k == 42) {
                    if (sx_pick("how", 0, 1)) { S t(x.s); check(t, x.r); t.push_back(C(3)); check(x.s, x.r); s = std::move(t); r = x.r; r.push_back(C(3)); }
                    else { s = x.s; r = x.r; check(s, r); x.s.push_back(C(1)); check(s, r); s = *&s; }
                }
                else if (k == 43) {
                    if (sx_pick("how", 0, 1)) { S t(std::move(x.s)); check(t, x.r); x.s = C(4); x.r.n = 1; SX_CHECK(x.s.size() == 1 && x.s[0] == C(4)); s = std::move(t); SX_CHECK(t.c_str()[t.size()] == 0); t.push_back(C(1)); r = Run::same(s, r); return; }
                    s = std::move(x.s); r = x.r; x.s.clear(); x.s.push_back(C(9)); SX_CHECK(x.s.size() == 1 && x.s.back() == C(9));
                }
                else { R<C> t = r; s.swap(x.s); check(s, x.r); check(x.s, t); r = x.r; using std::swap; swap(s, x.s); check(s, t); r = t; }
                break;
            }
        }
        check(s, r);
    }
    static R<C> same(const S& s, const R<C>& r)
    {
        R<C> x;
        SX_CHECK(s.c_str()[s.size()] == 0);
        for (size_t i = 0; i < s.size(); ++i) x.push_back(s[i]);
        (void)r;
        return x;
    }
    void obs() { sx_obs(s.size()); for (size_t i = 0; i < s.size(); ++i) sx_obs((uint64_t)s[i]); }
};
template<class S> static void hist(int nops)
{
    using C = typename S::value_type;
    uint64_t l0 = sx_live();
    {
        Run<S> x;
        x.shape();
        check(x.s, x.r);
        for (int i = 0; i < nops; ++i) {
            x.light = i > 0;
            x.op((int)sx_pick("op", 0, Run<S>::NOPS - 1));
        }
        C c = sv<C>("c");
        x.s.push_back(c); x.r.push_back(c);
        check(x.s, x.r);
        x.s.shrink_to_fit();
        check(x.s, x.r);
        x.s.pop_back(); x.r.erase(x.r.n - 1, x.r.n);
        check(x.s, x.r);
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
    sx_reach("history completed");
}
// the argument is (part of) the string itself
template<class S> static void alias()
{
    using C = typename S::value_type;
    uint64_t l0 = sx_live();
    {
        Run<S> x;
        x.shape();
        S& s = x.s;
        R<C>& r = x.r;
        R<C> o = r;
        int n = r.n, p = x.pos();
        int a = n ? (int)sx_pick("a", 0, 2) * (n - 1) / 2 : 0, m = n - a > 0 ? (int)sx_pick("l", 0, 1) ? n - a : 1 : 0; // part [a, a+m)
        switch (sx_pick("op", 0, 14)) {
            case 0: s.append(s); r.rep(n, 0, o.a, n); break;
            case 1: s.append(s.data() + a, (size_t)m); r.rep(n, 0, o.a + a, m); break;
            case 2: s.append(s, (size_t)a, (size_t)m); r.rep(n, 0, o.a + a, m); break;
            case 3: s += s; r.rep(n, 0, o.a, n); break;
            case 4: s.insert((size_t)p, s); r.rep(p, 0, o.a, n); break;
            case 5: s.insert((size_t)p, s.data() + a, (size_t)m); r.rep(p, 0, o.a + a, m); break;
            case 6: s.insert((size_t)p, s, (size_t)a, (size_t)m); r.rep(p, 0, o.a + a, m); break;
            case 7: s.assign(s); break;
            case 8: s.assign(s.data() + a, (size_t)m); r.set(o.a + a, m); break;
            case 9: s.assign(s, (size_t)a, (size_t)m); r.set(o.a + a, m); break;
            case 10: { int l = (n - p) / 2; s.replace((size_t)p, (size_t)l, s); r.rep(p, l, o.a, n); break; }
            case 11: { int l = (n - p) / 2; s.replace((size_t)p, (size_t)l, s.data() + a, (size_t)m); r.rep(p, l, o.a + a, m); break; }
            case 12: { int l = (n - p) / 2; s.replace((size_t)p, (size_t)l, s, (size_t)a, (size_t)m); r.rep(p, l, o.a + a, m); break; }
            case 13: s = *&s; s.swap(s); break;
            case 14: { s.assign(s.substr((size_t)a, (size_t)m)); r.set(o.a + a, m); break; }
        }
        check(s, r);
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class S> static void build()
{
    using X = Run<S>;
    using C = typename S::value_type;
    uint64_t l0 = sx_live();
    {
        X x;
        int n = x.lens(), l;
        C a[256];
        R<C> r;
        bool z = false;
        int k = (int)sx_pick("op", 0, 15);
        if (k == 0 || k == 8 || k == 9) z = true;
        for (int i = 0; i < n; ++i) r.push_back(a[i] = z ? sz<C>("e") : sv<C>("e"));
        a[n] = 0;
        std::basic_string_view<C> sw(a, (size_t)n);
        S s(sw);
        check(s, r);
        switch (k) {
            case 0: { S t((const C*)a); check(t, r); break; }
            case 1: { C c = sv<C>("c"); S t((size_t)n, c); R<C> q; q.fill(0, 0, n, c); check(t, q); break; }
            case 2: { int p = n / 2; size_t v = x.cnt(p, n, l); S t(s, (size_t)p, v); R<C> q; q.set(a + p, l); check(t, q); S u(s, (size_t)p); q.set(a + p, n - p); check(u, q); break; }
            case 3: { S t((const C*)a, (const C*)a + n); check(t, r); S u(InIt<C>{ a }, InIt<C>{ a + n }); check(u, r); break; }
            case 4: { S t(s, s.get_allocator()); check(t, r); S u(std::move(t), s.get_allocator()); check(u, r); check(s, r); break; }
            case 5: { tiny_string<C, std::char_traits<C>, std::allocator<C>, 30> t(s); check(t, r); S u(t); check(u, r); t = s; check(t, r); u.clear(); u = t; check(u, r); u.append(t); R<C> q = r; q.rep(n, 0, a, n); check(u, q); u.insert(1 > n ? 0 : 1, t); q.rep(1 > n ? 0 : 1, 0, a, n); check(u, q); break; }
            case 6: { int p = n / 2; size_t v = x.cnt(p, n, l); auto t = s.substr((size_t)p, v); SX_CHECK(t.size() == (size_t)l); SX_CHECK(t.data() == s.data() + p); auto u = t.substr(l / 2); SX_CHECK(u.size() == (size_t)(l - l / 2) && u.data() == t.data() + l / 2); bool thrown = false; try { s.substr((size_t)n + 1); } catch (const std::out_of_range&) { thrown = true; } SX_CHECK(thrown); break; }
            case 7: { C d[256]; for (int i = 0; i < n + 2; ++i) d[i] = C(77); int p = n / 2; size_t v = x.cnt(p, n, l); SX_CHECK(s.copy(d, v, (size_t)p) == (size_t)l); for (int i = 0; i < l; ++i) SX_CHECK(d[i] == a[p + i]); SX_CHECK(d[l] == C(77)); bool thrown = false; try { s.copy(d, 1, (size_t)n + 1); } catch (const std::out_of_range&) { thrown = true; } SX_CHECK(thrown); break; }
            case 8: { auto t = s + (const C*)a; R<C> q = r; q.rep(n, 0, a, n); check(t, q); auto u = (const C*)a + s; check(u, q); break; }
            case 9: { tiny_string<C, std::char_traits<C>, view_allocator<C>, 0> w((const C*)a), w2(s), w3; SX_CHECK(w.size() == (size_t)n && w2.size() == (size_t)n && w2.data() == s.data() && w3.size() == 0); w3 = w; SX_CHECK(w3.data() == a); w3 = s; SX_CHECK(w3.data() == s.data() && w3.size() == s.size()); S t(w); check(t, r); t.append(w); R<C> q = r; q.rep(n, 0, a, n); check(t, q); break; }
            case 10: { auto t = s + s; R<C> q = r; q.rep(n, 0, a, n); check(t, q); auto u = s + sw; check(u, q); auto v = sw + s; check(v, q); break; }
            case 11: { C c = sv<C>("c"); auto t = s + c; R<C> q = r; q.push_back(c); check(t, q); auto u = c + s; R<C> p; p.set(&c, 1); p.rep(1, 0, a, n); check(u, p); break; }
            case 12: { for (int i = 0; i < n; ++i) { SX_CHECK(s[(size_t)i] == a[i]); SX_CHECK(s.at((size_t)i) == a[i]); } if (n) { SX_CHECK(s.front() == a[0] && s.back() == a[n - 1]); s[(size_t)n / 2] = C(5); r[n / 2] = C(5); check(s, r); s.at((size_t)n - 1) = C(0); r[n - 1] = 0; check(s, r); } bool thrown = false; try { s.at((size_t)n); } catch (const std::out_of_range&) { thrown = true; } SX_CHECK(thrown); break; }
            case 13: { int i = n; for (auto it = s.rbegin(); it != s.rend(); ++it) SX_CHECK(*it == a[--i]); SX_CHECK(i == 0); SX_CHECK(s.cend() - s.cbegin() == n); break; }
            case 14: { S t{ a[0], C(2), C(3) }; if (!n) sx_discard(); R<C> q; q.push_back(a[0]); q.push_back(C(2)); q.push_back(C(3)); check(t, q); t = { C(1) }; SX_CHECK(t.size() == 1 && t[0] == C(1)); t += { C(7), C(8) }; SX_CHECK(t.size() == 3 && t[2] == C(8)); break; }
            case 15: { S t; t.assign(tiny_string<C, std::char_traits<C>, view_allocator<C>, 0>(a, (size_t)n)); check(t, r); S u(t, S().get_allocator()); t.reserve(200); t = u; check(t, r); break; }
        }
        check(s, r);
        x.s = s;
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class S> static void other()
{
    using C = typename S::value_type;
    uint64_t l0 = sx_live();
    {
        Run<S> x;
        x.shape();
        S& s = x.s;
        R<C>& r = x.r;
        int n = r.n, p = x.pos(), l, m;
        switch (sx_pick("op", 0, 9)) {
            case 0: m = x.arg(x.few()); s.assign(InIt<C>{ x.b }, InIt<C>{ x.b + m }); r.set(x.b, m); break;
            case 1: m = x.arg(x.few()); s.append(InIt<C>{ x.b }, InIt<C>{ x.b + m }); r.rep(n, 0, x.b, m); break;
            case 2: m = x.arg(x.few()); s.insert(s.cbegin() + p, InIt<C>{ x.b }, InIt<C>{ x.b + m }); r.rep(p, 0, x.b, m); break;
            case 3: m = x.arg(x.few()); l = (n - p) / 2; s.replace(s.cbegin() + p, s.cbegin() + p + l, InIt<C>{ x.b }, InIt<C>{ x.b + m }); r.rep(p, l, x.b, m); break;
            case 4: m = x.arg(x.few()); l = (n - p) / 2; s.replace(s.cbegin() + p, s.cbegin() + p + l, (const C*)x.b, (const C*)x.b + m); r.rep(p, l, x.b, m); break;
            case 5: { C c[2] = { sv<C>("c"), sv<C>("c") }; s.assign({ c[0], c[1] }); r.set(c, 2); break; }
            case 6: { C c[2] = { sv<C>("c"), sv<C>("c") }; s.insert(s.cbegin() + p, { c[0], c[1] }); r.rep(p, 0, c, 2); break; }
            case 7: { C c[2] = { sv<C>("c"), sv<C>("c") }; l = (n - p) / 2; s.replace(s.cbegin() + p, s.cbegin() + p + l, { c[0], c[1] }); r.rep(p, l, c, 2); break; }
            case 8: { C c[2] = { sv<C>("c"), sv<C>("c") }; s.append({ c[0], c[1] }); r.rep(n, 0, c, 2); break; }
            case 9: m = x.arg(x.few()); l = (n - p) / 2; { S t((const C*)x.b, (size_t)m); s.replace(s.cbegin() + p, s.cbegin() + p + l, t); s.replace(s.cbegin(), s.cbegin(), std::basic_string_view<C>(x.b, (size_t)m)); } r.rep(p, l, x.b, m); r.rep(0, 0, x.b, m); break;
        }
        check(s, r);
        x.obs();
    }
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
using S15 = tstring;
using W3 = wtstring;
using S23 = tiny_string<char, std::char_traits<char>, LAlloc<char>, 20>;
using S119 = tiny_string<char, std::char_traits<char>, std::allocator<char>, 119>;
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, hist<S15>(1));
        SX_CASE(1, hist<W3>(1));
        SX_CASE(2, hist<S23>(1));
        SX_CASE(3, alias<S15>());
        SX_CASE(4, alias<W3>());
        SX_CASE(5, build<S15>());
        SX_CASE(6, build<W3>());
        SX_CASE(7, other<S15>());
        SX_CASE(8, hist<S15>(2));
        SX_CASE(9, hist<W3>(2));
        SX_CASE(10, hist<S119>(1));
    }
}
