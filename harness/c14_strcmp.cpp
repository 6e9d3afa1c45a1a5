//@cfg 0 : char: comparison of two strings of 0 to 26 characters
//@cfg 1 : wchar_t: comparison of two strings of 0 to 6 characters
//@cfg 2 : char: every comparison overload (views, std::string, std::string_view, C strings, other inline capacities)
//@cfg 3 : wchar_t: every comparison overload
//@cfg 4 : char: compare(pos, count, ...) for every position and count
//@cfg 5 : char: find and rfind
//@cfg 6 : wchar_t: find and rfind
//@cfg 7 : char: find_first_of, find_last_of, find_first_not_of, find_last_not_of
//@cfg 8 : wchar_t: find_first_of, find_last_of, find_first_not_of, find_last_not_of
//@cfg 9 : equal contents have equal hashes for every string type and storage
//@cfg 10 : char: find of long needles that share a prefix with the text
//@cfg 11 : char: searches and comparisons on string views
//@flags -DSX_STRINGS
//@parts 4
//@bounds every character symbolic (full range, zero included); compared lengths 0 to 26 (char) and 0 to 6 (wchar_t), inline and heap storage; searches in texts of 0 to 6 characters (thorough 8) for needles of 0 to 3 characters, and needles of 4 to 12 characters in texts up to 16; every start position, one and two beyond the end, npos and npos-1
//@outside longer texts and needles; compare and substring positions beyond the size; custom character traits
#include "elems.h"
#include <seq/tiny_string.hpp>
#include <string>
using namespace seq;

template<class C> static C sv(const char* n) { return (C)sx_sym(n, 8 * sizeof(C)); }
template<class C> static unsigned lt1(C a, C b) { if (sizeof(C) == 1) return (unsigned char)a < (unsigned char)b; return a < b; }
// branch-free references: the solver compares them with what the code computes on each of its paths
template<class C> static unsigned r_lt(const C* a, int n, const C* b, int m)
{
    int l = n < m ? n : m;
    unsigned r = n < m;
    for (int i = l - 1; i >= 0; --i) r = lt1(a[i], b[i]) | ((unsigned)(a[i] == b[i]) & r);
    return r;
}
template<class C> static unsigned r_eq(const C* a, int n, const C* b, int m)
{
    if (n != m) return 0;
    unsigned r = 1;
    for (int i = 0; i < n; ++i) r &= (unsigned)(a[i] == b[i]);
    return r;
}
static size_t sel(unsigned c, size_t x, size_t y) { return ((size_t)0 - (size_t)c & x) | ((size_t)c - 1 & y); }
constexpr size_t NP = (size_t)-1;
template<class C> static size_t r_find(const C* a, int n, size_t pos, const C* b, int m)
{
    size_t r = NP;
    for (int i = n - m; i >= 0 && (size_t)i >= pos; --i) r = sel(r_eq(a + i, m, b, m), (size_t)i, r);
    return r;
}
template<class C> static size_t r_rfind(const C* a, int n, size_t pos, const C* b, int m)
{
    size_t r = NP;
    for (int i = 0; i <= n - m && (size_t)i <= pos; ++i) r = sel(r_eq(a + i, m, b, m), (size_t)i, r);
    return r;
}
template<class C> static unsigned r_in(C c, const C* b, int m) { unsigned r = 0; for (int i = 0; i < m; ++i) r |= (unsigned)(b[i] == c); return r; }
template<class C> static size_t r_first(const C* a, int n, size_t pos, const C* b, int m, unsigned want)
{
    size_t r = NP;
    for (int i = n - 1; i >= 0 && (size_t)i >= pos; --i) r = sel(r_in(a[i], b, m) ^ want ^ 1, (size_t)i, r);
    return r;
}
template<class C> static size_t r_last(const C* a, int n, size_t pos, const C* b, int m, unsigned want)
{
    size_t r = NP;
    for (int i = 0; i < n && (size_t)i <= pos; ++i) r = sel(r_in(a[i], b, m) ^ want ^ 1, (size_t)i, r);
    return r;
}
static void sign(int c, unsigned lt, unsigned eq)
{
    SX_CHECKM(((unsigned)(c < 0) ^ lt) == 0, "compare is negative exactly when less");
    SX_CHECKM(((unsigned)(c == 0) ^ eq) == 0, "compare is zero exactly when equal");
}
template<class A, class B> static void rel(const A& s, const B& t, unsigned lt, unsigned eq)
{
    SX_CHECKM((unsigned)(s == t) == eq, "==");
    SX_CHECKM((unsigned)(s != t) == (eq ^ 1), "!=");
    SX_CHECKM((unsigned)(s < t) == lt, "<");
    SX_CHECKM((unsigned)(s <= t) == (lt | eq), "<=");
    SX_CHECKM((unsigned)(s > t) == ((lt | eq) ^ 1), ">");
    SX_CHECKM((unsigned)(s >= t) == (lt ^ 1), ">=");
}
template<class S, class C> static void mk(S& s, const C* a, int n, int heap)
{
    if (heap) s.reserve(120);
    s.assign(a, (size_t)n);
}
template<class S> static void cmp(int mx)
{
    using C = typename S::value_type;
    C a[64], b[64];
    int n = (int)sx_pick("n", 0, (uint64_t)mx), d = (int)sx_pick("d", 0, 4);
    static const int D[] = { 0, 1, -1, 7, -9 };
    int m = n + D[d];
    if (m < 0 || m > mx) sx_discard();
    for (int i = 0; i < n; ++i) a[i] = sv<C>("a");
    for (int i = 0; i < m; ++i) b[i] = sv<C>("b");
    S s, t;
    int h = (int)sx_pick("h", 0, 1);
    mk(s, a, n, h);
    mk(t, b, m, (n & 1) ^ h);
    unsigned lt = r_lt(a, n, b, m), eq = r_eq(a, n, b, m);
    switch (sx_pick("op", 0, 2)) {
        case 0: SX_CHECKM((unsigned)(s < t) == lt, "<"); break;
        case 1: SX_CHECKM((unsigned)(s == t) == eq, "=="); break;
        case 2: sign(s.compare(t), lt, eq); break;
    }
    sx_obs(lt);
}
template<class S> static void over(int mx)
{
    using C = typename S::value_type;
    using T = std::char_traits<C>;
    C a[64], b[64];
    int n = (int)sx_pick("n", 0, (uint64_t)mx), m = (int)sx_pick("m", 0, (uint64_t)mx);
    int k = (int)sx_pick("op", 0, 11);
    bool z = k == 5 || k == 10 || k == 6;
    for (int i = 0; i < n; ++i) { a[i] = sv<C>("a"); if (k == 6) sx_assume(a[i] != 0); }
    for (int i = 0; i < m; ++i) { b[i] = sv<C>("b"); if (z) sx_assume(b[i] != 0); }
    a[n] = b[m] = 0;
    S s;
    mk(s, a, n, n & 1);
    unsigned lt = r_lt(a, n, b, m), eq = r_eq(a, n, b, m), gt = (lt | eq) ^ 1;
    tiny_string<C, T, std::allocator<C>, 30> big(b, (size_t)m);
    basic_tstring_view<C> vw(b, (size_t)m);
    std::basic_string_view<C> sw(b, (size_t)m);
    switch (k) {
        case 0: rel(s, S(sw), lt, eq); break;
        case 1: rel(s, big, lt, eq); rel(big, s, gt, eq); break;
        case 2: rel(s, vw, lt, eq); rel(vw, s, gt, eq); break;
        case 3: { std::basic_string<C> ss(b, (size_t)m); rel(s, ss, lt, eq); rel(ss, s, gt, eq); break; }
        case 4: rel(s, sw, lt, eq); rel(sw, s, gt, eq); break;
        case 5: rel(s, (const C*)b, lt, eq); rel((const C*)b, s, gt, eq); break;
        case 6: { basic_tstring_view<C> w((const C*)a); rel(w, (const C*)b, lt, eq); rel(w, vw, lt, eq); break; }
        case 7: sign(s.compare(S(sw)), lt, eq); sign(s.compare(big), lt, eq); break;
        case 8: { std::basic_string<C> ss(b, (size_t)m); sign(s.compare(ss), lt, eq); break; }
        case 9: sign(s.compare(sw), lt, eq); sign(s.compare(vw), lt, eq); break;
        case 10: sign(s.compare((const C*)b), lt, eq); break;
        case 11: { basic_tstring_view<C> w(a, (size_t)n); sign(w.compare(vw), lt, eq); sign(w.compare(sw), lt, eq); rel(w, sw, lt, eq); rel(sw, w, gt, eq); break; }
    }
    sx_obs(lt);
}
static size_t count_pick(int rest, int& real)
{
    size_t M[] = { 0, 1, 2, (size_t)rest, (size_t)rest + 1, NP, NP - 1 };
    size_t v = M[sx_pick("c", 0, 6)];
    real = v > (size_t)rest ? rest : (int)v;
    return v;
}
static void part()
{
    char a[64], b[64];
    int n = (int)sx_pick("n", 0, 1) * 9 + 3, m = (int)sx_pick("m", 0, 5), l, l2;
    int k = (int)sx_pick("op", 0, 5);
    for (int i = 0; i < n; ++i) a[i] = sv<char>("a");
    for (int i = 0; i < m; ++i) { b[i] = sv<char>("b"); if (k == 0) sx_assume(b[i] != 0); }
    b[m] = 0;
    tstring s(a, (size_t)n), t(b, (size_t)m);
    basic_tstring_view<char> w(a, (size_t)n);
    int p = (int)sx_pick("p", 0, 3) * n / 3, q = m / 2;
    size_t c = count_pick(n - p, l);
    const char* x = a + p;
    switch (k) {
        case 0: sign(s.compare((size_t)p, c, (const char*)b), r_lt(x, l, b, m), r_eq(x, l, b, m)); break;
        case 1: sign(s.compare((size_t)p, c, (const char*)b, (size_t)m), r_lt(x, l, b, m), r_eq(x, l, b, m)); break;
        case 2: sign(s.compare((size_t)p, c, t), r_lt(x, l, b, m), r_eq(x, l, b, m)); break;
        case 3: { size_t c2 = count_pick(m - q, l2); sign(s.compare((size_t)p, c, t, (size_t)q, c2), r_lt(x, l, b + q, l2), r_eq(x, l, b + q, l2)); break; }
        case 4: sign(w.compare((size_t)p, c, std::string_view(b, (size_t)m)), r_lt(x, l, b, m), r_eq(x, l, b, m)); break;
        case 5: sign(s.compare((size_t)p, c, std::string_view(b, (size_t)m)), r_lt(x, l, b, m), r_eq(x, l, b, m)); break;
    }
}
template<class S> static void search(int lo, int hi, int ops)
{
    using C = typename S::value_type;
    using V = basic_tstring_view<C>;
    C a[64], b[64];
    int n = (int)sx_pick("n", 0, (uint64_t)SXB(5, 7)), m = (int)sx_pick("m", 0, (uint64_t)SXB(2, 3));
    int k = (int)sx_pick("op", (uint64_t)lo, (uint64_t)hi);
    int how = (int)sx_pick("how", 0, (uint64_t)ops);
    if (how == 4 && m != 1) sx_discard();
    for (int i = 0; i < n; ++i) a[i] = sv<C>("a");
    for (int i = 0; i < m; ++i) { b[i] = sv<C>("b"); if (how == 1) sx_assume(b[i] != 0); }
    a[n] = b[m] = 0;
    int pp = (int)sx_pick("p", 0, (uint64_t)n + 4);
    size_t p = pp <= n + 2 ? (size_t)pp : pp == n + 3 ? NP : NP - 1;
    S s;
    if constexpr (std::is_same<S, V>::value) s = S(a, (size_t)n);
    else mk(s, a, n, n & 1);
    tiny_string<C, std::char_traits<C>, std::allocator<C>, 25> t(b, (size_t)m);
    size_t got = 0, want = 0;
    const C* cb = b;
#define FORMS(F) switch (how) { case 0: got = s.F(cb, p, (size_t)m); break; case 1: got = s.F(cb, p); break; case 2: got = s.F(t, p); break; case 3: got = s.F(V(cb, (size_t)m), p); break; case 4: got = s.F(b[0], p); break; }
    switch (k) {
        case 0: FORMS(find) want = r_find(a, n, p, cb, m); break;
        case 1: FORMS(rfind) want = r_rfind(a, n, p, cb, m); break;
        case 2: FORMS(find_first_of) want = r_first(a, n, p, cb, m, 1); break;
        case 3: FORMS(find_last_of) want = r_last(a, n, p, cb, m, 1); break;
        case 4: FORMS(find_first_not_of) want = r_first(a, n, p, cb, m, 0); break;
        case 5: FORMS(find_last_not_of) want = r_last(a, n, p, cb, m, 0); break;
        case 6: { std::basic_string<C> u(cb, (size_t)m); got = s.find(u, p); want = r_find(a, n, p, cb, m); SX_CHECK(s.find(std::basic_string_view<C>(cb, (size_t)m), p) == got); break; }
        case 7: { std::basic_string<C> u(cb, (size_t)m); got = s.rfind(u, p); want = r_rfind(a, n, p, cb, m); SX_CHECK(s.rfind(std::basic_string_view<C>(cb, (size_t)m), p) == got); break; }
    }
    SX_CHECKM(got == want, "position equals the reference");
    sx_obs(got);
}
// needle: the text's characters from q with one symbolic change
static void longNeedle()
{
    char a[32], b[32];
    int n = (int)sx_pick("n", 0, 1) * 7 + 9, m = (int)sx_pick("m", 4, 9), q = (int)sx_pick("q", 0, 2), x = (int)sx_pick("x", 0, 8);
    if (q + m > n || x >= m) sx_discard();
    for (int i = 0; i < n; ++i) a[i] = (char)('a' + i);
    for (int i = 0; i < m; ++i) b[i] = a[q + i];
    b[x] = sv<char>("b");
    char c = sv<char>("c");
    int y = (int)sx_pick("y", 0, 2) * (n - 1) / 2;
    a[y] = c;
    tstring s(a, (size_t)n);
    SX_CHECKM(s.find((const char*)b, 0, (size_t)m) == r_find(a, n, 0, b, m), "find equals the reference");
    SX_CHECKM(s.rfind((const char*)b, NP, (size_t)m) == r_rfind(a, n, NP, b, m), "rfind equals the reference");
}
static void hashes()
{
    char a[64];
    int n = (int)sx_pick("n", 0, 33);
    for (int i = 0; i < n; ++i) a[i] = sv<char>("a");
    a[n] = 0;
    using B = tiny_string<char, std::char_traits<char>, std::allocator<char>, 30>;
    tstring s(a, (size_t)n), g;
    g.reserve(100);
    g.assign(a, (size_t)n);
    B b(a, (size_t)n);
    std::string ss(a, (size_t)n);
    tstring_view v(a, (size_t)n);
    std::string_view sw(a, (size_t)n);
    size_t h = hasher<tstring>()(s);
    SX_CHECK(hasher<tstring>()(g) == h);
    SX_CHECK(hasher<tstring>()(b) == h && hasher<B>()(b) == h && hasher<B>()(s) == h);
    SX_CHECK(hasher<tstring>()(ss) == h && hasher<std::string>()(ss) == h && hasher<std::string>()(s) == h);
    SX_CHECK(hasher<tstring>()(sw) == h && hasher<std::string_view>()(sw) == h && hasher<std::string>()(sw) == h);
    SX_CHECK(hasher<tstring_view>()(v) == h && hasher<tstring_view>()(s) == h && hasher<tstring>()(v) == h);
    SX_CHECK(std::hash<tstring>()(s) == h && std::hash<tstring>()(ss) == h && std::hash<B>()(v) == h && std::hash<tstring_view>()(v) == h && std::hash<tstring>()(sw) == h);
    if (n < 9) {
        for (int i = 0; i < n; ++i) sx_assume(a[i] != 0);
        SX_CHECK(hasher<tstring>()((const char*)a) == h && hasher<std::string>()((const char*)a) == h && std::hash<tstring>()((const char*)a) == h);
    }
    wchar_t w[12];
    int k = n % 9;
    for (int i = 0; i < k; ++i) w[i] = sv<wchar_t>("w");
    wtstring ws(w, (size_t)k);
    SX_CHECK(hasher<wtstring>()(ws) == hasher<std::wstring>()(std::wstring_view(w, (size_t)k)));
}
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, cmp<tstring>(26));
        SX_CASE(1, cmp<wtstring>(6));
        SX_CASE(2, over<tstring>(2));
        SX_CASE(3, over<wtstring>(2));
        SX_CASE(4, part());
        SX_CASE(5, search<tstring>(0, 1, 4); );
        SX_CASE(6, search<wtstring>(0, 1, 4); );
        SX_CASE(7, search<tstring>(2, 5, 4); );
        SX_CASE(8, search<wtstring>(2, 5, 4); );
        SX_CASE(9, hashes());
        SX_CASE(10, longNeedle());
        SX_CASE(11, search<tstring_view>(0, 7, 4); );
    }
}
