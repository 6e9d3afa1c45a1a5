// C23: comparison of any objects agrees with the exact order of the held values, and with hashing.
//@property C23
//@cfg 0 : integral kinds against each other, any/any and any/plain value, with hashes
//@cfg 1 : floating point kinds against each other and against integral kinds, with hashes
//@cfg 2 : string kinds against each other and against plain strings and literals, with hashes
//@cfg 3 : empty, unrelated and user types
//@cfg 4 : three any objects: the order is transitive
//@cfg 5 : conversions between integral kinds
//@cfg 6 : an any holding a const char* against a string literal
//@bounds values fully symbolic (integers of every type, every finite or infinite float and double, long doubles obtained from them); strings up to 3 (thorough: 4) symbolic characters; every pair of kinds, triples over 8 kinds
//@outside NaN, two const char* held by two any objects (documented to compare as pointers), registered comparisons, long double values beyond double and 64-bit integers
//@parts 7
#include "elems.h"
#include <seq/any.hpp>
#include <string>
#include <string_view>

using Any = seq::any;
struct A { unsigned v; };
inline bool operator==(const A& a, const A& b) { return a.v == b.v; }
inline bool operator<(const A& a, const A& b) { return a.v < b.v; }
struct N { unsigned v; }; // neither comparable nor hashable
namespace std { template<> struct hash<A> { size_t operator()(const A& a) const noexcept { return (size_t)a.v * 3; } }; }
namespace seq { template<> struct is_hashable<N> : std::false_type {}; template<> struct is_formattable<A> : std::false_type {}; template<> struct is_formattable<N> : std::false_type {}; }

static bool fork(bool b) { return sx_conc(b) != 0; }

// every observable of the comparison of two any objects
static void cmpAny(const Any& x, const Any& y, bool eq, bool lt, bool gt, bool hashable)
{
    SX_CHECK((x == y) == eq);
    SX_CHECK((y == x) == eq);
    SX_CHECK((x != y) == !eq);
    SX_CHECK((x < y) == lt);
    SX_CHECK((y < x) == gt);
    SX_CHECK((x > y) == gt);
    SX_CHECK((x <= y) == !gt);
    SX_CHECK((x >= y) == !lt);
    if (hashable && eq) {
        sx_reach("equal");
        SX_CHECK(x.hash() == y.hash());
        SX_CHECK(std::hash<Any>{}(x) == seq::hasher<Any>{}(y));
    }
}
template<class T>
static void cmpPlain(const Any& x, const T& y, bool eq, bool lt, bool gt, bool hashable)
{
    SX_CHECK((x == y) == eq);
    SX_CHECK((y == x) == eq);
    SX_CHECK((x != y) == !eq);
    SX_CHECK((y != x) == !eq);
    SX_CHECK((x < y) == lt);
    SX_CHECK((x > y) == gt);
    SX_CHECK((x <= y) == !gt);
    SX_CHECK((x >= y) == !lt);
    SX_CHECK((y < x) == gt);
    SX_CHECK((y > x) == lt);
    SX_CHECK((y <= x) == !lt);
    SX_CHECK((y >= x) == !gt);
    if (hashable && eq) {
        SX_CHECK(std::hash<Any>{}(y) == x.hash());
        SX_CHECK(seq::hasher<Any>{}(y) == x.hash());
    }
}
template<class T> struct Tag { using type = T; };
template<class F> static void withInt(int k, F&& f)
{
    switch (k) {
        case 0: f(Tag<char>()); break;
        case 1: f(Tag<signed char>()); break;
        case 2: f(Tag<short>()); break;
        case 3: f(Tag<int>()); break;
        case 4: f(Tag<long>()); break;
        case 5: f(Tag<long long>()); break;
        case 6: f(Tag<unsigned char>()); break;
        case 7: f(Tag<char16_t>()); break;
        case 8: f(Tag<char32_t>()); break;
        case 9: f(Tag<unsigned short>()); break;
        case 10: f(Tag<unsigned int>()); break;
        case 11: f(Tag<unsigned long>()); break;
        case 12: f(Tag<unsigned long long>()); break;
        case 13: f(Tag<wchar_t>()); break;
        default: f(Tag<bool>()); break;
    }
}
constexpr int NI = 15;
template<class F> static void withFloat(int k, F&& f)
{
    switch (k) {
        case 0: f(Tag<float>()); break;
        case 1: f(Tag<double>()); break;
        default: f(Tag<long double>()); break;
    }
}
template<class T> static T symInt(const char* n)
{
    if constexpr (std::is_same_v<T, bool>) return (sx_sym(n, 8) & 1) != 0;
    else return (T)sx_sym(n, sizeof(T) * 8);
}
template<class T> static T symFloat(const char* n)
{
    if constexpr (std::is_same_v<T, long double>) {
        if (sx_pick("from", 0, 1)) return (long double)(long long)sx_sym(n, 64);
        return (long double)symFloat<double>(n);
    }
    else {
        T f;
        if constexpr (sizeof(T) == 4) { uint32_t b = (uint32_t)sx_sym(n, 32); sx_assume((b & 0x7fffffffu) <= 0x7f800000u); memcpy(&f, &b, 4); }
        else { uint64_t b = sx_sym(n, 64); sx_assume((b & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); memcpy(&f, &b, 8); }
        return f;
    }
}
static __int128 wide(long long v) { return v; }
template<class T> static __int128 asW(T v) { return (__int128)v; }

static void integral()
{
    int i = (int)sx_pick("k1", 0, NI - 1);
    int j = (int)sx_pick("k2", 0, NI - 1);
    withInt(i, [&](auto ti) {
        withInt(j, [&](auto tj) {
            using T = typename decltype(ti)::type;
            using U = typename decltype(tj)::type;
            T t = symInt<T>("a");
            U u = symInt<U>("b");
            bool eq = fork(asW(t) == asW(u)), lt = !eq && fork(asW(t) < asW(u));
            cmpAny(Any(t), Any(u), eq, lt, !eq && !lt, true);
            cmpPlain(Any(t), u, eq, lt, !eq && !lt, true);
        });
    });
}
template<class T, class U> static void cmpF(T t, U u)
{
    bool eq = fork((long double)t == (long double)u), lt = !eq && fork((long double)t < (long double)u);
    Any x(t), y(u);
    cmpAny(x, y, eq, lt, !eq && !lt, true);
    cmpPlain(x, u, eq, lt, !eq && !lt, true);
}
static void floating()
{
    int i = (int)sx_pick("k1", 0, 2);
    int j = (int)sx_pick("k2", 0, NI + 2);
    withFloat(i, [&](auto ti) {
        using T = typename decltype(ti)::type;
        if (j >= NI) withFloat(j - NI, [&](auto tj) { T a = symFloat<T>("a"); cmpF(a, symFloat<typename decltype(tj)::type>("b")); });
        else withInt(j, [&](auto tj) { using U = typename decltype(tj)::type; T a = symFloat<T>("a"); cmpF(a, symInt<U>("b")); });
    });
}
template<class F> static void withStr(int k, F&& f)
{
    switch (k) {
        case 0: f(Tag<std::string>()); break;
        case 1: f(Tag<seq::tstring>()); break;
        case 2: f(Tag<seq::tstring_view>()); break;
        case 3: f(Tag<std::string_view>()); break;
        case 4: f(Tag<const char*>()); break;
        default: f(Tag<char*>()); break;
    }
}
constexpr int NS = 6;
template<class T> static T mkStr(char* p, size_t n)
{
    if constexpr (std::is_pointer_v<T>) return p;
    else return T(p, n);
}
static void strings()
{
    const int M = SXB(3, 4);
    char a[8] = {}, b[8] = {};
    int i = (int)sx_pick("k1", 0, NS - 1);
    int j = (int)sx_pick("k2", 0, NS - 1);
    int n = (int)sx_pick("n", 0, (uint64_t)M), m = 0;
    m = (int)sx_pick("m", 0, (uint64_t)M);
    for (int k = 0; k < n; ++k) { a[k] = (char)sx_sym("a", 8); if (i >= 4 || j >= 4) sx_assume(a[k] != 0); }
    for (int k = 0; k < m; ++k) { b[k] = (char)sx_sym("b", 8); if (i >= 4 || j >= 4) sx_assume(b[k] != 0); }
    int c = 0;
    for (int k = 0; k < n || k < m; ++k) {
        if (k >= n) { c = -1; break; }
        if (k >= m) { c = 1; break; }
        if (fork((unsigned char)a[k] != (unsigned char)b[k])) { c = fork((unsigned char)a[k] < (unsigned char)b[k]) ? -1 : 1; break; }
        b[k] = a[k]; // equal: keep one of the two terms
    }
    withStr(i, [&](auto ti) {
        withStr(j, [&](auto tj) {
            using T = typename decltype(ti)::type;
            using U = typename decltype(tj)::type;
            Any x(mkStr<T>(a, (size_t)n)), y(mkStr<U>(b, (size_t)m));
            if (i == j && i >= 4) { // same pointer kind: pointers
                SX_CHECK(!(x == y) && (x < y) != (y < x));
                Any z(mkStr<T>(a, (size_t)n));
                cmpAny(x, z, true, false, false, true);
                return;
            }
            cmpAny(x, y, c == 0, c < 0, c > 0, true);
            cmpPlain(x, mkStr<U>(b, (size_t)m), c == 0, c < 0, c > 0, true);
        });
    });
}
static void literals()
{
    int i = (int)sx_pick("k1", 0, NS - 1);
    if (i == 4) sx_discard(); // const char*: literalPtr()
    char a[8] = {};
    a[0] = (char)sx_sym("a", 8);
    sx_assume(a[0] != 0);
    int c = fork(a[0] == 'k') ? 0 : fork((unsigned char)a[0] < 'k') ? -1 : 1;
    withStr(i, [&](auto ti) {
        using T = typename decltype(ti)::type;
        cmpPlain(Any(mkStr<T>(a, 1)), "k", c == 0, c < 0, c > 0, false);
    });
}
// An any holding a const char* against a string literal: documented as a pointer comparison.
static void literalPtr()
{
    static const char lit[2] = "k";
    const char* p = lit;
    SX_CHECK(Any(p) == p);
    SX_CHECK(Any(p) == lit);
}
// kinds of unrelated types, ordered by type id when different
static int g_dummy[2];
static Any mkMisc(int k, unsigned v, int& group, bool& cmp)
{
    cmp = true;
    switch (k) {
        case 0: group = 0; return Any();
        case 1: group = 1; return Any((int)v);
        case 2: group = 2; { char c[2] = { (char)v, 0 }; return Any(std::string(c, 1)); }
        case 3: group = seq::get_type_id<A>(); return Any(A{ v });
        case 4: group = seq::get_type_id<N>(); cmp = false; return Any(N{ v });
        default: group = seq::get_type_id<int*>(); return Any(&g_dummy[v & 1]);
    }
}
static void misc()
{
    int i = (int)sx_pick("k1", 0, 5);
    int j = (int)sx_pick("k2", 0, 5);
    unsigned v = (unsigned)sx_sym("a", 32), w = (unsigned)sx_sym("b", 32);
    if (i == 5) sx_conc(v & 1);
    if (j == 5) sx_conc(w & 1);
    int gi, gj;
    bool ci, cj;
    Any x = mkMisc(i, v, gi, ci), y = mkMisc(j, w, gj, cj);
    SX_CHECK((gi == gj) == (i == j));
    if (i != j) {
        cmpAny(x, y, false, gi < gj, gi > gj, false);
        if (j == 1) cmpPlain(x, (int)w, false, gi < gj, gi > gj, false);
        char c[2] = { (char)w, 0 }; if (j == 2) cmpPlain(x, std::string(c, 1), false, gi < gj, gi > gj, false);
        if (j == 3) cmpPlain(x, A{ w }, false, gi < gj, gi > gj, false);
        if (j == 4) cmpPlain(x, N{ w }, false, gi < gj, gi > gj, false);
        if (j == 5) cmpPlain(x, &g_dummy[w & 1], false, gi < gj, gi > gj, false);
        return;
    }
    if (i == 4) {
        SX_CHECK(!(x == y));
        int thrown = 0;
        try { (void)(x < y); } catch (const seq::bad_any_function_call&) { ++thrown; }
        try { (void)x.hash(); } catch (const seq::bad_any_function_call&) { ++thrown; }
        SX_CHECK(thrown == 2);
        return;
    }
    bool eq, lt;
    if (i == 0) { eq = true; lt = false; }
    else if (i == 1) { eq = fork((int)v == (int)w); lt = (int)v < (int)w; }
    else if (i == 2) { eq = fork((unsigned char)v == (unsigned char)w); lt = (unsigned char)v < (unsigned char)w; }
    else if (i == 3) { eq = fork(v == w); lt = v < w; }
    else { eq = (v & 1) == (w & 1); lt = (v & 1) < (w & 1); }
    lt = !eq && fork(lt);
    if (eq) y = mkMisc(i, w = i == 2 ? v : w, gj, cj); // equal characters: keep one of the two terms
    cmpAny(x, y, eq, lt, !eq && !lt, true);
    if (i == 3) cmpPlain(x, A{ w }, eq, lt, !eq && !lt, true);
    if (i == 5) cmpPlain(x, &g_dummy[w & 1], eq, lt, !eq && !lt, true);
}
static Any mkTri(int k, uint64_t v, const char* sp)
{
    switch (k) {
        case 0: return Any();
        case 1: return Any((int)v);
        case 2: return Any((unsigned)v);
        case 3: return Any((long long)v);
        case 4: return Any((unsigned long long)v);
        case 5: return Any((signed char)v);
        case 6: return Any(A{ (unsigned)v });
        default: return Any(seq::tstring_view(sp, 1));
    }
}
static void triples()
{
    int k[3];
    char s[3];
    Any x[3];
    for (int i = 0; i < 3; ++i) {
        k[i] = (int)sx_pick("k", 0, 7);
        uint64_t v = sx_sym("v", 64);
        s[i] = (char)v;
        x[i] = mkTri(k[i], v, s + i);
    }
    SX_CHECK(!(x[0] < x[0]) && x[0] == x[0]);
    if (fork(x[0] < x[1])) {
        SX_CHECK(!(x[1] < x[0]) && !(x[0] == x[1]));
        if (fork(x[1] < x[2])) { sx_reach("chain"); SX_CHECK(x[0] < x[2]); }
        else if (fork(x[1] == x[2])) SX_CHECK(x[0] < x[2] && !(x[2] < x[0]));
    }
    else if (fork(x[0] == x[1])) {
        SX_CHECK((x[0] < x[2]) == (x[1] < x[2]));
        SX_CHECK((x[2] < x[0]) == (x[2] < x[1]));
        SX_CHECK((x[0] == x[2]) == (x[1] == x[2]));
    }
    else SX_CHECK(x[1] < x[0]);
}
static void casts()
{
    int i = (int)sx_pick("k1", 0, NI - 1);
    int j = (int)sx_pick("k2", 0, NI - 1);
    withInt(i, [&](auto ti) {
        withInt(j, [&](auto tj) {
            using T = typename decltype(ti)::type;
            using U = typename decltype(tj)::type;
            T t = symInt<T>("a");
            Any x(t);
            SX_CHECK(x.template cast<U>() == static_cast<U>(t));
            SX_CHECK(seq::any_cast<U>((const Any&)x) == static_cast<U>(t));
            SX_CHECK(x.template cast<T>() == t);
        });
    });
}
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, integral());
        SX_CASE(1, floating());
        SX_CASE(2, if (sx_pick("lit", 0, 1)) literals(); else strings());
        SX_CASE(3, misc());
        SX_CASE(4, triples());
        SX_CASE(5, casts());
        SX_CASE(6, literalPtr());
    }
}
