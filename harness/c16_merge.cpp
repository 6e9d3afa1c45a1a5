//@cfg 0 : merge of two sorted ranges of arbitrary keys, up to 5 and 5 elements, pointers and bidirectional iterators
//@cfg 1 : merge of ranges of very different lengths (1 with 33 to 40, 2 with 65), either side
//@cfg 2 : inplace_merge of relocatable elements, up to 5 and 5, every buffer
//@cfg 3 : inplace_merge of non-relocatable elements, pointers and bidirectional iterators, every buffer
//@cfg 4 : inplace_merge of ranges of very different lengths (1 or 2 with 33 to 70), every buffer
//@cfg 5 : inplace_merge of an array of up to 6 sorted runs
//@cfg 6 : reverse_descending of non-increasing ranges of up to 9 elements
//@cfg 7 : unique of up to 6 elements with arbitrary keys, any hash quality, pointers and bidirectional iterators
//@cfg 8 : unique of 20 to 80 elements with one arbitrary key
//@cfg 9 : lower_bound helper on sorted ranges of up to 70 arbitrary arithmetic elements
//@cfg 10 : lower_bound helper with key comparators (two-way and three-way, single and multi) on up to 20 arbitrary elements
//@cfg 11 : inplace_merge of concrete runs of 20 to 120 elements with one arbitrary key, small buffers
//@parts 4
//@bounds sorted ranges of arbitrary keys of up to 5+5 elements (7+7 in the thorough tier), 1 with 33 to 40, 2 with up to 70; up to 6 runs; ranges of up to 9 elements to reverse; up to 6 arbitrary keys or 80 elements with one arbitrary key for unique; binary searches over up to 70 arbitrary elements
//@outside longer ranges, throwing comparators and moves
#include "sortel.h"
#include <seq/internal/binary_search.hpp>

// fills n elements from position p with arbitrary keys in ascending order, tags ascending from t
template<class T, class A> static void sortedRun(A&& a, int p, int n, unsigned t, unsigned* keys, unsigned first = 0)
{
    (void)first;
    for (int i = 0; i < n; ++i) {
        unsigned k = (unsigned)sx_sym("k", 32);
        if (i) sx_assume(keys[t + i - 1] <= k);
        keys[t + i] = k;
        a[p + i] = mkE<T>(k, t + (unsigned)i);
    }
}
template<class T> NI static void mergeSz(int n1, int n2, bool bid, bool rev)
{
    Arr<T, 80> a(n1), b(n2), o(n1 + n2);
    unsigned keys[160];
    for (int i = 0; i < n1; ++i) {
        unsigned k = keys[i] = (unsigned)sx_sym("k", 32);
        if (i) sx_assume(rev ? keys[i - 1] >= k : keys[i - 1] <= k);
        a[i] = mkE<T>(k, (unsigned)i);
    }
    for (int i = 0; i < n2; ++i) {
        unsigned k = keys[n1 + i] = (unsigned)sx_sym("k", 32);
        if (i) sx_assume(rev ? keys[n1 + i - 1] >= k : keys[n1 + i - 1] <= k);
        b[i] = mkE<T>(k, (unsigned)(n1 + i));
    }
    T* r;
    if (bid) {
        using I = BidIt<T>;
        r = rev ? seq::merge(I{ a.b() }, I{ a.e() }, I{ b.b() }, I{ b.e() }, I{ o.b() }, GreaterD()).p : seq::merge(I{ a.b() }, I{ a.e() }, I{ b.b() }, I{ b.e() }, I{ o.b() }, LessD()).p;
    }
    else
        r = rev ? seq::merge(a.b(), a.e(), b.b(), b.e(), o.b(), GreaterD()) : seq::merge(a.b(), a.e(), b.b(), b.e(), o.b(), LessD());
    SX_CHECKM(r == o.e(), "merge returns the end of the output");
    o.guards();
    a.guards();
    b.guards();
    if (rev) stableSorted(o.b(), n1 + n2, Greater(), keys);
    else stableSorted(o.b(), n1 + n2, Less(), keys);
    for (int i = 0; i < n1; ++i) SX_CHECKM(a[i].t == (unsigned)i && a[i].k == keys[i], "merge leaves its inputs");
    for (int i = 0; i < n2; ++i) SX_CHECKM(b[i].t == (unsigned)(n1 + i) && b[i].k == keys[n1 + i], "merge leaves its inputs");
    o.obs();
}
template<class T> static void mergeSmall()
{
    int n1 = (int)sx_pick("n1", 0, SXB(5, 7)), n2 = (int)sx_pick("n2", 0, SXB(5, 7));
    bool bid = sx_pick("bid", 0, 1), rev = sx_pick("rev", 0, 1);
    mergeSz<T>(n1, n2, bid, rev);
}
template<class T> static void mergeFar()
{
    static const int A[] = { 1, 1, 1, 2 }, B[] = { 33, 34, 40, 65 };
    int i = (int)sx_pick("sz", 0, SXB(3, 3)), sw = (int)sx_pick("swap", 0, 1);
    int x = A[i], y = B[i];
    mergeSz<T>(sw ? y : x, sw ? x : y, false, sx_pick("rev", 0, SXB(0, 1)));
}
template<class T, class It, class C> NI static void imerge(It f, It m, It l, int n, int buf, C c)
{
    switch (buf) {
        case 0: seq::inplace_merge(f, m, l, c); break;
        case 1: seq::inplace_merge(f, m, l, c, seq::buffer<T*>{ nullptr, 0 }); break;
        case 2: { T t[1]; seq::inplace_merge(f, m, l, c, seq::buffer<T*>{ t, 1 }); break; }
        case 3: { T t[2]; seq::inplace_merge(f, m, l, c, seq::buffer<T*>{ t, 2 }); break; }
        case 4: { T t[80]; seq::inplace_merge(f, m, l, c, seq::buffer<T*>{ t, (size_t)n / 2 }); break; }
        case 5: seq::inplace_merge(f, m, l, c, seq::medium_buffer); break;
        case 6: seq::inplace_merge(f, m, l, c, seq::small_buffer); break;
        case 7: seq::inplace_merge(f, m, l, c, seq::tiny_buffer); break;
    }
}
template<class T> NI static void imergeSz(int n1, int n2, int buf, bool bid, bool rev)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        int n = n1 + n2;
        Arr<T, 90> a(n);
        unsigned keys[90];
        for (int i = 0; i < n; ++i) {
            unsigned k = keys[i] = (unsigned)sx_sym("k", 32);
            if (i && i != n1) sx_assume(rev ? keys[i - 1] >= k : keys[i - 1] <= k);
            a[i] = mkE<T>(k, (unsigned)i);
        }
        T *f = a.b(), *m = f + n1, *l = a.e();
        if (bid) {
            if (rev) imerge<T>(BidIt<T>{ f }, BidIt<T>{ m }, BidIt<T>{ l }, n, buf, GreaterD());
            else imerge<T>(BidIt<T>{ f }, BidIt<T>{ m }, BidIt<T>{ l }, n, buf, LessD());
        }
        else if (rev) imerge<T>(f, m, l, n, buf, GreaterD());
        else imerge<T>(f, m, l, n, buf, LessD());
        a.guards();
        if (rev) stableSorted(a.b(), n, Greater(), keys);
        else stableSorted(a.b(), n, Less(), keys);
        a.obs();
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class T> static void imergeSmall(int mx, bool bid)
{
    int n1 = (int)sx_pick("n1", 0, (uint64_t)mx), n2 = (int)sx_pick("n2", 0, (uint64_t)mx);
    int buf = (int)sx_pick("buf", 0, 7);
    bool b = bid && sx_pick("bid", 0, 1);
    bool rev = sx_pick("rev", 0, SXB(0, 1));
    imergeSz<T>(n1, n2, buf, b, rev);
}
template<class T> static void imergeFar()
{
    static const int A[] = { 1, 1, 2, 1 }, B[] = { 33, 40, 34, 70 };
    int i = (int)sx_pick("sz", 0, 3), sw = (int)sx_pick("swap", 0, 1);
    static const int Bf[] = { 0, 1, 2, 4, 6, 7, 5, 3 };
    int x = A[i], y = B[i];
    int buf = Bf[sx_pick("buf", 0, SXB(3, 7))];
    bool bid = sx_pick("bid", 0, 1);
    imergeSz<T>(sw ? y : x, sw ? x : y, buf, bid, false);
}
// array of iterators bounding sorted runs
template<class T> NI static void imergeRuns()
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        int nr = (int)sx_pick("runs", 0, 6);
        int len[6], n = 0;
        for (int i = 0; i < nr; ++i) {
            len[i] = i < 2 ? (int)sx_pick("len", i ? 1 : 1, 2) : i == 3 ? 2 : 1;
            n += len[i];
        }
        Arr<T, 20> a(n);
        unsigned keys[20];
        T* its[8];
        its[0] = a.b();
        int p = 0;
        for (int r = 0; r < nr; ++r) {
            for (int i = 0; i < len[r]; ++i, ++p) {
                // the later runs are drawn from few values
                unsigned k = keys[p] = r < 3 ? (unsigned)sx_sym("k", 32) : (unsigned)(r == 3 ? 5 : r == 4 ? 100 : 7) + (unsigned)i;
                if (i) sx_assume(keys[p - 1] <= k);
                a[p] = mkE<T>(k, (unsigned)p);
            }
            its[r + 1] = a.b() + p;
        }
        size_t cnt = (size_t)nr + 1;
        switch (sx_pick("buf", 0, 3)) {
            case 0: seq::inplace_merge(its, cnt, LessD()); break;
            case 1: seq::inplace_merge(its, cnt, LessD(), seq::buffer<T*>{ nullptr, 0 }); break;
            case 2: { T t[2]; seq::inplace_merge(its, cnt, LessD(), seq::buffer<T*>{ t, 2 }); break; }
            default: { T t[12]; seq::inplace_merge(its, cnt, LessD(), seq::buffer<T*>{ t, 12 }); break; }
        }
        a.guards();
        stableSorted(a.b(), n, Less(), keys);
        a.obs();
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class T> static void revDesc()
{
    int n = (int)sx_pick("n", 0, SXB(9, 11));
    Arr<T, 12> a(n);
    unsigned keys[12];
    for (int i = 0; i < n; ++i) {
        unsigned k = keys[i] = (unsigned)sx_sym("k", 32);
        if (i) sx_assume(keys[i - 1] >= k);
        a[i] = mkE<T>(k, (unsigned)i);
    }
    if (sx_pick("bid", 0, 1)) seq::reverse_descending(BidIt<T>{ a.b() }, BidIt<T>{ a.e() }, LessD());
    else seq::reverse_descending(a.b(), a.e(), LessD());
    a.guards();
    stableSorted(a.b(), n, Less(), keys);
    a.obs();
}
template<class T> struct HashK
{
    int mode = 0;
    size_t operator()(const T& e) const noexcept
    {
        size_t k = (size_t)sx_conc(e.k);
        return mode == 0 ? k * 0x9E3779B97F4A7C15ull : mode == 1 ? 0 : mode == 2 ? k : ~(size_t)0;
    }
};
template<class T> struct EqK
{
    bool operator()(const T& a, const T& b) const noexcept { return sx_conc(a.k == b.k) != 0; }
};
template<class T> NI static void uniq(int n, unsigned* keys, int mode, bool bid)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        Arr<T, 90> a(n);
        for (int i = 0; i < n; ++i) a[i] = mkE<T>(keys[i], (unsigned)i);
        HashK<T> h;
        h.mode = mode;
        T* r = bid ? seq::unique(BidIt<T>{ a.b() }, BidIt<T>{ a.e() }, h, EqK<T>()).p : seq::unique(a.b(), a.e(), h, EqK<T>());
        // expected: the first element of every value, in order
        int m = 0;
        for (int i = 0; i < n; ++i) {
            bool dup = false;
            for (int j = 0; j < i && !dup; ++j) dup = sx_conc(keys[j] == keys[i]) != 0;
            if (dup) continue;
            SX_CHECKM(r - a.b() > m, "unique keeps the first element of every value");
            if (r - a.b() > m) SX_CHECKM(a[m].t == (unsigned)i && a[m].k == keys[i], "unique keeps the first element of every value in order");
            ++m;
        }
        SX_CHECKM(r == a.b() + m, "unique removes every later element of a value");
        a.guards();
        for (int i = 0; i < m; ++i) sx_obs(a[i].t);
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class T> static void uniqSmall(bool bid)
{
    int n = (int)sx_pick("n", 0, SXB(5, 6)), mode = (int)sx_pick("hash", 0, 3);
    unsigned keys[8];
    for (int i = 0; i < n; ++i) keys[i] = (unsigned)sx_range("k", 0, i < 4 ? 4 : 5);
    uniq<T>(n, keys, mode, bid && sx_pick("bid", 0, 1));
}
template<class T> static void uniqBig()
{
    static const int SZ[] = { 20, 40, 80 };
    int n = SZ[sx_pick("n", 0, 2)], mode = (int)sx_pick("hash", 0, 3);
    int kind = (int)sx_pick("kind", 0, 2);
    unsigned keys[90];
    for (int i = 0; i < n; ++i) keys[i] = (unsigned)(kind == 0 ? i : kind == 1 ? i * 7 % 19 : i / 3);
    static const int PP[] = { 0, 1, 17 };
    keys[PP[sx_pick("p", 0, 2)]] = (unsigned)sx_range("k", 0, 90);
    uniq<T>(n, keys, mode, sx_pick("bid", 0, 1));
}
// ---- binary search helper
template<class V> static void checkLb(const V* a, int n, V v, int r)
{
    SX_CHECKM(r >= 0 && r <= n, "the position is in the range");
    if (r > 0 && r <= n) SX_CHECKM(a[r - 1] < v, "elements before the position are smaller");
    if (r >= 0 && r < n) SX_CHECKM(!(a[r] < v), "elements from the position are not smaller");
    sx_obs((uint64_t)r);
}
struct LtA { template<class X, class Y> bool operator()(const X& a, const Y& b) const noexcept { return sx_conc((uint64_t)(a < b)) != 0; } };
template<class V, class Key, bool Multi> NI static void lbArith(int n)
{
    V a[72];
    for (int i = 0; i < n; ++i) {
        a[i] = (V)sx_sym("a", sizeof(V) * 8);
        if (i) sx_assume(!(a[i] < a[i - 1]));
    }
    V v = (V)sx_sym("v", sizeof(V) * 8);
    if (sx_pick("lower", 0, 1)) {
        auto r = seq::lower_bound<Multi, Key>(&a[0], (size_t)n, v, LtA());
        SX_CHECK(!r.second);
        checkLb<V>(a, n, v, (int)r.first);
        return;
    }
    // upper bound through the complemented comparator
    auto u = seq::lower_bound<false, Key>(&a[0], (size_t)n, v, [](const V& x, const V& y) { return !LtA()(y, x); });
    int p = (int)u.first;
    SX_CHECKM(p >= 0 && p <= n, "the position is in the range");
    if (p > 0) SX_CHECKM(!(v < a[p - 1]), "elements before the upper position are not greater");
    if (p < n) SX_CHECKM(v < a[p], "elements from the upper position are greater");
}
// elements of 12 and 24 bytes with an arithmetic key
template<int PAD> struct Wide { unsigned k; unsigned pad[PAD]; };
struct LtW
{
    template<int N> bool operator()(const Wide<N>& a, unsigned b) const noexcept { return sx_conc(a.k < b) != 0; }
};
template<int PAD> NI static void lbWide(int n)
{
    Wide<PAD> a[44];
    unsigned k[44];
    for (int i = 0; i < n; ++i) {
        a[i].k = k[i] = (unsigned)sx_sym("a", 32);
        if (i) sx_assume(k[i - 1] <= k[i]);
    }
    unsigned v = (unsigned)sx_sym("v", 32);
    auto r = seq::lower_bound<false, unsigned>(&a[0], (size_t)n, v, LtW());
    checkLb<unsigned>(k, n, v, (int)r.first);
}
static void lbA()
{
    static const int SZ[] = { 33, 8, 1, 0, 9, 16, 34, 64, 65, 17, 32, 66, 70, 2, 7, 15, 31, 35, 47, 48, 63 };
    int n = SZ[sx_pick("n", 0, SXB(6, 20))];
    int ty = (int)sx_pick("type", 0, 6);
    switch (ty) {
        case 0: lbArith<int32_t, int32_t, false>(n); break;
        case 1: lbArith<uint64_t, uint64_t, true>(n); break;
        case 2: lbArith<int8_t, int8_t, false>(n); break;
        case 3: lbArith<uint16_t, uint16_t, true>(n); break;
        case 4: lbArith<int64_t, int64_t, false>(n); break;
        case 5: if (n <= 40) lbWide<2>(n); break;
        case 6: if (n <= 40) lbWide<5>(n); break;
    }
}
struct Cmp3
{
    using comparable = int;
    bool operator()(unsigned a, unsigned b) const noexcept { return sx_conc(a < b) != 0; }
    int compare(unsigned a, unsigned b) const noexcept { return sx_conc(a < b) ? -1 : sx_conc(b < a) ? 1 : 0; }
};
struct Cmp2
{
    bool operator()(unsigned a, unsigned b) const noexcept { return sx_conc(a < b) != 0; }
};
struct NotArith {};
template<bool Multi, class C> NI static void lbKey(int n, bool strict)
{
    unsigned a[24];
    for (int i = 0; i < n; ++i) {
        a[i] = (unsigned)sx_sym("a", 32);
        if (i) sx_assume(strict ? a[i - 1] < a[i] : a[i - 1] <= a[i]);
    }
    unsigned v = (unsigned)sx_sym("v", 32);
    auto r = seq::lower_bound<Multi, NotArith>(&a[0], (size_t)n, v, C());
    int p = (int)r.first;
    checkLb<unsigned>(a, n, v, p);
    if (seq::has_comparable<C>::value) SX_CHECKM(r.second == (p < n && a[p] == v), "an exact match is reported exactly when the value is there");
    else SX_CHECKM(!r.second, "two-way comparisons report no exact match");
}
static void lbK()
{
    int n = (int)sx_pick("n", 0, 20);
    switch (sx_pick("mode", 0, 3)) {
        case 0: lbKey<false, Cmp3>(n, true); break;
        case 1: lbKey<true, Cmp3>(n, false); break;
        case 2: lbKey<false, Cmp2>(n, true); break;
        case 3: lbKey<true, Cmp2>(n, false); break;
    }
    static_assert(seq::has_comparable<Cmp3>::value && !seq::has_comparable<Cmp2>::value, "");
}
// ---- long concrete runs, one arbitrary key
template<class T> NI static void imergeLong()
{
    static const int N1[] = { 20, 60, 60 }, N2[] = { 20, 25, 60 };
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        int z = (int)sx_pick("sz", 0, 2), n1 = N1[z], n2 = N2[z], n = n1 + n2;
        if (sx_pick("swap", 0, 1)) { int t = n1; n1 = n2; n2 = t; }
        int kind = (int)sx_pick("kind", 0, 3);
        Arr<T, 130> a(n);
        unsigned keys[130];
        for (int i = 0; i < n1; ++i) keys[i] = (unsigned)(kind == 0 ? i * 10 / n1 : kind == 1 ? i * 4 / n1 * 3 : kind == 2 ? 5 + i * 8 / n1 : i * 9 / n1 / 2 * 2) * 2;
        for (int i = 0; i < n2; ++i) keys[n1 + i] = (unsigned)(kind == 0 ? i * 10 / n2 : kind == 1 ? i * 9 / n2 : kind == 2 ? i * 8 / n2 : i * 10 / n2 / 2 * 2 + 1) * 2;
        int pos[] = { 0, n1 / 2, n1 - 1, n1, n1 + n2 / 2, n - 1 };
        int p = pos[sx_pick("p", 0, 5)];
        unsigned k = (unsigned)sx_range("k", 0, 30);
        if (p != 0 && p != n1) sx_assume(keys[p - 1] <= k);
        if (p != n1 - 1 && p != n - 1) sx_assume(k <= keys[p + 1]);
        keys[p] = k;
        for (int i = 0; i < n; ++i) a[i] = mkE<T>(keys[i], (unsigned)i);
        static const int Bf[] = { 1, 2, 3, 6, 7, 0, 5, 4 };
        imerge<T>(a.b(), a.b() + n1, a.e(), n, Bf[sx_pick("buf", 0, SXB(4, 7))], LessD());
        a.guards();
        stableSorted(a.b(), n, Less(), keys);
        a.obs();
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
    sx_reach("merged");
}
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, mergeSmall<P>());
        SX_CASE(1, mergeFar<P>());
        SX_CASE(2, imergeSmall<P>(SXB(5, 6), false));
        SX_CASE(3, imergeSmall<Q>(SXB(4, 5), true));
        SX_CASE(4, imergeFar<Q>());
        SX_CASE(5, imergeRuns<Q>());
        SX_CASE(6, revDesc<Q>());
        SX_CASE(7, if (sx_pick("el", 0, 1)) uniqSmall<Q>(true); else uniqSmall<P>(false));
        SX_CASE(8, uniqBig<Q>());
        SX_CASE(9, lbA());
        SX_CASE(10, lbK());
        SX_CASE(11, imergeLong<P>());
    }
}
