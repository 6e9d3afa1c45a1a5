//@cfg 0 : relocatable elements, 0 to 5 symbolic keys, every buffer policy and comparator
//@cfg 1 : non-relocatable elements, 0 to 5 symbolic keys; bidirectional iterators
//@cfg 2 : relocatable elements, 16 to 18 elements, 8 of them with symbolic one-bit keys
//@cfg 3 : non-relocatable elements, 16 to 18 elements, 8 of them with symbolic one-bit keys
//@cfg 4 : relocatable elements, 16 to 40 elements, 2 symbolic keys in 8 key patterns
//@cfg 5 : non-relocatable elements, 16 to 40 elements, 1 symbolic key in 8 key patterns, every buffer policy
//@cfg 6 : relocatable elements, 64 to 300 elements, 1 symbolic key in 8 key patterns
//@cfg 7 : bidirectional iterators, 16 to 140 elements, 1 symbolic key in 8 key patterns
//@cfg 8 : 40-byte relocatable elements and the reversed comparator, 16 to 130 elements, 1 symbolic key
//@cfg 9 : the stable sorting of blocks of 8: symbolic keys of full range
//@parts 4
//@bounds ranges of 0 to 5 elements with arbitrary keys, blocks of 8 with 4 arbitrary keys, ranges of 16 to 18 elements with 8 arbitrary one-bit keys, ranges of 16 to 300 elements whose keys follow one of 8 patterns except one or two arbitrary keys at chosen positions; buffers: none, user buffers of 1, 5, n/2 and n elements, and the four constant policies
//@outside longer ranges, inputs that differ from the patterns in more than two keys, throwing comparators
#include "sortel.h"

template<class T, class It, class C> NI static void run(It b, It e, T* raw, int n, int buf, C c)
{
    switch (buf) {
        case 0: seq::net_sort(b, e, c); break;
        case 1: seq::net_sort(b, e, c, seq::buffer<T*>{ nullptr, 0 }); break;
        case 2: { T t[1]; seq::net_sort(b, e, c, seq::buffer<T*>{ t, 1 }); break; }
        case 3: { T t[5]; seq::net_sort_size(b, (size_t)n, c, seq::buffer<T*>{ t, 5 }); break; }
        case 4: { T t[160]; seq::net_sort(b, e, c, seq::buffer<T*>{ t, (size_t)n / 2 }); break; }
        case 5: { T t[310]; seq::net_sort(b, e, c, seq::buffer<T*>{ t, (size_t)n }); break; }
        case 6: seq::net_sort_size(b, (size_t)n, c, seq::medium_buffer); break;
        case 7: seq::net_sort(b, e, c, seq::small_buffer); break;
        case 8: seq::net_sort(b, e, c, seq::tiny_buffer); break;
    }
    (void)raw;
}
template<class T, class C> static void sortAny(T* b, T* e, int n, int buf, bool bid, C c)
{
    if (bid) run<T>(BidIt<T>{ b }, BidIt<T>{ e }, b, n, buf, c);
    else run<T>(b, e, b, n, buf, c);
}
template<class T, int CAP> static void done(Arr<T, CAP>& a, bool rev, const unsigned* keys)
{
    a.guards();
    if (rev) stableSorted(a.b(), a.n, Greater(), keys);
    else stableSorted(a.b(), a.n, Less(), keys);
    a.obs();
}
template<class T> static void small(int mx, bool bid)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        int n = (int)sx_pick("n", 0, (uint64_t)mx);
        Arr<T, 10> a(n);
        unsigned keys[10];
        for (int i = 0; i < n; ++i) a[i] = mkE<T>(keys[i] = (unsigned)sx_sym("k", 32), (unsigned)i);
        int buf = n > 4 ? 0 : (int)sx_pick("buf", 0, 8);
        bool rev = sx_pick("rev", 0, 1);
        if (rev) sortAny(a.b(), a.e(), n, buf, bid, Greater());
        else sortAny(a.b(), a.e(), n, buf, bid, Less());
        done(a, rev, keys);
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
}
template<class T> static void bits(int lo, int hi, int nbits, int buf)
{
    int n = (int)sx_pick("n", (uint64_t)lo, (uint64_t)hi);
    Arr<T, 20> a(n);
    unsigned keys[20];
    int r = (int)sx_pick("r", 0, 2);
    for (int i = 0; i < n; ++i) keys[i] = (unsigned)(i & 1);
    // symbolic bits at the front, at the back, or every other position
    for (int i = 0; i < nbits; ++i) keys[r == 0 ? i : r == 1 ? n - 1 - i : (i * 2 + i * 2 / n) % n] = (unsigned)sx_range("k", 0, 1);
    for (int i = 0; i < n; ++i) a[i] = mkE<T>(keys[i], (unsigned)i);
    run<T>(a.b(), a.e(), a.b(), n, buf, LessD());
    done(a, false, keys);
}
template<class T> NI static void pattern(const int* sizes, int ns, int nsym, int nbuf, bool bid, bool rev)
{
    long o0 = g_objs;
    uint64_t l0 = sx_live();
    {
        int n = sizes[sx_pick("n", 0, (uint64_t)ns - 1)], kind = (int)sx_pick("kind", 0, 7);
        Arr<T, 300> a(n);
        unsigned keys[300];
        for (int i = 0; i < n; ++i) keys[i] = pat(kind, i, n);
        int p = (int)sx_pick("p", 0, 2);
        int p0 = p == 0 ? 0 : p == 1 ? n / 2 : n - 1;
        keys[p0] = (unsigned)sx_range("k", 0, 14);
        if (nsym > 1) keys[p0 == n - 1 ? n / 3 : p0 + 5] = (unsigned)sx_range("k", 0, 14);
        for (int i = 0; i < n; ++i) a[i] = mkE<T>(keys[i], (unsigned)i);
        static const int Bf[] = { 0, 1, 5, 4, 3, 6, 2, 7, 8 };
        int buf = Bf[sx_pick("buf", 0, (uint64_t)nbuf - 1)];
        if (rev) sortAny(a.b(), a.e(), n, buf, bid, GreaterD());
        else sortAny(a.b(), a.e(), n, buf, bid, LessD());
        done(a, rev, keys);
    }
    SX_CHECKM(g_objs == o0, "every element is destroyed exactly once");
    SX_CHECKM(sx_live() == l0, "no memory is leaked");
    sx_reach("sorted");
}
template<class T> static void block8()
{
    // 8 elements: 5 symbolic keys of full range at every position, 3 concrete
    Arr<T, 10> a(8);
    unsigned keys[8];
    int r = (int)sx_pick("r", 0, 7);
    for (int i = 0; i < 8; ++i) keys[i] = (unsigned)(i % 3 == 1 ? 100 : 200 - i);
    for (int i = 0; i < SXB(4, 5); ++i) keys[(r + i * 3) % 8] = (unsigned)sx_sym("k", 32);
    for (int i = 0; i < 8; ++i) a[i] = mkE<T>(keys[i], (unsigned)i);
    auto e = seq::algo_detail::atom_sort_8<8>(a.b(), 8, Less());
    SX_CHECK(e == a.e());
    done(a, false, keys);
}
static const int SZ1[] = { 16, 17, 23, 24, 31, 33, 40 }, SZ2[] = { 64, 100, 128, 129, 150, 257, 300 }, SZ3[] = { 16, 25, 40, 128, 140 }, SZ4[] = { 16, 64, 127, 130 }, SZ5[] = { 16, 24, 33 };
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, small<P>(SXB(5, 7), false));
        SX_CASE(1, small<Q>(SXB(5, 6), sx_pick("bid", 0, 1)));
        SX_CASE(2, bits<P>(16, SXB(18, 19), SXB(8, 12), 0));
        SX_CASE(3, bits<Q>(16, SXB(18, 19), SXB(8, 12), 0));
        SX_CASE(4, pattern<P>(SZ5, SXB(2, 3), 2, SXB(5, 9), false, false));
        SX_CASE(5, pattern<Q>(SZ1, 7, SXB(1, 2), SXB(6, 9), false, false));
        SX_CASE(6, pattern<P>(SZ2, 7, 1, SXB(6, 9), false, false));
        SX_CASE(7, pattern<Q>(SZ3, 5, 1, SXB(6, 9), true, false));
        SX_CASE(8, pattern<B>(SZ4, 4, 1, SXB(6, 9), false, true));
        SX_CASE(9, block8<P>());
    }
}
