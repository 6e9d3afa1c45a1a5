// Elements with a sort key and a tag that records the original position.
#pragma once
#include "elems.h"
#include <algorithm>
#include <iterator>
#include <seq/algorithm.hpp>
#define NI __attribute__((noinline))
// trivially copyable, hence relocatable: bidirectional and branchless code
struct P { unsigned k = 0, t = 0; };
// not relocatable: remembers its address
struct Q
{
    const void* self;
    unsigned k, t;
    static constexpr unsigned MOVED = 0xffffffffu;
    Q() noexcept : self(this), k(0), t(MOVED) { ++g_objs; }
    Q(unsigned a, unsigned b) noexcept : self(this), k(a), t(b) { ++g_objs; }
    Q(const Q& o) noexcept : self(this), k(o.k), t(o.t) { o.chk(); ++g_objs; }
    Q(Q&& o) noexcept : self(this), k(o.k), t(o.t) { o.chk(); o.t = MOVED; ++g_objs; }
    Q& operator=(const Q& o) noexcept { chk(); o.chk(); k = o.k; t = o.t; return *this; }
    Q& operator=(Q&& o) noexcept { chk(); o.chk(); if (this != &o) { k = o.k; t = o.t; o.t = MOVED; } return *this; }
    ~Q() { chk(); self = nullptr; --g_objs; }
    void chk() const { if (self != this) sx_fail("use of something that is not a live element"); }
};
// large trivially copyable element
struct B { unsigned k = 0, t = 0; uint64_t pad[3] = { 1, 2, 3 }; };
template<class T> static T mkE(unsigned k, unsigned t) { T e; e.k = k; e.t = t; return e; }
struct Less { template<class A, class C> bool operator()(const A& a, const C& b) const noexcept { return a.k < b.k; } };
struct Greater { template<class A, class C> bool operator()(const A& a, const C& b) const noexcept { return b.k < a.k; } };
// the same orders, decided at every comparison (one path per outcome)
struct LessD { template<class A, class C> bool operator()(const A& a, const C& b) const noexcept { return sx_conc(a.k < b.k) != 0; } };
struct GreaterD { template<class A, class C> bool operator()(const A& a, const C& b) const noexcept { return sx_conc(b.k < a.k) != 0; } };
// bidirectional iterator over an array
template<class T>
struct BidIt
{
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    T* p = nullptr;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    BidIt& operator++() { ++p; return *this; }
    BidIt operator++(int) { BidIt t = *this; ++p; return t; }
    BidIt& operator--() { --p; return *this; }
    BidIt operator--(int) { BidIt t = *this; --p; return t; }
    bool operator==(const BidIt& o) const { return p == o.p; }
    bool operator!=(const BidIt& o) const { return p != o.p; }
};
// [0,n) between two guards
template<class T, int CAP>
struct Arr
{
    T a[CAP + 2];
    int n;
    Arr(int m) : n(m) { if (m > CAP) sx_fail("harness: array too long"); a[0] = mkE<T>(111, 77777); a[m + 1] = mkE<T>(5, 77778); }
    T* b() { return a + 1; }
    T* e() { return a + 1 + n; }
    T& operator[](int i) { return a[i + 1]; }
    void guards() { SX_CHECKM(a[0].k == 111 && a[0].t == 77777 && a[n + 1].k == 5 && a[n + 1].t == 77778, "elements outside the range are untouched"); }
    void obs() { for (int i = 0; i < n; ++i) { sx_obs(a[i + 1].k); sx_obs(a[i + 1].t); } }
};
// sorted by c, equivalent elements ordered by tag, tags a permutation of 0..n-1, each with its own key
template<class T, class C> static void stableSorted(T* a, int n, C c, const unsigned* keys)
{
    unsigned char seen[1024];
    for (int i = 0; i < n; ++i) seen[i] = 0;
    for (int i = 0; i < n; ++i) {
        unsigned t = (unsigned)sx_conc(a[i].t);
        if (t >= (unsigned)n || seen[t]) sx_fail("the result is not a permutation of the input");
        seen[t] = 1;
        SX_CHECKM(a[i].k == keys[t], "elements keep their key");
        if (i) {
            if (a[i - 1].t < t) SX_CHECKM(!c(a[i], a[i - 1]), "sorted");
            else SX_CHECKM(c(a[i - 1], a[i]), "sorted, equivalent elements keep their order");
        }
    }
}
// concrete key pattern; values are even and few so that a symbolic key can fall between them in a few ways
static unsigned pat(int kind, int i, int n)
{
    switch (kind) {
        case 0: return (unsigned)((i * 7919 + i * i * 31) % 13 % 5) * 2;    // shuffled, duplicates
        case 1: return (unsigned)(i % 11 / 3 + i / 40 % 3) * 2;              // short ascending runs
        case 2: return (unsigned)(6 - i % 9 / 2) * 2;                        // short descending runs with equal values
        case 3: return (unsigned)((i < n / 2 ? i : n - i) * 10 / n) * 2;     // up then down
        case 4: return 4;                                                    // all equal
        case 5: return (unsigned)((n - i) * 6 / n) * 2;                      // descending with equal values
        case 6: return (unsigned)(i * 6 / n) * 2;                            // ascending
        default: return (unsigned)(i / 8 % 2 ? 8 - i % 8 : i % 8) / 2 * 2;   // waves
    }
}
