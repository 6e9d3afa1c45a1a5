// Element types, reference models and fault injection shared by the harnesses.
#pragma once
#include "sx.h"
#include <utility>
#include <new>
#include <functional>
#include <seq/type_traits.hpp>

// ---------------------------------------------------------------- faults
struct Fault {};
static bool g_armed;      // fault injection enabled
static int g_nofault;     // temporarily disabled when > 0
static unsigned g_points; // fault points passed while armed
static bool g_fired;
struct NoFault { NoFault() { ++g_nofault; } ~NoFault() { --g_nofault; } };
// Every call is a point where the environment may throw; at most one fault per arming.
inline void faultPoint()
{
    if (g_armed && !g_nofault) {
        ++g_points;
        if (sx_pick("throw", 0, 1)) {
            g_armed = false;
            g_fired = true;
            throw Fault();
        }
    }
}

// ---------------------------------------------------------------- elements
static long g_objs; // live tracked objects

// Not relocatable: remembers its own address, so that bitwise moves, use of dead objects and double destruction show.
template<bool NoexceptMove = true, bool Throwing = false>
struct ObjT
{
    const void* self;
    unsigned v;
    static constexpr unsigned MOVED = 0xdeadu;
    ObjT() : self(this), v(0) { if (Throwing) { self = nullptr; faultPoint(); self = this; } ++g_objs; }
    ObjT(unsigned x) : self(this), v(x) { if (Throwing) { self = nullptr; faultPoint(); self = this; } ++g_objs; }
    ObjT(const ObjT& o) : self(nullptr), v(o.v) { o.chk(); if (Throwing) faultPoint(); self = this; ++g_objs; }
    ObjT(ObjT&& o) noexcept(NoexceptMove) : self(nullptr), v(o.v) { o.chk(); if (Throwing && !NoexceptMove) faultPoint(); self = this; o.v = MOVED; ++g_objs; }
    ObjT& operator=(const ObjT& o) { chk(); o.chk(); if (Throwing) faultPoint(); v = o.v; return *this; }
    ObjT& operator=(ObjT&& o) noexcept(NoexceptMove) { chk(); o.chk(); if (Throwing && !NoexceptMove) faultPoint(); if (this != &o) { v = o.v; o.v = MOVED; } return *this; }
    ~ObjT() { if (self != this) sx_fail("destruction of something that is not a live element"); self = nullptr; --g_objs; }
    void chk() const { if (self != this) sx_fail("use of something that is not a live element"); }
    unsigned get() const { chk(); return v; }
};
using Obj = ObjT<true, false>;       // never throws
using TObj = ObjT<true, true>;       // copies may throw, moves do not
using TMObj = ObjT<false, true>;     // copies and moves may throw
template<bool A, bool B> inline bool operator<(const ObjT<A, B>& a, const ObjT<A, B>& b) { if (B) faultPoint(); return a.get() < b.get(); }
template<bool A, bool B> inline bool operator==(const ObjT<A, B>& a, const ObjT<A, B>& b) { if (B) faultPoint(); return a.get() == b.get(); }
template<bool A, bool B> inline bool operator!=(const ObjT<A, B>& a, const ObjT<A, B>& b) { return !(a == b); }

// Relocatable and owning: the value lives in a heap cell, so that duplicated or lost ownership shows as a double free or leak.
template<bool Throwing = false>
struct RelT
{
    unsigned* p;
    static unsigned* mk(unsigned x) { return new unsigned(x); }
    RelT() : p(nullptr) {}
    RelT(unsigned x) : p((Throwing ? faultPoint() : void(), mk(x))) {}
    RelT(const RelT& o) : p((Throwing ? faultPoint() : void(), o.p ? mk(*o.p) : nullptr)) {}
    RelT(RelT&& o) noexcept : p(o.p) { o.p = nullptr; }
    RelT& operator=(const RelT& o) { if (this != &o) { unsigned* n = (Throwing ? faultPoint() : void(), o.p ? mk(*o.p) : nullptr); delete p; p = n; } return *this; }
    RelT& operator=(RelT&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~RelT() { delete p; p = nullptr; }
    unsigned get() const { return p ? *p : 0; }
};
using Rel = RelT<false>;
using TRel = RelT<true>;
template<bool B> inline bool operator<(const RelT<B>& a, const RelT<B>& b) { if (B) faultPoint(); return a.get() < b.get(); }
template<bool B> inline bool operator==(const RelT<B>& a, const RelT<B>& b) { if (B) faultPoint(); return a.get() == b.get(); }
template<bool B> inline bool operator!=(const RelT<B>& a, const RelT<B>& b) { return !(a == b); }
namespace seq { template<bool B> struct is_relocatable<RelT<B>> : std::true_type {}; }

// plain value access, whatever the element
inline unsigned val(unsigned x) { return x; }
inline unsigned val(size_t x) { return (unsigned)x; }
inline unsigned val(int x) { return (unsigned)x; }
template<bool A, bool B> inline unsigned val(const ObjT<A, B>& o) { return o.get(); }
template<bool B> inline unsigned val(const RelT<B>& o) { return o.get(); }

// ---------------------------------------------------------------- allocators
// Stateful: each block remembers its owner, so that cross-deallocation and wrong sizes show.
struct Ledger { long blocks = 0, bytes = 0; int id = 0; };
struct Hdr { const Ledger* own; size_t bytes; };
template<class T, bool Propagate = true, bool Throwing = false>
struct LAlloc
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, Propagate>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Propagate>;
    using propagate_on_container_swap = std::integral_constant<bool, Propagate>;
    using is_always_equal = std::false_type;
    template<class U> struct rebind { using other = LAlloc<U, Propagate, Throwing>; };
    Ledger* l;
    static Ledger*& def() { static Ledger d; static Ledger* p = &d; return p; }
    LAlloc() noexcept : l(def()) {}
    explicit LAlloc(Ledger* x) noexcept : l(x) {}
    LAlloc(const LAlloc&) noexcept = default;
    LAlloc& operator=(const LAlloc&) noexcept = default;
    template<class U> LAlloc(const LAlloc<U, Propagate, Throwing>& o) noexcept : l(o.l) {}
    static constexpr size_t H = alignof(T) > 16 ? alignof(T) : 16;
    T* allocate(size_t n)
    {
        if (Throwing) faultPoint();
        char* p = alignof(T) > 16 ? (char*)::operator new(n * sizeof(T) + H, std::align_val_t(alignof(T))) : (char*)::operator new(n * sizeof(T) + H);
        ((Hdr*)p)->own = l;
        ((Hdr*)p)->bytes = n * sizeof(T);
        l->blocks++;
        l->bytes += (long)(n * sizeof(T));
        return (T*)(p + H);
    }
    void deallocate(T* q, size_t n)
    {
        char* p = (char*)q - H;
        Hdr* h = (Hdr*)p;
        if (h->own != l) sx_fail("block returned to an allocator that did not provide it");
        if (h->bytes != n * sizeof(T)) sx_fail("block returned with a size that differs from the requested one");
        h->own = nullptr;
        l->blocks--;
        l->bytes -= (long)(n * sizeof(T));
        if (alignof(T) > 16) ::operator delete(p, std::align_val_t(alignof(T)));
        else ::operator delete(p);
    }
    template<class U> bool operator==(const LAlloc<U, Propagate, Throwing>& o) const noexcept { return l == o.l; }
    template<class U> bool operator!=(const LAlloc<U, Propagate, Throwing>& o) const noexcept { return l != o.l; }
};
// stateless allocator that may throw
template<class T>
struct FAlloc
{
    using value_type = T;
    template<class U> struct rebind { using other = FAlloc<U>; };
    FAlloc() noexcept {}
    template<class U> FAlloc(const FAlloc<U>&) noexcept {}
    T* allocate(size_t n)
    {
        faultPoint();
        return alignof(T) > 16 ? (T*)::operator new(n * sizeof(T), std::align_val_t(alignof(T))) : (T*)::operator new(n * sizeof(T));
    }
    void deallocate(T* p, size_t n) noexcept
    {
        if (alignof(T) > 16) ::operator delete((void*)p, n * sizeof(T), std::align_val_t(alignof(T)));
        else ::operator delete((void*)p, n * sizeof(T));
    }
    template<class U> bool operator==(const FAlloc<U>&) const noexcept { return true; }
    template<class U> bool operator!=(const FAlloc<U>&) const noexcept { return false; }
};

// ---------------------------------------------------------------- reference models
template<class T, int CAP>
struct RVec // sequence of plain values
{
    T a[CAP];
    int n = 0;
    int size() const { return n; }
    T& operator[](int i) { return a[i]; }
    const T& operator[](int i) const { return a[i]; }
    void push_back(T v) { if (n >= CAP) sx_fail("harness: reference model full"); a[n++] = v; }
    void insert(int p, T v) { push_back(v); for (int i = n - 1; i > p; --i) a[i] = a[i - 1]; a[p] = v; }
    void erase(int p, int q) { int d = q - p; for (int i = q; i < n; ++i) a[i - d] = a[i]; n -= d; }
    void resize(int m, T v) { while (n > m) --n; while (n < m) push_back(v); }
    void clear() { n = 0; }
    void reverse() { for (int i = 0, j = n - 1; i < j; ++i, --j) { T t = a[i]; a[i] = a[j]; a[j] = t; } }
};
template<class K, class V>
struct KV { K k; V v; };
// Unordered map model: entries in insertion order. Key comparison is decided by the engine, so lookups split cases.
template<class K, class V, int CAP>
struct RMap
{
    K k[CAP];
    V v[CAP];
    int n = 0;
    int find(K x) const { for (int i = 0; i < n; ++i) if (k[i] == x) return i; return -1; }
    bool insert(K x, V y) { if (find(x) >= 0) return false; if (n >= CAP) sx_fail("harness: reference model full"); k[n] = x; v[n] = y; ++n; return true; }
    void eraseAt(int p) { for (int i = p + 1; i < n; ++i) { k[i - 1] = k[i]; v[i - 1] = v[i]; } --n; }
    bool erase(K x) { int p = find(x); if (p < 0) return false; eraseAt(p); return true; }
    void clear() { n = 0; }
};
// Ordered model: sorted ascending by key; Multi keeps duplicates in insertion order
template<class K, class V, int CAP, bool Multi = false>
struct ROrd
{
    K k[CAP];
    V v[CAP];
    int n = 0;
    template<class P> int lb(const P& x) const { int i = 0; while (i < n && k[i] < x) ++i; return i; }
    template<class P> int ub(const P& x) const { int i = 0; while (i < n && !(x < k[i])) ++i; return i; }
    int find(K x) const { int i = lb(x); return i < n && !(x < k[i]) ? i : -1; }
    int count(K x) const { return ub(x) - lb(x); }
    void insAt(int p, K x, V y) { if (n >= CAP) sx_fail("harness: reference model full"); for (int i = n; i > p; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[p] = x; v[p] = y; ++n; }
    bool insert(K x, V y, int* where = nullptr)
    {
        int p;
        if (Multi) p = ub(x);
        else { p = lb(x); if (p < n && !(x < k[p])) { if (where) *where = p; return false; } }
        insAt(p, x, y);
        if (where) *where = p;
        return true;
    }
    void eraseAt(int p) { for (int i = p + 1; i < n; ++i) { k[i - 1] = k[i]; v[i - 1] = v[i]; } --n; }
    int erase(K x) { int a = lb(x), b = ub(x); for (int i = a; i < b; ++i) eraseAt(a); return b - a; }
    void clear() { n = 0; }
};
// iterator over a plain array that is only an input iterator (no distance)
template<class T>
struct InIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { InIt t = *this; ++p; return t; }
    bool operator==(const InIt& o) const { return p == o.p; }
    bool operator!=(const InIt& o) const { return p != o.p; }
};
