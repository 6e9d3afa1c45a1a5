//@cfg 0 : alignments 1 to 4096 by type (StackPointer): every pointer and tag
//@cfg 1 : HeapPointer, of several types
//@cfg 2 : CustomAlignment 1 to 65536, void included
//@cfg 3 : void with the default alignment
//@cfg 4 : tag widths
//@bounds every pointer aligned for its kind and every tag that fits, two consecutive modifications of each kind
//@outside pointers that are not aligned as the kind requires, tags that do not fit for set_tag (documented preconditions)
#include "sx.h"
#include <cstdlib>
#include <seq/tagged_pointer.hpp>
using namespace seq;
template<size_t A> struct alignas(A) Al { char c[A]; int get() const { return 1; } };
template<class P, class T> static void check(P& p, T* q, uintptr_t t)
{
    const P& c = p;
    SX_CHECKM(p.ptr() == q && c.ptr() == q, "pointer");
    SX_CHECKM(p.tag() == t, "tag");
    SX_CHECKM(static_cast<T*>(p) == q, "conversion to pointer");
    SX_CHECKM(static_cast<const T*>(c) == q, "conversion to const pointer");
    SX_CHECKM(p.operator->() == q && c.operator->() == q, "operator->");
    SX_CHECKM(p.full() == ((uintptr_t)q | t), "full value");
    auto s = p.split();
    SX_CHECKM(s.first == q && s.second == (unsigned)t, "split");
    auto cs = c.split();
    SX_CHECKM(cs.first == q && cs.second == (unsigned)t, "split const");
    if constexpr (!std::is_void_v<T>) { SX_CHECKM(&*p == q && &*c == q, "operator*"); }
}
template<class P, class T> static void one(size_t align)
{
    SX_CHECKM((size_t)P::mask_low + 1 == align, "number of tags");
    SX_CHECK(((size_t)1 << P::tag_bits) == align);
    SX_CHECK(P::mask_high == ~P::mask_low);
    auto sp = [&](const char* n) { uintptr_t x = sx_sym(n, 64); return (T*)(x & ~(uintptr_t)(align - 1)); };
    auto st = [&](const char* n) { return (uintptr_t)(sx_sym(n, 64) & (align - 1)); };
    T *a = sp("a"), *b = sp("b");
    uintptr_t t = st("t"), u = st("u"), junk = sx_sym("junk", 64);
    uintptr_t zero = 0; // keeps the constructor with a null pointer unambiguous
    switch (sx_pick("op", 0, 7)) {
        case 0: { P p; check(p, (T*)zero, 0); p.set_ptr(a); check(p, a, 0); p.set_ptr(b); check(p, b, 0); p.set_ptr(a); check(p, a, 0); SX_CHECK(p.set_tag(t) == t); check(p, a, t); SX_CHECK(p.set_tag(u) == u); check(p, a, u); break; }
        case 1: { P p(a); check(p, a, 0); p.set_tag(t); check(p, a, t); p.set_tag(u); check(p, a, u); break; }
        case 2: { P p(a, t); check(p, a, t); p.set(b, u); check(p, b, u); p.set(a, junk); check(p, a, junk & (align - 1)); break; }
        case 3: { P p(a, junk); check(p, a, junk & (align - 1)); break; }
        case 4: { P p(a, t); uintptr_t f = p.full(); P q; SX_CHECK(q.set_full(f) == f); check(q, a, t); SX_CHECK(q.full() == p.full()); break; }
        case 5: { P p(a, t); P q(p); check(q, a, t); P r(b, u); r = p; check(r, a, t); check(p, a, t); break; }
        case 6: { P p((T*)zero, t); check(p, (T*)zero, t); p.set_ptr(b); check(p, b, t); p.set_ptr(a); check(p, a, t); p.set_ptr((T*)zero); check(p, (T*)zero, t); break; }
        case 7: { P p(a, t), q(b, u); SX_CHECKM((p.full() == q.full()) == (a == b && t == u), "full values are equal exactly when pointer and tag are"); SX_CHECKM((static_cast<T*>(p) == static_cast<T*>(q)) == (a == b), "comparison ignores the tag"); break; }
    }
    sx_reach("done");
}
void sx_main(int cfg)
{
    switch (cfg) {
        case 0:
            switch (sx_pick("alignment", 0, 8)) {
                case 0: one<tagged_pointer<Al<1>>, Al<1>>(1); break;
                case 1: one<tagged_pointer<Al<2>>, Al<2>>(2); break;
                case 2: one<tagged_pointer<Al<4>>, Al<4>>(4); break;
                case 3: one<tagged_pointer<Al<8>>, Al<8>>(8); break;
                case 4: one<tagged_pointer<Al<16>>, Al<16>>(16); break;
                case 5: one<tagged_pointer<Al<64>>, Al<64>>(64); break;
                case 6: one<tagged_pointer<Al<4096>>, Al<4096>>(4096); break;
                case 7: one<tagged_pointer<double>, double>(alignof(double)); break;
                case 8: one<tagged_pointer<char>, char>(1); break;
            }
            break;
        case 1:
            switch (sx_pick("type", 0, 2)) {
                case 0: one<tagged_pointer<char, HeapPointer>, char>(SEQ_DEFAULT_ALIGNMENT); break;
                case 1: one<tagged_pointer<Al<8>, HeapPointer>, Al<8>>(SEQ_DEFAULT_ALIGNMENT); break;
                case 2: one<tagged_pointer<int*, HeapPointer>, int*>(SEQ_DEFAULT_ALIGNMENT); break;
            }
            break;
        case 2:
            switch (sx_pick("alignment", 0, 6)) {
                case 0: one<tagged_pointer<int, CustomAlignment, 1>, int>(1); break;
                case 1: one<tagged_pointer<int, CustomAlignment, 2>, int>(2); break;
                case 2: one<tagged_pointer<int, CustomAlignment, 32>, int>(32); break;
                case 3: one<tagged_pointer<char, CustomAlignment, 65536>, char>(65536); break;
                case 4: one<tagged_pointer<void, CustomAlignment, 1>, void>(1); break;
                case 5: one<tagged_pointer<void, CustomAlignment, 8>, void>(8); break;
                case 6: one<tagged_pointer<void, CustomAlignment, 1024>, void>(1024); break;
            }
            break;
        case 3:
            if (sx_pick("kind", 0, 1)) one<tagged_pointer<void>, void>(SEQ_DEFAULT_ALIGNMENT);
            else one<tagged_pointer<void, HeapPointer>, void>(SEQ_DEFAULT_ALIGNMENT);
            break;
        case 4: {
            tagged_pointer<void, CustomAlignment, 64> p;
            uintptr_t f = sx_sym("f", 64);
            p.rfull() = f; // direct access to the full value
            SX_CHECK(p.full() == f && (uintptr_t)p.ptr() == (f & ~(uintptr_t)63) && p.tag() == (f & 63));
            sx_reach("done");
            break;
        }
    }
}
