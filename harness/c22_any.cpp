// C22: seq::hold_any holds, copies, moves and destroys exactly one value of the right type.
//@property C22
//@cfg 0-3 : two any objects, all kinds of stored values; 0: default any, 1: relocatable any, 2: 32-byte storage, 3: 32-byte relocatable
//@bounds two any objects and one temporary, seven kinds of stored values (trivial small/large, small relocatable owner, small and large address-sensitive, move-only, copyable but not assignable), symbolic values; two construction steps followed by two (thorough: three) operations among assignment, copy, move, swap, reset, emplace, self-operations and casts
//@outside types whose constructors throw (C26), converting casts between strings and numbers, streaming, formatting
//@parts 4
#include "elems.h"
#include <seq/any.hpp>

struct Big4 { uint64_t a[4]; };
// eight bytes, address sensitive
struct NR8
{
    uint32_t v, me;
    static uint32_t low(const void* p) { return (uint32_t)(uintptr_t)p; }
    NR8() : v(0), me(low(this)) { ++g_objs; }
    explicit NR8(unsigned x) : v(x), me(low(this)) { ++g_objs; }
    NR8(const NR8& o) : v(o.get()), me(low(this)) { ++g_objs; }
    NR8(NR8&& o) noexcept : v(o.get()), me(low(this)) { o.v = 0xdead; ++g_objs; }
    NR8& operator=(const NR8& o) { chk(); v = o.get(); return *this; }
    NR8& operator=(NR8&& o) noexcept { chk(); if (this != &o) { v = o.get(); o.v = 0xdead; } return *this; }
    ~NR8() { chk(); me = ~me; --g_objs; }
    void chk() const { if (me != low(this)) sx_fail("use of something that is not a live element"); }
    unsigned get() const { chk(); return v; }
};
struct MoveOnly
{
    Rel r;
    MoveOnly() {}
    explicit MoveOnly(unsigned x) : r(x) {}
    MoveOnly(MoveOnly&&) noexcept = default;
    MoveOnly& operator=(MoveOnly&&) noexcept = default;
    unsigned get() const { return r.get(); }
};
struct NoAssign
{
    NR8 r;
    const int k = 3;
    NoAssign() {}
    explicit NoAssign(unsigned x) : r(x) {}
    NoAssign(const NoAssign&) = default;
    NoAssign& operator=(const NoAssign&) = delete;
    unsigned get() const { return r.get(); }
};
template<int K> struct Kind;
template<> struct Kind<0> { using T = uint32_t; static T mk(unsigned v) { return v; } static unsigned get(const T& t) { return t; } };
template<> struct Kind<1> { using T = Big4; static T mk(unsigned v) { return T{ { v, v + 1ull, v + 2ull, v + 3ull } }; } static unsigned get(const T& t) { SX_CHECK(t.a[3] - t.a[0] == 3 && t.a[2] - t.a[1] == 1); return (unsigned)t.a[0]; } };
template<> struct Kind<2> { using T = Rel; static T mk(unsigned v) { return T(v); } static unsigned get(const T& t) { return t.get(); } };
template<> struct Kind<3> { using T = NR8; static T mk(unsigned v) { return T(v); } static unsigned get(const T& t) { return t.get(); } };
template<> struct Kind<4> { using T = Obj; static T mk(unsigned v) { return T(v); } static unsigned get(const T& t) { return t.get(); } };
template<> struct Kind<5> { using T = MoveOnly; static T mk(unsigned v) { return T(v); } static unsigned get(const T& t) { return t.get(); } };
template<> struct Kind<6> { using T = NoAssign; static T mk(unsigned v) { return T(v); } static unsigned get(const T& t) { return t.get(); } };
constexpr int NK = 7;

template<class F>
void withKind(int k, F&& f)
{
    switch (k) {
        case 0: f(Kind<0>()); break;
        case 1: f(Kind<1>()); break;
        case 2: f(Kind<2>()); break;
        case 3: f(Kind<3>()); break;
        case 4: f(Kind<4>()); break;
        case 5: f(Kind<5>()); break;
        default: f(Kind<6>()); break;
    }
}
static bool copyable(int k) { return k != 5; }

struct Model { int kind = -1; bool known = true; unsigned v = 0; };  // kind -1: empty; !known: valid but unspecified

template<class A>
struct World
{
    A a[2];
    Model m[2];

    void check(int i)
    {
        A& x = a[i];
        const A& cx = x;
        if (!m[i].known) { // moved from: any valid state
            return;
        }
        SX_CHECK(x.empty() == (m[i].kind < 0));
        SX_CHECK(x.has_value() == (m[i].kind >= 0));
        if (m[i].kind < 0) {
            SX_CHECK(x.type() == nullptr);
            return;
        }
        withKind(m[i].kind, [&](auto K) {
            using T = typename decltype(K)::T;
            SX_CHECK(x.type() == A::template get_type<T>());
            SX_CHECK(x.sizeof_type() == sizeof(T));
            SX_CHECK(decltype(K)::get(x.template cast<T&>()) == m[i].v);
            SX_CHECK(decltype(K)::get(cx.template cast<const T&>()) == m[i].v);
            T* p = seq::any_cast<T>(&x);
            SX_CHECK(p != nullptr && (const void*)p == x.data());
            SX_CHECK(decltype(K)::get(*p) == m[i].v);
            SX_CHECK((uintptr_t)p % alignof(T) == 0);
        });
    }
    template<class KK> void store(int i, KK, int how, unsigned v)
    {
        using T = typename KK::T;
        if constexpr (std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>) {
            if (how == 0) { a[i] = KK::mk(v); }
            else if (how == 1) {
                if constexpr (std::is_copy_constructible_v<T>) { const T t = KK::mk(v); a[i] = t; SX_CHECK(KK::get(t) == v); }
                else { T t = KK::mk(v); a[i] = std::move(t); }
            }
            else {
                T t = KK::mk(v);
                T& r = a[i].template emplace<T>(std::move(t));
                SX_CHECK(KK::get(r) == v);
                SX_CHECK((const void*)&r == a[i].data());
            }
        }
        else { // neither assignable: only through a new any
            A t(KK::mk(v));
            a[i] = std::move(t);
        }
        m[i] = Model{ (int)-1, true, v };
    }
    void storeKind(int i, int k, int how, unsigned v)
    {
        withKind(k, [&](auto K) { store(i, K, how, v); });
        m[i].kind = k;
        m[i].v = v;
    }
    void checkBoth() { check(0); check(1); }

    void op(int o)
    {
        switch (o) {
            case 0: { // store into the first
                int k = (int)sx_pick("kind", 0, NK - 1);
                int how = (int)sx_pick("how", 0, 2);
                if (k == 6 && how) sx_discard();
                storeKind(0, k, how, (unsigned)sx_sym("v", 32));
                sx_reach("store");
                break;
            }
            case 1: // copy assign
                if (!m[1].known) sx_discard();
                if (!copyable(m[1].kind)) {
                    bool thrown = false;
                    try { a[0] = a[1]; } catch (const seq::bad_any_function_call&) { thrown = true; }
                    SX_CHECK(thrown);
                    m[0].known = false;
                    sx_reach("copy of a move-only value");
                }
                else { a[0] = (const A&)a[1]; m[0] = m[1]; }
                break;
            case 2: // move assign
                if (!m[1].known) sx_discard();
                a[0] = std::move(a[1]); m[0] = m[1]; m[1].known = false; break;
            case 3: { // copy construct, independent
                if (!m[0].known) sx_discard();
                if (!copyable(m[0].kind)) {
                    bool thrown = false;
                    try { A t((const A&)a[0]); } catch (const seq::bad_any_function_call&) { thrown = true; }
                    SX_CHECK(thrown);
                }
                else {
                    World w;
                    { A t((const A&)a[0]); w.a[0] = std::move(t); }
                    w.m[0] = m[0];
                    w.check(0);
                    a[0].reset(); m[0] = Model();
                    w.check(0);
                    A t(std::move(w.a[0]));
                    a[1] = t;
                    m[1] = w.m[0];
                }
                break;
            }
            case 4: { // move construct
                if (!m[0].known) sx_discard();
                A t(std::move(a[0]));
                Model mt = m[0]; m[0].known = false;
                if (copyable(mt.kind)) { a[1] = t; m[1] = mt; }
                check(1);
                a[0] = std::move(t); m[0] = mt;
                break;
            }
            case 5: a[0].swap(a[1]); std::swap(m[0], m[1]); break;
            case 6: { using std::swap; seq::swap(a[1], a[0]); std::swap(m[0], m[1]); break; }
            case 7: a[0].reset(); m[0] = Model(); break;
            case 8: { // self operations
                if (!m[0].known) sx_discard();
                A& r = a[0];
                if (copyable(m[0].kind)) a[0] = r;
                check(0);
                a[0].swap(r);
                break;
            }
            case 9: { // failing cast
                if (!m[0].known) sx_discard();
                int k = (int)sx_pick("kind", 0, NK - 1);
                if (k == m[0].kind) sx_discard();
                withKind(k, [&](auto K) {
                    using T = typename decltype(K)::T;
                    bool thrown = false;
                    try { (void)decltype(K)::get(a[0].template cast<T&>()); } catch (const std::bad_cast&) { thrown = true; }
                    SX_CHECK(thrown);
                    thrown = false;
                    try { (void)decltype(K)::get(((const A&)a[0]).template cast<const T&>()); } catch (const std::bad_cast&) { thrown = true; }
                    SX_CHECK(thrown);
                    SX_CHECK(seq::any_cast<T>(&a[0]) == nullptr);
                    SX_CHECK(seq::any_cast<T>((const A*)&a[0]) == nullptr);
                });
                break;
            }
            case 10: // assign the value held by the other, or by itself, as a plain reference
                if (!m[1].known || m[1].kind < 0) sx_discard();
                withKind(m[1].kind, [&](auto K) {
                    using T = typename decltype(K)::T;
                    if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) {
                        a[0] = a[1].template cast<const T&>();
                        m[0] = m[1];
                        check(0);
                        a[1] = a[1].template cast<const T&>();
                    }
                });
                break;
            default: { // replace by something reachable only through the old content
                if (m[0].kind != 2 || !m[0].known) sx_discard();
                const unsigned& inner = *a[0].template cast<const Rel&>().p;
                unsigned want = m[0].v;
                a[0] = inner;
                m[0] = Model{ 0, true, want };
                sx_reach("value inside the old content");
            }
        }
        checkBoth();
    }
};
template<class A>
void run()
{
    {
        World<A> w;
        w.checkBoth();
        int k0 = (int)sx_pick("kind0", 0, NK); int k1 = (int)sx_pick("kind1", 0, NK);
        if (k0 < NK) w.storeKind(0, k0, 0, (unsigned)sx_sym("v0", 32));
        if (k1 < NK) w.storeKind(1, k1, 0, (unsigned)sx_sym("v1", 32));
        w.checkBoth();
        for (int i = 0; i < SXB(2, 3); ++i) w.op((int)sx_pick("op", 0, 11));
    }
    SX_CHECKM(g_objs == 0, "every element destroyed exactly once");
    SX_CHECKM(sx_live() == 0, "all memory released");
}
void sx_main(int cfg)
{
    // the registry of type ids and converters is static
    switch (cfg) {
        SX_CASE(0, run<seq::nh_any>());
        SX_CASE(1, run<seq::r_nh_any>());
        SX_CASE(2, (run<seq::hold_any<seq::any_no_hash_interface, 32, 8, false>>()));
        SX_CASE(3, (run<seq::hold_any<seq::any_no_hash_interface, 32, 8, true>>()));
    }
}
