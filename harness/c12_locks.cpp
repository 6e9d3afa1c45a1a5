//@native --threads
//@parts 4
//@cfg 0 : spinlock, 2 threads, two calls each
//@cfg 1 : shared_spinner, 8-bit state, 2 threads, two calls each
//@cfg 2 : shared_spinlock (32-bit state), 2 threads, two calls each
//@cfg 3 : shared_spinner, 16 and 64-bit states, 2 threads, two calls each
//@cfg 4 : spinlock, 3 threads, one call each
//@cfg 5 : shared_spinner, 8-bit state, 3 threads, one call each
//@cfg 6 : shared_spinlock, 3 threads, one call each
//@cfg 7 : one thread: results of try calls and states for every short history, nested readers up to the counter's limit
//@cfg 8 : try_lock_until with every clock behaviour
//@cfg 9 thorough : shared_spinlock, 3 threads, two calls each
//@cfg 10 thorough : shared_spinner, 8-bit state, 3 threads, two calls each
//@cfg 11 : shared_spinner with any number of readers (symbolic count), 8 to 64-bit states: results and state of every call
//@engine --preempt 3
//@engine_thorough --preempt 4
//@bounds 2 threads with 2 calls and 3 threads with 1 call each (thorough: 3 with 2), every choice of lock, try_lock, lock_shared and try_lock_shared, every interleaving of the atomic accesses with up to 3 preemptions (thorough: 4), voluntary switches unlimited
//@assume atomic accesses take effect in one total order (no weak-memory reorderings); data races on what the lock protects are decided with happens-before clocks built from the memory orders the code uses
#include "sx.h"
#include <atomic>
#include <chrono>
#include <seq/lock.hpp>
using namespace seq;
enum { Lock, Try, LockS, TryS };
template<class L> struct World {
    L l;
    std::atomic<int> nw{ 0 }, nr{ 0 };
    int data = 0; // protected: written by exclusive holders, read by shared ones
    int done[3] = { 0, 0, 0 };
};
template<class L> static void excl(World<L>& w)
{
    SX_CHECKM(w.nw.exchange(1, std::memory_order_relaxed) == 0, "two exclusive holders");
    SX_CHECKM(w.nr.load(std::memory_order_relaxed) == 0, "exclusive holder together with a shared one");
    SX_CHECKM(w.l.is_locked(), "held lock reports being locked");
    ++w.data;
    w.nw.store(0, std::memory_order_relaxed);
    w.l.unlock();
}
template<class L> static void shared(World<L>& w)
{
    w.nr.fetch_add(1, std::memory_order_relaxed);
    SX_CHECKM(w.nw.load(std::memory_order_relaxed) == 0, "shared holder together with an exclusive one");
    volatile int d = w.data;
    (void)d;
    w.nr.fetch_sub(1, std::memory_order_relaxed);
    w.l.unlock_shared();
}
template<class L> static int call(World<L>& w, int op)
{
    switch (op) {
        case Lock: w.l.lock(); excl(w); return 1;
        case Try:
            if (!w.l.try_lock()) return 0;
            excl(w);
            return 1;
        case LockS: w.l.lock_shared(); shared(w); return 0;
        default:
            if (w.l.try_lock_shared()) shared(w);
            return 0;
    }
}
template<class L> struct Prog {
    World<L>* w;
    int id, n, op[2];
};
template<class L> static void run(void* p)
{
    Prog<L>& g = *(Prog<L>*)p;
    int k = 0;
    for (int i = 0; i < g.n; ++i) k += call(*g.w, g.op[i]);
    g.w->done[g.id] = k;
}
// spinlock's shared calls are exclusive ones
template<class L> struct Excl : std::false_type {};
template<class L> static void threads(int nt, int nc)
{
    World<L> w;
    Prog<L> p[3];
    for (int i = 0; i < nt; ++i) {
        p[i].w = &w;
        p[i].id = i;
        p[i].n = nc;
        for (int j = 0; j < nc; ++j) p[i].op[j] = (int)sx_pick("op", 0, 3);
    }
    int t[3];
    for (int i = 1; i < nt; ++i) t[i] = sx_spawn(run<L>, &p[i]);
    run<L>(&p[0]);
    for (int i = 1; i < nt; ++i) sx_join(t[i]);
    SX_CHECKM(!w.l.is_locked(), "everything released: the lock is free");
    SX_CHECKM(w.data == w.done[0] + w.done[1] + w.done[2], "no exclusive section lost");
    SX_CHECKM(w.l.try_lock(), "everything released: try_lock succeeds");
    w.l.unlock();
    SX_CHECKM(w.l.try_lock_shared(), "everything released: try_lock_shared succeeds");
    w.l.unlock_shared();
    SX_CHECKM(!w.l.is_locked(), "free again");
}
// one thread, every history of try and release calls
template<class L> static void single(bool sharedIsExclusive, unsigned maxReaders)
{
    L l;
    unsigned wr = 0, rd = 0;
    for (int i = 0; i < 6; ++i) {
        switch (sx_pick("op", 0, 3)) {
            case 0: {
                bool r = l.try_lock();
                SX_CHECKM(r == (wr == 0 && rd == 0), "try_lock succeeds exactly when the lock is free");
                if (r) wr = 1;
                break;
            }
            case 1: {
                bool r = l.try_lock_shared();
                if (sharedIsExclusive) SX_CHECKM(r == (wr == 0 && rd == 0), "try_lock_shared of an exclusive lock");
                else SX_CHECKM(r == (wr == 0), "try_lock_shared succeeds exactly when nobody holds the lock exclusively");
                if (r) ++rd;
                break;
            }
            case 2:
                if (!wr) sx_discard();
                l.unlock();
                wr = 0;
                break;
            default:
                if (!rd) sx_discard();
                l.unlock_shared();
                --rd;
                break;
        }
        SX_CHECKM(l.is_locked() == (wr || rd), "is_locked");
    }
    // the documented protection of small counters: readers beyond the limit are refused, the lock still works
    if (!sharedIsExclusive && !wr && maxReaders) {
        unsigned got = rd;
        while (got < maxReaders && l.try_lock_shared()) ++got;
        SX_CHECKM(got == maxReaders || got >= 31, "many readers");
        SX_CHECKM(!l.try_lock(), "no writer with readers");
        while (got) { l.unlock_shared(); --got; }
        SX_CHECK(!l.is_locked());
        SX_CHECK(l.try_lock());
    }
}
// any number of shared holders: the state is the reader unit, taken from the lock itself, times a symbolic count
template<class W> static void readers()
{
    using L = shared_spinner<W>;
    static_assert(sizeof(L) == sizeof(W), "");
    L l;
    auto word = [&] { W w; memcpy(&w, &l, sizeof w); return w; };
    SX_CHECK(word() == 0 && l.try_lock_shared());
    W unit = word();
    SX_CHECK(l.try_lock_shared());
    if (word() != (W)(2 * unit)) return; // another representation: nothing to derive the state from
    const uint64_t cap = (uint64_t)(W)~(W)0 / unit; // largest count the word can hold
    uint64_t r = sx_sym("readers", 8 * sizeof(W));
    sx_assume(r >= 1 && r <= (sizeof(W) == 1 ? cap : cap / 2));
    W w0 = (W)(r * unit);
    memcpy((void*)&l, &w0, sizeof w0);
    switch (sx_pick("op", 0, 3)) {
        case 0:
            SX_CHECKM(!l.try_lock(), "try_lock fails with any number of readers");
            SX_CHECKM(word() == w0, "failed try_lock leaves the state unchanged");
            break;
        case 1: {
            bool ok = l.try_lock_shared();
            if (r <= cap / 2 - 1) SX_CHECKM(ok, "shared lock available to another reader");
            if (ok) SX_CHECKM(r + 1 <= cap && word() == (W)((r + 1) * unit), "one reader more, never wrapping the counter");
            else SX_CHECKM(word() == w0, "failed try_lock_shared leaves the state unchanged");
            break;
        }
        case 2:
            l.unlock_shared();
            SX_CHECKM(word() == (W)((r - 1) * unit), "one reader less");
            SX_CHECKM(l.is_locked() == (r > 1), "locked while readers remain");
            SX_CHECKM(l.try_lock() == (r == 1), "a writer gets in exactly after the last reader left");
            break;
        default:
            SX_CHECKM(l.is_locked(), "locked");
            sx_assume(r <= cap / 2 - 1);
            l.lock_shared();
            SX_CHECKM(word() == (W)((r + 1) * unit), "one reader more");
            l.unlock_shared();
            SX_CHECKM(word() == w0, "and back");
            break;
    }
}
struct Clk {
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<Clk>;
    static constexpr bool is_steady = true;
    static uint64_t cur;
    static spinlock* holder;
    static time_point now()
    {
        cur += 100 * sx_pick("dt", 1, 3);
        if (holder && sx_pick("release", 0, 1)) {
            holder->unlock();
            holder = nullptr;
        }
        return time_point(duration((rep)cur));
    }
};
uint64_t Clk::cur;
spinlock* Clk::holder;
static void until()
{
    spinlock l;
    bool held = sx_pick("held", 0, 1);
    if (held) l.lock();
    Clk::cur = 0;
    uint64_t dl = sx_range("deadline", 0, 700);
    // the holder releases at any reading of the clock, or never
    Clk::holder = held ? &l : nullptr;
    bool r = l.try_lock_until(Clk::time_point(std::chrono::nanoseconds((long)dl)));
    if (!held) SX_CHECKM(r && l.is_locked(), "free lock acquired whatever the deadline");
    else if (r) SX_CHECKM(!Clk::holder && l.is_locked(), "acquired once the holder has released");
    else SX_CHECKM(Clk::cur > dl && l.is_locked() == (Clk::holder != nullptr), "fails once the deadline has passed, the lock unchanged");
    if (l.is_locked()) l.unlock();
    SX_CHECK(!l.is_locked());
}
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, threads<spinlock>(2, 2));
        SX_CASE(1, threads<shared_spinner<uint8_t>>(2, 2));
        SX_CASE(2, threads<shared_spinlock>(2, 2));
        SX_CASE(3, if (sx_pick("t", 0, 1)) threads<shared_spinner<uint16_t>>(2, 2); else threads<shared_spinner<uint64_t>>(2, 2));
        SX_CASE(4, threads<spinlock>(3, 1));
        SX_CASE(5, threads<shared_spinner<uint8_t>>(3, 1));
        SX_CASE(6, threads<shared_spinlock>(3, 1));
        SX_CASE(7, unsigned t = (unsigned)sx_pick("t", 0, 3); if (t == 0) single<spinlock>(true, 0); else if (t == 1) single<shared_spinner<uint8_t>>(false, 200); else if (t == 2) single<shared_spinlock>(false, 40); else single<shared_spinner<uint64_t>>(false, 0));
        SX_CASE(8, until());
        SX_CASE(9, threads<shared_spinlock>(3, 2));
        SX_CASE(11, unsigned t = (unsigned)sx_pick("t", 0, 3); if (t == 0) readers<uint8_t>(); else if (t == 1) readers<uint16_t>(); else if (t == 2) readers<uint32_t>(); else readers<uint64_t>());
        SX_CASE(10, threads<shared_spinner<uint8_t>>(3, 2));
    }
}
