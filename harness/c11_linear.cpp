//@native --threads
//@parts 4
//@cfg 0 : one shard, exclusive locks: 2 threads, one call each, from an empty or single-bucket table
//@cfg 1 : one shard, exclusive locks: 2 threads, one call each, from a table about to grow or with bucket locks
//@cfg 2 : one shard, shared locks: 2 threads, one call each, from an empty or single-bucket table
//@cfg 3 : one shard, shared locks: 2 threads, one call each, from a table about to grow or with bucket locks
//@cfg 4 : two shards, shared locks: 2 threads, one call each, keys of both shards
//@cfg 5 : one shard, shared locks, owning values: 2 threads, one call each, table about to grow or with bucket locks
//@cfg 6 : one shard, exclusive locks: 2 threads, two calls and one call on one key
//@cfg 7 : one shard, exclusive locks: 3 threads, one call each, empty table or about to grow
//@cfg 8 thorough : one shard, shared locks: 2 threads, two calls and one call
//@cfg 9 thorough : one shard, shared locks: 3 threads, one call each
//@cfg 10 thorough : one shard, exclusive locks: 2 threads, two calls each
//@cfg 11 thorough : two shards, exclusive locks: 2 threads, two calls and one call
//@cfg 12 : one shard, shared locks: 2 threads, one keyed call each, symbolic tags
//@cfg 13 : one shard, shared locks: rehash and another call against one call, with bucket locks, 3 preemptions
//@engine --preempt 2 --cfgpreempt 13=3
//@engine_thorough --preempt 3
//@bounds 2 threads with one call each (every pair of 13 kinds of calls and of 2 keys), 2 + 1 calls, 3 threads with one call each (thorough: 2 + 2 calls, every kind with 3 threads), started from tables of 0 to 22 elements: empty, one bucket, full bucket, chained bucket about to grow, two buckets with their locks
//@bounds every interleaving of the atomic accesses with up to 2 preemptions (thorough: 3), voluntary switches (spinning, waiting) unlimited with bounded unfairness: a runnable thread is not passed over more than twice in a row
//@bounds keys: bucket and shard bits over two buckets and two shards, the other hashed bits symbolic (cfg 12: with the tags stored in the buckets)
//@assume atomic accesses take effect in one total order (no weak-memory reorderings); data races are decided with happens-before clocks built from the memory orders the code uses
//@assume the C++ runtime's mutex, condition variable and clock behave like the harness's: a flag lock, a wait that may end at any time and then times out
//@outside more than 3 threads or 4 calls; clear() of several shards and traversals of several keys as one atomic call; visitors that call the map again; swap and assignment concurrent with other calls
#include "sx.h"
#include <atomic>
#include <chrono>
#include <cerrno>
#include <pthread.h>
#include <seq/concurrent_map.hpp>

// What the library takes from the C++ runtime to wait for the end of a rehash: a mutex (a flag; waiting yields), a condition
// variable that may wake up at any time, and a clock on which every wait times out.
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    while (__atomic_exchange_n((int*)m, 1, __ATOMIC_ACQUIRE)) sx_yield();
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    __atomic_store_n((int*)m, 0, __ATOMIC_RELEASE);
    return 0;
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*)
{
    pthread_mutex_unlock(m);
    sx_yield();
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
}
static uint64_t g_now[8];
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    return time_point(duration((long)(g_now[sx_thread()] += 2000000)));
}

struct Hash
{
    using is_avalanching = int;
    size_t operator()(uint64_t k) const noexcept { return (size_t)k; }
};
enum { Emplace, Assign, EmplaceVisit, Erase, EraseIf, EraseAll, Visit, VisitAll, CVisit, CVisitAll, Contains, Clear, Rehash, NOPS };
static const int MAXF = 24, NK = 2; // filler elements; keys the threads use
static uint64_t g_key[NK];
static unsigned unval(unsigned v) { return v; }
// a value on the heap: reading or destroying it after its time is an error
struct Own
{
    unsigned* p;
    Own() : p(new unsigned(0)) {}
    explicit Own(unsigned v) : p(new unsigned(v)) {}
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    Own(const Own& o) : p(new unsigned(*o.p)) {}
    Own& operator=(Own&& o) noexcept { unsigned* q = p; p = o.p; o.p = q; return *this; }
    Own& operator=(const Own& o) { *p = *o.p; return *this; }
    ~Own() { delete p; }
};
static unsigned unval(const Own& v) { return *v.p; }

struct Op
{
    int kind, key;      // what is called
    unsigned arg;       // value written
    int ret;            // what it returned
    int hits;           // how often the key's element was visited, and with which value
    unsigned old;
    int nfill, dup;     // filler elements visited by a traversal; elements visited twice
    uint64_t inv, res;  // ticks of invocation and return
};
template<class M, class V> struct World
{
    M m{ 0 };
    uint64_t fill[MAXF];
    int nf = 0;
    V mkv(unsigned v) { return V(v); }
    template<class E> void seen(Op& o, const E& e, bool* mark)
    {
        if (e.first == g_key[o.key]) { if (o.hits++) o.dup = 1; o.old = unval(e.second); }
        else if (!(e.first & 2)) return; // the other key
        else { unsigned i = (unsigned)(e.first >> 8 & 31); if (mark[i]) o.dup = 1; mark[i] = true; o.nfill++; }
    }
    void call(Op& o)
    {
        const uint64_t k = g_key[o.key];
        o.hits = o.nfill = o.dup = 0;
        o.old = 0;
        bool mark[MAXF + 8] = {};
        o.inv = sx_tick();
        switch (o.kind) {
            case Emplace: o.ret = m.emplace(k, V(o.arg)); break;
            case Assign: o.ret = m.insert_or_assign(k, V(o.arg)); break;
            case EmplaceVisit: o.ret = m.emplace_or_visit(k, V(o.arg), [&](auto& e) { seen(o, e, mark); e.second = V(o.arg + 1); }); break;
            case Erase: o.ret = (int)m.erase(k); break;
            case EraseIf: o.ret = (int)m.erase_if(k, [&](auto& e) { seen(o, e, mark); return unval(e.second) < 100; }); break;
            case EraseAll: o.ret = (int)m.erase_if([&](auto& e) { seen(o, e, mark); return e.first == k; }); break;
            case Visit: o.ret = (int)m.visit(k, [&](auto& e) { seen(o, e, mark); e.second = V(o.arg); }); break;
            case VisitAll: o.ret = m.visit_all([&](auto& e) { seen(o, e, mark); if (e.first == k) e.second = V(o.arg); }); break;
            case CVisit: o.ret = (int)m.cvisit(k, [&](const auto& e) { seen(o, e, mark); }); break;
            case CVisitAll: o.ret = m.cvisit_all([&](const auto& e) { seen(o, e, mark); }); break;
            case Contains: o.ret = m.contains(k); break;
            case Clear: m.clear(); o.ret = 0; break;
            case Rehash: m.rehash(o.key ? 64 : 16); o.ret = 0; break;
        }
        o.res = sx_tick();
    }
};
// The sequential meaning: value of each key (0: absent), and whether the fillers are there
struct Seq
{
    unsigned v[NK];
    bool fill;
    bool apply(const Op& o, int nf)
    {
        unsigned& x = v[o.key];
        bool in = x != 0;
        switch (o.kind) {
            case Emplace: if (o.ret != !in) return false; if (!in) x = o.arg; return true;
            case Assign: if (o.ret != !in) return false; x = o.arg; return true;
            case EmplaceVisit: if (o.ret != !in || o.hits != in || (in && o.old != x)) return false; x = o.arg + in; return true;
            case Erase: if (o.ret != in) return false; x = 0; return true;
            case EraseIf: case EraseAll: {
                if (o.hits != in || (in && o.old != x)) return false;
                bool e = in && (o.kind == EraseAll || x < 100);
                if (o.ret != e) return false;
                if (e) x = 0;
                break;
            }
            case Visit: if (o.ret != in || o.hits != in || (in && o.old != x)) return false; if (in) x = o.arg; return true;
            case CVisit: return o.ret == in && o.hits == in && (!in || o.old == x);
            case VisitAll: case CVisitAll:
                if (o.ret != 1 || o.hits != in || (in && o.old != x)) return false;
                if (in && o.kind == VisitAll) x = o.arg;
                break;
            case Contains: return o.ret == in;
            case Clear: v[0] = v[1] = 0; fill = false; return true;
            default: return true;
        }
        return o.kind == EraseIf || o.nfill == (fill ? nf : 0);
    }
};
static const int MAXO = 4;
struct Hist { Op o[MAXO]; int n = 0; };
// some order of the calls that respects real time explains every result and the final contents
static bool explained(const Hist& h, unsigned done, const Seq& s, const Seq& fin, int nf)
{
    if (done == (1u << h.n) - 1) return s.v[0] == fin.v[0] && s.v[1] == fin.v[1] && s.fill == fin.fill;
    for (int i = 0; i < h.n; ++i) {
        if (done >> i & 1) continue;
        bool first = true;
        for (int j = 0; j < h.n; ++j)
            if (!(done >> j & 1) && h.o[j].res < h.o[i].inv) first = false;
        if (!first) continue;
        Seq t = s;
        if (t.apply(h.o[i], nf) && explained(h, done | 1u << i, t, fin, nf)) return true;
    }
    return false;
}
template<class W> struct Prog
{
    W* w;
    Op* o;
    int n;
};
template<class W> static void run(void* p)
{
    Prog<W>& g = *(Prog<W>*)p;
    for (int i = 0; i < g.n; ++i) g.w->call(g.o[i]);
}
// ns: smallest and largest starting shape; calls of each thread
template<unsigned SH, class V = unsigned> static void go(int lo, int hi, int n0, int n1, int n2, unsigned kinds = ~0u, bool sameKey = false, bool tags = false, unsigned lastKinds = ~0u)
{
    using M = seq::concurrent_map<uint64_t, V, Hash, std::equal_to<uint64_t>, std::allocator<std::pair<uint64_t, V>>, SH>;
    using W = World<M, V>;
    uint64_t live = sx_live();
    {
        W w;
        int shape = (int)sx_pick("shape", (uint64_t)lo, (uint64_t)hi);
        // bits 0-7 choose the bucket, 47 the shard, the top ones the tag: concrete; the rest of every key is free.
        // Bit 1 tells the fillers, bit 2 the second key.
        const uint64_t sh1 = (SH & 15) && sx_pick("shard", 0, 1) ? 1ull << 47 : 0;
        uint64_t ta = 0, tb = 0;
        if (tags) { // the tags stored in the buckets are free too: any two of the keys and fillers may share theirs or not
            ta = sx_sym("taga", 8) << 56;
            tb = sx_sym("tagb", 8) << 56;
        }
        g_key[0] = ta | sx_sym("a", 16) << 16 | 1;
        g_key[1] = tb | sx_sym("b", 16) << 16 | 4 | (!sameKey && sx_pick("bucket", 0, 1) ? 1 : 0) | sh1;
        static const int nfill[] = { 0, 0, 13, 14, 15, 3, 21 };
        w.nf = nfill[shape];
        Seq s = { { 0, 0 }, true };
        for (int i = 0; i < w.nf; ++i) {
            w.fill[i] = (uint64_t)(i & 7) << 56 | (uint64_t)i << 8 | 3;
            SX_CHECK(w.m.emplace(w.fill[i], V(7u)));
        }
        if (shape) {
            SX_CHECK(w.m.emplace(g_key[0], V(50u)));
            s.v[0] = 50;
        }
        if (shape >= 5) w.m.rehash(32); // two buckets and their locks
        Hist h;
        h.n = n0 + n1 + n2;
        int prev = 0;
        for (int i = 0; i < h.n; ++i) {
            Op& o = h.o[i];
            o.kind = (int)sx_pick("op", 0, NOPS - 1);
            if (!((i == h.n - 1 ? kinds & lastKinds : kinds) >> o.kind & 1)) sx_discard();
            o.key = o.kind == Clear || (sameKey && o.kind != Rehash) ? 0 : (int)sx_pick("key", 0, NK - 1);
            o.arg = 100u + 10u * (unsigned)i;
            if (n0 == 1 && n1 == 1) { // threads with one call each are interchangeable
                if (o.kind * NK + o.key < prev) sx_discard();
                prev = o.kind * NK + o.key;
            }
        }
        Prog<W> p[3] = { { &w, h.o, n0 }, { &w, h.o + n0, n1 }, { &w, h.o + n0 + n1, n2 } };
        int t1 = sx_spawn(run<W>, &p[1]), t2 = n2 ? sx_spawn(run<W>, &p[2]) : 0;
        run<W>(&p[0]);
        sx_join(t1);
        if (n2) sx_join(t2);
        for (int i = 0; i < h.n; ++i) {
            SX_CHECKM(!h.o[i].dup, "an element is visited twice by one call");
            sx_obs((uint64_t)h.o[i].ret);
        }
        // final contents
        Seq f = { { 0, 0 }, false };
        int nf = 0, other = 0;
        W& cw = w;
        bool mark[MAXF + 8] = {};
        w.m.cvisit_all([&](const auto& e) {
            for (int i = 0; i < NK; ++i)
                if (e.first == g_key[i]) { other += f.v[i] != 0; f.v[i] = unval(e.second); return; }
            unsigned i = (unsigned)(e.first >> 8 & 31);
            if (!(e.first & 2) || (int)i >= cw.nf || mark[i] || e.first != cw.fill[i]) ++other;
            else { mark[i] = true; ++nf; }
        });
        SX_CHECKM(other == 0, "an element nobody inserted, or twice the same key");
        SX_CHECKM(nf == 0 || nf == w.nf, "an element that was never erased is lost");
        f.fill = w.nf ? nf == w.nf : true;
        if (!w.nf) for (int i = 0; i < h.n; ++i) if (h.o[i].kind == Clear) f.fill = false;
        SX_CHECKM(w.m.size() == (size_t)(nf + (f.v[0] != 0) + (f.v[1] != 0)), "size() agrees with the contents");
        for (int i = 0; i < NK; ++i) SX_CHECKM(w.m.contains(g_key[i]) == (f.v[i] != 0), "lookup agrees with the traversal");
        SX_CHECKM(explained(h, 0, s, f, w.nf), "no order of the calls explains their results and the final contents");
        sx_reach("checked");
    }
    SX_CHECKM(sx_live() == live, "memory leak");
}
using namespace seq;
void sx_main(int cfg)
{
    const unsigned few = 1u << Emplace | 1u << EmplaceVisit | 1u << Erase | 1u << Visit | 1u << CVisit | 1u << CVisitAll | 1u << Clear | 1u << Rehash;
    const unsigned keyed = ~(1u << Clear | 1u << Rehash | 1u << Contains | 1u << Assign);
    const unsigned few3 = 1u << EmplaceVisit | 1u << Erase | 1u << CVisit | 1u << Rehash;
    const unsigned tagOps = 1u << EmplaceVisit | 1u << Erase | 1u << CVisit;
    const unsigned twice = 1u << EmplaceVisit | 1u << CVisit | 1u << Rehash;
    (void)twice; (void)few; (void)keyed; (void)few3; (void)tagOps;
    switch (cfg) {
        SX_CASE(0, go<low_concurrency>(0, 1, 1, 1, 0));
        SX_CASE(1, go<low_concurrency>(2, 6, 1, 1, 0));
        SX_CASE(2, go<low_concurrency_shared>(0, 1, 1, 1, 0));
        SX_CASE(3, go<low_concurrency_shared>(SXB(3, 2), SXB(5, 6), 1, 1, 0));
        SX_CASE(4, go<1 | shared_concurrency>(1, 1, 1, 1, 0, ~(1u << Clear)));
        SX_CASE(5, go<low_concurrency_shared, Own>(SXB(4, 3), SXB(5, 6), 1, 1, 0));
        SX_CASE(6, go<low_concurrency>(1, 1, 2, 1, 0, few, true));
        SX_CASE(7, go<low_concurrency>(4, 4, 1, 1, 1, few3, true));
        SX_CASE(12, go<low_concurrency_shared>(1, SXB(2, 5), 1, 1, 0, tagOps, false, true));
        SX_CASE(13, go<low_concurrency_shared>(5, 5, 2, 1, 0, twice, true, false, 1u << EmplaceVisit | 1u << CVisit));
        SX_CASE(8, go<low_concurrency_shared>(1, 6, 2, 1, 0));
        SX_CASE(9, go<low_concurrency_shared>(0, 6, 1, 1, 1, ~0u, true));
        SX_CASE(10, go<low_concurrency>(0, 6, 2, 2, 0, ~0u, true));
        SX_CASE(11, go<1>(1, 5, 2, 1, 0, ~(1u << Clear)));
    }
}
