// Threaded native replay: the harness and the library are compiled with -fsanitize=thread, and this runtime stands in for TSan's.
// One thread runs at a time; every atomic access is a scheduling point that follows the recorded schedule, with the same rules as the engine.
// Plain accesses are checked with vector clocks, and against freed memory.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
extern "C" {
void* __real_malloc(size_t);
void sx_rt_finish(int code, const char* what, const char* msg);
}
static const int MAXTH = 8;
struct VC {
    uint32_t v[MAXTH];
    void join(const VC& o) { for (int i = 0; i < MAXTH; ++i) if (o.v[i] > v[i]) v[i] = o.v[i]; }
};
struct Th {
    int status, joinOn, skips;
    bool yielded;
    VC vc, acqPend, relFence;
    sem_t sem;
    pthread_t h;
    void (*f)(void*);
    void* a;
    char *lo, *hi;
};
static Th th[MAXTH];
static int nth = 1, cur, streak;
static bool spawned;
static unsigned char* sched;
static size_t nsched, psched;
static __thread int self;

static void fail(const char* m) { sx_rt_finish(77, "FAILED", m); }
static void diverged(const char* m) { sx_rt_finish(79, "DIVERGED", m); }

extern "C" void sx_sched_load(const char* s) noexcept
{
    sched = (unsigned char*)__real_malloc(strlen(s) + 1);
    for (const char* p = s; *p; ++p)
        if (*p >= '0' && *p <= '9') sched[nsched++] = (unsigned char)(*p - '0');
}
static void handTo(int j, bool wait)
{
    int me = self;
    if (j == me && wait) return;
    cur = j;
    sem_post(&th[j].sem);
    if (wait) while (sem_wait(&th[me].sem)) {}
}
// false: nobody can run
static bool switchAway(bool wait)
{
    for (int i = 0; i < nth; ++i)
        if (th[i].status == 1 && th[th[i].joinOn].status == 2) th[i].status = 0;
    int el[MAXTH], n = 0;
    for (int round = 0; round < 2 && !n; ++round) {
        for (int j = 0; j < nth; ++j)
            if (th[j].status == 0 && !th[j].yielded && (j != self || round)) el[n++] = j;
        if (!n)
            for (int j = 0; j < nth; ++j) th[j].yielded = false;
    }
    if (!n) return false;
    bool due = false;
    for (int i = 0; i < n; ++i) due |= th[el[i]].skips >= 2;
    int m = 0;
    for (int i = 0; i < n; ++i) {
        int j = el[i];
        if (!due || th[j].skips >= 2) el[m++] = j;
        th[j].skips++;
    }
    n = m;
    int c = el[0];
    if (psched < nsched) {
        c = sched[psched++];
        bool ok = false;
        for (int i = 0; i < n; ++i) ok |= el[i] == c;
        if (!ok) diverged("schedule (switch)");
    }
    th[c].skips = 0;
    handTo(c, wait);
    return true;
}
static void point()
{
    bool others = false;
    for (int j = 0; j < nth; ++j)
        if (j != self && th[j].status == 0) others = true;
    if (!others || nth < 2) return;
    if (psched >= nsched) return;
    int c = sched[psched++];
    if (c == self) return;
    if (c >= nth || th[c].status != 0) diverged("schedule (preemption)");
    handTo(c, true);
}
static void* threadMain(void* p)
{
    int id = (int)(intptr_t)p;
    self = id;
    while (sem_wait(&th[id].sem)) {}
    th[id].f(th[id].a);
    th[id].status = 2;
    if (!switchAway(false)) fail("all threads blocked");
    return nullptr;
}
extern "C" {
int sx_spawn(void (*f)(void*), void* a) noexcept
{
    if (nth >= MAXTH) diverged("too many threads");
    int id = nth++;
    Th& t = th[id];
    t.f = f;
    t.a = a;
    t.vc = th[self].vc;
    t.vc.v[id] = 1;
    th[self].vc.v[self]++;
    spawned = true;
    sem_init(&t.sem, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    size_t sz = 1 << 20;
    t.lo = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    t.hi = t.lo + sz;
    pthread_attr_setstack(&at, t.lo, sz);
    if (pthread_create(&t.h, &at, threadMain, (void*)(intptr_t)id)) diverged("pthread_create");
    return id;
}
void sx_join(int id) noexcept
{
    if (id >= nth) return;
    if (th[id].status != 2) {
        th[self].status = 1;
        th[self].joinOn = id;
        if (!switchAway(true)) fail("all threads blocked");
    }
    th[self].vc.join(th[id].vc);
}
void sx_yield() noexcept
{
    if (nth <= 1) return;
    th[self].yielded = true;
    if (++streak > 400) fail("all threads spin without progress");
    switchAway(true);
}
int sched_yield() noexcept { sx_yield(); return 0; }
int usleep(unsigned) noexcept { sx_yield(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { sx_yield(); return 0; }
int sx_thread() noexcept { return self; }
uint64_t sx_tick() noexcept { static uint64_t t; return ++t; }
}
int sx_run_threads(int cfg)
{
    sem_init(&th[0].sem, 0, 0);
    th[0].vc.v[0] = 1;
    sx_main(cfg);
    return 0;
}
// ---- plain accesses
struct Cell {
    uintptr_t a;
    uint32_t wclk, rclk[MAXTH];
    unsigned char wtid, freed;
};
static const size_t TN = 1 << 20;
static Cell* tab;
static Cell& cell(uintptr_t a)
{
    if (!tab) { tab = (Cell*)__real_malloc(TN * sizeof(Cell)); memset(tab, 0, TN * sizeof(Cell)); }
    size_t h = a * 0x9E3779B97F4A7C15ull >> 44;
    while (tab[h].a && tab[h].a != a) h = (h + 1) % TN;
    tab[h].a = a;
    return tab[h];
}
static void acc(const void* p, size_t n, bool w, bool atomic = false)
{
    if (!spawned) return;
    for (int i = 1; i < nth; ++i)
        if ((char*)p >= th[i].lo && (char*)p < th[i].hi) return;
    Th& t = th[self];
    for (size_t i = 0; i < n; ++i) {
        Cell& c = cell((uintptr_t)p + i);
        if (c.freed) fail("use of freed memory");
        if (atomic) continue;
        if (c.wclk && c.wtid != self && c.wclk > t.vc.v[c.wtid]) fail(w ? "data race: unsynchronised writes" : "data race: read of a location another thread writes without synchronisation");
        if (w) {
            for (int j = 0; j < MAXTH; ++j)
                if (j != self && c.rclk[j] > t.vc.v[j]) fail("data race: write to a location another thread reads without synchronisation");
            c.wclk = t.vc.v[self];
            c.wtid = (unsigned char)self;
        }
        else c.rclk[self] = t.vc.v[self];
    }
}
extern "C" void sx_block(void* p, size_t n, int fresh) noexcept
{
    if (!spawned) return;
    if (!fresh) acc(p, n, true);
    for (size_t i = 0; i < n; ++i) {
        Cell& c = cell((uintptr_t)p + i);
        uintptr_t a = c.a;
        memset(&c, 0, sizeof c);
        c.a = a;
        c.freed = !fresh;
    }
}
// ---- atomics
struct Sync { uintptr_t a; VC c; };
static Sync sy[4096];
static VC& syncOf(const void* p)
{
    size_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 52;
    while (sy[h].a && sy[h].a != (uintptr_t)p) h = (h + 1) % 4096;
    sy[h].a = (uintptr_t)p;
    return sy[h].c;
}
static void sync(const volatile void* p, int mo, bool ld, bool st)
{
    if (!spawned) return;
    Th& t = th[self];
    VC& c = syncOf((const void*)p);
    bool acq = mo == 1 || mo == 2 || mo >= 4, rel = mo >= 3;
    if (ld) {
        if (acq) t.vc.join(c);
        else t.acqPend.join(c);
    }
    if (st) {
        VC r = rel ? t.vc : t.relFence;
        if (ld) c.join(r);
        else c = r;
        t.vc.v[self]++;
        for (int j = 0; j < nth; ++j)
            if (j != self) th[j].yielded = false;
        if (!ld) streak = 0;
    }
}
template<class T> static T ald(const volatile T* p, int mo) { point(); sync(p, mo, true, false); acc((const void*)p, sizeof(T), false, true); return *p; }
template<class T> static void ast(volatile T* p, T v, int mo) { point(); sync(p, mo, false, true); acc((const void*)p, sizeof(T), true, true); *p = v; }
template<class T, class F> static T rmw(volatile T* p, int mo, F f) { point(); sync(p, mo, true, true); acc((const void*)p, sizeof(T), true, true); T o = *p; *p = f(o); return o; }
template<class T> static T cas(volatile T* p, T e, T v, int mo, int fmo)
{
    point();
    acc((const void*)p, sizeof(T), true, true);
    T o = *p;
    bool ok = o == e;
    sync(p, ok ? mo : fmo, true, ok);
    if (ok) *p = v;
    return o;
}
extern "C" {
#define A(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { return ald(p, mo); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { ast(p, v, mo); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return rmw(p, mo, [&](T o) { return (T)~(o & v); }); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { return cas(p, e, v, mo, fmo); }
A(8, uint8_t)
A(16, uint16_t)
A(32, uint32_t)
A(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!spawned) return;
    Th& t = th[self];
    if (mo == 1 || mo == 2 || mo >= 4) t.vc.join(t.acqPend);
    if (mo >= 3) { t.relFence = t.vc; t.vc.v[self]++; }
}
void __tsan_atomic_signal_fence(int) {}
#define P(N) \
    void __tsan_read##N(void* p) { acc(p, N, false); } \
    void __tsan_write##N(void* p) { acc(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); } \
    void __tsan_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); }
P(1) P(2) P(4) P(8) P(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, sizeof(void*), true); }
void __tsan_vptr_read(void** p) { acc(p, sizeof(void*), false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc(s, n, false); acc(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc(s, n, false); acc(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc(d, n, true); return memset(d, c, n); }
}
