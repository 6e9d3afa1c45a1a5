// Native counterpart of the engine's harness API: replays one recorded input vector against the compiled library.
// usage: exe CFG INPUTFILE     (INPUTFILE: lines "name value")
// exit: 0 path completed, 77 property violated, 78 assumption not met, 79 input vector does not fit
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <new>
#include <exception>
#include <string.h>
#include <unistd.h>
#include <malloc.h>

static struct { char name[64]; unsigned long long v; } inp[20000];
static int ninp, pos;
static char obuf[1 << 20];
static size_t olen;

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);

static void finish(int code, const char* what, const char* msg)
{
    if (write(1, obuf, olen) < 0) {}
    char b[600];
    int n = snprintf(b, sizeof b, "%s %s\n", what, msg);
    if (write(1, b, (size_t)n) < 0) {}
    _exit(code);
}

#ifdef SX_THREADS
void sx_rt_finish(int code, const char* what, const char* msg) { finish(code, what, msg); }
void sx_block(void* p, size_t n, int fresh) noexcept;
#else
static void sx_block(void*, size_t, int) noexcept {}
#endif
static uint64_t next(const char* name)
{
    if (pos >= ninp) finish(79, "DIVERGED", "input vector exhausted");
    if (strcmp(inp[pos].name, name)) finish(79, "DIVERGED", name);
    return inp[pos++].v;
}
int sx_symbolic() noexcept { return 0; }
uint64_t sx_sym(const char* name, unsigned bits) noexcept { return next(name) & (bits >= 64 ? ~0ull : (1ull << bits) - 1); }
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) noexcept
{
    uint64_t v = next(name);
    if (v < lo || v > hi) finish(79, "DIVERGED", name);
    return v;
}
uint64_t sx_pick(const char* name, uint64_t lo, uint64_t hi) noexcept
{
    if (hi < lo) finish(78, "ASSUME", name);
    return sx_range(name, lo, hi);
}
uint64_t sx_conc(uint64_t v) noexcept { return v; }
void sx_assume(uint64_t c) noexcept { if (!c) finish(78, "ASSUME", "assumption not met"); }
void sx_assert(uint64_t c, const char* msg) noexcept { if (!c) finish(77, "FAILED", msg); }
void sx_fail(const char* msg) noexcept { finish(77, "FAILED", msg); }
void sx_discard() noexcept { finish(78, "ASSUME", "discarded"); }
void sx_end() noexcept { finish(0, "END", ""); }
void sx_reach(const char*) noexcept {}
void sx_obs(uint64_t v) noexcept { if (olen < sizeof obuf - 40) olen += (size_t)sprintf(obuf + olen, "obs %llu\n", (unsigned long long)v); }
void sx_print(const char* n, uint64_t v) noexcept { if (getenv("SX_VERBOSE")) fprintf(stderr, "[sx] %s %lld\n", n, (long long)v); }

// ---- heap ledger: kinds and sizes of every block, filled with a pattern like the engine's
enum { K_NONE, K_MALLOC, K_NEW, K_NEWARR, K_NEWAL, K_NEWARRAL, K_MEMALIGN };
static const size_t TN = 1 << 20;
static struct Ent { uintptr_t p; size_t n, al; int kind; } *tab;
static volatile char tlock;
static long live;
static void lk() { while (__atomic_test_and_set(&tlock, __ATOMIC_ACQUIRE)) {} }
static void ulk() { __atomic_clear(&tlock, __ATOMIC_RELEASE); }
static void* note(void* p, size_t n, size_t al, int kind)
{
    if (!p) return p;
    memset(p, 0xA5, n);
    sx_block(p, n, 1);
    lk();
    if (!tab) {
        tab = (Ent*)__real_malloc(TN * sizeof(Ent));
        memset(tab, 0, TN * sizeof(Ent));
    }
    size_t h = ((uintptr_t)p >> 4) * 0x9E3779B1u % TN;
    while (tab[h].p && tab[h].p != (uintptr_t)p) h = (h + 1) % TN;
    tab[h] = { (uintptr_t)p, n, al, kind };
    ++live;
    ulk();
    return p;
}
static void drop(void* p, int kind, long size, long al)
{
    if (!p) return;
    lk();
    size_t h = ((uintptr_t)p >> 4) * 0x9E3779B1u % TN;
    while (tab && tab[h].p && tab[h].p != (uintptr_t)p) h = (h + 1) % TN;
    if (tab && tab[h].p && tab[h].kind) {
        if (tab[h].kind != kind && !(kind == K_MALLOC && tab[h].kind == K_MEMALIGN)) finish(77, "FAILED", "mismatched allocation and deallocation functions");
        if (size >= 0 && (size_t)size != tab[h].n) finish(77, "FAILED", "sized deallocation with a size different from the allocated one");
        if (al >= 0 && (size_t)al != tab[h].al) finish(77, "FAILED", "aligned deallocation with a different alignment");
        tab[h].kind = 0;
        --live;
        size_t n = tab[h].n;
        ulk();
        sx_block(p, n, 0);
#ifndef __SANITIZE_ADDRESS__
        memset(p, 0xDD, n);
#endif
        return;
    }
    ulk();
    if (kind != K_MALLOC) {
#ifndef __SANITIZE_ADDRESS__
        finish(77, "FAILED", "deallocation of a pointer that is not a live block");
#endif
    }
}
uint64_t sx_live() noexcept { return (uint64_t)live; }
static const size_t LIM = 15u << 20;
void* __wrap_malloc(size_t n) { return n > LIM ? nullptr : note(__real_malloc(n ? n : 1), n, 16, K_MALLOC); }
void __wrap_free(void* p) { drop(p, K_MALLOC, -1, -1); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b)
{
    if (a * b > LIM) return nullptr;
    void* p = note(__real_malloc(a * b + 1), a * b, 16, K_MALLOC);
    if (p) memset(p, 0, a * b);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (n > LIM) return nullptr;
    void* p = __wrap_malloc(n);
    if (q) {
        size_t m = malloc_usable_size(q);
        memcpy(p, q, m < n ? m : n);
        __wrap_free(q);
    }
    return p;
}
static void* al(size_t a, size_t n, int kind) { return n > LIM ? nullptr : note(__real_aligned_alloc(a, ((n ? n : 1) + a - 1) / a * a), n, a, kind); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return al(a, n, K_MEMALIGN); }
void* __wrap_memalign(size_t a, size_t n) { return al(a, n, K_MEMALIGN); }
int __wrap_posix_memalign(void** o, size_t a, size_t n)
{
    if (a < 8 || (a & (a - 1))) return EINVAL;
    void* p = al(a, n, K_MEMALIGN);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
}
static void* must(void* p)
{
    if (!p) throw std::bad_alloc();
    return p;
}
static void* nw(size_t n, int k) { return n > LIM ? nullptr : note(__real_malloc(n ? n : 1), n, 16, k); }
void* operator new(size_t n) { return must(nw(n, K_NEW)); }
void* operator new[](size_t n) { return must(nw(n, K_NEWARR)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n, K_NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n, K_NEWARR); }
void* operator new(size_t n, std::align_val_t a) { return must(al((size_t)a, n, K_NEWAL)); }
void* operator new[](size_t n, std::align_val_t a) { return must(al((size_t)a, n, K_NEWARRAL)); }
void operator delete(void* p) noexcept { drop(p, K_NEW, -1, -1); __real_free(p); }
void operator delete[](void* p) noexcept { drop(p, K_NEWARR, -1, -1); __real_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p, K_NEW, -1, -1); __real_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p, K_NEWARR, -1, -1); __real_free(p); }
void operator delete(void* p, size_t n) noexcept { drop(p, K_NEW, (long)n, -1); __real_free(p); }
void operator delete[](void* p, size_t n) noexcept { drop(p, K_NEWARR, (long)n, -1); __real_free(p); }
void operator delete(void* p, std::align_val_t a) noexcept { drop(p, K_NEWAL, -1, (long)a); __real_free(p); }
void operator delete[](void* p, std::align_val_t a) noexcept { drop(p, K_NEWARRAL, -1, (long)a); __real_free(p); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { drop(p, K_NEWAL, (long)n, (long)a); __real_free(p); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { drop(p, K_NEWARRAL, (long)n, (long)a); __real_free(p); }

#ifndef SX_THREADS
extern "C" {
int sx_spawn(void (*f)(void*), void* a) noexcept { f(a); return 1; }
void sx_join(int) noexcept {}
void sx_yield() noexcept {}
int sx_thread() noexcept { return 0; }
}
int sx_run_threads(int cfg) { sx_main(cfg); return 0; }
#else
int sx_run_threads(int cfg);
#endif
extern "C" void sx_sched_load(const char*) noexcept __attribute__((weak));

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 2;
    static char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') {
            if (!strncmp(line, "#sched ", 7) && sx_sched_load) sx_sched_load(line + 7);
            continue;
        }
        char* sp = strrchr(line, ' '); // names may contain spaces
        if (!sp) continue;
        *sp = 0;
        snprintf(inp[ninp].name, sizeof inp[ninp].name, "%s", line);
        if (sscanf(sp + 1, "%llu", &inp[ninp].v) == 1) ++ninp;
    }
    fclose(f);
    std::set_terminate([] { finish(77, "FAILED", "uncaught exception"); });
    sx_run_threads(atoi(argv[1]));
    finish(0, "END", "");
}
