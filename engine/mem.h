// Copy-on-write object memory.
#pragma once
#include "expr.h"

struct Val {
    uint64_t c;
    Expr* e;
};
static inline Val VC(uint64_t c) { return Val{ c, nullptr }; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
static inline Val fromE(Expr* e)
{
    if (isC(e) && e->width <= 64) return Val{ e->val, nullptr };
    return Val{ 0, e };
}

enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_FUNC, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_NEWAL, OK_NEWARRAL, OK_MEMALIGN, OK_EXC, OK_TLS };
enum ObjState : uint8_t { OS_NONE, OS_LIVE, OS_FREED };

struct Data {
    uint32_t rc;
    uint32_t size;
    uint64_t* ov; // per byte: (Expr* << 8 | byte index), 0 = concrete
    uint8_t b[1];
};

struct RaceCell { // per byte
    uint16_t wclk;
    uint8_t wtid;
    uint8_t pad;
    uint16_t rclk[4];
};
struct Shadow {
    uint32_t rc;
    uint32_t size;
    RaceCell c[1];
};

struct Obj {
    Data* d;
    Shadow* sh;
    uint32_t size;
    uint32_t base; // offset of byte 0 within the object's 16 MB id window
    uint8_t kind, st;
    uint16_t flags;
    uint32_t align;
};

struct Chunk {
    uint32_t rc;
    Obj o[64];
};

static const unsigned REGION_BITS = 20, MAXREG = 8;
static const uint32_t STACK_REGION = 1; // region 1+tid

static inline Data* newData(uint32_t size)
{
    Data* d = (Data*)malloc(sizeof(Data) + size);
    d->rc = 1;
    d->size = size;
    d->ov = nullptr;
    return d;
}
static inline void decData(Data* d)
{
    if (d && --d->rc == 0) {
        free(d->ov);
        free(d);
    }
}
static inline Data* cloneData(Data* d)
{
    Data* n = newData(d->size);
    memcpy(n->b, d->b, d->size);
    if (d->ov) {
        n->ov = (uint64_t*)malloc(8 * (size_t)d->size);
        memcpy(n->ov, d->ov, 8 * (size_t)d->size);
    }
    return n;
}
static inline void decShadow(Shadow* s)
{
    if (s && --s->rc == 0) free(s);
}
static inline Chunk* newChunk()
{
    Chunk* c = (Chunk*)calloc(1, sizeof(Chunk));
    c->rc = 1;
    return c;
}
static inline void decChunk(Chunk* c)
{
    if (c && --c->rc == 0) {
        for (auto& o : c->o) { decData(o.d); decShadow(o.sh); }
        free(c);
    }
}

struct Memory {
    std::vector<Chunk*> tab[MAXREG];
    uint32_t nextHeap = 1;
    uint64_t liveHeap = 0;

    Memory() {}
    Memory(const Memory& m) { copy(m); }
    Memory& operator=(const Memory&) = delete;
    void copy(const Memory& m)
    {
        for (unsigned r = 0; r < MAXREG; ++r) {
            tab[r] = m.tab[r];
            for (auto* c : tab[r])
                if (c) ++c->rc;
        }
        nextHeap = m.nextHeap;
        liveHeap = m.liveHeap;
    }
    ~Memory()
    {
        for (auto& t : tab)
            for (auto* c : t) decChunk(c);
    }
    Obj* find(uint32_t id)
    {
        auto& t = tab[(id >> REGION_BITS) & 7];
        if (id >> (REGION_BITS + 3)) return nullptr;
        uint32_t i = id & ((1u << REGION_BITS) - 1);
        uint32_t ci = i >> 6;
        if (ci >= t.size() || !t[ci]) return nullptr;
        return &t[ci]->o[i & 63];
    }
    Obj* findW(uint32_t id) // entry writable (not its data)
    {
        auto& t = tab[(id >> REGION_BITS) & 7];
        uint32_t i = id & ((1u << REGION_BITS) - 1);
        uint32_t ci = i >> 6;
        if (ci >= t.size()) t.resize(ci + 1, nullptr);
        Chunk*& c = t[ci];
        if (!c) c = newChunk();
        else if (c->rc > 1) {
            Chunk* n = (Chunk*)malloc(sizeof(Chunk));
            memcpy(n, c, sizeof(Chunk));
            n->rc = 1;
            for (auto& o : n->o) {
                if (o.d) ++o.d->rc;
                if (o.sh) ++o.sh->rc;
            }
            --c->rc;
            c = n;
        }
        return &c->o[i & 63];
    }
    Obj* wdata(uint32_t id)
    {
        Obj* o = findW(id);
        if (o->d->rc > 1) {
            Data* n = cloneData(o->d);
            --o->d->rc;
            o->d = n;
        }
        return o;
    }
    uint64_t create(uint32_t id, uint32_t size, uint32_t align, uint8_t kind, int fill)
    {
        Obj* o = findW(id);
        decData(o->d);
        decShadow(o->sh);
        o->sh = nullptr;
        o->d = newData(size);
        if (fill >= 0) memset(o->d->b, fill, size);
        o->size = size;
        o->base = align > 16 ? align : 16;
        o->kind = kind;
        o->st = OS_LIVE;
        o->flags = 0;
        o->align = align;
        return ((uint64_t)id << 24) + o->base;
    }
};

static inline void setSym(Data* d, uint32_t off, Expr* e, unsigned n)
{
    if (!d->ov) d->ov = (uint64_t*)calloc(d->size ? d->size : 1, 8);
    for (unsigned i = 0; i < n; ++i) d->ov[off + i] = ((uint64_t)(uintptr_t)e << 8) | i;
}
