// Copy-on-write byte memory with symbolic and uninitialised bytes.
#pragma once
#include <memory>

#include "expr.h"

struct Val {
    u64 c = 0;
    ER e = nullptr;
    Val() = default;
    Val(u64 v) : c(v) {}
    static Val of(ER x)
    {
        Val v;
        if (x->isConst() && x->w <= 64)
            v.c = u64(x->val);
        else
            v.e = x;
        return v;
    }
    bool conc() const { return !e; }
};
inline ER toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

template <class T>
class Ref {
    T *p = nullptr;

public:
    Ref() = default;
    explicit Ref(T *x) : p(x) {}  // adopts
    Ref(const Ref &o) : p(o.p)
    {
        if (p)
            p->rc++;
    }
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    Ref &operator=(Ref o) noexcept
    {
        std::swap(p, o.p);
        return *this;
    }
    ~Ref()
    {
        if (p && --p->rc == 0)
            delete p;
    }
    T *get() const { return p; }
    T *operator->() const { return p; }
    explicit operator bool() const { return p; }
    T *own()  // private copy for writing
    {
        if (p->rc > 1) {
            T *n = new T(*p);
            n->rc = 1;
            p->rc--;
            p = n;
        }
        return p;
    }
};

constexpr unsigned PG = 64;

struct Page {
    u32 rc = 1;
    u64 init = 0;   // byte has a defined value
    u64 symb = 0;   // byte value is sx[i]
    u8 d[PG] = {};
    ER *sx = nullptr;
    Page() = default;
    Page(const Page &o) : init(o.init), symb(o.symb)
    {
        memcpy(d, o.d, PG);
        if (o.sx && o.symb) {
            sx = new ER[PG];
            memcpy(sx, o.sx, sizeof(ER) * PG);
        }
    }
    ~Page() { delete[] sx; }
};

enum class OK : u8 { Heap, HeapNew, HeapNewArr, Stack, Global, Const, Exc };
enum class Fill : u8 { Uninit, Zero };

struct Obj {
    u32 rc = 1;
    OK kind;
    Fill fill = Fill::Uninit;
    u64 size;
    const char *name = nullptr;
    std::vector<Ref<Page>> pages;

    Page *rd(u64 pi) const { return pi < pages.size() ? pages[pi].get() : nullptr; }
    Page *wr(u64 pi)
    {
        if (pi >= pages.size())
            pages.resize(pi + 1);
        if (!pages[pi]) {
            auto *p = new Page;
            if (fill == Fill::Zero)
                p->init = ~u64(0);
            pages[pi] = Ref<Page>(p);
            return p;
        }
        return pages[pi].own();
    }
};

constexpr u64 BASE_OFF = 0x1000;
inline u64 baseOf(u32 id) { return (u64(id) << 32) + BASE_OFF; }
inline u32 idOf(u64 a) { return u32(a >> 32); }

struct Leaf {
    u32 rc = 1;
    u32 live = 0;
    Ref<Obj> o[64];
    Leaf() = default;
    Leaf(const Leaf &x) : live(x.live)
    {
        for (int i = 0; i < 64; i++)
            o[i] = x.o[i];
    }
};

class ObjTable {
    std::vector<Ref<Leaf>> leaves;

public:
    Obj *get(u32 id) const
    {
        u32 l = id >> 6;
        if (l >= leaves.size() || !leaves[l])
            return nullptr;
        return leaves[l]->o[id & 63].get();
    }
    Obj *own(u32 id) { return leaves[id >> 6].own()->o[id & 63].own(); }
    void put(u32 id, Obj *o)
    {
        u32 l = id >> 6;
        if (l >= leaves.size())
            leaves.resize(l + 1);
        if (!leaves[l])
            leaves[l] = Ref<Leaf>(new Leaf);
        auto *lf = leaves[l].own();
        lf->o[id & 63] = Ref<Obj>(o);
        lf->live++;
    }
    void del(u32 id)
    {
        u32 l = id >> 6;
        auto *lf = leaves[l].own();
        lf->o[id & 63] = Ref<Obj>();
        if (--lf->live == 0)
            leaves[l] = Ref<Leaf>();
    }
    template <class F>
    void each(F f) const
    {
        for (u32 l = 0; l < leaves.size(); l++)
            if (leaves[l])
                for (u32 i = 0; i < 64; i++)
                    if (auto *o = leaves[l]->o[i].get())
                        f(l * 64 + i, o);
    }
};
