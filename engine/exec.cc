// The interpreter: memory, branching, exceptions, threads.
#include "exec.h"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Intrinsics.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <unistd.h>

using namespace llvm;

double now();

// ---------------------------------------------------------------- memory

u32 Engine::alloc(State &s, u64 size, OK kind, const char *name, Fill fill)
{
    auto *o = new Obj;
    o->kind = kind;
    o->size = size;
    o->fill = fill;
    o->name = name;
    u32 id = s.nextId++;
    if (id >= 0x1f000000)
        fatal("object ids exhausted");
    s.mem.put(id, o);
    if (kind == OK::Heap || kind == OK::HeapNew || kind == OK::HeapNewArr) {
        s.liveHeap++;
        s.liveBytes += i64(size);
    }
    return id;
}

void Engine::freeObj(State &s, u64 a, OK kind, const char *what)
{
    if (!a)
        return;
    u32 id = idOf(a);
    Obj *o = s.mem.get(id);
    if (!o || a != baseOf(id))
        error(s, std::string("memory error: invalid or double ") + what);
    bool heap = o->kind == OK::Heap || o->kind == OK::HeapNew || o->kind == OK::HeapNewArr;
    if (!heap)
        error(s, std::string("memory error: ") + what + " of a non-heap object");
    if (o->kind != kind)
        error(s, std::string("memory error: mismatched ") + what);
    s.liveHeap--;
    s.liveBytes -= i64(o->size);
    s.mem.del(id);
}

bool Engine::resolveConc(State &s, u64 a, u64 n, u32 &id, u64 &off)
{
    id = idOf(a);
    Obj *o = s.mem.get(id);
    if (!o)
        return false;
    off = a - baseOf(id);
    return off <= o->size && n <= o->size - off;
}

static std::string hexs(u64 v)
{
    char b[32];
    snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
    return b;
}

// Resolves an address that must be concrete for this state (forks over values
// if it is symbolic), reporting out-of-bounds accesses.
void Engine::access(State &s, Val a, u64 n, bool write, u32 &id, u64 &off)
{
    u64 site = u64(s.F().pc) ^ u64(uintptr_t(s.F().f));
    if (!a.conc() && badAccess[site] > 32)
        throw PathEnd{PathEnd::Limit, "too many invalid addresses at " + where(s)};
    u64 c = a.conc() ? a.c : concretize(s, a, 64);
    if (!resolveConc(s, c, n, id, off)) {
        if (!a.conc())
            badAccess[site]++;
        Obj *o = s.mem.get(id);
        std::string d;
        if (o)
            d = " (object of " + std::to_string(o->size) + " bytes" + (o->name ? std::string(" ") + o->name : "") +
                ", offset " + std::to_string(i64(c - baseOf(id))) + ", " + std::to_string(n) + " bytes)";
        else
            d = " (no live object at " + hexs(c) + ")";
        error(s, std::string("memory error: invalid ") + (write ? "write" : "read") + d);
    }
    if (write && s.mem.get(id)->kind == OK::Const)
        error(s, "memory error: write to constant data");
}

Val Engine::loadObj(State &s, u32 id, u64 off, unsigned bits)
{
    unsigned n = (bits + 7) / 8;
    Obj *o = s.mem.get(id);
    u64 pi = off / PG, po = off % PG;
    if (po + n <= PG && n <= 8) {
        Page *p = o->rd(pi);
        u64 m = (n == 64 ? ~u64(0) : ((u64(1) << n) - 1)) << po;
        if (p) {
            if ((p->init & m) == m && !(p->symb & m)) {
                u64 v = 0;
                memcpy(&v, p->d + po, n);
                return Val(v & mask64(bits));
            }
        } else if (o->fill == Fill::Zero)
            return Val(0);
    }
    // general case, byte by byte
    ER e = nullptr;
    u128 cv = 0;
    bool allc = true;
    std::vector<ER> by(n);
    std::vector<u8> cb(n);
    for (unsigned i = 0; i < n; i++) {
        u64 x = off + i;
        Page *p = o->rd(x / PG);
        unsigned q = x % PG;
        if (!p) {
            if (o->fill == Fill::Zero) {
                cb[i] = 0;
                continue;
            }
        } else if ((p->init >> q) & 1) {
            if ((p->symb >> q) & 1) {
                by[i] = p->sx[q];
                allc = false;
            } else
                cb[i] = p->d[q];
            continue;
        }
        // uninitialised: an arbitrary value, fixed from now on
        ER v = newByte(s);
        o = s.mem.own(id);
        Page *w = o->wr(x / PG);
        if (!w->sx)
            w->sx = new ER[PG];
        w->sx[q] = v;
        w->init |= u64(1) << q;
        w->symb |= u64(1) << q;
        by[i] = v;
        allc = false;
    }
    if (allc) {
        for (unsigned i = 0; i < n; i++)
            cv |= u128(cb[i]) << (8 * i);
        if (bits <= 64)
            return Val(u64(cv) & mask64(bits));
        Val r;
        r.e = mkConst(cv, bits);
        return r;
    }
    for (unsigned i = n; i-- > 0;) {
        ER b = by[i] ? by[i] : mkConst(cb[i], 8);
        e = e ? mkConcat(e, b) : b;
    }
    if (e->w != bits)
        e = mkExtract(e, 0, bits);
    return Val::of(e);
}

void Engine::storeObj(State &s, u32 id, u64 off, unsigned bits, const Val &v)
{
    unsigned n = (bits + 7) / 8;
    Obj *o = s.mem.own(id);
    u64 pi = off / PG, po = off % PG;
    if (v.conc() && po + n <= PG && n <= 8) {
        Page *p = o->wr(pi);
        u64 m = ((u64(1) << n) - 1) << po;
        u64 c = v.c & mask64(bits);
        memcpy(p->d + po, &c, n);
        p->init |= m;
        p->symb &= ~m;
        return;
    }
    ER e = toE(v, bits);
    if (bits % 8)
        e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) {
        u64 x = off + i;
        Page *p = o->wr(x / PG);
        unsigned q = x % PG;
        ER b = mkExtract(e, i * 8, 8);
        p->init |= u64(1) << q;
        if (b->isConst()) {
            p->d[q] = u8(b->val);
            p->symb &= ~(u64(1) << q);
        } else {
            if (!p->sx)
                p->sx = new ER[PG];
            p->sx[q] = b;
            p->symb |= u64(1) << q;
        }
    }
}

Val Engine::loadMem(State &s, Val a, unsigned bits)
{
    unsigned n = (bits + 7) / 8;
    if (!a.conc() && a.e->vs->v.size() == 1) {
        // Table lookup indexed by one symbolic byte: an if-then-else over its
        // feasible values.
        u32 v = a.e->vs->v[0];
        const Bits256 d = v < s.dom.size() && s.dom[v] ? *s.dom[v] : Bits256::full();
        std::vector<u8> asg = s.asg;
        ER res = nullptr;
        bool ok = true;
        std::vector<std::pair<Val, Bits256>> groups;
        u32 oid = 0;
        for (unsigned i = 0; i < 256 && ok; i++) {
            if (!d.get(i))
                continue;
            asg[v] = u8(i);
            u64 ad = u64(evalExpr(a.e, asg));
            u32 id;
            u64 off;
            if (!resolveConc(s, ad, n, id, off) || (oid && id != oid)) {
                ok = false;
                break;
            }
            oid = id;
            Val x = loadObj(s, id, off, bits);
            bool found = false;
            for (auto &g : groups)
                if (g.first.c == x.c && g.first.e == x.e) {
                    g.second.set(i);
                    found = true;
                    break;
                }
            if (!found) {
                Bits256 b{{0, 0, 0, 0}};
                b.set(i);
                groups.push_back({x, b});
            }
        }
        if (ok && !groups.empty()) {
            std::sort(groups.begin(), groups.end(),
                      [](auto &x, auto &y) { return x.second.count() > y.second.count(); });
            res = toE(groups[0].first, bits);
            ER var = mkVar(v);
            for (size_t g = 1; g < groups.size(); g++) {
                ER c = mkConst(0, 1);
                // as ranges
                for (unsigned i = 0; i < 256;) {
                    if (!groups[g].second.get(i)) {
                        i++;
                        continue;
                    }
                    unsigned j = i;
                    while (j + 1 < 256 && groups[g].second.get(j + 1))
                        j++;
                    ER r = i == j ? mkEq(var, mkConst(i, 8))
                                  : mkAnd1(mkBin(K::Ule, mkConst(i, 8), var), mkBin(K::Ule, var, mkConst(j, 8)));
                    c = mkOr1(c, r);
                    i = j + 1;
                }
                res = mkIte(c, toE(groups[g].first, bits), res);
            }
            return Val::of(res);
        }
    }
    u32 id;
    u64 off;
    access(s, a, n, false, id, off);
    return loadObj(s, id, off, bits);
}

void Engine::storeMem(State &s, Val a, unsigned bits, const Val &v)
{
    u32 id;
    u64 off;
    access(s, a, (bits + 7) / 8, true, id, off);
    storeObj(s, id, off, bits, v);
}

u64 Engine::ld(State &s, u64 a, unsigned bits)
{
    Val v = loadMem(s, Val(a), bits);
    return v.conc() ? v.c : concretize(s, v, bits);
}
void Engine::st(State &s, u64 a, u64 v, unsigned bits) { storeMem(s, Val(a), bits, Val(v)); }

void Engine::copyMem(State &s, u64 d, u64 src, u64 n)
{
    if (!n)
        return;
    u32 si, di;
    u64 so, dof;
    access(s, Val(src), n, false, si, so);
    access(s, Val(d), n, true, di, dof);
    if (si == di && so == dof)
        return;
    Obj *o = s.mem.own(di);
    Ref<Obj> hold;
    const Obj *from = s.mem.get(si);
    std::unique_ptr<Obj> tmp;
    if (si == di) {     // overlapping: copy the page table (pages are shared)
        tmp.reset(new Obj(*o));
        from = tmp.get();
    }
    u64 i = 0;
    while (i < n) {
        u64 a = so + i, b = dof + i;
        u64 len = std::min({n - i, PG - a % PG, PG - b % PG});
        Page *p = from->rd(a / PG);
        u64 m = len == 64 ? ~u64(0) : ((u64(1) << len) - 1);
        u64 init = p ? (p->init >> (a % PG)) & m : from->fill == Fill::Zero ? m : 0;
        u64 symb = p ? (p->symb >> (a % PG)) & m & init : 0;
        if (!p && from->fill == o->fill && !o->rd(b / PG)) {
            i += len;
            continue;
        }
        Page *q = o->wr(b / PG);
        unsigned sh = b % PG;
        if (p)
            memcpy(q->d + sh, p->d + a % PG, len);
        else
            memset(q->d + sh, 0, len);
        q->init = (q->init & ~(m << sh)) | (init << sh);
        q->symb = (q->symb & ~(m << sh)) | (symb << sh);
        if (symb) {
            if (!q->sx)
                q->sx = new ER[PG];
            for (u64 k = 0; k < len; k++)
                if ((symb >> k) & 1)
                    q->sx[sh + k] = p->sx[a % PG + k];
        }
        i += len;
    }
}

void Engine::setMem(State &s, u64 d, Val v, u64 n)
{
    if (!n)
        return;
    u32 id;
    u64 off;
    access(s, Val(d), n, true, id, off);
    Obj *o = s.mem.own(id);
    if (off == 0 && n == o->size && v.conc() && (v.c & 0xff) == 0) {
        o->pages.clear();
        o->fill = Fill::Zero;
        return;
    }
    for (u64 i = 0; i < n; i++) {
        u64 x = off + i;
        Page *p = o->wr(x / PG);
        unsigned q = x % PG;
        p->init |= u64(1) << q;
        if (v.conc()) {
            p->d[q] = u8(v.c);
            p->symb &= ~(u64(1) << q);
        } else {
            if (!p->sx)
                p->sx = new ER[PG];
            p->sx[q] = v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e;
            p->symb |= u64(1) << q;
        }
    }
}

std::string Engine::cstr(State &s, u64 a)
{
    std::string r;
    for (;;) {
        u64 c = ld(s, a++, 8);
        if (!c || r.size() > 4096)
            return r;
        r += char(c);
    }
}

// ---------------------------------------------------------------- constraints

u32 Engine::newVar(State &s)
{
    u32 v = s.nvars++;
    s.asg.push_back(0);
    s.dom.push_back(nullptr);
    s.multi.push_back(false);
    return v;
}
ER Engine::newByte(State &s) { return mkVar(newVar(s)); }

void Engine::slice(State &s, ER c, std::vector<ER> &out)
{
    std::vector<bool> in(s.nvars, false);
    for (u32 v : c->vs->v)
        in[v] = true;
    std::vector<bool> taken(s.cons.size(), false);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) {
            if (taken[i])
                continue;
            bool hit = false;
            for (u32 v : s.cons[i]->vs->v)
                if (in[v]) {
                    hit = true;
                    break;
                }
            if (hit) {
                taken[i] = true;
                out.push_back(s.cons[i]);
                if (s.cons[i]->vs->v.size() > 1) {
                    for (u32 v : s.cons[i]->vs->v)
                        if (!in[v]) {
                            in[v] = true;
                            ch = true;
                        }
                }
            }
        }
    }
}

static u64 rngState = 0x9E3779B97F4A7C15ull;
static u64 rng()
{
    rngState ^= rngState << 13;
    rngState ^= rngState >> 7;
    rngState ^= rngState << 17;
    return rngState;
}

void Engine::feas(State &s, ER c, Feas &r, bool needT, bool needF)
{
    r.t = r.f = SR::Unknown;
    r.mt.clear();
    r.mf.clear();
    if (c->isConst()) {
        r.t = c->val ? SR::Sat : SR::Unsat;
        r.f = c->val ? SR::Unsat : SR::Sat;
        return;
    }
    bool cur = satisfies(s, c);
    if (c->vs->v.size() == 1 && !c->fp) {
        u32 v = c->vs->v[0];
        const Bits256 &T = truthSet(c);
        Bits256 D = s.dom[v] ? *s.dom[v] : Bits256::full();
        Bits256 dt = D & T, df = D & ~T;
        bool decided = false;
        if (dt.empty()) {
            r.t = SR::Unsat;
            r.f = SR::Sat;
            decided = true;
        } else if (df.empty()) {
            r.t = SR::Sat;
            r.f = SR::Unsat;
            decided = true;
        } else if (!s.multi[v]) {
            r.t = r.f = SR::Sat;
            if (!cur)
                r.mt.push_back({v, u8(dt.first())});
            else
                r.mf.push_back({v, u8(df.first())});
            decided = true;
        }
        if (decided) {
            sstats.domainDecided++;
            if (opt.crossCheck || rng() % 512 == 0) {
                std::vector<ER> q;
                slice(s, c, q);
                q.push_back(c);
                SR a = z3Check(q, nullptr);
                q.back() = mkNot(c);
                SR b = z3Check(q, nullptr);
                sstats.crossChecked++;
                if ((a != SR::Unknown && a != r.t) || (b != SR::Unknown && b != r.f))
                    fatal("domain decision disagrees with z3: " + exprStr(c));
            }
            return;
        }
    }
    if (cur)
        r.t = SR::Sat;
    else
        r.f = SR::Sat;
    sstats.modelReuse++;
    std::vector<ER> q;
    bool sl = false;
    auto ask = [&](ER x, SR &res, std::vector<std::pair<u32, u8>> &m) {
        if (!sl) {
            slice(s, c, q);
            q.push_back(nullptr);
            sl = true;
        }
        q.back() = x;
        res = z3Check(q, &m);
        if (res == SR::Sat && x->fp) {
            // guard against NaN-payload mismatches between z3 and the host
            auto save = s.asg;
            apply(s, m);
            for (auto *e : q)
                if (!satisfies(s, e))
                    res = SR::Unknown;
            s.asg = save;
        }
    };
    if (r.t == SR::Unknown && needT)
        ask(c, r.t, r.mt);
    if (r.f == SR::Unknown && needF)
        ask(mkNot(c), r.f, r.mf);
}

void Engine::apply(State &s, const std::vector<std::pair<u32, u8>> &m)
{
    for (auto &p : m)
        s.asg[p.first] = p.second;
}

static std::unordered_map<u64, std::vector<const Bits256 *>> bitsPool;
static const Bits256 *internBits(const Bits256 &b)
{
    u64 h = b.w[0] * 31 + b.w[1] * 131 + b.w[2] * 1313 + b.w[3] * 13131;
    for (auto *p : bitsPool[h])
        if (!memcmp(p, &b, sizeof b))
            return p;
    auto *n = new Bits256(b);
    bitsPool[h].push_back(n);
    return n;
}

// The caller guarantees that s.asg satisfies c.
void Engine::addCons(State &s, ER c)
{
    if (c->isConst())
        return;
    if (c->k == K::And && c->w == 1) {
        addCons(s, c->a[0]);
        addCons(s, c->a[1]);
        return;
    }
    for (auto *e : s.cons)
        if (e == c)
            return;
    if (c->vs->v.size() == 1 && !c->fp) {
        u32 v = c->vs->v[0];
        Bits256 D = s.dom[v] ? *s.dom[v] : Bits256::full();
        Bits256 n = D & truthSet(c);
        if (!memcmp(&n, &D, sizeof n))
            return;     // implied
        s.dom[v] = internBits(n);
    } else {
        for (u32 v : c->vs->v)
            s.multi[v] = true;
    }
    s.cons.push_back(c);
}

std::unique_ptr<State> Engine::clone(State &s)
{
    nForks++;
    auto n = std::make_unique<State>(s);
    n->depth++;
    s.depth++;
    return n;
}

bool Engine::decide(State &s, ER c)
{
    if (c->isConst())
        return c->val;
    Feas r;
    feas(s, c, r);
    if (r.t == SR::Unknown || r.f == SR::Unknown) {
        if (r.t == SR::Sat && r.f == SR::Unknown) {
            // The other side is undecided: it is counted, not explored.
            unsupported["solver unknown at " + where(s)]++;
            nUnsupported++;
            apply(s, r.mt);
            addCons(s, c);
            return true;
        }
        if (r.f == SR::Sat && r.t == SR::Unknown) {
            unsupported["solver unknown at " + where(s)]++;
            nUnsupported++;
            apply(s, r.mf);
            addCons(s, mkNot(c));
            return false;
        }
        unsup("solver unknown at " + where(s));
    }
    if (r.t == SR::Sat && r.f == SR::Sat) {
        auto o = clone(s);
        apply(*o, r.mf);
        addCons(*o, mkNot(c));
        work.push_back(std::move(o));
        apply(s, r.mt);
        addCons(s, c);
        return true;
    }
    return r.t == SR::Sat;
}

u64 Engine::concretize(State &s, const Val &v, unsigned w)
{
    if (v.conc())
        return v.c;
    ER e = v.e;
    u64 c = u64(evalExpr(e, s.asg));
    ER eq = mkEq(e, mkConst(c, e->w));
    if (eq->isConst())
        return c;
    Feas r;
    feas(s, eq, r, false, true);
    if (r.f == SR::Sat) {
        auto site = u32(s.F().f->name.size() * 2654435761u) ^ s.F().pc ^ u32(uintptr_t(s.F().f));
        if (++s.siteForks[site] > opt.maxForkPerSite)
            throw PathEnd{PathEnd::Limit, "too many values at " + where(s)};
        auto o = clone(s);
        apply(*o, r.mf);
        addCons(*o, mkNot(eq));
        work.push_back(std::move(o));
    } else if (r.f == SR::Unknown) {
        unsupported["solver unknown (value) at " + where(s)]++;
        nUnsupported++;
    }
    addCons(s, eq);
    s.siteForks.clear();
    return c;
}

// ---------------------------------------------------------------- reporting

std::string Engine::where(State &s)
{
    std::string r;
    auto &st = s.T().st;
    int k = 0;
    for (size_t i = st.size(); i-- > 0 && k < 8;) {
        auto &f = st[i];
        std::string nm = demangle(f.f->name);
        if (nm.size() > 100)
            nm = nm.substr(0, 100) + "...";
        std::string loc;
        if (f.pc < f.f->code.size() && f.f->code[f.pc].src)
            if (auto &dlc = f.f->code[f.pc].src->getDebugLoc())
                loc = ":" + std::to_string(dlc.getLine());
        if (nm.rfind("std::", 0) == 0 && k == 0 && i > 0)
            ;
        r += (r.empty() ? "" : " < ") + nm + loc;
        k++;
    }
    return r;
}

void Engine::writeInputs(State &s, const std::vector<u8> &asg, FILE *f)
{
    for (auto &in : s.inputs) {
        fprintf(f, "%s ", in.name.c_str());
        for (u32 v : in.vars)
            fprintf(f, "%02x", v < asg.size() ? asg[v] : 0);
        if (in.vars.empty())
            fprintf(f, "-");
        fprintf(f, "\n");
    }
}

static std::string oneLine(std::string s)
{
    for (auto &c : s)
        if (c == '\n' || c == '\t')
            c = ' ';
    return s;
}

void Engine::violation(State &s, const std::string &msg, const std::vector<std::pair<u32, u8>> *m)
{
    std::string key;
    for (char ch : msg)
        if (!isxdigit(static_cast<unsigned char>(ch)) || isalpha(static_cast<unsigned char>(ch)))
            key += ch;
    if (violCount[key]++ >= opt.maxViol)
        return;
    auto asg = s.asg;
    if (m)
        for (auto &p : *m)
            asg[p.first] = p.second;
    static int n = 0;
    std::string fn = opt.out + ".viol." + std::to_string(getpid()) + "." + std::to_string(n++);
    FILE *f = fopen(fn.c_str(), "w");
    if (!f)
        fatal("cannot write " + fn);
    writeInputs(s, asg, f);
    fclose(f);
    fprintf(outf, "VIOL\t%s\t%s\t%s\n", fn.c_str(), oneLine(msg).c_str(), oneLine(where(s)).c_str());
    fflush(outf);
}

void Engine::error(State &s, const std::string &msg)
{
    violation(s, msg, nullptr);
    throw PathEnd{PathEnd::Error, msg};
}

void Engine::samplePath(State &s)
{
    if (!opt.samples || s.traceVals.empty())
        return;
    // reservoir-free sampling: always the first ones, then increasingly rarely
    nSamples++;
    if (nSamples > u64(opt.samples) && (nSamples & (nSamples - 1)) != 0)
        return;
    fprintf(outf, "SAMPLE\t");
    for (auto &in : s.inputs) {
        fprintf(outf, "%s=", in.name.c_str());
        for (u32 v : in.vars)
            fprintf(outf, "%02x", s.asg[v]);
        fprintf(outf, ";");
    }
    fprintf(outf, "\t");
    for (size_t i = 0; i < s.traceVals.size(); i++) {
        auto &t = s.traceVals[i];
        u64 c = t.conc() ? t.c : u64(evalExpr(t.e, s.asg));
        fprintf(outf, "%llx,", (unsigned long long)(c & mask64(s.traceW[i])));
    }
    fprintf(outf, "\n");
}

// ---------------------------------------------------------------- control

void Engine::takeEdge(State &s, Func &f, u32 e)
{
    Edge &ed = f.edges[e];
    auto &fr = s.F();
    size_t n = ed.moves.size();
    if (n == 1) {
        fr.r[size_t(ed.moves[0].first)] = get(s, ed.moves[0].second);
    } else if (n) {
        Val tmp[64];
        std::vector<Val> big;
        Val *t = tmp;
        if (n > 64) {
            big.resize(n);
            t = big.data();
        }
        for (size_t i = 0; i < n; i++)
            t[i] = get(s, ed.moves[i].second);
        for (size_t i = 0; i < n; i++)
            fr.r[size_t(ed.moves[i].first)] = t[i];
    }
    fr.pc = ed.pc;
}

void Engine::pushFrame(State &s, Func *f, const std::vector<Val> &args)
{
    if (f->decl)
        unsup("external function " + f->name);
    if (!f->compiled)
        compile(*f);
    f->execs++;
    if (s.T().st.size() > 2000)
        error(s, "stack overflow");
    s.T().st.emplace_back();
    auto &fr = s.F();
    fr.f = f;
    fr.r.resize(f->nslots);
    for (size_t i = 0; i < args.size() && i < f->nargs; i++)
        fr.r[i] = args[i];
}

void Engine::popFrame(State &s)
{
    for (u32 id : s.F().allocas)
        s.mem.del(id);
    s.T().st.pop_back();
}

void Engine::finishCall(State &s, const Inst &, const CallInfo &ci)
{
    if (ci.invoke)
        takeEdge(s, *s.F().f, ci.normalEdge);
    else
        s.F().pc++;
}

void Engine::doRet(State &s, const Val *v, unsigned n)
{
    Val tmp[16];
    std::vector<Val> big;
    const Val *rv = tmp;
    if (n > 16) {
        big.assign(v, v + n);
        rv = big.data();
    } else
        for (unsigned i = 0; i < n; i++)
            tmp[i] = v[i];
    u64 fe = s.F().freeExc;
    bool discard = s.F().discardRet;
    popFrame(s);
    if (fe) {
        s.mem.del(idOf(fe));
        s.exc.erase(fe);
    }
    if (s.T().st.empty())
        return;
    auto &fr = s.F();
    const Inst &I = fr.f->code[fr.pc];
    const CallInfo &ci = fr.f->calls[I.x];
    if (!discard)
        for (unsigned i = 0; i < n && i < ci.retSlots; i++)
            fr.r[size_t(I.dst) + i] = rv[i];
    finishCall(s, I, ci);
}

void Engine::doCall(State &s, const Inst &I)
{
    auto &fr = s.F();
    const CallInfo &ci = fr.f->calls[I.x];
    if (ci.intrin) {
        callIntrin(s, I, ci);
        return;
    }
    Func *f = ci.callee;
    Builtin bi = ci.bi;
    if (!f) {
        if (ci.direct)
            unsup("call of " + ci.name);
        u64 a = concretize(s, get(s, ci.calleeOp), 64);
        u64 idx = idOf(a) - 0x20000000u;
        if (idOf(a) < 0x20000000u || idx >= funcs.size() || a != baseOf(idOf(a)))
            error(s, "call through an invalid function pointer");
        f = funcs[idx];
        bi = f->bi;
    }
    if (bi) {
        if (bi(*this, s, I, ci))
            finishCall(s, I, s.F().f->calls[I.x]);
        return;
    }
    if (f->decl)
        unsup("external function " + f->name);
    std::vector<Val> args;
    args.reserve(ci.args.size());
    std::vector<u32> copies;
    for (auto &a : ci.args) {
        if (a.byval) {
            u32 id = alloc(s, a.byval, OK::Stack, "byval");
            copyMem(s, baseOf(id), concretize(s, get(s, a.op), 64), a.byval);
            copies.push_back(id);
            args.push_back(Val(baseOf(id)));
            continue;
        }
        for (unsigned i = 0; i < a.slots; i++)
            args.push_back(get(s, a.op, int(i)));
    }
    pushFrame(s, f, args);
    s.F().allocas = copies;
}

// ---------------------------------------------------------------- exceptions

static std::string tiKind(Engine &E, State &s, u64 ti)
{
    u64 vp = E.ld(s, ti) - 16;
    auto it = E.addrG.find(vp);
    return it == E.addrG.end() ? "" : it->second->getName().str();
}

bool Engine::hasBase(State &s, u64 ti, u64 want, i64 &off)
{
    if (ti == want)
        return true;
    std::string k = tiKind(*this, s, ti);
    if (k == "_ZTVN10__cxxabiv120__si_class_typeinfoE" || k == "_ZTVN10__cxxabiv120__si_class_type_infoE")
        return hasBase(s, ld(s, ti + 16), want, off);
    if (k == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        u64 n = ld(s, ti + 20, 32);
        for (u64 i = 0; i < n; i++) {
            u64 b = ld(s, ti + 24 + i * 16), fl = ld(s, ti + 32 + i * 16);
            if (!(fl & 2))
                continue;   // not public
            if (fl & 1)
                unsup("virtual base in type match");
            i64 o = 0;
            if (hasBase(s, b, want, o)) {
                off += o + (i64(fl) >> 8);
                return true;
            }
        }
    }
    return false;
}

bool Engine::typeMatch(State &s, u64 thrown, u64 want, u64 &adj)
{
    if (!want || thrown == want)
        return true;
    i64 off = 0;
    // Type-info objects may be duplicated by name in principle; linking merges them.
    if (hasBase(s, thrown, want, off)) {
        adj += u64(off);
        return true;
    }
    return false;
}

u32 Engine::typeId(u64 ti)
{
    auto it = typeIds.find(ti);
    if (it != typeIds.end())
        return it->second;
    u32 id = u32(typeIds.size()) + 1;
    return typeIds[ti] = id;
}

void Engine::throwNew(State &s, u64 obj, u64 ti, u64 dtor)
{
    auto &x = s.exc[obj];
    x.ti = ti;
    x.dtor = dtor;
    x.refs = 1;
    x.handlers = 0;
    unwind(s, obj);
}

void Engine::unwind(State &s, u64 ex)
{
    ExcInfo &x = s.exc[ex];
    u64 obj = x.primary ? x.primary : ex;
    // The top frame is the one executing the throwing call or a resume.
    bool first = true;
    for (;;) {
        if (s.T().st.empty() || (!first && s.F().discardRet))
            error(s, "terminate: uncaught exception");
        auto &fr = s.F();
        const Inst &I = fr.f->code[fr.pc];
        if (I.op == Op::Call) {
            const CallInfo &ci = fr.f->calls[I.x];
            if (ci.invoke) {
                LPad *lp = ci.lpad;
                i64 sel = -1;
                u64 adj = obj;
                for (auto &c : lp->clauses) {
                    if (c.filter) {
                        sel = -2;
                        break;
                    }
                    u64 a = obj;
                    if (c.all || typeMatch(s, x.ti, c.ti, a)) {
                        sel = c.all ? i64(typeId(0)) : i64(typeId(c.ti));
                        adj = a;
                        break;
                    }
                }
                if (sel == -1 && lp->cleanup)
                    sel = 0;
                if (sel != -1) {
                    x.adjusted = adj;
                    takeEdge(s, *fr.f, ci.unwindEdge);
                    set(s, lp->dst, Val(ex));
                    set(s, lp->dst + 1, Val(u64(u32(sel))));
                    return;
                }
            }
        }
        if (s.T().st.size() == 1) {
            std::string tn = "?";
            auto it = addrG.find(x.ti);
            if (it != addrG.end())
                tn = demangle(it->second->getName().str());
            error(s, "terminate: uncaught exception " + tn);
        }
        if (fr.discardRet || fr.freeExc)
            error(s, "terminate: exception from a destructor of an exception");
        popFrame(s);
        first = false;
    }
}

// ---------------------------------------------------------------- threads

bool Engine::enabled(State &s, u32 t)
{
    auto &T = s.th[t];
    if (T.done)
        return false;
    if (!T.waiting)
        return true;
    u32 id;
    u64 off;
    if (!resolveConc(s, T.awaitAddr, 4, id, off))
        error(s, "memory error: waiting on dead memory");
    Val v = loadObj(s, id, off, 32);
    return v.conc() && v.c == T.awaitVal;
}

// Chooses the thread that runs next. The choice is a symbolic input.
void Engine::schedule(State &s, bool yieldPoint)
{
    std::vector<u32> en;
    bool all = true;
    for (u32 t = 0; t < s.th.size(); t++) {
        if (!s.th[t].done)
            all = false;
        if (enabled(s, t))
            en.push_back(t);
    }
    if (en.empty()) {
        if (all)
            return;
        error(s, "deadlock");
    }
    bool curEn = std::find(en.begin(), en.end(), s.cur) != en.end();
    if (curEn && yieldPoint && opt.preemptBound >= 0 && s.preempts >= u32(opt.preemptBound)) {
        s.th[s.cur].waiting = false;
        return;
    }
    u32 prev = s.cur;
    auto go = [&](State &x, u32 t) {
        if (curEn && yieldPoint && t != prev)
            x.preempts++;
        x.cur = t;
        x.th[t].waiting = false;
    };
    if (en.size() == 1) {
        go(s, en[0]);
        return;
    }
    // prefer continuing the current thread first
    if (curEn) {
        auto it = std::find(en.begin(), en.end(), s.cur);
        std::swap(*it, en[0]);
    }
    u32 v = newVar(s);
    s.inputs.push_back({"sched", {v}});
    for (size_t i = en.size(); i-- > 0;) {
        ER c = mkEq(mkVar(v), mkConst(en[i], 8));
        if (i == 0) {
            s.asg[v] = u8(en[0]);
            addCons(s, c);
            go(s, en[0]);
        } else {
            auto o = clone(s);
            o->asg[v] = u8(en[i]);
            addCons(*o, c);
            go(*o, en[i]);
            work.push_back(std::move(o));
        }
    }
}

// ---------------------------------------------------------------- intrinsics

int Engine::intrinFor(const llvm::Function *f) { return int(f->getIntrinsicID()); }

void Engine::callIntrin(State &s, const Inst &I, const CallInfo &ci)
{
    auto A = [&](unsigned i, int lane = 0) { return arg(s, ci, i, lane); };
    unsigned w = ci.retBits;
    unsigned lanes = I.n;
    auto done = [&] { finishCall(s, I, s.F().f->calls[I.x]); };
    auto bin = [&](K k, const Val &a, const Val &b, unsigned ww) -> Val {
        if (a.conc() && b.conc() && ww <= 64) {
            bool ok;
            u128 r = foldBin(k, a.c, b.c, ww, ok);
            if (ok)
                return Val(u64(r));
        }
        return Val::of(mkBin(k, toE(a, ww), toE(b, ww)));
    };
    auto ite = [&](const Val &c, const Val &a, const Val &b, unsigned ww) -> Val {
        if (c.conc())
            return c.c & 1 ? a : b;
        return Val::of(mkIte(c.e, toE(a, ww), toE(b, ww)));
    };
    auto unf = [&](K k) {
        for (unsigned l = 0; l < lanes; l++) {
            Val a = A(0, int(l));
            set(s, I.dst + i32(l), Val::of(mkUnF(k, toE(a, w), w)));
        }
        done();
    };
    switch (Intrinsic::ID(ci.intrin)) {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::stackrestore:
    case Intrinsic::prefetch:
    case Intrinsic::donothing:
    case Intrinsic::var_annotation:
    case Intrinsic::sideeffect: done(); return;
    case Intrinsic::stacksave: set(s, I.dst, Val(0)); done(); return;
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
        u64 n = argc(s, ci, 2);
        u64 d = argc(s, ci, 0), src = argc(s, ci, 1);
        copyMem(s, d, src, n);
        done();
        return;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline: {
        u64 n = argc(s, ci, 2);
        u64 d = argc(s, ci, 0);
        setMem(s, d, A(1), n);
        done();
        return;
    }
    case Intrinsic::trap:
    case Intrinsic::ubsantrap: {
        static const char *kinds[] = {"add overflow", "builtin unreachable", "cfi", "division overflow or by zero", "dynamic type", "float cast overflow", "function type", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "null arg", "null return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound"};
        u64 k = ci.args.empty() ? 99 : A(0).c;
        error(s, std::string("undefined behaviour: ") + (k < 25 ? kinds[k] : "trap"));
    }
    case Intrinsic::eh_typeid_for: set(s, I.dst, Val(typeId(argc(s, ci, 0)))); done(); return;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::threadlocal_address:
    case Intrinsic::ssa_copy: set(s, I.dst, A(0)); done(); return;
    case Intrinsic::is_constant: set(s, I.dst, Val(0)); done(); return;
    case Intrinsic::objectsize: set(s, I.dst, Val(A(1).c ? 0 : mask64(w))); done(); return;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        auto id = Intrinsic::ID(ci.intrin);
        bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
        bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
        for (unsigned l = 0; l < lanes; l++) {
            Val a = A(0, int(l)), b = A(1, int(l));
            Val lt = bin(sg ? K::Slt : K::Ult, a, b, w);
            set(s, I.dst + i32(l), mx ? ite(lt, b, a, w) : ite(lt, a, b, w));
        }
        done();
        return;
    }
    case Intrinsic::abs: {
        for (unsigned l = 0; l < lanes; l++) {
            Val a = A(0, int(l));
            Val neg = bin(K::Slt, a, Val::of(mkConst(0, w)), w);
            set(s, I.dst + i32(l), ite(neg, bin(K::Sub, Val::of(mkConst(0, w)), a, w), a, w));
        }
        done();
        return;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
    case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = Intrinsic::ID(ci.intrin);
        unsigned ww = ci.args[0].bits;
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                  id == Intrinsic::smul_with_overflow;
        K k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)   ? K::Add
              : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K::Sub
                                                                                             : K::Mul;
        Val a = A(0), b = A(1);
        ER x = toE(a, ww), y = toE(b, ww);
        ER r = mkBin(k, x, y);
        unsigned dw = k == K::Mul ? ww * 2 : ww + 1;
        ER ov;
        if (k == K::Sub && !sg)
            ov = mkBin(K::Ult, x, y);
        else if (k == K::Add && !sg)
            ov = mkBin(K::Ult, r, x);
        else {
            if (dw > 128)
                unsup("wide overflow");
            ER xx = sg ? mkSExt(x, dw) : mkZExt(x, dw), yy = sg ? mkSExt(y, dw) : mkZExt(y, dw);
            ER rr = mkBin(k, xx, yy);
            ov = mkNot(mkEq(rr, sg ? mkSExt(r, dw) : mkZExt(r, dw)));
        }
        set(s, I.dst, Val::of(r));
        set(s, I.dst + 1, Val::of(ov));
        done();
        return;
    }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
        bool add = Intrinsic::ID(ci.intrin) == Intrinsic::uadd_sat;
        for (unsigned l = 0; l < lanes; l++) {
            Val a = A(0, int(l)), b = A(1, int(l));
            if (add) {
                Val r = bin(K::Add, a, b, w);
                set(s, I.dst + i32(l), ite(bin(K::Ult, r, a, w), Val::of(mkConst(~u128(0), w)), r, w));
            } else
                set(s, I.dst + i32(l), ite(bin(K::Ult, a, b, w), Val::of(mkConst(0, w)), bin(K::Sub, a, b, w), w));
        }
        done();
        return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool left = Intrinsic::ID(ci.intrin) == Intrinsic::fshl;
        for (unsigned l = 0; l < lanes; l++) {
            ER a = toE(A(0, int(l)), w), b = toE(A(1, int(l)), w);
            u64 sh = concretize(s, A(2, int(l)), w) % w;
            ER r;
            if (sh == 0)
                r = left ? a : b;
            else {
                u64 n = left ? sh : w - sh;
                r = mkBin(K::Or, mkBin(K::Shl, a, mkConst(n, w)), mkBin(K::LShr, b, mkConst(w - n, w)));
            }
            set(s, I.dst + i32(l), Val::of(r));
        }
        done();
        return;
    }
    case Intrinsic::bswap: {
        for (unsigned l = 0; l < lanes; l++) {
            ER a = toE(A(0, int(l)), w), r = nullptr;
            for (unsigned i = 0; i < w / 8; i++) {
                ER b = mkExtract(a, i * 8, 8);
                r = r ? mkConcat(r, b) : b;
            }
            set(s, I.dst + i32(l), Val::of(r));
        }
        done();
        return;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        auto id = Intrinsic::ID(ci.intrin);
        for (unsigned l = 0; l < lanes; l++) {
            Val a = A(0, int(l));
            if (a.conc()) {
                u64 c = a.c, r = 0;
                if (id == Intrinsic::ctpop)
                    r = u64(__builtin_popcountll(c));
                else if (c == 0)
                    r = w;
                else if (id == Intrinsic::ctlz)
                    r = u64(__builtin_clzll(c)) - (64 - w);
                else
                    r = u64(__builtin_ctzll(c));
                if (c == 0 && id != Intrinsic::ctpop && A(1).c)
                    error(s, "undefined behaviour: bit scan of zero");
                set(s, I.dst + i32(l), Val(r));
                continue;
            }
            ER e = a.e, r;
            if (id == Intrinsic::ctpop) {
                r = mkConst(0, w);
                for (unsigned i = 0; i < w; i++)
                    r = mkBin(K::Add, r, mkZExt(mkExtract(e, i, 1), w));
            } else {
                if (A(1).c && decide(s, mkEq(e, mkConst(0, w))))
                    error(s, "undefined behaviour: bit scan of zero");
                r = mkConst(w, w);
                if (id == Intrinsic::ctlz)
                    for (unsigned i = 0; i < w; i++)
                        r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r);
                else
                    for (unsigned i = w; i-- > 0;)
                        r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r);
            }
            set(s, I.dst + i32(l), Val::of(r));
        }
        done();
        return;
    }
    case Intrinsic::fabs:
        for (unsigned l = 0; l < lanes; l++)
            set(s, I.dst + i32(l), Val::of(mkBin(K::And, toE(A(0, int(l)), w), mkConst(maskw(w - 1), w))));
        done();
        return;
    case Intrinsic::copysign: {
        ER m = mkConst(maskw(w - 1), w), sg = mkConst(u128(1) << (w - 1), w);
        set(s, I.dst, Val::of(mkBin(K::Or, mkBin(K::And, toE(A(0), w), m), mkBin(K::And, toE(A(1), w), sg))));
        done();
        return;
    }
    case Intrinsic::fmuladd:
    case Intrinsic::fma:
        set(s, I.dst, Val::of(mkBin(K::FAdd, mkBin(K::FMul, toE(A(0), w), toE(A(1), w)), toE(A(2), w))));
        done();
        return;
    case Intrinsic::sqrt: unf(K::FSqrt); return;
    case Intrinsic::floor: unf(K::FFloor); return;
    case Intrinsic::ceil: unf(K::FCeil); return;
    case Intrinsic::trunc: unf(K::FTrunc); return;
    case Intrinsic::rint:
    case Intrinsic::nearbyint: unf(K::FRint); return;
    case Intrinsic::round: unf(K::FRoundAway); return;
    case Intrinsic::maxnum: case Intrinsic::minnum: {
        bool mx = Intrinsic::ID(ci.intrin) == Intrinsic::maxnum;
        ER a = toE(A(0), w), b = toE(A(1), w);
        ER lt = mkBin(K::FOlt, a, b);
        ER an = mkBin(K::FUno, a, a), bn = mkBin(K::FUno, b, b);
        ER r = mx ? mkIte(lt, b, a) : mkIte(lt, a, b);
        set(s, I.dst, Val::of(mkIte(an, b, mkIte(bn, a, r))));
        done();
        return;
    }
    case Intrinsic::is_fpclass: {
        u64 m = A(1).c;
        unsigned ww = ci.args[0].bits;
        ER a = toE(A(0), ww);
        ER inf = mkConst(ww == 32 ? 0x7f800000u : 0x7ff0000000000000ull, ww);
        ER mag = mkBin(K::And, a, mkConst(maskw(ww - 1), ww));
        ER sign = mkExtract(a, ww - 1, 1);
        ER minn = mkConst(ww == 32 ? 0x00800000u : 0x0010000000000000ull, ww);
        ER r = mkConst(0, 1);
        auto add = [&](ER c) { r = mkOr1(r, c); };
        if (m & 3)
            add(mkBin(K::Ult, inf, mag));
        ER isinf = mkEq(mag, inf), iszero = mkEq(mag, mkConst(0, ww));
        ER norm = mkAnd1(mkBin(K::Ule, minn, mag), mkBin(K::Ult, mag, inf));
        ER sub = mkAnd1(mkNot(iszero), mkBin(K::Ult, mag, minn));
        if (m & 4) add(mkAnd1(isinf, sign));
        if (m & 8) add(mkAnd1(norm, sign));
        if (m & 16) add(mkAnd1(sub, sign));
        if (m & 32) add(mkAnd1(iszero, sign));
        if (m & 64) add(mkAnd1(iszero, mkNot(sign)));
        if (m & 128) add(mkAnd1(sub, mkNot(sign)));
        if (m & 256) add(mkAnd1(norm, mkNot(sign)));
        if (m & 512) add(mkAnd1(isinf, mkNot(sign)));
        set(s, I.dst, Val::of(r));
        done();
        return;
    }
    case Intrinsic::log: case Intrinsic::log2: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log10: {
        Val a = A(0);
        if (!a.conc() || w != 64)
            unsup("symbolic libm");
        double x, y = 0, r;
        memcpy(&x, &a.c, 8);
        if (ci.args.size() > 1) {
            Val b = A(1);
            if (!b.conc())
                unsup("symbolic libm");
            memcpy(&y, &b.c, 8);
        }
        switch (Intrinsic::ID(ci.intrin)) {
        case Intrinsic::log: r = ::log(x); break;
        case Intrinsic::log2: r = ::log2(x); break;
        case Intrinsic::log10: r = ::log10(x); break;
        case Intrinsic::exp: r = ::exp(x); break;
        case Intrinsic::exp2: r = ::exp2(x); break;
        default: r = ::pow(x, y);
        }
        u64 c;
        memcpy(&c, &r, 8);
        set(s, I.dst, Val(c));
        done();
        return;
    }
    case Intrinsic::load_relative: {
        u64 base = argc(s, ci, 0), off = argc(s, ci, 1);
        i64 rel = sext64(ld(s, base + off, 32), 32);
        set(s, I.dst, Val(base + u64(rel)));
        done();
        return;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        auto id = Intrinsic::ID(ci.intrin);
        K k = id == Intrinsic::vector_reduce_or    ? K::Or
              : id == Intrinsic::vector_reduce_and ? K::And
              : id == Intrinsic::vector_reduce_xor ? K::Xor
              : id == Intrinsic::vector_reduce_mul ? K::Mul
                                                   : K::Add;
        Val r = A(0, 0);
        for (unsigned l = 1; l < ci.args[0].slots; l++)
            r = bin(k, r, A(0, int(l)), w);
        set(s, I.dst, r);
        done();
        return;
    }
    default: unsup("intrinsic " + ci.name);
    }
}

// ---------------------------------------------------------------- interpreter

void Engine::step(State &s)
{
    auto *fr = &s.F();
    Func *f = fr->f;
    const Inst &I = f->code[fr->pc];
    s.steps++;
    nSteps++;
#define REG(d) fr->r[size_t(d)]
    auto G = [&](i32 op, int lane = 0) -> const Val & {
        return op >= 0 ? fr->r[size_t(op) + size_t(lane)] : f->consts[size_t(~op) + size_t(lane)];
    };
    switch (I.op) {
    case Op::Nop: fr->pc++; return;
    case Op::Br: takeEdge(s, *f, I.x); return;
    case Op::CondBr: {
        const Val &c = G(I.a);
        bool t = c.conc() ? (c.c & 1) : decide(s, c.e);
        takeEdge(s, *f, t ? I.x : I.y);
        return;
    }
    case Op::Switch: {
        Val c = G(I.a);
        SwitchInfo &si = f->switches[I.x];
        if (c.conc()) {
            for (auto &k : si.cases)
                if (k.first == c.c) {
                    takeEdge(s, *f, k.second);
                    return;
                }
            takeEdge(s, *f, si.def);
            return;
        }
        for (auto &k : si.cases)
            if (decide(s, mkEq(c.e, mkConst(k.first, I.w)))) {
                takeEdge(s, *f, k.second);
                return;
            }
        takeEdge(s, *f, si.def);
        return;
    }
    case Op::Ret: {
        if (I.n == 0)
            doRet(s, nullptr, 0);
        else if (I.n == 1) {
            Val v = G(I.a);
            doRet(s, &v, 1);
        } else {
            std::vector<Val> v;
            for (int i = 0; i < I.n; i++)
                v.push_back(G(I.a, i));
            doRet(s, v.data(), I.n);
        }
        return;
    }
    case Op::Unreachable: error(s, "undefined behaviour: unreachable code reached");
    case Op::Resume: {
        u64 ex = G(I.a).c;
        unwind(s, ex);
        return;
    }
    case Op::Call: doCall(s, I); return;
    case Op::Bin:
    case Op::ICmpNe: {
        unsigned w = I.w;
        for (int l = 0; l < I.n; l++) {
            const Val &a = G(I.a, l), &b = G(I.b, l);
            Val r;
            if (a.conc() && b.conc() && w <= 64) {
                u64 m = mask64(w), x = a.c, y = b.c;
                switch (I.k) {
                case K::Add: r.c = (x + y) & m; break;
                case K::Sub: r.c = (x - y) & m; break;
                case K::Mul: r.c = (x * y) & m; break;
                case K::And: r.c = x & y; break;
                case K::Or: r.c = x | y; break;
                case K::Xor: r.c = x ^ y; break;
                case K::Eq: r.c = (x == y) ^ (I.op == Op::ICmpNe); break;
                case K::Ult: r.c = x < y; break;
                case K::Ule: r.c = x <= y; break;
                case K::Slt: r.c = sext64(x, w) < sext64(y, w); break;
                case K::Sle: r.c = sext64(x, w) <= sext64(y, w); break;
                case K::Shl: r.c = y >= w ? 0 : (x << y) & m; break;
                case K::LShr: r.c = y >= w ? 0 : x >> y; break;
                default: {
                    bool ok;
                    u128 v = foldBin(I.k, x, y, w, ok);
                    if (!ok)
                        error(s, "undefined behaviour: division by zero");
                    r.c = u64(v);
                }
                }
            } else {
                ER x = toE(a, w), y = toE(b, w);
                if (I.k == K::UDiv || I.k == K::SDiv || I.k == K::URem || I.k == K::SRem) {
                    ER z = mkEq(y, mkConst(0, w));
                    if (z->isConst() ? z->val != 0 : decide(s, z))
                        error(s, "undefined behaviour: division by zero");
                }
                ER e = mkBin(I.k, x, y);
                if (I.op == Op::ICmpNe)
                    e = mkNot(e);
                r = Val::of(e);
            }
            REG(I.dst + l) = r;
        }
        fr->pc++;
        return;
    }
    case Op::FCmp: {
        unsigned w = I.w;
        for (int l = 0; l < I.n; l++) {
            ER a = toE(G(I.a, l), w), b = toE(G(I.b, l), w);
            auto un = [&] { return mkBin(K::FUno, a, b); };
            ER r;
            switch (CmpInst::Predicate(I.x)) {
            case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break;
            case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
            case CmpInst::FCMP_OEQ: r = mkBin(K::FOeq, a, b); break;
            case CmpInst::FCMP_OLT: r = mkBin(K::FOlt, a, b); break;
            case CmpInst::FCMP_OLE: r = mkBin(K::FOle, a, b); break;
            case CmpInst::FCMP_OGT: r = mkBin(K::FOlt, b, a); break;
            case CmpInst::FCMP_OGE: r = mkBin(K::FOle, b, a); break;
            case CmpInst::FCMP_ONE: r = mkAnd1(mkNot(un()), mkNot(mkBin(K::FOeq, a, b))); break;
            case CmpInst::FCMP_ORD: r = mkNot(un()); break;
            case CmpInst::FCMP_UNO: r = un(); break;
            case CmpInst::FCMP_UEQ: r = mkOr1(un(), mkBin(K::FOeq, a, b)); break;
            case CmpInst::FCMP_ULT: r = mkNot(mkBin(K::FOle, b, a)); break;
            case CmpInst::FCMP_ULE: r = mkNot(mkBin(K::FOlt, b, a)); break;
            case CmpInst::FCMP_UGT: r = mkNot(mkBin(K::FOle, a, b)); break;
            case CmpInst::FCMP_UGE: r = mkNot(mkBin(K::FOlt, a, b)); break;
            case CmpInst::FCMP_UNE: r = mkNot(mkBin(K::FOeq, a, b)); break;
            default: unsup("fcmp");
            }
            REG(I.dst + l) = Val::of(r);
        }
        fr->pc++;
        return;
    }
    case Op::Select: {
        if (!I.x) {
            Val c = G(I.a);
            bool agg = I.y;
            if (!c.conc() && !agg) {
                // elementwise
                for (int l = 0; l < I.n; l++) {
                    unsigned w = I.w;
                    REG(I.dst + l) = Val::of(mkIte(c.e, toE(G(I.b, l), w), toE(G(I.c, l), w)));
                }
                fr->pc++;
                return;
            }
            bool t;
            if (c.conc())
                t = c.c & 1;
            else {
                bool same = true;
                for (int l = 0; l < I.n; l++)
                    if (G(I.b, l).e || G(I.c, l).e || G(I.b, l).c != G(I.c, l).c)
                        same = false;
                t = same ? true : decide(s, c.e);
            }
            for (int l = 0; l < I.n; l++)
                REG(I.dst + l) = t ? G(I.b, l) : G(I.c, l);
        } else {
            for (int l = 0; l < I.n; l++) {
                Val c = G(I.a, l);
                if (c.conc())
                    REG(I.dst + l) = c.c & 1 ? G(I.b, l) : G(I.c, l);
                else
                    REG(I.dst + l) = Val::of(mkIte(c.e, toE(G(I.b, l), I.w), toE(G(I.c, l), I.w)));
            }
        }
        fr->pc++;
        return;
    }
    case Op::ZExt:
    case Op::SExt:
    case Op::Trunc:
        for (int l = 0; l < I.n; l++) {
            const Val &a = G(I.a, l);
            Val r;
            if (a.conc() && I.w <= 64 && I.w2 <= 64) {
                r.c = I.op == Op::SExt ? u64(sext64(a.c, I.w2)) & mask64(I.w) : a.c & mask64(I.w);
            } else {
                ER e = toE(a, I.w2);
                r = Val::of(I.op == Op::ZExt ? mkZExt(e, I.w) : I.op == Op::SExt ? mkSExt(e, I.w) : mkExtract(e, 0, I.w));
            }
            REG(I.dst + l) = r;
        }
        fr->pc++;
        return;
    case Op::Copy:
        if (I.x == 1) {
            // bit cast between shapes
            ER e = nullptr;
            for (int l = int(I.y); l-- > 0;) {
                ER p = toE(G(I.a, l), I.w2);
                e = e ? mkConcat(e, p) : p;
            }
            for (int l = 0; l < I.n; l++)
                REG(I.dst + l) = Val::of(mkExtract(e, unsigned(l) * I.w, I.w));
        } else if (I.n == 1)
            REG(I.dst) = G(I.a);
        else
            for (int l = 0; l < I.n; l++)
                REG(I.dst + l) = G(I.a, l);
        fr->pc++;
        return;
    case Op::FUn:
        for (int l = 0; l < I.n; l++)
            REG(I.dst + l) = Val::of(mkUnF(I.k, toE(G(I.a, l), I.w2), I.w));
        fr->pc++;
        return;
    case Op::FNeg:
        for (int l = 0; l < I.n; l++)
            REG(I.dst + l) = Val::of(mkBin(K::Xor, toE(G(I.a, l), I.w), mkConst(u128(1) << (I.w - 1), I.w)));
        fr->pc++;
        return;
    case Op::GEP: {
        Val p = G(I.a);
        u64 off = I.imm;
        ER se = p.e;
        if (p.conc())
            off += p.c;
        if (I.y) {
            for (auto &ix : f->geps[I.x]) {
                const Val &v = G(ix.op);
                if (v.conc())
                    off += u64(sext64(v.c, ix.bits)) * ix.scale;
                else {
                    ER e = ix.bits < 64 ? mkSExt(v.e, 64) : ix.bits > 64 ? mkExtract(v.e, 0, 64) : v.e;
                    if (ix.scale != 1)
                        e = mkBin(K::Mul, e, mkConst(ix.scale, 64));
                    se = se ? mkBin(K::Add, se, e) : e;
                }
            }
        }
        if (se)
            REG(I.dst) = Val::of(mkBin(K::Add, se, mkConst(off, 64)));
        else
            REG(I.dst) = Val(off);
        fr->pc++;
        return;
    }
    case Op::Load: {
        Val a = G(I.a);
        if (I.n == 1) {
            Val v = loadMem(s, a, I.w);
            s.F().r[size_t(I.dst)] = v;
        } else {
            u32 id;
            u64 off;
            access(s, a, I.imm, false, id, off);
            auto &lv = f->leaves[I.x];
            for (size_t l = 0; l < lv.size(); l++) {
                Val v = loadObj(s, id, off + lv[l].off, lv[l].bits);
                s.F().r[size_t(I.dst) + l] = v;
            }
        }
        s.F().pc++;
        return;
    }
    case Op::Store: {
        Val a = G(I.a);
        if (I.n == 1) {
            storeMem(s, a, I.w, G(I.b));
        } else {
            u32 id;
            u64 off;
            access(s, a, I.imm, true, id, off);
            auto &lv = f->leaves[I.x];
            for (size_t l = 0; l < lv.size(); l++)
                storeObj(s, id, off + lv[l].off, lv[l].bits, G(I.b, int(l)));
        }
        s.F().pc++;
        return;
    }
    case Op::Alloca: {
        u64 n = G(I.a).conc() ? G(I.a).c : concretize(s, G(I.a), I.w2);
        u32 id = alloc(s, I.imm * n, OK::Stack, nullptr);
        fr->allocas.push_back(id);
        REG(I.dst) = Val(baseOf(id));
        fr->pc++;
        return;
    }
    case Op::ExtractElt: {
        u64 i = concretize(s, G(I.b), I.w2);
        REG(I.dst) = i < I.n ? G(I.a, int(i)) : Val(0);
        fr->pc++;
        return;
    }
    case Op::InsertElt: {
        u64 i = concretize(s, G(I.c), I.w2);
        Val v = G(I.b);
        for (int l = 0; l < I.n; l++)
            REG(I.dst + l) = u64(l) == i ? v : G(I.a, l);
        fr->pc++;
        return;
    }
    case Op::Shuffle: {
        std::vector<Val> v;
        for (int m : f->masks[I.x])
            v.push_back(m < 0 ? Val(0) : u32(m) < I.y ? G(I.a, m) : G(I.b, m - int(I.y)));
        for (size_t l = 0; l < v.size(); l++)
            REG(I.dst + i32(l)) = v[l];
        fr->pc++;
        return;
    }
    case Op::InsertV: {
        for (int l = 0; l < I.n; l++)
            REG(I.dst + l) = u32(l) >= I.x && u32(l) < I.x + I.y ? G(I.b, l - int(I.x)) : G(I.a, l);
        fr->pc++;
        return;
    }
    case Op::ARMW: {
        Val a = G(I.a), v = G(I.b);
        Val old = loadMem(s, a, I.w);
        Val nv;
        auto E2 = [&](K k) { return Val::of(mkBin(k, toE(old, I.w), toE(v, I.w))); };
        switch (AtomicRMWInst::BinOp(I.x)) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = E2(K::Add); break;
        case AtomicRMWInst::Sub: nv = E2(K::Sub); break;
        case AtomicRMWInst::And: nv = E2(K::And); break;
        case AtomicRMWInst::Or: nv = E2(K::Or); break;
        case AtomicRMWInst::Xor: nv = E2(K::Xor); break;
        default: unsup("atomicrmw");
        }
        storeMem(s, a, I.w, nv);
        s.F().r[size_t(I.dst)] = old;
        s.F().pc++;
        return;
    }
    case Op::CmpXchg: {
        Val a = G(I.a), cmp = G(I.b), nv = G(I.c);
        Val old = loadMem(s, a, I.w);
        ER eq = mkEq(toE(old, I.w), toE(cmp, I.w));
        bool t = eq->isConst() ? eq->val != 0 : decide(s, eq);
        if (t)
            storeMem(s, a, I.w, nv);
        s.F().r[size_t(I.dst)] = old;
        s.F().r[size_t(I.dst) + 1] = Val(u64(t));
        s.F().pc++;
        return;
    }
    default: {
        std::string m = "instruction ";
        if (I.src)
            m += I.src->getOpcodeName();
        unsup(m);
    }
    }
}
