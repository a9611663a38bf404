// Runtime functions the engine itself provides.
#include <llvm/Demangle/Demangle.h>

#include <cmath>

#include "exec.h"

#define BI(name) static bool name(Engine &E, State &s, const Inst &I, const CallInfo &ci)
#define UNUSED (void)E, (void)s, (void)I, (void)ci

// ---- allocation

static bool doAlloc(Engine &E, State &s, const Inst &I, const CallInfo &ci, unsigned ai, OK k, Fill f = Fill::Uninit)
{
    u64 n = E.argc(s, ci, ai);
    if (n > (u64(1) << 31)) {
        if (k == OK::Heap) {
            E.set(s, I.dst, Val(0));
            return true;
        }
        E.unsup("huge allocation (" + std::to_string(n) + ")");
    }
    E.set(s, I.dst, Val(baseOf(E.alloc(s, n, k, "heap", f))));
    return true;
}
BI(bi_malloc) { return doAlloc(E, s, I, ci, 0, OK::Heap); }
BI(bi_new) { return doAlloc(E, s, I, ci, 0, OK::HeapNew); }
BI(bi_newarr) { return doAlloc(E, s, I, ci, 0, OK::HeapNewArr); }
BI(bi_aligned) { return doAlloc(E, s, I, ci, 1, OK::Heap); }
BI(bi_calloc)
{
    u64 a = E.argc(s, ci, 0), b = E.argc(s, ci, 1);
    if (b && a > (u64(1) << 31) / b) {
        E.set(s, I.dst, Val(0));
        return true;
    }
    E.set(s, I.dst, Val(baseOf(E.alloc(s, a * b, OK::Heap, "heap", Fill::Zero))));
    return true;
}
BI(bi_realloc)
{
    u64 p = E.argc(s, ci, 0), n = E.argc(s, ci, 1);
    if (n > (u64(1) << 31)) {
        E.set(s, I.dst, Val(0));
        return true;
    }
    u64 old = 0;
    if (p) {
        Obj *o = s.mem.get(idOf(p));
        if (!o || p != baseOf(idOf(p)) || o->kind != OK::Heap)
            E.error(s, "memory error: invalid realloc");
        old = o->size;
    }
    u64 q = baseOf(E.alloc(s, n, OK::Heap, "heap"));
    if (p) {
        E.copyMem(s, q, p, std::min(old, n));
        E.freeObj(s, p, OK::Heap, "realloc");
    }
    E.set(s, I.dst, Val(q));
    return true;
}
BI(bi_free) { UNUSED; E.freeObj(s, E.argc(s, ci, 0), OK::Heap, "free"); return true; }
BI(bi_delete) { UNUSED; E.freeObj(s, E.argc(s, ci, 0), OK::HeapNew, "delete"); return true; }
BI(bi_deletearr) { UNUSED; E.freeObj(s, E.argc(s, ci, 0), OK::HeapNewArr, "delete[]"); return true; }
BI(bi_usable)
{
    Obj *o = s.mem.get(idOf(E.argc(s, ci, 0)));
    E.set(s, I.dst, Val(o ? o->size : 0));
    return true;
}

// ---- memory functions (also reachable as library calls)

BI(bi_memcpy)
{
    u64 n = E.argc(s, ci, 2), d = E.argc(s, ci, 0), a = E.argc(s, ci, 1);
    E.copyMem(s, d, a, n);
    if (ci.retSlots)
        E.set(s, I.dst, Val(d));
    return true;
}
BI(bi_memset)
{
    u64 n = E.argc(s, ci, 2), d = E.argc(s, ci, 0);
    E.setMem(s, d, E.arg(s, ci, 1), n);
    if (ci.retSlots)
        E.set(s, I.dst, Val(d));
    return true;
}

// ---- exceptions

BI(bi_exc_alloc)
{
    u64 n = E.argc(s, ci, 0);
    E.set(s, I.dst, Val(baseOf(E.alloc(s, n ? n : 1, OK::Exc, "exception"))));
    return true;
}
BI(bi_exc_free)
{
    UNUSED;
    u64 a = E.argc(s, ci, 0);
    s.mem.del(idOf(a));
    s.exc.erase(a);
    return true;
}
BI(bi_throw)
{
    UNUSED;
    E.throwNew(s, E.argc(s, ci, 0), E.argc(s, ci, 1), E.argc(s, ci, 2));
    return false;
}
// Drops one reference; runs the destructor when it was the last. Returns true if
// a destructor frame was pushed.
static bool dropRef(Engine &E, State &s, u64 ex)
{
    auto it = s.exc.find(ex);
    if (it == s.exc.end())
        E.error(s, "memory error: use of a destroyed exception");
    ExcInfo &x = it->second;
    if (x.primary) {
        u64 p = x.primary;
        s.exc.erase(it);
        s.mem.del(idOf(ex));
        return dropRef(E, s, p);
    }
    if (--x.refs > 0)
        return false;
    if (x.dtor) {
        u32 idx = idOf(x.dtor) - 0x20000000u;
        if (idx >= E.funcs.size())
            E.fatal("exception destructor");
        Func *f = E.funcs[idx];
        if (f->decl)
            E.unsup("external exception destructor " + f->name);
        E.pushFrame(s, f, {Val(ex)});
        s.F().discardRet = true;
        s.F().freeExc = ex;
        return true;
    }
    s.mem.del(idOf(ex));
    s.exc.erase(ex);
    return false;
}
BI(bi_begin_catch)
{
    u64 ex = E.argc(s, ci, 0);
    ExcInfo &x = s.exc[ex];
    if (x.handlers < 0)
        x.handlers = -x.handlers + 1;
    else
        x.handlers++;
    auto &c = s.T().caught;
    if (c.empty() || c.back() != ex)
        c.push_back(ex);
    if (ci.retSlots)
        E.set(s, I.dst, Val(x.adjusted));
    return true;
}
BI(bi_get_exc_ptr)
{
    E.set(s, I.dst, Val(s.exc[E.argc(s, ci, 0)].adjusted));
    return true;
}
BI(bi_end_catch)
{
    UNUSED;
    auto &c = s.T().caught;
    if (c.empty())
        E.fatal("end_catch without a caught exception");
    u64 ex = c.back();
    ExcInfo &x = s.exc[ex];
    if (x.handlers < 0) {
        if (++x.handlers == 0)
            c.pop_back();
        return true;
    }
    if (--x.handlers == 0) {
        c.pop_back();
        if (dropRef(E, s, ex))
            return false;   // doRet of the destructor resumes the call
    }
    return true;
}
BI(bi_rethrow)
{
    UNUSED;
    auto &c = s.T().caught;
    if (c.empty())
        E.error(s, "terminate: rethrow without an exception");
    u64 ex = c.back();
    s.exc[ex].handlers = -s.exc[ex].handlers;
    E.unwind(s, ex);
    return false;
}
BI(bi_current_exception)
{
    // exception_ptr is returned through sret: a struct holding one pointer
    auto &c = s.T().caught;
    u64 p = 0;
    if (!c.empty()) {
        u64 ex = c.back();
        p = s.exc[ex].primary ? s.exc[ex].primary : ex;
        s.exc[p].refs++;
    }
    (void)I;
    E.st(s, E.argc(s, ci, 0), p);
    return true;
}
BI(bi_eptr_addref)
{
    UNUSED;
    u64 p = E.ld(s, E.argc(s, ci, 0));
    if (p)
        s.exc[p].refs++;
    return true;
}
BI(bi_eptr_release)
{
    UNUSED;
    u64 a = E.argc(s, ci, 0);
    u64 p = E.ld(s, a);
    if (p) {
        E.st(s, a, 0);
        if (dropRef(E, s, p))
            return false;
    }
    return true;
}
BI(bi_rethrow_exception)
{
    UNUSED;
    // exception_ptr is passed by invisible reference
    u64 p = E.ld(s, E.argc(s, ci, 0));
    if (!p)
        E.error(s, "terminate: rethrow of a null exception_ptr");
    u64 d = baseOf(E.alloc(s, 1, OK::Exc, "dependent exception"));
    s.exc[p].refs++;
    ExcInfo x;
    x.ti = s.exc[p].ti;
    x.primary = p;
    x.refs = 1;
    s.exc[d] = x;
    E.unwind(s, d);
    return false;
}
BI(bi_uncaught)
{
    E.set(s, I.dst, Val(0));
    UNUSED;
    return true;
}
BI(bi_terminate) { UNUSED; E.error(s, "terminate called"); }
BI(bi_clang_terminate) { UNUSED; E.error(s, "terminate: exception escaped a noexcept function"); }
BI(bi_unexpected) { UNUSED; E.error(s, "terminate: unexpected exception"); }
BI(bi_abort) { UNUSED; E.error(s, "abort called"); }
BI(bi_pure) { UNUSED; E.error(s, "pure virtual call"); }
BI(bi_glibcxx_assert)
{
    UNUSED;
    std::string m = "libstdc++ assertion failed";
    if (ci.args.size() >= 4) {
        u64 c = E.argc(s, ci, 3);
        if (c)
            m += ": " + E.cstr(s, c);
    }
    E.error(s, m);
}
BI(bi_assert_fail)
{
    UNUSED;
    E.error(s, "assertion failed: " + E.cstr(s, E.argc(s, ci, 0)));
}

BI(bi_dynamic_cast)
{
    u64 p = E.argc(s, ci, 0), dst = E.argc(s, ci, 2);
    u64 vt = E.ld(s, p);
    i64 top = i64(E.ld(s, vt - 16));
    u64 ti = E.ld(s, vt - 8);
    i64 off = 0;
    u64 r = 0;
    if (E.hasBase(s, ti, dst, off))
        r = p + u64(top) + u64(off);
    E.set(s, I.dst, Val(r));
    return true;
}

BI(bi_atexit)
{
    if (ci.retSlots)
        E.set(s, I.dst, Val(0));
    UNUSED;
    return true;
}
BI(bi_nop)
{
    if (ci.retSlots)
        for (u32 i = 0; i < ci.retSlots; i++)
            E.set(s, I.dst + i32(i), Val(0));
    UNUSED;
    return true;
}

// ---- harness interface

BI(m_symbolic)
{
    UNUSED;
    u64 p = E.argc(s, ci, 0), n = E.argc(s, ci, 1);
    std::string nm = E.cstr(s, E.argc(s, ci, 2));
    Input in;
    in.name = nm;
    u32 id;
    u64 off;
    if (n) {
        E.access(s, Val(p), n, true, id, off);
        for (u64 i = 0; i < n; i++) {
            u32 v = E.newVar(s);
            in.vars.push_back(v);
            E.storeObj(s, id, off + i, 8, Val::of(mkVar(v)));
        }
    }
    s.inputs.push_back(std::move(in));
    return true;
}
static ER condArg(Engine &E, State &s, const CallInfo &ci, unsigned i)
{
    Val v = E.arg(s, ci, i);
    unsigned w = ci.args[i].bits;
    if (v.conc())
        return mkConst((v.c & mask64(w)) != 0, 1);
    return w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, w)));
}
BI(m_assume)
{
    UNUSED;
    E.nAssumes++;
    ER c = condArg(E, s, ci, 0);
    if (c->isConst()) {
        if (!c->val)
            throw PathEnd{PathEnd::Infeasible, "assume"};
        return true;
    }
    if (!E.satisfies(s, c)) {
        Engine::Feas r;
        E.feas(s, c, r, true, false);
        if (r.t == SR::Unsat)
            throw PathEnd{PathEnd::Infeasible, "assume"};
        if (r.t == SR::Unknown)
            E.unsup("solver unknown (assume)");
        E.apply(s, r.mt);
    }
    E.addCons(s, c);
    return true;
}
BI(m_assert)
{
    UNUSED;
    E.nAsserts++;
    ER c = condArg(E, s, ci, 0);
    std::string msg;
    auto getMsg = [&] { return "assert: " + E.cstr(s, E.argc(s, ci, 1)); };
    if (c->isConst()) {
        E.nAssertConst++;
        if (!c->val)
            E.error(s, getMsg());
        return true;
    }
    E.nAssertSym++;
    std::vector<ER> q;
    E.slice(s, c, q);
    q.push_back(mkNot(c));
    std::vector<std::pair<u32, u8>> m;
    SR r = z3Check(q, &m);
    sstats.assertQueries++;
    if (r == SR::Unknown) {
        E.unsup("solver unknown (assert)");
    }
    if (r == SR::Sat) {
        E.violation(s, getMsg(), &m);
        // continue under the assertion
        if (!E.satisfies(s, c)) {
            Engine::Feas f;
            E.feas(s, c, f, true, false);
            if (f.t != SR::Sat)
                throw PathEnd{PathEnd::Error, "assert"};
            E.apply(s, f.mt);
        }
        E.addCons(s, c);
    }
    return true;
}
BI(m_reach)
{
    UNUSED;
    E.reach[E.cstr(s, E.argc(s, ci, 0))]++;
    return true;
}
BI(m_concretize)
{
    u64 v = E.argc(s, ci, 0);
    E.set(s, I.dst, Val(v));
    return true;
}
BI(m_live_heap)
{
    E.set(s, I.dst, Val(u64(s.liveHeap)));
    UNUSED;
    return true;
}
BI(m_live_bytes)
{
    E.set(s, I.dst, Val(u64(s.liveBytes)));
    UNUSED;
    return true;
}
BI(m_trace)
{
    UNUSED;
    s.traceVals.push_back(E.arg(s, ci, 0));
    s.traceW.push_back(ci.args[0].bits);
    return true;
}
BI(m_param)
{
    std::string n = E.cstr(s, E.argc(s, ci, 0));
    auto it = E.opt.params.find(n);
    Val v = it == E.opt.params.end() ? E.arg(s, ci, 1) : Val(u64(it->second));
    E.set(s, I.dst, v);
    return true;
}
BI(m_is_symbolic_engine)
{
    E.set(s, I.dst, Val(1));
    UNUSED;
    return true;
}
BI(m_is_symbolic)
{
    E.set(s, I.dst, Val(u64(!E.arg(s, ci, 0).conc())));
    return true;
}
BI(m_ok)
{
    // whether [p, p+n) lies within one live object
    u64 p = E.argc(s, ci, 0), n = E.argc(s, ci, 1), off;
    u32 id;
    E.set(s, I.dst, Val(u64(E.resolveConc(s, p, n, id, off))));
    return true;
}
BI(m_end) { UNUSED; throw PathEnd{PathEnd::Done, ""}; }
BI(m_print)
{
    UNUSED;
    std::string m = E.cstr(s, E.argc(s, ci, 0));
    Val v = E.arg(s, ci, 1);
    if (E.opt.verbose) {
        if (v.conc())
            fprintf(stderr, "[print] %s %lld (0x%llx)\n", m.c_str(), (long long)v.c, (unsigned long long)v.c);
        else
            fprintf(stderr, "[print] %s %s\n", m.c_str(), exprStr(v.e).c_str());
    }
    return true;
}

// ---- threads

BI(m_thread_create)
{
    u64 fn = E.argc(s, ci, 0);
    Val a = E.arg(s, ci, 1);
    u32 idx = idOf(fn) - 0x20000000u;
    if (idx >= E.funcs.size())
        E.error(s, "thread start: invalid function");
    u32 me = s.cur;
    u32 tid = u32(s.th.size());
    s.th.emplace_back();
    s.cur = tid;
    E.pushFrame(s, E.funcs[idx], {a});
    s.cur = me;
    E.set(s, I.dst, Val(tid));
    return true;
}
BI(m_yield)
{
    E.finishCall(s, I, s.F().f->calls[I.x]);
    (void)ci;
    E.schedule(s, true);
    return false;
}
BI(m_await)
{
    // Blocks until the 32-bit word at the address equals the value.
    u64 a = E.argc(s, ci, 0), v = E.argc(s, ci, 1);
    Val c = E.loadMem(s, Val(a), 32);
    u64 cv = c.conc() ? c.c : E.concretize(s, c, 32);
    if (cv == (v & 0xffffffff))
        return true;
    (void)I;
    s.T().awaitAddr = a;
    s.T().awaitVal = v & 0xffffffff;
    s.T().waiting = true;
    E.schedule(s, false);
    return false;
}
BI(m_self)
{
    E.set(s, I.dst, Val(s.cur));
    UNUSED;
    return true;
}
BI(m_thread_done)
{
    E.set(s, I.dst, Val(u64(s.th[E.argc(s, ci, 0)].done)));
    return true;
}

// ---- math

static bool math1(Engine &E, State &s, const Inst &I, const CallInfo &ci, double (*f)(double))
{
    Val a = E.arg(s, ci, 0);
    if (!a.conc())
        E.unsup("symbolic " + ci.name);
    if (ci.retBits == 64) {
        double d;
        memcpy(&d, &a.c, 8);
        d = f(d);
        u64 r;
        memcpy(&r, &d, 8);
        E.set(s, I.dst, Val(r));
    } else if (ci.retBits == 32) {
        float d;
        memcpy(&d, &a.c, 4);
        d = float(f(double(d)));
        u32 r;
        memcpy(&r, &d, 4);
        E.set(s, I.dst, Val(r));
    } else
        E.unsup(ci.name);
    return true;
}
BI(bi_log) { return math1(E, s, I, ci, log); }
BI(bi_log2) { return math1(E, s, I, ci, log2); }
BI(bi_log10) { return math1(E, s, I, ci, log10); }
BI(bi_exp) { return math1(E, s, I, ci, exp); }
BI(bi_sqrt) { return math1(E, s, I, ci, sqrt); }
static bool funop(Engine &E, State &s, const Inst &I, const CallInfo &ci, K k)
{
    unsigned w = ci.retBits;
    E.set(s, I.dst, Val::of(mkUnF(k, toE(E.arg(s, ci, 0), w), w)));
    return true;
}
BI(bi_floor) { return funop(E, s, I, ci, K::FFloor); }
BI(bi_ceil) { return funop(E, s, I, ci, K::FCeil); }
BI(bi_trunc) { return funop(E, s, I, ci, K::FTrunc); }
BI(bi_round) { return funop(E, s, I, ci, K::FRoundAway); }
BI(bi_rint) { return funop(E, s, I, ci, K::FRint); }
BI(bi_pow)
{
    Val a = E.arg(s, ci, 0), b = E.arg(s, ci, 1);
    if (!a.conc() || !b.conc() || ci.retBits != 64)
        E.unsup("symbolic pow");
    double x, y;
    memcpy(&x, &a.c, 8);
    memcpy(&y, &b.c, 8);
    x = pow(x, y);
    u64 r;
    memcpy(&r, &x, 8);
    E.set(s, I.dst, Val(r));
    return true;
}
BI(bi_logl)
{
    Val a = E.arg(s, ci, 0);
    if (!a.e || !a.e->isConst())
        E.unsup("symbolic logl");
    long double d = 0;
    memcpy(&d, &a.e->val, 10);
    d = logl(d);
    u128 r = 0;
    memcpy(&r, &d, 10);
    Val v;
    v.e = mkConst(r, 80);
    E.set(s, I.dst, v);
    return true;
}

BI(bi_strlen)
{
    u64 a = E.argc(s, ci, 0), n = 0;
    // strlen over possibly symbolic bytes: forks on each byte being NUL
    for (;; n++) {
        Val v = E.loadMem(s, Val(a + n), 8);
        if (v.conc()) {
            if (!v.c)
                break;
        } else if (E.decide(s, mkEq(v.e, mkConst(0, 8))))
            break;
    }
    E.set(s, I.dst, Val(n));
    return true;
}

static const std::unordered_map<std::string, Builtin> &table()
{
    static const std::unordered_map<std::string, Builtin> t = {
        {"malloc", bi_malloc}, {"calloc", bi_calloc}, {"realloc", bi_realloc}, {"free", bi_free},
        {"aligned_alloc", bi_aligned}, {"malloc_usable_size", bi_usable},
        {"_Znwm", bi_new}, {"_ZnwmRKSt9nothrow_t", bi_new}, {"_Znam", bi_newarr}, {"_ZnamRKSt9nothrow_t", bi_newarr},
        {"_ZnwmSt11align_val_t", bi_new}, {"_ZdlPvSt11align_val_t", bi_delete}, {"_ZdlPvmSt11align_val_t", bi_delete},
        {"_ZdlPv", bi_delete}, {"_ZdlPvm", bi_delete}, {"_ZdaPv", bi_deletearr}, {"_ZdaPvm", bi_deletearr},
        {"_ZdlPvRKSt9nothrow_t", bi_delete},
        {"memcpy", bi_memcpy}, {"memmove", bi_memcpy}, {"memset", bi_memset}, {"strlen", bi_strlen},
        {"__cxa_allocate_exception", bi_exc_alloc}, {"__cxa_free_exception", bi_exc_free}, {"__cxa_throw", bi_throw},
        {"__cxa_begin_catch", bi_begin_catch}, {"__cxa_end_catch", bi_end_catch}, {"__cxa_rethrow", bi_rethrow},
        {"__cxa_get_exception_ptr", bi_get_exc_ptr},
        {"_ZSt17current_exceptionv", bi_current_exception},
        {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", bi_eptr_addref},
        {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", bi_eptr_release},
        {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", bi_rethrow_exception},
        {"_ZSt19uncaught_exceptionsv", bi_uncaught}, {"_ZSt18uncaught_exceptionv", bi_uncaught},
        {"_ZSt9terminatev", bi_terminate}, {"__clang_call_terminate", bi_clang_terminate}, {"__cxa_call_unexpected", bi_unexpected},
        {"__cxa_call_terminate", bi_clang_terminate},
        {"abort", bi_abort}, {"__cxa_pure_virtual", bi_pure}, {"__cxa_deleted_virtual", bi_pure},
        {"_ZSt21__glibcxx_assert_failPKciS0_S0_", bi_glibcxx_assert}, {"__assert_fail", bi_assert_fail},
        {"__dynamic_cast", bi_dynamic_cast}, {"__cxa_atexit", bi_atexit}, {"atexit", bi_atexit}, {"__cxa_thread_atexit", bi_atexit},
        {"_ZNSt8ios_base4InitC1Ev", bi_nop}, {"_ZNSt8ios_base4InitD1Ev", bi_nop},
        {"mlse_symbolic", m_symbolic}, {"mlse_assume", m_assume}, {"mlse_assert", m_assert}, {"mlse_reach", m_reach},
        {"mlse_concretize", m_concretize}, {"mlse_live_heap", m_live_heap}, {"mlse_live_bytes", m_live_bytes},
        {"mlse_trace", m_trace}, {"mlse_param", m_param}, {"mlse_in_engine", m_is_symbolic_engine}, {"mlse_readable", m_ok},
        {"mlse_end", m_end}, {"mlse_is_symbolic", m_is_symbolic}, {"mlse_print", m_print},
        {"mlse_thread_create", m_thread_create}, {"mlse_yield", m_yield}, {"mlse_await", m_await}, {"mlse_self", m_self},
        {"mlse_thread_done", m_thread_done},
        {"log", bi_log}, {"log2", bi_log2}, {"log10", bi_log10}, {"exp", bi_exp}, {"sqrt", bi_sqrt}, {"pow", bi_pow}, {"logl", bi_logl},
        {"floor", bi_floor}, {"ceil", bi_ceil}, {"trunc", bi_trunc}, {"round", bi_round}, {"rint", bi_rint},
        {"floorf", bi_floor}, {"ceilf", bi_ceil}, {"truncf", bi_trunc}, {"roundf", bi_round},
    };
    return t;
}

Builtin Engine::builtinFor(const std::string &n)
{
    auto it = table().find(n);
    return it == table().end() ? nullptr : it->second;
}
