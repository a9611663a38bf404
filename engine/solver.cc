#include "solver.h"

#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>

SolverStats sstats;
// Resource limit per query (z3's deterministic counter; timer threads do not
// survive the forks that distribute the work).
unsigned solverRlimit = 200000000;

namespace {

Z3_context ctx;
Z3_solver solverBV, solverFP;
u32 gen = 0;
u32 nodes = 0;
Z3_sort fsort[3];
Z3_ast rne, rtz, rtp, rtn, rna;

void onErr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

void init()
{
    if (ctx)
        return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);    // asts live as long as the context
    nodes = 0;
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    gen++;
    auto keep = [](Z3_ast a) {
        Z3_inc_ref(ctx, a);
        return a;
    };
    fsort[0] = Z3_mk_fpa_sort_32(ctx);
    fsort[1] = Z3_mk_fpa_sort_64(ctx);
    fsort[2] = Z3_mk_fpa_sort(ctx, 15, 64);
    for (auto s : fsort)
        Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
    rne = keep(Z3_mk_fpa_rne(ctx));
    rtz = keep(Z3_mk_fpa_rtz(ctx));
    rtp = keep(Z3_mk_fpa_rtp(ctx));
    rtn = keep(Z3_mk_fpa_rtn(ctx));
    rna = keep(Z3_mk_fpa_rna(ctx));
    solverBV = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, solverBV);
    solverFP = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    Z3_solver_inc_ref(ctx, solverFP);
    for (auto s : {solverBV, solverFP}) {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), solverRlimit);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
}

Z3_ast num(u128 v, unsigned w)
{
    Z3_sort s = Z3_mk_bv_sort(ctx, w);
    if (w <= 64)
        return Z3_mk_unsigned_int64(ctx, u64(v), s);
    char buf[48];
    char *p = buf + 47;
    *p = 0;
    if (!v)
        *--p = '0';
    while (v) {
        *--p = char('0' + int(v % 10));
        v /= 10;
    }
    return Z3_mk_numeral(ctx, p, s);
}

Z3_sort fs(unsigned w)
{
    return w == 32 ? fsort[0] : w == 64 ? fsort[1] : fsort[2];
}
Z3_ast toF(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, a, fs(w)); }
Z3_ast frF(Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(ctx, a); }

// Booleans are kept as Bool-sorted asts for width-1 comparison results; width-1
// expressions used as bit vectors are converted on demand.
Z3_ast trBool(ER e);

Z3_ast tr(ER e)     // bit-vector sorted
{
    if (e->z3gen == gen * 2 && e->z3)
        return static_cast<Z3_ast>(e->z3);
    Z3_ast r = nullptr;
    unsigned w = e->w;
    auto A = [&](int i) { return tr(e->a[i]); };
    switch (e->k) {
    case K::Const: r = num(e->val, w); break;
    case K::Var: {
        char b[24];
        snprintf(b, sizeof b, "v%u", e->aux);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bv_sort(ctx, 8));
        break;
    }
    case K::Concat: r = Z3_mk_concat(ctx, A(0), A(1)); break;
    case K::Extract: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, A(0)); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, w - e->a[0]->w, A(0)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, w - e->a[0]->w, A(0)); break;
    case K::Add: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
    case K::Sub: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
    case K::Mul: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
    case K::UDiv: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
    case K::URem: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case K::SRem: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case K::And: r = Z3_mk_bvand(ctx, A(0), A(1)); break;
    case K::Or: r = Z3_mk_bvor(ctx, A(0), A(1)); break;
    case K::Xor: r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
    case K::LShr: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
    case K::AShr: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case K::Ite: r = Z3_mk_ite(ctx, trBool(e->a[0]), A(1), A(2)); break;
    case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle:
    case K::FOeq: case K::FOlt: case K::FOle: case K::FUno:
        r = Z3_mk_ite(ctx, trBool(e), num(1, 1), num(0, 1));
        break;
    case K::FAdd: r = frF(Z3_mk_fpa_add(ctx, rne, toF(A(0), w), toF(A(1), w))); break;
    case K::FSub: r = frF(Z3_mk_fpa_sub(ctx, rne, toF(A(0), w), toF(A(1), w))); break;
    case K::FMul: r = frF(Z3_mk_fpa_mul(ctx, rne, toF(A(0), w), toF(A(1), w))); break;
    case K::FDiv: r = frF(Z3_mk_fpa_div(ctx, rne, toF(A(0), w), toF(A(1), w))); break;
    case K::FRem: r = frF(Z3_mk_fpa_rem(ctx, toF(A(0), w), toF(A(1), w))); break;
    case K::FCvt: r = frF(Z3_mk_fpa_to_fp_float(ctx, rne, toF(A(0), e->a[0]->w), fs(w))); break;
    case K::FToUI: r = Z3_mk_fpa_to_ubv(ctx, rtz, toF(A(0), e->a[0]->w), w); break;
    case K::FToSI: r = Z3_mk_fpa_to_sbv(ctx, rtz, toF(A(0), e->a[0]->w), w); break;
    case K::UIToF: r = frF(Z3_mk_fpa_to_fp_unsigned(ctx, rne, A(0), fs(w))); break;
    case K::SIToF: r = frF(Z3_mk_fpa_to_fp_signed(ctx, rne, A(0), fs(w))); break;
    case K::FSqrt: r = frF(Z3_mk_fpa_sqrt(ctx, rne, toF(A(0), w))); break;
    case K::FFloor: r = frF(Z3_mk_fpa_round_to_integral(ctx, rtn, toF(A(0), w))); break;
    case K::FCeil: r = frF(Z3_mk_fpa_round_to_integral(ctx, rtp, toF(A(0), w))); break;
    case K::FTrunc: r = frF(Z3_mk_fpa_round_to_integral(ctx, rtz, toF(A(0), w))); break;
    case K::FRint: r = frF(Z3_mk_fpa_round_to_integral(ctx, rne, toF(A(0), w))); break;
    case K::FRoundAway: r = frF(Z3_mk_fpa_round_to_integral(ctx, rna, toF(A(0), w))); break;
    }
    nodes++;
    e->z3 = r;
    e->z3gen = gen * 2;
    return r;
}

Z3_ast trBool(ER e)
{
    auto A = [&](int i) { return tr(e->a[i]); };
    unsigned iw = e->a[0] ? e->a[0]->w : 0;
    switch (e->k) {
    case K::Const: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case K::Eq: return Z3_mk_eq(ctx, A(0), A(1));
    case K::Ult: return Z3_mk_bvult(ctx, A(0), A(1));
    case K::Ule: return Z3_mk_bvule(ctx, A(0), A(1));
    case K::Slt: return Z3_mk_bvslt(ctx, A(0), A(1));
    case K::Sle: return Z3_mk_bvsle(ctx, A(0), A(1));
    case K::FOeq: return Z3_mk_fpa_eq(ctx, toF(A(0), iw), toF(A(1), iw));
    case K::FOlt: return Z3_mk_fpa_lt(ctx, toF(A(0), iw), toF(A(1), iw));
    case K::FOle: return Z3_mk_fpa_leq(ctx, toF(A(0), iw), toF(A(1), iw));
    case K::FUno: {
        Z3_ast v[2] = {Z3_mk_fpa_is_nan(ctx, toF(A(0), iw)), Z3_mk_fpa_is_nan(ctx, toF(A(1), iw))};
        return Z3_mk_or(ctx, 2, v);
    }
    case K::And:
    case K::Or: {
        Z3_ast v[2] = {trBool(e->a[0]), trBool(e->a[1])};
        return e->k == K::And ? Z3_mk_and(ctx, 2, v) : Z3_mk_or(ctx, 2, v);
    }
    case K::Xor:
        if (e->a[1]->isConst() && e->a[1]->val == 1)
            return Z3_mk_not(ctx, trBool(e->a[0]));
        return Z3_mk_xor(ctx, trBool(e->a[0]), trBool(e->a[1]));
    default: return Z3_mk_eq(ctx, tr(e), num(1, 1));
    }
}

struct CacheEnt {
    SR r;
    std::vector<std::pair<u32, u8>> model;
};
struct VH {
    size_t operator()(const std::vector<u32> &v) const
    {
        u64 h = v.size();
        for (u32 x : v)
            h = (h ^ x) * 0x100000001b3ull + 0x9E37;
        return h;
    }
};
std::unordered_map<std::vector<u32>, CacheEnt, VH> cache;

}  // namespace

void solverReset()
{
    // The old context belongs to the parent process image; drop it.
    ctx = nullptr;
    init();
}

SR z3Check(const std::vector<ER> &cs, std::vector<std::pair<u32, u8>> *model, bool useCache)
{
    std::vector<u32> key;
    for (auto *e : cs)
        key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    if (useCache) {
        auto it = cache.find(key);
        if (it != cache.end()) {
            sstats.cacheHits++;
            if (model)
                *model = it->second.model;
            return it->second.r;
        }
    }
    if (ctx && nodes > 400000) {
        Z3_solver_dec_ref(ctx, solverBV);
        Z3_solver_dec_ref(ctx, solverFP);
        Z3_del_context(ctx);
        ctx = nullptr;
    }
    init();
    nodes += 50;
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false;
    for (auto *e : cs)
        fp |= e->fp;
    Z3_solver s = fp ? solverFP : solverBV;
    Z3_solver_reset(ctx, s);
    std::vector<u32> vars;
    for (auto *e : cs) {
        Z3_solver_assert(ctx, s, trBool(e));
        vars.insert(vars.end(), e->vs->v.begin(), e->vs->v.end());
    }
    std::sort(vars.begin(), vars.end());
    vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    Z3_lbool lr = Z3_solver_check(ctx, s);
    sstats.queries++;
    CacheEnt ent;
    ent.r = lr == Z3_L_TRUE ? SR::Sat : lr == Z3_L_FALSE ? SR::Unsat : SR::Unknown;
    if (ent.r == SR::Sat) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (u32 v : vars) {
            Z3_ast out;
            u64 x = 0;
            if (Z3_model_eval(ctx, m, tr(mkVar(v)), true, &out)) {
                uint64_t xv = 0;
                if (Z3_get_numeral_uint64(ctx, out, &xv))
                    x = xv;
            }
            ent.model.push_back({v, u8(x)});
        }
        Z3_model_dec_ref(ctx, m);
    }
    if (ent.r == SR::Unknown)
        sstats.unknown++;
    Z3_solver_reset(ctx, s);
    sstats.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (model)
        *model = ent.model;
    SR r = ent.r;
    if (r != SR::Unknown)
        cache.emplace(std::move(key), std::move(ent));
    return r;
}
