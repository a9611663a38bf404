#include "expr.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>

namespace {

struct Key {
    K k;
    u16 w;
    u32 aux;
    u128 val;
    ER a[3];
    bool operator==(const Key &o) const
    {
        return k == o.k && w == o.w && aux == o.aux && val == o.val && a[0] == o.a[0] &&
               a[1] == o.a[1] && a[2] == o.a[2];
    }
};
struct KeyHash {
    size_t operator()(const Key &x) const
    {
        u64 h = u64(x.k) * 0x9E3779B97F4A7C15ull ^ (u64(x.w) << 32) ^ x.aux;
        auto mix = [&](u64 v) {
            h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 33;
        };
        mix(u64(x.val));
        mix(u64(x.val >> 64));
        for (auto *p : x.a)
            mix(p ? p->id : 0);
        return h;
    }
};

std::unordered_map<Key, ER, KeyHash> table;
u32 nextExprId = 1;

struct VHash {
    size_t operator()(const std::vector<u32> &v) const
    {
        u64 h = v.size();
        for (u32 x : v)
            h = (h ^ x) * 0x100000001b3ull + 0x9E37;
        return h;
    }
};
std::unordered_map<std::vector<u32>, VarSet *, VHash> vsets;
std::unordered_map<u64, const VarSet *> unions;
u32 nextVs = 0;

const VarSet *internVs(std::vector<u32> &&v)
{
    auto it = vsets.find(v);
    if (it != vsets.end())
        return it->second;
    auto *s = new VarSet{v, nextVs++};
    vsets.emplace(std::move(v), s);
    return s;
}

const VarSet *unite(const VarSet *a, const VarSet *b)
{
    if (a == b || b->v.empty())
        return a;
    if (a->v.empty())
        return b;
    if (a->id > b->id)
        std::swap(a, b);
    u64 key = (u64(a->id) << 32) | b->id;
    auto it = unions.find(key);
    if (it != unions.end())
        return it->second;
    std::vector<u32> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    return unions[key] = internVs(std::move(r));
}

bool isF(K k) { return k >= K::FAdd; }

ER intern(K k, unsigned w, u32 aux, u128 val, ER a = nullptr, ER b = nullptr, ER c = nullptr)
{
    Key key{k, u16(w), aux, val, {a, b, c}};
    auto it = table.find(key);
    if (it != table.end())
        return it->second;
    auto *e = new Expr{};
    e->k = k;
    e->w = u16(w);
    e->id = nextExprId++;
    e->aux = aux;
    e->val = val;
    e->a[0] = a;
    e->a[1] = b;
    e->a[2] = c;
    e->fp = isF(k) || (a && a->fp) || (b && b->fp) || (c && c->fp);
    if (k == K::Var)
        e->vs = internVs({aux});
    else {
        const VarSet *s = emptyVarSet();
        if (a)
            s = unite(s, a->vs);
        if (b)
            s = unite(s, b->vs);
        if (c)
            s = unite(s, c->vs);
        e->vs = s;
    }
    table.emplace(key, e);
    return e;
}

double asD(u128 v) { u64 x = u64(v); double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { u32 x = u32(v); float d; memcpy(&d, &x, 4); return d; }
u128 frD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
u128 frF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
long double asL(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
u128 frL(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v; }

template <class T>
u128 fop(K k, T a, T b, bool &cmp)
{
    cmp = false;
    T r = 0;
    switch (k) {
    case K::FAdd: r = a + b; break;
    case K::FSub: r = a - b; break;
    case K::FMul: r = a * b; break;
    case K::FDiv: r = a / b; break;
    case K::FRem: r = std::fmod(a, b); break;
    case K::FOeq: cmp = true; return a == b;
    case K::FOlt: cmp = true; return a < b;
    case K::FOle: cmp = true; return a <= b;
    case K::FUno: cmp = true; return std::isnan(a) || std::isnan(b);
    default: abort();
    }
    if constexpr (sizeof(T) == 4)
        return frF(r);
    else if constexpr (sizeof(T) == 8)
        return frD(r);
    else
        return frL(r);
}

}  // namespace

u64 numExprs() { return nextExprId; }

const VarSet *emptyVarSet()
{
    static const VarSet *e = internVs({});
    return e;
}

u128 foldBin(K k, u128 a, u128 b, unsigned w, bool &ok)
{
    ok = true;
    u128 m = maskw(w);
    switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: if (!b) { ok = false; return 0; } return a / b;
    case K::URem: if (!b) { ok = false; return 0; } return a % b;
    case K::SDiv: {
        if (!b) { ok = false; return 0; }
        i128 x = sext128(a, w), y = sext128(b, w);
        if (y == -1) return u128(-x) & m;
        return u128(x / y) & m;
    }
    case K::SRem: {
        if (!b) { ok = false; return 0; }
        i128 x = sext128(a, w), y = sext128(b, w);
        if (y == -1) return 0;
        return u128(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << unsigned(b)) & m;
    case K::LShr: return b >= w ? 0 : a >> unsigned(b);
    case K::AShr: {
        i128 x = sext128(a, w);
        return u128(x >> (b >= w ? w - 1 : unsigned(b))) & m;
    }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sext128(a, w) < sext128(b, w);
    case K::Sle: return sext128(a, w) <= sext128(b, w);
    default: break;
    }
    if (k >= K::FAdd && k <= K::FUno) {
        bool cmp;
        if (w == 32) return fop<float>(k, asF(a), asF(b), cmp);
        if (w == 64) return fop<double>(k, asD(a), asD(b), cmp);
        if (w == 80) return fop<long double>(k, asL(a), asL(b), cmp);
    }
    ok = false;
    return 0;
}

u128 foldUnF(K k, u128 a, unsigned aw, unsigned w)
{
    auto put = [&](long double v) -> u128 {
        return w == 32 ? frF(float(v)) : w == 64 ? frD(double(v)) : frL(v);
    };
    auto get = [&]() -> long double {
        return aw == 32 ? static_cast<long double>(asF(a)) : aw == 64 ? static_cast<long double>(asD(a)) : asL(a);
    };
    switch (k) {
    case K::FCvt:
        if (aw == 64 && w == 32) return frF(float(asD(a)));
        return put(get());
    case K::FToUI: {
        long double v = get();
        if (!(v > -1.0L && v < 18446744073709551616.0L)) return maskw(w) & (u128(1) << (w - 1));
        return u128(u64(v)) & maskw(w);
    }
    case K::FToSI: {
        long double v = get();
        if (!(v >= -9223372036854775808.0L && v < 9223372036854775808.0L))
            return u128(1) << (w - 1);
        return u128(i128(i64(v))) & maskw(w);
    }
    case K::UIToF:
        if (w == 32) return frF(aw <= 64 ? float(u64(a)) : float(a));
        if (w == 64) return frD(aw <= 64 ? double(u64(a)) : double(a));
        return frL(static_cast<long double>(a));
    case K::SIToF: {
        i128 s = sext128(a, aw);
        if (w == 32) return frF(aw <= 64 ? float(i64(s)) : float(s));
        if (w == 64) return frD(aw <= 64 ? double(i64(s)) : double(s));
        return frL(static_cast<long double>(s));
    }
    case K::FSqrt: return w == 32 ? frF(sqrtf(asF(a))) : w == 64 ? frD(sqrt(asD(a))) : frL(sqrtl(asL(a)));
    case K::FFloor: return put(floorl(get()));
    case K::FCeil: return put(ceill(get()));
    case K::FTrunc: return put(truncl(get()));
    case K::FRint: return put(rintl(get()));
    case K::FRoundAway: return put(roundl(get()));
    default: abort();
    }
}

ER mkConst(u128 v, unsigned w) { return intern(K::Const, w, 0, v & maskw(w)); }
ER mkVar(u32 idx) { return intern(K::Var, 8, idx, 0); }

ER mkNot(ER a)
{
    if (a->isConst())
        return mkConst(!a->val, 1);
    switch (a->k) {
    case K::Xor:
        if (a->a[1]->isConst() && a->a[1]->val == 1 && a->w == 1)
            return a->a[0];
        break;
    case K::Ult: return mkBin(K::Ule, a->a[1], a->a[0]);
    case K::Ule: return mkBin(K::Ult, a->a[1], a->a[0]);
    case K::Slt: return mkBin(K::Sle, a->a[1], a->a[0]);
    case K::Sle: return mkBin(K::Slt, a->a[1], a->a[0]);
    default: break;
    }
    return intern(K::Xor, 1, 0, 0, a, mkConst(1, 1));
}

ER mkExtract(ER e, unsigned off, unsigned w)
{
    if (off == 0 && w == e->w)
        return e;
    switch (e->k) {
    case K::Const: return mkConst(e->val >> off, w);
    case K::Extract: return mkExtract(e->a[0], e->aux + off, w);
    case K::Concat: {
        unsigned lw = e->a[1]->w;
        if (off + w <= lw)
            return mkExtract(e->a[1], off, w);
        if (off >= lw)
            return mkExtract(e->a[0], off - lw, w);
        return mkConcat(mkExtract(e->a[0], 0, off + w - lw), mkExtract(e->a[1], off, lw - off));
    }
    case K::ZExt: {
        unsigned iw = e->a[0]->w;
        if (off >= iw)
            return mkConst(0, w);
        if (off + w <= iw)
            return mkExtract(e->a[0], off, w);
        return mkZExt(mkExtract(e->a[0], off, iw - off), w);
    }
    case K::SExt: {
        unsigned iw = e->a[0]->w;
        if (off + w <= iw)
            return mkExtract(e->a[0], off, w);
        if (off == 0)
            return mkSExt(e->a[0], w);
        break;
    }
    case K::And:
    case K::Or:
    case K::Xor: return mkBin(e->k, mkExtract(e->a[0], off, w), mkExtract(e->a[1], off, w));
    case K::Add:
    case K::Sub:
    case K::Mul:
        if (off == 0)
            return mkBin(e->k, mkExtract(e->a[0], 0, w), mkExtract(e->a[1], 0, w));
        break;
    case K::Ite:
        if (e->a[1]->isConst() || e->a[2]->isConst())
            return mkIte(e->a[0], mkExtract(e->a[1], off, w), mkExtract(e->a[2], off, w));
        break;
    default: break;
    }
    return intern(K::Extract, w, off, 0, e);
}

ER mkConcat(ER hi, ER lo)
{
    unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst())
        return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->isConst() && hi->val == 0)
        return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] &&
        hi->aux == lo->aux + lo->w)
        return mkExtract(hi->a[0], lo->aux, w);
    // (x ++ y[hi]) ++ y[lo] : rotate so adjacent extracts merge
    if (hi->k == K::Concat && hi->a[1]->k == K::Extract && lo->k == K::Extract &&
        hi->a[1]->a[0] == lo->a[0] && hi->a[1]->aux == lo->aux + lo->w)
        return mkConcat(hi->a[0], mkExtract(lo->a[0], lo->aux, hi->a[1]->w + lo->w));
    if (hi->k == K::Concat && hi->a[1]->isConst() && lo->isConst())
        return mkConcat(hi->a[0], mkConst((hi->a[1]->val << lo->w) | lo->val, hi->a[1]->w + lo->w));
    return intern(K::Concat, w, 0, 0, hi, lo);
}

ER mkZExt(ER e, unsigned w)
{
    if (w == e->w)
        return e;
    if (e->isConst())
        return mkConst(e->val, w);
    if (e->k == K::ZExt)
        return mkZExt(e->a[0], w);
    return intern(K::ZExt, w, 0, 0, e);
}

ER mkSExt(ER e, unsigned w)
{
    if (w == e->w)
        return e;
    if (e->isConst())
        return mkConst(u128(sext128(e->val, e->w)), w);
    if (e->k == K::ZExt)
        return mkZExt(e->a[0], w);
    if (e->k == K::SExt)
        return mkSExt(e->a[0], w);
    return intern(K::SExt, w, 0, 0, e);
}

static bool isCmp(K k)
{
    return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle ||
           (k >= K::FOeq && k <= K::FUno);
}
static bool commut(K k)
{
    return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
}

// A contiguous low mask 0..01..1 ?
static int lowMask(u128 v)
{
    if (v == 0)
        return 0;
    if ((v & (v + 1)) != 0)
        return -1;
    int n = 0;
    while (v) {
        n++;
        v >>= 1;
    }
    return n;
}

ER mkBin(K k, ER a, ER b)
{
    unsigned w = a->w;
    unsigned rw = isCmp(k) ? 1 : w;
    if (a->w != b->w) {
        fprintf(stderr, "mkBin width mismatch %d: %u %u\n", int(k), a->w, b->w);
        abort();
    }
    if (a->isConst() && b->isConst()) {
        bool ok;
        u128 r = foldBin(k, a->val, b->val, w, ok);
        if (ok)
            return mkConst(r, rw);
    }
    if (commut(k) && (a->isConst() || (!b->isConst() && a->id > b->id)))
        std::swap(a, b);
    bool bc = b->isConst(), ac = a->isConst();
    // push through Ite with constant arms
    if (k < K::FAdd || isCmp(k)) {
        if (bc && a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst())
            return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
        if (ac && b->k == K::Ite && b->a[1]->isConst() && b->a[2]->isConst())
            return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
    }
    switch (k) {
    case K::Add:
        if (bc) {
            if (b->val == 0)
                return a;
            if (a->k == K::Add && a->a[1]->isConst())
                return mkBin(K::Add, a->a[0], mkConst(a->a[1]->val + b->val, w));
        } else {
            if (a->k == K::Add && a->a[1]->isConst())
                return mkBin(K::Add, mkBin(K::Add, a->a[0], b), a->a[1]);
            if (b->k == K::Add && b->a[1]->isConst())
                return mkBin(K::Add, mkBin(K::Add, a, b->a[0]), b->a[1]);
            if (b->k == K::Sub && b->a[1] == a)
                return b->a[0];
            if (a->k == K::Sub && a->a[1] == b)
                return a->a[0];
        }
        break;
    case K::Sub:
        if (a == b)
            return mkConst(0, w);
        if (bc)
            return mkBin(K::Add, a, mkConst(-b->val, w));
        if (a->k == K::Add) {
            if (a->a[1] == b)
                return a->a[0];
            if (a->a[0] == b)
                return a->a[1];
            if (a->a[1]->isConst())
                return mkBin(K::Add, mkBin(K::Sub, a->a[0], b), a->a[1]);
        }
        if (b->k == K::Add && b->a[1]->isConst())
            return mkBin(K::Add, mkBin(K::Sub, a, b->a[0]), mkConst(-b->a[1]->val, w));
        break;
    case K::Mul:
        if (bc) {
            if (b->val == 0)
                return b;
            if (b->val == 1)
                return a;
            if ((b->val & (b->val - 1)) == 0) {
                unsigned n = 0;
                for (u128 t = b->val; t > 1; t >>= 1)
                    n++;
                return mkBin(K::Shl, a, mkConst(n, w));
            }
        }
        break;
    case K::UDiv:
        if (bc && b->val == 1)
            return a;
        if (bc && b->val && (b->val & (b->val - 1)) == 0) {
            unsigned n = 0;
            for (u128 t = b->val; t > 1; t >>= 1)
                n++;
            return mkBin(K::LShr, a, mkConst(n, w));
        }
        break;
    case K::URem:
        if (bc && b->val && (b->val & (b->val - 1)) == 0)
            return mkBin(K::And, a, mkConst(b->val - 1, w));
        break;
    case K::And:
        if (a == b)
            return a;
        if (bc) {
            if (b->val == 0)
                return b;
            if (b->val == maskw(w))
                return a;
            int n = lowMask(b->val);
            if (n > 0)
                return mkZExt(mkExtract(a, 0, unsigned(n)), w);
            if (a->k == K::ZExt && (b->val >> a->a[0]->w) != 0)
                return mkBin(K::And, a, mkConst(b->val & maskw(a->a[0]->w), w));
            if (a->k == K::ZExt)
                return mkZExt(mkBin(K::And, a->a[0], mkConst(b->val, a->a[0]->w)), w);
            if (a->k == K::Concat) {
                unsigned lw = a->a[1]->w;
                return mkConcat(
                    mkBin(K::And, a->a[0], mkConst(b->val >> lw, a->a[0]->w)),
                    mkBin(K::And, a->a[1], mkConst(b->val, lw)));
            }
        }
        if (w == 1) {
            if (a == mkNot(b))
                return mkConst(0, 1);
            // absorption x & (x & y)
            if (b->k == K::And && (b->a[0] == a || b->a[1] == a))
                return b;
            if (a->k == K::And && (a->a[0] == b || a->a[1] == b))
                return a;
        }
        break;
    case K::Or:
        if (a == b)
            return a;
        if (bc) {
            if (b->val == 0)
                return a;
            if (b->val == maskw(w))
                return b;
        }
        if (w == 1 && a == mkNot(b))
            return mkConst(1, 1);
        for (int s = 0; s < 2; s++) {
            ER x = s ? b : a, y = s ? a : b;
            if (x->k == K::Concat && x->a[1]->isConst() && x->a[1]->val == 0) {
                unsigned lw = x->a[1]->w;
                if (y->k == K::ZExt && y->a[0]->w <= lw)
                    return mkConcat(x->a[0], mkZExt(y->a[0], lw));
                if (y->isConst() && (y->val >> lw) == 0)
                    return mkConcat(x->a[0], mkConst(y->val, lw));
                if (y->k == K::ZExt)
                    return mkConcat(mkBin(K::Or, x->a[0], mkExtract(y, lw, w - lw)), mkExtract(y, 0, lw));
                if (y->k == K::Concat)
                    return mkConcat(mkBin(K::Or, x->a[0], mkExtract(y, lw, w - lw)), mkExtract(y, 0, lw));
            }
            if (x->k == K::ZExt && y->isConst() && x->a[0]->w < w) {
                unsigned lw = x->a[0]->w;
                return mkConcat(mkConst(y->val >> lw, w - lw),
                                mkBin(K::Or, x->a[0], mkConst(y->val, lw)));
            }
            if (x->k == K::ZExt && y->k == K::ZExt) {
                unsigned m = std::max(x->a[0]->w, y->a[0]->w);
                if (m < w)
                    return mkZExt(mkBin(K::Or, mkZExt(x->a[0], m), mkZExt(y->a[0], m)), w);
            }
        }
        break;
    case K::Xor:
        if (a == b)
            return mkConst(0, w);
        if (bc && b->val == 0)
            return a;
        if (w == 1 && bc)
            return mkNot(a);
        if (bc && a->k == K::Xor && a->a[1]->isConst())
            return mkBin(K::Xor, a->a[0], mkConst(a->a[1]->val ^ b->val, w));
        if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w)
            return mkZExt(mkBin(K::Xor, a->a[0], b->a[0]), w);
        if (bc && a->k == K::ZExt && (b->val >> a->a[0]->w) == 0)
            return mkZExt(mkBin(K::Xor, a->a[0], mkConst(b->val, a->a[0]->w)), w);
        break;
    case K::Shl:
        if (bc) {
            if (b->val == 0)
                return a;
            if (b->val >= w)
                return mkConst(0, w);
            unsigned n = unsigned(b->val);
            return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
        }
        if (ac && a->val == 0)
            return a;
        break;
    case K::LShr:
        if (bc) {
            if (b->val == 0)
                return a;
            if (b->val >= w)
                return mkConst(0, w);
            unsigned n = unsigned(b->val);
            return mkZExt(mkExtract(a, n, w - n), w);
        }
        if (ac && a->val == 0)
            return a;
        break;
    case K::AShr:
        if (bc) {
            if (b->val == 0)
                return a;
            unsigned n = b->val >= w ? w - 1 : unsigned(b->val);
            if (a->k == K::ZExt)
                return mkBin(K::LShr, a, b);
            return mkSExt(mkExtract(a, n, w - n), w);
        }
        break;
    case K::Eq:
        if (a == b)
            return mkConst(1, 1);
        if (w == 1) {
            if (bc)
                return b->val ? a : mkNot(a);
            return mkNot(mkBin(K::Xor, a, b));
        }
        if (bc) {
            if (a->k == K::ZExt) {
                if (b->val >> a->a[0]->w)
                    return mkConst(0, 1);
                return mkEq(a->a[0], mkConst(b->val, a->a[0]->w));
            }
            if (a->k == K::SExt) {
                ER t = mkConst(b->val, a->a[0]->w);
                if ((u128(sext128(t->val, t->w)) & maskw(w)) != b->val)
                    return mkConst(0, 1);
                return mkEq(a->a[0], t);
            }
            if (a->k == K::Add && a->a[1]->isConst())
                return mkEq(a->a[0], mkConst(b->val - a->a[1]->val, w));
            if (a->k == K::Xor && a->a[1]->isConst())
                return mkEq(a->a[0], mkConst(b->val ^ a->a[1]->val, w));
            if (a->k == K::Concat) {
                unsigned lw = a->a[1]->w;
                return mkAnd1(mkEq(a->a[0], mkConst(b->val >> lw, a->a[0]->w)),
                              mkEq(a->a[1], mkConst(b->val, lw)));
            }
            if (a->k == K::Ite) {
                if (a->a[1]->isConst())
                    return a->a[1]->val == b->val ? mkOr1(a->a[0], mkEq(a->a[2], b))
                                                  : mkAnd1(mkNot(a->a[0]), mkEq(a->a[2], b));
                if (a->a[2]->isConst())
                    return a->a[2]->val == b->val
                               ? mkOr1(mkNot(a->a[0]), mkEq(a->a[1], b))
                               : mkAnd1(a->a[0], mkEq(a->a[1], b));
            }
            if (b->val == 0 && a->k == K::Or)
                return mkAnd1(mkEq(a->a[0], b), mkEq(a->a[1], b));
            if (b->val == 0 && a->k == K::Xor)
                return mkEq(a->a[0], a->a[1]);
            if (b->val == 0 && a->k == K::Sub)
                return mkEq(a->a[0], a->a[1]);
        } else {
            if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w)
                return mkEq(a->a[0], b->a[0]);
            if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w)
                return mkEq(a->a[0], b->a[0]);
            if (a->k == K::Add && b->k == K::Add && a->a[1] == b->a[1])
                return mkEq(a->a[0], b->a[0]);
        }
        break;
    case K::Ult:
        if (a == b)
            return mkConst(0, 1);
        if (bc && b->val == 0)
            return mkConst(0, 1);
        if (bc && b->val == 1)
            return mkEq(a, mkConst(0, w));
        if (ac && a->val == maskw(w))
            return mkConst(0, 1);
        if (ac && a->val == 0)
            return mkNot(mkEq(b, a));
        if (a->k == K::ZExt) {
            unsigned iw = a->a[0]->w;
            if (bc)
                return (b->val >> iw) ? mkConst(1, 1) : mkBin(K::Ult, a->a[0], mkConst(b->val, iw));
            if (b->k == K::ZExt && b->a[0]->w == iw)
                return mkBin(K::Ult, a->a[0], b->a[0]);
        }
        if (b->k == K::ZExt && ac) {
            unsigned iw = b->a[0]->w;
            return (a->val >> iw) ? mkConst(0, 1) : mkBin(K::Ult, mkConst(a->val, iw), b->a[0]);
        }
        break;
    case K::Ule:
        if (a == b)
            return mkConst(1, 1);
        if (bc && b->val == maskw(w))
            return mkConst(1, 1);
        if (ac && a->val == 0)
            return mkConst(1, 1);
        if (bc && b->val == 0)
            return mkEq(a, b);
        if (a->k == K::ZExt) {
            unsigned iw = a->a[0]->w;
            if (bc)
                return (b->val >> iw) ? mkConst(1, 1) : mkBin(K::Ule, a->a[0], mkConst(b->val, iw));
            if (b->k == K::ZExt && b->a[0]->w == iw)
                return mkBin(K::Ule, a->a[0], b->a[0]);
        }
        if (b->k == K::ZExt && ac) {
            unsigned iw = b->a[0]->w;
            return (a->val >> iw) ? mkConst(0, 1) : mkBin(K::Ule, mkConst(a->val, iw), b->a[0]);
        }
        break;
    case K::Slt:
    case K::Sle:
        if (a == b)
            return mkConst(k == K::Sle, 1);
        {
            // zero-extended operands are non-negative
            auto nonneg = [&](ER x) {
                return (x->k == K::ZExt) || (x->isConst() && !((x->val >> (w - 1)) & 1));
            };
            if (nonneg(a) && nonneg(b))
                return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
            if (bc && a->k == K::ZExt)      // b negative
                return mkConst(0, 1);
            if (ac && b->k == K::ZExt)      // a negative
                return mkConst(1, 1);
            if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w)
                return mkBin(k, a->a[0], b->a[0]);
            if (bc && a->k == K::SExt) {
                unsigned iw = a->a[0]->w;
                i128 v = sext128(b->val, w), lo = -(i128(1) << (iw - 1)), hi = (i128(1) << (iw - 1)) - 1;
                if (v > hi)
                    return mkConst(1, 1);
                if (v < lo)
                    return mkConst(0, 1);
                return mkBin(k, a->a[0], mkConst(u128(v), iw));
            }
            if (ac && b->k == K::SExt) {
                unsigned iw = b->a[0]->w;
                i128 v = sext128(a->val, w), lo = -(i128(1) << (iw - 1)), hi = (i128(1) << (iw - 1)) - 1;
                if (v > hi)
                    return mkConst(0, 1);
                if (v < lo)
                    return mkConst(1, 1);
                return mkBin(k, mkConst(u128(v), iw), b->a[0]);
            }
        }
        break;
    default: break;
    }
    return intern(k, rw, 0, 0, a, b);
}

ER mkIte(ER c, ER a, ER b)
{
    if (c->isConst())
        return c->val ? a : b;
    if (a == b)
        return a;
    if (a->w == 1) {
        if (a->isConst() && b->isConst())
            return a->val ? c : mkNot(c);
        if (a->isConst())
            return a->val ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
        if (b->isConst())
            return b->val ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
    }
    if (c->k == K::Xor && c->w == 1 && c->a[1]->isConst())
        return mkIte(c->a[0], b, a);
    if (a->k == K::Ite && a->a[0] == c)
        a = a->a[1];
    if (b->k == K::Ite && b->a[0] == c)
        b = b->a[2];
    if (a == b)
        return a;
    return intern(K::Ite, a->w, 0, 0, c, a, b);
}

ER mkUnF(K k, ER a, unsigned w)
{
    if (a->isConst())
        return mkConst(foldUnF(k, a->val, a->w, w), w);
    if (k == K::FCvt && w == a->w)
        return a;
    return intern(k, w, 0, 0, a);
}

static u32 curStamp = 0;

static u128 evalRec(ER e, const std::vector<u8> &asg)
{
    if (e->k == K::Const)
        return e->val;
    if (e->k == K::Var)
        return e->aux < asg.size() ? asg[e->aux] : 0;
    if (e->stamp == curStamp)
        return e->ev;
    u128 r = 0;
    switch (e->k) {
    case K::Concat: r = (evalRec(e->a[0], asg) << e->a[1]->w) | evalRec(e->a[1], asg); break;
    case K::Extract: r = (evalRec(e->a[0], asg) >> e->aux) & maskw(e->w); break;
    case K::ZExt: r = evalRec(e->a[0], asg); break;
    case K::SExt: r = u128(sext128(evalRec(e->a[0], asg), e->a[0]->w)) & maskw(e->w); break;
    case K::Ite: r = evalRec(e->a[0], asg) ? evalRec(e->a[1], asg) : evalRec(e->a[2], asg); break;
    default:
        if (e->a[1]) {
            bool ok;
            u128 x = evalRec(e->a[0], asg), y = evalRec(e->a[1], asg);
            r = foldBin(e->k, x, y, e->a[0]->w, ok);
            if (!ok) {  // division by zero: SMT-LIB semantics
                unsigned w = e->w;
                if (e->k == K::UDiv)
                    r = maskw(w);
                else if (e->k == K::URem || e->k == K::SRem)
                    r = x;
                else if (e->k == K::SDiv)
                    r = (x >> (w - 1)) & 1 ? 1 : maskw(w);
                else
                    abort();
            }
        } else
            r = foldUnF(e->k, evalRec(e->a[0], asg), e->a[0]->w, e->w);
    }
    e->stamp = curStamp;
    e->ev = r;
    return r;
}

u128 evalExpr(ER e, const std::vector<u8> &asg)
{
    curStamp++;
    return evalRec(e, asg);
}

const Bits256 &truthSet(ER e)
{
    if (e->truth)
        return *e->truth;
    auto *b = new Bits256{{0, 0, 0, 0}};
    u32 v = e->vs->v[0];
    static std::vector<u8> asg;
    if (asg.size() <= v)
        asg.resize(v + 1);
    for (unsigned i = 0; i < 256; i++) {
        asg[v] = u8(i);
        if (evalExpr(e, asg) & 1)
            b->set(i);
    }
    e->truth = b;
    return *b;
}

std::string exprStr(ER e, int depth)
{
    char buf[64];
    static const char *names[] = {"Const", "Var", "Concat", "Extract", "ZExt", "SExt", "Add", "Sub", "Mul", "UDiv", "SDiv", "URem", "SRem", "And", "Or", "Xor", "Shl", "LShr", "AShr", "Eq", "Ult", "Ule", "Slt", "Sle", "Ite", "FAdd", "FSub", "FMul", "FDiv", "FRem", "FOeq", "FOlt", "FOle", "FUno", "FCvt", "FToUI", "FToSI", "UIToF", "SIToF", "FSqrt", "FFloor", "FCeil", "FTrunc", "FRint", "FRoundAway"};
    if (e->k == K::Const) {
        snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)(e->val));
        return buf;
    }
    if (e->k == K::Var) {
        snprintf(buf, sizeof buf, "v%u", e->aux);
        return buf;
    }
    if (depth == 0)
        return "..";
    std::string s = std::string("(") + names[int(e->k)] + ":" + std::to_string(e->w);
    if (e->k == K::Extract)
        s += "@" + std::to_string(e->aux);
    for (auto *x : e->a)
        if (x)
            s += " " + exprStr(x, depth - 1);
    return s + ")";
}
