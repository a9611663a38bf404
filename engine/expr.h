// Hash-consed bit-vector expressions over 8-bit symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : u8 {
    Const, Var, Concat, Extract, ZExt, SExt,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite,
    // floating point; operands and results are IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FRem, FOeq, FOlt, FOle, FUno,
    FCvt,               // float <-> double, by widths
    FToUI, FToSI, UIToF, SIToF,
    FSqrt, FFloor, FCeil, FTrunc, FRint, FRoundAway
};

struct VarSet {
    std::vector<u32> v;
    u32 id;
};

struct Bits256 {
    u64 w[4];
    bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void set(unsigned i) { w[i >> 6] |= u64(1) << (i & 63); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    int first() const
    {
        for (int k = 0; k < 4; k++)
            if (w[k])
                return k * 64 + __builtin_ctzll(w[k]);
        return -1;
    }
    int count() const
    {
        int n = 0;
        for (int k = 0; k < 4; k++)
            n += __builtin_popcountll(w[k]);
        return n;
    }
    Bits256 operator&(const Bits256 &o) const
    {
        return {{w[0] & o.w[0], w[1] & o.w[1], w[2] & o.w[2], w[3] & o.w[3]}};
    }
    Bits256 operator~() const { return {{~w[0], ~w[1], ~w[2], ~w[3]}}; }
    static Bits256 full() { return {{~u64(0), ~u64(0), ~u64(0), ~u64(0)}}; }
};

struct Expr {
    K k;
    bool fp;        // contains floating point
    u16 w;
    u32 id;
    u32 aux;        // Extract offset, Var index
    u128 val;       // Const
    const Expr *a[3];
    const VarSet *vs;
    mutable u32 stamp = 0;
    mutable u128 ev = 0;
    mutable Bits256 *truth = nullptr;
    mutable void *z3 = nullptr;
    mutable u32 z3gen = 0;

    bool isConst() const { return k == K::Const; }
};
typedef const Expr *ER;

inline u128 maskw(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~u64(0) : ((u64(1) << w) - 1); }
inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? i64(v) : i64(v << (64 - w)) >> (64 - w); }
inline i128 sext128(u128 v, unsigned w) { return w >= 128 ? i128(v) : i128(v << (128 - w)) >> (128 - w); }

ER mkConst(u128 v, unsigned w);
ER mkVar(u32 idx);
ER mkExtract(ER e, unsigned off, unsigned w);
ER mkConcat(ER hi, ER lo);
ER mkZExt(ER e, unsigned w);
ER mkSExt(ER e, unsigned w);
ER mkBin(K k, ER a, ER b);
ER mkIte(ER c, ER a, ER b);
ER mkNot(ER a);                 // width 1
ER mkUnF(K k, ER a, unsigned w);
inline ER mkEq(ER a, ER b) { return mkBin(K::Eq, a, b); }
inline ER mkAnd1(ER a, ER b) { return mkBin(K::And, a, b); }
inline ER mkOr1(ER a, ER b) { return mkBin(K::Or, a, b); }

// Evaluates under an assignment of every variable.
u128 evalExpr(ER e, const std::vector<u8> &asg);
// The set of values of the single variable of a width-1 expression that make it true.
const Bits256 &truthSet(ER e);
u128 foldBin(K k, u128 a, u128 b, unsigned w, bool &ok);
u128 foldUnF(K k, u128 a, unsigned aw, unsigned w);
const VarSet *emptyVarSet();
std::string exprStr(ER e, int depth = 6);
u64 numExprs();
