// Lowers LLVM IR functions to the engine's instruction form.
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include "exec.h"

using namespace llvm;

void Engine::fatal(const std::string &m)
{
    fprintf(stderr, "ENGINE-FATAL: %s\n", m.c_str());
    exit(4);
}
void Engine::unsup(const std::string &m) { throw PathEnd{PathEnd::Unsupported, m}; }

constexpr u32 FUNC_ID = 0x20000000;

void Engine::load()
{
    SMDiagnostic err;
    mod = parseIRFile(opt.bc, err, lctx);
    if (!mod)
        fatal("cannot load " + opt.bc + ": " + err.getMessage().str());
    dl = &mod->getDataLayout();
}

Func *Engine::getFunc(llvm::Function *f)
{
    auto it = fmap.find(f);
    if (it != fmap.end())
        return it->second;
    auto *x = new Func;
    x->f = f;
    x->name = f->getName().str();
    x->decl = f->isDeclaration();
    x->bi = f->isIntrinsic() ? nullptr : builtinFor(x->name);
    fmap[f] = x;
    funcs.push_back(x);
    return x;
}

void Engine::flatten(Type *t, u64 off, std::vector<Leafty> &out)
{
    switch (t->getTypeID()) {
    case Type::IntegerTyID: out.push_back({u32(off), u16(t->getIntegerBitWidth()), false}); break;
    case Type::PointerTyID: out.push_back({u32(off), 64, true}); break;
    case Type::HalfTyID:
    case Type::BFloatTyID: out.push_back({u32(off), 16, false}); break;
    case Type::FloatTyID: out.push_back({u32(off), 32, false}); break;
    case Type::DoubleTyID: out.push_back({u32(off), 64, false}); break;
    case Type::X86_FP80TyID: out.push_back({u32(off), 80, false}); break;
    case Type::FP128TyID: out.push_back({u32(off), 128, false}); break;
    case Type::StructTyID: {
        auto *st = cast<StructType>(t);
        auto *sl = dl->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
        break;
    }
    case Type::ArrayTyID: {
        auto *et = t->getArrayElementType();
        u64 es = dl->getTypeAllocSize(et);
        for (u64 i = 0; i < t->getArrayNumElements(); i++)
            flatten(et, off + i * es, out);
        break;
    }
    case Type::FixedVectorTyID: {
        auto *vt = cast<FixedVectorType>(t);
        u64 bits = dl->getTypeSizeInBits(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++)
            flatten(vt->getElementType(), off + i * bits / 8, out);
        break;
    }
    case Type::VoidTyID:
    case Type::LabelTyID:
    case Type::MetadataTyID:
    case Type::TokenTyID: break;
    default: fatal("unsupported type");
    }
}

u32 Engine::slots(Type *t)
{
    std::vector<Leafty> l;
    flatten(t, 0, l);
    return u32(l.size());
}

static u16 bitsOf(const DataLayout *dl, Type *t)
{
    if (auto *vt = dyn_cast<FixedVectorType>(t))
        t = vt->getElementType();
    if (t->isPointerTy())
        return 64;
    if (t->isX86_FP80Ty())
        return 80;
    if (t->isSized() && !t->isAggregateType())
        return u16(dl->getTypeSizeInBits(t));
    return 0;
}

static Val apVal(const APInt &v)
{
    if (v.getBitWidth() <= 64)
        return Val(v.getZExtValue());
    u128 x = v.extractBitsAsZExtValue(64, 0);
    unsigned hb = v.getBitWidth() - 64;
    if (hb > 64)
        throw PathEnd{PathEnd::Unsupported, "wide integer constant"};
    x |= u128(v.extractBitsAsZExtValue(hb, 64)) << 64;
    Val r;
    r.e = mkConst(x, v.getBitWidth());
    return r;
}

u64 Engine::constAddr(const Constant *c)
{
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end())
            fatal("no address for global " + g->getName().str());
        return it->second;
    }
    if (auto *f = dyn_cast<Function>(c)) {
        Func *x = getFunc(const_cast<Function *>(f));
        static std::unordered_map<Func *, u64> fa;
        auto it = fa.find(x);
        if (it != fa.end())
            return it->second;
        u32 idx = 0;
        for (; idx < funcs.size(); idx++)
            if (funcs[idx] == x)
                break;
        return fa[x] = baseOf(FUNC_ID + idx);
    }
    if (auto *a = dyn_cast<GlobalAlias>(c))
        return constAddr(a->getAliasee());
    std::vector<Val> v;
    constVals(c, v);
    return v[0].c;
}

void Engine::constVals(const Constant *c, std::vector<Val> &out)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        out.push_back(apVal(ci->getValue()));
    } else if (auto *cf = dyn_cast<ConstantFP>(c)) {
        out.push_back(apVal(cf->getValueAPF().bitcastToAPInt()));
    } else if (isa<ConstantPointerNull>(c)) {
        out.push_back(Val(0));
    } else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<Leafty> l;
        flatten(c->getType(), 0, l);
        for (auto &x : l) {
            Val v(0);
            if (x.bits > 64)
                v.e = mkConst(0, x.bits);
            out.push_back(v);
        }
    } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++)
            constVals(cd->getElementAsConstant(i), out);
    } else if (isa<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); i++)
            constVals(cast<Constant>(c->getOperand(i)), out);
    } else if (isa<GlobalValue>(c)) {
        out.push_back(Val(constAddr(c)));
    } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        std::vector<Val> a, b;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto *gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*dl, off))
                fatal("non-constant constant GEP");
            constVals(ce->getOperand(0), a);
            out.push_back(Val(a[0].c + off.getZExtValue()));
            break;
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast:
            constVals(ce->getOperand(0), a);
            out.push_back(Val(a[0].c & mask64(bitsOf(dl, ce->getType()))));
            break;
        case Instruction::Trunc:
        case Instruction::ZExt:
            constVals(ce->getOperand(0), a);
            out.push_back(Val(a[0].c & mask64(bitsOf(dl, ce->getType()))));
            break;
        case Instruction::Sub:
        case Instruction::Add:
        case Instruction::Mul:
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor:
        case Instruction::Shl: {
            constVals(ce->getOperand(0), a);
            constVals(ce->getOperand(1), b);
            K k = ce->getOpcode() == Instruction::Sub   ? K::Sub
                  : ce->getOpcode() == Instruction::Add ? K::Add
                  : ce->getOpcode() == Instruction::Mul ? K::Mul
                  : ce->getOpcode() == Instruction::And ? K::And
                  : ce->getOpcode() == Instruction::Or  ? K::Or
                  : ce->getOpcode() == Instruction::Xor ? K::Xor
                                                        : K::Shl;
            bool ok;
            out.push_back(Val(u64(foldBin(k, a[0].c, b[0].c, bitsOf(dl, ce->getType()), ok))));
            break;
        }
        case Instruction::ICmp: {
            constVals(ce->getOperand(0), a);
            constVals(ce->getOperand(1), b);
            bool r;
            u64 x = a[0].c, y = b[0].c;
            switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            default: fatal("constant icmp");
            }
            out.push_back(Val(r));
            break;
        }
        default: fatal("unsupported constant expression " + std::string(ce->getOpcodeName()));
        }
    } else {
        fatal("unsupported constant");
    }
}

void Engine::writeInit(Obj *o, u64 off, const Constant *c)
{
    auto put = [&](u64 at, const void *p, u64 n) {
        auto *b = static_cast<const u8 *>(p);
        for (u64 i = 0; i < n; i++) {
            auto *pg = o->wr((at + i) / PG);
            pg->d[(at + i) % PG] = b[i];
            pg->init |= u64(1) << ((at + i) % PG);
        }
    };
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
        return;     // objects are zero-filled by default
    } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        auto s = cd->getRawDataValues();
        put(off, s.data(), s.size());
    } else if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = dl->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++)
            writeInit(o, off + sl->getElementOffset(i), cs->getOperand(i));
    } else if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        Type *et = isa<ConstantArray>(c) ? c->getType()->getArrayElementType()
                                         : cast<FixedVectorType>(c->getType())->getElementType();
        u64 es = dl->getTypeAllocSize(et);
        for (unsigned i = 0; i < c->getNumOperands(); i++)
            writeInit(o, off + i * es, cast<Constant>(c->getOperand(i)));
    } else {
        std::vector<Val> v;
        constVals(c, v);
        if (v.size() != 1)
            fatal("writeInit");
        u64 n = dl->getTypeStoreSize(c->getType());
        if (v[0].e) {
            u128 x = v[0].e->val;
            put(off, &x, n);
        } else
            put(off, &v[0].c, n);
    }
}

void Engine::initGlobals(State &s)
{
    // addresses first
    for (auto &g : mod->globals()) {
        u64 sz = g.getValueType()->isSized() ? u64(dl->getTypeAllocSize(g.getValueType())) : 0;
        if (g.isDeclaration() && sz < 128)
            sz = 128;
        u32 id = alloc(s, sz, g.isConstant() ? OK::Const : OK::Global, strdup(g.getName().str().c_str()),
                       Fill::Zero);
        gaddr[&g] = baseOf(id);
        addrG[baseOf(id)] = &g;
    }
    for (auto &f : *mod)
        if (!f.isIntrinsic())
            getFunc(&f);
    for (auto &g : mod->globals())
        if (g.hasInitializer())
            writeInit(s.mem.own(idOf(gaddr[&g])), 0, g.getInitializer());
        else if (g.getName().startswith("_ZTI")) {
            // What describes a type of another library: its name is what
            // tells types apart.
            auto *n = ConstantDataArray::getString(mod->getContext(), g.getName().substr(4));
            u32 t = alloc(s, dl->getTypeAllocSize(n->getType()), OK::Const, "type name", Fill::Zero);
            writeInit(s.mem.own(t), 0, n);
            writeInit(s.mem.own(idOf(gaddr[&g])), 8,
                      ConstantInt::get(Type::getInt64Ty(mod->getContext()), baseOf(t)));
        }
    // constructors
    if (auto *gc = mod->getNamedGlobal("llvm.global_ctors")) {
        if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Func *>> v;
            for (unsigned i = 0; i < arr->getNumOperands(); i++) {
                auto *cs = cast<ConstantStruct>(arr->getOperand(i));
                auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
                if (f)
                    v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), getFunc(f)});
            }
            std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p : v)
                entries.push_back(p.second);
        }
    }
    auto *mf = mod->getFunction(opt.entry);
    if (!mf || mf->isDeclaration())
        fatal("no entry " + opt.entry);
    entries.push_back(getFunc(mf));
}

void Engine::compile(Func &F)
{
    F.compiled = true;
    llvm::Function &f = *F.f;
    std::unordered_map<const Value *, i32> slot;
    std::unordered_map<const Constant *, i32> cidx;
    std::unordered_map<const BasicBlock *, u32> bbpc;
    u32 ns = 0;
    for (auto &a : f.args()) {
        slot[&a] = i32(ns);
        ns += slots(a.getType());
    }
    F.nargs = ns;
    for (auto &bb : f)
        for (auto &in : bb)
            if (!in.getType()->isVoidTy()) {
                slot[&in] = i32(ns);
                ns += std::max(1u, slots(in.getType()));
            }
    F.nslots = ns;

    auto operand = [&](const Value *v) -> i32 {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cidx.find(c);
            if (it != cidx.end())
                return it->second;
            i32 at = i32(F.consts.size());
            constVals(c, F.consts);
            if (F.consts.size() == size_t(at))
                F.consts.push_back(Val(0));
            return cidx[c] = ~at;
        }
        auto it = slot.find(v);
        if (it == slot.end())
            return ~0;  // metadata, labels: unused
        return it->second;
    };

    struct Fix {
        u32 edge;
        const BasicBlock *from, *to;
    };
    std::vector<Fix> fixes;
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        u32 id = u32(F.edges.size());
        F.edges.push_back({});
        fixes.push_back({id, from, to});
        return id;
    };
    F.consts.push_back(Val(0));
    struct LpFix {
        u32 call;
        const BasicBlock *lp;
    };
    std::vector<LpFix> lpfix;
    std::unordered_map<const BasicBlock *, LPad *> lpads;

    for (auto &bb : f) {
        bbpc[&bb] = u32(F.code.size());
        for (auto &in : bb) {
            if (isa<PHINode>(in))
                continue;
            Inst I;
            I.src = &in;
            if (!in.getType()->isVoidTy())
                I.dst = slot[&in];
            Type *ty = in.getType();
            if (auto *vt = dyn_cast<FixedVectorType>(ty))
                I.n = u16(vt->getNumElements());
            I.w = bitsOf(dl, ty);
            auto bin = [&](K k) {
                I.op = Op::Bin;
                I.k = k;
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
            };
            auto un = [&](Op o) {
                I.op = o;
                I.a = operand(in.getOperand(0));
                I.w2 = bitsOf(dl, in.getOperand(0)->getType());
            };
            switch (in.getOpcode()) {
            case Instruction::Add: bin(K::Add); break;
            case Instruction::Sub: bin(K::Sub); break;
            case Instruction::Mul: bin(K::Mul); break;
            case Instruction::UDiv: bin(K::UDiv); break;
            case Instruction::SDiv: bin(K::SDiv); break;
            case Instruction::URem: bin(K::URem); break;
            case Instruction::SRem: bin(K::SRem); break;
            case Instruction::And: bin(K::And); break;
            case Instruction::Or: bin(K::Or); break;
            case Instruction::Xor: bin(K::Xor); break;
            case Instruction::Shl: bin(K::Shl); break;
            case Instruction::LShr: bin(K::LShr); break;
            case Instruction::AShr: bin(K::AShr); break;
            case Instruction::FAdd: bin(K::FAdd); break;
            case Instruction::FSub: bin(K::FSub); break;
            case Instruction::FMul: bin(K::FMul); break;
            case Instruction::FDiv: bin(K::FDiv); break;
            case Instruction::FRem: bin(K::FRem); break;
            case Instruction::FNeg: un(Op::FNeg); break;
            case Instruction::ICmp: {
                auto p = cast<ICmpInst>(in).getPredicate();
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
                I.w = bitsOf(dl, in.getOperand(0)->getType());
                I.op = Op::Bin;
                switch (p) {
                case CmpInst::ICMP_EQ: I.k = K::Eq; break;
                case CmpInst::ICMP_NE: I.k = K::Eq; I.op = Op::ICmpNe; break;
                case CmpInst::ICMP_ULT: I.k = K::Ult; break;
                case CmpInst::ICMP_ULE: I.k = K::Ule; break;
                case CmpInst::ICMP_SLT: I.k = K::Slt; break;
                case CmpInst::ICMP_SLE: I.k = K::Sle; break;
                case CmpInst::ICMP_UGT: I.k = K::Ult; std::swap(I.a, I.b); break;
                case CmpInst::ICMP_UGE: I.k = K::Ule; std::swap(I.a, I.b); break;
                case CmpInst::ICMP_SGT: I.k = K::Slt; std::swap(I.a, I.b); break;
                case CmpInst::ICMP_SGE: I.k = K::Sle; std::swap(I.a, I.b); break;
                default: I.op = Op::Unsupported;
                }
                break;
            }
            case Instruction::FCmp:
                I.op = Op::FCmp;
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
                I.w = bitsOf(dl, in.getOperand(0)->getType());
                I.x = cast<FCmpInst>(in).getPredicate();
                break;
            case Instruction::Select: {
                I.op = Op::Select;
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
                I.c = operand(in.getOperand(2));
                I.x = isa<FixedVectorType>(in.getOperand(0)->getType());
                I.n = u16(slots(ty));
                I.y = ty->isPointerTy() || ty->isAggregateType();
                break;
            }
            case Instruction::ZExt: un(Op::ZExt); break;
            case Instruction::SExt: un(Op::SExt); break;
            case Instruction::Trunc: un(Op::Trunc); break;
            case Instruction::PtrToInt: un(I.w < 64 ? Op::Trunc : I.w > 64 ? Op::ZExt : Op::Copy); break;
            case Instruction::IntToPtr: {
                u16 sw = bitsOf(dl, in.getOperand(0)->getType());
                un(sw < 64 ? Op::ZExt : sw > 64 ? Op::Trunc : Op::Copy);
                break;
            }
            case Instruction::BitCast: {
                un(Op::Copy);
                u32 sa = slots(in.getOperand(0)->getType()), sb = slots(ty);
                if (sa != sb) {
                    I.op = Op::Unsupported;
                    // vector <-> wide integer casts
                    I.op = Op::Copy;
                    I.x = 1;
                    I.y = sa;
                    I.n = u16(sb);
                }
                break;
            }
            case Instruction::AddrSpaceCast: un(Op::Copy); break;
            case Instruction::Freeze: un(Op::Copy); I.n = u16(slots(ty)); break;
            case Instruction::FPExt:
            case Instruction::FPTrunc: un(Op::FUn); I.k = K::FCvt; break;
            case Instruction::FPToUI: un(Op::FUn); I.k = K::FToUI; break;
            case Instruction::FPToSI: un(Op::FUn); I.k = K::FToSI; break;
            case Instruction::UIToFP: un(Op::FUn); I.k = K::UIToF; break;
            case Instruction::SIToFP: un(Op::FUn); I.k = K::SIToF; break;
            case Instruction::GetElementPtr: {
                auto &gep = cast<GetElementPtrInst>(in);
                if (gep.getType()->isVectorTy()) {
                    I.op = Op::Unsupported;
                    break;
                }
                I.op = Op::GEP;
                I.a = operand(gep.getPointerOperand());
                u64 off = 0;
                std::vector<GepIdx> idx;
                for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (auto *st = it.getStructTypeOrNull()) {
                        off += dl->getStructLayout(st)->getElementOffset(unsigned(cast<ConstantInt>(ix)->getZExtValue()));
                        continue;
                    }
                    u64 es = dl->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) {
                        off += u64(ci->getSExtValue()) * es;
                        continue;
                    }
                    idx.push_back({operand(ix), bitsOf(dl, ix->getType()), es});
                }
                I.imm = off;
                I.x = u32(F.geps.size());
                I.y = u32(idx.size());
                F.geps.push_back(std::move(idx));
                break;
            }
            case Instruction::Load:
            case Instruction::Store: {
                bool isl = in.getOpcode() == Instruction::Load;
                I.op = isl ? Op::Load : Op::Store;
                Type *t = isl ? ty : in.getOperand(0)->getType();
                I.a = operand(in.getOperand(isl ? 0 : 1));
                if (!isl)
                    I.b = operand(in.getOperand(0));
                std::vector<Leafty> l;
                flatten(t, 0, l);
                I.n = u16(l.size());
                I.w = l.size() == 1 ? l[0].bits : 0;
                I.imm = dl->getTypeStoreSize(t);
                I.x = u32(F.leaves.size());
                F.leaves.push_back(std::move(l));
                break;
            }
            case Instruction::Alloca: {
                auto &al = cast<AllocaInst>(in);
                I.op = Op::Alloca;
                I.imm = dl->getTypeAllocSize(al.getAllocatedType());
                I.a = operand(al.getArraySize());
                I.w2 = bitsOf(dl, al.getArraySize()->getType());
                break;
            }
            case Instruction::ExtractElement:
                I.op = Op::ExtractElt;
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
                I.w2 = bitsOf(dl, in.getOperand(1)->getType());
                I.n = u16(slots(in.getOperand(0)->getType()));
                break;
            case Instruction::InsertElement:
                I.op = Op::InsertElt;
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
                I.c = operand(in.getOperand(2));
                I.w2 = bitsOf(dl, in.getOperand(2)->getType());
                break;
            case Instruction::ShuffleVector: {
                auto &sv = cast<ShuffleVectorInst>(in);
                I.op = Op::Shuffle;
                I.a = operand(in.getOperand(0));
                I.b = operand(in.getOperand(1));
                I.y = slots(in.getOperand(0)->getType());
                I.x = u32(F.masks.size());
                F.masks.push_back({sv.getShuffleMask().begin(), sv.getShuffleMask().end()});
                break;
            }
            case Instruction::ExtractValue:
            case Instruction::InsertValue: {
                bool ex = in.getOpcode() == Instruction::ExtractValue;
                Type *t = in.getOperand(0)->getType();
                auto ids = ex ? cast<ExtractValueInst>(in).getIndices() : cast<InsertValueInst>(in).getIndices();
                u32 at = 0;
                for (unsigned id : ids) {
                    if (auto *st = dyn_cast<StructType>(t)) {
                        for (unsigned i = 0; i < id; i++)
                            at += slots(st->getElementType(i));
                        t = st->getElementType(id);
                    } else {
                        t = t->getArrayElementType();
                        at += id * slots(t);
                    }
                }
                I.a = operand(in.getOperand(0));
                if (ex) {
                    I.op = Op::Copy;
                    I.a = I.a >= 0 ? I.a + i32(at) : I.a - i32(at);
                    I.n = u16(slots(t));
                } else {
                    I.op = Op::InsertV;
                    I.b = operand(in.getOperand(1));
                    I.n = u16(slots(ty));
                    I.x = at;
                    I.y = slots(t);
                }
                break;
            }
            case Instruction::Br: {
                auto &br = cast<BranchInst>(in);
                if (br.isConditional()) {
                    I.op = Op::CondBr;
                    I.a = operand(br.getCondition());
                    I.x = edge(&bb, br.getSuccessor(0));
                    I.y = edge(&bb, br.getSuccessor(1));
                } else {
                    I.op = Op::Br;
                    I.x = edge(&bb, br.getSuccessor(0));
                }
                break;
            }
            case Instruction::Switch: {
                auto &sw = cast<SwitchInst>(in);
                I.op = Op::Switch;
                I.a = operand(sw.getCondition());
                I.w = bitsOf(dl, sw.getCondition()->getType());
                SwitchInfo si;
                si.def = edge(&bb, sw.getDefaultDest());
                for (auto &c : sw.cases())
                    si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())});
                I.x = u32(F.switches.size());
                F.switches.push_back(std::move(si));
                break;
            }
            case Instruction::Ret:
                I.op = Op::Ret;
                I.n = 0;
                if (in.getNumOperands()) {
                    I.a = operand(in.getOperand(0));
                    I.n = u16(slots(in.getOperand(0)->getType()));
                }
                break;
            case Instruction::Unreachable: I.op = Op::Unreachable; break;
            case Instruction::Resume:
                I.op = Op::Resume;
                I.a = operand(in.getOperand(0));
                break;
            case Instruction::LandingPad: I.op = Op::Nop; break;
            case Instruction::Fence: I.op = Op::Nop; break;
            case Instruction::AtomicRMW: {
                auto &rm = cast<AtomicRMWInst>(in);
                I.op = Op::ARMW;
                I.a = operand(rm.getPointerOperand());
                I.b = operand(rm.getValOperand());
                I.x = rm.getOperation();
                break;
            }
            case Instruction::AtomicCmpXchg: {
                auto &cx = cast<AtomicCmpXchgInst>(in);
                I.op = Op::CmpXchg;
                I.a = operand(cx.getPointerOperand());
                I.b = operand(cx.getCompareOperand());
                I.c = operand(cx.getNewValOperand());
                I.w = bitsOf(dl, cx.getCompareOperand()->getType());
                break;
            }
            case Instruction::Call:
            case Instruction::Invoke: {
                auto &cb = cast<CallBase>(in);
                I.op = Op::Call;
                CallInfo ci;
                ci.cb = &cb;
                auto *cv = cb.getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv))
                    cv = ga->getAliaseeObject();
                if (auto *cf = dyn_cast<llvm::Function>(cv)) {
                    ci.name = cf->getName().str();
                    if (cf->isIntrinsic())
                        ci.intrin = int(cf->getIntrinsicID());
                    else {
                        ci.callee = getFunc(cf);
                        ci.bi = ci.callee->bi;
                    }
                } else if (isa<InlineAsm>(cv)) {
                    ci.name = "<inline asm>";
                    auto as = cast<InlineAsm>(cv)->getAsmString();
                    if (as.empty()) {   // compiler barrier
                        I.op = Op::Nop;
                        F.code.push_back(I);
                        continue;
                    }
                } else {
                    ci.direct = false;
                    ci.calleeOp = operand(cb.getCalledOperand());
                }
                for (unsigned i = 0; i < cb.arg_size(); i++) {
                    CallArg a;
                    auto *av = cb.getArgOperand(i);
                    a.op = av->getType()->isMetadataTy() ? ~0 : operand(av);
                    a.slots = u16(slots(av->getType()));
                    a.bits = bitsOf(dl, av->getType());
                    a.byval = 0;
                    if (cb.isByValArgument(i))
                        a.byval = u32(dl->getTypeAllocSize(cb.getParamByValType(i)));
                    ci.args.push_back(a);
                }
                ci.retSlots = slots(cb.getType());
                ci.retBits = bitsOf(dl, cb.getType());
                if (auto *iv = dyn_cast<InvokeInst>(&in)) {
                    ci.invoke = true;
                    ci.normalEdge = edge(&bb, iv->getNormalDest());
                    ci.unwindEdge = edge(&bb, iv->getUnwindDest());
                    lpfix.push_back({u32(F.calls.size()), iv->getUnwindDest()});
                }
                I.x = u32(F.calls.size());
                F.calls.push_back(std::move(ci));
                break;
            }
            default: I.op = Op::Unsupported;
            }
            F.code.push_back(I);
        }
    }
    for (auto &fx : fixes) {
        Edge &e = F.edges[fx.edge];
        e.pc = bbpc[fx.to];
        for (auto &phi : fx.to->phis()) {
            auto *v = phi.getIncomingValueForBlock(fx.from);
            u32 n = std::max(1u, slots(phi.getType()));
            i32 src = operand(v), dst = slot[&phi];
            for (u32 i = 0; i < n; i++)
                e.moves.push_back({dst + i32(i), src >= 0 ? src + i32(i) : src - i32(i)});
        }
    }
    for (auto &lf : lpfix) {
        auto *&lp = lpads[lf.lp];
        if (!lp) {
            lp = new LPad;
            auto *li = lf.lp->getLandingPadInst();
            lp->dst = slot[li];
            lp->pc = bbpc[lf.lp];
            lp->cleanup = li->isCleanup();
            for (unsigned i = 0; i < li->getNumClauses(); i++) {
                LPClause c{};
                c.filter = li->isFilter(i);
                if (!c.filter) {
                    auto *cl = li->getClause(i)->stripPointerCasts();
                    c.all = isa<ConstantPointerNull>(cl);
                    if (!c.all)
                        c.ti = constAddr(cl);
                }
                lp->clauses.push_back(c);
            }
        }
        F.calls[lf.call].lpad = lp;
    }
}
