#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

#include <map>
#include <set>
#include <unordered_set>

#include "memory.h"
#include "solver.h"

enum class Op : u8 {
    Nop, Br, CondBr, Switch, Ret, Unreachable, Resume, Call, Bin, ICmpNe, ICmpSwap, FCmp, Select,
    ZExt, SExt, Trunc, Copy, FUn, FNeg, GEP, Load, Store, Alloca, ExtractElt, InsertElt, Shuffle,
    InsertV, ARMW, CmpXchg, Unsupported
};

struct Leafty {
    u32 off;    // byte offset
    u16 bits;
    bool ptr;
};

struct Edge {
    u32 pc;
    std::vector<std::pair<i32, i32>> moves;  // dst, src operand (per slot)
};

struct GepIdx {
    i32 op;
    u16 bits;
    u64 scale;
};

struct LPClause {
    bool filter;
    bool all;       // catch (...)
    u64 ti;
};

struct LPad {
    u32 pc;
    i32 dst;
    bool cleanup;
    std::vector<LPClause> clauses;
};

struct Func;
class Engine;
struct State;
typedef bool (*Builtin)(Engine &, State &, const struct Inst &, const struct CallInfo &);

struct CallArg {
    i32 op;
    u16 slots;
    u16 bits;
    u32 byval;  // byte size, 0 if not byval
};

struct CallInfo {
    Func *callee = nullptr;     // direct
    i32 calleeOp = 0;           // indirect
    bool direct = true;
    Builtin bi = nullptr;
    int intrin = 0;
    std::vector<CallArg> args;
    u32 retSlots = 0;
    u16 retBits = 0;
    bool invoke = false;
    u32 normalEdge = 0, unwindEdge = 0;
    LPad *lpad = nullptr;
    std::string name;
    const llvm::CallBase *cb = nullptr;
};

struct SwitchInfo {
    std::vector<std::pair<u64, u32>> cases;     // value, edge
    u32 def;
};

struct Inst {
    Op op = Op::Nop;
    K k = K::Add;
    u16 n = 1;      // lanes / slots
    u16 w = 0;
    u16 w2 = 0;
    i32 dst = 0, a = 0, b = 0, c = 0;
    u32 x = 0;      // index into side tables
    u32 y = 0;
    u64 imm = 0;
    const llvm::Instruction *src = nullptr;
};

struct Func {
    llvm::Function *f = nullptr;
    bool compiled = false;
    bool decl = false;
    Builtin bi = nullptr;
    std::string name;
    u32 nslots = 0;
    u32 nargs = 0;
    std::vector<Inst> code;
    std::vector<Val> consts;
    std::vector<Edge> edges;
    std::vector<SwitchInfo> switches;
    std::vector<CallInfo> calls;
    std::vector<std::vector<Leafty>> leaves;
    std::vector<std::vector<GepIdx>> geps;
    std::vector<std::vector<int>> masks;
    std::vector<LPad *> lpads;
    u64 execs = 0;
};

struct Frame {
    Func *f;
    u32 pc = 0;
    std::vector<Val> r;
    std::vector<u32> allocas;
    u64 freeExc = 0;
    bool discardRet = false;    // return does not resume a call instruction
};

struct ExcInfo {
    u64 ti = 0, dtor = 0;
    i32 handlers = 0, refs = 0;
    u64 primary = 0;
    u64 adjusted = 0;
};

struct Thread {
    std::vector<Frame> st;
    std::vector<u64> caught;
    u64 awaitAddr = 0;
    u64 awaitVal = 0;
    bool waiting = false;
    bool done = false;
};

struct Input {
    std::string name;
    std::vector<u32> vars;
};

struct State {
    ObjTable mem;
    u32 nextId;
    std::vector<Thread> th;
    u32 cur = 0;
    u32 preempts = 0;
    std::map<u64, ExcInfo> exc;
    std::vector<ER> cons;
    std::vector<const Bits256 *> dom;  // per var; null = full
    std::vector<bool> multi;
    std::vector<u8> asg;
    u32 nvars = 0;
    std::vector<Input> inputs;
    std::vector<std::pair<u32, ER>> trace;  // not copied often
    std::vector<Val> traceVals;
    std::vector<u16> traceW;
    u32 todo = 0;   // index in the list of entry functions
    u64 steps = 0;
    u64 depth = 0;
    i64 liveHeap = 0;
    i64 liveBytes = 0;
    std::map<u32, u32> siteForks;   // concretization budget per site

    Thread &T() { return th[cur]; }
    Frame &F() { return th[cur].st.back(); }
};

struct PathEnd {
    enum Kind { Done, Infeasible, Error, Unsupported, Limit } kind;
    std::string msg;
};

struct Options {
    std::string bc, out, entry = "mlse_main";
    double timeLimit = 600;
    int jobs = 1;
    u64 maxSteps = 200000000;
    int maxViol = 3;
    int preemptBound = -1;
    int samples = 20;
    bool stopAtFirst = false;
    bool crossCheck = false;
    bool verbose = false;
    u32 maxForkPerSite = 5000;
    std::map<std::string, i64> params;
};

struct Shared;

class Engine {
public:
    Options opt;
    llvm::LLVMContext lctx;
    std::unique_ptr<llvm::Module> mod;
    const llvm::DataLayout *dl = nullptr;
    std::vector<Func *> funcs;
    std::unordered_map<const llvm::Function *, Func *> fmap;
    std::unordered_map<const llvm::GlobalVariable *, u64> gaddr;
    std::unordered_map<u64, const llvm::GlobalVariable *> addrG;
    std::unordered_map<u64, u32> typeIds;
    std::vector<u64> typeIdList;
    std::vector<Func *> entries;    // global ctors, then the harness
    std::vector<std::unique_ptr<State>> work;
    State *S = nullptr;

    // statistics
    u64 nPaths = 0, nInfeasible = 0, nError = 0, nUnsupported = 0, nLimit = 0, maxPath = 0, nForks = 0;
    u64 nSteps = 0, nAsserts = 0, nAssertSym = 0, nAssertConst = 0, nAssumes = 0;
    std::map<std::string, u64> reach, unsupported;
    std::map<std::string, int> violCount;
    u64 nSamples = 0;
    bool timedOut = false;
    double deadline = 0;
    std::unordered_map<u64, u32> badAccess;
    FILE *outf = nullptr;
    Shared *sh = nullptr;

    void load();
    void initGlobals(State &s);
    void run();
    void finish();

    // compile
    Func *getFunc(llvm::Function *f);
    void compile(Func &f);
    void flatten(llvm::Type *t, u64 off, std::vector<Leafty> &out);
    u32 slots(llvm::Type *t);
    void constVals(const llvm::Constant *c, std::vector<Val> &out);
    u64 constAddr(const llvm::Constant *c);
    void writeInit(Obj *o, u64 off, const llvm::Constant *c);
    Builtin builtinFor(const std::string &n);
    int intrinFor(const llvm::Function *f);

    // state helpers
    [[noreturn]] void fatal(const std::string &m);
    [[noreturn]] void unsup(const std::string &m);
    std::unique_ptr<State> clone(State &s);
    u32 alloc(State &s, u64 size, OK kind, const char *name, Fill fill = Fill::Uninit);
    void freeObj(State &s, u64 addr, OK kind, const char *what);
    bool resolveConc(State &s, u64 a, u64 n, u32 &id, u64 &off);
    void access(State &s, Val a, u64 n, bool write, u32 &id, u64 &off);
    Val loadObj(State &s, u32 id, u64 off, unsigned bits);
    void storeObj(State &s, u32 id, u64 off, unsigned bits, const Val &v);
    Val loadMem(State &s, Val a, unsigned bits);
    void storeMem(State &s, Val a, unsigned bits, const Val &v);
    u64 ld(State &s, u64 a, unsigned bits = 64);    // concrete load
    void st(State &s, u64 a, u64 v, unsigned bits = 64);
    void copyMem(State &s, u64 d, u64 src, u64 n);
    void setMem(State &s, u64 d, Val v, u64 n);
    std::string cstr(State &s, u64 a);

    // constraints
    bool satisfies(State &s, ER c) { return evalExpr(c, s.asg) & 1; }
    struct Feas {
        SR t, f;
        std::vector<std::pair<u32, u8>> mt, mf;
    };
    void slice(State &s, ER c, std::vector<ER> &out);
    void feas(State &s, ER c, Feas &r, bool needT = true, bool needF = true);
    void addCons(State &s, ER c);
    void apply(State &s, const std::vector<std::pair<u32, u8>> &m);
    bool decide(State &s, ER c);    // forks; returns the side this state takes
    u64 concretize(State &s, const Val &v, unsigned w);
    ER newByte(State &s);
    u32 newVar(State &s);

    // control
    void step(State &s);
    void takeEdge(State &s, Func &f, u32 e);
    void doCall(State &s, const Inst &I);
    void pushFrame(State &s, Func *f, const std::vector<Val> &args);
    void finishCall(State &s, const Inst &I, const CallInfo &ci);
    void doRet(State &s, const Val *v, unsigned n);
    void unwind(State &s, u64 exc);
    void throwNew(State &s, u64 obj, u64 ti, u64 dtor);
    bool typeMatch(State &s, u64 thrown, u64 want, u64 &adj);
    bool hasBase(State &s, u64 ti, u64 want, i64 &off);
    u32 typeId(u64 ti);
    void callIntrin(State &s, const Inst &I, const CallInfo &ci);
    void popFrame(State &s);
    void schedule(State &s, bool yieldPoint);
    bool enabled(State &s, u32 t);

    Val get(State &s, i32 op, int lane = 0)
    {
        auto &fr = s.F();
        return op >= 0 ? fr.r[size_t(op) + lane] : fr.f->consts[size_t(~op) + lane];
    }
    Val arg(State &s, const CallInfo &ci, unsigned i, int lane = 0) { return get(s, ci.args[i].op, lane); }
    u64 argc(State &s, const CallInfo &ci, unsigned i) { return concretize(s, arg(s, ci, i), ci.args[i].bits); }
    void set(State &s, i32 dst, const Val &v) { s.F().r[size_t(dst)] = v; }

    // reporting
    std::string where(State &s);
    void violation(State &s, const std::string &msg, const std::vector<std::pair<u32, u8>> *m);
    [[noreturn]] void error(State &s, const std::string &msg);
    void writeInputs(State &s, const std::vector<u8> &asg, FILE *f);
    void samplePath(State &s);
    void maybeSplit();
};

void splitInit(Engine &e);
