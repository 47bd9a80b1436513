// esym: a small symbolic executor for LLVM IR (clang 18), deciding with Z3.
// Executes a harness entry point over the real (header-only) library code as compiled by clang,
// forking on every feasible branch, so that each assertion is decided for all values within the
// harness bounds.  See DESIGN.md.
#include "expr.h"
#include <set>
#include <unordered_set>
#include <functional>
#include <deque>
#include <climits>
#include <optional>
#include <unistd.h>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
using std::string; using std::vector;

Exprs X;
Solver S;

// ---------------------------------------------------------------- options
static struct {
    string bc, entry, out; uint64_t maxSteps = 20000000; double timeLimit = 600; unsigned maxErrors = 1, maxSamples = 6;
    bool leak = true, overflow = false; uint64_t seed = 1; std::map<string, int64_t> params; std::map<string, std::deque<uint64_t>> dummy;
    bool replay = false; vector<uint64_t> replayVals; unsigned maxFork = 1100; bool trace = false; size_t memLimitMB = 6000;
} opt;

// ---------------------------------------------------------------- memory
struct Cell { E e; uint8_t idx; };
enum ObjKind : uint8_t { O_Global, O_Stack, O_Malloc, O_New, O_NewArr, O_Exc };
struct Obj {
    int ref = 0; uint32_t id; uint32_t size; uint32_t align; uint64_t base; ObjKind kind; bool ro = false; bool scopeDead = false;
    vector<Cell> cells; const Instruction* site = nullptr;
};
struct ObjRef {
    Obj* o;
    ObjRef(Obj* p = nullptr) : o(p) { if (o) o->ref++; }
    ObjRef(const ObjRef& r) : o(r.o) { if (o) o->ref++; }
    ObjRef(ObjRef&& r) noexcept : o(r.o) { r.o = nullptr; }
    ObjRef& operator=(ObjRef r) noexcept { std::swap(o, r.o); return *this; }
    ~ObjRef() { if (o && --o->ref == 0) delete o; }
};
static const uint64_t OBJ_BASE = 0x10000000ull;
static uint64_t baseFor(uint32_t id, uint32_t align) { return ((uint64_t)id << 32) + OBJ_BASE + align; }

// ---------------------------------------------------------------- values / code
struct Val { E e = nullptr; const vector<Val>* agg = nullptr; };
struct KInst { const Instruction* I; unsigned op; int dest; vector<int> ops; unsigned w; const Function* callee; bool hit = false; };
struct KFunction {
    const Function* F; vector<KInst> insts; DenseMap<const BasicBlock*, unsigned> start; vector<Val> consts; unsigned nregs = 0;
    DenseMap<const Value*, int> slot; std::map<unsigned, vector<char>> live; std::map<const BasicBlock*, vector<char>> liveOut;
};
struct Frame {
    KFunction* kf; unsigned pc = 0; vector<Val> regs; vector<uint32_t> allocas; uint64_t freeOnReturn = 0; const BasicBlock* prev = nullptr;
    vector<Val> varargs;
};
enum PK : uint8_t { P_None, P_Fresh, P_Lock, P_TryLock, P_Unlock, P_Wait, P_Relock, P_Notify, P_Atomic, P_Join, P_Waiting, P_RdLock, P_WrLock };
struct Thread {
    vector<Frame> st; bool done = false; PK pk = P_None; uint64_t pa = 0, pb = 0; vector<uint32_t> vc;
    uint64_t spinVer = 0; const Instruction* spinI = nullptr;   // single thread: consecutive no-effect RMWs
    struct Spin { vector<uint64_t> sig; uint64_t addr, ver; };  // visible operations without effect since the last one with effect
    vector<Spin> spins; vector<uint64_t> sig; int spinAt = -1;
    vector<uint32_t> facq, frel; bool timed = false, timedOut = false;
    vector<uint64_t> caught; 
};
struct ExcInfo { string type; uint64_t dtor; int handlers = 0; };
struct Mutex { int owner = -1; int readers = 0; vector<uint32_t> vc, rvc; };
struct Access { int wt = -1; uint32_t wc = 0; bool watomic = false; vector<std::pair<int, std::pair<uint32_t, bool>>> rd; };
struct Bnd { u128 lo, hi; __int128 slo, shi; };
struct State {
    vector<Thread> th; int cur = 0; bool granted = false;
    vector<ObjRef> objs; uint32_t nextId = 0x10000;
    vector<E> pc; vector<u128> model; std::unordered_map<uint32_t, u128> known; std::unordered_map<uint32_t, Bnd> bnd;
    vector<std::pair<string, E>> syms; vector<E> obs; std::set<string> reach; unsigned undefN = 0;
    std::set<uint64_t> ghost; std::map<uint64_t, ExcInfo> excs; std::map<uint64_t, Mutex> mx; std::map<uint64_t, uint64_t> aver;
    std::shared_ptr<std::map<uint64_t, Access>> acc; std::map<uint64_t, vector<uint32_t>> avc;
    std::vector<std::pair<int, std::pair<uint64_t, uint64_t>>> sleep; int spurious = 0; vector<string> sched;
    uint64_t steps = 0, clock = 0; uint32_t nalloc = 0; unsigned depth = 0; bool dead = false; bool leak = true; vector<const Function*> ctors;
};

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, KFunction*> kfs;
static std::unordered_map<const GlobalVariable*, uint32_t> gvId;
static vector<const GlobalVariable*> gvById(1, nullptr);
static std::unordered_map<const Function*, uint64_t> fnAddr;
static std::unordered_map<uint64_t, const Function*> fnByAddr;
static vector<State*> work;
static std::set<const Function*> executed;
static std::set<string> reachAll;

static struct { uint64_t paths = 0, killed = 0, steps = 0, forks = 0, infeasible = 0, errors = 0, asserts = 0, memchecks = 0, schedPts = 0, sleepPruned = 0; } stat_;
struct ErrRec { string kind, msg, loc, stack; vector<std::pair<string, uint64_t>> vals; vector<string> sched; };
static vector<ErrRec> errors;
static std::set<string> errKeys;
struct Sample { vector<std::pair<string, uint64_t>> vals; vector<uint64_t> obs; };
static vector<Sample> samples;
static uint64_t sampleSeen = 0, rng = 88172645463325252ull;
static bool incomplete = false; static string incompleteWhy;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

[[noreturn]] static void fatal(const string& m, const Instruction* I = nullptr);
static unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * widthOf(v->getElementType());
    string s; raw_string_ostream os(s); t->print(os); fatal("unsupported type " + os.str());
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }

// ---------------------------------------------------------------- diagnostics
static string locStr(const Instruction* I) {
    if (!I) return "?";
    if (auto& dl = I->getDebugLoc()) { return (dl->getFilename() + ":" + Twine(dl->getLine())).str(); }
    return "?";
}
static string demangled(const Function* F) { return llvm::demangle(F->getName().str()); }
static string shortName(const Function* F) { string s = demangled(F); if (s.size() > 160) s = s.substr(0, 157) + "..."; return s; }
static string stackStr(const State& st) {
    string r; int n = 0;
    const Thread& t = st.th[st.cur];
    for (auto it = t.st.rbegin(); it != t.st.rend() && n < 14; ++it, ++n) {
        unsigned p = std::min<size_t>(it->pc, it->kf->insts.size() - 1);
        r += (n ? " <- " : "") + shortName(it->kf->F) + " @" + locStr(it->kf->insts[p].I);
    }
    return r;
}
static const State* curState = nullptr;
[[noreturn]] static void fatal(const string& m, const Instruction* I) {
    fprintf(stderr, "ENGINE-ERROR: %s", m.c_str());
    if (I) { string s; raw_string_ostream os(s); I->print(os); fprintf(stderr, " [%s] at %s", os.str().c_str(), locStr(I).c_str()); }
    if (curState && !curState->th.empty() && !curState->th[curState->cur].st.empty()) fprintf(stderr, "\n  stack: %s", stackStr(*curState).c_str());
    fprintf(stderr, "\n");
    exit(3);
}

static vector<std::pair<string, uint64_t>> symVals(const State& st, const vector<u128>& model) {
    vector<std::pair<string, uint64_t>> r;
    for (auto& s : st.syms) r.push_back({s.first, (uint64_t)X.eval(s.second, model)});
    return r;
}
static void report(State& st, const string& kind, const string& msg, const vector<u128>& model) {
    const Instruction* I = nullptr;
    Thread& t = st.th[st.cur];
    if (!t.st.empty()) { auto& f = t.st.back(); if (f.pc < f.kf->insts.size()) I = f.kf->insts[f.pc].I; }
    string key = kind + "|" + msg + "|" + locStr(I);
    stat_.errors++;
    if (!errKeys.insert(key).second) return;
    ErrRec e; e.kind = kind; e.msg = msg; e.loc = locStr(I); e.stack = stackStr(st); e.vals = symVals(st, model); e.sched = st.sched;
    errors.push_back(e);
}
static void kill(State& st) { st.dead = true; }

// ---------------------------------------------------------------- state helpers
static Thread& T(State& st) { return st.th[st.cur]; }
static Frame& F(State& st) { return st.th[st.cur].st.back(); }
static Obj* findObj(State& st, uint32_t id) {
    auto it = std::lower_bound(st.objs.begin(), st.objs.end(), id, [](const ObjRef& a, uint32_t b) { return a.o->id < b; });
    if (it != st.objs.end() && it->o->id == id) return it->o;
    return nullptr;
}
static Obj* writable(State& st, Obj* o) {
    if (o->ref == 1) return o;
    auto it = std::lower_bound(st.objs.begin(), st.objs.end(), o->id, [](const ObjRef& a, uint32_t b) { return a.o->id < b; });
    Obj* n = new Obj(*o); n->ref = 0;
    *it = ObjRef(n);
    return n;
}
static Obj* newObj(State& st, uint32_t size, uint32_t align, ObjKind k, const Instruction* site) {
    Obj* o = new Obj(); o->id = st.nextId++; o->size = size; o->align = align; o->kind = k; o->base = baseFor(o->id, align); o->cells.assign(size, Cell{nullptr, 0}); o->site = site;
    st.objs.push_back(ObjRef(o));
    return o;
}
static void dropObj(State& st, uint32_t id) {
    auto it = std::lower_bound(st.objs.begin(), st.objs.end(), id, [](const ObjRef& a, uint32_t b) { return a.o->id < b; });
    if (it != st.objs.end() && it->o->id == id) st.objs.erase(it);
}
static Val constVal(const Constant* c);
static void writeCells(Obj* o, uint64_t off, E e) {
    unsigned n = (e->w + 7) / 8;
    if (e->w % 8) e = X.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) o->cells[off + i] = Cell{e, (uint8_t)i};
}
static void initConst(Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL->getTypeAllocSize(t); E z = X.con(0, 8); for (uint64_t i = 0; i < n; i++) o->cells[off + i] = Cell{z, 0}; return; }
    if (isa<UndefValue>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = d->getElementByteSize();
        for (unsigned i = 0; i < d->getNumElements(); i++) {
            Constant* el = d->getElementAsConstant(i);
            writeCells(o, off + i * es, constVal(el).e);
        }
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
    if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initConst(o, off + i * es, a->getOperand(i)); return; }
    writeCells(o, off, constVal(c).e);
    (void)t;
}
static Obj* getObj(State& st, uint32_t id) {
    if (Obj* o = findObj(st, id)) return o;
    if (id > 0 && id < gvById.size()) {
        const GlobalVariable* gv = gvById[id];
        uint64_t size = gv->hasInitializer() || gv->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(gv->getValueType()) : 64;
        if (!gv->hasInitializer() && size < 64) size = 64;
        Obj* o = new Obj(); o->id = id; o->size = (uint32_t)size; o->kind = O_Global; o->ro = gv->isConstant() && gv->hasInitializer();
        o->align = (uint32_t)(gv->getAlign() ? gv->getAlign()->value() : 16); o->base = baseFor(id, o->align);
        o->cells.assign(size, Cell{nullptr, 0});
        if (gv->getName() == "__libc_single_threaded") o->cells[0] = Cell{X.con(0, 8), 0};
        if (gv->hasInitializer()) {
            // zero padding of static storage
            E z = X.con(0, 8); for (auto& c : o->cells) c = Cell{z, 0};
            initConst(o, 0, gv->getInitializer());
        }
        auto it = std::lower_bound(st.objs.begin(), st.objs.end(), id, [](const ObjRef& a, uint32_t b) { return a.o->id < b; });
        st.objs.insert(it, ObjRef(o));
        return o;
    }
    return nullptr;
}
static uint64_t gvAddr(const GlobalVariable* gv) {
    auto it = gvId.find(gv);
    uint32_t id;
    if (it == gvId.end()) { id = gvById.size(); gvId[gv] = id; gvById.push_back(gv); } else id = it->second;
    return baseFor(id, (uint32_t)(gv->getAlign() ? gv->getAlign()->value() : 16));
}
static uint64_t funcAddr(const Function* f) {
    auto it = fnAddr.find(f);
    if (it != fnAddr.end()) return it->second;
    uint64_t a = ((0x60000000ull + fnAddr.size()) << 32) + 0x1000;
    fnAddr[f] = a; fnByAddr[a] = f;
    return a;
}
static vector<const vector<Val>*> aggPool;
static Val mkAgg(vector<Val> v) { Val r; r.agg = new vector<Val>(std::move(v)); return r; }
static unsigned undefConst = 0;
static Val undefVal(Type* t) {
    if (isAgg(t)) { vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.push_back(undefVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); return mkAgg(v); }
    Val r; r.e = X.var("undef_const" + std::to_string(undefConst++), widthOf(t), true); return r;
}
static Val zeroVal(Type* t) {
    if (isAgg(t)) { vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.push_back(zeroVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); return mkAgg(v); }
    Val r; r.e = X.con(0, widthOf(t)); return r;
}
static u128 apToU(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v & maskw(a.getBitWidth()); }
static Val constVal(const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return undefVal(t);
    if (auto* i = dyn_cast<ConstantInt>(c)) return {X.con(apToU(i->getValue()), t->getIntegerBitWidth()), nullptr};
    if (auto* f = dyn_cast<ConstantFP>(c)) return {X.con(apToU(f->getValueAPF().bitcastToAPInt()), widthOf(t)), nullptr};
    if (isa<ConstantPointerNull>(c)) return {X.con(0, 64), nullptr};
    if (auto* g = dyn_cast<GlobalVariable>(c)) return {X.con(gvAddr(g), 64), nullptr};
    if (auto* f = dyn_cast<Function>(c)) return {X.con(funcAddr(f), 64), nullptr};
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
    if (isa<ConstantAggregateZero>(c)) return zeroVal(t);
    if (auto* s = dyn_cast<ConstantStruct>(c)) { vector<Val> v; for (auto& op : s->operands()) v.push_back(constVal(cast<Constant>(op))); return mkAgg(v); }
    if (auto* s = dyn_cast<ConstantArray>(c)) { vector<Val> v; for (auto& op : s->operands()) v.push_back(constVal(cast<Constant>(op))); return mkAgg(v); }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        if (t->isVectorTy()) { E r = nullptr; for (unsigned i = 0; i < d->getNumElements(); i++) { E x = constVal(d->getElementAsConstant(i)).e; r = r ? X.concat(x, r) : x; } return {r, nullptr}; }
        vector<Val> v; for (unsigned i = 0; i < d->getNumElements(); i++) v.push_back(constVal(d->getElementAsConstant(i))); return mkAgg(v);
    }
    if (auto* s = dyn_cast<ConstantVector>(c)) { E r = nullptr; for (auto& op : s->operands()) { E x = constVal(cast<Constant>(op)).e; r = r ? X.concat(x, r) : x; } return {r, nullptr}; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("constant gep");
            return {X.bin(K_Add, constVal(ce->getOperand(0)).e, X.con(apToU(off), 64)), nullptr};
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return {X.zext(constVal(ce->getOperand(0)).e, widthOf(t)), nullptr};
        case Instruction::Sub: return {X.bin(K_Sub, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e), nullptr};
        case Instruction::Add: return {X.bin(K_Add, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e), nullptr};
        case Instruction::ICmp: { E a = constVal(ce->getOperand(0)).e, b = constVal(ce->getOperand(1)).e; bool eq = a == b; return {X.boolean(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq), nullptr}; }
        default: break;
        }
    }
    string s; raw_string_ostream os(s); c->print(os); fatal("unsupported constant " + os.str());
}

static KFunction* prep(const Function* fn) {
    auto it = kfs.find(fn);
    if (it != kfs.end()) return it->second;
    KFunction* k = new KFunction(); kfs[fn] = k; k->F = fn;
    int n = 0;
    for (auto& a : fn->args()) k->slot[&a] = n++;
    for (auto& bb : *fn) for (auto& i : bb) if (!i.getType()->isVoidTy()) k->slot[&i] = n++;
    k->nregs = n;
    DenseMap<const Value*, int> cidx;
    for (auto& bb : *fn) {
        k->start[&bb] = k->insts.size();
        for (auto& i : bb) {
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            KInst ki; ki.I = &i; ki.op = i.getOpcode(); ki.dest = i.getType()->isVoidTy() ? -1 : k->slot[&i]; ki.callee = nullptr; ki.w = 0;
            if (!i.getType()->isVoidTy() && !isAgg(i.getType()) && !i.getType()->isTokenTy() && !i.getType()->isMetadataTy()) ki.w = widthOf(i.getType());
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                ki.callee = dyn_cast<Function>(cv);
            }
            for (auto& op : i.operands()) {
                const Value* v = op;
                if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { ki.ops.push_back(INT_MIN); continue; }
                if (auto* c = dyn_cast<Constant>(v)) {
                    if (isa<LandingPadInst>(&i)) { ki.ops.push_back(INT_MIN); continue; }
                    auto f = cidx.find(c);
                    int ix;
                    if (f == cidx.end()) { k->consts.push_back(constVal(c)); ix = k->consts.size() - 1; cidx[c] = ix; } else ix = f->second;
                    ki.ops.push_back(-1 - ix);
                } else ki.ops.push_back(k->slot[v]);
            }
            k->insts.push_back(std::move(ki));
        }
    }
    return k;
}
static const Val& opv(State& st, const KInst& ki, unsigned i) {
    Frame& f = F(st);
    int o = ki.ops[i];
    return o >= 0 ? f.regs[o] : f.kf->consts[-1 - o];
}
static E ope(State& st, const KInst& ki, unsigned i) {
    E e = opv(st, ki, i).e;
    if (!e) fatal("missing operand value", ki.I);
    return e;
}
static void setReg(State& st, const KInst& ki, Val v) { if (ki.dest >= 0) F(st).regs[ki.dest] = v; }

// ---------------------------------------------------------------- solver glue
static State* clone(State& st) { State* n = new State(st); n->depth++; stat_.forks++; return n; }
static __int128 sgn(u128 v, unsigned w) { return w >= 128 ? (__int128)v : (v >> (w - 1)) & 1 ? (__int128)v - ((__int128)1 << w) : (__int128)v; }
// interval facts about one term, kept beside the path condition; a term whose interval is a single
// point is replaced by that constant
static void learnBound(State& st, E c, bool pos) {
    if (Exprs::isNot(c)) { learnBound(st, c->a, !pos); return; }
    if (c->k != K_Ult && c->k != K_Ule && c->k != K_Slt && c->k != K_Sle) return;
    bool sg = c->k == K_Slt || c->k == K_Sle, strict = c->k == K_Ult || c->k == K_Slt;
    E a = c->a, b = c->b;
    if (!pos) { std::swap(a, b); strict = !strict; }  // !(a<b) == b<=a
    if (a->isConst() == b->isConst()) return;
    E t = a->isConst() ? b : a; unsigned w = t->w; if (w > 64 || t->undef) return;
    auto it = st.bnd.find(t->id);
    if (it == st.bnd.end()) it = st.bnd.emplace(t->id, Bnd{0, maskw(w), -((__int128)1 << (w - 1)), ((__int128)1 << (w - 1)) - 1}).first;
    Bnd& q = it->second;
    if (sg) {
        __int128 v = sgn(a->isConst() ? a->val : b->val, w);
        if (t == a) q.shi = std::min(q.shi, strict ? v - 1 : v); else q.slo = std::max(q.slo, strict ? v + 1 : v);
        if (q.slo == q.shi) st.known[t->id] = (u128)q.slo & maskw(w);
    } else {
        u128 v = a->isConst() ? a->val : b->val;
        if (strict && (t == a ? v == 0 : v == maskw(w))) return;
        if (t == a) q.hi = std::min(q.hi, strict ? v - 1 : v); else q.lo = std::max(q.lo, strict ? v + 1 : v);
        if (q.lo == q.hi) st.known[t->id] = q.lo;
    }
    // non-negative in one view gives the other
    if (q.slo >= 0) { q.lo = std::max(q.lo, (u128)q.slo); q.hi = std::min(q.hi, (u128)q.shi); if (q.lo == q.hi) st.known[t->id] = q.lo; }
}
static void addC(State& st, E c) {
    if (c->isTrue()) return;
    if (c->k == K_And && c->w == 1) { addC(st, c->a); addC(st, c->b); return; }
    st.pc.push_back(c);
    st.known[c->id] = 1;
    if (Exprs::isNot(c)) st.known[c->a->id] = 0;
    else { st.known[X.notE(c)->id] = 0; }
    if (c->k == K_Eq && c->b->isConst()) st.known[c->a->id] = c->b->val;
    learnBound(st, c, true);
}
static E deep(State& st, E e, int d) {  // replace subterms with a known constant value (address computations)
    if (e->isConst()) return e;
    auto it = st.known.find(e->id);
    if (it != st.known.end()) return X.con(it->second, e->w);
    if (d == 0 || e->k == K_Var) return e;
    switch (e->k) {
    default: {
        E a = deep(st, e->a, d - 1), b = e->b ? deep(st, e->b, d - 1) : nullptr, c = e->c ? deep(st, e->c, d - 1) : nullptr;
        return a == e->a && b == e->b && c == e->c ? e : X.rebuild(e, a, b, c);
    }
    }
}
static E simp(State& st, E e) {  // apply known equalities
    if (e->isConst()) return e;
    auto it = st.known.find(e->id);
    if (it != st.known.end()) return X.con(it->second, e->w);
    if (e->w == 1 && e->k >= K_Ult && e->k <= K_Sle && e->a->isConst() != e->b->isConst()) {
        E t = e->a->isConst() ? e->b : e->a; auto j = st.bnd.find(t->id);
        if (j != st.bnd.end()) {
            const Bnd& q = j->second; bool left = t == e->a; unsigned w = t->w;
            if (e->k == K_Ult || e->k == K_Ule) {
                u128 v = left ? e->b->val : e->a->val; bool le = e->k == K_Ule;
                if (left ? (le ? q.hi <= v : q.hi < v) : (le ? v <= q.lo : v < q.lo)) return X.con(1, 1);
                if (left ? (le ? q.lo > v : q.lo >= v) : (le ? v > q.hi : v >= q.hi)) return X.con(0, 1);
            } else {
                __int128 v = sgn(left ? e->b->val : e->a->val, w); bool le = e->k == K_Sle;
                if (left ? (le ? q.shi <= v : q.shi < v) : (le ? v <= q.slo : v < q.slo)) return X.con(1, 1);
                if (left ? (le ? q.slo > v : q.slo >= v) : (le ? v > q.shi : v >= q.shi)) return X.con(0, 1);
            }
        }
    }
    if (e->k == K_Add && e->b->isConst()) { auto j = st.known.find(e->a->id); if (j != st.known.end()) return X.con(j->second + e->b->val, e->w); }
    return e;
}
static void syncModel(State& st) {
    if (st.model.size() < X.vars.size()) st.model.resize(X.vars.size(), 0);
}
// 1 sat / 0 unsat; unknown => mark incomplete
static int query(State& st, E q, vector<u128>* m) {
    int r = S.check(st.pc, q, st.model, m);
    if (r < 0) { incomplete = true; incompleteWhy = "solver returned unknown (timeout)"; }
    return r;
}
static E freshUndef(State& st, unsigned w) { return X.var("undef" + std::to_string(st.undefN++), w, true); }

// Does e really depend on uninitialised memory?  If so, report.
static bool undefCheck(State& st, E e, const char* what) {
    if (!e->undef) return true;
    std::unordered_map<uint32_t, E> m; std::unordered_map<E, E> memo;
    for (auto v : X.varsOf(e)) if (X.vars[v].undef) m[v] = X.var("prime_" + X.vars[v].name, X.vars[v].w, true);
    E e2 = X.subst(e, m, memo);
    vector<u128> mod;
    E diff = X.notE(X.bin(K_Eq, e, e2));
    int r = query(st, diff, &mod);
    if (r == 1) { report(st, "uninitialised", string("use of uninitialised value ") + what, mod); kill(st); return false; }
    return true;
}

// Require cond; report if it can be false.  Returns false if the state died.
static bool require(State& st, E cond, const string& kind, const string& msg) {
    cond = simp(st, cond); if (!cond->isConst()) cond = deep(st, cond, 7);
    if (cond->isTrue()) return true;
    if (cond->undef && !undefCheck(st, cond, ("in check: " + msg).c_str())) return false;
    vector<u128> mod;
    E neg = X.notE(cond);
    syncModel(st);
    if (X.eval(neg, st.model) == 1) { mod = st.model; report(st, kind, msg, mod); }
    else {
        int r = query(st, neg, &mod);
        if (r == 1) report(st, kind, msg, mod);
        else if (r == 0) { st.known[cond->id] = 1; return true; }
        else { kill(st); return false; }
    }
    // continue on the side where it holds, if any
    vector<u128> m2;
    if (query(st, cond, &m2) == 1) { addC(st, cond); st.model = m2; return true; }
    kill(st);
    return false;
}

// Concretise e: this state continues with the model's value; every other feasible value becomes a
// sibling state that re-executes the current instruction.
static bool concretize(State& st, E e, u128& out, const char* what) {
    e = simp(st, e); if (!e->isConst()) e = deep(st, e, 6);
    if (e->isConst()) { out = e->val; return true; }
    if (e->undef && !undefCheck(st, e, what)) return false;
    syncModel(st);
    u128 v = X.eval(e, st.model);
    vector<E> excl;
    E rest = X.notE(X.bin(K_Eq, e, X.con(v, e->w)));
    unsigned n = 0;
    vector<std::pair<u128, vector<u128>>> others;
    while (true) {
        vector<u128> m;
        int r = query(st, rest, &m);
        if (r != 1) break;
        u128 o = X.eval(e, m);
        others.push_back({o, m});
        rest = X.andE(rest, X.notE(X.bin(K_Eq, e, X.con(o, e->w))));
        if (++n > opt.maxFork) { incomplete = true; incompleteWhy = string("more than ") + std::to_string(opt.maxFork) + " values for " + what + " at " + locStr(F(st).kf->insts[F(st).pc].I); break; }
    }
    for (auto& o : others) {
        State* c = clone(st);
        c->model = o.second; addC(*c, X.bin(K_Eq, e, X.con(o.first, e->w))); c->known[e->id] = o.first;
        work.push_back(c);
    }
    addC(st, X.bin(K_Eq, e, X.con(v, e->w))); st.known[e->id] = v;
    out = v;
    return true;
}

// ---------------------------------------------------------------- race detection
static void vcJoin(vector<uint32_t>& a, const vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static bool ownStack(State& st, uint32_t id) { for (auto& f : T(st).st) for (uint32_t a : f.allocas) if (a == id) return true; return false; }
static bool raceCheck(State& st, Obj* o, uint64_t off, unsigned n, bool write, bool atomic) {
    if (st.th.size() < 2) return true;
    if (o->ro) return true;
    if (!st.acc) st.acc = std::make_shared<std::map<uint64_t, Access>>();
    if (st.acc.use_count() > 1) st.acc = std::make_shared<std::map<uint64_t, Access>>(*st.acc);
    if (write && !atomic && !T(st).spins.empty() && !(o->kind == O_Stack && ownStack(st, o->id))) T(st).spins.clear();
    int me = st.cur; auto& vc = T(st).vc;
    auto hb = [&](int t, uint32_t c) { return t == me || (t < (int)vc.size() && vc[t] >= c); };
    for (unsigned i = 0; i < n; i++) {
        Access& a = (*st.acc)[((uint64_t)o->id << 32) + off + i];
        bool bad = false;
        if (a.wt >= 0 && !hb(a.wt, a.wc) && !(atomic && a.watomic)) bad = true;
        if (write) for (auto& r : a.rd) if (!hb(r.first, r.second.first) && !(atomic && r.second.second)) bad = true;
        if (bad) { report(st, "data-race", string("unsynchronised concurrent ") + (write ? "write" : "read"), st.model); kill(st); return false; }
        if (write) { a.wt = me; a.wc = vc[me]; a.watomic = atomic; a.rd.clear(); }
        else { bool f = false; for (auto& r : a.rd) if (r.first == me) { r.second = {vc[me], atomic}; f = true; } if (!f) a.rd.push_back({me, {vc[me], atomic}}); }
    }
    return true;
}

// ---------------------------------------------------------------- memory access
struct Res { Obj* o; bool conc; uint64_t off; E offE; };
static string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static bool memErr(State& st, const string& kind, const string& msg) { report(st, kind, msg, st.model); kill(st); return false; }
static bool locate(State& st, uint64_t a, uint64_t n, bool write, Res& r, const char* what) {
    uint32_t id = a >> 32;
    if (id == 0) return memErr(st, "memory", string(what) + " through null/invalid pointer");
    if (id >= 0x60000000u) return memErr(st, "memory", string(what) + " of function address");
    Obj* o = getObj(st, id);
    if (!o) return memErr(st, "memory", string(what) + (id < st.nextId ? " of freed or dead object" : " through wild pointer"));
    int64_t off = (int64_t)(a - o->base);
    if (off < 0 || (uint64_t)off + n > o->size) return memErr(st, "memory", string("out-of-bounds ") + what + " (" + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of a " + std::to_string(o->size) + "-byte object)");
    if (o->scopeDead) return memErr(st, "memory", string(what) + " of out-of-scope object");
    if (write && o->ro) return memErr(st, "memory", "write to constant object");
    r.o = o; r.conc = true; r.off = off; r.offE = nullptr;
    return true;
}
static bool resolve(State& st, E p, uint64_t n, unsigned align, bool write, Res& r, const char* what, bool allowSym = true) {
    stat_.memchecks++;
    p = simp(st, p); if (!p->isConst()) p = deep(st, p, 6);
    if (p->undef && !undefCheck(st, p, "as address")) return false;
    if (p->isConst()) {
        if (align > 1 && (p->val % align) != 0) return memErr(st, "memory", string("misaligned ") + what + " (needs alignment " + std::to_string(align) + ")");
        return locate(st, (uint64_t)p->val, n, write, r, what);
    }
    if (allowSym && p->k == K_Add && p->b->isConst() && (p->b->val >> 32) != 0 && (uint64_t)(p->b->val >> 32) < 0x60000000u) {
        Obj* o = getObj(st, (uint32_t)(p->b->val >> 32));
        if (o && o->size >= n) {
            E off = X.bin(K_Sub, p, X.con(o->base, 64));
            unsigned g = std::min(6u, X.tz(off)); uint64_t stride = 1ull << g;
            uint64_t cand = (o->size - n) / stride + 1;
            if (cand <= 256) {
                E inb = X.bin(K_Ule, off, X.con(o->size - n, 64));
                syncModel(st);
                string m = string("out-of-bounds ") + what + " at symbolic offset of a " + std::to_string(o->size) + "-byte object";
                if (!require(st, inb, "memory", m)) return false;
                if (o->scopeDead) return memErr(st, "memory", string(what) + " of out-of-scope object");
                if (write && o->ro) return memErr(st, "memory", "write to constant object");
                o = getObj(st, o->id);
                off = simp(st, off);
                if (off->isConst()) { r.o = o; r.conc = true; r.off = (uint64_t)off->val; return true; }
                if (align > 1 && stride % align) { u128 v; if (!concretize(st, p, v, "pointer")) return false; return resolve(st, p, n, align, write, r, what); }
                r.o = o; r.conc = false; r.offE = off; r.off = stride;
                return true;
            }
        }
    }
    u128 v;
    if (!concretize(st, p, v, "pointer")) return false;
    return resolve(st, X.con(v, 64), n, align, write, r, what);
}
static E readAt(State& st, Obj* o, uint64_t off, unsigned n) {
    Cell c0 = o->cells[off];
    if (c0.e && c0.idx == 0 && c0.e->w == n * 8) {
        bool same = true;
        for (unsigned i = 1; i < n; i++) if (o->cells[off + i].e != c0.e || o->cells[off + i].idx != i) { same = false; break; }
        if (same) return c0.e;
    }
    E r = nullptr;
    for (unsigned i = 0; i < n;) {
        Cell c = o->cells[off + i];
        unsigned j = i + 1;
        E piece;
        if (!c.e) { while (j < n && !o->cells[off + j].e) j++; piece = freshUndef(st, (j - i) * 8);
            // a value once read stays the same value
            Obj* w = writable(st, o); for (unsigned q = i; q < j; q++) w->cells[off + q] = Cell{piece, (uint8_t)(q - i)}; o = w; }
        else { while (j < n && o->cells[off + j].e == c.e && o->cells[off + j].idx == c.idx + (j - i)) j++; piece = X.extract(c.e, c.idx * 8, (j - i) * 8); }
        r = r ? X.concat(piece, r) : piece;
        i = j;
    }
    return r;
}
static bool loadE(State& st, E p, unsigned w, unsigned align, E& out, bool atomic = false) {
    unsigned n = (w + 7) / 8; Res r;
    if (!resolve(st, p, n, align, false, r, "read")) return false;
    if (r.conc) {
        if (!raceCheck(st, r.o, r.off, n, false, atomic)) return false;
        out = readAt(st, r.o, r.off, n);
    } else {
        E e = nullptr;
        if (!raceCheck(st, r.o, 0, r.o->size, false, atomic)) return false;
        for (uint64_t o = 0; o + n <= r.o->size; o += r.off) {
            bool anyU = false; for (unsigned i = 0; i < n; i++) anyU |= !r.o->cells[o + i].e;
            E v = anyU ? freshUndef(st, n * 8) : readAt(st, r.o, o, n);
            e = e ? X.ite(X.bin(K_Eq, r.offE, X.con(o, 64)), v, e) : v;
        }
        out = e;
    }
    if (n * 8 != w) out = X.extract(out, 0, w);
    return true;
}
static bool storeE(State& st, E p, E v, unsigned align, bool atomic = false) {
    unsigned n = (v->w + 7) / 8; Res r;
    if (!resolve(st, p, n, align, true, r, "write")) return false;
    if (r.conc) {
        if (!raceCheck(st, r.o, r.off, n, true, atomic)) return false;
        writeCells(writable(st, r.o), r.off, v);
    } else {
        Obj* o = writable(st, r.o);
        if (!raceCheck(st, o, 0, o->size, true, atomic)) return false;
        if (v->w % 8) v = X.zext(v, n * 8);
        for (uint64_t q = 0; q + n <= o->size; q += r.off) {
            bool anyU = false; for (unsigned i = 0; i < n; i++) anyU |= !o->cells[q + i].e;
            E old = anyU ? freshUndef(st, n * 8) : readAt(st, o, q, n);
            E nv = X.ite(X.bin(K_Eq, r.offE, X.con(q, 64)), v, old);
            for (unsigned i = 0; i < n; i++) o->cells[q + i] = Cell{nv, (uint8_t)i};
        }
    }
    return true;
}
static bool loadVal(State& st, E p, Type* t, unsigned align, Val& out) {
    if (!isAgg(t)) { E e; if (!loadE(st, p, widthOf(t), align, e)) return false; out = Val{e, nullptr}; return true; }
    vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
        Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
        Val x; if (!loadVal(st, X.bin(K_Add, p, X.con(off, 64)), et, 1, x)) return false; v.push_back(x);
    }
    out = mkAgg(v); return true;
}
static bool storeVal(State& st, E p, Type* t, const Val& x, unsigned align) {
    if (!isAgg(t)) return storeE(st, p, x.e, align);
    for (unsigned i = 0; i < x.agg->size(); i++) {
        Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
        if (!storeVal(st, X.bin(K_Add, p, X.con(off, 64)), et, (*x.agg)[i], 1)) return false;
    }
    return true;
}

// ---------------------------------------------------------------- control flow
static bool gotoBB(State& st, const BasicBlock* to) {
    Frame& f = F(st);
    const BasicBlock* from = f.kf->insts[f.pc].I->getParent();
    unsigned s = f.kf->start[to];
    // phis in parallel
    unsigned p = s; SmallVector<std::pair<int, Val>, 8> upd;
    while (p < f.kf->insts.size() && f.kf->insts[p].op == Instruction::PHI) {
        auto* phi = cast<PHINode>(f.kf->insts[p].I);
        int ix = phi->getBasicBlockIndex(from);
        upd.push_back({f.kf->insts[p].dest, opv(st, f.kf->insts[p], ix)});
        p++;
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
    f.pc = p;
    return true;
}
static void finishCall(State& st, Val ret, bool has) {
    Frame& f = F(st);
    KInst& ki = f.kf->insts[f.pc];
    if (has && ki.dest >= 0) f.regs[ki.dest] = ret;
    if (auto* inv = dyn_cast<InvokeInst>(ki.I)) gotoBB(st, inv->getNormalDest());
    else f.pc++;
}
static void popFrame(State& st) {
    for (auto id : F(st).allocas) dropObj(st, id);
    T(st).st.pop_back();
}
static bool copyMem(State& st, uint64_t d, uint64_t s, uint64_t n, bool overlapOk) {
    if (!n) return true;
    Res a, b;
    if (!locate(st, s, n, false, b, "read (memcpy)")) return false;
    if (!locate(st, d, n, true, a, "write (memcpy)")) return false;
    if (!overlapOk && a.o == b.o && d != s && ((d < s && d + n > s) || (s < d && s + n > d))) return memErr(st, "memory", "memcpy with overlapping ranges");
    if (!raceCheck(st, b.o, b.off, n, false, false) || !raceCheck(st, a.o, a.off, n, true, false)) return false;
    vector<Cell> tmp(b.o->cells.begin() + b.off, b.o->cells.begin() + b.off + n);
    Obj* w = writable(st, a.o);
    std::copy(tmp.begin(), tmp.end(), w->cells.begin() + a.off);
    return true;
}
static bool pushCall(State& st, const Function* fn, vector<Val> args, uint64_t freeOnRet = 0, const CallBase* cb = nullptr) {
    KFunction* k = prep(fn);
    executed.insert(fn);
    if (T(st).st.size() > 2000) { report(st, "recursion", "call depth exceeds 2000 frames", st.model); kill(st); return false; }
    Frame f; f.kf = k; f.regs.resize(k->nregs); f.freeOnReturn = freeOnRet;
    unsigned np = fn->arg_size();
    if (args.size() < np) fatal("too few arguments calling " + demangled(fn));
    for (unsigned i = 0; i < np; i++) {
        if (cb && cb->isByValArgument(i)) {
            Type* bt = cb->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(bt);
            E pe = simp(st, args[i].e); if (!pe->isConst()) fatal("symbolic byval pointer");
            unsigned al = cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 8;
            Obj* o = newObj(st, n, al, O_Stack, cb); f.allocas.push_back(o->id); uint64_t base = o->base;
            if (!copyMem(st, base, (uint64_t)pe->val, n, true)) return false;
            args[i].e = X.con(base, 64);
        }
        f.regs[i] = args[i];
    }
    for (unsigned i = np; i < args.size(); i++) f.varargs.push_back(args[i]);
    T(st).st.push_back(std::move(f));
    return true;
}

// ---------------------------------------------------------------- exceptions
static std::map<string, string> stdBases = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}};
static bool typeIsA(const string& t, const string& base, int d = 0) {
    if (t == base) return true;
    if (d > 10) return false;
    if (auto* gv = M->getGlobalVariable(t, true)) if (gv->hasInitializer())
        if (auto* s = dyn_cast<ConstantStruct>(gv->getInitializer()))
            for (unsigned i = 1; i < s->getNumOperands(); i++) {
                auto* g = dyn_cast<GlobalVariable>(s->getOperand(i)->stripPointerCasts());
                if (g && g->getName().starts_with("_ZTI") && typeIsA(g->getName().str(), base, d + 1)) return true;
            }
    auto it = stdBases.find(t);
    return it != stdBases.end() && typeIsA(it->second, base, d + 1);
}
static std::map<string, int> typeIds;
static int typeId(const string& n) { auto it = typeIds.find(n); if (it != typeIds.end()) return it->second; int k = typeIds.size() + 1; typeIds[n] = k; return k; }
static void unwind(State& st, uint64_t exc, bool fromResume) {
    auto ei = st.excs.find(exc);
    string ty = ei == st.excs.end() ? "?" : ei->second.type;
    bool first = true;
    while (!T(st).st.empty()) {
        Frame& f = F(st);
        KInst& ki = f.kf->insts[f.pc];
        if (auto* inv = dyn_cast<InvokeInst>(ki.I)) {
            auto* lp = inv->getLandingPadInst();
            int sel = 0; bool hit = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                Constant* c = lp->getClause(i);
                if (lp->isCatch(i)) {
                    auto* g = dyn_cast<GlobalVariable>(c->stripPointerCasts());
                    if (!g) { hit = true; sel = typeId("catch-all"); break; }
                    if (typeIsA(ty, g->getName().str())) { hit = true; sel = typeId(g->getName().str()); break; }
                } else { hit = true; sel = -1; break; }
            }
            if (hit) {
                gotoBB(st, lp->getParent());
                Frame& g = F(st);
                KInst& lk = g.kf->insts[g.pc];
                if (lk.I != lp) fatal("landingpad not first", lp);
                g.regs[lk.dest] = mkAgg({Val{X.con(exc, 64), nullptr}, Val{X.con((uint32_t)sel, 32), nullptr}});
                g.pc++;
                return;
            }
        }
        if (f.kf->F->doesNotThrow() && !(first && fromResume)) { report(st, "terminate", "exception " + llvm::demangle(ty) + " escapes a noexcept function", st.model); kill(st); return; }
        first = false;
        popFrame(st);
    }
    // nothing left: put back a frame-less report
    ErrRec e; e.kind = "uncaught-exception"; e.msg = "uncaught exception " + llvm::demangle(ty); e.loc = "?"; e.vals = symVals(st, st.model); e.sched = st.sched;
    stat_.errors++;
    if (errKeys.insert(e.kind + e.msg).second) errors.push_back(e);
    kill(st);
}
static void throwStd(State& st, const string& ty) {
    Obj* o = newObj(st, 64, 16, O_Exc, nullptr);
    st.excs[o->base] = ExcInfo{ty, 0, 0};
    unwind(st, o->base, false);
}

// ---------------------------------------------------------------- threads
// registers live before instruction pc
static const vector<char>& liveAt(KFunction* k, unsigned pc) {
    auto it = k->live.find(pc); if (it != k->live.end()) return it->second;
    auto back = [&](const BasicBlock* bb, vector<char>& l, unsigned downTo) {
        unsigned b = k->start[bb], e = b; while (e < k->insts.size() && k->insts[e].I->getParent() == bb) e++;
        for (unsigned i = e; i-- > downTo;) { auto& ki = k->insts[i]; if (ki.dest >= 0) l[ki.dest] = 0; for (int o : ki.ops) if (o >= 0) l[o] = 1; }
    };
    if (k->liveOut.empty()) {
        for (auto& bb : *k->F) k->liveOut[&bb].assign(k->nregs, 0);
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& bb : *k->F) {
                vector<char> o(k->nregs, 0);
                for (const BasicBlock* s : successors(&bb)) { vector<char> l = k->liveOut[s]; back(s, l, k->start[s]); for (unsigned i = 0; i < k->nregs; i++) o[i] |= l[i]; }
                if (o != k->liveOut[&bb]) { k->liveOut[&bb] = o; ch = true; }
            }
        }
    }
    const BasicBlock* bb = k->insts[pc].I->getParent(); vector<char> l = k->liveOut[bb]; back(bb, l, pc);
    return k->live[pc] = l;
}
// everything a thread can base its next steps on, apart from shared memory; addresses of its own locals are made relative
static Obj* getObj(State& st, uint32_t id);
static void signature(State& st, Thread& t, vector<uint64_t>& sig) {
    sig.clear(); std::map<uint32_t, uint64_t> own; uint64_t n = 0;
    for (auto& f : t.st) for (uint32_t a : f.allocas) own[a] = n++;
    auto tok = [&](E e) -> uint64_t {
        if (!e) return 0;
        if (e->isConst() && e->w == 64) { auto it = own.find((uint32_t)((uint64_t)e->val >> 32)); if (it != own.end()) return (1ull << 62) + (it->second << 32) + (uint32_t)(uint64_t)e->val; }
        return 1 + (uint64_t)e->id;
    };
    std::function<void(const Val&)> val = [&](const Val& v) { if (v.agg) { for (auto& x : *v.agg) val(x); } else sig.push_back(tok(v.e)); };
    for (auto& f : t.st) {
        sig.push_back((uint64_t)f.kf); sig.push_back(f.pc); auto& l = liveAt(f.kf, f.pc);
        for (unsigned i = 0; i < f.kf->nregs && i < f.regs.size(); i++) if (l[i]) val(f.regs[i]);
        for (uint32_t a : f.allocas) { Obj* o = getObj(st, a); if (!o) continue; sig.push_back(o->size); if (o->scopeDead) { sig.push_back(~0ull); continue; }
            for (auto& c : o->cells) { uint64_t x = tok(c.e); if (sig.size() > 2 && x == sig[sig.size() - 2] && c.idx == sig.back() + 1) sig.back()++; else { sig.push_back(x); sig.push_back(c.idx); } } }
    }
}
static bool unchanged(State& st, Thread& t) { for (size_t i = t.spinAt; i < t.spins.size(); i++) if (st.aver[t.spins[i].addr] != t.spins[i].ver) return false; return true; }
static void noEffect(State& st, uint64_t a) { if (st.th.size() < 2) return; Thread& t = T(st); if (t.spins.size() >= 48) t.spins.erase(t.spins.begin(), t.spins.begin() + 24); t.spins.push_back({t.sig, a, st.aver[a]}); }
static void effect(State& st, uint64_t a) { if (st.th.size() < 2) return; T(st).spins.clear(); st.aver[a]++; }
static bool enabled(State& st, int t) {
    Thread& x = st.th[t];
    if (x.done) return false;
    switch (x.pk) {
    case P_Lock: case P_Relock: { auto it = st.mx.find(x.pa); return it == st.mx.end() || it->second.owner < 0; }
    case P_Join: for (size_t i = 1; i < st.th.size(); i++) if (!st.th[i].done) return false; return true;
    case P_Waiting: return st.spurious > 0;
    case P_RdLock: { auto it = st.mx.find(x.pa); return it == st.mx.end() || it->second.owner < 0; }
    case P_WrLock: { auto it = st.mx.find(x.pa); return it == st.mx.end() || (it->second.owner < 0 && !it->second.readers); }
    case P_Atomic: case P_TryLock: return x.spinAt < 0 || !unchanged(st, x);
    default: return true;
    }
}
static bool dependent(const Thread& a, uint64_t pa, uint64_t pb) {
    auto hit = [&](uint64_t q) { return q && (q == a.pa || q == a.pb); };
    return hit(pa) || hit(pb);
}
static void runThread(State& st, int u) {
    st.cur = u;
    Thread& x = st.th[u];
    st.sched.push_back(std::to_string(u));
    if (x.pk == P_Waiting) { st.spurious--; x.pk = P_Relock; x.pa = x.pb; st.sched.back() += "s"; // spurious wake: then contend for the mutex
        st.granted = false; return; }
    st.granted = x.pk != P_Fresh && x.pk != P_None;
    if (x.pk == P_Fresh) x.pk = P_None;
}
static void schedule(State& st) {
    stat_.schedPts++;
    if (st.sched.size() > 400) { report(st, "livelock", "schedule exceeds 400 scheduling points", st.model); kill(st); return; }
    // fresh threads run their invisible prefix deterministically
    for (size_t i = 0; i < st.th.size(); i++) if (!st.th[i].done && st.th[i].pk == P_Fresh) { runThread(st, i); st.sched.pop_back(); return; }
    // a spinning thread whose condition has changed: the schedule without its fruitless turns is explored on its own
    for (auto& x : st.th) if (!x.done && (x.pk == P_Atomic || x.pk == P_TryLock) && x.spinAt >= 0 && !unchanged(st, x)) { stat_.sleepPruned++; stat_.killed++; kill(st); return; }
    vector<int> en;
    bool alldone = true;
    for (size_t i = 0; i < st.th.size(); i++) { if (!st.th[i].done) alldone = false; if (enabled(st, i)) en.push_back(i); }
    if (alldone) { kill(st); return; }
    bool onlyWait = true; for (int i : en) if (st.th[i].pk != P_Waiting) onlyWait = false;
    if (en.empty() || onlyWait) for (size_t i = 0; i < st.th.size(); i++) if (!st.th[i].done && st.th[i].pk == P_Waiting && st.th[i].timed) {   // a timed wait ends by itself
        Thread& x = st.th[i]; x.pk = P_Relock; x.pa = x.pb; x.timedOut = true; st.cur = i; st.granted = false; st.sched.push_back(std::to_string(i) + "t"); return;
    }
    if (en.empty() || onlyWait) {
        if (onlyWait && !en.empty() ) { /* only spurious wake-ups could progress: a lost wake-up */ }
        string m = "deadlock: threads blocked forever (";
        for (size_t i = 0; i < st.th.size(); i++) if (!st.th[i].done) m += "t" + std::to_string(i) + (st.th[i].pk == P_Waiting ? ":cond-wait " : st.th[i].pk == P_Join ? ":join " : ":lock ");
        for (size_t i = 0; i < st.th.size(); i++) if (!st.th[i].done && st.th[i].pk != P_Join) { st.cur = i; break; }
        report(st, "deadlock", m + ")", st.model); kill(st); return;
    }
    auto sleepOld = st.sleep;
    vector<int> cand;
    for (int u : en) { bool sl = false; for (auto& s : sleepOld) if (s.first == u) sl = true; if (!sl) cand.push_back(u); }
    if (cand.empty()) { stat_.sleepPruned++; stat_.killed++; kill(st); return; }
    auto childSleep = [&](int u, size_t idx) {
        vector<std::pair<int, std::pair<uint64_t, uint64_t>>> z;
        Thread& x = st.th[u];
        for (auto& s : sleepOld) if (!dependent(x, s.second.first, s.second.second)) z.push_back(s);
        for (size_t j = 0; j < idx; j++) { Thread& y = st.th[cand[j]]; if (y.pk == P_Waiting) continue; if (x.pk == P_Waiting) { continue; } if (!dependent(x, y.pa, y.pb)) z.push_back({cand[j], {y.pa, y.pb}}); }
        return z;
    };
    if (cand.size() > 1) {
        E cv = X.var("sched#" + std::to_string(st.sched.size()), 8);
        for (size_t i = cand.size(); i-- > 1;) {
            State* c = clone(st);
            c->sleep = childSleep(cand[i], i);
            if (st.th[cand[i]].pk == P_Waiting || st.th[cand[i]].pk == P_Notify) c->sleep.clear();
            c->model.resize(std::max(c->model.size(), X.vars.size()), 0); c->model[(size_t)cv->val] = cand[i];
            addC(*c, X.bin(K_Eq, cv, X.con(cand[i], 8)));
            runThread(*c, cand[i]);
            work.push_back(c);
        }
        st.model.resize(std::max(st.model.size(), X.vars.size()), 0); st.model[(size_t)cv->val] = cand[0];
        addC(st, X.bin(K_Eq, cv, X.con(cand[0], 8)));
    }
    st.sleep = childSleep(cand[0], 0);
    if (st.th[cand[0]].pk == P_Waiting || st.th[cand[0]].pk == P_Notify) st.sleep.clear();
    runThread(st, cand[0]);
}
// returns true if the op may execute now
static bool visible(State& st, PK k, uint64_t a, uint64_t b = 0) {
    if (st.th.size() < 2) return true;
    Thread& t = T(st);
    if (st.granted) { st.granted = false; return true; }
    t.pk = k; t.pa = a; t.pb = b; t.spinAt = -1;
    if (k == P_Atomic || k == P_TryLock) {   // back in the same local state with nothing it looked at changed: the thread spins
        signature(st, t, t.sig);
        for (size_t i = t.spins.size(); i-- > 0;) if (t.spins[i].sig == t.sig) { t.spinAt = (int)i; if (!unchanged(st, t)) t.spinAt = -1; break; }
    }
    schedule(st);
    return false;
}
static void tick(State& st) { auto& t = T(st); if (t.vc.size() <= (size_t)st.cur) t.vc.resize(st.cur + 1, 0); t.vc[st.cur]++; }
static void acquire(State& st, uint64_t m) { auto& x = st.mx[m]; x.owner = st.cur; vcJoin(T(st).vc, x.vc); vcJoin(T(st).vc, x.rvc); effect(st, m); }
static void release(State& st, uint64_t m) { auto& x = st.mx[m]; x.owner = -1; x.vc = T(st).vc; tick(st); effect(st, m); }
static bool atomicPre(State& st, uint64_t a) { return visible(st, P_Atomic, a); }
static bool acq(AtomicOrdering o) { return isAcquireOrStronger(o); }
static bool rel(AtomicOrdering o) { return isReleaseOrStronger(o); }
static void syncAcq(State& st, uint64_t a, AtomicOrdering o) { if (st.th.size() > 1) { auto it = st.avc.find(a); if (it != st.avc.end()) vcJoin(acq(o) ? T(st).vc : T(st).facq, it->second); } }
static void syncRel(State& st, uint64_t a, AtomicOrdering o, bool rmw) {
    if (st.th.size() < 2) return;
    if (rel(o)) { if (rmw) vcJoin(st.avc[a], T(st).vc); else st.avc[a] = T(st).vc; tick(st); }
    else if (!T(st).frel.empty()) { if (rmw) vcJoin(st.avc[a], T(st).frel); else st.avc[a] = T(st).frel; }
    else if (!rmw) st.avc.erase(a);
}
static void fence(State& st, AtomicOrdering o) { if (st.th.size() < 2) return; if (acq(o)) vcJoin(T(st).vc, T(st).facq); if (rel(o)) { T(st).frel = T(st).vc; tick(st); } }

// ---------------------------------------------------------------- path end
static void endPath(State& st) {
    if (st.leak && opt.leak) {
        unsigned n = 0; const Instruction* site = nullptr; uint64_t sz = 0;
        for (auto& o : st.objs) if (o.o->kind == O_Malloc || o.o->kind == O_New || o.o->kind == O_NewArr) { n++; site = o.o->site; sz += o.o->size; }
        if (n) {
            ErrRec e; e.kind = "leak"; e.msg = std::to_string(n) + " heap block(s), " + std::to_string(sz) + " bytes never freed"; e.loc = locStr(site); e.stack = site ? shortName(site->getFunction()) : "";
            e.vals = symVals(st, st.model); e.sched = st.sched; stat_.errors++;
            if (errKeys.insert("leak" + e.loc).second) errors.push_back(e);
        }
        if (!st.ghost.empty()) {
            ErrRec e; e.kind = "lifetime"; e.msg = std::to_string(st.ghost.size()) + " element(s) never destroyed"; e.loc = "end"; e.vals = symVals(st, st.model); e.sched = st.sched; stat_.errors++;
            if (errKeys.insert("ghostleak").second) errors.push_back(e);
        }
    }
    stat_.paths++;
    syncModel(st);
    sampleSeen++;
    size_t slot = samples.size() < opt.maxSamples ? samples.size() : (size_t)(rnd() % sampleSeen);
    if (slot < opt.maxSamples) {
        // spread the witness over the path's solution set, so that the native replay is not run on all-zero inputs
        vector<u128> m = st.model; unsigned budget = 64;
        for (auto& sy : st.syms) {
            if (!sy.second || sy.second->k != K_Var || !budget) continue;
            budget--;
            size_t v = (size_t)sy.second->val; u128 old = m[v];
            u128 r = rnd(); if (rnd() & 1) r &= 0xff;
            m[v] = r & maskw(sy.second->w);
            bool ok = true; for (E c : st.pc) if (X.eval(c, m) != 1) { ok = false; break; }
            if (!ok) m[v] = old;
        }
        Sample s; s.vals = symVals(st, m);
        for (E e : st.obs) s.obs.push_back((uint64_t)X.eval(e, m));
        if (slot == samples.size()) samples.push_back(s); else samples[slot] = s;
    }
    for (auto& r : st.reach) reachAll.insert(r);
    kill(st);
}

// ---------------------------------------------------------------- intrinsics
typedef std::function<void(State&, KInst&, vector<Val>&)> Handler;
static std::unordered_map<string, Handler> H;
static string cstr(State& st, uint64_t a) {
    string s;
    for (unsigned i = 0; i < 4096; i++) { Res r; if (!locate(st, a + i, 1, false, r, "read")) return s; E e = readAt(st, r.o, r.off, 1); if (!e->isConst()) return s + "<sym>"; if (!e->val) return s; s += (char)e->val; }
    return s;
}
static void ret(State& st, E e) { finishCall(st, Val{e, nullptr}, true); }
static void retv(State& st) { finishCall(st, Val{}, false); }
static E allocate(State& st, u128 n, unsigned align, ObjKind k) {
    if (n > (1u << 24)) fatal("allocation of " + std::to_string((uint64_t)n) + " bytes");
    st.nalloc++;
    Obj* o = newObj(st, (uint32_t)n, align, k, F(st).kf->insts[F(st).pc].I);
    return X.con(o->base, 64);
}
static bool deallocate(State& st, E pe, ObjKind k, const char* how) {
    u128 p; if (!concretize(st, pe, p, "freed pointer")) return false;
    if (!p) return true;
    Obj* o = getObj(st, (uint32_t)((uint64_t)p >> 32));
    if (!o) return memErr(st, "memory", string(how) + ": double free or invalid pointer");
    if (o->base != (uint64_t)p) return memErr(st, "memory", string(how) + " of pointer into the middle of an object");
    if (o->kind == O_Stack || o->kind == O_Global) return memErr(st, "memory", string(how) + " of non-heap object");
    if (o->kind != k) return memErr(st, "memory", string("mismatched deallocation: ") + how + " of block from " + (o->kind == O_New ? "operator new" : o->kind == O_NewArr ? "operator new[]" : "malloc"));
    if (!raceCheck(st, o, 0, o->size, true, false)) return false;
    dropObj(st, o->id);
    return true;
}
static State* forkWithReg(State& st, E e, const vector<std::pair<u128, vector<u128>>>& others) {
    for (auto& o : others) {
        State* c = clone(st);
        c->model = o.second; addC(*c, X.bin(K_Eq, e, X.con(o.first, e->w))); c->known[e->id] = o.first;
        curState = c;
        ret(*c, X.con(o.first, e->w));
        work.push_back(c);
    }
    curState = &st;
    return nullptr;
}
static size_t replayPos = 0;
static E makeSym(State& st, const string& name, unsigned w) {
    size_t k = st.syms.size();
    E v = X.var(name + "#" + std::to_string(k), w);
    st.syms.push_back({name, v});
    syncModel(st);
    if (opt.replay) { u128 x = k < opt.replayVals.size() ? opt.replayVals[k] : 0; st.model[(size_t)v->val] = x & maskw(w); addC(st, X.bin(K_Eq, v, X.con(x, w))); return X.con(x, w); }
    return v;
}
static bool branchOn(State& st, E c, State*& other, bool& taken);
static void setupHandlers() {
    auto name = [](State& st, Val v) { return v.e->isConst() ? cstr(st, (uint64_t)v.e->val) : string("?"); };
    H["__vf_sym"] = [=](State& st, KInst&, vector<Val>& a) {
        string n = name(st, a[0]); unsigned w = (unsigned)a[1].e->val;
        ret(st, X.zext(makeSym(st, n, w), 64));
    };
    H["__vf_choose"] = [=](State& st, KInst&, vector<Val>& a) {  // forks: 0..n-1
        u128 n; if (!concretize(st, a[1].e, n, "choice count")) return;
        string nm = name(st, a[0]);
        E v = makeSym(st, nm, 32);
        if (v->isConst()) { ret(st, v); return; }
        E c = X.bin(K_Ult, v, X.con(n, 32));
        if (n == 0) { kill(st); return; }
        addC(st, c);
        vector<std::pair<u128, vector<u128>>> others;
        syncModel(st);
        for (u128 i = n; i-- > 1;) { vector<u128> m; if (query(st, X.bin(K_Eq, v, X.con(i, 32)), &m) == 1) others.push_back({i, m}); }
        forkWithReg(st, v, others);
        st.model[(size_t)v->val] = 0; addC(st, X.bin(K_Eq, v, X.con(0, 32)));
        ret(st, X.con(0, 32));
    };
    H["__vf_concretize"] = [=](State& st, KInst&, vector<Val>& a) { u128 v; if (!concretize(st, a[0].e, v, "concretize")) return; ret(st, X.con(v, 64)); };
    H["__vf_assume"] = [=](State& st, KInst&, vector<Val>& a) {
        E c = a[0].e; if (c->w != 1) c = X.extract(c, 0, 1); c = simp(st, c);
        if (c->undef && !undefCheck(st, c, "in assume")) return;
        syncModel(st);
        if (c->isTrue()) { retv(st); return; }
        if (c->isFalse()) { stat_.killed++; kill(st); return; }
        if (X.eval(c, st.model) != 1) { vector<u128> m; int r = query(st, c, &m); if (r != 1) { stat_.killed++; kill(st); return; } st.model = m; }
        addC(st, c); retv(st);
    };
    H["__vf_assert"] = [=](State& st, KInst&, vector<Val>& a) {
        E c = a[0].e; if (c->w != 1) c = X.extract(c, 0, 1);
        stat_.asserts++;
        if (!require(st, c, "assert", name(st, a[1]))) return;
        retv(st);
    };
    H["__vf_reach"] = [=](State& st, KInst&, vector<Val>& a) { st.reach.insert(name(st, a[0])); retv(st); };
    H["__vf_observe"] = [=](State& st, KInst&, vector<Val>& a) { E e = simp(st, a[0].e); if (e->undef && !undefCheck(st, e, "observed")) return; st.obs.push_back(e); retv(st); };
    H["__vf_param"] = [=](State& st, KInst&, vector<Val>& a) { string n = name(st, a[0]); auto it = opt.params.find(n); ret(st, it == opt.params.end() ? a[1].e : X.con((u128)(i128)it->second, 32)); };
    H["__vf_noleak"] = [=](State& st, KInst&, vector<Val>&) { st.leak = false; retv(st); };
    H["__vf_is_engine"] = [=](State& st, KInst&, vector<Val>&) { ret(st, X.con(1, 32)); };
    H["__vf_live_blocks"] = [=](State& st, KInst&, vector<Val>&) { unsigned n = 0; for (auto& o : st.objs) if (o.o->kind == O_Malloc || o.o->kind == O_New || o.o->kind == O_NewArr) n++; ret(st, X.con(n, 32)); };
    auto gaddr = [](State& st, E e) -> uint64_t { u128 v; if (!concretize(st, e, v, "ghost")) return 0; return (uint64_t)v; };
    H["__vf_ctor"] = [=](State& st, KInst&, vector<Val>& a) { uint64_t p = gaddr(st, a[0].e); if (st.dead) return; if (!st.ghost.insert(p).second) { report(st, "lifetime", "element constructed over a live element", st.model); kill(st); return; } retv(st); };
    H["__vf_dtor"] = [=](State& st, KInst&, vector<Val>& a) { uint64_t p = gaddr(st, a[0].e); if (st.dead) return; if (!st.ghost.erase(p)) { report(st, "lifetime", "destructor run on storage holding no live element", st.model); kill(st); return; } retv(st); };
    H["__vf_use"] = [=](State& st, KInst&, vector<Val>& a) { uint64_t p = gaddr(st, a[0].e); if (st.dead) return; if (!st.ghost.count(p)) { report(st, "lifetime", "use of storage holding no live element", st.model); kill(st); return; } retv(st); };
    H["__vf_allocs"] = [=](State& st, KInst&, vector<Val>&) { ret(st, X.con(st.nalloc, 32)); };
    H["__vf_live"] = [=](State& st, KInst&, vector<Val>&) { ret(st, X.con(st.ghost.size(), 32)); };
    // threads
    H["__vf_spawn"] = [=](State& st, KInst&, vector<Val>& a) {
        auto it = fnByAddr.find((uint64_t)a[0].e->val); if (it == fnByAddr.end()) fatal("spawn of unknown function");
        retv(st);
        if (st.th[st.cur].vc.empty()) { st.th[st.cur].vc.assign(8, 0); st.th[st.cur].vc[st.cur] = 1; }
        st.th.emplace_back(); int id = st.th.size() - 1; Thread& n = st.th.back();
        n.vc = st.th[st.cur].vc; if (n.vc.size() < 8) n.vc.resize(8, 0); n.vc[id] = 1; tick(st);
        int old = st.cur; st.cur = id; vector<Val> args{a[1]}; pushCall(st, it->second, args); st.cur = old;
        st.th[id].pk = P_Fresh;
    };
    H["__vf_join_all"] = [=](State& st, KInst&, vector<Val>&) {
        if (!visible(st, P_Join, 0)) return;
        for (auto& t : st.th) vcJoin(st.th[0].vc, t.vc);
        T(st).pk = P_None; retv(st);
    };
    H["__vf_spurious"] = [=](State& st, KInst&, vector<Val>& a) { st.spurious = (int)a[0].e->val; retv(st); };
    auto lockH = [=](State& st, KInst&, vector<Val>& a) {
        u128 m; if (!concretize(st, a[0].e, m, "mutex")) return;
        if (st.th.size() < 2) { auto& x = st.mx[(uint64_t)m]; if (x.owner >= 0) { memErr(st, "deadlock", "mutex locked twice by one thread"); return; } x.owner = st.cur; ret(st, X.con(0, 32)); return; }
        if (!visible(st, P_Lock, (uint64_t)m)) return;
        acquire(st, (uint64_t)m); ret(st, X.con(0, 32));
    };
    H["pthread_mutex_lock"] = lockH;
    H["pthread_mutex_trylock"] = [=](State& st, KInst&, vector<Val>& a) {
        u128 m; if (!concretize(st, a[0].e, m, "mutex")) return;
        if (!visible(st, P_TryLock, (uint64_t)m)) return;
        if (st.mx[(uint64_t)m].owner >= 0) { noEffect(st, (uint64_t)m); ret(st, X.con(16, 32)); return; }
        acquire(st, (uint64_t)m); ret(st, X.con(0, 32));
    };
    H["pthread_mutex_unlock"] = [=](State& st, KInst&, vector<Val>& a) {
        u128 m; if (!concretize(st, a[0].e, m, "mutex")) return;
        if (!visible(st, P_Unlock, (uint64_t)m)) return;
        if (st.mx[(uint64_t)m].owner != st.cur) { memErr(st, "lock", "unlock of a mutex not held by this thread"); return; }
        release(st, (uint64_t)m); ret(st, X.con(0, 32));
    };
    auto rw = [=](bool wr) { return [=](State& st, KInst&, vector<Val>& a) {
        u128 m; if (!concretize(st, a[0].e, m, "lock")) return; auto& x = st.mx[(uint64_t)m];
        if (st.th.size() < 2) { if (x.owner >= 0 || (wr && x.readers)) { memErr(st, "deadlock", "lock taken twice by one thread"); return; } }
        else if (!visible(st, wr ? P_WrLock : P_RdLock, (uint64_t)m)) return;
        if (wr) acquire(st, (uint64_t)m); else { st.mx[(uint64_t)m].readers++; vcJoin(T(st).vc, st.mx[(uint64_t)m].vc); effect(st, (uint64_t)m); }
        ret(st, X.con(0, 32));
    }; };
    H["pthread_rwlock_rdlock"] = rw(false); H["pthread_rwlock_wrlock"] = rw(true);
    H["pthread_rwlock_unlock"] = [=](State& st, KInst&, vector<Val>& a) {
        u128 m; if (!concretize(st, a[0].e, m, "lock")) return;
        if (!visible(st, P_Unlock, (uint64_t)m)) return;
        auto& x = st.mx[(uint64_t)m];
        if (x.owner == st.cur) release(st, (uint64_t)m);
        else if (x.readers) { x.readers--; vcJoin(x.rvc, T(st).vc); tick(st); effect(st, (uint64_t)m); }
        else { memErr(st, "lock", "unlock of a lock that is not held"); return; }
        ret(st, X.con(0, 32));
    };
    auto waitOn = [=](State& st, uint64_t c, uint64_t m, bool timed) {
        if (st.th.size() < 2) { if (timed) { ret(st, X.con(110, 32)); return; } memErr(st, "deadlock", "condition wait with no other thread"); return; }
        Thread& t = T(st);
        if (t.pk == P_Relock) { // woken: reacquire
            if (!st.granted) { schedule(st); return; }
            st.granted = false; bool out = t.timedOut; t.timed = t.timedOut = false; acquire(st, m); T(st).pk = P_None; if (timed) ret(st, X.con(out ? 110 : 0, 32)); else retv(st); return;
        }
        if (!visible(st, P_Wait, c, m)) return;
        if (st.mx[m].owner != st.cur) { memErr(st, "lock", "condition wait without holding the mutex"); return; }
        release(st, m);
        T(st).pk = P_Waiting; T(st).pa = c; T(st).pb = m; T(st).timed = timed; T(st).timedOut = false;
        schedule(st);
    };
    auto waitH = [=](State& st, KInst& ki, vector<Val>& a) {
        // std::condition_variable::wait(unique_lock&): unique_lock = {mutex*, bool}
        u128 c; if (!concretize(st, a[0].e, c, "condvar")) return;
        E me; if (!loadE(st, a[1].e, 64, 8, me)) return;
        waitOn(st, (uint64_t)c, (uint64_t)me->val, false);
    };
    auto waitC = [=](State& st, KInst&, vector<Val>& a) { u128 c, m; if (!concretize(st, a[0].e, c, "condvar") || !concretize(st, a[1].e, m, "mutex")) return; waitOn(st, (uint64_t)c, (uint64_t)m, true); };
    H["pthread_cond_clockwait"] = waitC; H["pthread_cond_timedwait"] = waitC;
    auto now = [=](State& st, KInst&, vector<Val>&) { st.clock += 1000000; ret(st, X.con(st.clock, 64)); };
    H["_ZNSt6chrono3_V212steady_clock3nowEv"] = now; H["_ZNSt6chrono3_V212system_clock3nowEv"] = now;
    H["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = waitH;
    auto notify = [=](bool all) { return [=](State& st, KInst&, vector<Val>& a) {
        u128 c; if (!concretize(st, a[0].e, c, "condvar")) return;
        if (st.th.size() < 2) { retv(st); return; }
        if (!visible(st, P_Notify, (uint64_t)c)) return;
        vector<int> w; for (size_t i = 0; i < st.th.size(); i++) if (!st.th[i].done && st.th[i].pk == P_Waiting && st.th[i].pa == (uint64_t)c) w.push_back(i);
        auto wake = [](State& s, int i) { s.th[i].pk = P_Relock; s.th[i].pa = s.th[i].pb; };
        T(st).pk = P_None;
        if (all) for (int i : w) wake(st, i);
        else if (!w.empty()) {
            for (size_t j = 1; j < w.size(); j++) { State* n = clone(st); wake(*n, w[j]); n->sched.push_back("n" + std::to_string(w[j])); retv(*n); work.push_back(n); }
            wake(st, w[0]); if (w.size() > 1) st.sched.push_back("n" + std::to_string(w[0]));
        }
        retv(st);
    }; };
    H["_ZNSt18condition_variable10notify_oneEv"] = notify(false);
    H["_ZNSt18condition_variable10notify_allEv"] = notify(true);
    for (auto n : {"_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev",
        "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt11logic_errorC1ERKS_", "_ZNSt11logic_errorC2ERKS_",
        "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt12length_errorD1Ev", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev",
        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__vf_nop", "sched_yield_", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev"})
        H[n] = [=](State& st, KInst&, vector<Val>&) { retv(st); };
    auto zero = [=](State& st, KInst& ki, vector<Val>&) { if (ki.w) ret(st, X.con(0, ki.w)); else retv(st); };
    for (auto n : {"__cxa_atexit", "printf", "fprintf", "puts", "putchar", "sched_yield", "__cxa_guard_abort", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_cond_init", "pthread_cond_destroy", "nanosleep", "usleep"}) H[n] = zero;
    auto uncaught = [=](State& st, KInst& ki, vector<Val>&) { unsigned n = 0; for (auto& x : st.excs) if (!x.second.handlers) n++; ret(st, ki.w == 1 ? X.boolean(n > 0) : X.con(ki.w == 8 ? n > 0 : n, ki.w)); };
    H["_ZSt18uncaught_exceptionv"] = uncaught; H["_ZSt19uncaught_exceptionsv"] = uncaught;
    H["__cxa_guard_acquire"] = [=](State& st, KInst&, vector<Val>& a) { E v; if (!loadE(st, a[0].e, 8, 1, v)) return; ret(st, X.con(v->isConst() && v->val ? 0 : 1, 32)); };
    H["__cxa_guard_release"] = [=](State& st, KInst&, vector<Val>& a) { if (!storeE(st, a[0].e, X.con(1, 8), 1)) return; retv(st); };
    // allocation
    auto alloc = [=](ObjKind k) { return [=](State& st, KInst&, vector<Val>& a) { u128 n; if (!concretize(st, a[0].e, n, "allocation size")) return;
        if (n >> 40) { if (k == O_Malloc) { ret(st, X.con(0, 64)); return; } throwStd(st, "_ZTISt9bad_alloc"); return; }
        ret(st, allocate(st, n, 16, k)); }; };
    H["malloc"] = alloc(O_Malloc); H["_Znwm"] = alloc(O_New); H["_Znam"] = alloc(O_NewArr); H["_ZnwmRKSt9nothrow_t"] = alloc(O_New); H["_ZnamRKSt9nothrow_t"] = alloc(O_NewArr);
    auto allocA = [=](ObjKind k) { return [=](State& st, KInst&, vector<Val>& a) { u128 n, al; if (!concretize(st, a[0].e, n, "allocation size") || !concretize(st, a[1].e, al, "alignment")) return; ret(st, allocate(st, n, (unsigned)al, k)); }; };
    H["_ZnwmSt11align_val_t"] = allocA(O_New); H["_ZnamSt11align_val_t"] = allocA(O_NewArr);
    H["aligned_alloc"] = [=](State& st, KInst&, vector<Val>& a) { u128 n, al; if (!concretize(st, a[1].e, n, "allocation size") || !concretize(st, a[0].e, al, "alignment")) return; ret(st, allocate(st, n, (unsigned)al, O_Malloc)); };
    H["calloc"] = [=](State& st, KInst&, vector<Val>& a) { u128 n, m; if (!concretize(st, a[0].e, n, "allocation size") || !concretize(st, a[1].e, m, "allocation size")) return;
        E p = allocate(st, n * m, 16, O_Malloc); Obj* o = getObj(st, (uint32_t)(p->val >> 32)); for (auto& c : o->cells) c = Cell{X.con(0, 8), 0}; ret(st, p); };
    H["realloc"] = [=](State& st, KInst&, vector<Val>& a) { u128 p, n; if (!concretize(st, a[0].e, p, "pointer") || !concretize(st, a[1].e, n, "allocation size")) return;
        if (!p) { ret(st, allocate(st, n, 16, O_Malloc)); return; }
        Obj* o = getObj(st, (uint32_t)(p >> 32)); if (!o || o->base != (uint64_t)p || o->kind != O_Malloc) { memErr(st, "memory", "realloc of invalid pointer"); return; }
        uint64_t old = o->size; E q = allocate(st, n, 16, O_Malloc); if (!copyMem(st, (uint64_t)q->val, (uint64_t)p, std::min<uint64_t>(old, (uint64_t)n), true)) return; dropObj(st, (uint32_t)(p >> 32)); ret(st, q); };
    auto dealloc = [=](ObjKind k, const char* how) { return [=](State& st, KInst&, vector<Val>& a) { if (!deallocate(st, a[0].e, k, how)) return; retv(st); }; };
    H["free"] = dealloc(O_Malloc, "free");
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H[n] = dealloc(O_New, "operator delete");
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) H[n] = dealloc(O_NewArr, "operator delete[]");
    // mem/str
    auto cpy = [=](bool ov) { return [=](State& st, KInst& ki, vector<Val>& a) { u128 d, s, n;
        E nl = simp(st, a[2].e), sp = simp(st, a[1].e);
        if (nl->isConst() && nl->val > 0 && nl->val <= 16 && !sp->isConst()) {  // small copy from a symbolic table index: no case split
            if (!concretize(st, a[0].e, d, "pointer")) return;
            E v; if (!loadE(st, sp, (unsigned)nl->val * 8, 1, v)) return;
            if (!storeE(st, X.con(d, 64), v, 1)) return;
            if (ki.w) ret(st, X.con(d, 64)); else retv(st);
            return;
        } if (!concretize(st, a[2].e, n, "copy length") || !concretize(st, a[0].e, d, "pointer") || !concretize(st, a[1].e, s, "pointer")) return;
        if (!copyMem(st, (uint64_t)d, (uint64_t)s, (uint64_t)n, ov)) return; if (ki.w) ret(st, X.con(d, 64)); else retv(st); }; };
    H["memcpy"] = cpy(false); H["memmove"] = cpy(true); H["llvm.memcpy"] = cpy(false); H["llvm.memmove"] = cpy(true);
    auto mset = [=](State& st, KInst& ki, vector<Val>& a) { u128 d, n; if (!concretize(st, a[2].e, n, "length") || !concretize(st, a[0].e, d, "pointer")) return;
        if (n) { Res r; if (!locate(st, (uint64_t)d, (uint64_t)n, true, r, "write (memset)")) return; if (!raceCheck(st, r.o, r.off, (unsigned)n, true, false)) return; Obj* w = writable(st, r.o); E b = X.extract(a[1].e, 0, 8); for (u128 i = 0; i < n; i++) w->cells[(size_t)(r.off + i)] = Cell{b, 0}; }
        if (ki.w) ret(st, X.con(d, 64)); else retv(st); };
    H["memset"] = mset; H["llvm.memset"] = mset;
    H["memcmp"] = H["bcmp"] = [=](State& st, KInst&, vector<Val>& a) { u128 p, q, n; if (!concretize(st, a[2].e, n, "length") || !concretize(st, a[0].e, p, "pointer") || !concretize(st, a[1].e, q, "pointer")) return;
        E r = X.con(0, 32);
        if (n) { Res x, y; if (!locate(st, (uint64_t)p, (uint64_t)n, false, x, "read (memcmp)") || !locate(st, (uint64_t)q, (uint64_t)n, false, y, "read (memcmp)")) return;
            if (!raceCheck(st, x.o, x.off, (unsigned)n, false, false) || !raceCheck(st, y.o, y.off, (unsigned)n, false, false)) return;
            for (u128 i = n; i-- > 0;) { E b = readAt(st, x.o, x.off + (uint64_t)i, 1); x.o = getObj(st, x.o->id); E c = readAt(st, y.o, y.off + (uint64_t)i, 1); y.o = getObj(st, y.o->id); x.o = getObj(st, x.o->id);
                r = X.ite(X.bin(K_Eq, b, c), r, X.ite(X.bin(K_Ult, b, c), X.con(0xffffffff, 32), X.con(1, 32))); } }
        ret(st, r); };
    // exceptions
    H["__cxa_allocate_exception"] = [=](State& st, KInst&, vector<Val>& a) { u128 n; if (!concretize(st, a[0].e, n, "size")) return; Obj* o = newObj(st, (uint32_t)n, 16, O_Exc, nullptr); ret(st, X.con(o->base, 64)); };
    H["__cxa_free_exception"] = [=](State& st, KInst&, vector<Val>& a) { dropObj(st, (uint32_t)(a[0].e->val >> 32)); retv(st); };
    H["__cxa_throw"] = [=](State& st, KInst& ki, vector<Val>& a) {
        auto* cb = cast<CallBase>(ki.I); auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts());
        uint64_t p = (uint64_t)a[0].e->val; st.excs[p] = ExcInfo{g ? g->getName().str() : "?", (uint64_t)a[2].e->val, 0}; unwind(st, p, false); };
    H["__cxa_begin_catch"] = [=](State& st, KInst&, vector<Val>& a) { uint64_t p = (uint64_t)a[0].e->val; st.excs[p].handlers++; T(st).caught.push_back(p); ret(st, a[0].e); };
    H["__cxa_get_exception_ptr"] = [=](State& st, KInst&, vector<Val>& a) { ret(st, a[0].e); };
    H["__cxa_end_catch"] = [=](State& st, KInst&, vector<Val>&) {
        if (T(st).caught.empty()) { retv(st); return; }
        uint64_t p = T(st).caught.back(); T(st).caught.pop_back();
        auto& x = st.excs[p];
        if (--x.handlers > 0) { retv(st); return; }
        uint64_t d = x.dtor; st.excs.erase(p);
        auto it = fnByAddr.find(d);
        if (d && it != fnByAddr.end() && !it->second->isDeclaration() && !H.count(it->second->getName().str())) { pushCall(st, it->second, {Val{X.con(p, 64), nullptr}}, p); return; }
        dropObj(st, (uint32_t)(p >> 32)); retv(st); };
    H["__cxa_rethrow"] = [=](State& st, KInst&, vector<Val>&) { if (T(st).caught.empty()) { memErr(st, "terminate", "rethrow with no exception"); return; } uint64_t p = T(st).caught.back(); st.excs[p].handlers += 1; /* end_catch during unwind */ unwind(st, p, false); };
    H["llvm.eh.typeid.for"] = [=](State& st, KInst& ki, vector<Val>&) { auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(ki.I)->getArgOperand(0)->stripPointerCasts()); ret(st, X.con(typeId(g ? g->getName().str() : "catch-all"), 32)); };
    for (auto n : {"__clang_call_terminate", "_ZSt9terminatev"}) H[n] = [=](State& st, KInst&, vector<Val>&) { memErr(st, "terminate", "std::terminate called"); };
    H["abort"] = [=](State& st, KInst&, vector<Val>&) { memErr(st, "abort", "abort called"); };
    H["exit"] = [=](State& st, KInst&, vector<Val>&) { memErr(st, "abort", "exit called"); };
    H["__assert_fail"] = [=](State& st, KInst&, vector<Val>& a) { memErr(st, "abort", "assertion failed: " + name(st, a[0])); };
    H["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [=](State& st, KInst&, vector<Val>&) { memErr(st, "abort", "libstdc++ assertion failed"); };
    H["__cxa_pure_virtual"] = [=](State& st, KInst&, vector<Val>&) { memErr(st, "abort", "pure virtual call"); };
    struct { const char* f; const char* t; } thr[] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
        {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
        {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}};
    for (auto& t : thr) { string ty = t.t; H[t.f] = [=](State& st, KInst&, vector<Val>&) { throwStd(st, ty); }; }
    // math
    auto m1 = [=](Kind k, unsigned p) { return [=](State& st, KInst& ki, vector<Val>& a) { ret(st, X.fp(k, ki.w, a[0].e, nullptr, p)); }; };
    for (auto n : {"sqrt", "sqrtf", "llvm.sqrt"}) H[n] = m1(K_FSqrt, 0);
    for (auto n : {"floor", "floorf", "llvm.floor"}) H[n] = m1(K_FRnd, 0);
    for (auto n : {"ceil", "ceilf", "llvm.ceil"}) H[n] = m1(K_FRnd, 1);
    for (auto n : {"trunc", "truncf", "llvm.trunc"}) H[n] = m1(K_FRnd, 2);
    for (auto n : {"round", "roundf", "llvm.round"}) H[n] = m1(K_FRnd, 3);
    for (auto n : {"rint", "rintf", "llvm.rint", "llvm.nearbyint", "nearbyint"}) H[n] = m1(K_FRnd, 4);
    for (auto n : {"fabs", "fabsf", "llvm.fabs"}) H[n] = [=](State& st, KInst& ki, vector<Val>& a) { E e = a[0].e; if (S.real && !e->isConst()) { E z = X.con(0, e->w); ret(st, X.ite(X.fp(K_FLt, 1, e, z), X.fp(K_FSub, ki.w, z, e), e)); return; } ret(st, X.concat(X.con(0, 1), X.extract(e, 0, e->w - 1))); };
    for (auto n : {"llvm.copysign", "copysign", "copysignf"}) H[n] = [=](State& st, KInst& ki, vector<Val>& a) { E e = a[0].e; ret(st, X.concat(X.extract(a[1].e, e->w - 1, 1), X.extract(e, 0, e->w - 1))); };
    for (auto n : {"llvm.fma", "fma", "fmaf"}) H[n] = [=](State& st, KInst& ki, vector<Val>& a) { if (S.real) { ret(st, X.fp(K_FAdd, ki.w, X.fp(K_FMul, ki.w, a[0].e, a[1].e), a[2].e)); return; }
        u128 x, y, z; if (!concretize(st, a[0].e, x, "fma argument") || !concretize(st, a[1].e, y, "fma argument") || !concretize(st, a[2].e, z, "fma argument")) return; ret(st, ki.w == 32 ? X.con(fb(std::fma(bf(x), bf(y), bf(z))), 32) : X.con(db(std::fma(bd(x), bd(y), bd(z))), 64)); };
    H["llvm.fmuladd"] = [=](State& st, KInst& ki, vector<Val>& a) { ret(st, X.fp(K_FAdd, ki.w, X.fp(K_FMul, ki.w, a[0].e, a[1].e), a[2].e)); };
    auto dbl1 = [=](double (*f)(double)) { return [=](State& st, KInst& ki, vector<Val>& a) { u128 v; if (!concretize(st, a[0].e, v, "libm argument")) return; ret(st, ki.w == 32 ? X.con(fb((float)f(bf(v))), 32) : X.con(db(f(bd(v))), 64)); }; };
    for (auto n : {"log", "logf"}) H[n] = dbl1(std::log); for (auto n : {"exp", "expf"}) H[n] = dbl1(std::exp); for (auto n : {"log10", "log10f"}) H[n] = dbl1(std::log10); for (auto n : {"log2", "log2f"}) H[n] = dbl1(std::log2);
    for (auto n : {"sin", "sinf"}) H[n] = dbl1(std::sin); for (auto n : {"cos", "cosf"}) H[n] = dbl1(std::cos); for (auto n : {"tan", "tanf"}) H[n] = dbl1(std::tan); for (auto n : {"atan", "atanf"}) H[n] = dbl1(std::atan);
    auto dbl2 = [=](double (*f)(double, double)) { return [=](State& st, KInst& ki, vector<Val>& a) { u128 v, u; if (!concretize(st, a[0].e, v, "libm argument") || !concretize(st, a[1].e, u, "libm argument")) return; ret(st, ki.w == 32 ? X.con(fb((float)f(bf(v), bf(u))), 32) : X.con(db(f(bd(v), bd(u))), 64)); }; };
    for (auto n : {"pow", "powf", "llvm.pow", "llvm.powi"}) { auto f = dbl2(std::pow); bool pi = string(n) == "llvm.powi"; H[n] = [=](State& st, KInst& ki, vector<Val>& a) {
        // a small whole exponent is repeated multiplication (correctly rounded for 0, 1 and 2)
        if (a[1].e->isConst() && (!a[0].e->isConst() || pi)) { double y = pi ? (double)(int32_t)a[1].e->val : ki.w == 32 ? (double)bf(a[1].e->val) : bd(a[1].e->val);
            if (y == 0 || y == 1 || y == 2 || (y == (int)y && y > 0 && y < 8 && (S.real || pi))) { E r = X.con(ki.w == 32 ? (u128)fb(1.0f) : (u128)db(1.0), ki.w); for (int i = 0; i < (int)y; i++) r = i ? X.fp(K_FMul, ki.w, r, a[0].e) : a[0].e; ret(st, r); return; }
            if (y == 0.5 && S.real) { ret(st, X.fp(K_FSqrt, ki.w, a[0].e)); return; } }
        f(st, ki, a); }; }
     for (auto n : {"fmod", "fmodf"}) H[n] = dbl2(std::fmod); for (auto n : {"atan2", "atan2f"}) H[n] = dbl2(std::atan2); for (auto n : {"hypot", "hypotf"}) { auto f = dbl2(std::hypot); H[n] = [=](State& st, KInst& ki, vector<Val>& a) { if (S.real && !(a[0].e->isConst() && a[1].e->isConst())) { ret(st, X.fp(K_FSqrt, ki.w, X.fp(K_FAdd, ki.w, X.fp(K_FMul, ki.w, a[0].e, a[0].e), X.fp(K_FMul, ki.w, a[1].e, a[1].e)))); return; } f(st, ki, a); }; }
    H["llvm.is.fpclass"] = [=](State& st, KInst& ki, vector<Val>& a) {
        E e = a[0].e; unsigned mask = (unsigned)a[1].e->val; unsigned w = e->w, mant = w == 32 ? 23 : 52; if (w > 64) { u128 v; if (!concretize(st, e, v, "fp80")) return; long double d = bl(v); bool r = false; if ((mask & 3) && d != d) r = true; if ((mask & 0x204) && std::isinf(d)) r = true; if ((mask & 0x1f8) && std::isfinite(d)) r = true; ret(st, X.boolean(r)); return; }
        E s = X.extract(e, w - 1, 1), ex = X.extract(e, mant, w - 1 - mant), mt = X.extract(e, 0, mant);
        E exAll = X.bin(K_Eq, ex, X.con(maskw(ex->w), ex->w)), ex0 = X.bin(K_Eq, ex, X.con(0, ex->w)), m0 = X.bin(K_Eq, mt, X.con(0, mant)), q = X.extract(mt, mant - 1, 1);
        E pos = X.notE(s); E r = X.fls; auto add = [&](unsigned bit, E c) { if (mask & bit) r = X.orE(r, c); };
        E nan = X.andE(exAll, X.notE(m0)), inf = X.andE(exAll, m0), zero = X.andE(ex0, m0), sub = X.andE(ex0, X.notE(m0)), nor = X.andE(X.notE(exAll), X.notE(ex0));
        add(1, X.andE(nan, X.notE(q))); add(2, X.andE(nan, q)); add(4, X.andE(inf, s)); add(8, X.andE(nor, s)); add(16, X.andE(sub, s)); add(32, X.andE(zero, s)); add(64, X.andE(zero, pos)); add(128, X.andE(sub, pos)); add(256, X.andE(nor, pos)); add(512, X.andE(inf, pos));
        ret(st, r); };
    auto mm = [=](bool sg, bool mx) { return [=](State& st, KInst&, vector<Val>& a) { E lt = X.bin(sg ? K_Slt : K_Ult, a[0].e, a[1].e); ret(st, mx ? X.ite(lt, a[1].e, a[0].e) : X.ite(lt, a[0].e, a[1].e)); }; };
    H["llvm.smax"] = mm(true, true); H["llvm.smin"] = mm(true, false); H["llvm.umax"] = mm(false, true); H["llvm.umin"] = mm(false, false);
    auto fmm = [=](bool mx) { return [=](State& st, KInst& ki, vector<Val>& a) { E x = a[0].e, y = a[1].e; E xn = X.fp(K_FUno, 1, x, x), yn = X.fp(K_FUno, 1, y, y); E lt = X.fp(K_FLt, 1, x, y); E r = mx ? X.ite(lt, y, x) : X.ite(lt, x, y); ret(st, X.ite(xn, y, X.ite(yn, x, r))); }; };
    for (auto n : {"fmax", "fmaxf", "llvm.maxnum"}) H[n] = fmm(true); for (auto n : {"fmin", "fminf", "llvm.minnum"}) H[n] = fmm(false);
    auto absI = [=](State& st, KInst&, vector<Val>& a) { E e = a[0].e; ret(st, X.ite(X.bin(K_Slt, e, X.con(0, e->w)), X.bin(K_Sub, X.con(0, e->w), e), e)); };
    for (auto n : {"abs", "labs", "llabs", "llvm.abs"}) H[n] = absI;
    auto ctz = [=](bool lead) { return [=](State& st, KInst& ki, vector<Val>& a) { E e = a[0].e; E r = X.con(e->w, e->w); for (unsigned i = 0; i < e->w; i++) { unsigned b = lead ? i : e->w - 1 - i; r = X.ite(X.extract(e, b, 1), X.con(lead ? e->w - 1 - b : b, e->w), r); } ret(st, r); }; };
    H["llvm.ctlz"] = ctz(true); H["llvm.cttz"] = ctz(false);
    H["llvm.ctpop"] = [=](State& st, KInst& ki, vector<Val>& a) { E e = a[0].e; E r = X.con(0, e->w); for (unsigned i = 0; i < e->w; i++) r = X.bin(K_Add, r, X.zext(X.extract(e, i, 1), e->w)); ret(st, r); };
    H["llvm.bswap"] = [=](State& st, KInst& ki, vector<Val>& a) { E e = a[0].e; E r = nullptr; for (unsigned i = 0; i < e->w; i += 8) { E b = X.extract(e, i, 8); r = r ? X.concat(r, b) : b; } ret(st, r); };
    auto ovf = [=](Kind k, bool sg) { return [=](State& st, KInst&, vector<Val>& a) {
        E x = a[0].e, y = a[1].e; unsigned w = x->w; unsigned ww = std::min(128u, k == K_Mul ? 2 * w : w + 1);
        E wide = sg ? X.bin(k, X.sext(x, ww), X.sext(y, ww)) : X.bin(k, X.zext(x, ww), X.zext(y, ww)); E r = X.extract(wide, 0, w);
        E o = X.notE(X.bin(K_Eq, wide, sg ? X.sext(r, ww) : X.zext(r, ww)));
        finishCall(st, mkAgg({Val{r, nullptr}, Val{o, nullptr}}), true); }; };
    H["llvm.sadd.with.overflow"] = ovf(K_Add, true); H["llvm.uadd.with.overflow"] = ovf(K_Add, false); H["llvm.ssub.with.overflow"] = ovf(K_Sub, true); H["llvm.usub.with.overflow"] = ovf(K_Sub, false); H["llvm.smul.with.overflow"] = ovf(K_Mul, true); H["llvm.umul.with.overflow"] = ovf(K_Mul, false);
    // ignorable intrinsics
    for (auto n : {"llvm.experimental.noalias.scope.decl", "llvm.assume", "llvm.donothing", "llvm.invariant.start", "llvm.invariant.end", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.prefetch", "llvm.var.annotation"}) H[n] = zero;
    H["llvm.trap"] = [=](State& st, KInst&, vector<Val>&) { memErr(st, "abort", "trap executed"); };
    H["llvm.expect"] = [=](State& st, KInst&, vector<Val>& a) { ret(st, a[0].e); };
    H["llvm.launder.invariant.group"] = H["llvm.strip.invariant.group"] = H["llvm.ptr.annotation"] = H["llvm.threadlocal.address"] = H["llvm.expect"];
    H["llvm.is.constant"] = [=](State& st, KInst&, vector<Val>&) { ret(st, X.fls); };
    H["llvm.objectsize"] = [=](State& st, KInst& ki, vector<Val>&) { ret(st, X.con(maskw(ki.w), ki.w)); };
    H["llvm.stacksave"] = [=](State& st, KInst&, vector<Val>&) { ret(st, X.con(0, 64)); };
    H["llvm.stackrestore"] = zero;
    auto life = [=](bool start) { return [=](State& st, KInst&, vector<Val>& a) {
        E p = simp(st, a[1].e); if (!p->isConst()) { retv(st); return; }
        Obj* o = findObj(st, (uint32_t)(p->val >> 32));
        if (o && o->kind == O_Stack && o->base == (uint64_t)p->val) { o = writable(st, o); o->scopeDead = !start; if (start) for (auto& c : o->cells) c = Cell{nullptr, 0}; }
        retv(st); }; };
    H["llvm.lifetime.start"] = life(true); H["llvm.lifetime.end"] = life(false);
    H["llvm.va_start"] = H["llvm.va_end"] = zero;
    H["__errno_location"] = [=](State& st, KInst&, vector<Val>&) { static std::map<int, int> dummy; GlobalVariable* g = M->getGlobalVariable("__vf_errno", true); if (!g) fatal("errno used but __vf_errno not defined"); ret(st, X.con(gvAddr(g), 64)); };
    // chrono / sleeping: arbitrary
    H["_ZNSt6chrono3_V212steady_clock3nowEv"] = H["_ZNSt6chrono3_V212system_clock3nowEv"] = [=](State& st, KInst&, vector<Val>&) { ret(st, makeSym(st, "clock", 64)); };
}
static string baseName(const Function* f) {
    string n = f->getName().str();
    if (f->isIntrinsic()) { n = Intrinsic::getBaseName(f->getIntrinsicID()).str(); }
    return n;
}

// ---------------------------------------------------------------- branching
static bool branch(State& st, E c, const BasicBlock* tb, const BasicBlock* fbk) {
    c = simp(st, c); if (!c->isConst()) c = deep(st, c, 7);
    if (c->isConst()) return gotoBB(st, c->val ? tb : fbk);
    if (c->undef && !undefCheck(st, c, "in branch")) return false;
    syncModel(st);
    bool v = X.eval(c, st.model) == 1;
    E mine = v ? c : X.notE(c), other = v ? X.notE(c) : c;
    vector<u128> m;
    int r = query(st, other, &m);
    if (r == 1) {
        State* n = clone(st);
        n->model = m; addC(*n, other);
        gotoBB(*n, v ? fbk : tb);
        work.push_back(n);
        addC(st, mine);
    } else if (r == 0) { stat_.infeasible++; st.known[c->id] = v; }
    return gotoBB(st, v ? tb : fbk);
}

static void doCall(State& st, KInst& ki) {
    auto* cb = cast<CallBase>(ki.I);
    const Function* callee = ki.callee;
    vector<Val> args; args.reserve(cb->arg_size());
    for (unsigned i = 0; i < cb->arg_size(); i++) { if (ki.ops[i] == INT_MIN) args.push_back(Val{X.con(0, 64), nullptr}); else args.push_back(opv(st, ki, i)); }
    if (!callee) {
        if (cb->isInlineAsm()) { if (ki.dest < 0) { retv(st); return; } fatal("inline asm", ki.I); }
        E fe = ope(st, ki, ki.ops.size() - 1);
        u128 a; if (!concretize(st, fe, a, "function pointer")) return;
        auto it = fnByAddr.find((uint64_t)a);
        if (it == fnByAddr.end()) { memErr(st, "memory", "call through invalid function pointer"); return; }
        callee = it->second;
    }
    static std::unordered_map<const Function*, Handler*> hc;
    auto h = hc.find(callee);
    if (h == hc.end()) { auto j = H.find(baseName(callee)); h = hc.emplace(callee, j == H.end() ? nullptr : &j->second).first; }
    if (h->second) { (*h->second)(st, ki, args); return; }
    if (callee->isDeclaration()) {
        if (Function* w = M->getFunction(("__wrap_" + callee->getName()).str())) if (!w->isDeclaration()) { pushCall(st, w, args, 0, cb); return; }
        fatal("call to unknown external function " + callee->getName().str() + " (" + demangled(callee) + ")", ki.I);
    }
    if (Function* w = M->getFunction(("__wrap_" + callee->getName()).str())) if (!w->isDeclaration()) callee = w;
    pushCall(st, callee, args, 0, cb);
}

static E gepAddr(State& st, KInst& ki) {
    auto* g = cast<GetElementPtrInst>(ki.I);
    E p = ope(st, ki, 0);
    unsigned i = 1;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
        if (StructType* s = it.getStructTypeOrNull()) {
            unsigned ix = cast<ConstantInt>(it.getOperand())->getZExtValue();
            p = X.bin(K_Add, p, X.con((uint64_t)DL->getStructLayout(s)->getElementOffset(ix), 64));
        } else {
            uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            E ix = X.sext(simp(st, ope(st, ki, i)), 64);
            p = X.bin(K_Add, p, X.bin(K_Mul, ix, X.con(sz, 64)));
        }
    }
    return p;
}
static E icmp(CmpInst::Predicate p, E a, E b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return X.bin(K_Eq, a, b);
    case CmpInst::ICMP_NE: return X.notE(X.bin(K_Eq, a, b));
    case CmpInst::ICMP_UGT: return X.bin(K_Ult, b, a);
    case CmpInst::ICMP_UGE: return X.bin(K_Ule, b, a);
    case CmpInst::ICMP_ULT: return X.bin(K_Ult, a, b);
    case CmpInst::ICMP_ULE: return X.bin(K_Ule, a, b);
    case CmpInst::ICMP_SGT: return X.bin(K_Slt, b, a);
    case CmpInst::ICMP_SGE: return X.bin(K_Sle, b, a);
    case CmpInst::ICMP_SLT: return X.bin(K_Slt, a, b);
    case CmpInst::ICMP_SLE: return X.bin(K_Sle, a, b);
    default: fatal("icmp predicate");
    }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
    auto f = [&](Kind k, E x, E y) { return X.fp(k, 1, x, y); };
    E uno = f(K_FUno, a, b);
    switch (p) {
    case CmpInst::FCMP_FALSE: return X.fls; case CmpInst::FCMP_TRUE: return X.tru;
    case CmpInst::FCMP_OEQ: return f(K_FEq, a, b); case CmpInst::FCMP_UEQ: return X.orE(uno, f(K_FEq, a, b));
    case CmpInst::FCMP_OGT: return f(K_FLt, b, a); case CmpInst::FCMP_UGT: return X.orE(uno, f(K_FLt, b, a));
    case CmpInst::FCMP_OGE: return f(K_FLe, b, a); case CmpInst::FCMP_UGE: return X.orE(uno, f(K_FLe, b, a));
    case CmpInst::FCMP_OLT: return f(K_FLt, a, b); case CmpInst::FCMP_ULT: return X.orE(uno, f(K_FLt, a, b));
    case CmpInst::FCMP_OLE: return f(K_FLe, a, b); case CmpInst::FCMP_ULE: return X.orE(uno, f(K_FLe, a, b));
    case CmpInst::FCMP_ONE: return X.andE(X.notE(uno), X.notE(f(K_FEq, a, b))); case CmpInst::FCMP_UNE: return X.notE(f(K_FEq, a, b));
    case CmpInst::FCMP_ORD: return X.notE(uno); case CmpInst::FCMP_UNO: return uno;
    default: fatal("fcmp predicate");
    }
}
static Val aggGet(const Val& v, ArrayRef<unsigned> ix) { const Val* p = &v; for (unsigned i : ix) p = &(*p->agg)[i]; return *p; }
static Val aggSet(const Val& v, ArrayRef<unsigned> ix, const Val& x) { if (ix.empty()) return x; vector<Val> n = *v.agg; n[ix[0]] = aggSet(n[ix[0]], ix.drop_front(), x); return mkAgg(n); }
static Val selectVal(E c, const Val& a, const Val& b) { if (a.e) return Val{X.ite(c, a.e, b.e), nullptr}; vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(selectVal(c, (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }

static void step(State& st) {
    Frame& f = F(st);
    KInst& ki = f.kf->insts[f.pc];
    stat_.steps++; ki.hit = true;
    if (++st.steps > opt.maxSteps) { report(st, "nontermination", "path exceeds " + std::to_string(opt.maxSteps) + " executed instructions", st.model); kill(st); return; }
    const Instruction* I = ki.I;
    auto next = [&](E e) { F(st).regs[ki.dest] = Val{e, nullptr}; F(st).pc++; };
    switch (ki.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        E a = ope(st, ki, 0), b = ope(st, ki, 1);
        if (I->getType()->isVectorTy()) fatal("vector arithmetic", I);
        Kind k = ki.op == Instruction::Add ? K_Add : ki.op == Instruction::Sub ? K_Sub : K_Mul;
        E r = X.bin(k, a, b);
        if (opt.overflow && I->hasNoSignedWrap() && !r->isConst()) {
            unsigned w = a->w, ww = k == K_Mul ? std::min(128u, 2 * w) : w + 1;
            E wide = X.bin(k, X.sext(a, ww), X.sext(b, ww));
            if (!require(st, X.bin(K_Eq, wide, X.sext(r, ww)), "overflow", "signed integer overflow")) return;
        }
        next(r); return;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E a = simp(st, ope(st, ki, 0)), b = simp(st, ope(st, ki, 1));
        if (!require(st, X.notE(X.bin(K_Eq, b, X.con(0, b->w))), "arithmetic", "division by zero")) return;
        if (ki.op == Instruction::SDiv || ki.op == Instruction::SRem) {
            E bad = X.andE(X.bin(K_Eq, b, X.con(maskw(b->w), b->w)), X.bin(K_Eq, a, X.con((u128)1 << (b->w - 1), b->w)));
            if (!require(st, X.notE(bad), "arithmetic", "signed division overflow")) return;
        }
        next(X.bin(ki.op == Instruction::UDiv ? K_UDiv : ki.op == Instruction::SDiv ? K_SDiv : ki.op == Instruction::URem ? K_URem : K_SRem, a, b)); return;
    }
    case Instruction::And: next(X.bin(K_And, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::Or: next(X.bin(K_Or, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::Xor: next(X.bin(K_Xor, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        E a = ope(st, ki, 0), b = simp(st, ope(st, ki, 1));
        if (!require(st, X.bin(K_Ult, b, X.con(b->w, b->w)), "arithmetic", "shift amount out of range")) return;
        next(X.bin(ki.op == Instruction::Shl ? K_Shl : ki.op == Instruction::LShr ? K_LShr : K_AShr, a, b)); return;
    }
    case Instruction::ICmp: next(icmp(cast<ICmpInst>(I)->getPredicate(), ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FCmp: next(fcmp(cast<FCmpInst>(I)->getPredicate(), ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FAdd: next(X.fp(K_FAdd, ki.w, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FSub: next(X.fp(K_FSub, ki.w, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FMul: next(X.fp(K_FMul, ki.w, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FDiv: next(X.fp(K_FDiv, ki.w, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FRem: next(X.fp(K_FRem, ki.w, ope(st, ki, 0), ope(st, ki, 1))); return;
    case Instruction::FNeg: { E a = ope(st, ki, 0); next(X.bin(K_Xor, a, X.con((u128)1 << (a->w - 1), a->w))); return; }
    case Instruction::Trunc: next(X.extract(ope(st, ki, 0), 0, ki.w)); return;
    case Instruction::ZExt: next(X.zext(ope(st, ki, 0), ki.w)); return;
    case Instruction::SExt: next(X.sext(ope(st, ki, 0), ki.w)); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: next(X.zext(ope(st, ki, 0), ki.w)); return;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: next(ope(st, ki, 0)); return;
    case Instruction::Freeze: setReg(st, ki, opv(st, ki, 0)); F(st).pc++; return;
    case Instruction::FPTrunc: case Instruction::FPExt: next(X.fp(K_FToF, ki.w, ope(st, ki, 0))); return;
    case Instruction::FPToSI: case Instruction::FPToUI: {
        E a = ope(st, ki, 0);
        next(X.fp(ki.op == Instruction::FPToSI ? K_FToSI : K_FToUI, ki.w, a)); return; }
    case Instruction::SIToFP: next(X.fp(K_SIToF, ki.w, ope(st, ki, 0))); return;
    case Instruction::UIToFP: next(X.fp(K_UIToF, ki.w, ope(st, ki, 0))); return;
    case Instruction::Select: {
        E c = simp(st, ope(st, ki, 0));
        setReg(st, ki, c->isConst() ? (c->val ? opv(st, ki, 1) : opv(st, ki, 2)) : selectVal(c, opv(st, ki, 1), opv(st, ki, 2)));
        F(st).pc++; return;
    }
    case Instruction::ExtractElement: { E v = ope(st, ki, 0); u128 ix; if (!concretize(st, ope(st, ki, 1), ix, "vector index")) return; next(X.extract(v, (unsigned)ix * ki.w, ki.w)); return; }
    case Instruction::InsertElement: {
        E v = ope(st, ki, 0), x = ope(st, ki, 1); u128 ix; if (!concretize(st, ope(st, ki, 2), ix, "vector index")) return;
        unsigned lo = (unsigned)ix * x->w; E r = x; if (lo) r = X.concat(r, X.extract(v, 0, lo)); if (lo + x->w < v->w) r = X.concat(X.extract(v, lo + x->w, v->w - lo - x->w), r); next(r); return;
    }
    case Instruction::ExtractValue: setReg(st, ki, aggGet(opv(st, ki, 0), cast<ExtractValueInst>(I)->getIndices())); F(st).pc++; return;
    case Instruction::InsertValue: setReg(st, ki, aggSet(opv(st, ki, 0), cast<InsertValueInst>(I)->getIndices(), opv(st, ki, 1))); F(st).pc++; return;
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I); uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType());
        u128 n; if (!concretize(st, ope(st, ki, 0), n, "alloca size")) return;
        Obj* o = newObj(st, (uint32_t)(sz * n), a->getAlign().value(), O_Stack, I);
        F(st).allocas.push_back(o->id);
        next(X.con(o->base, 64)); return;
    }
    case Instruction::Load: {
        auto* l = cast<LoadInst>(I);
        if (l->isAtomic()) {
            u128 a; if (!concretize(st, ope(st, ki, 0), a, "atomic address")) return;
            if (!atomicPre(st, (uint64_t)a)) return;
            E v; if (!loadE(st, X.con(a, 64), ki.w, l->getAlign().value(), v, true)) return;
            syncAcq(st, (uint64_t)a, l->getOrdering()); noEffect(st, (uint64_t)a); next(v);
            return;
        }
        Val v; if (!loadVal(st, ope(st, ki, 0), I->getType(), l->getAlign().value(), v)) return;
        setReg(st, ki, v); F(st).pc++; return;
    }
    case Instruction::Store: {
        auto* s = cast<StoreInst>(I);
        if (s->isAtomic()) {
            u128 a; if (!concretize(st, ope(st, ki, 1), a, "atomic address")) return;
            if (!atomicPre(st, (uint64_t)a)) return;
            if (!storeE(st, X.con(a, 64), ope(st, ki, 0), s->getAlign().value(), true)) return;
            syncRel(st, (uint64_t)a, s->getOrdering(), false); effect(st, (uint64_t)a); F(st).pc++; return;
        }
        if (!storeVal(st, ope(st, ki, 1), s->getValueOperand()->getType(), opv(st, ki, 0), s->getAlign().value())) return;
        F(st).pc++; return;
    }
    case Instruction::AtomicRMW: {
        auto* r = cast<AtomicRMWInst>(I);
        u128 a; if (!concretize(st, ope(st, ki, 0), a, "atomic address")) return;
        if (!atomicPre(st, (uint64_t)a)) return;
        E old; if (!loadE(st, X.con(a, 64), ki.w, r->getAlign().value(), old, true)) return;
        E v = ope(st, ki, 1), nv = nullptr;
        switch (r->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = X.bin(K_Add, old, v); break; case AtomicRMWInst::Sub: nv = X.bin(K_Sub, old, v); break;
        case AtomicRMWInst::And: nv = X.bin(K_And, old, v); break; case AtomicRMWInst::Or: nv = X.bin(K_Or, old, v); break; case AtomicRMWInst::Xor: nv = X.bin(K_Xor, old, v); break;
        default: fatal("atomicrmw op", I);
        }
        if (!storeE(st, X.con(a, 64), nv, r->getAlign().value(), true)) return;
        syncAcq(st, (uint64_t)a, r->getOrdering()); syncRel(st, (uint64_t)a, r->getOrdering(), true);
        if (st.th.size() > 1) { if (nv == old) noEffect(st, (uint64_t)a); else effect(st, (uint64_t)a); }
        else if (nv == old) { Thread& t = T(st); if (t.spinI == I) { if (++t.spinVer > 1000) { memErr(st, "deadlock", "single thread spins forever on an atomic flag"); return; } } else { t.spinI = I; t.spinVer = 0; } }
        else T(st).spinI = nullptr;
        next(old); return;
    }
    case Instruction::AtomicCmpXchg: {
        auto* r = cast<AtomicCmpXchgInst>(I);
        u128 a; if (!concretize(st, ope(st, ki, 0), a, "atomic address")) return;
        if (!atomicPre(st, (uint64_t)a)) return;
        E exp = ope(st, ki, 1), nv = ope(st, ki, 2), old;
        if (!loadE(st, X.con(a, 64), exp->w, r->getAlign().value(), old, true)) return;
        E eq = X.bin(K_Eq, old, exp);
        if (!storeE(st, X.con(a, 64), X.ite(eq, nv, old), r->getAlign().value(), true)) return;
        if (eq->isFalse()) syncAcq(st, (uint64_t)a, r->getFailureOrdering());
        else syncAcq(st, (uint64_t)a, r->getSuccessOrdering()), syncRel(st, (uint64_t)a, r->getSuccessOrdering(), true);
        if (eq->isFalse()) noEffect(st, (uint64_t)a); else effect(st, (uint64_t)a);
        F(st).regs[ki.dest] = mkAgg({Val{old, nullptr}, Val{eq, nullptr}}); F(st).pc++; return;
    }
    case Instruction::Fence: fence(st, cast<FenceInst>(I)->getOrdering()); F(st).pc++; return;
    case Instruction::GetElementPtr: next(gepAddr(st, ki)); return;
    case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) { gotoBB(st, b->getSuccessor(0)); return; }
        branch(st, ope(st, ki, 0), b->getSuccessor(0), b->getSuccessor(1)); return;
    }
    case Instruction::Switch: {
        auto* s = cast<SwitchInst>(I);
        u128 v;
        E c = simp(st, ope(st, ki, 0));
        if (c->isConst()) v = c->val;
        else {
            if (c->undef && !undefCheck(st, c, "in switch")) return;
            syncModel(st);
            // group by destination: fork on feasible cases, the rest is default
            u128 mine = X.eval(c, st.model);
            E dflt = X.tru; const BasicBlock* myBB = nullptr; E myC = nullptr;
            vector<std::pair<E, const BasicBlock*>> arms; std::map<const BasicBlock*, E> byBB; vector<const BasicBlock*> order;
            for (auto& cs : s->cases()) {
                u128 cv = apToU(cs.getCaseValue()->getValue()); E eq = X.bin(K_Eq, c, X.con(cv, c->w)); dflt = X.andE(dflt, X.notE(eq));
                auto it = byBB.find(cs.getCaseSuccessor()); if (it == byBB.end()) { byBB[cs.getCaseSuccessor()] = eq; order.push_back(cs.getCaseSuccessor()); } else it->second = X.orE(it->second, eq);
            }
            auto it = byBB.find(s->getDefaultDest()); if (it == byBB.end()) { byBB[s->getDefaultDest()] = dflt; order.push_back(s->getDefaultDest()); } else it->second = X.orE(it->second, dflt);
            (void)mine;
            for (auto* bb : order) { E cc = byBB[bb]; if (!myBB && X.eval(cc, st.model) == 1) { myBB = bb; myC = cc; } else { vector<u128> m; if (query(st, cc, &m) == 1) { State* n = clone(st); n->model = m; addC(*n, cc); gotoBB(*n, bb); work.push_back(n); } } }
            addC(st, myC); gotoBB(st, myBB); return;
        }
        const BasicBlock* to = s->getDefaultDest();
        for (auto& cs : s->cases()) if (apToU(cs.getCaseValue()->getValue()) == v) { to = cs.getCaseSuccessor(); break; }
        gotoBB(st, to); return;
    }
    case Instruction::Ret: {
        Val v; bool has = I->getNumOperands() > 0;
        if (has) v = opv(st, ki, 0);
        uint64_t fr = f.freeOnReturn;
        popFrame(st);
        if (T(st).st.empty()) {
            if (st.cur == 0) {
                if (!st.ctors.empty()) { const Function* c = st.ctors.front(); st.ctors.erase(st.ctors.begin()); pushCall(st, c, {}); return; }
                for (size_t i = 1; i < st.th.size(); i++) if (!st.th[i].done) fatal("entry returned with live threads");
                endPath(st); return;
            }
            T(st).done = true; T(st).pk = P_None; schedule(st); return;
        }
        if (fr) { dropObj(st, (uint32_t)(fr >> 32)); has = false; }
        finishCall(st, v, has); return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(st, ki); return;
    case Instruction::Resume: { Val v = opv(st, ki, 0); uint64_t p = (uint64_t)(*v.agg)[0].e->val; unwind(st, p, true); return; }
    case Instruction::LandingPad: fatal("fell into landingpad", I);
    case Instruction::Unreachable: memErr(st, "unreachable", "executed unreachable code (undefined behaviour)"); return;
    case Instruction::PHI: fatal("phi", I);
    default: fatal("unsupported instruction", I);
    }
}

// ---------------------------------------------------------------- output
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r; }
static string jvals(const vector<std::pair<string, uint64_t>>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += string(i ? "," : "") + "[\"" + esc(v[i].first) + "\"," + std::to_string(v[i].second) + "]"; return s + "]"; }
static void output(double wall) {
    FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    // static reach labels in executed functions
    std::set<string> labels;
    for (auto* fn : executed) for (auto& bb : *fn) for (auto& i : bb) if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* c = cb->getCalledFunction()) if (c->getName() == "__vf_reach") {
        if (auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer())) labels.insert(d->isCString() ? d->getAsCString().str() : d->getAsString().str());
    }
    fprintf(o, "{\"entry\":\"%s\",\"complete\":%s,\"incomplete_reason\":\"%s\",\"wall_s\":%.3f,\n", esc(opt.entry).c_str(), incomplete ? "false" : "true", esc(incompleteWhy).c_str(), wall);
    fprintf(o, "\"paths\":%lu,\"killed\":%lu,\"instructions\":%lu,\"forks\":%lu,\"infeasible\":%lu,\"asserts\":%lu,\"memchecks\":%lu,\"sched_points\":%lu,\"sleep_pruned\":%lu,\n", stat_.paths, stat_.killed, stat_.steps, stat_.forks, stat_.infeasible, stat_.asserts, stat_.memchecks, stat_.schedPts, stat_.sleepPruned);
    fprintf(o, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"model_hits\":%lu,\"solver_s\":%.3f,\n", S.queries, S.sat, S.unsat, S.unknown, S.cacheHits, S.modelHits, S.time);
    fprintf(o, "\"labels\":["); bool first = true; for (auto& l : labels) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(l).c_str()); first = false; }
    fprintf(o, "],\"reached\":["); first = true; for (auto& l : reachAll) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(l).c_str()); first = false; }
    fprintf(o, "],\n\"functions\":["); first = true;
    for (auto* fn : executed) { string d = demangled(fn); if (d.find("efp::") == string::npos && d.find("fmt::") == string::npos) continue; if (d.size() > 300) d = d.substr(0, 297) + "..."; fprintf(o, "%s\"%s\"", first ? "" : ",\n", esc(d).c_str()); first = false; }
    // source lines of the library that were executed / are present in executed functions
    std::map<string, std::pair<std::set<unsigned>, std::set<unsigned>>> lines;
    for (auto& kv : kfs) for (auto& ki : kv.second->insts) if (auto* dl = ki.I->getDebugLoc().get()) { string f = dl->getFilename().str(); size_t at = f.rfind("efp/"); if (f.find("/include/") == string::npos || at == string::npos || !dl->getLine() || isa<DbgInfoIntrinsic>(ki.I)) continue; auto& l = lines[f.substr(at)]; l.second.insert(dl->getLine()); if (ki.hit) l.first.insert(dl->getLine()); }
    fprintf(o, "],\n\"lines\":{"); first = true;
    for (auto& kv : lines) { fprintf(o, "%s\"%s\":[[", first ? "" : ",\n", esc(kv.first).c_str()); bool g = true; for (unsigned l : kv.second.first) { fprintf(o, "%s%u", g ? "" : ",", l); g = false; } fprintf(o, "],["); g = true; for (unsigned l : kv.second.second) { fprintf(o, "%s%u", g ? "" : ",", l); g = false; } fprintf(o, "]]"); first = false; }
    fprintf(o, "},\n\"errors\":["); first = true;
    for (auto& e : errors) { string sc; for (auto& s : e.sched) sc += (sc.empty() ? "" : " ") + s;
        fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"schedule\":\"%s\",\"values\":%s}", first ? "" : ",\n", esc(e.kind).c_str(), esc(e.msg).c_str(), esc(e.loc).c_str(), esc(e.stack).c_str(), sc.c_str(), jvals(e.vals).c_str()); first = false; }
    fprintf(o, "],\n\"samples\":["); first = true;
    for (auto& s : samples) { fprintf(o, "%s{\"values\":%s,\"observed\":[", first ? "" : ",\n", jvals(s.vals).c_str()); for (size_t i = 0; i < s.obs.size(); i++) fprintf(o, "%s%lu", i ? "," : "", s.obs[i]); fprintf(o, "]}"); first = false; }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
}
static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (size_t)b * 4096 / 1048576; }

int main(int argc, char** argv) {
    unsigned tmo = 60000;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(argv[++i]); };
        if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--max-steps") opt.maxSteps = std::stoull(nx());
        else if (a == "--time") opt.timeLimit = std::stod(nx()); else if (a == "--max-errors") opt.maxErrors = std::stoul(nx()); else if (a == "--samples") opt.maxSamples = std::stoul(nx());
        else if (a == "--no-leak") opt.leak = false; else if (a == "--overflow") opt.overflow = true; else if (a == "--real") S.real = true; else if (a == "--seed") { opt.seed = std::stoull(nx()); rng ^= opt.seed * 0x9E3779B97F4A7C15ull; if (!rng) rng = 1; }
        else if (a == "--param") { string p = nx(); auto e = p.find('='); opt.params[p.substr(0, e)] = std::stoll(p.substr(e + 1)); }
        else if (a == "--solver-timeout") tmo = std::stoul(nx()); else if (a == "--dump") { S.dumpDir = nx(); S.dumpMax = 20; } else if (a == "--mem") opt.memLimitMB = std::stoul(nx());
        else if (a == "--replay") { opt.replay = true; string p = nx(); FILE* f = fopen(p.c_str(), "r"); char nm[256]; unsigned long v; while (f && fscanf(f, "%255s %lu", nm, &v) == 2) opt.replayVals.push_back(v); if (f) fclose(f); }
        else opt.bc = a;
    }
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, Ctx);
    if (!M) { err.print("esym", errs()); return 3; }
    DL = &M->getDataLayout();
    S.init(tmo);
    setupHandlers();
    Function* e = M->getFunction(opt.entry);
    if (!e || e->isDeclaration()) { fprintf(stderr, "ENGINE-ERROR: no entry %s\n", opt.entry.c_str()); return 3; }
    auto t0 = std::chrono::steady_clock::now();
    State* st = new State();
    st->th.emplace_back();
    st->th[0].vc.assign(8, 0); st->th[0].vc[0] = 1;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& op : ca->operands()) if (auto* s = dyn_cast<ConstantStruct>(op)) if (auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) st->ctors.push_back(fn);
    st->ctors.push_back(e);
    const Function* f0 = st->ctors.front(); st->ctors.erase(st->ctors.begin());
    pushCall(*st, f0, {});
    work.push_back(st);
    uint64_t tickN = 0;
    while (!work.empty()) {
        State* s = work.back(); work.pop_back();
        curState = s;
        while (!s->dead) {
            step(*s);
            if ((++tickN & 0x3fff) == 0) {
                double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                if (el > opt.timeLimit) { incomplete = true; incompleteWhy = "time budget exhausted with " + std::to_string(work.size() + 1) + " states pending"; goto done; }
                if ((tickN & 0x3ffff) == 0 && rssMB() > opt.memLimitMB) { incomplete = true; incompleteWhy = "memory budget exhausted"; goto done; }
            }
            if (errors.size() >= opt.maxErrors) goto done;
        }
        curState = nullptr;
        delete s;
        if (errors.size() >= opt.maxErrors) break;
    }
done:
    output(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    fflush(stdout);
    _exit(errors.empty() ? (incomplete ? 2 : 0) : 1);
}
