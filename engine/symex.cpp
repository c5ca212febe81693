// symex: bounded symbolic execution of LLVM bitcode, deciding assertions with Z3.
//
// Memory is byte-precise with concrete object bases (object id in the upper bits of an address), contents may
// be symbolic.  Symbolic branches fork; symbolic addresses are resolved with the solver.  Every access is
// checked (bounds, lifetime, read-only).  Exceptions, virtual dispatch and dynamic_cast follow the Itanium ABI.

#include "../rt/ere.h"
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

static const unsigned IDSHIFT = 24;
static const u64 MAXOBJ = (1ull << IDSHIFT) - 64;

// ------------------------------------------------------------------ options
static struct {
    std::string entry = "harness_main";
    std::string out = "/dev/stdout";
    std::string repo = "/repo/";
    double maxTime = 120;
    u64 maxInstr = 20000000; // per path
    unsigned maxDepth = 600; // call frames
    unsigned solverTimeout = 20000;
    unsigned jobs = 8;
    u64 maxPaths = ~0ull;
    u64 maxViol = 60;
    u64 pathRecords = 4000;
    bool stopFirst = false;
    bool verbose = false;
    bool checkLeaks = false;
    unsigned seed = 1;
} opt;

// ------------------------------------------------------------------ values
struct Val {
    u64 c;
    E e;
    Val() : c(0), e(nullptr) {}
    Val(u64 x) : c(x), e(nullptr) {}
    bool sym() const { return e != nullptr; }
};
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e)
{
    Val v;
    if (e->isC() && e->w <= 64) v.c = (u64)e->k;
    else v.e = e;
    return v;
}
static inline u128 getC(const Val& v) { return v.e ? v.e->k : v.c; }

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { KNone, KGlobal, KStack, KNew, KNewArr, KMalloc, KFunc, KExt, KExc };
struct Obj {
    u32 size = 0;
    ObjKind kind = KNone;
    bool ro = false, freed = false;
    std::vector<u8> conc;
    std::vector<E> sym; // empty or size entries; null = concrete
    const void* origin = nullptr; // allocation site (DInst*) or GlobalValue*
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk {
    ObjP o[64];
};
typedef std::shared_ptr<Chunk> ChunkP;
static E UNDEF; // sentinel for an uninitialised byte
static ObjP gFreedStack;

struct Mem {
    std::vector<ChunkP> ch;
    u32 next = 1;
    const Obj* get(u32 id) const
    {
        if (id >= next) return nullptr;
        auto& c = ch[id >> 6];
        return c->o[id & 63].get();
    }
    Obj* wr(u32 id)
    {
        auto& c = ch[id >> 6];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        auto& o = c->o[id & 63];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    void put(u32 id, const ObjP& p)
    {
        auto& c = ch[id >> 6];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        c->o[id & 63] = p;
    }
    u32 alloc(u64 size, ObjKind k, bool undef, const void* origin)
    {
        u32 id = next++;
        if ((id >> 6) >= ch.size()) ch.push_back(std::make_shared<Chunk>());
        auto o = std::make_shared<Obj>();
        o->size = (u32)size;
        o->kind = k;
        o->conc.assign(size, undef ? 0xA5 : 0);
        if (undef) o->sym.assign(size, UNDEF);
        o->origin = origin;
        put(id, o);
        return id;
    }
};

// ------------------------------------------------------------------ decoded code
struct Opnd {
    int slot = -1;
    Val c;
    u32 n = 1;
    const std::vector<Val>* agg = nullptr;
};
struct Leaf {
    u32 off;
    u16 w;
    u8 fp; // 0 int/ptr, 1 float, 2 double
};
struct DFunc;
struct DBlock;
struct DInst {
    unsigned op;
    unsigned w = 0; // result/operand width
    unsigned w2 = 0;
    int dst = -1;
    u32 nd = 1;
    std::vector<Opnd> a;
    unsigned sub = 0; // predicate etc.
    std::vector<Leaf> leaves;
    u32 msz = 0; // memory size
    // gep
    u64 goff = 0;
    std::vector<std::pair<int, u64>> gscale; // operand index, scale
    std::vector<u16> gw;
    // control
    std::vector<u32> succ;
    std::vector<u64> cases;
    int line = -1;
    const Instruction* inst = nullptr;
    DFunc* callee = nullptr;
    std::vector<std::pair<u32, u32>> idx; // extract/insert value (slot range)
    std::vector<std::vector<Opnd>> phiIn; // per pred index
    std::vector<u32> phiPred;
    u64 ptypeSize = 0;
    std::vector<u16> argw;
};
struct DBlock {
    std::vector<DInst> in;
    u32 firstNonPhi = 0;
};
struct State;
enum BR { B_DONE, B_REEXEC, B_TERM, B_PUSHED };
typedef std::function<BR(State&, DInst&, std::vector<Val>&, Val&)> Builtin;
struct DFunc {
    Function* F = nullptr;
    std::string name;
    bool decoded = false;
    std::vector<DBlock> bb;
    u32 nslots = 0;
    std::vector<std::pair<u32, u32>> args; // slot, count
    Builtin* bi = nullptr;
    bool biInit = false;
    int repoIdx = -1;
    u32 id = 0; // object id
};

// ------------------------------------------------------------------ state
struct Frame {
    DFunc* f;
    u32 bb = 0, prev = 0, ip = 0;
    std::vector<Val> regs;
    std::vector<u32> allocas;
    DInst* call = nullptr; // call instruction in the caller
    std::vector<Val> varargs;
    int excAfter = -1;
};
struct ExcInfo {
    u64 obj, tinfo, dtor;
    int handlers = 0;
    bool rethrown = false;
};
struct InputRec {
    std::string name;
    std::vector<E> bytes;
};
struct ObsRec {
    std::string name;
    std::vector<E> bytes;
};
struct State {
    Mem mem;
    std::vector<Frame> st;
    std::vector<E> cons;
    MP model;
    u64 instrs = 0;
    std::vector<ExcInfo> excs;
    std::vector<u32> caught; // stack of indices into excs
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::vector<std::string> reach;
    u32 undefCnt = 0;
    u32 uncaught = 0;
    u32 forks = 0;
    bool incomplete = false;
    // pending unwinding
};
typedef std::unique_ptr<State> SP;

// ------------------------------------------------------------------ globals
static LLVMContext gCtx;
static std::unique_ptr<Module> gM;
static const DataLayout* gDL;
static std::unordered_map<const GlobalValue*, u32> gGid;
static std::unordered_map<u32, DFunc*> gFuncById;
static std::unordered_map<const Function*, DFunc*> gFuncs;
static std::vector<SP> gWork;
static std::map<std::string, Builtin> gBuiltins;
static SolverStats gSt;
static std::vector<std::string> gLineTab; // "file:line"
static std::map<std::string, int> gLineIdx;
static std::vector<std::string> gRepoFuncs;
static std::chrono::steady_clock::time_point gT0;

struct Shared {
    std::atomic<int> slots;
    std::atomic<u64> paths, forks, queries, qns, qcache, qunknown, qsat, qunsat, instrs, viol, incomplete, records, asserts,
        assertsProved, branches, maxcons, depthlim, assumed;
    std::atomic<int> stop;
    std::atomic<u8> lineCov[400000];
    std::atomic<u8> funcCov[100000];
};
static Shared* sh;
static int gOutFd = 1;

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void emit(const std::string& l)
{
    std::string s = l + "\n";
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(gOutFd, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += n;
    }
}
static std::string hex(const std::vector<E>& b, const Model& m)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (E e : b) {
        u8 x = e == UNDEF ? 0xA5 : (u8)evalE(e, m);
        r += d[x >> 4];
        r += d[x & 15];
    }
    return r;
}
static std::string inputsJson(State& s, const Model& m)
{
    std::string r = "[";
    for (size_t i = 0; i < s.inputs.size(); ++i) {
        if (i) r += ",";
        r += "[" + jstr(s.inputs[i].name) + ",\"" + hex(s.inputs[i].bytes, m) + "\"]";
    }
    return r + "]";
}
static std::string stackJson(State& s)
{
    std::string r = "[";
    int n = 0;
    for (size_t i = s.st.size(); i-- > 0 && n < 12; ++n) {
        Frame& f = s.st[i];
        if (n) r += ",";
        std::string loc;
        if (f.bb < f.f->bb.size()) {
            auto& in = f.f->bb[f.bb].in;
            u32 ip = std::min<u32>(f.ip, in.size() - 1);
            if (in[ip].line >= 0) loc = gLineTab[in[ip].line];
        }
        std::string dn = demangle(f.f->name);
        if (dn.size() > 160) dn = dn.substr(0, 160) + "...";
        r += jstr(dn + " @ " + loc);
    }
    return r + "]";
}
static std::string repoLoc(State& s)
{
    for (size_t i = s.st.size(); i-- > 0;) {
        Frame& f = s.st[i];
        if (f.bb < f.f->bb.size()) {
            auto& in = f.f->bb[f.bb].in;
            u32 ip = std::min<u32>(f.ip, in.size() - 1);
            if (in[ip].line >= 0 && gLineTab[in[ip].line].compare(0, opt.repo.size(), opt.repo) == 0) return gLineTab[in[ip].line];
        }
    }
    return "";
}
static std::map<std::string, int> gViolSeen;
static void violation(State& s, const std::string& kind, const std::string& msg, const Model& m)
{
    std::string loc = repoLoc(s);
    std::string key = kind + "|" + msg + "|" + loc;
    int& n = gViolSeen[key];
    if (n++ >= 12) return;
    u64 k = sh->viol.fetch_add(1);
    if (k < opt.maxViol)
        emit("{\"t\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"loc\":" + jstr(loc)
            + ",\"inputs\":" + inputsJson(s, m) + ",\"stack\":" + stackJson(s) + "}");
    if (opt.stopFirst || k + 1 >= opt.maxViol) sh->stop = 1;
}
static void incomplete(State& s, const std::string& why)
{
    sh->incomplete++;
    static std::map<std::string, int> seen;
    std::string key = why + repoLoc(s);
    if (seen[key]++ < 3)
        emit("{\"t\":\"incomplete\",\"why\":" + jstr(why) + ",\"loc\":" + jstr(repoLoc(s)) + ",\"inputs\":" + inputsJson(s, *s.model)
            + ",\"stack\":" + stackJson(s) + "}");
}
[[noreturn]] static void fatal(const std::string& m)
{
    emit("{\"t\":\"fatal\",\"msg\":" + jstr(m) + "}");
    fprintf(stderr, "symex fatal: %s\n", m.c_str());
    sh->stop = 1;
    _exit(3);
}

// ------------------------------------------------------------------ decode
static std::string typeStr(Type* t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    return os.str();
}
static unsigned scalarW(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    fatal("unsupported scalar type " + typeStr(t));
}
static void flatten(Type* t, u64 off, std::vector<Leaf>& out)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = gDL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = gDL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * sz, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 sz = gDL->getTypeSizeInBits(vt->getElementType()) / 8;
        if (!sz) sz = 1;
        for (u64 i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), off + i * sz, out);
    } else if (!t->isVoidTy())
        out.push_back({ (u32)off, (u16)scalarW(t), (u8)(t->isFloatTy() ? 1 : t->isDoubleTy() ? 2 : t->isX86_FP80Ty() ? 3 : 0) });
}
static u32 countLeaves(Type* t)
{
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
    std::vector<Leaf> l;
    flatten(t, 0, l);
    return l.size();
}
// slot range of the sub-element selected by indices
static std::pair<u32, u32> subRange(Type* t, ArrayRef<unsigned> idx)
{
    u32 off = 0;
    for (unsigned i : idx) {
        if (auto* st = dyn_cast<StructType>(t)) {
            for (unsigned j = 0; j < i; ++j) off += countLeaves(st->getElementType(j));
            t = st->getElementType(i);
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
            off += i * countLeaves(at->getElementType());
            t = at->getElementType();
        } else
            fatal("subRange");
    }
    return { off, countLeaves(t) };
}

static u64 gaddr(const GlobalValue* g)
{
    if (auto* ga = dyn_cast<GlobalAlias>(g)) {
        const Constant* c = ga->getAliasee()->stripPointerCasts();
        if (auto* gv = dyn_cast<GlobalValue>(c)) return gaddr(gv);
        fatal("alias to non-global");
    }
    auto it = gGid.find(g);
    if (it == gGid.end()) fatal("unknown global " + g->getName().str());
    return (u64)it->second << IDSHIFT;
}
static Val constScalar(const Constant* c);
static u64 gepConst(const GEPOperator* g)
{
    u64 base = getC(constScalar(cast<Constant>(g->getPointerOperand())));
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*gDL, off)) fatal("non-constant gep constexpr");
    return base + off.getSExtValue();
}
static Val constScalar(const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
        if (ci->getBitWidth() > 128) fatal("wide integer");
        APInt a = ci->getValue();
        u128 v = a.getRawData()[0];
        if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
        Val r;
        r.e = mkConst(v, ci->getBitWidth());
        return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (t->isX86_FP80Ty()) {
            long double ld = 0;
            bool li;
            APFloat f = cf->getValueAPF();
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            double d = f.convertToDouble();
            u64 b;
            memcpy(&b, &d, 8);
            (void)ld;
            return Val(b);
        }
        return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (isa<UndefValue>(c)) { // includes poison
        unsigned w = scalarW(t);
        if (w <= 64) return Val(0);
        Val r;
        r.e = mkConst(0, w);
        return r;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val(gaddr(g));
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: return Val(gepConst(cast<GEPOperator>(ce)));
            case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt:
            case Instruction::ZExt: case Instruction::Trunc: {
                Val v = constScalar(ce->getOperand(0));
                return Val((u64)getC(v) & m64(scalarW(t)));
            }
            case Instruction::Add: return Val((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & m64(scalarW(t)));
            case Instruction::Sub: return Val((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & m64(scalarW(t)));
            case Instruction::ICmp: {
                u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
                switch (ce->getPredicate()) {
                    case CmpInst::ICMP_EQ: return Val(a == b);
                    case CmpInst::ICMP_NE: return Val(a != b);
                    default: break;
                }
                break;
            }
            default: break;
        }
        std::string s;
        raw_string_ostream os(s);
        ce->print(os);
        fatal("constexpr " + os.str());
    }
    fatal("constScalar " + typeStr(t));
}
static void constLeaves(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
            std::vector<Leaf> l;
            flatten(t, 0, l);
            for (auto& x : l) {
                if (x.w <= 64) out.push_back(Val(0));
                else { Val v; v.e = mkConst(0, x.w); out.push_back(v); }
            }
            return;
        }
        unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements()
            : isa<ArrayType>(t)         ? cast<ArrayType>(t)->getNumElements()
                                        : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) constLeaves(c->getAggregateElement(i), out);
        return;
    }
    out.push_back(constScalar(c));
}

static DFunc* dfunc(Function* F)
{
    auto it = gFuncs.find(F);
    if (it != gFuncs.end()) return it->second;
    DFunc* d = new DFunc;
    d->F = F;
    d->name = F->getName().str();
    gFuncs[F] = d;
    if (auto* sp = F->getSubprogram()) {
        std::string fn = sp->getFilename().str();
        if (fn.size() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
        if (fn.compare(0, opt.repo.size(), opt.repo) == 0) {
            d->repoIdx = gRepoFuncs.size();
            gRepoFuncs.push_back(d->name);
        }
    }
    return d;
}

static int lineOf(const Instruction& I)
{
    if (const DILocation* l = I.getDebugLoc()) {
        std::string f = l->getFilename().str();
        if (f.size() && f[0] != '/') f = l->getDirectory().str() + "/" + f;
        std::string k = f + ":" + std::to_string(l->getLine());
        auto it = gLineIdx.find(k);
        if (it != gLineIdx.end()) return it->second;
        gLineIdx[k] = gLineTab.size();
        gLineTab.push_back(k);
        return gLineTab.size() - 1;
    }
    return -1;
}

static void decode(DFunc* d)
{
    d->decoded = true;
    Function& F = *d->F;
    std::unordered_map<const Value*, std::pair<u32, u32>> slot;
    u32 n = 0;
    for (auto& A : F.args()) {
        u32 k = countLeaves(A.getType());
        slot[&A] = { n, k };
        d->args.push_back({ n, k });
        n += k;
    }
    std::unordered_map<const BasicBlock*, u32> bbIdx;
    u32 bi = 0;
    for (auto& B : F) {
        bbIdx[&B] = bi++;
        for (auto& I : B) {
            u32 k = countLeaves(I.getType());
            if (k) {
                slot[&I] = { n, k };
                n += k;
            }
        }
    }
    d->nslots = n;
    auto opnd = [&](const Value* v) {
        Opnd o;
        auto it = slot.find(v);
        if (it != slot.end()) {
            o.slot = it->second.first;
            o.n = it->second.second;
            return o;
        }
        if (auto* c = dyn_cast<Constant>(v)) {
            if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) {
                auto* a = new std::vector<Val>;
                constLeaves(c, *a);
                o.agg = a;
                o.n = a->size();
            } else
                o.c = constScalar(c);
            return o;
        }
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
        fatal("operand");
    };
    d->bb.resize(bi);
    bi = 0;
    for (auto& B : F) {
        DBlock& db = d->bb[bi++];
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DInst x;
            x.op = I.getOpcode();
            x.inst = &I;
            x.line = lineOf(I);
            auto it = slot.find(&I);
            if (it != slot.end()) {
                x.dst = it->second.first;
                x.nd = it->second.second;
            } else
                x.nd = 0;
            auto scalarTy = [&](Type* t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; };
            switch (x.op) {
                case Instruction::PHI: {
                    auto& P = cast<PHINode>(I);
                    for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) {
                        x.a.push_back(opnd(P.getIncomingValue(i)));
                        x.phiPred.push_back(bbIdx[P.getIncomingBlock(i)]);
                    }
                    db.firstNonPhi = db.in.size() + 1;
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto* G = cast<GEPOperator>(&I);
                    if (I.getType()->isVectorTy()) fatal("vector gep");
                    x.a.push_back(opnd(G->getPointerOperand()));
                    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                        Value* ix = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull()) {
                            x.goff += gDL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        } else {
                            u64 sz = gDL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(ix)) x.goff += sz * (u64)ci->getSExtValue();
                            else {
                                x.gscale.push_back({ (int)x.a.size(), sz });
                                x.gw.push_back(ix->getType()->getIntegerBitWidth());
                                x.a.push_back(opnd(ix));
                            }
                        }
                    }
                    break;
                }
                case Instruction::Alloca: {
                    auto& A = cast<AllocaInst>(I);
                    x.ptypeSize = gDL->getTypeAllocSize(A.getAllocatedType());
                    x.a.push_back(opnd(A.getArraySize()));
                    break;
                }
                case Instruction::Load: {
                    flatten(I.getType(), 0, x.leaves);
                    x.msz = gDL->getTypeStoreSize(I.getType());
                    x.a.push_back(opnd(I.getOperand(0)));
                    break;
                }
                case Instruction::Store: {
                    flatten(I.getOperand(0)->getType(), 0, x.leaves);
                    x.msz = gDL->getTypeStoreSize(I.getOperand(0)->getType());
                    x.a.push_back(opnd(I.getOperand(0)));
                    x.a.push_back(opnd(I.getOperand(1)));
                    break;
                }
                case Instruction::Br: {
                    auto& R = cast<BranchInst>(I);
                    if (R.isConditional()) x.a.push_back(opnd(R.getCondition()));
                    for (unsigned i = 0; i < R.getNumSuccessors(); ++i) x.succ.push_back(bbIdx[R.getSuccessor(i)]);
                    break;
                }
                case Instruction::Switch: {
                    auto& S = cast<SwitchInst>(I);
                    x.a.push_back(opnd(S.getCondition()));
                    x.w = scalarW(S.getCondition()->getType());
                    x.succ.push_back(bbIdx[S.getDefaultDest()]);
                    for (auto& C : S.cases()) {
                        x.cases.push_back(C.getCaseValue()->getZExtValue());
                        x.succ.push_back(bbIdx[C.getCaseSuccessor()]);
                    }
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto& C = cast<CallBase>(I);
                    for (auto& A : C.args()) {
                        x.a.push_back(opnd(A.get()));
                        Type* t = A->getType();
                        x.argw.push_back(t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy() ? scalarW(t) : 64);
                    }
                    x.a.push_back(opnd(C.getCalledOperand()));
                    if (C.isInlineAsm()) x.sub = 1;
                    if (auto* cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCastsAndAliases())) x.callee = dfunc(cf);
                    if (!C.getType()->isVoidTy() && !C.getType()->isAggregateType() && !C.getType()->isVectorTy()) x.w = scalarW(C.getType());
                    if (auto* V = dyn_cast<InvokeInst>(&I)) {
                        x.succ.push_back(bbIdx[V->getNormalDest()]);
                        x.succ.push_back(bbIdx[V->getUnwindDest()]);
                    }
                    break;
                }
                case Instruction::ExtractValue: {
                    auto& V = cast<ExtractValueInst>(I);
                    x.a.push_back(opnd(V.getAggregateOperand()));
                    x.idx.push_back(subRange(V.getAggregateOperand()->getType(), V.getIndices()));
                    break;
                }
                case Instruction::InsertValue: {
                    auto& V = cast<InsertValueInst>(I);
                    x.a.push_back(opnd(V.getAggregateOperand()));
                    x.a.push_back(opnd(V.getInsertedValueOperand()));
                    x.idx.push_back(subRange(V.getAggregateOperand()->getType(), V.getIndices()));
                    break;
                }
                case Instruction::ICmp: case Instruction::FCmp: {
                    x.sub = cast<CmpInst>(I).getPredicate();
                    x.w = scalarW(scalarTy(I.getOperand(0)->getType()));
                    x.a.push_back(opnd(I.getOperand(0)));
                    x.a.push_back(opnd(I.getOperand(1)));
                    break;
                }
                case Instruction::ShuffleVector: {
                    auto& S = cast<ShuffleVectorInst>(I);
                    x.a.push_back(opnd(I.getOperand(0)));
                    x.a.push_back(opnd(I.getOperand(1)));
                    for (int m : S.getShuffleMask()) x.cases.push_back(m < 0 ? 0 : m);
                    break;
                }
                default: {
                    if (!I.getType()->isVoidTy() && !I.getType()->isAggregateType()) x.w = scalarW(scalarTy(I.getType()));
                    if (I.getNumOperands() && !I.getOperand(0)->getType()->isAggregateType() && !I.getOperand(0)->getType()->isMetadataTy()
                        && !I.getOperand(0)->getType()->isLabelTy())
                        x.w2 = scalarW(scalarTy(I.getOperand(0)->getType()));
                    for (auto& O : I.operands()) x.a.push_back(opnd(O.get()));
                }
            }
            db.in.push_back(std::move(x));
        }
    }
}

// ------------------------------------------------------------------ execution helpers
static u64 gPathsLocal;
static State* cur;

static SP forkState(State& s)
{
    sh->forks++;
    s.forks++;
    return SP(new State(s));
}
// Is (cons && q) satisfiable?  model returned in out.
static int mayBe(State& s, E q, MP& out)
{
    if (q->isC()) {
        out = s.model;
        return q->k ? 1 : 0;
    }
    if (evalE(q, *s.model)) {
        out = s.model;
        gSt.modelHits++;
        return 1;
    }
    return solveQuery(s.cons, q, *s.model, out, gSt);
}
static void addCons(State& s, E q)
{
    if (q->isC()) return;
    // split conjunctions
    if (q->op == OAnd && q->w == 1) {
        addCons(s, q->a);
        addCons(s, q->b);
        return;
    }
    s.cons.push_back(q);
}
static std::unordered_map<std::string, E> gNamedVars;
static E namedVar(const std::string& n, unsigned w, bool undef)
{
    auto it = gNamedVars.find(n);
    if (it != gNamedVars.end()) return it->second;
    E e = mkVar(n, w, undef);
    gNamedVars[n] = e;
    return e;
}
// Does a condition really depend on uninitialised memory? Asks for one path state in which two different contents
// of the uninitialised bytes give different outcomes.
static bool dependsOnUndef(State& s, E c, MP& m)
{
    std::unordered_map<E, E> memo;
    std::function<E(E)> sub = [&](E x) -> E {
        if (!x->undef) return x;
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        E r;
        switch (x->op) {
            case OVar: r = namedVar(gVars[(u32)x->k].name + "'", x->w, true); break;
            case OIte: r = mkIte(sub(x->a), sub(x->b), sub(x->c)); break;
            case OZExt: r = mkZExt(sub(x->a), x->w); break;
            case OSExt: r = mkSExt(sub(x->a), x->w); break;
            case OExtract: r = mkExtract(sub(x->a), (unsigned)x->k, x->w); break;
            case OConcat: r = mkConcat(sub(x->a), sub(x->b)); break;
            default: r = mkBin(x->op, sub(x->a), sub(x->b));
        }
        return memo[x] = r;
    };
    return mayBe(s, mkBin(OXor, c, sub(c)), m) == 1;
}
// Decide a branch; pushes the other side if feasible. Returns chosen side, or -1 if the state must be dropped.
// otherFn adjusts the forked state.
static int branch(State& s, E cond)
{
    sh->branches++;
    bool here = evalE(cond, *s.model) != 0;
    E taken = here ? cond : mkNot(cond), other = mkNot(taken);
    MP m;
    int r = solveQuery(s.cons, other, *s.model, m, gSt);
    if (r == 1) {
        SP n = forkState(s);
        n->model = m;
        addCons(*n, other);
        gWork.push_back(std::move(n)); // re-executes the same instruction
        addCons(s, taken);
    } else if (r < 0) {
        incomplete(s, "solver-unknown");
        addCons(s, taken);
    }
    return here;
}
// Make a symbolic value concrete, forking over all feasible values (the fork re-executes the instruction).
static u64 concretize(State& s, const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    if (v.e->isC()) return (u64)v.e->k;
    u64 x = (u64)evalE(v.e, *s.model);
    E eq = mkBin(OEq, v.e, mkConst(x, w));
    branch(s, eq);
    return x;
}

static E byteE(const Obj* o, u32 i)
{
    if (!o->sym.empty() && o->sym[i]) return o->sym[i];
    return mkConst(o->conc[i], 8);
}
static Val loadLeaf(State& s, const Obj* o, u32 off, unsigned w, u8 fp = 0)
{
    unsigned n = fp == 3 ? 8 : (w + 7) / 8;
    if (fp == 3) w = 64;
    bool sy = false, allUndef = true;
    if (!o->sym.empty())
        for (unsigned i = 0; i < n; ++i) {
            if (o->sym[off + i]) sy = true;
            if (o->sym[off + i] != UNDEF) allUndef = false;
        }
    if (!sy) {
        if (n <= 8) {
            u64 v = 0;
            memcpy(&v, &o->conc[off], n);
            return Val(v & m64(w));
        }
        u128 v = 0;
        memcpy(&v, &o->conc[off], n);
        Val r;
        r.e = mkConst(v, w);
        return r;
    }
    E e = nullptr;
    if (allUndef) {
        if (n > 8) {
            e = mkConcat(namedVar("!undef" + std::to_string(s.undefCnt), 64, true), namedVar("!undef" + std::to_string(s.undefCnt + 1), 64, true));
            s.undefCnt += 2;
        } else
            e = namedVar("!undef" + std::to_string(s.undefCnt++) + "w" + std::to_string(n), n * 8, true);
    } else
        for (unsigned i = 0; i < n; ++i) {
            E b = byteE(o, off + i);
            if (b == UNDEF) b = namedVar("!undef" + std::to_string(s.undefCnt++) + "w1", 8, true);
            e = e ? mkConcat(b, e) : b;
        }
    return fromE(mkExtract(e, 0, w));
}
static void storeLeaf(Obj* o, u32 off, unsigned w, const Val& v, u8 fp = 0)
{
    unsigned n = (w + 7) / 8;
    if (fp == 3) { n = 8; w = 64; }
    if (!v.e || v.e->isC()) {
        u128 x = getC(v);
        memcpy(&o->conc[off], &x, n);
        if (!o->sym.empty())
            for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr;
        return;
    }
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    E e = mkZExt(v.e, n * 8);
    for (unsigned i = 0; i < n; ++i) {
        E b = mkExtract(e, i * 8, 8);
        if (b->isC()) {
            o->conc[off + i] = (u8)b->k;
            o->sym[off + i] = nullptr;
        } else
            o->sym[off + i] = b;
    }
}

static std::string addrDesc(State& s, u64 a)
{
    u32 id = a >> IDSHIFT;
    const Obj* o = s.mem.get(id);
    char b[200];
    if (a < (1u << 16) || !id) return "null pointer dereference";
    if (!o) return "wild pointer dereference";
    const char* k = o->kind == KStack ? "stack" : o->kind == KGlobal ? "global" : o->kind == KFunc ? "function" : "heap";
    if (o->freed) snprintf(b, sizeof b, "use after %s of %s object", o->kind == KStack ? "return" : "free", k);
    else snprintf(b, sizeof b, "out-of-bounds access of %s object", k);
    return b;
}

enum RR { RR_OK, RR_REEXEC, RR_TERM };
// Resolve an address to an object and a (possibly symbolic) offset.
static RR resolve(State& s, const Val& addr, u64 n, bool write, u32& id, u64& off, E& symOff)
{
    symOff = nullptr;
    if (!addr.e || addr.e->isC()) {
        u64 a = addr.e ? (u64)addr.e->k : addr.c;
        id = a >> IDSHIFT;
        off = a & ((1ull << IDSHIFT) - 1);
        const Obj* o = s.mem.get(id);
        if (!id || !o || o->freed || o->kind == KFunc || off + n > o->size || (write && o->ro)) {
            if (n == 0 && a == 0) return RR_OK;
            violation(s, "memory", (o && write && o->ro) ? "write to read-only memory" : addrDesc(s, a) + (write ? " (write)" : " (read)"), *s.model);
            return RR_TERM;
        }
        return RR_OK;
    }
    E e = addr.e;
    // fork on pointer selects
    E t = e;
    while (t->op == OAdd) t = t->b->isC() ? t->a : (t->a->op == OIte ? t->a : t->b);
    if (t->op == OIte && t->w == 64) {
        // peel: only for constant-leaf (pointer) selects
        E p = t;
        bool big = false;
        std::function<void(E, int)> chk = [&](E x, int dpt) {
            if (x->op == OIte && dpt > 0) { chk(x->b, dpt - 1); chk(x->c, dpt - 1); }
            else if (x->isC() && x->k >= (1ull << IDSHIFT)) big = true;
        };
        chk(p, 6);
        if (big) {
            int side = branch(s, t->a);
            // rebuild the address under the decision
            std::function<E(E)> sub = [&](E x) -> E {
                if (x == t) return side ? t->b : t->c;
                if (x->op == OAdd) return mkBin(OAdd, sub(x->a), sub(x->b));
                return x;
            };
            Val v2 = fromE(sub(e));
            return resolve(s, v2, n, write, id, off, symOff);
        }
    }
    u64 a = (u64)evalE(e, *s.model);
    u64 base = 0;
    if (e->op == OAdd && e->b->isC() && s.mem.get((u32)((u64)e->b->k >> IDSHIFT))) base = (u64)e->b->k >> IDSHIFT;
    const Obj* ob = base ? s.mem.get(base) : nullptr;
    if (!ob || ob->freed || ob->kind == KFunc) {
        base = a >> IDSHIFT;
        ob = s.mem.get(base);
    }
    if (!base || !ob || ob->freed || ob->kind == KFunc || (write && ob->ro) || ob->size < n) {
        violation(s, "memory", addrDesc(s, a) + (write ? " (write)" : " (read)"), *s.model);
        return RR_TERM;
    }
    u64 b0 = base << IDSHIFT;
    E rel = mkBin(OSub, e, mkConst(b0, 64));
    E inb = mkBin(OUle, rel, mkConst(ob->size - n, 64));
    MP m;
    if (!inb->isC()) {
        int r = mayBe(s, mkNot(inb), m);
        if (r == 1) {
            // out-of-bounds possible: is it in another object or a violation?
            u64 a2 = (u64)evalE(e, *m);
            u32 id2 = a2 >> IDSHIFT;
            const Obj* o2 = s.mem.get(id2);
            bool bad = !id2 || !o2 || o2->freed || o2->kind == KFunc || (a2 & ((1ull << IDSHIFT) - 1)) + n > o2->size || id2 == base;
            if (bad) violation(s, "memory", addrDesc(s, a2) + (write ? " (write)" : " (read)"), *m);
            else {
                SP nst = forkState(s);
                nst->model = m;
                addCons(*nst, mkNot(inb));
                gWork.push_back(std::move(nst));
            }
            int r2 = mayBe(s, inb, m);
            if (r2 != 1) return RR_TERM;
            s.model = m;
            addCons(s, inb);
        } else if (r < 0)
            incomplete(s, "solver-unknown");
    } else if (!inb->k) {
        violation(s, "memory", addrDesc(s, a) + (write ? " (write)" : " (read)"), *s.model);
        return RR_TERM;
    }
    id = base;
    if (rel->isC()) {
        off = (u64)rel->k;
        return RR_OK;
    }
    // unique value?
    u64 rv = (u64)evalE(rel, *s.model);
    E ne = mkNot(mkBin(OEq, rel, mkConst(rv, 64)));
    int r = mayBe(s, ne, m);
    if (r == 0) {
        off = rv;
        return RR_OK;
    }
    symOff = rel;
    return RR_OK;
}
static u64 strideOf(E e)
{
    // number of known trailing zero bits
    if (e->op == OConcat && e->b->isC() && e->b->k == 0) return 1ull << std::min<unsigned>(e->b->w, 12);
    if (e->op == OZExt) return strideOf(e->a);
    if (e->op == OAdd) return std::min(strideOf(e->a), strideOf(e->b));
    if (e->isC()) {
        u64 k = (u64)e->k, r = 1;
        if (!k) return 4096;
        while (!(k & r) && r < 4096) r <<= 1;
        return r;
    }
    return 1;
}
static RR doLoad(State& s, DInst& x, const Val& addr, Val* dst)
{
    u32 id;
    u64 off;
    E so;
    RR r = resolve(s, addr, x.msz, false, id, off, so);
    if (r != RR_OK) return r;
    const Obj* o = s.mem.get(id);
    if (!so) {
        for (size_t i = 0; i < x.leaves.size(); ++i) dst[i] = loadLeaf(s, o, off + x.leaves[i].off, x.leaves[i].w, x.leaves[i].fp);
        return RR_OK;
    }
    u64 stride = strideOf(so);
    if ((o->size / stride) > 1100 || x.leaves.size() != 1 || x.leaves[0].fp) {
        off = concretize(s, fromE(so), 64);
        for (size_t i = 0; i < x.leaves.size(); ++i) dst[i] = loadLeaf(s, o, off + x.leaves[i].off, x.leaves[i].w, x.leaves[i].fp);
        return RR_OK;
    }
    u64 lo = (u64)so->lo, hi = std::min<u64>((u64)so->hi, o->size - x.msz);
    lo = (lo + stride - 1) / stride * stride;
    E res = nullptr;
    u64 last = hi / stride * stride;
    for (u64 p = last;; p -= stride) {
        E v = toE(loadLeaf(s, o, p + x.leaves[0].off, x.leaves[0].w), x.leaves[0].w);
        res = res ? mkIte(mkBin(OEq, so, mkConst(p, 64)), v, res) : v;
        if (p < lo + stride) break;
    }
    dst[0] = fromE(res);
    return RR_OK;
}
static RR doStore(State& s, DInst& x, const Val* src, const Val& addr)
{
    u32 id;
    u64 off;
    E so;
    RR r = resolve(s, addr, x.msz, true, id, off, so);
    if (r != RR_OK) return r;
    if (so) off = concretize(s, fromE(so), 64);
    Obj* o = s.mem.wr(id);
    for (size_t i = 0; i < x.leaves.size(); ++i) storeLeaf(o, off + x.leaves[i].off, x.leaves[i].w, src[i], x.leaves[i].fp);
    return RR_OK;
}
// concrete-address helpers for builtins
static RR memAt(State& s, const Val& addr, u64 n, bool write, u32& id, u64& off)
{
    E so;
    RR r = resolve(s, addr, n, write, id, off, so);
    if (r != RR_OK) return r;
    if (so) off = concretize(s, fromE(so), 64);
    return RR_OK;
}
static u64 rd64(State& s, u64 addr)
{
    u32 id = addr >> IDSHIFT;
    u64 off = addr & ((1ull << IDSHIFT) - 1);
    const Obj* o = s.mem.get(id);
    if (!o || off + 8 > o->size) return 0;
    u64 v;
    memcpy(&v, &o->conc[off], 8);
    return v;
}
static std::string cstr(State& s, const Val& addr)
{
    std::string r;
    u64 a = addr.e ? concretize(s, addr, 64) : addr.c;
    u32 id = a >> IDSHIFT;
    u64 off = a & ((1ull << IDSHIFT) - 1);
    const Obj* o = s.mem.get(id);
    if (!o) return "?";
    for (; off < o->size && o->conc[off] && r.size() < 300; ++off) {
        if (!o->sym.empty() && o->sym[off]) { r += '?'; continue; }
        r += (char)o->conc[off];
    }
    return r;
}

static void enterBlock(Frame& f, u32 bb)
{
    u32 from = f.bb;
    f.prev = from;
    f.bb = bb;
    DBlock& b = f.f->bb[bb];
    f.ip = b.firstNonPhi;
    if (b.firstNonPhi) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (u32 i = 0; i < b.firstNonPhi; ++i) {
            DInst& p = b.in[i];
            size_t k = 0;
            while (k < p.phiPred.size() && p.phiPred[k] != from) ++k;
            if (k == p.phiPred.size()) fatal("phi");
            Opnd& o = p.a[k];
            for (u32 j = 0; j < p.nd; ++j) tmp.push_back(o.slot >= 0 ? f.regs[o.slot + j] : o.agg ? (*o.agg)[j] : o.c);
        }
        size_t t = 0;
        for (u32 i = 0; i < b.firstNonPhi; ++i) {
            DInst& p = b.in[i];
            for (u32 j = 0; j < p.nd; ++j) f.regs[p.dst + j] = tmp[t++];
        }
    }
}
static void popFrame(State& s)
{
    Frame& f = s.st.back();
    for (u32 id : f.allocas) s.mem.put(id, gFreedStack);
    s.st.pop_back();
}
static bool pushFrame(State& s, DFunc* d, const std::vector<Val>& args, DInst* call)
{
    if (!d->decoded) decode(d);
    if (d->repoIdx >= 0) sh->funcCov[d->repoIdx] = 1;
    s.st.emplace_back();
    Frame& f = s.st.back();
    f.f = d;
    f.regs.resize(d->nslots);
    u32 n = 0;
    for (auto& a : d->args)
        for (u32 i = 0; i < a.second; ++i) f.regs[a.first + i] = n < args.size() ? args[n++] : (n++, Val());
    for (; n < args.size(); ++n) f.varargs.push_back(args[n]);
    f.call = call;
    f.bb = 0;
    f.ip = 0;
    return true;
}

// ------------------------------------------------------------------ RTTI / exceptions
static u32 idOf(u64 a) { return a >> IDSHIFT; }
static std::unordered_map<u32, std::string> gExtName; // object id -> global name
static std::string gname(u32 id)
{
    auto it = gExtName.find(id);
    return it == gExtName.end() ? "" : it->second;
}
struct Sub {
    u64 ti;
    s128 off;
};
static void subobjects(State& s, u64 ti, long off, u64 objAddr, std::vector<std::pair<u64, long>>& out)
{
    out.push_back({ ti, off });
    std::string k = gname(idOf(rd64(s, ti)));
    if (k.find("si_class_type_info") != std::string::npos) subobjects(s, rd64(s, ti + 16), off, objAddr, out);
    else if (k.find("vmi_class_type_info") != std::string::npos) {
        u64 fc = rd64(s, ti + 16);
        u32 cnt = fc >> 32;
        for (u32 i = 0; i < cnt; ++i) {
            u64 b = rd64(s, ti + 24 + 16 * i);
            long of = (long)rd64(s, ti + 24 + 16 * i + 8);
            long o = of >> 8;
            if (of & 1) { // virtual base: offset from vtable
                if (!objAddr) continue;
                u64 vt = rd64(s, objAddr + off);
                o = (long)rd64(s, vt + o);
            }
            subobjects(s, b, off + o, objAddr, out);
        }
    }
}
static bool excMatches(State& s, u64 thrown, u64 caught, u64 obj, long& adj)
{
    adj = 0;
    if (thrown == caught) return true;
    std::vector<std::pair<u64, long>> sub;
    std::string k = gname(idOf(rd64(s, thrown)));
    if (k.find("class_type_info") == std::string::npos) return false;
    subobjects(s, thrown, 0, obj, sub);
    for (auto& p : sub)
        if (p.first == caught) {
            adj = p.second;
            return true;
        }
    return false;
}
static int selectorOf(u64 ti)
{
    return (int)(ti >> IDSHIFT) + 1; // unique per type info object
}
static std::string excName(State& s, u64 ti)
{
    std::string n = gname(idOf(ti));
    return n.empty() ? "?" : demangle(n);
}
static bool landingMatches(State& s, Frame& f, u32 bb, ExcInfo& e, int& sel)
{
    DBlock& b = f.f->bb[bb];
    for (auto& x : b.in) {
        if (x.op != Instruction::LandingPad) continue;
        auto* L = cast<LandingPadInst>(x.inst);
        for (unsigned i = 0; i < L->getNumClauses(); ++i) {
            if (L->isCatch(i)) {
                Constant* c = L->getClause(i);
                if (isa<ConstantPointerNull>(c)) { sel = 1; return true; }
                u64 ti = constScalar(c).c;
                long adj;
                if (excMatches(s, e.tinfo, ti, e.obj, adj)) { sel = selectorOf(ti); return true; }
            } else {
                // filter: only empty filters (throw()) occur
                sel = -1;
                return true;
            }
        }
        if (L->isCleanup()) { sel = 0; return true; }
        return false;
    }
    return false;
}
// raise exception index ei: unwind frames. Returns false if the state terminates.
static bool unwind(State& s, u32 ei)
{
    // is there a handler at all?  (uncaught: std::terminate without unwinding)
    bool handler = false;
    for (size_t i = s.st.size(); i-- > 1;) {
        DInst* c = s.st[i].call;
        if (!c) continue;
        Frame& caller = s.st[i - 1];
        if (c->op == Instruction::Invoke) {
            int sel;
            if (landingMatches(s, caller, c->succ[1], s.excs[ei], sel) && sel != 0) { handler = true; break; }
        }
    }
    if (!handler) {
        // the instruction raising may itself be an invoke in the top frame (builtin throw); handled by caller
        violation(s, "uncaught", "uncaught exception " + excName(s, s.excs[ei].tinfo), *s.model);
        return false;
    }
    while (s.st.size() > 1) {
        DInst* c = s.st.back().call;
        popFrame(s);
        Frame& f = s.st.back();
        if (c && c->op == Instruction::Invoke) {
            int sel;
            if (landingMatches(s, f, c->succ[1], s.excs[ei], sel)) {
                enterBlock(f, c->succ[1]);
                f.excAfter = (int)ei;
                // stash selector for the landingpad instruction
                f.regs.resize(std::max<size_t>(f.regs.size(), f.f->nslots + 2));
                f.regs[f.f->nslots] = Val(s.excs[ei].obj);
                f.regs[f.f->nslots + 1] = Val((u64)(u32)sel);
                return true;
            }
        }
    }
    return false;
}
// raise from a builtin called by instruction x in the top frame
static BR raise(State& s, DInst& x, u32 ei)
{
    s.uncaught++;
    // push a pseudo frame so that unwind treats x uniformly
    s.st.emplace_back();
    s.st.back().f = s.st[s.st.size() - 2].f;
    s.st.back().call = &x;
    s.st.back().bb = s.st[s.st.size() - 2].bb;
    s.st.back().ip = s.st[s.st.size() - 2].ip;
    return unwind(s, ei) ? B_PUSHED : B_TERM;
}

// ------------------------------------------------------------------ builtins
static DFunc* findFunc(const char* n)
{
    Function* F = gM->getFunction(n);
    if (!F || F->isDeclaration()) return nullptr;
    return dfunc(F);
}
static BR allocBi(State& s, DInst& x, const Val& size, ObjKind k, Val& ret, bool zero = false)
{
    u64 n = concretize(s, size, 64);
    if (n > (8u << 20)) {
        if (k == KMalloc) {
            ret = Val(0);
            return B_DONE;
        }
        DFunc* d = findFunc("__sym_throw_bad_alloc");
        if (!d) { violation(s, "alloc", "allocation of " + std::to_string(n) + " bytes", *s.model); return B_TERM; }
        pushFrame(s, d, {}, &x);
        return B_PUSHED;
    }
    u32 id = s.mem.alloc(n, k, !zero, &x);
    ret = Val((u64)id << IDSHIFT);
    return B_DONE;
}
static BR freeBi(State& s, const Val& p, ObjKind k)
{
    u64 a = concretize(s, p, 64);
    if (!a) return B_DONE;
    const Obj* o = s.mem.get(idOf(a));
    if (!o || (a & ((1ull << IDSHIFT) - 1)) || (o->kind != KNew && o->kind != KNewArr && o->kind != KMalloc)) {
        violation(s, "memory", "invalid free", *s.model);
        return B_TERM;
    }
    if (o->freed) {
        violation(s, "memory", "double free", *s.model);
        return B_TERM;
    }
    if (o->kind != k) {
        violation(s, "memory", "mismatched allocation and deallocation", *s.model);
        return B_TERM;
    }
    auto n = std::make_shared<Obj>();
    n->size = o->size;
    n->kind = o->kind;
    n->freed = true;
    s.mem.put(idOf(a), n);
    return B_DONE;
}
static BR memcpyBi(State& s, const Val& d, const Val& sr, const Val& len, bool overlapOk)
{
    u64 n = concretize(s, len, 64);
    if (!n) return B_DONE;
    u32 i1, i2;
    u64 o1, o2;
    RR r = memAt(s, sr, n, false, i2, o2);
    if (r != RR_OK) return B_TERM;
    r = memAt(s, d, n, true, i1, o1);
    if (r != RR_OK) return B_TERM;
    Obj* D = s.mem.wr(i1);
    const Obj* S = s.mem.get(i2);
    if (D == S) {
        std::vector<u8> c(S->conc.begin() + o2, S->conc.begin() + o2 + n);
        std::vector<E> y;
        if (!S->sym.empty()) y.assign(S->sym.begin() + o2, S->sym.begin() + o2 + n);
        std::copy(c.begin(), c.end(), D->conc.begin() + o1);
        if (!y.empty()) std::copy(y.begin(), y.end(), D->sym.begin() + o1);
        return B_DONE;
    }
    memcpy(&D->conc[o1], &S->conc[o2], n);
    if (!S->sym.empty()) {
        if (D->sym.empty()) D->sym.assign(D->size, nullptr);
        std::copy(S->sym.begin() + o2, S->sym.begin() + o2 + n, D->sym.begin() + o1);
    } else if (!D->sym.empty())
        std::fill(D->sym.begin() + o1, D->sym.begin() + o1 + n, nullptr);
    return B_DONE;
}
static BR memsetBi(State& s, const Val& d, const Val& c, const Val& len)
{
    u64 n = concretize(s, len, 64);
    if (!n) return B_DONE;
    u32 i1;
    u64 o1;
    if (memAt(s, d, n, true, i1, o1) != RR_OK) return B_TERM;
    Obj* D = s.mem.wr(i1);
    Val b = c;
    if (b.e) b = fromE(mkExtract(b.e, 0, 8));
    else b.c &= 255;
    for (u64 i = 0; i < n; ++i) storeLeaf(D, o1 + i, 8, b);
    return B_DONE;
}
static E defined(State& s, E b)
{
    if (b == UNDEF) return namedVar("!undef" + std::to_string(s.undefCnt++) + "w1", 8, true);
    return b;
}
static BR memcmpBi(State& s, const Val& a, const Val& b, const Val& len, Val& ret, bool onlyEq)
{
    u64 n = concretize(s, len, 64);
    if (!n) {
        ret = Val(0);
        return B_DONE;
    }
    u32 i1, i2;
    u64 o1, o2;
    if (memAt(s, a, n, false, i1, o1) != RR_OK) return B_TERM;
    if (memAt(s, b, n, false, i2, o2) != RR_OK) return B_TERM;
    const Obj *A = s.mem.get(i1), *B = s.mem.get(i2);
    if (A->sym.empty() && B->sym.empty()) {
        int r = memcmp(&A->conc[o1], &B->conc[o2], n);
        ret = Val((u64)(u32)(r < 0 ? -1 : r > 0 ? 1 : 0));
        return B_DONE;
    }
    E res = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) {
        E x = defined(s, byteE(A, o1 + i)), y = defined(s, byteE(B, o2 + i));
        E diff = onlyEq ? mkConst(1, 32) : mkIte(mkBin(OUlt, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32));
        res = mkIte(mkBin(OEq, x, y), res, diff);
    }
    ret = fromE(res);
    return B_DONE;
}
static void addInput(State& s, const std::string& name, const std::vector<E>& b)
{
    InputRec r;
    r.name = name;
    r.bytes = b;
    s.inputs.push_back(r);
}
static E inputVar(State& s, const std::string& name, unsigned w, unsigned k)
{
    return namedVar(name + "@" + std::to_string(s.inputs.size()) + "." + std::to_string(k) + "w" + std::to_string(w), w, false);
}
static Val freshInput(State& s, const std::string& name, unsigned w)
{
    E v = inputVar(s, name, w, 0);
    std::vector<E> b;
    for (unsigned i = 0; i < w / 8; ++i) b.push_back(mkExtract(v, i * 8, 8));
    addInput(s, name, b);
    return fromE(v);
}

// ------------------------------------------------------------------ regular expressions (rt/ere.h)
static std::string ereText(State& s, const Val& p)
{
    std::string r;
    u64 a = concretize(s, p, 64);
    const Obj* o = s.mem.get(a >> IDSHIFT);
    if (!o) fatal("regular expression");
    for (u64 off = a & ((1ull << IDSHIFT) - 1); off < o->size && o->conc[off]; ++off) {
        if (!o->sym.empty() && o->sym[off]) fatal("symbolic regular expression");
        r += (char)o->conc[off];
    }
    return r;
}
static const ere::Regex& ereCompile(State& s, const Val& p)
{
    static std::map<std::string, ere::Regex> cache;
    std::string t = ereText(s, p);
    auto it = cache.find(t);
    if (it != cache.end()) return it->second;
    it = cache.emplace(t, ere::Regex()).first;
    ere::Regex& r = it->second;
    memset((void*)&r, 0, sizeof r);
    r.p = it->first.c_str();
    int k = ere::alt(r);
    if (*r.p) r.bad = true;
    if (!r.bad) {
        ere::gen(r, k);
        ere::emit(r, ere::MATCH);
    }
    return r;
}
static bool ereSubject(State& s, const Val& p, const Val& len, std::vector<E>& t)
{
    u64 n = concretize(s, len, 32);
    if (!n) return true;
    u32 id; u64 off;
    if (memAt(s, p, n, false, id, off) != RR_OK) return false;
    const Obj* o = s.mem.get(id);
    for (u64 i = 0; i < n; ++i) t.push_back(defined(s, byteE(o, off + i)));
    return true;
}
static E ereTest(const ere::Regex& r, const std::vector<E>& t)
{
    E zero = mkConst(0, 1), one = mkConst(1, 1), found = zero;
    std::vector<E> cur(r.n, zero), nxt;
    std::unique_ptr<bool[]> seen(new bool[r.n]), out(new bool[r.n]);
    size_t n = t.size();
    for (size_t p = 0; p <= n; ++p) {
        memset(seen.get(), 0, r.n), memset(out.get(), 0, r.n);
        ere::close(r, 0, p == 0, p == n, seen.get(), out.get());
        for (int k = 0; k < r.n; ++k)
            if (out[k]) cur[k] = one;
        found = mkBin(OOr, found, cur[r.n - 1]);
        if (found->isC() && found->k) return found;
        nxt.assign(r.n, zero);
        if (p < n)
            for (int k = 0; k < r.n; ++k) {
                const ere::Inst& i = r.prog[k];
                if (i.op != ere::CLASS || (cur[k]->isC() && !cur[k]->k)) continue;
                E in = zero;
                for (int q = 0; q < i.count; ++q) {
                    const ere::Range& g = r.ranges[i.from + q];
                    E d = mkBin(OSub, t[p], mkConst(g.lo, 8));
                    in = mkBin(OOr, in, g.lo == 0 && g.hi == 255 ? one : mkBin(OUle, d, mkConst(g.hi - g.lo, 8)));
                }
                E v = mkBin(OAnd, cur[k], in);
                if (v->isC() && !v->k) continue;
                memset(seen.get(), 0, r.n), memset(out.get(), 0, r.n);
                ere::close(r, k + 1, false, p + 1 == n, seen.get(), out.get());
                for (int q = 0; q < r.n; ++q)
                    if (out[q]) nxt[q] = mkBin(OOr, nxt[q], v);
            }
        cur.swap(nxt);
    }
    return found;
}
static void initBuiltins()
{
    auto& B = gBuiltins;
    auto def = [&](std::initializer_list<const char*> names, Builtin f) {
        for (auto n : names) B[n] = f;
    };
    def({ "_Znwm", "_ZnwmRKSt9nothrow_t" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) { return allocBi(s, x, a[0], KNew, r); });
    def({ "_ZnwmSt11align_val_t" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) { return allocBi(s, x, a[0], KNew, r); });
    def({ "_Znam", "_ZnamRKSt9nothrow_t" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) { return allocBi(s, x, a[0], KNewArr, r); });
    def({ "malloc" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) { return allocBi(s, x, a[0], KMalloc, r); });
    def({ "calloc" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) {
        u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64);
        return allocBi(s, x, Val(n), KMalloc, r, true);
    });
    def({ "realloc" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) {
        u64 n = concretize(s, a[1], 64);
        u64 p = concretize(s, a[0], 64);
        BR b = allocBi(s, x, Val(n), KMalloc, r);
        if (b != B_DONE || !p) return b;
        const Obj* o = s.mem.get(idOf(p));
        if (!o || o->freed) { violation(s, "memory", "realloc of invalid pointer", *s.model); return B_TERM; }
        memcpyBi(s, r, Val(p), Val(std::min<u64>(n, o->size)), false);
        return freeBi(s, Val(p), KMalloc);
    });
    def({ "free" }, [](State& s, DInst&, std::vector<Val>& a, Val&) { return freeBi(s, a[0], KMalloc); });
    def({ "_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t" },
        [](State& s, DInst&, std::vector<Val>& a, Val&) { return freeBi(s, a[0], KNew); });
    def({ "_ZdaPv", "_ZdaPvm" }, [](State& s, DInst&, std::vector<Val>& a, Val&) { return freeBi(s, a[0], KNewArr); });
    def({ "memcpy", "memmove", "mempcpy" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        r = a[0];
        return memcpyBi(s, a[0], a[1], a[2], true);
    });
    def({ "memset" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        r = a[0];
        return memsetBi(s, a[0], a[1], a[2]);
    });
    def({ "memcmp" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) { return memcmpBi(s, a[0], a[1], a[2], r, false); });
    def({ "bcmp" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) { return memcmpBi(s, a[0], a[1], a[2], r, true); });
    auto nop = [](State&, DInst&, std::vector<Val>&, Val& r) {
        r = Val(0);
        return B_DONE;
    };
    def({ "puts", "printf", "fprintf", "fputs", "fputc", "putchar", "fwrite", "fflush", "putc", "__cxa_atexit", "atexit", "setlocale",
            "llvm.donothing", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "perror", "pthread_mutex_lock", "pthread_mutex_unlock",
            "__cxa_thread_atexit", "_ZSt21ios_base_library_initv" },
        nop);
    auto term = [](const char* what) {
        std::string w = what;
        return [w](State& s, DInst&, std::vector<Val>&, Val&) {
            violation(s, "abort", w, *s.model);
            return B_TERM;
        };
    };
    def({ "abort" }, term("abort called"));
    def({ "_ZSt9terminatev" }, term("std::terminate called"));
    def({ "__assert_fail" }, term("assertion failure"));
    def({ "_ZSt21__glibcxx_assert_failPKciS0_S0_" }, term("precondition of the standard library violated"));
    def({ "__cxa_pure_virtual" }, term("pure virtual call"));
    def({ "__cxa_deleted_virtual" }, term("deleted virtual call"));
    def({ "__cxa_call_unexpected" }, term("unexpected exception"));
    def({ "__clang_call_terminate" }, term("exception escapes a noexcept function (std::terminate)"));
    def({ "__cxa_throw_bad_array_new_length" }, term("bad array new length"));
    def({ "__cxa_bad_cast" }, [](State& s, DInst& x, std::vector<Val>&, Val&) {
        DFunc* d = findFunc("__sym_throw_bad_cast");
        if (!d) { violation(s, "abort", "bad_cast", *s.model); return B_TERM; }
        pushFrame(s, d, {}, &x);
        return B_PUSHED;
    });
    def({ "exit", "_exit" }, [](State& s, DInst&, std::vector<Val>&, Val&) {
        violation(s, "abort", "exit called", *s.model);
        return B_TERM;
    });
    // exceptions
    def({ "__cxa_allocate_exception" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) {
        u32 id = s.mem.alloc(concretize(s, a[0], 64), KExc, true, &x);
        r = Val((u64)id << IDSHIFT);
        return B_DONE;
    });
    def({ "__cxa_free_exception" }, nop);
    def({ "__cxa_throw" }, [](State& s, DInst& x, std::vector<Val>& a, Val&) {
        ExcInfo e;
        e.obj = a[0].c;
        e.tinfo = a[1].c;
        e.dtor = a[2].c;
        s.excs.push_back(e);
        return raise(s, x, s.excs.size() - 1);
    });
    def({ "__cxa_begin_catch" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        u64 p = a[0].c;
        for (size_t i = s.excs.size(); i-- > 0;)
            if (s.excs[i].obj == p) {
                s.excs[i].handlers++;
                if (s.uncaught) s.uncaught--;
                s.caught.push_back(i);
                break;
            }
        r = Val(p);
        // a thrown pointer is passed by value
        for (auto& e : s.excs)
            if (e.obj == p && gname(idOf(e.tinfo)).compare(0, 5, "_ZTIP") == 0) r = Val(rd64(s, p));
        return B_DONE;
    });
    def({ "__cxa_get_exception_ptr" }, [](State&, DInst&, std::vector<Val>& a, Val& r) {
        r = a[0];
        return B_DONE;
    });
    def({ "__cxa_end_catch" }, [](State& s, DInst& x, std::vector<Val>&, Val&) {
        if (s.caught.empty()) return B_DONE;
        u32 i = s.caught.back();
        s.caught.pop_back();
        ExcInfo& e = s.excs[i];
        e.handlers--;
        if (e.rethrown) return B_DONE;
        if (e.handlers == 0 && e.dtor) {
            auto it = gFuncById.find(idOf(e.dtor));
            if (it != gFuncById.end() && !it->second->F->isDeclaration()) {
                u64 o = e.obj;
                e.dtor = 0;
                pushFrame(s, it->second, { Val(o) }, &x);
                return B_PUSHED;
            }
        }
        return B_DONE;
    });
    def({ "__cxa_rethrow" }, [](State& s, DInst& x, std::vector<Val>&, Val&) {
        if (s.caught.empty()) {
            violation(s, "abort", "rethrow without active exception", *s.model);
            return B_TERM;
        }
        u32 i = s.caught.back();
        ExcInfo e = s.excs[i];
        s.excs[i].rethrown = true;
        e.handlers = 0;
        e.rethrown = false;
        s.excs.push_back(e);
        return raise(s, x, s.excs.size() - 1);
    });
    def({ "_ZSt19uncaught_exceptionsv" }, [](State& s, DInst&, std::vector<Val>&, Val& r) {
        r = Val(s.uncaught);
        return B_DONE;
    });
    def({ "_ZSt18uncaught_exceptionv" }, [](State& s, DInst&, std::vector<Val>&, Val& r) {
        r = Val(s.uncaught != 0);
        return B_DONE;
    });
    def({ "__cxa_guard_acquire" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        u32 id;
        u64 off;
        if (memAt(s, a[0], 1, false, id, off) != RR_OK) return B_TERM;
        r = Val(s.mem.get(id)->conc[off] ? 0 : 1);
        return B_DONE;
    });
    def({ "__cxa_guard_release" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        u32 id;
        u64 off;
        if (memAt(s, a[0], 1, true, id, off) != RR_OK) return B_TERM;
        s.mem.wr(id)->conc[off] = 1;
        return B_DONE;
    });
    def({ "__cxa_guard_abort" }, nop);
    def({ "__dynamic_cast" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) {
        u64 p = concretize(s, a[0], 64);
        u32 id;
        u64 off;
        if (memAt(s, Val(p), 8, false, id, off) != RR_OK) return B_TERM;
        u64 vt = rd64(s, p);
        long top = (long)rd64(s, vt - 16);
        u64 ti = rd64(s, vt - 8);
        u64 whole = p + top;
        std::vector<std::pair<u64, long>> sub;
        subobjects(s, ti, 0, whole, sub);
        std::set<long> hits;
        for (auto& q : sub)
            if (q.first == a[2].c) hits.insert(q.second);
        r = Val(hits.size() >= 1 ? whole + *hits.begin() : 0);
        return B_DONE;
    });
    def({ "__sym_ere_load" }, [](State& s, DInst& x, std::vector<Val>& a, Val& r) {
        const ere::Regex& c = ereCompile(s, a[0]);
        u32 id; u64 off;
        if (memAt(s, a[1], sizeof(ere::Regex), true, id, off) != RR_OK) return B_TERM;
        u32 prog = s.mem.alloc(sizeof(ere::Inst) * c.n + 1, KMalloc, false, &x), ranges = s.mem.alloc(sizeof(ere::Range) * c.nr + 1, KMalloc, false, &x);
        memcpy(&s.mem.wr(prog)->conc[0], c.prog, sizeof(ere::Inst) * c.n);
        if (c.nr) memcpy(&s.mem.wr(ranges)->conc[0], c.ranges, sizeof(ere::Range) * c.nr);
        ere::Regex g = c;
        g.prog = (ere::Inst*)((u64)prog << IDSHIFT);
        g.ranges = (ere::Range*)((u64)ranges << IDSHIFT);
        g.nodes = nullptr;
        g.p = nullptr;
        memcpy(&s.mem.wr(id)->conc[off], &g, sizeof g);
        return B_DONE;
    });
    def({ "__sym_ere_exec" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        std::vector<E> t;
        if (!ereSubject(s, a[1], a[2], t)) return B_TERM;
        std::string str;
        for (E e : t) {
            if (!e->isC()) {
                r = Val(0xffffffffu);
                return B_DONE;
            }
            str += (char)e->k;
        }
        u64 nm = concretize(s, a[3], 32);
        static std::map<std::string, regex_t> cache;
        std::string p = ereText(s, a[0]);
        auto it = cache.find(p);
        if (it == cache.end()) {
            it = cache.emplace(p, regex_t()).first;
            if (regcomp(&it->second, p.c_str(), REG_EXTENDED)) fatal("regcomp " + p);
        }
        std::vector<regmatch_t> m(nm + 1);
        bool ok = !regexec(&it->second, str.c_str(), nm, m.data(), 0);
        if (ok && nm) {
            u32 id; u64 off;
            if (memAt(s, a[4], sizeof(regmatch_t) * nm, true, id, off) != RR_OK) return B_TERM;
            Obj* o = s.mem.wr(id);
            memcpy(&o->conc[off], m.data(), sizeof(regmatch_t) * nm);
            if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + sizeof(regmatch_t) * nm, nullptr);
        }
        r = Val((u64)ok);
        return B_DONE;
    });
    def({ "__sym_ere_test" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        std::vector<E> t;
        if (!ereSubject(s, a[1], a[2], t)) return B_TERM;
        E v = ereTest(ereCompile(s, a[0]), t);
        r = v->isC() ? Val((u64)v->k) : fromE(mkZExt(v, 32));
        return B_DONE;
    });
    // printf-style formatting of integers, characters and strings
    def({ "snprintf" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        std::string f = cstr(s, a[2]);
        std::vector<E> out;
        auto ch = [&](char c) { out.push_back(mkConst((u8)c, 8)); };
        size_t ai = 3;
        for (size_t i = 0; i < f.size(); ++i) {
            if (f[i] != '%') { ch(f[i]); continue; }
            size_t b = i++;
            bool zero = false;
            while (i < f.size() && strchr("-+ #0", f[i])) { zero |= f[i] == '0'; ++i; }
            unsigned width = 0;
            while (i < f.size() && isdigit(f[i])) width = width * 10 + (f[i++] - '0');
            if (i < f.size() && f[i] == '.') { ++i; while (i < f.size() && isdigit(f[i])) ++i; }
            bool lng = false;
            while (i < f.size() && strchr("lzjth", f[i])) { lng |= f[i] != 'h'; ++i; }
            char c = i < f.size() ? f[i] : '%';
            std::string spec = f.substr(b, i - b + 1);
            if (c == '%') { ch('%'); continue; }
            if (ai >= a.size()) { incomplete(s, "snprintf arguments"); return B_TERM; }
            Val v = a[ai++];
            if (c == 's') {
                u64 p = concretize(s, v, 64);
                for (;;) {
                    u32 id; u64 off;
                    if (memAt(s, Val(p++), 1, false, id, off) != RR_OK) return B_TERM;
                    E e = byteE(s.mem.get(id), off);
                    if (e->isC() && !e->k) break;
                    if (!e->isC()) {
                        u64 x = concretize(s, fromE(e), 8);
                        if (!x) break;
                        e = mkConst(x, 8);
                    }
                    out.push_back(e);
                }
                continue;
            }
            if (!strchr("diuxXc", c)) { incomplete(s, "snprintf conversion " + spec); return B_TERM; }
            unsigned w = lng ? 64 : 32;
            if (v.e && v.e->w != w) v = fromE(v.e->w > w ? mkExtract(v.e, 0, w) : mkZExt(v.e, w));
            if (v.e && (c == 'x' || c == 'X') && zero && width && width * 4 < w) {
                MP m;
                if (mayBe(s, mkNot(mkBin(OUlt, v.e, mkConst(1ull << (width * 4), w))), m) == 0) {
                    for (unsigned k = width; k-- > 0;) {
                        E n = mkZExt(mkExtract(v.e, k * 4, 4), 8);
                        out.push_back(mkIte(mkBin(OUlt, n, mkConst(10, 8)), mkBin(OAdd, n, mkConst('0', 8)), mkBin(OAdd, n, mkConst((c == 'x' ? 'a' : 'A') - 10, 8))));
                    }
                    continue;
                }
            }
            if (c == 'c') { out.push_back(v.e ? mkExtract(v.e, 0, 8) : mkConst(v.c & 255, 8)); continue; }
            u64 x = concretize(s, v, w);
            char buf[128];
            if (lng) snprintf(buf, sizeof buf, spec.c_str(), (long)x);
            else snprintf(buf, sizeof buf, spec.c_str(), (int)x);
            for (char* q = buf; *q; ++q) ch(*q);
        }
        u64 cap = concretize(s, a[1], 64);
        u64 n = std::min<u64>(out.size(), cap ? cap - 1 : 0);
        if (cap) {
            u32 id; u64 off;
            if (memAt(s, a[0], n + 1, true, id, off) != RR_OK) return B_TERM;
            Obj* o = s.mem.wr(id);
            for (u64 i = 0; i < n; ++i) storeLeaf(o, off + i, 8, fromE(out[i]));
            storeLeaf(o, off + n, 8, Val(0));
        }
        r = Val(out.size());
        return B_DONE;
    });
    // harness API
    def({ "sym_bytes" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        u64 n = concretize(s, a[1], 64);
        std::string nm = cstr(s, a[2]);
        std::vector<E> b;
        for (u64 i = 0; i < n; ++i) b.push_back(inputVar(s, nm, 8, i));
        if (n) {
            u32 id;
            u64 off;
            if (memAt(s, a[0], n, true, id, off) != RR_OK) return B_TERM;
            Obj* o = s.mem.wr(id);
            for (u64 i = 0; i < n; ++i) storeLeaf(o, off + i, 8, fromE(b[i]));
        }
        addInput(s, nm, b);
        return B_DONE;
    });
    def({ "sym_u64" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) { r = freshInput(s, cstr(s, a[0]), 64); return B_DONE; });
    def({ "sym_u32" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) { r = freshInput(s, cstr(s, a[0]), 32); return B_DONE; });
    def({ "sym_u8" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) { r = freshInput(s, cstr(s, a[0]), 8); return B_DONE; });
    def({ "sym_concretize" }, [](State& s, DInst&, std::vector<Val>& a, Val& r) {
        r = Val(concretize(s, a[0], 64));
        return B_DONE;
    });
    def({ "sym_assume_" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        sh->assumed++;
        if (!a[0].e) {
            if (a[0].c & 0xffffffff) return B_DONE;
            s.reach.push_back("!assume");
            return B_TERM;
        }
        E c = mkNot(mkBin(OEq, a[0].e, mkConst(0, a[0].e->w)));
        MP m;
        int r = mayBe(s, c, m);
        if (r != 1) {
            if (r < 0) incomplete(s, "solver-unknown");
            s.reach.push_back("!assume");
            return B_TERM;
        }
        s.model = m;
        addCons(s, c);
        return B_DONE;
    });
    def({ "sym_assert_" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        sh->asserts++;
        std::string id = cstr(s, a[1]);
        if (!a[0].e) {
            if (a[0].c & 0xffffffff) { sh->assertsProved++; return B_DONE; }
            violation(s, "assert", id, *s.model);
            return B_TERM;
        }
        E c = mkNot(mkBin(OEq, a[0].e, mkConst(0, a[0].e->w)));
        MP m;
        int r = mayBe(s, mkNot(c), m);
        if (r == 0) { sh->assertsProved++; return B_DONE; }
        if (r < 0) {
            incomplete(s, "solver-unknown");
            return B_DONE;
        }
        violation(s, "assert", id, *m);
        r = mayBe(s, c, m);
        if (r != 1) return B_TERM;
        s.model = m;
        addCons(s, c);
        return B_DONE;
    });
    def({ "sym_reach" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        std::string t = cstr(s, a[0]);
        s.reach.push_back(t);
        return B_DONE;
    });
    def({ "sym_observe_bytes" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        u64 n = concretize(s, a[2], 64);
        ObsRec r;
        r.name = cstr(s, a[0]);
        if (n) {
            u32 id;
            u64 off;
            if (memAt(s, a[1], n, false, id, off) != RR_OK) return B_TERM;
            const Obj* o = s.mem.get(id);
            for (u64 i = 0; i < n; ++i) r.bytes.push_back(byteE(o, off + i));
        }
        s.obs.push_back(r);
        return B_DONE;
    });
    def({ "sym_observe_u64" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        ObsRec r;
        r.name = cstr(s, a[0]);
        E v = toE(a[1], 64);
        for (unsigned i = 0; i < 8; ++i) r.bytes.push_back(mkExtract(v, i * 8, 8));
        s.obs.push_back(r);
        return B_DONE;
    });
    def({ "sym_is_symbolic_run" }, [](State&, DInst&, std::vector<Val>&, Val& r) {
        r = Val(1);
        return B_DONE;
    });
    def({ "sym_debug" }, [](State& s, DInst&, std::vector<Val>& a, Val&) {
        if (opt.verbose) fprintf(stderr, "[debug] %s %llu\n", cstr(s, a[0]).c_str(), (unsigned long long)(a[1].e ? evalE(a[1].e, *s.model) : a[1].c));
        return B_DONE;
    });
    def({ "sym_stack_depth" }, [](State& s, DInst&, std::vector<Val>&, Val& r) {
        r = Val(s.st.size());
        return B_DONE;
    });
    // number of live heap objects (leak accounting)
    def({ "sym_live_heap" }, [](State& s, DInst&, std::vector<Val>&, Val& r) {
        u64 n = 0;
        for (u32 i = 1; i < s.mem.next; ++i) {
            const Obj* o = s.mem.get(i);
            if (o && !o->freed && (o->kind == KNew || o->kind == KNewArr || o->kind == KMalloc)) ++n;
        }
        r = Val(n);
        return B_DONE;
    });
}

// ------------------------------------------------------------------ floats
static double bitsD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 Dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bitsF(u64 b) { float d; u32 x = b; memcpy(&d, &x, 4); return d; }
static u64 Fbits(float d) { u32 b; memcpy(&b, &d, 4); return b; }
static double fpv(State& s, const Val& v, unsigned w)
{
    u64 b = concretize(s, v, w > 64 ? 64 : w);
    return w == 32 ? bitsF(b) : bitsD(b);
}
static Val fpr(double d, unsigned w) { return Val(w == 32 ? Fbits((float)d) : Dbits(d)); }

// ------------------------------------------------------------------ intrinsics
static BR intrinsic(State& s, DInst& x, std::vector<Val>& a, Val* dst)
{
    auto* II = cast<IntrinsicInst>(x.inst);
    unsigned w = x.w;
    auto pick = [&](Op cmp, bool first) {
        E p = toE(a[0], w), q = toE(a[1], w);
        E c = mkBin(cmp, p, q);
        dst[0] = fromE(first ? mkIte(c, p, q) : mkIte(c, q, p));
    };
    switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore:
        case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::donothing:
            if (x.dst >= 0) dst[0] = Val(0);
            return B_DONE;
        case Intrinsic::stacksave: dst[0] = Val(0); return B_DONE;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return memcpyBi(s, a[0], a[1], a[2], true);
        case Intrinsic::memset: return memsetBi(s, a[0], a[1], a[2]);
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ptr_annotation: dst[0] = a[0]; return B_DONE;
        case Intrinsic::is_constant: dst[0] = Val(0); return B_DONE;
        case Intrinsic::objectsize: dst[0] = Val(~0ull); return B_DONE;
        case Intrinsic::eh_typeid_for: dst[0] = Val((u64)(u32)selectorOf(a[0].c)); return B_DONE;
        case Intrinsic::umax: pick(OUlt, false); return B_DONE;
        case Intrinsic::umin: pick(OUlt, true); return B_DONE;
        case Intrinsic::smax: pick(OSlt, false); return B_DONE;
        case Intrinsic::smin: pick(OSlt, true); return B_DONE;
        case Intrinsic::abs: {
            E p = toE(a[0], w);
            dst[0] = fromE(mkIte(mkBin(OSlt, p, mkConst(0, w)), mkBin(OSub, mkConst(0, w), p), p));
            return B_DONE;
        }
        case Intrinsic::usub_sat: {
            E p = toE(a[0], w), q = toE(a[1], w);
            dst[0] = fromE(mkIte(mkBin(OUlt, p, q), mkConst(0, w), mkBin(OSub, p, q)));
            return B_DONE;
        }
        case Intrinsic::uadd_sat: {
            E p = toE(a[0], w), q = toE(a[1], w), t = mkBin(OAdd, p, q);
            dst[0] = fromE(mkIte(mkBin(OUlt, t, p), mkConst(maskw(w), w), t));
            return B_DONE;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned ww = x.argw[0];
            auto id = II->getIntrinsicID();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OAdd
                : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow)   ? OSub
                                                                                                 : OMul;
            E p = toE(a[0], ww), q = toE(a[1], ww);
            unsigned W = std::min(128u, op == OMul ? ww * 2 : ww + 2);
            E P = sg ? mkSExt(p, W) : mkZExt(p, W), Q = sg ? mkSExt(q, W) : mkZExt(q, W);
            E t = mkBin(op, P, Q), r = mkBin(op, p, q);
            E back = sg ? mkSExt(r, W) : mkZExt(r, W);
            dst[0] = fromE(r);
            dst[1] = fromE(mkNot(mkBin(OEq, t, back)));
            return B_DONE;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E p = toE(a[0], w), q = toE(a[1], w);
            u64 sft = concretize(s, a[2], w) % w;
            E cc = mkConcat(p, q);
            if (II->getIntrinsicID() == Intrinsic::fshl) dst[0] = fromE(mkExtract(cc, w - sft, w));
            else dst[0] = fromE(mkExtract(cc, sft, w));
            return B_DONE;
        }
        case Intrinsic::bswap: {
            E p = toE(a[0], w), r = nullptr;
            for (unsigned i = 0; i < w / 8; ++i) {
                E b = mkExtract(p, i * 8, 8);
                r = r ? mkConcat(r, b) : b;
            }
            dst[0] = fromE(r);
            return B_DONE;
        }
        case Intrinsic::ctpop: {
            E p = toE(a[0], w), r = mkConst(0, w);
            for (unsigned i = 0; i < w; ++i) r = mkBin(OAdd, r, mkZExt(mkExtract(p, i, 1), w));
            dst[0] = fromE(r);
            return B_DONE;
        }
        case Intrinsic::ctlz: {
            E p = toE(a[0], w), r = mkConst(w, w);
            for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(p, i, 1), mkConst(w - 1 - i, w), r);
            dst[0] = fromE(r);
            return B_DONE;
        }
        case Intrinsic::cttz: {
            E p = toE(a[0], w), r = mkConst(w, w);
            for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(p, i, 1), mkConst(i, w), r);
            dst[0] = fromE(r);
            return B_DONE;
        }
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
            violation(s, "trap", "undefined-behaviour trap", *s.model);
            return B_TERM;
        case Intrinsic::fabs: dst[0] = fpr(std::abs(fpv(s, a[0], w)), w); return B_DONE;
        case Intrinsic::threadlocal_address: dst[0] = a[0]; return B_DONE;
        case Intrinsic::load_relative: fatal("load_relative");
        case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: fatal("varargs");
        default: fatal("intrinsic " + II->getCalledFunction()->getName().str());
    }
}

// ------------------------------------------------------------------ main interpreter
static void finishPath(State& s, const char* how)
{
    sh->paths++;
    gPathsLocal++;
    bool assumedAway = false;
    for (auto& r : s.reach)
        if (r == "!assume") assumedAway = true;
    if (assumedAway) return;
    static std::set<std::string> reachSeen;
    bool newReach = false;
    for (auto& r : s.reach)
        if (reachSeen.insert(r).second) newReach = true;
    u64 k = sh->records.fetch_add(1);
    // keep everything early, then thin out deterministically
    bool keep = newReach || k < opt.pathRecords / 2 || ((k * 2654435761u + opt.seed) % 97 == 0 && k < opt.pathRecords * 60);
    if (keep) {
        std::string r = "{\"t\":\"path\",\"how\":" + jstr(how) + ",\"inputs\":" + inputsJson(s, *s.model) + ",\"obs\":[";
        bool undef = false;
        for (size_t i = 0; i < s.obs.size(); ++i) {
            if (i) r += ",";
            r += "[" + jstr(s.obs[i].name) + ",\"" + hex(s.obs[i].bytes, *s.model) + "\"]";
            for (E e : s.obs[i].bytes)
                if (e == UNDEF || e->undef) undef = true;
        }
        r += "],\"reach\":[";
        for (size_t i = 0; i < s.reach.size(); ++i) {
            if (i) r += ",";
            r += jstr(s.reach[i]);
        }
        r += "],\"instrs\":" + std::to_string(s.instrs) + ",\"cons\":" + std::to_string(s.cons.size()) + (undef ? ",\"undef\":1" : "") + "}";
        emit(r);
    }
}

static bool timeUp()
{
    double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count();
    return t > opt.maxTime;
}

// Runs until the state ends or is to be rescheduled. Returns true when finished.
static void run(State& s)
{
    u64 cnt = 0;
    while (true) {
        if ((++cnt & 0x3ff) == 0) {
            if (sh->stop.load(std::memory_order_relaxed)) return;
            if ((cnt & 0xffff) == 0 && timeUp()) {
                incomplete(s, "time-budget");
                return;
            }
        }
        Frame& f = s.st.back();
        DBlock& b = f.f->bb[f.bb];
        DInst& x = b.in[f.ip];
        if (++s.instrs > opt.maxInstr) {
            sh->depthlim++;
            violation(s, "limit", "instruction bound exceeded (non-termination?)", *s.model);
            finishPath(s, "limit");
            return;
        }
        if (x.line >= 0) sh->lineCov[x.line].store(1, std::memory_order_relaxed);
        auto val = [&](unsigned i, u32 k = 0) -> Val {
            Opnd& o = x.a[i];
            return o.slot >= 0 ? f.regs[o.slot + k] : o.agg ? (*o.agg)[k] : o.c;
        };
        switch (x.op) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::And: case Instruction::Or: case Instruction::Xor: {
                bool term = false;
                for (u32 k = 0; k < x.nd; ++k) {
                    Val p = val(0, k), q = val(1, k);
                    unsigned w = x.w;
                    if ((x.op >= Instruction::UDiv && x.op <= Instruction::SRem && x.op != Instruction::FDiv && x.op != Instruction::FRem)) {
                        // division by zero
                        if (!q.e) {
                            if (q.c == 0) { violation(s, "div", "division by zero", *s.model); term = true; break; }
                        } else {
                            MP m;
                            E z = mkBin(OEq, q.e, mkConst(0, w));
                            if (mayBe(s, z, m) == 1) {
                                violation(s, "div", "division by zero", *m);
                                if (mayBe(s, mkNot(z), m) != 1) { term = true; break; }
                                s.model = m;
                                addCons(s, mkNot(z));
                            }
                        }
                    }
                    Op op;
                    switch (x.op) {
                        case Instruction::Add: op = OAdd; break;
                        case Instruction::Sub: op = OSub; break;
                        case Instruction::Mul: op = OMul; break;
                        case Instruction::UDiv: op = OUDiv; break;
                        case Instruction::SDiv: op = OSDiv; break;
                        case Instruction::URem: op = OURem; break;
                        case Instruction::SRem: op = OSRem; break;
                        case Instruction::Shl: op = OShl; break;
                        case Instruction::LShr: op = OLShr; break;
                        case Instruction::AShr: op = OAShr; break;
                        case Instruction::And: op = OAnd; break;
                        case Instruction::Or: op = OOr; break;
                        default: op = OXor; break;
                    }
                    if (!p.e && !q.e) {
                        switch (op) {
                            case OAdd: f.regs[x.dst + k] = Val((p.c + q.c) & m64(w)); break;
                            case OSub: f.regs[x.dst + k] = Val((p.c - q.c) & m64(w)); break;
                            case OAnd: f.regs[x.dst + k] = Val(p.c & q.c); break;
                            case OOr: f.regs[x.dst + k] = Val(p.c | q.c); break;
                            case OXor: f.regs[x.dst + k] = Val(p.c ^ q.c); break;
                            default: f.regs[x.dst + k] = Val((u64)evalBin(op, p.c, q.c, w));
                        }
                    } else {
                        E r = mkBin(op, toE(p, w), toE(q, w));
                        f.regs[x.dst + k] = fromE(r);
                    }
                }
                if (term) { finishPath(s, "violation"); return; }
                f.ip++;
                break;
            }
            case Instruction::ICmp: {
                for (u32 k = 0; k < x.nd; ++k) {
                    Val p = val(0, k), q = val(1, k);
                    unsigned w = x.w;
                    if (!p.e && !q.e) {
                        bool r;
                        switch (x.sub) {
                            case CmpInst::ICMP_EQ: r = p.c == q.c; break;
                            case CmpInst::ICMP_NE: r = p.c != q.c; break;
                            case CmpInst::ICMP_UGT: r = p.c > q.c; break;
                            case CmpInst::ICMP_UGE: r = p.c >= q.c; break;
                            case CmpInst::ICMP_ULT: r = p.c < q.c; break;
                            case CmpInst::ICMP_ULE: r = p.c <= q.c; break;
                            case CmpInst::ICMP_SGT: r = sx(p.c, w) > sx(q.c, w); break;
                            case CmpInst::ICMP_SGE: r = sx(p.c, w) >= sx(q.c, w); break;
                            case CmpInst::ICMP_SLT: r = sx(p.c, w) < sx(q.c, w); break;
                            default: r = sx(p.c, w) <= sx(q.c, w); break;
                        }
                        f.regs[x.dst + k] = Val(r);
                    } else {
                        E a = toE(p, w), c = toE(q, w), r;
                        switch (x.sub) {
                            case CmpInst::ICMP_EQ: r = mkBin(OEq, a, c); break;
                            case CmpInst::ICMP_NE: r = mkNot(mkBin(OEq, a, c)); break;
                            case CmpInst::ICMP_UGT: r = mkBin(OUlt, c, a); break;
                            case CmpInst::ICMP_UGE: r = mkBin(OUle, c, a); break;
                            case CmpInst::ICMP_ULT: r = mkBin(OUlt, a, c); break;
                            case CmpInst::ICMP_ULE: r = mkBin(OUle, a, c); break;
                            case CmpInst::ICMP_SGT: r = mkBin(OSlt, c, a); break;
                            case CmpInst::ICMP_SGE: r = mkBin(OSle, c, a); break;
                            case CmpInst::ICMP_SLT: r = mkBin(OSlt, a, c); break;
                            default: r = mkBin(OSle, a, c); break;
                        }
                        f.regs[x.dst + k] = fromE(r);
                    }
                }
                f.ip++;
                break;
            }
            case Instruction::FCmp: {
                double p = fpv(s, val(0), x.w), q = fpv(s, val(1), x.w);
                bool un = p != p || q != q, r = false;
                switch (x.sub) {
                    case CmpInst::FCMP_OEQ: r = !un && p == q; break;
                    case CmpInst::FCMP_OGT: r = !un && p > q; break;
                    case CmpInst::FCMP_OGE: r = !un && p >= q; break;
                    case CmpInst::FCMP_OLT: r = !un && p < q; break;
                    case CmpInst::FCMP_OLE: r = !un && p <= q; break;
                    case CmpInst::FCMP_ONE: r = !un && p != q; break;
                    case CmpInst::FCMP_ORD: r = !un; break;
                    case CmpInst::FCMP_UNO: r = un; break;
                    case CmpInst::FCMP_UEQ: r = un || p == q; break;
                    case CmpInst::FCMP_UGT: r = un || p > q; break;
                    case CmpInst::FCMP_UGE: r = un || p >= q; break;
                    case CmpInst::FCMP_ULT: r = un || p < q; break;
                    case CmpInst::FCMP_ULE: r = un || p <= q; break;
                    case CmpInst::FCMP_UNE: r = un || p != q; break;
                    case CmpInst::FCMP_TRUE: r = true; break;
                    default: r = false;
                }
                f.regs[x.dst] = Val(r);
                f.ip++;
                break;
            }
            case Instruction::FAdd: f.regs[x.dst] = fpr(fpv(s, val(0), x.w) + fpv(s, val(1), x.w), x.w); f.ip++; break;
            case Instruction::FSub: f.regs[x.dst] = fpr(fpv(s, val(0), x.w) - fpv(s, val(1), x.w), x.w); f.ip++; break;
            case Instruction::FMul: f.regs[x.dst] = fpr(fpv(s, val(0), x.w) * fpv(s, val(1), x.w), x.w); f.ip++; break;
            case Instruction::FDiv: f.regs[x.dst] = fpr(fpv(s, val(0), x.w) / fpv(s, val(1), x.w), x.w); f.ip++; break;
            case Instruction::FNeg: f.regs[x.dst] = fpr(-fpv(s, val(0), x.w), x.w); f.ip++; break;
            case Instruction::FPExt: case Instruction::FPTrunc: f.regs[x.dst] = fpr(fpv(s, val(0), x.w2), x.w); f.ip++; break;
            case Instruction::SIToFP: f.regs[x.dst] = fpr((double)(int64_t)sx(concretize(s, val(0), x.w2), x.w2), x.w); f.ip++; break;
            case Instruction::UIToFP: f.regs[x.dst] = fpr((double)concretize(s, val(0), x.w2), x.w); f.ip++; break;
            case Instruction::FPToSI: f.regs[x.dst] = Val((u64)(int64_t)fpv(s, val(0), x.w2) & m64(x.w)); f.ip++; break;
            case Instruction::FPToUI: f.regs[x.dst] = Val((u64)fpv(s, val(0), x.w2) & m64(x.w)); f.ip++; break;
            case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::SExt: {
                for (u32 k = 0; k < x.nd; ++k) {
                    Val p = val(0, k);
                    if (!p.e && x.w <= 64) {
                        if (x.op == Instruction::SExt) f.regs[x.dst + k] = Val((u64)sx(p.c, x.w2) & m64(x.w));
                        else f.regs[x.dst + k] = Val(p.c & m64(x.w));
                    } else {
                        E e = toE(p, x.w2);
                        if (x.w > x.w2) e = x.op == Instruction::SExt ? mkSExt(e, x.w) : mkZExt(e, x.w);
                        else e = mkExtract(e, 0, x.w);
                        f.regs[x.dst + k] = fromE(e);
                    }
                }
                f.ip++;
                break;
            }
            case Instruction::BitCast: {
                // total bits equal; possibly vector<->scalar
                u32 ns = x.a[0].n;
                if (ns == x.nd) {
                    for (u32 k = 0; k < x.nd; ++k) f.regs[x.dst + k] = val(0, k);
                } else {
                    E all = nullptr;
                    for (u32 k = 0; k < ns; ++k) {
                        E e = toE(val(0, k), x.w2);
                        all = all ? mkConcat(e, all) : e;
                    }
                    for (u32 k = 0; k < x.nd; ++k) f.regs[x.dst + k] = fromE(mkExtract(all, k * x.w, x.w));
                }
                f.ip++;
                break;
            }
            case Instruction::Freeze:
                for (u32 k = 0; k < x.nd; ++k) f.regs[x.dst + k] = val(0, k);
                f.ip++;
                break;
            case Instruction::Select: {
                // operand 0 i1 (or vector)
                std::vector<Leaf> lv;
                for (u32 k = 0; k < x.nd; ++k) {
                    Val c = val(0, x.a[0].n > 1 ? k : 0);
                    if (!c.e) f.regs[x.dst + k] = (c.c & 1) ? val(1, k) : val(2, k);
                    else {
                        Val p = val(1, k), q = val(2, k);
                        unsigned w = x.w;
                        if (!w) {
                            if (lv.empty()) flatten(x.inst->getType(), 0, lv);
                            w = lv[k].w;
                        }
                        if (!p.e && !q.e && p.c == q.c) f.regs[x.dst + k] = p;
                        else f.regs[x.dst + k] = fromE(mkIte(c.e, toE(p, w), toE(q, w)));
                    }
                }
                f.ip++;
                break;
            }
            case Instruction::GetElementPtr: {
                Val p = val(0);
                u64 c = x.goff;
                E acc = nullptr;
                for (size_t i = 0; i < x.gscale.size(); ++i) {
                    Val q = val(x.gscale[i].first);
                    u64 sc = x.gscale[i].second;
                    if (!q.e) c += (u64)sx(q.c, x.gw[i]) * sc;
                    else {
                        E t = mkBin(OMul, mkSExt(q.e, 64), mkConst(sc, 64));
                        acc = acc ? mkBin(OAdd, acc, t) : t;
                    }
                }
                if (!p.e && !acc) f.regs[x.dst] = Val(p.c + c);
                else {
                    E e = toE(p, 64);
                    if (acc) e = mkBin(OAdd, acc, e);
                    f.regs[x.dst] = fromE(mkBin(OAdd, e, mkConst(c, 64)));
                }
                f.ip++;
                break;
            }
            case Instruction::Alloca: {
                u64 n = concretize(s, val(0), 64) * x.ptypeSize;
                u32 id = s.mem.alloc(n, KStack, true, &x);
                f.allocas.push_back(id);
                f.regs[x.dst] = Val((u64)id << IDSHIFT);
                f.ip++;
                break;
            }
            case Instruction::Load: {
                static std::vector<Val> tmp;
                tmp.resize(x.leaves.size());
                if (doLoad(s, x, val(0), tmp.data()) != RR_OK) { finishPath(s, "violation"); return; }
                for (size_t k = 0; k < tmp.size(); ++k) f.regs[x.dst + k] = tmp[k];
                f.ip++;
                break;
            }
            case Instruction::Store: {
                static std::vector<Val> tmp;
                tmp.resize(x.leaves.size());
                for (size_t k = 0; k < tmp.size(); ++k) tmp[k] = val(0, k);
                if (doStore(s, x, tmp.data(), val(1)) != RR_OK) { finishPath(s, "violation"); return; }
                f.ip++;
                break;
            }
            case Instruction::Fence: f.ip++; break;
            case Instruction::AtomicRMW: {
                auto* A = cast<AtomicRMWInst>(x.inst);
                DInst t = x;
                t.leaves.clear();
                flatten(x.inst->getType(), 0, t.leaves);
                t.msz = (x.w + 7) / 8;
                Val old;
                if (doLoad(s, t, val(0), &old) != RR_OK) { finishPath(s, "violation"); return; }
                E o = toE(old, x.w), v = toE(val(1), x.w), r;
                switch (A->getOperation()) {
                    case AtomicRMWInst::Add: r = mkBin(OAdd, o, v); break;
                    case AtomicRMWInst::Sub: r = mkBin(OSub, o, v); break;
                    case AtomicRMWInst::Xchg: r = v; break;
                    case AtomicRMWInst::Or: r = mkBin(OOr, o, v); break;
                    case AtomicRMWInst::And: r = mkBin(OAnd, o, v); break;
                    default: fatal("atomicrmw");
                }
                Val rv = fromE(r);
                if (doStore(s, t, &rv, val(0)) != RR_OK) { finishPath(s, "violation"); return; }
                f.regs[x.dst] = old;
                f.ip++;
                break;
            }
            case Instruction::AtomicCmpXchg: {
                DInst t = x;
                t.leaves.clear();
                Type* ty = x.inst->getOperand(1)->getType();
                flatten(ty, 0, t.leaves);
                t.msz = gDL->getTypeStoreSize(ty);
                unsigned w = scalarW(ty);
                Val old;
                if (doLoad(s, t, val(0), &old) != RR_OK) { finishPath(s, "violation"); return; }
                u64 o = concretize(s, old, w), e = concretize(s, val(1), w);
                if (o == e) {
                    Val nv = val(2);
                    if (doStore(s, t, &nv, val(0)) != RR_OK) { finishPath(s, "violation"); return; }
                }
                f.regs[x.dst] = old;
                f.regs[x.dst + 1] = Val(o == e);
                f.ip++;
                break;
            }
            case Instruction::Br: {
                if (x.a.empty()) {
                    enterBlock(f, x.succ[0]);
                    break;
                }
                Val c = val(0);
                bool t;
                if (!c.e) t = c.c & 1;
                else {
                    if (c.e->undef) {
                        MP m;
                        if (dependsOnUndef(s, c.e, m)) violation(s, "uninit", "branch depends on uninitialised memory", *m);
                    }
                    t = branch(s, c.e);
                }
                enterBlock(f, x.succ[t ? 0 : 1]);
                break;
            }
            case Instruction::Switch: {
                Val c = val(0);
                if (!c.e) {
                    u32 t = x.succ[0];
                    for (size_t i = 0; i < x.cases.size(); ++i)
                        if (x.cases[i] == c.c) { t = x.succ[i + 1]; break; }
                    enterBlock(f, t);
                    break;
                }
                u64 v = (u64)evalE(c.e, *s.model);
                // condition for the successor chosen under the model
                u32 t = x.succ[0];
                for (size_t i = 0; i < x.cases.size(); ++i)
                    if (x.cases[i] == v) { t = x.succ[i + 1]; break; }
                E cond = nullptr;
                if (t == x.succ[0]) {
                    // not any case leading elsewhere
                    cond = mkConst(1, 1);
                    for (size_t i = 0; i < x.cases.size(); ++i)
                        if (x.succ[i + 1] != t) cond = mkBin(OAnd, cond, mkNot(mkBin(OEq, c.e, mkConst(x.cases[i], x.w))));
                } else {
                    cond = mkConst(0, 1);
                    for (size_t i = 0; i < x.cases.size(); ++i)
                        if (x.succ[i + 1] == t) cond = mkBin(OOr, cond, mkBin(OEq, c.e, mkConst(x.cases[i], x.w)));
                }
                if (!cond->isC()) branch(s, cond);
                enterBlock(f, t);
                break;
            }
            case Instruction::ExtractValue:
                for (u32 k = 0; k < x.nd; ++k) f.regs[x.dst + k] = val(0, x.idx[0].first + k);
                f.ip++;
                break;
            case Instruction::InsertValue:
                for (u32 k = 0; k < x.nd; ++k) {
                    u32 o = x.idx[0].first;
                    f.regs[x.dst + k] = (k >= o && k < o + x.idx[0].second) ? val(1, k - o) : val(0, k);
                }
                f.ip++;
                break;
            case Instruction::ExtractElement: f.regs[x.dst] = val(0, concretize(s, val(1), 64)); f.ip++; break;
            case Instruction::InsertElement: {
                u64 i = concretize(s, val(2), 64);
                for (u32 k = 0; k < x.nd; ++k) f.regs[x.dst + k] = k == i ? val(1) : val(0, k);
                f.ip++;
                break;
            }
            case Instruction::ShuffleVector: {
                u32 n0 = x.a[0].n;
                std::vector<Val> t;
                for (u32 k = 0; k < x.nd; ++k) t.push_back(x.cases[k] < n0 ? val(0, x.cases[k]) : val(1, x.cases[k] - n0));
                for (u32 k = 0; k < x.nd; ++k) f.regs[x.dst + k] = t[k];
                f.ip++;
                break;
            }
            case Instruction::LandingPad: {
                f.regs[x.dst] = f.regs[f.f->nslots];
                f.regs[x.dst + 1] = f.regs[f.f->nslots + 1];
                f.ip++;
                break;
            }
            case Instruction::Resume: {
                u64 obj = val(0, 0).c;
                int ei = -1;
                for (size_t i = s.excs.size(); i-- > 0;)
                    if (s.excs[i].obj == obj) { ei = i; break; }
                if (ei < 0) fatal("resume without exception");
                if (!unwind(s, ei)) { finishPath(s, "violation"); return; }
                break;
            }
            case Instruction::Unreachable:
                violation(s, "unreachable", "unreachable code reached (undefined behaviour)", *s.model);
                finishPath(s, "violation");
                return;
            case Instruction::Ret: {
                static std::vector<Val> rv;
                rv.clear();
                if (!x.a.empty())
                    for (u32 k = 0; k < x.a[0].n; ++k) rv.push_back(val(0, k));
                DInst* call = f.call;
                popFrame(s);
                if (s.st.empty()) {
                    finishPath(s, "done");
                    return;
                }
                Frame& c = s.st.back();
                if (call) {
                    if (call->dst >= 0)
                        for (u32 k = 0; k < call->nd && k < rv.size(); ++k) c.regs[call->dst + k] = rv[k];
                    if (call->op == Instruction::Invoke) enterBlock(c, call->succ[0]);
                    else c.ip++;
                }
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                static std::vector<Val> args;
                args.clear();
                size_t na = x.a.size() - 1;
                for (size_t i = 0; i < na; ++i)
                    for (u32 k = 0; k < x.a[i].n; ++k) args.push_back(val(i, k));
                DFunc* d = x.callee;
                if (x.sub == 1) { // inline asm: compiler barriers only
                    f.ip++;
                    break;
                }
                if (!d) {
                    u64 fp = concretize(s, val(na), 64);
                    auto it = gFuncById.find(idOf(fp));
                    if (it == gFuncById.end() || (fp & ((1ull << IDSHIFT) - 1))) {
                        violation(s, "memory", fp ? "call through invalid function pointer" : "call through null function pointer", *s.model);
                        finishPath(s, "violation");
                        return;
                    }
                    d = it->second;
                }
                Val rets[4];
                BR r;
                if (d->F->isIntrinsic()) {
                    r = intrinsic(s, x, args, rets);
                } else {
                    if (!d->biInit) {
                        d->biInit = true;
                        auto it = gBuiltins.find(d->name);
                        if (it != gBuiltins.end()) d->bi = &it->second;
                    }
                    if (d->bi) {
                        std::vector<Val> a2 = args;
                        r = (*d->bi)(s, x, a2, rets[0]);
                    } else if (d->F->isDeclaration()) {
                        emit("{\"t\":\"external\",\"name\":" + jstr(d->name) + ",\"stack\":" + stackJson(s) + "}");
                        incomplete(s, "call to unmodelled external " + d->name);
                        return;
                    } else {
                        if (s.st.size() >= opt.maxDepth) {
                            sh->depthlim++;
                            violation(s, "limit", "recursion bound exceeded (unbounded recursion?)", *s.model);
                            finishPath(s, "limit");
                            return;
                        }
                        pushFrame(s, d, args, &x);
                        break;
                    }
                }
                if (r == B_TERM) {
                    finishPath(s, "end");
                    return;
                }
                if (r == B_PUSHED) break;
                Frame& f2 = s.st.back();
                if (x.dst >= 0)
                    for (u32 k = 0; k < x.nd && k < 4; ++k) f2.regs[x.dst + k] = rets[k];
                if (x.op == Instruction::Invoke) enterBlock(f2, x.succ[0]);
                else f2.ip++;
                break;
            }
            default: fatal(std::string("instruction ") + x.inst->getOpcodeName());
        }
    }
}

// ------------------------------------------------------------------ setup
static void initConst(Obj* o, u64 off, const Constant* c)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(&o->conc[off], r.data(), r.size());
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = gDL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = gDL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i) initConst(o, off + i * sz, c->getAggregateElement(i));
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 sz = gDL->getTypeAllocSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); ++i) initConst(o, off + i * sz, c->getAggregateElement(i));
        return;
    }
    storeLeaf(o, off, scalarW(t), constScalar(c), t->isX86_FP80Ty() ? 3 : 0);
}

static void flushStats()
{
    sh->queries += gSt.queries;
    sh->qns += gSt.ns;
    sh->qcache += gSt.cacheHits + gSt.modelHits;
    sh->qunknown += gSt.unknown;
    sh->qsat += gSt.sat;
    sh->qunsat += gSt.unsat;
    gSt = SolverStats();
}

static std::vector<pid_t> gKids;
static void explore()
{
    u64 n = 0;
    while (!gWork.empty()) {
        if (sh->stop || timeUp() || sh->paths >= opt.maxPaths) {
            if (!sh->stop) {
                for (size_t i = 0; i < gWork.size(); ++i) sh->incomplete++;
                emit("{\"t\":\"incomplete\",\"why\":\"budget: " + std::to_string(gWork.size()) + " pending states dropped\",\"loc\":\"\",\"inputs\":[],\"stack\":[]}");
            }
            gWork.clear();
            break;
        }
        // hand half of the pending states to a new process if a slot is free
        if (gWork.size() >= 2 && n++ > 0) {
            int sl = sh->slots.load();
            while (sl > 0 && !sh->slots.compare_exchange_weak(sl, sl - 1)) {}
            if (sl > 0) {
                flushStats();
                pid_t p = fork();
                if (p == 0) {
                    gKids.clear();
                    size_t h = gWork.size() / 2;
                    gWork.resize(h); // child: the older half
                    gViolSeen.clear();
                    explore();
                    flushStats();
                    sh->slots++;
                    for (pid_t k : gKids) { int st; waitpid(k, &st, 0); if (st) _exit(4); }
                    _exit(0);
                }
                if (p > 0) {
                    size_t h = gWork.size() / 2;
                    gWork.erase(gWork.begin(), gWork.begin() + h);
                    gKids.push_back(p);
                } else
                    sh->slots++;
            }
        }
        // depth first, with an occasional random pick so that a cut-off run is not confined to one corner
        static u64 rs = 88172645463325252ull + opt.seed;
        rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
        if ((rs & 7) == 0 && gWork.size() > 1) std::swap(gWork.back(), gWork[(rs >> 8) % gWork.size()]);
        SP s = std::move(gWork.back());
        gWork.pop_back();
        cur = s.get();
        u64 i0 = s->instrs;
        run(*s);
        sh->instrs += s->instrs - i0;
    }
}

int main(int argc, char** argv)
{
    {
        rlimit rl;
        getrlimit(RLIMIT_STACK, &rl);
        if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (900ull << 20) && !getenv("SYMEX_REEXEC")) {
            rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1024ull << 20) : std::min<rlim_t>(rl.rlim_max, 1024ull << 20);
            setrlimit(RLIMIT_STACK, &rl);
            setenv("SYMEX_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::string bc;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") opt.entry = next();
        else if (a == "--out") opt.out = next();
        else if (a == "--repo") opt.repo = next();
        else if (a == "--max-time") opt.maxTime = atof(next().c_str());
        else if (a == "--max-instr") opt.maxInstr = strtoull(next().c_str(), 0, 10);
        else if (a == "--max-depth") opt.maxDepth = atoi(next().c_str());
        else if (a == "--max-paths") opt.maxPaths = strtoull(next().c_str(), 0, 10);
        else if (a == "--max-viol") opt.maxViol = strtoull(next().c_str(), 0, 10);
        else if (a == "--solver-timeout") opt.solverTimeout = atoi(next().c_str());
        else if (a == "--jobs") opt.jobs = atoi(next().c_str());
        else if (a == "--seed") opt.seed = atoi(next().c_str());
        else if (a == "--stop-first") opt.stopFirst = true;
        else if (a == "--path-records") opt.pathRecords = strtoull(next().c_str(), 0, 10);
        else if (a == "-v") opt.verbose = true;
        else bc = a;
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->slots = opt.jobs - 1;
    if (opt.out != "/dev/stdout") gOutFd = open(opt.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    SMDiagnostic err;
    gM = parseIRFile(bc, err, gCtx);
    if (!gM) {
        err.print(argv[0], errs());
        return 3;
    }
    gDL = &gM->getDataLayout();
    gT0 = std::chrono::steady_clock::now();
    UNDEF = mkVar("!UNDEFBYTE", 8, true);
    gFreedStack = std::make_shared<Obj>();
    gFreedStack->kind = KStack;
    gFreedStack->freed = true;
    solverInit(opt.solverTimeout);
    initBuiltins();

    SP s(new State);
    s->model = std::make_shared<Model>();
    s->mem.ch.push_back(std::make_shared<Chunk>());
    // functions and globals
    for (auto& F : *gM) {
        if (F.isIntrinsic()) {
            dfunc(&F);
            gGid[&F] = 0;
            continue;
        }
        u32 id = s->mem.alloc(0, KFunc, false, &F);
        gGid[&F] = id;
        DFunc* d = dfunc(&F);
        for (auto& BB : F)
            for (auto& I : BB) lineOf(I);
        d->id = id;
        gFuncById[id] = d;
    }
    for (auto& G : gM->globals()) {
        Type* t = G.getValueType();
        u64 sz = t->isSized() ? (u64)gDL->getTypeAllocSize(t) : 64;
        if (G.isDeclaration()) sz = std::max<u64>(sz, 128);
        u32 id = s->mem.alloc(sz, KGlobal, false, &G);
        gGid[&G] = id;
        gExtName[id] = G.getName().str();
    }
    for (auto& G : gM->globals()) {
        if (G.isDeclaration()) continue;
        Obj* o = s->mem.wr(gGid[&G]);
        initConst(o, 0, G.getInitializer());
        o->ro = G.isConstant();
    }
    Function* EF = gM->getFunction(opt.entry);
    if (!EF || EF->isDeclaration()) fatal("no entry " + opt.entry);
    // entry frame, then constructors on top in reverse order (each returns into the next with call == null)
    std::vector<std::pair<u64, Function*>> ctors;
    if (auto* gc = gM->getGlobalVariable("llvm.global_ctors")) {
        if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : arr->operands()) {
                auto* cs = cast<ConstantStruct>(o.get());
                if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn });
            }
    }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    pushFrame(*s, dfunc(EF), {}, nullptr);
    for (size_t i = ctors.size(); i-- > 0;) pushFrame(*s, dfunc(ctors[i].second), {}, nullptr);
    gWork.push_back(std::move(s));
    explore();
    bool bad = false;
    for (pid_t k : gKids) {
        int st;
        waitpid(k, &st, 0);
        if (st) bad = true;
    }
    flushStats();
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count();
    std::string r = "{\"t\":\"summary\",\"paths\":" + std::to_string(sh->paths) + ",\"forks\":" + std::to_string(sh->forks) + ",\"branches\":"
        + std::to_string(sh->branches) + ",\"queries\":" + std::to_string(sh->queries) + ",\"sat\":" + std::to_string(sh->qsat) + ",\"unsat\":"
        + std::to_string(sh->qunsat) + ",\"cache_hits\":" + std::to_string(sh->qcache) + ",\"unknown\":" + std::to_string(sh->qunknown)
        + ",\"solver_s\":" + std::to_string(sh->qns / 1e9) + ",\"instrs\":" + std::to_string(sh->instrs) + ",\"violations\":"
        + std::to_string(sh->viol) + ",\"incomplete\":" + std::to_string(sh->incomplete) + ",\"limits\":" + std::to_string(sh->depthlim)
        + ",\"asserts\":" + std::to_string(sh->asserts) + ",\"asserts_proved\":" + std::to_string(sh->assertsProved) + ",\"worker_failed\":"
        + (bad ? "true" : "false") + ",\"wall_s\":" + std::to_string(wall) + ",\"functions\":[";
    // NOTE: children decode lazily, so names are taken from the module-wide tables built before forking
    bool first = true;
    for (size_t i = 0; i < gRepoFuncs.size(); ++i)
        if (sh->funcCov[i]) {
            if (!first) r += ",";
            first = false;
            r += jstr(demangle(gRepoFuncs[i]));
        }
    r += "],\"lines\":[";
    first = true;
    for (size_t i = 0; i < gLineTab.size(); ++i)
        if (sh->lineCov[i] && gLineTab[i].compare(0, opt.repo.size(), opt.repo) == 0) {
            if (!first) r += ",";
            first = false;
            r += jstr(gLineTab[i].substr(opt.repo.size()));
        }
    emit(r + "]}");
    return 0;
}
