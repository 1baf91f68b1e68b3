// nsx: symbolic executor for LLVM IR (C++ lowered by clang), z3 as decision procedure.
// Usage: nsx prog.bc --entry F [--jobs N] [--time S] [--steps N] [--out F.json] [--replay DIR] [--samples N] [--param k=v]...
#include "smt.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <atomic>
#include <chrono>
#include <map>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/prctl.h>
using namespace llvm;

// ---------------------------------------------------------------- memory ----
struct Obj {
  int rc = 1; u32 size = 0; u8 kind = 0; bool freed = false, ro = false; u8* d = nullptr; u64* s = nullptr;  // s[i] = Expr*|byteidx
  ~Obj() { free(d); free(s); }
};
enum { K_GLOBAL, K_HEAP, K_STACK, K_OPAQUE };
static inline Expr* sbE(u64 v) { return (Expr*)(v & ~7ull); }
static inline unsigned sbI(u64 v) { return v & 7; }
constexpr int CH = 64;
struct Chunk { int rc = 1; Obj* o[CH] = {}; };
constexpr u64 OBASE = 0x1000;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) + OBASE; }
constexpr u64 FNBASE = 0x7f00000000000000ull;
struct Mem {
  std::vector<Chunk*> ch; u32 next = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto c : ch) unref(c); }
  static void unrefO(Obj* o) { if (o && --o->rc == 0) delete o; }
  static void unref(Chunk* c) { if (c && --c->rc == 0) { for (auto o : c->o) unrefO(o); delete c; } }
  Obj* get(u64 id) const { if (id == 0 || id >= next) return nullptr; Chunk* c = ch[id / CH]; return c ? c->o[id % CH] : nullptr; }
  Chunk* wch(u64 id) {
    if (ch.size() <= id / CH) ch.resize(id / CH + 1, nullptr);
    Chunk*& c = ch[id / CH];
    if (!c) c = new Chunk; else if (c->rc > 1) { Chunk* n = new Chunk; memcpy(n->o, c->o, sizeof n->o); for (auto o : n->o) if (o) o->rc++; c->rc--; c = n; }
    return c;
  }
  Obj* write(u64 id) {
    Chunk* c = wch(id); Obj*& o = c->o[id % CH];
    if (o->rc > 1) { Obj* n = new Obj; n->size = o->size; n->kind = o->kind; n->freed = o->freed; n->ro = o->ro; n->d = (u8*)malloc(o->size + 8); memcpy(n->d, o->d, o->size);
      if (o->s) { n->s = (u64*)malloc(8 * (size_t)o->size); memcpy(n->s, o->s, 8 * (size_t)o->size); } o->rc--; o = n; }
    return o;
  }
  u32 alloc(u32 size, u8 kind, u8 fill) {
    u32 id = next++; Chunk* c = wch(id); Obj* o = new Obj; o->size = size; o->kind = kind; o->d = (u8*)malloc(size + 8); memset(o->d, fill, size + 8); c->o[id % CH] = o; return id;
  }
  void release(u64 id) { Chunk* c = wch(id); unrefO(c->o[id % CH]); c->o[id % CH] = nullptr; }
  void symArr(Obj* o) { if (!o->s) o->s = (u64*)calloc(o->size, 8); }
};

// ---------------------------------------------------------- decoded code ----
enum IOp : u16 { I_BIN, I_CMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_ALLOCA, I_MOV, I_INSERT, I_UNREACH, I_RESUME, I_LPAD, I_FCMP, I_FNEG, I_PTRCAST };
struct Fn; struct Inst;
struct Edge { const Inst* tgt = nullptr; std::vector<std::array<int, 3>> cp; BasicBlock* bb = nullptr; };   // dst, src, nslots
struct GepT { int op; u64 scale; u8 w; };
struct Gep { u64 off; std::vector<GepT> t; };
struct SwitchI { std::vector<std::pair<u64, Edge*>> cases; Edge* dflt; };
struct CallI { Function* callee = nullptr; Fn* fn = nullptr; int calleeOp = 0; std::vector<std::pair<int, int>> args; std::vector<u8> argw; Edge *normal = nullptr, *unwind = nullptr; int ext = 0; const char* extName = nullptr; };
struct LPad { bool cleanup = false; std::vector<u64> catches; std::vector<bool> filterEmpty; };
struct SlotT { u32 off; u8 w; bool ptr; };
struct MemT { std::vector<SlotT> s; };
struct Inst { IOp op; u8 w = 0, wb = 0; u8 sub = 0; u8 flag = 0; int dst = -1, a = 0, b = 0, c = 0; u32 n = 0; void* x = nullptr; Edge *e1 = nullptr, *e2 = nullptr; };
struct Fn { Function* f; int nregs = 0; std::vector<Val> consts; std::vector<Inst> code; int idx; std::string name; bool decoded = false; std::vector<int> params; int retSlots = 0; const Inst* entry = nullptr; std::vector<Edge*> edges; };

struct Frame { Fn* f; const Inst* pc; std::vector<Val> r; const Inst* call = nullptr; std::vector<u32> allocas; };
struct Caught { u64 exc, ti; };
struct Obs { const char* tag; Val v; };
struct State {
  std::vector<Frame> fr; Mem m; std::vector<Expr*> cons; std::vector<u64> model; Sup fixed; std::vector<u64> fv;
  std::vector<std::pair<const char*, Expr*>> syms; std::vector<Obs> obs; std::vector<Caught> caught; u64 curExc = 0, curTi = 0; u64 steps = 0; u32 depth = 0; u64 live = 0; const char* fileText = nullptr; u64 fileAddr = 0;
  std::map<u64, u64> excTi;
  State() { fixed.clr(); }
};

// ------------------------------------------------------------ shared data ---
struct ViolRec { char kind[24]; char msg[400]; char where[400]; char replay[300]; u64 count; };
constexpr int MAXV = 32, MAXT = 128, MAXFN = 30000;
struct Shared {
  std::atomic<int> active, stop, lock, nviol, nreach, nunsup, procs; std::atomic<u64> paths, forks, steps, queries, sat, unsat, unknown, cached, us, asserts, assertsProved, incomplete, killed, unsupported, samples, crashed, maxsteps, assumeKilled, maxSyms, exprs, uncertain;
  ViolRec v[MAXV]; char reach[MAXT][64]; std::atomic<u64> reachN[MAXT]; char unsup[16][200]; std::atomic<u8> fnHit[MAXFN];
};
static Shared* sh;
static void lockS() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(5); } }
static void unlockS() { sh->lock = 0; }

// ------------------------------------------------------------ globals -------
static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const GlobalVariable*, u64> gaddr; static std::vector<Fn*> fns; static std::map<const Function*, Fn*> fnOf;
static std::map<std::string, u64> params; static std::vector<std::pair<std::string, u64>> usedParams;
static std::vector<std::string> ignoreMsgs; static std::string replayDir = "."; static int jobs = 1; static double timeLimit = 60; static u64 maxSteps = 20000000; static u64 samples = 0; static bool stopFirst = true; static u64 sampleEvery = 1; static bool verbose = false;
static std::chrono::steady_clock::time_point T0, procStart;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static State* cur; static std::vector<State*> pending;
struct PathEnd {}; 

static unsigned scalarW(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static int slotsOf(Type* t) { if (t->isVoidTy()) return 0; if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += slotsOf(e); return n; } if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType()); if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }
static void memSlots(Type* t, u32 off, std::vector<SlotT>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) memSlots(s->getElementType(i), off + L->getElementOffset(i), out); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) memSlots(a->getElementType(), off + i * sz, out); }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) out.push_back({(u32)(off + i * sz), (u8)scalarW(v->getElementType()), false}); }
  else { unsigned w = scalarW(t); out.push_back({off, (u8)w, t->isPointerTy()}); }
}
static int slotIndex(Type* t, ArrayRef<unsigned> idx) { int n = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) n += slotsOf(s->getElementType(j)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); n += i * slotsOf(a->getElementType()); t = a->getElementType(); } } return n; }

[[noreturn]] static void unsupported(const std::string& s);

static Fn* getFn(const Function* f) { auto it = fnOf.find(f); if (it != fnOf.end()) return it->second; Fn* n = new Fn; n->f = (Function*)f; n->idx = fns.size(); n->name = f->getName().str(); fns.push_back(n); fnOf[f] = n; return n; }
static u64 fnAddr(const Function* f) { return FNBASE + 16 * (u64)getFn(f)->idx; }

static void constVals(const Constant* c, std::vector<Val>& out);
static u64 constScalar(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) unsupported("wide int const"); return i->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto* f = dyn_cast<Function>(c)) return fnAddr(f);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) unsupported("global without address"); return it->second; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) unsupported("const gep"); return constScalar(e->getOperand(0)) + off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(e->getOperand(0)) & maskw(scalarW(e->getType()));
      case Instruction::Add: return constScalar(e->getOperand(0)) + constScalar(e->getOperand(1));
      case Instruction::Sub: return constScalar(e->getOperand(0)) - constScalar(e->getOperand(1));
      case Instruction::Trunc: return constScalar(e->getOperand(0)) & maskw(scalarW(e->getType()));
      case Instruction::ICmp: { auto p = (CmpInst::Predicate)cast<ConstantExpr>(e)->getPredicate(); u64 a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1)); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; break; }
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); unsupported("constant " + s);
}
static void constVals(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out); return; }
  out.push_back(Val(constScalar(c) & maskw(scalarW(t))));
}
static void initMem(Obj* o, u64 off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initMem(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) initMem(o, off + i * sz, c->getAggregateElement(i)); return; }
  u64 v = constScalar(c); memcpy(o->d + off, &v, DL->getTypeStoreSize(t));
}

// external function ids
enum Ext { X_NONE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMCPY, X_MEMSET, X_NOP, X_ABORT, X_ASSERTFAIL, X_GLIBASSERT, X_EXIT, X_THROW, X_RETHROW, X_BEGINCATCH, X_ENDCATCH, X_ALLOCEXC, X_FREEEXC, X_TYPEID, X_DYNCAST, X_TERMINATE, X_PURE,
  X_SYM, X_ASSUME, X_ASSERT, X_REACH, X_OBS, X_CONC, X_PARAM, X_ENGINE, X_SETFILE, X_FILETEXT, X_LEAKS,
  X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS, X_CTPOP, X_CTLZ, X_CTTZ, X_BSWAP, X_FSHL, X_FSHR, X_OVF, X_USUBSAT, X_UADDSAT, X_TRAP, X_OBJSIZE, X_ISCONST, X_EXPECT, X_FABS, X_MATH1, X_MATH2, X_STRTOD, X_SSCANF, X_THREADSAFE, X_FMULADD };
static int classify(Function* f, CallI* ci, const char** nm) {
  std::string s = f->getName().str(); *nm = strdup(s.c_str());
  auto pre = [&](const char* p) { return s.rfind(p, 0) == 0; };
  if (f->isIntrinsic()) {
    if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || pre("llvm.assume") || pre("llvm.prefetch") || pre("llvm.va_") || pre("llvm.stackrestore") || pre("llvm.donothing")) return X_NOP;
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return X_MEMCPY; if (pre("llvm.memset")) return X_MEMSET;
    if (pre("llvm.umin")) return X_UMIN; if (pre("llvm.umax")) return X_UMAX; if (pre("llvm.smin")) return X_SMIN; if (pre("llvm.smax")) return X_SMAX; if (pre("llvm.abs")) return X_ABS;
    if (pre("llvm.ctpop")) return X_CTPOP; if (pre("llvm.ctlz")) return X_CTLZ; if (pre("llvm.cttz")) return X_CTTZ; if (pre("llvm.bswap")) return X_BSWAP; if (pre("llvm.fshl")) return X_FSHL; if (pre("llvm.fshr")) return X_FSHR;
    if (s.find(".with.overflow") != s.npos) return X_OVF; if (pre("llvm.usub.sat")) return X_USUBSAT; if (pre("llvm.uadd.sat")) return X_UADDSAT;
    if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return X_TRAP; if (pre("llvm.objectsize")) return X_OBJSIZE; if (pre("llvm.is.constant")) return X_ISCONST; if (pre("llvm.expect")) return X_EXPECT;
    if (pre("llvm.eh.typeid")) return X_TYPEID; if (pre("llvm.fabs")) return X_FABS; if (pre("llvm.fmuladd")) return X_FMULADD; if (pre("llvm.floor") || pre("llvm.ceil") || pre("llvm.sqrt") || pre("llvm.log") || pre("llvm.exp") || pre("llvm.round") || pre("llvm.trunc.f")) return X_MATH1; if (pre("llvm.pow")) return X_MATH2;
    return X_NONE;
  }
  static const std::map<std::string, int> T = {
    {"malloc", X_MALLOC}, {"_Znwm", X_MALLOC}, {"_Znam", X_MALLOC}, {"_ZnwmSt11align_val_t", X_MALLOC}, {"_ZnamSt11align_val_t", X_MALLOC}, {"_ZnwmRKSt9nothrow_t", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC},
    {"free", X_FREE}, {"_ZdlPv", X_FREE}, {"_ZdaPv", X_FREE}, {"_ZdlPvm", X_FREE}, {"_ZdaPvm", X_FREE}, {"_ZdlPvSt11align_val_t", X_FREE}, {"_ZdlPvmSt11align_val_t", X_FREE},
    {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"abort", X_ABORT}, {"_ZSt9terminatev", X_TERMINATE}, {"__assert_fail", X_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_GLIBASSERT}, {"exit", X_EXIT}, {"_exit", X_EXIT},
    {"__cxa_throw", X_THROW}, {"__cxa_rethrow", X_RETHROW}, {"__cxa_begin_catch", X_BEGINCATCH}, {"__cxa_end_catch", X_ENDCATCH}, {"__cxa_allocate_exception", X_ALLOCEXC}, {"__cxa_free_exception", X_FREEEXC}, {"__dynamic_cast", X_DYNCAST}, {"__cxa_pure_virtual", X_PURE}, {"__cxa_atexit", X_NOP},
    {"nsx_sym", X_SYM}, {"nsx_assume", X_ASSUME}, {"nsx_assert", X_ASSERT}, {"nsx_reach", X_REACH}, {"nsx_observe", X_OBS}, {"nsx_concretize", X_CONC}, {"nsx_param", X_PARAM}, {"nsx_engine", X_ENGINE}, {"nsx_set_file", X_SETFILE}, {"nsx_file_text", X_FILETEXT}, {"nsx_leaks", X_LEAKS},
    {"nsx_strtod", X_STRTOD}, {"__isoc23_sscanf", X_SSCANF}, {"sscanf", X_SSCANF}, {"log10", X_MATH1}, {"log", X_MATH1}, {"log2", X_MATH1}, {"floor", X_MATH1}, {"ceil", X_MATH1}, {"sqrt", X_MATH1}, {"exp", X_MATH1}, {"round", X_MATH1}, {"pow", X_MATH2}, {"fmod", X_MATH2},
    {"ioctl", X_NOP}, {"rand", X_NOP}};
  auto it = T.find(s); if (it != T.end()) return it->second;
  if (f->isDeclaration()) for (const char* p : {"_ZNSt6localeC", "_ZNSt6localeD", "_ZNSt16invalid_argument", "_ZNSt12out_of_range", "_ZNSt12length_error", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt9bad_alloc", "_ZNSt9exception", "_ZNSt17bad_function_call", "_ZNSt20bad_array_new_length", "_ZNSt8bad_cast", "_ZNSt8ios_base4InitC", "_ZNSt8ios_base4InitD", "_ZNSt12domain_error"}) if (pre(p)) return X_NOP;
  return X_NONE;
}

struct Decoder {
  Fn* F; std::map<const Value*, int> slot; std::map<BasicBlock*, u32> start; std::vector<std::pair<Edge*, BasicBlock*>> fix;
  int constSlot(const Constant* c) { auto it = slot.find(c); if (it != slot.end()) return it->second; int s = -(int)F->consts.size() - 1; std::vector<Val> v; constVals(c, v); for (auto& x : v) F->consts.push_back(x); slot[c] = s; return s; }
  // consts indexed as ~s + k ; for aggregates op - k
  int op(const Value* v) { if (auto* c = dyn_cast<Constant>(v)) return constSlot(c); if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0; auto it = slot.find(v); if (it == slot.end()) { std::string s; raw_string_ostream o(s); v->print(o); unsupported("operand " + s); } return it->second; }
  static int sub(int o, int k) { return o >= 0 ? o + k : o - k; }
  Edge* edge(BasicBlock* from, BasicBlock* to) { Edge* e = new Edge; e->bb = to; for (auto& phi : to->phis()) { int n = slotsOf(phi.getType()); e->cp.push_back({slot.at(&phi), op(phi.getIncomingValueForBlock(from)), n}); } F->edges.push_back(e); return e; }
  void run() {
    Function& f = *F->f;
    for (auto& a : f.args()) { slot[&a] = F->nregs; F->params.push_back(F->nregs); F->nregs += slotsOf(a.getType()); }
    for (auto& b : f) for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = F->nregs; F->nregs += slotsOf(i.getType()); }
    F->retSlots = slotsOf(f.getReturnType());
    for (auto& b : f) { start[&b] = F->code.size(); for (auto& i : b) if (!isa<PHINode>(i)) dec(i); }
    for (auto* e : F->edges) e->tgt = &F->code[start[e->bb]];
    F->entry = &F->code[0]; F->decoded = true;
  }
  void dec(Instruction& I) {
    Inst n; n.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
    auto push = [&] { F->code.push_back(n); };
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      n.op = I_BIN; n.w = scalarW(b->getType()); n.a = op(b->getOperand(0)); n.b = op(b->getOperand(1));
      static const std::map<unsigned, Op> T = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::FAdd, FADD}, {Instruction::FSub, FSUB}, {Instruction::FMul, FMUL}, {Instruction::FDiv, FDIV}};
      auto it = T.find(b->getOpcode()); if (it == T.end() || !n.w || n.w > 64) unsupported(std::string("binop ") + b->getOpcodeName()); n.sub = it->second; push(); return;
    }
    if (auto* c = dyn_cast<ICmpInst>(&I)) {
      n.op = I_CMP; n.w = scalarW(c->getOperand(0)->getType()); if (!n.w || n.w > 64) unsupported("icmp type"); auto p = c->getPredicate(); Value *x = c->getOperand(0), *y = c->getOperand(1);
      if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
      n.a = op(x); n.b = op(y); n.flag = 0;
      switch (p) { case CmpInst::ICMP_EQ: n.sub = EQ; break; case CmpInst::ICMP_NE: n.sub = EQ; n.flag = 1; break; case CmpInst::ICMP_ULT: n.sub = ULT; break; case CmpInst::ICMP_ULE: n.sub = ULE; break; case CmpInst::ICMP_SLT: n.sub = SLT; break; case CmpInst::ICMP_SLE: n.sub = SLE; break; default: unsupported("icmp"); }
      push(); return;
    }
    if (auto* c = dyn_cast<FCmpInst>(&I)) { n.op = I_FCMP; n.w = scalarW(c->getOperand(0)->getType()); n.a = op(c->getOperand(0)); n.b = op(c->getOperand(1)); n.flag = c->getPredicate(); push(); return; }
    if (auto* u = dyn_cast<UnaryOperator>(&I)) { n.op = I_FNEG; n.w = scalarW(u->getType()); n.a = op(u->getOperand(0)); push(); return; }
    if (auto* c = dyn_cast<CastInst>(&I)) {
      n.op = I_CAST; n.w = scalarW(c->getType()); n.wb = scalarW(c->getOperand(0)->getType()); n.a = op(c->getOperand(0)); if (!n.w || !n.wb || n.w > 64 || n.wb > 64) unsupported("cast type");
      switch (c->getOpcode()) { case Instruction::ZExt: n.sub = ZEXT; break; case Instruction::SExt: n.sub = SEXT; break; case Instruction::Trunc: n.sub = EXTRACT; break; case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: n.sub = n.w == n.wb ? NOPS : n.w < n.wb ? EXTRACT : ZEXT; break;
        case Instruction::FPToSI: n.sub = FPTOSI; break; case Instruction::FPToUI: n.sub = FPTOUI; break; case Instruction::SIToFP: n.sub = SITOFP; break; case Instruction::UIToFP: n.sub = UITOFP; break; case Instruction::FPExt: n.sub = FPEXT; break; case Instruction::FPTrunc: n.sub = FPTRUNC; break; default: unsupported("cast"); }
      push(); return;
    }
    if (auto* s = dyn_cast<SelectInst>(&I)) { n.op = I_SELECT; n.a = op(s->getCondition()); n.b = op(s->getTrueValue()); n.c = op(s->getFalseValue()); n.n = slotsOf(s->getType()); n.w = scalarW(s->getType()); n.flag = s->getType()->isPointerTy() || n.n != 1; push(); return; }
    if (auto* l = dyn_cast<LoadInst>(&I)) { n.op = I_LOAD; n.a = op(l->getPointerOperand()); auto* mt = new MemT; memSlots(l->getType(), 0, mt->s); n.x = mt; n.n = mt->s.size(); n.w = mt->s.size() == 1 ? mt->s[0].w : 0; for (auto& q : mt->s) if (!q.w || q.w > 64) unsupported("load type"); n.flag = l->getType()->isPointerTy() ? 1 : l->getType()->isFloatingPointTy() ? 2 : 0; n.wb = (n.w + 7) / 8; push(); return; }
    if (auto* s = dyn_cast<StoreInst>(&I)) { n.op = I_STORE; n.a = op(s->getValueOperand()); n.b = op(s->getPointerOperand()); auto* mt = new MemT; memSlots(s->getValueOperand()->getType(), 0, mt->s); n.x = mt; n.n = mt->s.size(); n.w = mt->s.size() == 1 ? mt->s[0].w : 0; n.flag = s->getValueOperand()->getType()->isPointerTy() ? 1 : s->getValueOperand()->getType()->isFloatingPointTy() ? 2 : 0; n.wb = (n.w + 7) / 8; push(); return; }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      if (g->getType()->isVectorTy()) unsupported("vector gep");
      n.op = I_GEP; n.a = op(g->getPointerOperand()); auto* G = new Gep; G->off = 0;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value* ix = it.getOperand();
        if (auto* st = it.getStructTypeOrNull()) { G->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz = it.getSequentialElementStride(*DL);
        if (auto* ci = dyn_cast<ConstantInt>(ix)) G->off += (u64)ci->getSExtValue() * sz; else G->t.push_back({op(ix), sz, (u8)scalarW(ix->getType())});
      }
      n.x = G; push(); return;
    }
    if (auto* b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { n.op = I_BR; n.e1 = edge(I.getParent(), b->getSuccessor(0)); } else { n.op = I_CBR; n.a = op(b->getCondition()); n.e1 = edge(I.getParent(), b->getSuccessor(0)); n.e2 = edge(I.getParent(), b->getSuccessor(1)); } push(); return; }
    if (auto* s = dyn_cast<SwitchInst>(&I)) { n.op = I_SWITCH; n.a = op(s->getCondition()); n.w = scalarW(s->getCondition()->getType()); auto* S = new SwitchI; S->dflt = edge(I.getParent(), s->getDefaultDest()); std::map<BasicBlock*, Edge*> em; em[s->getDefaultDest()] = S->dflt; for (auto& c : s->cases()) { Edge*& e = em[c.getCaseSuccessor()]; if (!e) e = edge(I.getParent(), c.getCaseSuccessor()); S->cases.push_back({c.getCaseValue()->getZExtValue(), e}); } n.x = S; push(); return; }
    if (auto* c = dyn_cast<CallBase>(&I)) {
      n.op = I_CALL; auto* ci = new CallI;
      if (c->isInlineAsm()) { n.op = I_MOV; n.n = 0; push(); return; }
      Value* cv = c->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
      if (auto* f = dyn_cast<Function>(cv)) { ci->callee = f; ci->ext = classify(f, ci, &ci->extName); if (!ci->ext && !f->isDeclaration()) ci->fn = getFn(f); }
      else ci->calleeOp = op(c->getCalledOperand());
      bool isn = ci->ext == X_NOP && ci->callee && ci->callee->isIntrinsic();
      if (!isn) for (auto& a : c->args()) { ci->args.push_back({op(a), slotsOf(a->getType())}); ci->argw.push_back(scalarW(a->getType())); }
      if (isn) return;
      n.n = slotsOf(c->getType()); n.w = scalarW(c->getType()); n.x = ci;
      if (auto* iv = dyn_cast<InvokeInst>(c)) { ci->normal = edge(I.getParent(), iv->getNormalDest()); ci->unwind = edge(I.getParent(), iv->getUnwindDest()); }
      push(); return;
    }
    if (auto* r = dyn_cast<ReturnInst>(&I)) { n.op = I_RET; n.n = 0; if (r->getReturnValue()) { n.a = op(r->getReturnValue()); n.n = slotsOf(r->getReturnValue()->getType()); } push(); return; }
    if (auto* a = dyn_cast<AllocaInst>(&I)) { n.op = I_ALLOCA; n.n = DL->getTypeAllocSize(a->getAllocatedType()); n.a = op(a->getArraySize()); push(); return; }
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) { n.op = I_MOV; n.n = slotsOf(e->getType()); n.a = sub(op(e->getAggregateOperand()), slotIndex(e->getAggregateOperand()->getType(), e->getIndices())); push(); return; }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) { n.op = I_INSERT; n.n = slotsOf(e->getType()); n.a = op(e->getAggregateOperand()); n.b = op(e->getInsertedValueOperand()); n.c = slotIndex(e->getType(), e->getIndices()); n.w = slotsOf(e->getInsertedValueOperand()->getType()); push(); return; }
    if (isa<UnreachableInst>(&I)) { n.op = I_UNREACH; push(); return; }
    if (auto* r = dyn_cast<ResumeInst>(&I)) { n.op = I_RESUME; n.a = op(r->getValue()); push(); return; }
    if (auto* l = dyn_cast<LandingPadInst>(&I)) { n.op = I_LPAD; auto* L = new LPad; L->cleanup = l->isCleanup(); for (unsigned i = 0; i < l->getNumClauses(); i++) if (l->isCatch(i)) L->catches.push_back(constScalar(l->getClause(i))); n.x = L; push(); return; }
    if (auto* f = dyn_cast<FreezeInst>(&I)) { n.op = I_MOV; n.n = slotsOf(f->getType()); n.a = op(f->getOperand(0)); push(); return; }
    std::string s; raw_string_ostream o(s); I.print(o); unsupported("inst " + s);
  }
};
static std::string curWhere();
static void decode(Fn* f) { Decoder d; d.F = f; d.run(); }

// ----------------------------------------------------------- reporting ------
static std::string demangle1(const std::string& s) { std::string d = llvm::demangle(s); return d; }
static std::string curWhere() { std::string s; if (!cur) return s; int k = 0; for (int i = (int)cur->fr.size() - 1; i >= 0 && k < 6; i--, k++) { if (k) s += " < "; std::string d = demangle1(cur->fr[i].f->name); s += d.substr(0, d.find('(')); } return s; }
[[noreturn]] static void endPath() { throw PathEnd(); }
static void noteUnsup(const std::string& s) {
  sh->unsupported++; sh->incomplete++; lockS(); int n = sh->nunsup; bool dup = false; for (int i = 0; i < n; i++) if (s.substr(0, 199) == sh->unsup[i]) dup = true; if (!dup && n < 16) { strncpy(sh->unsup[n], s.c_str(), 199); sh->nunsup++; if (verbose) fprintf(stderr, "unsupported: %s @ %s\n", s.c_str(), curWhere().c_str()); } unlockS();
}
static void unsupported(const std::string& s) { if (!sh || !cur) { fprintf(stderr, "unsupported at load: %s\n", s.c_str()); exit(3); } noteUnsup(s); throw PathEnd(); }
static std::string writeReplay(const std::vector<u64>& model, const std::string& name, bool withObs) {
  std::string p = replayDir + "/" + name; FILE* f = fopen(p.c_str(), "w"); if (!f) return "";
  for (auto& u : params) fprintf(f, "param %s %llu\n", u.first.c_str(), (unsigned long long)u.second);
  for (auto& s : cur->syms) fprintf(f, "sym %s %llu\n", s.first, (unsigned long long)evalExpr(s.second, model));
  if (withObs) for (auto& o : cur->obs) fprintf(f, "obs %s %llu\n", o.tag, (unsigned long long)(o.v.e ? evalExpr(o.v.e, model) : o.v.c));
  fclose(f); return p;
}
static void violation(const std::string& kind, const std::string& msg, const std::vector<u64>& model) {
  std::string where = curWhere(); lockS(); int n = sh->nviol; int hit = -1; for (int i = 0; i < n; i++) if (msg.substr(0, 399) == sh->v[i].msg && kind == sh->v[i].kind) hit = i;
  if (hit >= 0) sh->v[hit].count++;
  else if (n < MAXV) { ViolRec& v = sh->v[n]; strncpy(v.kind, kind.c_str(), 23); strncpy(v.msg, msg.c_str(), 399); strncpy(v.where, where.c_str(), 399); std::string r = writeReplay(model, "viol-" + std::to_string(n) + ".txt", false); strncpy(v.replay, r.c_str(), 299); v.count = 1; sh->nviol++; bool ign = false; for (auto& g : ignoreMsgs) ign |= msg.find(g) != msg.npos; if (stopFirst && !ign) sh->stop = 1; }
  unlockS();
}
[[noreturn]] static void failPath(const std::string& kind, const std::string& msg) { violation(kind, msg, cur->model); endPath(); }

// --------------------------------------------------------- constraints ------
static Expr* simp(Expr* e) { return e->sup.inter(cur->fixed) ? substExpr(e, cur->fixed, cur->fv) : e; }
static void fix(State* s, unsigned idx, u64 v) { if (s->fixed.get(idx)) return; s->fixed.set(idx); if (s->fv.size() <= idx) s->fv.resize(idx + 1, 0); s->fv[idx] = v; }
static void addC(State* s, Expr* c) {
  if (isC(c)) return;
  if (c->op == AND) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  if (c->op == XOR && isC(c->k[1]) && c->k[0]->op == OR) { addC(s, eNot(c->k[0]->k[0])); addC(s, eNot(c->k[0]->k[1])); return; }
  s->cons.push_back(c);
  if (c->op == EQ && c->k[0]->op == SYM && isC(c->k[1])) fix(s, c->k[0]->aux, c->k[1]->c);
  else if (c->op == SYM) fix(s, c->aux, 1);
  else if (c->op == XOR && isC(c->k[1]) && c->k[0]->op == SYM) fix(s, c->k[0]->aux, 0);
}
static State* forkState() { State* n = new State(*cur); n->depth++; sh->forks++; return n; }
// decide a branch on cond; returns the side cur takes; other side is queued at the same pc unless `other` is wanted
static bool branch(Expr* c, State** other) {
  *other = nullptr; c = simp(c);
  if (isC(c)) return c->c;
  bool v = evalExpr(c, cur->model);
  Expr* oc = v ? eNot(c) : c;
  std::vector<u64> mdl = cur->model;
  int r = smtCheck(cur->cons, oc, mdl);
  if (r < 0) { sh->incomplete++; }
  if (r > 0) { State* n = forkState(); n->model = std::move(mdl); addC(n, oc); *other = n; }
  if (r != 0) addC(cur, v ? c : eNot(c)); 
  else if (c->op == EQ || c->op == SYM || c->op == XOR) { // implied equality on a symbol: record to concretise
    Expr* h = v ? c : eNot(c); if ((h->op == EQ && h->k[0]->op == SYM && isC(h->k[1])) || h->op == SYM || (h->op == XOR && isC(h->k[1]) && h->k[0]->op == SYM)) addC(cur, h); }
  cur->depth += r != 0; return v;
}
// fork on e's value; the other states re-execute the current instruction
static u64 concretize(Val v, unsigned w = 64) {
  if (!v.e) return v.c;
  Expr* e = simp(v.e); if (isC(e)) return e->c;
  // prefer splitting the single small symbol below it, so that everything built from it becomes concrete
  if (e->sup.count() == 1) {
    Expr* s = e; while (s->op != SYM) { Expr* nx = nullptr; for (auto k : s->k) if (k && k->sup.any()) { nx = k; break; } s = nx; }
    if (s->w <= 8 && s != e) { Expr* c = eBin(EQ, s, eConst(evalExpr(s, cur->model), s->w)); State* o; branch(c, &o); if (o) pending.push_back(o); return evalExpr(e, cur->model); }
  }
  u64 x = evalExpr(e, cur->model); Expr* c = eBin(EQ, e, eConst(x, e->w)); State* o; branch(c, &o); if (o) pending.push_back(o); return x;
}

// ------------------------------------------------------------ memory --------
static inline Expr* toE(Val v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }
static Val mkV(Expr* e) { return isC(e) ? Val(e->c) : Val(0, e); }
[[noreturn]] static void memErr(u64 a, unsigned n, const char* what) {
  Obj* o = cur->m.get(a >> 32); char b[200]; const char* r = !o ? (a < 65536 ? "null pointer" : "invalid pointer") : o->freed ? "use after free" : "out of bounds";
  snprintf(b, sizeof b, "%s of %u bytes: %s", what, n, r); std::string s = b; if (o && !o->freed) { } failPath("memory", s + " in " + demangle1(cur->fr.back().f->name).substr(0, 120));
}
static inline Obj* check(u64 a, u64 n, const char* what) { Obj* o = cur->m.get(a >> 32); u64 off = (a & 0xffffffffull) - OBASE; if (!o || o->freed || off > o->size || n > o->size - off) memErr(a, n, what); return o; }
static Val loadAt(Obj* o, u64 off, unsigned nb, unsigned w) {
  if (o->s) {
    bool sy = false; for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) { sy = true; break; }
    if (sy) {
      Expr* e0 = sbE(o->s[off]);
      if (e0 && sbI(o->s[off]) == 0 && (e0->w + 7) / 8 == nb) { bool all = true; for (unsigned i = 1; i < nb; i++) if (o->s[off + i] != ((u64)e0 | i)) { all = false; break; } if (all) { Expr* r = simp(e0); return mkV(r->w == w ? r : r->w > w ? eExtract(r, 0, w) : eZext(r, w)); } }
      Expr* r = nullptr; for (int i = nb - 1; i >= 0; i--) { Expr* b; u64 v = o->s[off + i]; if (v) { Expr* e = simp(sbE(v)); unsigned lo = 8 * sbI(v); b = lo + 8 <= e->w ? eExtract(e, lo, 8) : eZext(eExtract(e, lo, e->w - lo), 8); } else b = eConst(o->d[off + i], 8); r = r ? eConcat(r, b) : b; }
      return mkV(w < 8 * nb ? eExtract(r, 0, w) : r);
    }
  }
  u64 v = 0; memcpy(&v, o->d + off, nb); return Val(v & maskw(w));
}
static void storeAt(Obj* o, u64 off, unsigned nb, unsigned w, Val v) {
  if (v.e) { cur->m.symArr(o); for (unsigned i = 0; i < nb; i++) o->s[off + i] = (u64)v.e | i; }
  else { u64 c = v.c & maskw(w); memcpy(o->d + off, &c, nb); if (o->s) memset(o->s + off, 0, 8 * nb); }
}
// candidate in-bounds offsets for symbolic address p inside one object. returns false when the address must be split instead
static bool candidates(Expr* p, u64 n, std::vector<u64>& out, u64& oid, unsigned limit) {
  u64 v = evalExpr(p, cur->model); Obj* o = cur->m.get(v >> 32); u64 off = (v & 0xffffffffull) - OBASE;
  if (!o || o->freed || off > o->size || n > o->size - off) memErr(v, n, "access");
  oid = v >> 32; u64 base = addrOf(oid);
  // may it leave the object?
  Expr* rel = eBin(SUB, p, eConst(base, 64)); Expr* in = eBin(ULE, rel, eConst(o->size - n, 64)); State* ot; branch(in, &ot); if (ot) pending.push_back(ot);
  // enumerate through the support when small
  unsigned bits = 0; std::vector<Expr*> ss; 
  { std::vector<Expr*> st{p}; std::set<Expr*> seen; while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == SYM) { ss.push_back(x); bits += x->w; continue; } for (auto k : x->k) if (k && k->sup.any()) st.push_back(k); } }
  if (bits <= 8) {
    std::vector<u64> m = cur->model; std::set<u64> r; unsigned mx = 0; for (auto s : ss) mx = std::max<unsigned>(mx, s->aux); if (m.size() <= mx) m.resize(mx + 1, 0);
    for (u64 x = 0; x < (1u << bits); x++) { u64 y = x; for (auto s : ss) { m[s->aux] = y & maskw(s->w); y >>= s->w; } u64 a = evalExpr(p, m) - base; if (a <= o->size - n) r.insert(a); if (r.size() > limit) return false; }
    out.assign(r.begin(), r.end()); return true;
  }
  u64 stride = rel->tz >= 32 ? 1ull << 32 : 1ull << rel->tz, start = 0;
  Expr* t = rel; if (t->op == ADD && isC(t->k[1])) { stride = t->k[0]->tz >= 32 ? 1ull << 32 : 1ull << t->k[0]->tz; start = t->k[1]->c & (stride - 1); }
  if ((o->size - n) / stride + 1 > limit) return false;
  for (u64 a = start; a <= o->size - n; a += stride) out.push_back(a);
  return true;
}
static bool splitAddr = false;   // case-split symbolic addresses instead of merging the candidates
static Val loadV(Val p, unsigned nb, unsigned w, bool isPtr) {
  if (!p.e) { Obj* o = check(p.c, nb, "read"); return loadAt(o, (p.c & 0xffffffffull) - OBASE, nb, w); }
  Expr* e = simp(p.e); if (isC(e)) return loadV(Val(e->c), nb, w, isPtr);
  std::vector<u64> c; u64 oid;
  if (!isPtr && !splitAddr && candidates(e, nb, c, oid, 256)) {
    e = simp(e); if (isC(e)) return loadV(Val(e->c), nb, w, isPtr);
    Obj* o = cur->m.get(oid); std::vector<std::pair<u64, Expr*>> vals; std::map<Expr*, int> cnt; for (u64 a : c) { Expr* x = toE(loadAt(o, a, nb, w), w); vals.push_back({a, x}); cnt[x]++; }
    Expr* d = nullptr; int best = -1; for (auto& k : vals) if (cnt[k.second] > best) { best = cnt[k.second]; d = k.second; }
    Expr* r = d; std::map<u32, std::pair<Expr*, Expr*>> grp; for (auto& k : vals) if (k.second != d) { Expr* q = eBin(EQ, e, eConst(addrOf(oid) + k.first, 64)); auto& g = grp[k.second->id]; g.first = k.second; g.second = g.second ? eBin(OR, g.second, q) : q; }
    for (auto& g : grp) r = eIte(g.second.second, g.second.first, r);
    return mkV(r);
  }
  u64 a = concretize(Val(0, e)); return loadV(Val(a), nb, w, isPtr);
}
static void storeV(Val p, Val v, unsigned nb, unsigned w, bool isPtr) {
  if (!p.e) { Obj* o = check(p.c, nb, "write"); if (o->ro) memErr(p.c, nb, "write to constant"); o = cur->m.write(p.c >> 32); storeAt(o, (p.c & 0xffffffffull) - OBASE, nb, w, v); return; }
  Expr* e = simp(p.e); if (isC(e)) return storeV(Val(e->c), v, nb, w, isPtr);
  std::vector<u64> c; u64 oid;
  if (!isPtr && !splitAddr && candidates(e, nb, c, oid, 24)) {
    e = simp(e); if (isC(e)) return storeV(Val(e->c), v, nb, w, isPtr);
    Obj* o = cur->m.write(oid); if (o->ro) memErr(addrOf(oid), nb, "write to constant"); Expr* nv = toE(v, w);
    for (u64 a : c) { Expr* old = toE(loadAt(o, a, nb, w), w); Expr* x = eIte(eBin(EQ, e, eConst(addrOf(oid) + a, 64)), nv, old); storeAt(o, a, nb, w, mkV(x)); }
    return;
  }
  u64 a = concretize(Val(0, e)); storeV(Val(a), v, nb, w, isPtr);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; Obj* so = check(s, n, "read"); check(d, n, "write"); if (s == d) return; Obj* dn = cur->m.write(d >> 32); if (dn->ro) memErr(d, n, "write to constant"); so = cur->m.get(s >> 32);
  u64 a = (s & 0xffffffffull) - OBASE, b = (d & 0xffffffffull) - OBASE; memmove(dn->d + b, so->d + a, n);
  if (so->s) { cur->m.symArr(dn); memmove(dn->s + b, so->s + a, 8 * n); } else if (dn->s) memset(dn->s + b, 0, 8 * n);
}
static std::string cstr(u64 a, unsigned lim = 300) { std::string s; if (!cur->m.get(a >> 32)) return "?"; while (s.size() < lim) { Obj* o = check(a, 1, "read"); Val v = loadAt(o, (a & 0xffffffffull) - OBASE, 1, 8); u64 c = v.e ? evalExpr(v.e, cur->model) : v.c; if (!c) break; s += (char)c; a++; } return s; }

// ---------------------------------------------------------- exceptions ------
static std::map<u64, std::pair<std::string, u64>> tinfo;   // typeinfo address -> name, base address
static std::map<std::string, u64> tiByName;
static bool tiMatch(u64 thrown, u64 want) {
  if (!want) return true;
  static const std::map<std::string, std::string> stdBase = {{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
  u64 t = thrown; std::string name = tinfo.count(t) ? tinfo[t].first : "?"; std::string wn = tinfo.count(want) ? tinfo[want].first : "?!";
  for (int i = 0; i < 20; i++) { if (name == wn) return true; if (t && tinfo.count(t) && tinfo[t].second) { t = tinfo[t].second; name = tinfo[t].first; continue; } auto it = stdBase.find(name); if (it == stdBase.end()) return false; name = it->second; t = tiByName.count(name) ? tiByName[name] : 0; }
  return false;
}
static void popFrame() { Frame& f = cur->fr.back(); for (u32 a : f.allocas) cur->m.release(a); cur->fr.pop_back(); }
static void takeEdge(Frame& f, Edge* e) {
  if (e->cp.size() == 1 && e->cp[0][2] == 1) { int s = e->cp[0][1]; f.r[e->cp[0][0]] = s >= 0 ? f.r[s] : f.f->consts[~s]; }
  else if (!e->cp.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; int n = 0; for (auto& c : e->cp) n += c[2]; if (n > 64) { big.resize(n); t = big.data(); } int k = 0;
    for (auto& c : e->cp) for (int i = 0; i < c[2]; i++) t[k++] = c[1] >= 0 ? f.r[c[1] + i] : f.f->consts[~c[1] + i]; k = 0; for (auto& c : e->cp) for (int i = 0; i < c[2]; i++) f.r[c[0] + i] = t[k++]; }
  f.pc = e->tgt;
}
static void unwind(u64 exc, u64 ti) {
  cur->curExc = exc; cur->curTi = ti;
  while (!cur->fr.empty()) {
    Frame& f = cur->fr.back(); const Inst* c = f.pc;   // pc at the call
    if (c->op == I_CALL) { CallI* ci = (CallI*)c->x; if (ci->unwind) {
      takeEdge(f, ci->unwind); const Inst* lp = f.pc; if (lp->op != I_LPAD) unsupported("landingpad position"); LPad* L = (LPad*)lp->x; u64 sel = 0; bool ok = false;
      for (u64 w : L->catches) if (tiMatch(ti, w)) { ok = true; sel = w ? (w >> 32) & 0x7fffffff : 1; break; }
      if (!ok && L->cleanup) ok = true;
      if (ok) { f.r[lp->dst] = Val(exc); f.r[lp->dst + 1] = Val(sel); f.pc = lp + 1; return; } } }
    popFrame();
  }
  throw std::string(tinfo.count(ti) ? tinfo[ti].first : "exception");
}

// -------------------------------------------------------- work splitting ----
static u64 lastStats[8];
static void flushStats() {
  auto d = [&](int i, u64 v, std::atomic<u64>& a) { a += v - lastStats[i]; lastStats[i] = v; };
  d(0, gStats.queries, sh->queries); d(1, gStats.sat, sh->sat); d(2, gStats.unsat, sh->unsat); d(3, gStats.unknown, sh->unknown); d(4, gStats.cached, sh->cached); d(5, gStats.us, sh->us);
}
static double nextSplit = 0;
static void maybeSplit() {
  if (jobs <= 1 || pending.size() < 2 || sh->active >= jobs) return;
  double t = now(); if (t < nextSplit) return;
  int a = sh->active; if (a >= jobs || !sh->active.compare_exchange_strong(a, a + 1)) return;
  flushStats(); fflush(stdout);
  pid_t p = fork();
  if (p < 0) { sh->active--; return; }
  std::vector<State*> mine, theirs; for (size_t i = 0; i < pending.size(); i++) (i % 2 ? mine : theirs).push_back(pending[i]);
  if (p == 0) { sh->procs++; pending = theirs; cur = nullptr; nextSplit = now() + 0.02; throw 42; }
  pending = mine; for (auto s : theirs) delete s;     // parent drops what the child took
  nextSplit = now() + 0.02;
}

// ---------------------------------------------------------- interpreter -----
static u64 mathCall(const char* n, double a, double b) {
  std::string s = n; auto has = [&](const char* x) { return s == x || s.find(std::string("llvm.") + x + ".") == 0; };
  double r = 0; if (has("log10")) r = log10(a); else if (has("log2")) r = log2(a); else if (has("log")) r = log(a); else if (has("floor")) r = floor(a); else if (has("ceil")) r = ceil(a); else if (has("sqrt")) r = sqrt(a); else if (has("exp")) r = exp(a); else if (has("round")) r = round(a); else if (has("trunc")) r = trunc(a); else if (has("pow")) r = pow(a, b); else if (has("fmod")) r = fmod(a, b); else unsupported("math " + s);
  return std::bit_cast<u64>(r);
}
static u64 doAlloc(u64 n, u8 fill) { if (n > (1u << 28)) failPath("memory", "huge allocation request"); u32 id = cur->m.alloc((u32)n, K_HEAP, fill); cur->live++; return addrOf(id); }
static pid_t rootPid;

// returns false if the call was pushed as a frame
static void extCall(Frame& f, const Inst* in, CallI* ci) {
  auto arg = [&](int i) -> Val { int o = ci->args[i].first; return o >= 0 ? f.r[o] : f.f->consts[~o]; };
  auto carg = [&](int i) -> u64 { Val v = arg(i); return v.e ? concretize(v) : v.c; };
  auto w = [&](int i) { return ci->argw[i]; };
  auto ret = [&](Val v) { if (in->dst >= 0) f.r[in->dst] = v; };
  switch (ci->ext) {
    case X_NOP: if (in->dst >= 0) { for (unsigned i = 0; i < in->n; i++) f.r[in->dst + i] = Val(0); if (in->n == 1 && !ci->args.empty() && in->w == 64) ret(Val(0)); } break;
    case X_MALLOC: ret(Val(doAlloc(carg(0), 0xcd))); break;
    case X_CALLOC: ret(Val(doAlloc(carg(0) * carg(1), 0))); break;
    case X_REALLOC: { u64 p = carg(0), n = carg(1); u64 q = doAlloc(n, 0xcd); if (p) { Obj* o = check(p, 0, "realloc"); copyMem(q, p, std::min<u64>(o->size, n)); cur->m.write(p >> 32)->freed = true; cur->live--; } ret(Val(q)); break; }
    case X_FREE: { u64 p = carg(0); if (!p) break; Obj* o = cur->m.get(p >> 32); if (!o || o->kind != K_HEAP || (p & 0xffffffffull) != OBASE) failPath("memory", "invalid free in " + demangle1(f.f->name).substr(0, 120)); if (o->freed) failPath("memory", "double free in " + demangle1(f.f->name).substr(0, 120));
      o = cur->m.write(p >> 32); o->freed = true; cur->live--; free(o->s); o->s = nullptr; free(o->d); o->d = (u8*)malloc(8); break; }
    case X_MEMCPY: { u64 d = carg(0), s = carg(1), n = carg(2); copyMem(d, s, n); ret(Val(d)); break; }
    case X_MEMSET: { u64 d = carg(0), n = carg(2); Val v = arg(1); if (n) { check(d, n, "write"); Obj* o = cur->m.write(d >> 32); u64 b = (d & 0xffffffffull) - OBASE; if (v.e) { Expr* e = v.e->w > 8 ? eExtract(v.e, 0, 8) : v.e; for (u64 i = 0; i < n; i++) storeAt(o, b + i, 1, 8, mkV(e)); } else { memset(o->d + b, v.c, n); if (o->s) memset(o->s + b, 0, 8 * n); } } ret(Val(d)); break; }
    case X_ABORT: failPath("abort", "abort() called in " + demangle1(f.f->name).substr(0, 120));
    case X_TERMINATE: failPath("abort", "std::terminate called");
    case X_PURE: failPath("abort", "pure virtual call");
    case X_TRAP: failPath("ub", "undefined behaviour trap in " + demangle1(f.f->name).substr(0, 160));
    case X_ASSERTFAIL: failPath("assert", "assertion failed: " + cstr(carg(0), 200) + " (" + [&] { std::string s = cstr(carg(1), 200); size_t k = s.rfind('/'); return k == s.npos ? s : s.substr(k + 1); }() + ")");
    case X_GLIBASSERT: failPath("memory", "library precondition failed: " + cstr(carg(3), 200) + " in " + demangle1(cur->fr.size() > 1 ? cur->fr[cur->fr.size() - 1].f->name : f.f->name).substr(0, 120));
    case X_EXIT: failPath("abort", "exit() called");
    case X_ALLOCEXC: ret(Val(doAlloc(carg(0), 0))); break;
    case X_FREEEXC: break;
    case X_THROW: { u64 e = carg(0), t = carg(1); cur->excTi[e] = t; try { unwind(e, t); } catch (std::string& n) { failPath("abort", "uncaught exception " + demangle1(n)); } return; }
    case X_RETHROW: { if (cur->caught.empty()) failPath("abort", "rethrow without exception"); Caught c = cur->caught.back(); cur->caught.pop_back(); try { unwind(c.exc, c.ti); } catch (std::string& n) { failPath("abort", "uncaught exception " + demangle1(n)); } return; }
    case X_BEGINCATCH: { u64 e = carg(0); cur->caught.push_back({e, cur->excTi.count(e) ? cur->excTi[e] : 0}); ret(Val(e)); break; }
    case X_ENDCATCH: if (!cur->caught.empty()) { u64 e = cur->caught.back().exc; cur->caught.pop_back(); bool still = false; for (auto& c : cur->caught) still |= c.exc == e; if (!still && cur->m.get(e >> 32) && !cur->m.get(e >> 32)->freed) { cur->m.write(e >> 32)->freed = true; cur->live--; } } break;
    case X_TYPEID: { u64 t = carg(0); ret(Val(t ? (t >> 32) & 0x7fffffff : 1)); break; }
    case X_DYNCAST: { u64 p = carg(0), dst = carg(2); if (!p) { ret(Val(0)); break; } Val vp = loadV(Val(p), 8, 64, true); Val ti = loadV(Val((vp.e ? concretize(vp) : vp.c) - 8), 8, 64, true); u64 t = ti.e ? concretize(ti) : ti.c; ret(Val(tiMatch(t, dst) ? p : 0)); break; }
    case X_SYM: {
      const char* nm = strdup(cstr(carg(0), 60).c_str()); u64 lo = carg(1), hi = carg(2);
      if (lo == hi) { cur->syms.push_back({nm, eConst(lo, 64)}); ret(Val(lo)); break; }
      unsigned bits = 64 - std::countl_zero(hi); unsigned idx = 0; for (auto& s : cur->syms) if (!isC(s.second)) idx++; if (idx >= 64 * SUPW) unsupported("too many symbols");
      Expr* s = eSym(idx, bits, lo, hi); Expr* z = eZext(s, 64); cur->syms.push_back({nm, z}); if (cur->model.size() <= idx) cur->model.resize(idx + 1, 0); cur->model[idx] = lo; 
      if (hi != maskw(bits)) addC(cur, eRaw(ULE, s, eConst(hi, bits))); if (lo) addC(cur, eRaw(ULE, eConst(lo, bits), s));
      u64 c = cur->syms.size(); if (c > sh->maxSyms) sh->maxSyms = c; ret(mkV(z)); break; }
    case X_ASSUME: { Val v = arg(0); if (!v.e) { if (!(v.c & 0xffffffff)) { sh->assumeKilled++; endPath(); } break; } Expr* c = simp(v.e); c = eNot(eBin(EQ, c, eConst(0, c->w))); if (isC(c)) { if (!c->c) { sh->assumeKilled++; endPath(); } break; }
      if (evalExpr(c, cur->model)) { addC(cur, c); break; } std::vector<u64> m = cur->model; int r = smtCheck(cur->cons, c, m); if (r < 0) { sh->incomplete++; endPath(); } if (!r) { sh->assumeKilled++; endPath(); } cur->model = m; addC(cur, c); break; }
    case X_ASSERT: { sh->asserts++; Val v = arg(0); std::string msg = cstr(carg(1), 300); if (!v.e) { if (!(v.c & 0xffffffff)) failPath("property", msg); break; }
      Expr* c = simp(v.e); c = eNot(eBin(EQ, c, eConst(0, c->w))); if (isC(c)) { if (!c->c) failPath("property", msg); break; }
      std::vector<u64> m = cur->model; int r = smtCheck(cur->cons, eNot(c), m); if (r < 0) { sh->incomplete++; sh->uncertain++; }
      if (r > 0) { violation("property", msg, m); m = cur->model; if (smtCheck(cur->cons, c, m) <= 0) endPath(); cur->model = m; }
      if (r == 0) sh->assertsProved++; else addC(cur, c); break; }
    case X_REACH: { std::string t = cstr(carg(0), 63); int n = sh->nreach; int h = -1; for (int i = 0; i < n; i++) if (t == sh->reach[i]) h = i; if (h < 0) { lockS(); n = sh->nreach; for (int i = 0; i < n; i++) if (t == sh->reach[i]) h = i; if (h < 0 && n < MAXT) { strcpy(sh->reach[n], t.c_str()); h = n; sh->nreach++; } unlockS(); } if (h >= 0) sh->reachN[h]++; break; }
    case X_OBS: { Val v = arg(1); cur->obs.push_back({strdup(cstr(carg(0), 60).c_str()), v}); break; }
    case X_CONC: ret(Val(carg(0))); break;
    case X_PARAM: { std::string n = cstr(carg(0), 60); u64 d = carg(1); auto it = params.find(n); ret(Val(it == params.end() ? d : it->second)); break; }
    case X_ENGINE: ret(Val(1)); break;
    case X_SETFILE: cur->fileAddr = carg(0); break;
    case X_FILETEXT: ret(Val(cur->fileAddr)); break;
    case X_LEAKS: ret(Val(cur->live)); break;
    case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: { Val a = arg(0), b = arg(1); unsigned ww = w(0); bool s = ci->ext == X_SMIN || ci->ext == X_SMAX, mx = ci->ext == X_UMAX || ci->ext == X_SMAX;
      if (!a.e && !b.e) { bool lt = s ? sx(a.c, ww) < sx(b.c, ww) : a.c < b.c; ret(Val(lt != mx ? a.c : b.c)); break; }
      Expr *x = toE(a, ww), *y = toE(b, ww); Expr* lt = eBin(s ? SLT : ULT, x, y); ret(mkV(mx ? eIte(lt, y, x) : eIte(lt, x, y))); break; }
    case X_ABS: { Val a = arg(0); unsigned ww = w(0); if (!a.e) { i64 v = sx(a.c, ww); ret(Val((u64)(v < 0 ? -v : v) & maskw(ww))); break; } Expr* x = a.e; ret(mkV(eIte(eBin(SLT, x, eConst(0, ww)), eBin(SUB, eConst(0, ww), x), x))); break; }
    case X_CTPOP: { Val a = arg(0); if (!a.e) ret(Val(std::popcount(a.c))); else ret(mkV(eCtpop(a.e))); break; }
    case X_CTTZ: case X_CTLZ: { Val a = arg(0); unsigned ww = w(0); bool tz = ci->ext == X_CTTZ; if (!a.e) { ret(Val(tz ? (a.c ? std::countr_zero(a.c) : ww) : (a.c ? std::countl_zero(a.c) - (64 - ww) : ww))); break; }
      if (tz) {   // a small bit set: case split on which of its positions is the lowest
        std::vector<Expr*> ps; Expr* x = simp(a.e); if (isC(x)) { ret(Val(x->c ? std::countr_zero(x->c) : ww)); break; }
        if (eBitPositions(x, ps)) {
          u64 v = evalExpr(x, cur->model), pos = v ? std::countr_zero(v) : ww; Expr* c = nullptr; Expr* res = eConst(ww, ww);
          if (!v) c = eBin(EQ, x, eConst(0, ww));
          else for (Expr* p : ps) if (evalExpr(p, cur->model) == pos && evalExpr(eBitTest(x, p), cur->model)) { res = eZext(p, ww); c = eBitTest(x, p); for (Expr* q : ps) if (q != p) { Expr* z = eZext(q, ww); c = eBin(AND, c, eBin(OR, eNot(eBitTest(x, q)), eBin(ULE, res, z))); } break; }
          if (!isC(c)) { State* o; branch(c, &o); if (o) pending.push_back(o); }
          ret(mkV(res)); break;
        }
      }
      Expr* r = eConst(ww, ww); for (unsigned i = 0; i < ww; i++) { unsigned bit = tz ? ww - 1 - i : i; r = eIte(eExtract(a.e, bit, 1), eConst(tz ? bit : ww - 1 - bit, ww), r); } ret(mkV(r)); break; }
    case X_BSWAP: { Val a = arg(0); unsigned ww = w(0); Expr* x = toE(a, ww); Expr* r = nullptr; for (unsigned i = 0; i < ww / 8; i++) { Expr* b = eExtract(x, 8 * i, 8); r = r ? eConcat(r, b) : b; } ret(mkV(r)); break; }
    case X_FSHL: case X_FSHR: { unsigned ww = w(0); Expr *x = toE(arg(0), ww), *y = toE(arg(1), ww), *s = eBin(UREM, toE(arg(2), ww), eConst(ww, ww)); Expr* is = eBin(SUB, eConst(ww, ww), s); Expr* r;
      if (ci->ext == X_FSHL) r = eIte(eBin(EQ, s, eConst(0, ww)), x, eBin(OR, eBin(SHL, x, s), eBin(LSHR, y, is))); else r = eIte(eBin(EQ, s, eConst(0, ww)), y, eBin(OR, eBin(LSHR, y, s), eBin(SHL, x, is))); ret(mkV(r)); break; }
    case X_OVF: { std::string s = ci->extName; Op o, r; if (s.find("uadd") != s.npos) o = UADDO, r = ADD; else if (s.find("usub") != s.npos) o = USUBO, r = SUB; else if (s.find("umul") != s.npos) o = UMULO, r = MUL; else if (s.find("sadd") != s.npos) o = SADDO, r = ADD; else if (s.find("ssub") != s.npos) o = SSUBO, r = SUB; else o = SMULO, r = MUL;
      Val a = arg(0), b = arg(1); unsigned ww = w(0); if (!a.e && !b.e) { f.r[in->dst] = Val(foldOp(r, ww, 0, a.c, b.c, 0, ww, ww)); f.r[in->dst + 1] = Val(foldOp(o, 1, 0, a.c, b.c, 0, ww, ww)); } else { Expr *x = toE(a, ww), *y = toE(b, ww); f.r[in->dst] = mkV(eBin(r, x, y)); f.r[in->dst + 1] = mkV(eBin(o, x, y)); } break; }
    case X_USUBSAT: case X_UADDSAT: { unsigned ww = w(0); Expr *x = toE(arg(0), ww), *y = toE(arg(1), ww); if (ci->ext == X_USUBSAT) ret(mkV(eIte(eBin(ULT, x, y), eConst(0, ww), eBin(SUB, x, y)))); else ret(mkV(eIte(eBin(UADDO, x, y), eConst(~0ull, ww), eBin(ADD, x, y)))); break; }
    case X_OBJSIZE: ret(Val(~0ull)); break;
    case X_ISCONST: ret(Val(0)); break;
    case X_EXPECT: ret(arg(0)); break;
    case X_FABS: { Val a = arg(0); unsigned ww = w(0); ret(a.e ? mkV(eBin(AND, a.e, eConst(maskw(ww - 1), ww))) : Val(a.c & maskw(ww - 1))); break; }
    case X_FMULADD: { unsigned ww = w(0); Expr* r = eBin(FADD, eBin(FMUL, toE(arg(0), ww), toE(arg(1), ww)), toE(arg(2), ww)); ret(mkV(r)); break; }
    case X_MATH1: ret(Val(mathCall(ci->extName, std::bit_cast<double>(carg(0)), 0))); break;
    case X_MATH2: ret(Val(mathCall(ci->extName, std::bit_cast<double>(carg(0)), std::bit_cast<double>(carg(1))))); break;
    case X_STRTOD: { u64 p = carg(0), endp = carg(1); std::string s; for (u64 a = p;; a++) { Val v = loadV(Val(a), 1, 8, false); u64 c = v.e ? concretize(v) : v.c; if (!c) break; s += (char)c; if (s.size() > 100) break; } char* e; errno = 0; double d = strtod(s.c_str(), &e); if (errno) storeV(Val(carg(2)), Val((u64)errno), 4, 32, false); if (endp) storeV(Val(endp), Val(p + (e - s.c_str())), 8, 64, false); ret(Val(std::bit_cast<u64>(d))); break; }
    default: unsupported(std::string("external ") + ci->extName);
  }
  if (ci->normal) takeEdge(cur->fr.back(), ci->normal); else cur->fr.back().pc = in + 1;
}
static Fn* rtSscanf = nullptr;

static void pushCall(Fn* fn, const Inst* in, CallI* ci) {
  if (!fn->decoded) decode(fn);
  sh->fnHit[std::min(fn->idx, MAXFN - 1)] = 1;
  if (cur->fr.size() > 2000) failPath("abort", "stack overflow (recursion)");
  cur->fr.emplace_back(); Frame& n = cur->fr.back(); Frame& f = cur->fr[cur->fr.size() - 2];
  n.f = fn; n.r.resize(fn->nregs); n.pc = fn->entry; n.call = in;
  size_t np = fn->params.size(); for (size_t i = 0; i < np && i < ci->args.size(); i++) { int o = ci->args[i].first; for (int k = 0; k < ci->args[i].second; k++) n.r[fn->params[i] + k] = o >= 0 ? f.r[o + k] : f.f->consts[~o + k]; }
}

static void runState() {
  u64 tick = 0;
  while (true) {
    if ((++tick & 1023) == 0) {
      cur->steps += 1024; sh->steps += 1024;
      if (sh->stop) { sh->incomplete += 1; endPath(); }
      if (cur->steps > maxSteps) { sh->killed++; failPath("steps", "path exceeds the step bound (no termination within bound)"); }
      if ((tick & 0xfffff) == 0 && rootPid && kill(rootPid, 0)) _exit(9);
      if ((tick & 0xffff) == 0 && now() > timeLimit) { sh->stop = 2; sh->incomplete++; endPath(); }
      if ((tick & 0x3fff) == 0) maybeSplit();
    }
    Frame& f = cur->fr.back(); const Inst* in = f.pc;
    auto V = [&](int o) -> const Val& { return o >= 0 ? f.r[o] : f.f->consts[~o]; };
    switch (in->op) {
      case I_BIN: {
        Val a = V(in->a), b = V(in->b); Op op = (Op)in->sub; unsigned w = in->w;
        if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
          if (b.e) { Expr* z = eBin(EQ, b.e, eConst(0, w)); State* o; bool v = branch(z, &o); if (o) pending.push_back(o); if (v) failPath("ub", "division by zero in " + demangle1(f.f->name).substr(0, 120)); }
          else if (!b.c) failPath("ub", "division by zero in " + demangle1(f.f->name).substr(0, 120));
        }
        if (!a.e && !b.e) { u64 r; switch (op) { case ADD: r = (a.c + b.c) & maskw(w); break; case SUB: r = (a.c - b.c) & maskw(w); break; case AND: r = a.c & b.c; break; case OR: r = a.c | b.c; break; case XOR: r = a.c ^ b.c; break; default: r = foldOp(op, w, 0, a.c, b.c, 0, w, w); } f.r[in->dst] = Val(r); }
        else if (op >= FADD && op <= FDIV) f.r[in->dst] = mkV(eBin(op, toE(a, w), toE(b, w)));
        else f.r[in->dst] = mkV(eBin(op, toE(a, w), toE(b, w)));
        f.pc++; break; }
      case I_CMP: {
        const Val &a = V(in->a), &b = V(in->b); unsigned w = in->w;
        if (!a.e && !b.e) { bool r; switch (in->sub) { case EQ: r = a.c == b.c; break; case ULT: r = a.c < b.c; break; case ULE: r = a.c <= b.c; break; case SLT: r = sx(a.c, w) < sx(b.c, w); break; default: r = sx(a.c, w) <= sx(b.c, w); } f.r[in->dst] = Val(r != (bool)in->flag); }
        else { Expr* e = eBin((Op)in->sub, toE(a, w), toE(b, w)); if (in->flag) e = eNot(e); f.r[in->dst] = mkV(e); }
        f.pc++; break; }
      case I_FCMP: { const Val &a = V(in->a), &b = V(in->b); f.r[in->dst] = mkV(eBin(FCMP, toE(a, in->w), toE(b, in->w), in->flag)); f.pc++; break; }
      case I_FNEG: { const Val& a = V(in->a); f.r[in->dst] = mkV(eBin(XOR, toE(a, in->w), eConst(1ull << (in->w - 1), in->w))); f.pc++; break; }
      case I_CAST: {
        const Val& a = V(in->a);
        if (!a.e) { u64 r; switch (in->sub) { case NOPS: case ZEXT: r = a.c; break; case EXTRACT: r = a.c & maskw(in->w); break; case SEXT: r = (u64)sx(a.c, in->wb) & maskw(in->w); break; default: r = foldOp((Op)in->sub, in->w, 0, a.c, 0, 0, in->wb, 0); } f.r[in->dst] = Val(r); }
        else { Expr* e; switch (in->sub) { case NOPS: e = a.e; break; case EXTRACT: e = eExtract(a.e, 0, in->w); break; default: e = eUn((Op)in->sub, a.e, in->w); } f.r[in->dst] = mkV(e); }
        f.pc++; break; }
      case I_SELECT: {
        Val c = V(in->a);
        if (c.e) {
          Expr* ce = simp(c.e);
          if (isC(ce)) c = Val(ce->c);
          else if (in->flag) { State* o; bool v = branch(ce, &o); if (o) pending.push_back(o); c = Val(v); }
          else { f.r[in->dst] = mkV(eIte(ce, toE(V(in->b), in->w), toE(V(in->c), in->w))); f.pc++; break; }
        }
        int s = c.c ? in->b : in->c; Val t[16]; if (in->n > 16) unsupported("wide select"); for (unsigned i = 0; i < in->n; i++) t[i] = s >= 0 ? f.r[s + i] : f.f->consts[~s + i]; for (unsigned i = 0; i < in->n; i++) f.r[in->dst + i] = t[i];
        f.pc++; break; }
      case I_LOAD: {
        const Val& p = V(in->a);
        if (in->n == 1) { Val r = loadV(p, in->wb, in->w, in->flag); if (in->flag == 1 && r.e) { u64 c = concretize(r); r = Val(c); } f.r[in->dst] = r; }
        else { u64 a = concretize(p); auto* mt = (MemT*)in->x; for (unsigned i = 0; i < in->n; i++) { Val r = loadV(Val(a + mt->s[i].off), (mt->s[i].w + 7) / 8, mt->s[i].w, mt->s[i].ptr); f.r[in->dst + i] = r; } }
        f.pc++; break; }
      case I_STORE: {
        const Val& p = V(in->b);
        if (in->n == 1) storeV(p, V(in->a), in->wb, in->w, in->flag);
        else { u64 a = concretize(p); auto* mt = (MemT*)in->x; for (unsigned i = 0; i < in->n; i++) storeV(Val(a + mt->s[i].off), in->a >= 0 ? f.r[in->a + i] : f.f->consts[~in->a + i], (mt->s[i].w + 7) / 8, mt->s[i].w, mt->s[i].ptr); }
        f.pc++; break; }
      case I_GEP: {
        auto* g = (Gep*)in->x; const Val& b = V(in->a); u64 off = g->off; Expr* e = b.e; if (!e) off += b.c;
        for (auto& t : g->t) { const Val& v = V(t.op); if (!v.e) off += (u64)sx(v.c, t.w) * t.scale; else { Expr* x = v.e; if (t.w < 64) x = eUn(SEXT, x, 64); else x = simp(x); x = eBin(MUL, x, eConst(t.scale, 64)); e = e ? eBin(ADD, e, x) : x; } }
        f.r[in->dst] = e ? mkV(eBin(ADD, e, eConst(off, 64))) : Val(off);
        f.pc++; break; }
      case I_BR: takeEdge(f, in->e1); break;
      case I_CBR: {
        const Val& c = V(in->a);
        if (!c.e) { takeEdge(f, c.c ? in->e1 : in->e2); break; }
        State* o; bool v = branch(c.e, &o);
        if (o) { takeEdge(o->fr.back(), v ? in->e2 : in->e1); pending.push_back(o); }
        takeEdge(f, v ? in->e1 : in->e2);
        if (o) maybeSplit();
        break; }
      case I_SWITCH: {
        auto* s = (SwitchI*)in->x; const Val& c = V(in->a); u64 v;
        if (c.e) { Expr* e = simp(c.e); if (isC(e)) v = e->c; else {
            // split per successor edge
            u64 x = evalExpr(e, cur->model); Edge* te = s->dflt; for (auto& k : s->cases) if (k.first == x) te = k.second;
            Expr* cond = nullptr; if (te != s->dflt) { for (auto& k : s->cases) if (k.second == te) { Expr* q = eBin(EQ, e, eConst(k.first, in->w)); cond = cond ? eBin(OR, cond, q) : q; } }
            else { Expr* any = eConst(0, 1); for (auto& k : s->cases) if (k.second != te) any = eBin(OR, any, eBin(EQ, e, eConst(k.first, in->w))); cond = eNot(any); }
            State* o; branch(cond, &o); if (o) pending.push_back(o); takeEdge(f, te); break; } }
        else v = c.c;
        Edge* te = s->dflt; for (auto& k : s->cases) if (k.first == v) { te = k.second; break; } takeEdge(f, te); break; }
      case I_CALL: {
        auto* ci = (CallI*)in->x; Fn* fn = ci->fn;
        if (ci->ext == X_SSCANF) { if (!rtSscanf) { auto* q = M->getFunction("nsx_sscanf2"); if (!q) unsupported("sscanf"); rtSscanf = getFn(q); } pushCall(rtSscanf, in, ci); break; }
        if (!fn && !ci->callee) { u64 a = concretize(V(ci->calleeOp)); if (a < FNBASE || (a - FNBASE) / 16 >= fns.size()) failPath("memory", "call through invalid function pointer in " + demangle1(f.f->name).substr(0, 100)); fn = fns[(a - FNBASE) / 16];
          if (fn->f->isDeclaration() || classify(fn->f, ci, &ci->extName)) { CallI t = *ci; t.ext = classify(fn->f, ci, &t.extName); if (!t.ext) unsupported("external " + fn->name); extCall(f, in, &t); break; } }
        if (fn) { pushCall(fn, in, ci); break; }
        extCall(f, in, ci); break; }
      case I_RET: {
        Val t[32]; if (in->n > 32) unsupported("wide return"); for (unsigned i = 0; i < in->n; i++) t[i] = in->a >= 0 ? f.r[in->a + i] : f.f->consts[~in->a + i];
        unsigned n = in->n; popFrame();
        if (cur->fr.empty()) return;
        Frame& p = cur->fr.back(); const Inst* call = p.pc; for (unsigned i = 0; i < n && call->dst >= 0; i++) p.r[call->dst + i] = t[i];
        auto* ci = (CallI*)call->x; if (ci->normal) takeEdge(p, ci->normal); else p.pc++;
        break; }
      case I_ALLOCA: { u64 n = concretize(V(in->a)) * in->n; u32 id = cur->m.alloc((u32)n, K_STACK, 0xab); f.allocas.push_back(id); f.r[in->dst] = Val(addrOf(id)); f.pc++; break; }
      case I_MOV: { for (unsigned i = 0; i < in->n; i++) f.r[in->dst + i] = in->a >= 0 ? f.r[in->a + i] : f.f->consts[~in->a + i]; f.pc++; break; }
      case I_INSERT: { for (unsigned i = 0; i < in->n; i++) f.r[in->dst + i] = in->a >= 0 ? f.r[in->a + i] : f.f->consts[~in->a + i]; for (unsigned i = 0; i < in->w; i++) f.r[in->dst + in->c + i] = in->b >= 0 ? f.r[in->b + i] : f.f->consts[~in->b + i]; f.pc++; break; }
      case I_UNREACH: failPath("ub", "unreachable executed in " + demangle1(f.f->name).substr(0, 120));
      case I_RESUME: { Val e = V(in->a); u64 x = e.c; u64 ti = cur->excTi.count(x) ? cur->excTi[x] : cur->curTi; popFrame(); try { unwind(x, ti); } catch (std::string& n) { failPath("abort", "uncaught exception " + demangle1(n)); } break; }
      case I_LPAD: unsupported("fell into landing pad");
      default: unsupported("iop");
    }
  }
}

static void pathDone() {
  u64 n = sh->paths++; sh->steps += cur->steps & 0; u64 ms = sh->maxsteps; if (cur->steps > ms) sh->maxsteps = cur->steps;
  if (samples && (n < samples / 4 || (n % sampleEvery) == 0)) { u64 k = sh->samples++; if (k < samples) writeReplay(cur->model, "sample-" + std::to_string(k) + ".txt", true); else sampleEvery = sampleEvery * 2 + 1; }
}
static void explore() {
  while (!pending.empty()) {
    if (sh->stop || now() > timeLimit) { if (!sh->stop) sh->stop = 2; sh->incomplete += pending.size(); for (auto s : pending) delete s; pending.clear(); break; }
    cur = pending.back(); pending.pop_back();
    try { runState(); pathDone(); } catch (PathEnd&) { } catch (int) { continue; /* child of a split: starts on its share */ }
    delete cur; cur = nullptr;
    try { maybeSplit(); } catch (int) { }
  }
  flushStats(); sh->exprs += exprCount();
}

static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f); else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }

int main(int argc, char** argv) {
  std::string bc, entry = "nsx_main", out; T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--jobs") jobs = stoi(nx()); else if (a == "--time") timeLimit = stod(nx()); else if (a == "--steps") maxSteps = stoull(nx()); else if (a == "--out") out = nx(); else if (a == "--replay") replayDir = nx(); else if (a == "--samples") samples = stoull(nx()); else if (a == "--all") stopFirst = false; else if (a == "--ignore") ignoreMsgs.push_back(nx()); else if (a == "--split") splitAddr = true; else if (a == "-v") verbose = true;
    else if (a == "--param") { std::string p = nx(); size_t k = p.find('='); params[p.substr(0, k)] = stoull(p.substr(k + 1)); } else bc = a; }
  mkdir(replayDir.c_str(), 0755);
  SMDiagnostic err; M = parseIRFile(bc, err, ctx); if (!M) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 3; }
  DL = &M->getDataLayout();
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->active = 1; sh->procs = 1;
  smtInit();
  State* s0 = new State; cur = nullptr;
  for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64; if (g.isDeclaration()) sz = std::max<u64>(sz, 512); u32 id = s0->m.alloc(sz, K_GLOBAL, 0); gaddr[&g] = addrOf(id); }
  for (auto& g : M->globals()) { u64 a = gaddr[&g]; if (g.hasInitializer()) { Obj* o = s0->m.get(a >> 32); initMem(o, 0, g.getInitializer()); o->ro = g.isConstant(); } std::string n = g.getName().str(); if (n.rfind("_ZTI", 0) == 0) { u64 base = 0; if (g.hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g.getInitializer())) if (cs->getNumOperands() == 3) base = constScalar(cs->getOperand(2)); tinfo[a] = {n, base}; tiByName[n] = a; } }
  Function* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  for (auto& f : *M) getFn(&f);
  // constructors first, then the entry: run as a chain of states
  std::vector<Fn*> boot; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) boot.push_back(getFn(p.second)); }
  cur = s0; auto start = [&](Fn* f) { if (!f->decoded) decode(f); sh->fnHit[f->idx] = 1; cur->fr.clear(); cur->fr.emplace_back(); cur->fr[0].f = f; cur->fr[0].r.resize(f->nregs); cur->fr[0].pc = f->entry; };
  for (Fn* b : boot) { try { start(b); runState(); } catch (PathEnd&) { fprintf(stderr, "static initialiser failed: %s\n", b->name.c_str()); for (int i = 0; i < sh->nviol; i++) fprintf(stderr, "  %s\n", sh->v[i].msg); for (int i = 0; i < sh->nunsup; i++) fprintf(stderr, "  %s\n", sh->unsup[i]); return 3; } }
  for (auto& h : sh->fnHit) h = 0;
  cur->steps = 0; cur->live = 0; start(getFn(ef)); pending.push_back(cur); cur = nullptr;
  signal(SIGCHLD, SIG_IGN);
  for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(sg, [](int) { sh->active--; sh->incomplete++; sh->crashed++; _exit(9); });
  pid_t root = rootPid = getpid();
  explore();
  sh->active--;
  if (getpid() != root) _exit(0);
  while (sh->active > 0) { usleep(2000); if (now() > timeLimit) sh->stop = sh->stop ? sh->stop.load() : 2; if (now() > timeLimit + 30) break; }
  double t = now();
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"paths\": %llu, \"forks\": %llu, \"instructions\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"asserts\": %llu, \"asserts_discharged_by_solver\": %llu, \"incomplete\": %llu, \"killed_steps\": %llu, \"unsupported\": %llu, \"max_path_steps\": %llu, \"assume_pruned\": %llu, \"max_symbols\": %llu, \"processes\": %d, \"stopped\": %d, \"samples\": %llu, \"engine_crashes\": %llu,\n",
    (unsigned long long)sh->paths, (unsigned long long)sh->forks, (unsigned long long)sh->steps, (unsigned long long)sh->queries, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown, (unsigned long long)sh->cached, sh->us / 1e6, t, (unsigned long long)sh->asserts, (unsigned long long)sh->assertsProved, (unsigned long long)sh->incomplete, (unsigned long long)sh->killed, (unsigned long long)sh->unsupported, (unsigned long long)sh->maxsteps, (unsigned long long)sh->assumeKilled, (unsigned long long)sh->maxSyms, (int)sh->procs, (int)sh->stop, (unsigned long long)std::min<u64>(sh->samples, samples), (unsigned long long)sh->crashed);
  fprintf(f, "\"reach\": {"); for (int i = 0; i < sh->nreach; i++) { if (i) fprintf(f, ", "); jstr(f, sh->reach[i]); fprintf(f, ": %llu", (unsigned long long)sh->reachN[i]); }
  fprintf(f, "},\n\"unsupported_list\": ["); for (int i = 0; i < sh->nunsup; i++) { if (i) fprintf(f, ", "); jstr(f, sh->unsup[i]); }
  fprintf(f, "],\n\"functions\": ["); { std::set<std::string> names; auto add = [&](const DISubprogram* sp) { if (!sp || !sp->getFile()) return; std::string path = (sp->getFile()->getFilename()).str(); for (const char* m : {"/src/", "/include/SAT-", "main.cpp"}) { size_t k = path.find(m); if (k == path.npos || path.find("/usr/") == 0 || path.find("/verif") != path.npos) continue; std::string ln = sp->getLinkageName().empty() ? sp->getName().str() : demangle1(sp->getLinkageName().str()); names.insert(ln.substr(0, std::min<size_t>(ln.find('('), 100)) + " @ " + path.substr(k + 1)); break; } };
    for (auto* fn : fns) if (sh->fnHit[std::min(fn->idx, MAXFN - 1)]) { add(fn->f->getSubprogram()); for (auto& bb : *fn->f) for (auto& in : bb) for (const DILocation* l = in.getDebugLoc().get(); l; l = l->getInlinedAt()) add(l->getScope()->getSubprogram()); }
    bool c = false; for (auto& n : names) { if (c) fprintf(f, ", "); c = true; jstr(f, n.c_str()); } }
  fprintf(f, "],\n\"violations\": ["); for (int i = 0; i < sh->nviol; i++) { if (i) fprintf(f, ",\n  "); auto& v = sh->v[i]; fprintf(f, "{\"kind\": "); jstr(f, v.kind); fprintf(f, ", \"msg\": "); jstr(f, v.msg); fprintf(f, ", \"where\": "); jstr(f, v.where); fprintf(f, ", \"count\": %llu, \"replay\": ", (unsigned long long)v.count); jstr(f, v.replay); fprintf(f, "}"); }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
  return 0;
}
