#include <sys/prctl.h>
#include <signal.h>
// csym: a bounded symbolic executor for LLVM-18 bitcode (single-threaded programs, C++ with exceptions).
#include "state.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <chrono>
#include <atomic>
#include <deque>
#include <functional>
#include <unordered_set>
using namespace llvm;

// ---------------------------------------------------------------- configuration and shared statistics
struct Cfg {
  std::string out; unsigned workers = 1; double maxTime = 600; uint64_t maxSteps = 400000000ULL; unsigned maxForkPerSite = 20000;
  uint64_t symAllocLimit = 65536, allocLimit = 1ULL << 28; unsigned iteLimit = 1024; bool trace = false, verbose = false; unsigned maxViol = 12; double afterViol = 30; unsigned samples = 24; bool uncaughtOk = false; bool allocViol = false; uint64_t maxMemMB = 6000;
  unsigned maxConc = 600;
} cfg;
struct Shared {
  std::atomic<int> active, nViol, nIncomplete, nSamples, stop;
  std::atomic<uint64_t> steps, paths, forks, queries, z3calls, cacheHits, modelHits, external, unknown, sat, unsat, solverUs, maxQueryUs, asserts, assertQueries, processes, killed, assumeEnd, concreteAsserts, stoppedEarly;
  std::atomic<int> lock; int nCov; char cov[256][96]; std::atomic<uint64_t> covHits[256];
  double violDeadline;
  std::atomic<uint8_t> fn[1 << 17];
};
static Shared *shm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;
static void lockShm() { while (shm->lock.exchange(1)) usleep(50); }
static void unlockShm() { shm->lock = 0; }
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

// ---------------------------------------------------------------- decoded program
enum DOp : uint8_t { D_BIN, D_ICMP, D_FCMP, D_SELECT, D_ZEXT, D_SEXT, D_TRUNC, D_COPY, D_BITCAST, D_GEP, D_LOAD, D_STORE, D_ALLOCA, D_CALL, D_BR, D_CBR, D_SWITCH, D_RET, D_UNREACH, D_INSERTV, D_EXTEL, D_INSEL, D_SHUF, D_FCAST, D_FNEG, D_LPAD, D_RESUME, D_CMPX, D_ARMW, D_NOP, D_UNSUP, D_VAARG };
struct Edge { uint32_t pc; std::vector<std::array<int, 3>> moves; };
struct Leaf { uint32_t off; uint16_t w; bool ptr = false; };
struct GepI { uint64_t coff; std::vector<std::tuple<int, unsigned, uint64_t>> idx; };
struct ArgI { int slot; unsigned n, w; uint64_t byval; };
struct FuncInfo;
struct CallI;
typedef void (*Builtin)(CallI &);
struct CallI { Function *F = nullptr; FuncInfo *fi = nullptr; int callee = 0; std::vector<ArgI> args; unsigned nfixed = 0; int dst = -1; unsigned nret = 0, wret = 0; bool invoke = false; Edge normal, unwind; Builtin bi = nullptr; unsigned iid = 0; std::vector<unsigned> retw; bool resolved = false; };
struct SwI { std::vector<std::pair<u128, int>> cases; std::vector<Edge> edges; /* edges[0] = default */ };
struct LpI { bool cleanup; struct Cl { bool filter; std::vector<uint64_t> ti; }; std::vector<Cl> cl; };
struct DInst {
  DOp op; uint8_t sub = 0; bool flag = false; uint16_t n = 1; uint16_t w = 0, w2 = 0; int dst = -1, a = 0, b = 0, c = 0; void *p = nullptr; const Instruction *src = nullptr;
};
struct FuncInfo { Function *F; uint32_t idx; unsigned nregs = 0; bool decoded = false; std::vector<DInst> code; std::vector<Val> consts; std::vector<unsigned> argSlots; };

static LLVMContext llctx; static std::unique_ptr<Module> mod; static const DataLayout *DL;
static std::vector<FuncInfo *> funcs; static std::unordered_map<const Function *, FuncInfo *> funcMap;
static std::unordered_map<const GlobalValue *, uint32_t> globId; static std::vector<const GlobalVariable *> globById; static Space globInit;
static std::unordered_map<std::string, Builtin> builtins; static std::unordered_set<std::string> overrideBuiltins;

struct PathEnd { const char *why; };
static State *S; static Frame *F; static DInst *I; // current
static std::vector<State *> work;
static uint64_t localSteps = 0;

static unsigned typeW(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; if (t->isVoidTy()) return 0; return 0; }
static void leaves(Type *t, uint64_t off, std::vector<Leaf> &o) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), o); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, o); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = typeW(vt->getElementType()); uint64_t es = (ew + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) o.push_back({(uint32_t)(off + i * es), (uint16_t)ew}); }
  else if (!t->isVoidTy()) o.push_back({(uint32_t)off, (uint16_t)typeW(t), t->isPointerTy()});
}
static unsigned nslots(Type *t) { std::vector<Leaf> l; leaves(t, 0, l); return l.size(); }
static unsigned slotIndex(Type *t, ArrayRef<unsigned> ix, Type *&sub) {
  unsigned s = 0; sub = t;
  for (unsigned i : ix) {
    if (auto *st = dyn_cast<StructType>(sub)) { for (unsigned k = 0; k < i; k++) s += nslots(st->getElementType(k)); sub = st->getElementType(i); }
    else { auto *at = cast<ArrayType>(sub); s += i * nslots(at->getElementType()); sub = at->getElementType(); }
  }
  return s;
}

static FuncInfo *getFI(const Function *f) { return funcMap[f]; }
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *ga = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
  if (auto *f = dyn_cast<Function>(g)) return (1ULL << 32) + 16ULL * getFI(f)->idx;
  return (uint64_t)globId.at(g) << 32;
}
static u128 constInt(const Constant *c);
static u128 ceVal(const ConstantExpr *ce) {
  switch (ce->getOpcode()) {
  case Instruction::GetElementPtr: {
    auto *g = cast<GEPOperator>(ce); u128 base = constInt(cast<Constant>(g->getPointerOperand())); APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "bad const gep\n"); abort(); }
    return (uint64_t)(base + off.getZExtValue()); }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
    return constInt(ce->getOperand(0)) & maskw(typeW(ce->getType()));
  case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(typeW(ce->getType()));
  case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(typeW(ce->getType()));
  case Instruction::Mul: return (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & maskw(typeW(ce->getType()));
  case Instruction::And: return constInt(ce->getOperand(0)) & constInt(ce->getOperand(1));
  case Instruction::Xor: return constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1));
  case Instruction::Or: return constInt(ce->getOperand(0)) | constInt(ce->getOperand(1));
  case Instruction::LShr: return constInt(ce->getOperand(0)) >> (unsigned)constInt(ce->getOperand(1));
  case Instruction::ICmp: { u128 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; if (p == CmpInst::ICMP_ULT) return a < b; if (p == CmpInst::ICMP_UGT) return a > b; break; }
  default: break;
  }
  std::string s; raw_string_ostream os(s); os << *ce; fprintf(stderr, "unsupported constexpr %s\n", os.str().c_str()); abort();
}
static u128 apint(const APInt &a) { u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v; }
static u128 constInt(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return apint(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return apint(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<GlobalValue>(c)) return addrOf(g);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) return ceVal(ce);
  if (auto *d = dyn_cast<DSOLocalEquivalent>(c)) return addrOf(d->getGlobalValue());
  if (auto *n = dyn_cast<NoCFIValue>(c)) return addrOf(n->getGlobalValue());
  if (isa<BlockAddress>(c)) return 0;
  fprintf(stderr, "unsupported constant kind %d\n", c->getValueID()); abort();
}
static Val cval(u128 v, unsigned w) { v &= maskw(w); if (w <= 64) return cv((uint64_t)v); return Val{0, mkConst(v, w)}; }
static void constVals(const Constant *c, std::vector<Val> &o) {
  Type *t = c->getType();
  if (t->isAggregateType() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Leaf> l; leaves(t, 0, l); for (auto &x : l) o.push_back(cval(0, x.w)); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), o); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), o); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) { (void)ce; }
    fprintf(stderr, "unsupported aggregate constant\n"); abort();
  }
  o.push_back(cval(constInt(c), typeW(t)));
}
static void initMem(const Constant *c, uint8_t *b) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(b, r.data(), r.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(c->getAggregateElement(i), b + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initMem(c->getAggregateElement(i), b + i * es); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = (typeW(vt->getElementType()) + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) initMem(c->getAggregateElement(i), b + i * es); return; }
  u128 v = constInt(c); unsigned n = (typeW(t) + 7) / 8; memcpy(b, &v, n);
}

static std::unordered_set<int> fpPred;
struct Decoder {
  FuncInfo &fi; std::unordered_map<const Value *, int> slot; std::unordered_map<const Constant *, int> cslot; std::unordered_map<const BasicBlock *, uint32_t> bpc;
  std::vector<std::pair<Edge *, const BasicBlock *>> fix;
  Decoder(FuncInfo &f) : fi(f) {}
  int op(const Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
      auto ci = cslot.find(c); if (ci != cslot.end()) return ci->second;
      int base = fi.consts.size(); constVals(c, fi.consts); // consecutive: ~base, ~(base+1).. decreasing
      int r = ~base; cslot[c] = r; return r;
    }
    return ~0; // metadata etc.
  }
  // slots are addressed as: reg s+i for registers, ~(k+i) for constants
  void edge(Edge &e, const BasicBlock *from, const BasicBlock *to) {
    for (auto &phi : to->phis()) { const Value *v = phi.getIncomingValueForBlock(from); unsigned n = nslots(phi.getType()); e.moves.push_back({slot[&phi], op(v), (int)n}); }
    fix.push_back({&e, to});
  }
  void run();
  void call(DInst &d, const CallBase *cb);
};
static inline int sl(int s, int i) { return s >= 0 ? s + i : s - i; }

void Decoder::call(DInst &d, const CallBase *cb) {
  auto *ci = new CallI(); d.op = D_CALL; d.p = ci;
  const Value *cal = cb->getCalledOperand()->stripPointerCasts();
  if (auto *ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
  ci->F = const_cast<Function *>(dyn_cast<Function>(cal));
  if (isa<InlineAsm>(cal)) { auto *ia = cast<InlineAsm>(cal); if (ia->getAsmString().empty() && cb->getType()->isVoidTy()) { d.op = D_NOP; } else d.op = D_UNSUP; return; }
  if (!ci->F) ci->callee = op(cb->getCalledOperand());
  else {
    ci->iid = ci->F->getIntrinsicID(); ci->fi = getFI(ci->F);
    if (ci->iid == Intrinsic::dbg_declare || ci->iid == Intrinsic::dbg_value || ci->iid == Intrinsic::dbg_label || ci->iid == Intrinsic::lifetime_start || ci->iid == Intrinsic::lifetime_end || ci->iid == Intrinsic::assume || ci->iid == Intrinsic::experimental_noalias_scope_decl || ci->iid == Intrinsic::sideeffect || ci->iid == Intrinsic::prefetch || ci->iid == Intrinsic::invariant_start || ci->iid == Intrinsic::invariant_end || ci->iid == Intrinsic::donothing) { if (ci->iid == Intrinsic::invariant_start) {} d.op = D_NOP; if (d.dst >= 0) { } return; }
  }
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    const Value *a = cb->getArgOperand(i); ArgI ai; 
    if (a->getType()->isMetadataTy()) { ai = {~0, 0, 0, 0}; ci->args.push_back(ai); continue; }
    ai.slot = op(a); ai.n = nslots(a->getType()); ai.w = typeW(a->getType()->isVectorTy() ? a->getType()->getScalarType() : a->getType()); ai.byval = cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0;
    ci->args.push_back(ai);
  }
  ci->nfixed = cb->getFunctionType()->getNumParams(); ci->dst = d.dst;
  std::vector<Leaf> l; leaves(cb->getType(), 0, l); ci->nret = l.size(); for (auto &x : l) ci->retw.push_back(x.w); ci->wret = l.empty() ? 0 : l[0].w;
  if (auto *iv = dyn_cast<InvokeInst>(cb)) { ci->invoke = true; edge(ci->normal, cb->getParent(), iv->getNormalDest()); edge(ci->unwind, cb->getParent(), iv->getUnwindDest()); }
}

void Decoder::run() {
  Function &Fn = *fi.F; int nr = 0;
  for (auto &a : Fn.args()) { slot[&a] = nr; fi.argSlots.push_back(nr); nr += nslots(a.getType()); }
  for (auto &bb : Fn) for (auto &in : bb) if (!in.getType()->isVoidTy()) { slot[&in] = nr; unsigned n = nslots(in.getType()); nr += n ? n : 1; }
  fi.nregs = nr;
  uint32_t pc = 0;
  for (auto &bb : Fn) { bpc[&bb] = pc; for (auto &in : bb) if (!isa<PHINode>(in)) pc++; }
  fi.code.reserve(pc);
  for (auto &bb : Fn) for (auto &in : bb) {
    if (isa<PHINode>(in)) continue;
    DInst d; d.op = D_UNSUP; d.src = &in; d.dst = in.getType()->isVoidTy() ? -1 : slot[&in];
    Type *ty = in.getType(); Type *sty = ty->getScalarType();
    auto lanes = [&](Type *t) { return t->isVectorTy() ? cast<FixedVectorType>(t)->getNumElements() : 1u; };
    d.w = typeW(sty); d.n = ty->isVoidTy() ? 1 : (ty->isVectorTy() ? lanes(ty) : 1);
    switch (in.getOpcode()) {
#define B(L, O) case Instruction::L: d.op = D_BIN; d.sub = O; d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); if (d.w == 80) d.op = D_UNSUP; break;
    B(Add, O_ADD) B(Sub, O_SUB) B(Mul, O_MUL) B(UDiv, O_UDIV) B(SDiv, O_SDIV) B(URem, O_UREM) B(SRem, O_SREM) B(And, O_AND) B(Or, O_OR) B(Xor, O_XOR) B(Shl, O_SHL) B(LShr, O_LSHR) B(AShr, O_ASHR) B(FAdd, O_FADD) B(FSub, O_FSUB) B(FMul, O_FMUL) B(FDiv, O_FDIV)
    case Instruction::ICmp: { auto &c = cast<ICmpInst>(in); d.op = D_ICMP; d.sub = c.getPredicate(); d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); d.w = typeW(in.getOperand(0)->getType()->getScalarType()); d.n = lanes(in.getOperand(0)->getType()); break; }
    case Instruction::FCmp: { auto &c = cast<FCmpInst>(in); d.op = D_FCMP; d.sub = c.getPredicate(); d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); d.w = typeW(in.getOperand(0)->getType()->getScalarType()); d.n = lanes(in.getOperand(0)->getType()); if (d.w == 80) d.op = D_UNSUP; break; }
    case Instruction::Select: { d.op = D_SELECT; d.c = op(in.getOperand(0)); d.a = op(in.getOperand(1)); d.b = op(in.getOperand(2)); d.flag = in.getOperand(0)->getType()->isVectorTy(); d.n = nslots(ty); if (ty->isAggregateType()) { auto *v = new std::vector<Leaf>(); leaves(ty, 0, *v); d.p = v; } break; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: d.op = in.getOpcode() == Instruction::ZExt ? D_ZEXT : in.getOpcode() == Instruction::SExt ? D_SEXT : D_TRUNC; d.a = op(in.getOperand(0)); d.w2 = typeW(in.getOperand(0)->getType()->getScalarType()); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned ws = typeW(in.getOperand(0)->getType()); d.a = op(in.getOperand(0)); d.w2 = ws; d.op = d.w == ws ? D_COPY : d.w > ws ? D_ZEXT : D_TRUNC; break; }
    case Instruction::Freeze: d.op = D_COPY; d.a = op(in.getOperand(0)); d.n = nslots(ty); break;
    case Instruction::AddrSpaceCast: d.op = D_COPY; d.a = op(in.getOperand(0)); break;
    case Instruction::BitCast: { Type *st = in.getOperand(0)->getType(); d.a = op(in.getOperand(0)); d.w2 = typeW(st->getScalarType()); d.c = lanes(st); if (d.c == d.n && d.w == d.w2) d.op = D_COPY; else d.op = D_BITCAST; break; }
    case Instruction::FPTrunc: d.op = D_FCAST; d.sub = O_FPTRUNC; goto fc; case Instruction::FPExt: d.op = D_FCAST; d.sub = O_FPEXT; goto fc;
    case Instruction::UIToFP: d.op = D_FCAST; d.sub = O_UITOFP; goto fc; case Instruction::SIToFP: d.op = D_FCAST; d.sub = O_SITOFP; goto fc;
    case Instruction::FPToUI: d.op = D_FCAST; d.sub = O_FPTOUI; goto fc; case Instruction::FPToSI: d.op = D_FCAST; d.sub = O_FPTOSI;
    fc: d.a = op(in.getOperand(0)); d.w2 = typeW(in.getOperand(0)->getType()->getScalarType()); if (d.w == 80 || d.w2 == 80) d.op = D_UNSUP; break;
    case Instruction::FNeg: d.op = D_FNEG; d.a = op(in.getOperand(0)); break;
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(in); auto *gi = new GepI(); gi->coff = 0; d.op = D_GEP; d.p = gi; d.a = op(g.getPointerOperand());
      if (ty->isVectorTy()) { d.op = D_UNSUP; break; }
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *ix = it.getOperand();
        if (auto *st = it.getStructTypeOrNull()) gi->coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(ix)) gi->coff += (uint64_t)(c->getSExtValue() * (int64_t)sz); else gi->idx.emplace_back(op(ix), typeW(ix->getType()), sz); }
      }
      break; }
    case Instruction::Load: { auto *v = new std::vector<Leaf>(); leaves(ty, 0, *v); d.op = D_LOAD; d.a = op(in.getOperand(0)); d.p = v; d.n = v->size(); d.w2 = DL->getTypeStoreSize(ty); break; }
    case Instruction::Store: { auto *v = new std::vector<Leaf>(); leaves(in.getOperand(0)->getType(), 0, *v); d.op = D_STORE; d.b = op(in.getOperand(0)); d.a = op(in.getOperand(1)); d.p = v; d.n = v->size(); d.w2 = DL->getTypeStoreSize(in.getOperand(0)->getType()); break; }
    case Instruction::Alloca: { auto &a = cast<AllocaInst>(in); d.op = D_ALLOCA; d.p = (void *)(uintptr_t)(uint64_t)DL->getTypeAllocSize(a.getAllocatedType()); d.a = op(a.getArraySize()); d.w2 = typeW(a.getArraySize()->getType()); break; }
    case Instruction::Call: case Instruction::Invoke: call(d, cast<CallBase>(&in)); break;
    case Instruction::Br: { auto &b = cast<BranchInst>(in); auto *e = new Edge[2]; d.p = e; if (b.isConditional()) { d.op = D_CBR; d.a = op(b.getCondition()); edge(e[0], &bb, b.getSuccessor(0)); edge(e[1], &bb, b.getSuccessor(1)); } else { d.op = D_BR; edge(e[0], &bb, b.getSuccessor(0)); } break; }
    case Instruction::Switch: { auto &s = cast<SwitchInst>(in); auto *sw = new SwI(); d.op = D_SWITCH; d.p = sw; d.a = op(s.getCondition()); d.w = typeW(s.getCondition()->getType());
      std::unordered_map<const BasicBlock *, int> tg; sw->edges.reserve(s.getNumCases() + 1); sw->edges.emplace_back(); edge(sw->edges[0], &bb, s.getDefaultDest()); tg[s.getDefaultDest()] = 0;
      for (auto &c : s.cases()) { auto *t = c.getCaseSuccessor(); if (!tg.count(t)) { tg[t] = sw->edges.size(); sw->edges.emplace_back(); edge(sw->edges.back(), &bb, t); } sw->cases.push_back({apint(c.getCaseValue()->getValue()), tg[t]}); } break; }
    case Instruction::Ret: { auto &r = cast<ReturnInst>(in); d.op = D_RET; if (r.getReturnValue()) { d.a = op(r.getReturnValue()); d.n = nslots(r.getReturnValue()->getType()); } else d.n = 0; break; }
    case Instruction::Unreachable: d.op = D_UNREACH; break;
    case Instruction::ExtractValue: { auto &x = cast<ExtractValueInst>(in); Type *sub; unsigned s = slotIndex(x.getAggregateOperand()->getType(), x.getIndices(), sub); d.op = D_COPY; d.a = sl(op(x.getAggregateOperand()), s); d.n = nslots(ty); break; }
    case Instruction::InsertValue: { auto &x = cast<InsertValueInst>(in); Type *sub; unsigned s = slotIndex(x.getType(), x.getIndices(), sub); d.op = D_INSERTV; d.a = op(x.getAggregateOperand()); d.b = op(x.getInsertedValueOperand()); d.c = s; d.n = nslots(ty); d.w2 = nslots(sub); break; }
    case Instruction::ExtractElement: d.op = D_EXTEL; d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); d.n = lanes(in.getOperand(0)->getType()); break;
    case Instruction::InsertElement: d.op = D_INSEL; d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); d.c = op(in.getOperand(2)); break;
    case Instruction::ShuffleVector: { auto &s = cast<ShuffleVectorInst>(in); auto *m = new std::vector<int>(); for (int x : s.getShuffleMask()) m->push_back(x); d.op = D_SHUF; d.p = m; d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); d.c = lanes(in.getOperand(0)->getType()); break; }
    case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(in); auto *l = new LpI(); l->cleanup = lp.isCleanup(); for (unsigned i = 0; i < lp.getNumClauses(); i++) { LpI::Cl c; c.filter = lp.isFilter(i); if (!c.filter) c.ti.push_back((uint64_t)constInt(lp.getClause(i))); else { std::vector<Val> v; constVals(lp.getClause(i), v); for (auto &x : v) c.ti.push_back(x.c); } l->cl.push_back(c); } d.op = D_LPAD; d.p = l; break; }
    case Instruction::Resume: d.op = D_RESUME; d.a = op(in.getOperand(0)); break;
    case Instruction::AtomicCmpXchg: d.op = D_CMPX; d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); d.c = op(in.getOperand(2)); d.w = typeW(in.getOperand(1)->getType()); break;
    case Instruction::AtomicRMW: d.op = D_ARMW; d.sub = cast<AtomicRMWInst>(in).getOperation(); d.a = op(in.getOperand(0)); d.b = op(in.getOperand(1)); break;
    case Instruction::Fence: d.op = D_NOP; break;
    default: d.op = D_UNSUP; break;
    }
    fi.code.push_back(d);
  }
  for (auto &f : fix) f.first->pc = bpc[f.second];
  fi.decoded = true;
}

// ---------------------------------------------------------------- reporting
static std::string fnName(const Function *f) { return demangle(f->getName().str()); }
static std::string locOf(const Instruction *in) {
  std::string r; if (!in) return r;
  if (auto &dl = in->getDebugLoc()) { auto *sc = dl->getScope(); std::string fl = sc ? sc->getFilename().str() : ""; auto sp = dl->getInlinedAt(); r = fl + ":" + std::to_string(dl.getLine()); if (sc) if (auto *s = sc->getSubprogram()) r += " (" + demangle(s->getLinkageName().empty() ? s->getName().str() : s->getLinkageName().str()) + ")"; (void)sp; }
  return r;
}
static std::vector<std::string> stackTrace(State &s) {
  std::vector<std::string> r;
  for (int i = (int)s.st.size() - 1; i >= 0; i--) { Frame &f = *s.st[i]; const Instruction *in = f.pc < f.f->code.size() ? f.f->code[f.pc].src : nullptr; r.push_back(fnName(f.f->F) + " @ " + locOf(in)); }
  return r;
}
static void writeSyms(FILE *f, State &s, const Model &m) {
  fprintf(f, "\"syms\":[");
  for (size_t i = 0; i < s.syms.size(); i++) { u128 v = evalExpr(s.syms[i].e, m); fprintf(f, "%s[\"%s\",%u,\"%llx%016llx\"]", i ? "," : "", jesc(s.syms[i].name).c_str(), s.syms[i].e->w, (unsigned long long)(v >> 64), (unsigned long long)v); }
  fprintf(f, "]");
}
static void incomplete(const std::string &why) {
  shm->nIncomplete++;
  static std::unordered_map<std::string, int> seen; if (seen[why]++ < 3) {
    fprintf(stderr, "INCOMPLETE: %s\n", why.c_str()); 
    if (S) for (auto &l : stackTrace(*S)) { fprintf(stderr, "    %s\n", l.c_str()); }
    std::string fn = cfg.out + "/incomplete.txt"; if (FILE *f = fopen(fn.c_str(), "a")) { fprintf(f, "%s\n", why.c_str()); if (S) for (auto &l : stackTrace(*S)) fprintf(f, "    %s\n", l.c_str()); fclose(f); } }
}
static void violation(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  auto tr = stackTrace(s);
  std::string key = kind + "|" + msg; if (kind != "assert") for (size_t i = 0; i < tr.size() && i < 2; i++) key += "|" + tr[i];
  size_t h = std::hash<std::string>()(key); char fn[600]; snprintf(fn, 600, "%s/viol_%016zx.json", cfg.out.c_str(), h);
  lockShm(); bool exists = access(fn, F_OK) == 0;
  if (!exists) {
    char tmp[620]; snprintf(tmp, 620, "%s.tmp", fn);
    FILE *f = fopen(tmp, "w");
    if (f) {
      fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"trace\":[", jesc(kind).c_str(), jesc(msg).c_str());
      for (size_t i = 0; i < tr.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(tr[i]).c_str());
      fprintf(f, "],"); writeSyms(f, s, m); fprintf(f, "}\n"); fclose(f); rename(tmp, fn);
    }
    if (shm->nViol++ == 0) shm->violDeadline = now() + cfg.afterViol;
    fprintf(stderr, "VIOL %s: %s\n", kind.c_str(), msg.c_str()); for (size_t i = 0; i < tr.size() && i < 12; i++) fprintf(stderr, "    %s\n", tr[i].c_str());
  }
  unlockShm();
  if (shm->nViol >= (int)cfg.maxViol) shm->stop = 1;
}
[[noreturn]] static void fault(const std::string &kind, const std::string &msg) { violation(*S, kind, msg, *S->model); throw PathEnd{"violation"}; }
[[noreturn]] static void unsupported(const std::string &m) { incomplete("unsupported: " + m); throw PathEnd{"unsupported"}; }

// ---------------------------------------------------------------- solving
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); } return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<Res, ModelP>, VecHash> qcache;
static std::deque<ModelP> recent;
static void slice(const std::vector<Expr *> &pc, Expr *q, std::vector<Expr *> &out) {
  static std::vector<uint8_t> mark; static std::vector<uint32_t> marked;
  if (mark.size() < gVars.size()) mark.resize(gVars.size() + 1024);
  marked.clear();
  auto add = [&](Expr *e) { for (auto v : e->vars->v) if (!mark[v]) { mark[v] = 1; marked.push_back(v); } };
  add(q);
  std::vector<uint8_t> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { for (auto v : pc[i]->vars->v) if (mark[v]) { in[i] = 1; ch = true; add(pc[i]); break; } } }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  for (auto v : marked) mark[v] = 0;
}
static ModelP merged(const ModelP &base, const Model &m) { auto n = std::make_shared<Model>(*base); for (auto &kv : m.m) n->m[kv.first] = kv.second; return n; }
// is pc && q satisfiable? On Sat the returned model satisfies all of pc && q.
static Res query(State &s, Expr *q, ModelP &out) {
  gSS.queries++;
  if (isFalse(q)) return Res::Unsat;
  if (isTrue(q)) { out = s.model; return Res::Sat; }
  std::vector<Expr *> cs; slice(s.pc, q, cs); cs.push_back(q);
  std::vector<uint32_t> key; key.reserve(cs.size()); for (auto *c : cs) key.push_back(c->id); std::sort(key.begin(), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) { gSS.cacheHits++; if (it->second.first == Res::Sat) out = merged(s.model, *it->second.second); return it->second.first; }
  for (auto &m : recent) {
    bool ok = evalExpr(q, *m) != 0; for (size_t i = 0; ok && i + 1 < cs.size(); i++) if (!evalExpr(cs[i], *m)) ok = false;
    if (ok) { gSS.modelHits++; Model part; for (auto *c : cs) for (auto v : c->vars->v) { auto f = m->m.find(v); part.m[v] = f == m->m.end() ? 0 : f->second; } out = merged(s.model, part); auto pm = std::make_shared<Model>(part); qcache[key] = {Res::Sat, pm}; return Res::Sat; }
  }
  auto m = std::make_shared<Model>(); Res r = solveConj(cs, *m);
  if (r != Res::Unknown) qcache[key] = {r, m};
  if (r == Res::Sat) { out = merged(s.model, *m); recent.push_front(out); if (recent.size() > 12) recent.pop_back(); }
  return r;
}
static void addPC(State &s, Expr *c) {
  if (isTrue(c)) return;
  if (c->op == O_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (c->op == O_XOR && c->w == 1 && isTrue(c->k[0]) && c->k[1]->op == O_OR) { addPC(s, mkNot(c->k[1]->k[0])); addPC(s, mkNot(c->k[1]->k[1])); return; }
  for (size_t i = s.pc.size(); i-- > 0;) if (s.pc[i] == c) return;
  s.pc.push_back(c);
}
static int known(State &s, Expr *c) {
  Expr *n = mkNot(c);
  for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == n) return 0; }
  for (size_t i = s.implied.size(); i-- > 0;) { if (s.implied[i] == c) return 1; if (s.implied[i] == n) return 0; }
  return -1;
}
static State *cloneState(State &s) { State *n = new State(s); n->forks++; shm->forks++; return n; }
static void maybeSplit(bool running);
static uint64_t residentMB() { static int k = 0; static uint64_t v = 0; if ((k++ & 15) == 0) { FILE *f = fopen("/proc/self/statm", "r"); unsigned long a, b; if (f) { if (fscanf(f, "%lu %lu", &a, &b) == 2) v = b * 4096 / 1048576; fclose(f); } } return v; }

// Evaluate a condition, forking a sibling that re-executes the current instruction with the opposite outcome.
static bool decide(Expr *c) {
  if (isConst(c)) return c->c != 0;
  int k = known(*S, c); if (k >= 0) return k;
  bool mv = evalExpr(c, *S->model) != 0; Expr *me = mv ? c : mkNot(c), *other = mv ? mkNot(c) : c;
  ModelP om; Res r = query(*S, other, om);
  if (r == Res::Unsat) { if (me->op == O_EQ) addPC(*S, me); else { if (S->implied.size() > 48) S->implied.erase(S->implied.begin(), S->implied.begin() + 24); S->implied.push_back(me); } return mv; }
  if (r == Res::Unknown) { incomplete("solver gave no answer for a branch condition"); addPC(*S, me); return mv; }
  uint32_t &fc = S->forkCount[I]; 
  if (++fc > cfg.maxForkPerSite) { incomplete("fork limit at one site"); addPC(*S, me); return mv; }
  State *n = cloneState(*S); addPC(*n, other); n->model = om; work.push_back(n); if (cfg.trace) fprintf(stderr, "fork at %s\n", locOf(I->src).c_str());
  F = &S->top();
  addPC(*S, me); maybeSplit(true); return mv;
}
static uint64_t concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  if (isConst(v.e)) return (uint64_t)v.e->c;
  for (size_t i = S->pc.size(); i-- > 0;) { Expr *p = S->pc[i]; if (p->op == O_EQ && p->k[1] == v.e && isConst(p->k[0])) return (uint64_t)p->k[0]->c; }
  u128 x = evalExpr(v.e, *S->model);
  Expr *eq = mkEq(mkConst(x, w), v.e);
  if (S->forkCount[(char *)I + 1]++ > cfg.maxConc) { incomplete("too many values when concretising"); addPC(*S, eq); return (uint64_t)x; }
  decide(eq);
  return (uint64_t)x;
}

// ---------------------------------------------------------------- memory
static uint64_t newObj(uint64_t size, ObjKind k, uint8_t fill) {
  if (size > cfg.allocLimit) { incomplete("allocation larger than the engine limit"); throw PathEnd{"alloc"}; }
  uint32_t id = S->nextId++; Obj *o = new Obj(size, k); memset(o->b, fill, size); o->site = I ? I->src : nullptr; S->heap.set(id, o);
  return (uint64_t)id << 32;
}
static Obj *lookup(uint64_t a) { uint32_t id = a >> 32; return id < HEAP0 ? S->glob.get(id) : S->heap.get(id); }
static Obj *lookupW(uint64_t a) { uint32_t id = a >> 32; return id < HEAP0 ? S->glob.getW(id) : S->heap.getW(id); }
static std::string hex(uint64_t a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
static void checkAccess(uint64_t a, uint64_t n, bool wr) {
  Obj *o = lookup(a);
  if (!o) { if ((a >> 32) == 0) fault("memory", "null or wild pointer access"); fault("memory", "access to freed or invalid memory"); }
  if ((uint32_t)a > o->size || n > o->size - (uint32_t)a) fault("memory", std::string("out-of-bounds ") + (wr ? "write" : "read"));
  if (wr && o->ro) fault("memory", "write to constant memory");
}
// Resolve a possibly symbolic address for an n-byte access: object base address and offset value (32 bit expr or concrete)
static uint64_t resolve(Val av, uint64_t n, bool wr, Expr *&off) {
  off = nullptr;
  if (!av.e) { checkAccess(av.c, n, wr); return av.c; }
  uint64_t mv = (uint64_t)evalExpr(av.e, *S->model);
  checkAccess(mv, n, wr);
  Obj *o = lookup(mv); uint64_t base = mv & ~0xffffffffULL;
  Expr *rel = mkBin(O_SUB, av.e, mkConst(base, 64));
  Expr *inb = mkBin(O_ULE, rel, mkConst(o->size - n, 64));
  decide(inb);
  if (rel->op == O_CONST) return base + (uint64_t)rel->c;
  off = rel;
  return base;
}
static Val readConc(Obj *o, uint32_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!o->s) { concrete: if (n <= 8) { uint64_t v = 0; memcpy(&v, o->b + off, n); return cv(v & mask64(w)); } u128 v = 0; memcpy(&v, o->b + off, n); return cval(v, w); }
  bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { any = true; break; }
  if (!any) goto concrete;
  Expr *e = o->byteE(off + n - 1); for (int i = (int)n - 2; i >= 0; i--) e = mkConcat(e, o->byteE(off + i));
  if (w < n * 8) e = mkExtract(e, 0, w);
  return fromE(e);
}
static void writeConc(Obj *o, uint32_t off, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { memcpy(o->b + off, &v.c, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  Expr *e = v.e; if (w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) o->setE(off + i, mkExtract(e, 8 * i, 8));
}
static unsigned strideOf(Expr *e) { // power of two dividing the value
  unsigned z = 0;
  if (e->op == O_CONST) { while (z < 20 && !((e->c >> z) & 1)) z++; }
  else if (e->op == O_CONCAT && isConst(e->k[1]) && e->k[1]->c == 0) z = e->k[1]->w;
  else if (e->op == O_ZEXT || e->op == O_SEXT) return strideOf(e->k[0]);
  else if (e->op == O_ADD || e->op == O_SUB || e->op == O_ITE) { unsigned a = strideOf(e->k[e->op == O_ITE ? 1 : 0]), b = strideOf(e->k[e->op == O_ITE ? 2 : 1]); return std::min(a, b); }
  else if (e->op == O_MUL && isConst(e->k[0])) { while (z < 20 && !((e->k[0]->c >> z) & 1)) z++; }
  return 1u << std::min(z, 16u);
}
struct OffRange { uint64_t lo, hi, step; };
static bool offRange(Obj *o, Expr *off, unsigned n, OffRange &r) {
  r.step = strideOf(off); r.lo = off->lo; r.hi = std::min<uint64_t>(off->hi, o->size - n);
  r.lo = (r.lo + r.step - 1) / r.step * r.step;
  return r.hi >= r.lo && (r.hi - r.lo) / r.step < cfg.iteLimit;
}
static Expr *iteTree(Expr *off, const std::vector<std::pair<uint64_t, Expr *>> &v, size_t a, size_t b) {
  if (b - a == 1) return v[a].second;
  bool same = true; for (size_t i = a + 1; i < b; i++) if (v[i].second != v[a].second) { same = false; break; }
  if (same) return v[a].second;
  size_t m = (a + b) / 2;
  return mkIte(mkBin(O_ULT, off, mkConst(v[m].first, off->w)), iteTree(off, v, a, m), iteTree(off, v, m, b));
}
// The terms an index depends on, looking through comparisons, selections and linear arithmetic; null if not exactly one.
static bool frontier(Expr *e, Expr *&t, std::unordered_set<Expr *> &seen) {
  if (isConst(e) || !seen.insert(e).second) return true;
  if (seen.size() > 4000) return false;
  bool in = e->op == O_ITE || e->op == O_ULT || e->op == O_ULE || e->op == O_EQ || e->op == O_ZEXT || e->op == O_SEXT || ((e->op == O_ADD || e->op == O_SUB || e->op == O_MUL) && (isConst(e->k[0]) || isConst(e->k[1]) || e->op == O_SUB))
    || (e->op == O_EXTRACT && e->aux == 0) || (e->w == 1 && (e->op == O_AND || e->op == O_OR || e->op == O_XOR)) || e->op == O_SLT || e->op == O_SLE;
  if (in && e->op == O_EXTRACT && e->k[0]->op == O_VAR) in = false;
  if (!in) { if (t && t != e) return false; t = e; return true; }
  for (int i = 0; i < 3; i++) if (e->k[i] && !frontier(e->k[i], t, seen)) return false;
  return true;
}
// A constant table as a piecewise linear function of the one term its index depends on.
static Expr *tableFn(Expr *off, const std::vector<std::pair<uint64_t, Expr *>> &v, unsigned w, uint64_t step) {
  if (w > 64 || v.size() < 3) return nullptr;
  for (auto &x : v) if (!isConst(x.second)) return nullptr;
  Expr *t = nullptr; std::unordered_set<Expr *> seen; if (!frontier(off, t, seen) || !t || t->w > 64 || t->hi - t->lo > 1024) return nullptr;
  struct Seg { uint64_t at, val; int slope; bool open; }; std::vector<Seg> sg;
  uint64_t prev = 0; bool have = false;
  for (uint64_t x = t->lo;; x++) {
    std::unordered_map<Expr *, Expr *> memo; memo[t] = mkConst(x, t->w); Expr *o = substExpr(off, memo); if (!isConst(o)) return nullptr;
    uint64_t ov = (uint64_t)o->c; bool def = ov >= v[0].first && ov <= v.back().first && (ov - v[0].first) % step == 0;
    if (def) {
      uint64_t val = (uint64_t)v[(ov - v[0].first) / step].second->c;
      if (!have) { sg.push_back({x, val, 0, true}); have = true; }
      else { Seg &g = sg.back(); if (g.open) { uint64_t lin = (g.val + (x - g.at)) & mask64(w); if (val == g.val && x > g.at) { g.slope = 0; g.open = false; } else if (val == lin) { g.slope = 1; g.open = false; } else sg.push_back({x, val, 0, true}); }
        else if (val != ((g.val + (g.slope ? x - g.at : 0)) & mask64(w))) sg.push_back({x, val, 0, true}); }
      prev = x;
    }
    if (x == t->hi) break;
  }
  (void)prev; if (sg.empty() || sg.size() > v.size() / 2) return nullptr;
  std::function<Expr *(size_t, size_t)> tree = [&](size_t a, size_t b) -> Expr * {
    if (b - a == 1) { if (!sg[a].slope) return mkConst(sg[a].val, w); Expr *b0 = t->w > w ? mkExtract(t, 0, w) : t->w < w ? mkZext(t, w) : t; return mkBin(O_ADD, mkConst((sg[a].val - sg[a].at) & mask64(w), w), b0); }
    size_t m = (a + b) / 2; return mkIte(mkBin(O_ULT, t, mkConst(sg[m].at, t->w)), tree(a, m), tree(m, b));
  };
  return tree(0, sg.size());
}
static Val loadVal(Val av, unsigned w, bool ptr = false) {
  Expr *off; unsigned n = (w + 7) / 8; uint64_t a = resolve(av, n, false, off);
  Obj *o = lookup(a);
  if (off && ptr && !o->ro) { uint64_t c = concretize(fromE(off), 64); return readConc(lookup(a + c), (uint32_t)c, w); } // links of a data structure: one path per node
  if (!off) return readConc(o, (uint32_t)a, w);
  OffRange r;
  if (!offRange(o, off, n, r)) { uint64_t c = concretize(fromE(off), 64); return readConc(lookup(a + c), (uint32_t)c, w); }
  std::vector<std::pair<uint64_t, Expr *>> v; for (uint64_t x = r.lo; x <= r.hi; x += r.step) v.push_back({x, toE(readConc(o, x, w), w)});
  if (Expr *f = tableFn(off, v, w, r.step)) return fromE(f);
  return fromE(iteTree(off, v, 0, v.size()));
}
static void storeVal(Val av, unsigned w, Val v) {
  Expr *off; unsigned n = (w + 7) / 8; uint64_t a = resolve(av, n, true, off);
  if (off) {
    OffRange r; Obj *o = lookup(a);
    if (!offRange(o, off, n, r) || (r.hi - r.lo) / r.step > 256) { uint64_t c = concretize(fromE(off), 64); writeConc(lookupW(a + c), (uint32_t)c, w, v); return; }
    o = lookupW(a); Expr *ve = toE(v, w); if (w < n * 8) ve = mkZext(ve, n * 8);
    for (uint64_t x = r.lo; x <= r.hi; x += r.step) { Expr *c = mkEq(mkConst(x, off->w), off); for (unsigned i = 0; i < n; i++) o->setE(x + i, mkIte(c, mkExtract(ve, 8 * i, 8), o->byteE(x + i))); }
    return;
  }
  Obj *o = lookupW(a); writeConc(o, (uint32_t)a, w, v);
}
static void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  checkAccess(s, n, false); checkAccess(d, n, true);
  Obj *so = lookup(s); Ref<Obj> keep(so); Obj *o = lookupW(d); so = keep.p; uint32_t so_ = (uint32_t)s, dof = (uint32_t)d;
  if (o == so || (d >> 32) == (s >> 32)) { so = o; }
  memmove(o->b + dof, so->b + so_, n);
  if (so->s) { o->needS(); memmove(o->s + dof, so->s + so_, n * sizeof(Expr *)); }
  else if (o->s) memset(o->s + dof, 0, n * sizeof(Expr *));
}

// ---------------------------------------------------------------- registers
static inline Val get(int s) { return s >= 0 ? F->r[s] : F->f->consts[~s]; }
static inline void setv(int s, Val v) { F->r[s] = v; }
static uint64_t getC(int s, unsigned w) { Val v = get(s); if (!v.e) return v.c; uint64_t c = concretize(v, w); if (s >= 0) F->r[s] = cv(c); return c; }

static Val binVal(Op op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t M = mask64(w), x = a.c, y = b.c;
    switch (op) {
    case O_ADD: return cv((x + y) & M); case O_SUB: return cv((x - y) & M); case O_MUL: return cv((x * y) & M);
    case O_AND: return cv(x & y); case O_OR: return cv(x | y); case O_XOR: return cv(x ^ y);
    case O_SHL: return cv(y >= w ? 0 : (x << y) & M); case O_LSHR: return cv(y >= w ? 0 : x >> y);
    case O_UDIV: return cv(x / y); case O_UREM: return cv(x % y);
    default: { bool ok; u128 r = foldBin(op, w, x, y, ok); return cv((uint64_t)r & M); }
    }
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val icmpVal(unsigned pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y); case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
    case CmpInst::ICMP_SLT: return cv(sx < sy); case CmpInst::ICMP_SLE: return cv(sx <= sy); case CmpInst::ICMP_SGT: return cv(sx > sy); default: return cv(sx >= sy);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_ULT: return fromE(mkBin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(O_ULE, x, y)); case CmpInst::ICMP_UGT: return fromE(mkBin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(O_ULE, y, x));
  case CmpInst::ICMP_SLT: return fromE(mkBin(O_SLT, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(O_SLE, x, y)); case CmpInst::ICMP_SGT: return fromE(mkBin(O_SLT, y, x)); default: return fromE(mkBin(O_SLE, y, x));
  }
}
static Val fcmpVal(unsigned pred, unsigned w, Val a, Val b) {
  Expr *x = toE(a, w), *y = toE(b, w); Expr *uno = mkBin(O_FUNO, x, y), *r = nullptr;
  switch (pred & 7) { // low three bits: 1=eq 2=gt 3=ge 4=lt 5=le 6=ne(one) 7=ord
  case 0: r = mkFalse(); break; case 1: r = mkBin(O_FEQ, x, y); break; case 2: r = mkBin(O_FLT, y, x); break; case 3: r = mkBin(O_FLE, y, x); break;
  case 4: r = mkBin(O_FLT, x, y); break; case 5: r = mkBin(O_FLE, x, y); break; case 6: r = mkOr(mkBin(O_FLT, x, y), mkBin(O_FLT, y, x)); break; case 7: r = mkNot(uno); break;
  }
  if (pred & 8) r = mkOr(uno, r);
  return fromE(r);
}
static Val iteVal(Expr *c, unsigned w, Val a, Val b) { if (isConst(c)) return c->c ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return fromE(mkIte(c, toE(a, w), toE(b, w))); }

// ---------------------------------------------------------------- control
static void jump(Edge &e) {
  if (!e.moves.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto &m : e.moves) for (int i = 0; i < m[2]; i++) tmp.push_back(get(sl(m[1], i)));
    size_t k = 0; for (auto &m : e.moves) for (int i = 0; i < m[2]; i++) F->r[m[0] + i] = tmp[k++];
  }
  F->pc = e.pc;
}
static void pushFrame(FuncInfo *fi, CallI *ci) {
  if (!fi->decoded) { Decoder d(*fi); d.run(); }
  shm->fn[fi->idx < (1u << 17) ? fi->idx : 0] = 1;
  if (S->st.size() > 4000) fault("resource", "unbounded recursion (call depth over 4000)");
  auto nf = std::make_shared<Frame>(); nf->f = fi; nf->r.resize(fi->nregs, cv(0));
  if (ci) {
    for (size_t i = 0; i < ci->args.size(); i++) {
      auto &a = ci->args[i];
      if (i < fi->argSlots.size()) {
        if (a.byval) { uint64_t na = newObj(a.byval, K_STACK, 0); nf->allocas.push_back(na >> 32); copyBytes(na, getC(a.slot, 64), a.byval); nf->r[fi->argSlots[i]] = cv(na); }
        else for (unsigned k = 0; k < a.n; k++) nf->r[fi->argSlots[i] + k] = get(sl(a.slot, k));
      } else for (unsigned k = 0; k < a.n; k++) nf->va.push_back({a.w, get(sl(a.slot, k))});
    }
  }
  S->st.push_back(nf); F = nf.get();
}
static void popFrame() {
  for (auto id : S->top().allocas) S->heap.erase(id);
  S->st.pop_back();
  F = S->st.empty() ? nullptr : &S->top();
}
// continue after a call instruction of the current frame
static void afterCall(CallI &ci) { if (ci.invoke) jump(ci.normal); else F->pc++; }
static inline void ret(CallI &ci, Val v) { if (ci.dst >= 0 && ci.nret) F->r[ci.dst] = v; }

// ---- typeinfo
static std::unordered_map<uint64_t, std::string> tiVtName;
static uint64_t rd64(uint64_t a) { checkAccess(a, 8, false); Val v = readConc(lookup(a), (uint32_t)a, 64); return v.e ? concretize(v, 64) : v.c; }
// find base `dst` within object of type ti at address obj; returns true and address
static int findBase(uint64_t ti, uint64_t obj, uint64_t dst, uint64_t &res, bool haveObj) {
  if (ti == dst) { res = obj; return 1; }
  uint64_t vt = rd64(ti); uint32_t gid = vt >> 32; std::string nm = gid < globById.size() && globById[gid] ? globById[gid]->getName().str() : "";
  if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") return findBase(rd64(ti + 16), obj, dst, res, haveObj);
  if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    uint64_t fl = rd64(ti + 16); unsigned n = fl >> 32;
    for (unsigned i = 0; i < n; i++) {
      uint64_t b = rd64(ti + 24 + 16 * i); int64_t of = (int64_t)rd64(ti + 32 + 16 * i); uint64_t bo = obj;
      if (of & 1) { if (haveObj) { uint64_t vp = rd64(obj); bo = obj + rd64(vp + (of >> 8)); } } else bo = obj + (of >> 8);
      if (findBase(b, bo, dst, res, haveObj)) return 1;
    }
  }
  return 0;
}
static std::vector<uint64_t> selectorTypes;
static uint32_t selectorOf(uint64_t ti) { for (size_t i = 0; i < selectorTypes.size(); i++) if (selectorTypes[i] == ti) return i + 1; selectorTypes.push_back(ti); return selectorTypes.size(); }
static std::string tiName(uint64_t ti) { uint32_t g = ti >> 32; return g < globById.size() && globById[g] ? demangle(globById[g]->getName().str()) : hex(ti); }
// Unwind from the current frame: the top frame's pc is at a call/invoke or resume.
static void unwind(uint64_t exn, bool fromCall) {
  ExnRec &er = S->exns[exn];
  bool first = true;
  while (true) {
    if (S->st.empty()) { S->caught.clear(); if (cfg.uncaughtOk) throw PathEnd{"uncaught"}; throw PathEnd{"uncaught"}; }
    F = &S->top(); DInst &d = F->f->code[F->pc];
    if (d.op == D_CALL && (fromCall || !first) && ((CallI *)d.p)->invoke) {
      CallI &ci = *(CallI *)d.p; 
      DInst &lp = F->f->code[ci.unwind.pc];
      if (lp.op == D_LPAD) {
        LpI &l = *(LpI *)lp.p; int64_t sel = -1; bool enter = false; uint64_t adj = er.obj;
        for (auto &c : l.cl) {
          if (c.filter) { bool ok = false; for (auto t : c.ti) { uint64_t r; if (t == 0 || findBase(er.ti, er.obj, t, r, true)) ok = true; } if (!ok) { sel = 0x7fffffff; enter = true; break; } continue; }
          uint64_t t = c.ti[0]; uint64_t r = er.obj;
          if (t == 0 || findBase(er.ti, er.obj, t, r, true)) { adj = r; sel = selectorOf(t); enter = true; break; }
        }
        if (!enter && l.cleanup) { sel = 0; enter = true; }
        if (enter) {
          er.adj = adj; jump(ci.unwind); F->r[lp.dst] = cv(exn); F->r[lp.dst + 1] = cv((uint32_t)sel); F->pc = ci.unwind.pc + 1; return;
        }
      }
    }
    first = false;
    if (S->st.size() == 1) { std::string n = tiName(er.ti); fault("exception", "uncaught exception of type " + n); }
    popFrame();
  }
}
static void throwByRt(CallI *ci, const char *fn);

// ---------------------------------------------------------------- builtins
static Val arg(CallI &ci, unsigned i) { return get(ci.args[i].slot); }
static uint64_t argC(CallI &ci, unsigned i) { return getC(ci.args[i].slot, ci.args[i].w); }
static std::string cstr(uint64_t a) { std::string r; for (unsigned i = 0; i < 4096; i++) { checkAccess(a + i, 1, false); Val v = readConc(lookup(a + i), (uint32_t)(a + i), 8); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }
static int covIndex(const std::string &l) {
  lockShm(); int i = 0; for (; i < shm->nCov; i++) if (!strncmp(shm->cov[i], l.c_str(), 95)) break;
  if (i == shm->nCov && i < 256) { strncpy(shm->cov[i], l.c_str(), 95); shm->nCov++; }
  unlockShm(); return i;
}
static bool allocCheck(CallI &ci, unsigned ai) { // returns false if a bad_alloc path was started
  Val v = arg(ci, ai);
  if (v.e) {
    bool big = decide(mkBin(O_ULT, mkConst(cfg.symAllocLimit, 64), v.e));
    if (big) { if (cfg.allocViol) fault("memory", "allocation size controlled by input"); return false; }
    argC(ci, ai); return true;
  }
  if (v.c > cfg.allocLimit) return false;
  return true;
}
static void bNew(CallI &ci) { if (!allocCheck(ci, 0)) { throwByRt(&ci, "__csym_throw_bad_alloc"); return; } uint64_t n = argC(ci, 0); ret(ci, cv(newObj(n, K_HEAP, 0xA5))); afterCall(ci); }
static void bNewNT(CallI &ci) { if (!allocCheck(ci, 0)) { ret(ci, cv(0)); afterCall(ci); return; } uint64_t n = argC(ci, 0); ret(ci, cv(newObj(n, K_HEAP, 0xA5))); afterCall(ci); }
static void bCalloc(CallI &ci) { uint64_t n = argC(ci, 0), m = argC(ci, 1); if ((u128)n * m > cfg.allocLimit) ret(ci, cv(0)); else ret(ci, cv(newObj(n * m, K_HEAP, 0))); afterCall(ci); }
static void bMemalign(CallI &ci) { uint64_t n = argC(ci, 1); ret(ci, cv(newObj(n, K_HEAP, 0xA5))); afterCall(ci); }
static void freeAddr(uint64_t a) {
  if (!a) return;
  Obj *o = lookup(a);
  if (!o) fault("memory", "double free or free of invalid pointer");
  if (o->kind != K_HEAP || (uint32_t)a != 0) fault("memory", "free of a non-heap or interior pointer");
  S->heap.erase(a >> 32);
}
static void bFree(CallI &ci) { freeAddr(argC(ci, 0)); ret(ci, cv(0)); afterCall(ci); }
static void bRealloc(CallI &ci) { uint64_t a = argC(ci, 0), n = argC(ci, 1); uint64_t r = newObj(n, K_HEAP, 0xA5); if (a) { Obj *o = lookup(a); if (!o) fault("memory", "realloc of invalid pointer"); copyBytes(r, a, std::min<uint64_t>(n, o->size)); freeAddr(a); } ret(ci, cv(r)); afterCall(ci); }
static void doMemcpy(CallI &ci) { uint64_t n = argC(ci, 2); if (n) { uint64_t d = argC(ci, 0), s = argC(ci, 1); copyBytes(d, s, n); } }
static void bMemcpy(CallI &ci) { doMemcpy(ci); ret(ci, arg(ci, 0)); afterCall(ci); }
static void bMemchk(CallI &ci) { bMemcpy(ci); }
static void doMemset(CallI &ci) {
  uint64_t n = argC(ci, 2); if (!n) return; uint64_t d = argC(ci, 0); checkAccess(d, n, true); Val v = arg(ci, 1); unsigned w = ci.args[1].w;
  Obj *o = lookupW(d); uint32_t of = (uint32_t)d;
  if (!v.e) { memset(o->b + of, (uint8_t)v.c, n); if (o->s) memset(o->s + of, 0, n * sizeof(Expr *)); }
  else { Expr *b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) o->setE(of + i, b); (void)w; }
}
static void bMemset(CallI &ci) { doMemset(ci); ret(ci, arg(ci, 0)); afterCall(ci); }
static Expr *chunkBE(Obj *o, uint32_t off, unsigned n, bool be) { Expr *e = nullptr; for (unsigned i = 0; i < n; i++) { Expr *b = o->byteE(off + (be ? i : n - 1 - i)); e = e ? mkConcat(e, b) : b; } return e; }
static void memcmpCommon(CallI &ci, bool eqOnly) {
  uint64_t n = argC(ci, 2); if (!n) { ret(ci, cv(0)); afterCall(ci); return; }
  uint64_t a = argC(ci, 0), b = argC(ci, 1); checkAccess(a, n, false); checkAccess(b, n, false);
  Obj *x = lookup(a), *y = lookup(b); uint32_t xo = a, yo = b;
  if (!x->s && !y->s) { int r = memcmp(x->b + xo, y->b + yo, n); ret(ci, cv((uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0))); afterCall(ci); return; }
  if (eqOnly) {
    Expr *eq = mkTrue(); for (uint64_t i = 0; i < n; i += 8) { unsigned k = std::min<uint64_t>(8, n - i); eq = mkAnd(eq, mkEq(chunkBE(x, xo + i, k, false), chunkBE(y, yo + i, k, false))); if (isFalse(eq)) break; }
    ret(ci, fromE(mkIte(eq, mkConst(0, 32), mkConst(1, 32)))); afterCall(ci); return;
  }
  Expr *r = mkConst(0, 32); uint64_t nch = (n + 7) / 8;
  for (uint64_t c = nch; c-- > 0;) { unsigned k = std::min<uint64_t>(8, n - c * 8); Expr *p = chunkBE(x, xo + c * 8, k, true), *q = chunkBE(y, yo + c * 8, k, true); r = mkIte(mkEq(p, q), r, mkIte(mkBin(O_ULT, p, q), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
  ret(ci, fromE(r)); afterCall(ci);
}
static void bMemcmp(CallI &ci) { memcmpCommon(ci, false); }
static void bBcmp(CallI &ci) { memcmpCommon(ci, true); }
static void bNop(CallI &ci) { if (ci.nret) ret(ci, cv(0)); afterCall(ci); }
static void bRetArg0(CallI &ci) { ret(ci, arg(ci, 0)); afterCall(ci); }
static void bGuardAcquire(CallI &ci) { uint64_t a = argC(ci, 0); checkAccess(a, 1, true); Val v = readConc(lookup(a), (uint32_t)a, 8); ret(ci, cv(v.e || v.c ? 0 : 1)); afterCall(ci); }
static void bGuardRelease(CallI &ci) { uint64_t a = argC(ci, 0); checkAccess(a, 1, true); writeConc(lookupW(a), (uint32_t)a, 8, cv(1)); afterCall(ci); }
static void bAbort(CallI &ci) { (void)ci; fault("abort", "program calls abort/terminate"); }
static void bExit(CallI &ci) { (void)ci; fault("abort", "program calls exit"); }
static void bPureVirtual(CallI &ci) { (void)ci; fault("abort", "pure virtual call"); }
static void bAllocExn(CallI &ci) { uint64_t n = argC(ci, 0); ret(ci, cv(newObj(n, K_EXN, 0xA5))); afterCall(ci); }
static void bThrow(CallI &ci) { uint64_t o = argC(ci, 0), ti = argC(ci, 1), d = argC(ci, 2); S->exns[o] = ExnRec{o, ti, d, o, 0}; unwind(o, true); }
static void bBeginCatch(CallI &ci) { uint64_t o = argC(ci, 0); auto &r = S->exns[o]; r.handlers++; S->caught.push_back(o); ret(ci, cv(r.adj)); afterCall(ci); }
static void bGetExnPtr(CallI &ci) { uint64_t o = argC(ci, 0); ret(ci, cv(S->exns[o].adj)); afterCall(ci); }
static void bEndCatch(CallI &ci) { if (!S->caught.empty()) S->caught.pop_back(); afterCall(ci); }
static void bRethrow(CallI &ci) { (void)ci; if (S->caught.empty()) fault("abort", "rethrow without exception"); unwind(S->caught.back(), true); }
static void bUnwindResume(CallI &ci) { unwind(argC(ci, 0), true); }
static void bCurrentException(CallI &ci) { // sret exception_ptr
  uint64_t a = argC(ci, 0); checkAccess(a, 8, true); writeConc(lookupW(a), (uint32_t)a, 64, cv(S->caught.empty() ? 0 : S->caught.back())); afterCall(ci); }
static void bRethrowException(CallI &ci) { uint64_t a = argC(ci, 0); checkAccess(a, 8, false); Val v = readConc(lookup(a), (uint32_t)a, 64); unwind(v.c, true); }
static void bUncaught(CallI &ci) { ret(ci, cv(0)); afterCall(ci); }
static void bDynCast(CallI &ci) {
  uint64_t p = argC(ci, 0), dst = argC(ci, 2); if (!p) { ret(ci, cv(0)); afterCall(ci); return; }
  uint64_t vp = rd64(p); int64_t top = (int64_t)rd64(vp - 16); uint64_t ti = rd64(vp - 8), r = 0;
  if (findBase(ti, p + top, dst, r, true)) ret(ci, cv(r)); else ret(ci, cv(0)); afterCall(ci);
}
static Expr *freshVar(const std::string &n, unsigned w) { // reuse the same variable for the k-th creation on any path
  static std::unordered_map<std::string, Expr *> tab; std::string key = n + "#" + std::to_string(S->syms.size()) + ":" + std::to_string(w);
  Expr *&e = tab[key]; if (!e) e = mkVar(key, w); S->syms.push_back({e, n}); return e;
}
static void bSym(CallI &ci) { unsigned w = ci.wret; std::string n = cstr(argC(ci, 0)); Expr *e = freshVar(n, w == 1 ? 1 : w); ret(ci, Val{0, e}); afterCall(ci); }
static void bSymUbits(CallI &ci) { uint64_t n = argC(ci, 0); std::string nm = cstr(argC(ci, 1)); if (n == 0 || n > 64) unsupported("sym_ubits width"); Expr *e = freshVar(nm, n); ret(ci, fromE(mkZext(e, 64))); afterCall(ci); }
static void bSymBool(CallI &ci) { std::string n = cstr(argC(ci, 0)); Expr *e = freshVar(n, 1); ret(ci, fromE(mkZext(e, ci.wret))); afterCall(ci); }
static void bSymBytes(CallI &ci) { uint64_t a = argC(ci, 0), n = argC(ci, 1); std::string nm = cstr(argC(ci, 2)); if (n) { checkAccess(a, n, true); Obj *o = lookupW(a); for (uint64_t i = 0; i < n; i++) o->setE((uint32_t)a + i, freshVar(nm, 8)); } afterCall(ci); }
static void bAssume(CallI &ci) {
  Val v = arg(ci, 0); unsigned w = ci.args[0].w;
  if (!v.e) { if (!v.c) { shm->assumeEnd++; throw PathEnd{"assume"}; } afterCall(ci); return; }
  Expr *c = w == 1 ? v.e : mkNot(mkEq(mkConst(0, w), v.e));
  if (!evalExpr(c, *S->model)) { ModelP m; Res r = query(*S, c, m); if (r == Res::Unsat) { shm->assumeEnd++; throw PathEnd{"assume"}; } if (r == Res::Unknown) { incomplete("solver gave no answer for an assumption"); throw PathEnd{"unknown"}; } S->model = m; }
  addPC(*S, c); afterCall(ci);
}
static void bAssert(CallI &ci) {
  Val v = arg(ci, 0); unsigned w = ci.args[0].w; shm->asserts++;
  if (!v.e) { shm->concreteAsserts++; if (!v.c) { fault("assert", cstr(argC(ci, 1))); } afterCall(ci); return; }
  Expr *c = w == 1 ? v.e : mkNot(mkEq(mkConst(0, w), v.e));
  if (isTrue(c)) { afterCall(ci); return; }
  std::string msg = cstr(argC(ci, 1)); shm->assertQueries++;
  bool mv = evalExpr(c, *S->model) != 0;
  if (!mv) { violation(*S, "assert", msg, *S->model); ModelP m; if (query(*S, c, m) != Res::Sat) throw PathEnd{"violation"}; S->model = m; addPC(*S, c); afterCall(ci); return; }
  ModelP m; Res r = query(*S, mkNot(c), m);
  if (r == Res::Sat) { violation(*S, "assert", msg, *m); addPC(*S, c); }
  else if (r == Res::Unknown) { incomplete("solver gave no answer for assertion: " + msg); addPC(*S, c); }
  afterCall(ci);
}
static void bCover(CallI &ci) { int i = covIndex(cstr(argC(ci, 0))); if (i < 256) shm->covHits[i]++; afterCall(ci); }
static void bConc(CallI &ci) { uint64_t c = argC(ci, 0); ret(ci, cv(c)); afterCall(ci); }
static void bIsSym(CallI &ci) { ret(ci, cv(arg(ci, 0).e ? 1 : 0)); afterCall(ci); }
static void bChoice(CallI &ci) { // sym_choice(n, name): concrete value in [0,n)
  uint64_t n = argC(ci, 0); std::string nm = cstr(argC(ci, 1));
  // fork all values; siblings re-enter with their value fixed via a marker constraint
  Expr *e = nullptr; uint32_t at = S->syms.size(); std::string key = nm + "#" + std::to_string(at) + ":32";
  e = freshVar(nm, 32);
  if (n == 0) throw PathEnd{"choice"};
  for (uint64_t k = 1; k < n; k++) {
    State *o = cloneState(*S); Expr *c = mkEq(mkConst(k, 32), e); auto m = std::make_shared<Model>(*S->model); m->m[e->aux] = k; o->model = m; addPC(*o, c);
    Frame &f = o->top(); if (ci.dst >= 0) f.r[ci.dst] = cv(k);
    Frame *sf = F; State *ss = S; S = o; F = &f; afterCall(ci); S = ss; F = sf; work.push_back(o);
  }
  F = &S->top();
  auto m = std::make_shared<Model>(*S->model); m->m[e->aux] = 0; S->model = m; addPC(*S, mkEq(mkConst(0, 32), e)); ret(ci, cv(0)); afterCall(ci);
}
static void bStop(CallI &ci) { (void)ci; throw PathEnd{"stop"}; }
static void bObserve(CallI &ci) { std::string l = cstr(argC(ci, 0)); S->obs.push_back({l, toE(arg(ci, 1), 64)}); afterCall(ci); }
static void bPrint(CallI &ci) { std::string l = cstr(argC(ci, 0)); Val v = arg(ci, 1); fprintf(stderr, "PRINT %s = %s\n", l.c_str(), v.e ? exprStr(v.e, 8).c_str() : std::to_string(v.c).c_str()); afterCall(ci); }
static void bPrintS(CallI &ci) { fprintf(stderr, "PRINT %s: %s\n", cstr(argC(ci, 0)).c_str(), cstr(argC(ci, 1)).c_str()); afterCall(ci); }
static void bFail(CallI &ci) { fault("assert", cstr(argC(ci, 0))); }
static void bUnsup(CallI &ci) { unsupported(cstr(argC(ci, 0))); }
static void bTypeIdFor(CallI &ci) { ret(ci, cv(selectorOf(argC(ci, 0)))); afterCall(ci); }
static void bAnd(CallI &ci) { ret(ci, binVal(O_AND, ci.wret, arg(ci, 0), arg(ci, 1))); afterCall(ci); }
static void bMax(CallI &ci) { // largest feasible value of a symbolic (bounded search by bisection)
  Val v = arg(ci, 0); if (!v.e) { ret(ci, v); afterCall(ci); return; }
  uint64_t lo = (uint64_t)evalExpr(v.e, *S->model), hi = v.e->hi; unsigned w = v.e->w;
  while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; ModelP m; Res r = query(*S, mkBin(O_ULT, mkConst(mid, w), v.e), m); if (r == Res::Sat) lo = std::max<uint64_t>(mid + 1, (uint64_t)evalExpr(v.e, *m)); else if (r == Res::Unsat) hi = mid; else unsupported("max"); }
  ret(ci, cv(lo)); afterCall(ci);
}
static void bIte(CallI &ci) { Val c = arg(ci, 0); if (!c.e) ret(ci, c.c ? arg(ci, 1) : arg(ci, 2)); else { unsigned w = ci.args[0].w; ret(ci, iteVal(w == 1 ? c.e : mkNot(mkEq(mkConst(0, w), c.e)), 64, arg(ci, 1), arg(ci, 2))); } afterCall(ci); }
template <double (*fn)(double)> static void bFn1(CallI &ci) { Val v = arg(ci, 0); if (v.e) v = cv(concretize(v, 64)); double d; memcpy(&d, &v.c, 8); d = fn(d); uint64_t r; memcpy(&r, &d, 8); ret(ci, cv(r)); afterCall(ci); }
static void bPow(CallI &ci) { Val v = arg(ci, 0), u = arg(ci, 1); if (v.e) v = cv(concretize(v, 64)); if (u.e) u = cv(concretize(u, 64)); double d, e; memcpy(&d, &v.c, 8); memcpy(&e, &u.c, 8); d = pow(d, e); uint64_t r; memcpy(&r, &d, 8); ret(ci, cv(r)); afterCall(ci); }

static void initBuiltins() {
  auto &b = builtins;
  for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) b[n] = bNew;
  for (auto n : {"malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) b[n] = bNewNT;
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) b[n] = bFree;
  b["calloc"] = bCalloc; b["realloc"] = bRealloc; b["aligned_alloc"] = bMemalign; b["memalign"] = bMemalign;
  b["memcpy"] = b["memmove"] = bMemcpy; b["__memcpy_chk"] = b["__memmove_chk"] = bMemchk; b["memset"] = bMemset; b["memcmp"] = bMemcmp; b["bcmp"] = bBcmp;
  b["__cxa_atexit"] = b["__cxa_thread_atexit"] = b["atexit"] = bNop; b["__cxa_guard_acquire"] = bGuardAcquire; b["__cxa_guard_release"] = bGuardRelease; b["__cxa_guard_abort"] = bNop;
  for (auto n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__assert_fail", "__stack_chk_fail", "_ZSt10unexpectedv", "__cxa_call_unexpected", "__cxa_bad_typeid"}) b[n] = bAbort;
  b["exit"] = b["_exit"] = bExit; b["__cxa_pure_virtual"] = b["__cxa_deleted_virtual"] = bPureVirtual;
  b["__cxa_allocate_exception"] = bAllocExn; b["__cxa_free_exception"] = bNop; b["__cxa_throw"] = bThrow; b["__cxa_begin_catch"] = bBeginCatch; b["__cxa_get_exception_ptr"] = bGetExnPtr; b["__cxa_end_catch"] = bEndCatch; b["__cxa_rethrow"] = bRethrow; b["_Unwind_Resume"] = bUnwindResume;
  b["_ZSt17current_exceptionv"] = bCurrentException; b["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = bRethrowException; b["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = bNop; b["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = bNop; b["_ZNSt15__exception_ptr13exception_ptr4swapERS0_"] = nullptr;
  b["_ZSt18uncaught_exceptionv"] = b["_ZSt19uncaught_exceptionsv"] = bUncaught; b["__dynamic_cast"] = bDynCast;
  for (auto n : {"sym_u8", "sym_u16", "sym_u32", "sym_u64"}) b[n] = bSym;
  b["sym_bool"] = bSymBool; b["sym_ubits"] = bSymUbits; b["sym_bytes"] = bSymBytes; b["sym_assume"] = bAssume; b["sym_assert"] = bAssert; b["sym_cover"] = bCover; b["sym_concretize"] = bConc; b["sym_is_symbolic"] = bIsSym; b["sym_choice"] = bChoice; b["sym_stop"] = bStop; b["sym_observe"] = bObserve; b["sym_print"] = bPrint; b["sym_prints"] = bPrintS; b["sym_fail"] = bFail; b["sym_unsupported"] = bUnsup; b["sym_max"] = bMax; b["sym_ite"] = bIte;
  for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "pthread_cond_init", "printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "fputs", "fputc", "__printf_chk", "__fprintf_chk", "perror", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_self", "sched_yield", "usleep", "_ZNSt6thread20hardware_concurrencyEv"}) b[n] = bNop;
  b["ceil"] = bFn1<ceil>; b["floor"] = bFn1<floor>; b["log"] = bFn1<log>; b["log2"] = bFn1<log2>; b["exp"] = bFn1<exp>; b["sqrt"] = bFn1<sqrt>; b["round"] = bFn1<round>; b["pow"] = bPow; b["fabs"] = bFn1<fabs>;
  for (auto n : {"memcpy", "memmove", "memset", "memcmp", "bcmp", "malloc", "free", "calloc", "__clang_call_terminate"}) overrideBuiltins.insert(n);
}
static void throwByRt(CallI *ci, const char *fn) { (void)ci; Function *f = mod->getFunction(fn); if (!f || f->isDeclaration()) unsupported(std::string("missing runtime function ") + fn); static CallI none; pushFrame(getFI(f), nullptr); }

static Val bswapV(Val v, unsigned w) {
  if (!v.e && w <= 64) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((v.c >> (8 * i)) & 255) << (w - 8 - 8 * i); return cv(r); }
  Expr *e = toE(v, w), *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } return fromE(r);
}
static Val ctlzV(Val v, unsigned w) {
  if (!v.e) { unsigned n = 0; for (int i = w - 1; i >= 0 && !((v.c >> i) & 1); i--) n++; return cv(n); }
  Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(v.e, i, 1), mkConst(w - 1 - i, w), r); return fromE(r);
}
static Val cttzV(Val v, unsigned w) {
  if (!v.e) { unsigned n = 0; while (n < w && !((v.c >> n) & 1)) n++; return cv(n); }
  Expr *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(v.e, i, 1), mkConst(i, w), r); return fromE(r);
}
static void intrinsic(CallI &ci) {
  unsigned w = ci.wret; auto L = [&](auto f) { for (unsigned i = 0; i < ci.nret; i++) F->r[ci.dst + i] = f(i); };
  auto A = [&](unsigned k, unsigned i) { return get(sl(ci.args[k].slot, i)); };
  switch (ci.iid) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(ci); break;
  case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(ci); break;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::arithmetic_fence: L([&](unsigned i) { return A(0, i); }); break;
  case Intrinsic::ptrmask: ret(ci, binVal(O_AND, 64, A(0, 0), A(1, 0))); break;
  case Intrinsic::objectsize: ret(ci, cv(~0ULL)); break;
  case Intrinsic::is_constant: ret(ci, cv(0)); break;
  case Intrinsic::stacksave: ret(ci, cv(0)); break;
  case Intrinsic::stackrestore: break;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fault("abort", "trap");
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Val a = A(0, 0), b = A(1, 0); unsigned ww = ci.retw[0]; bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow; bool mul = ci.iid == Intrinsic::umul_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
    if (ww > 64) { // unsigned only, via comparison
      Expr *x = toE(a, ww), *y = toE(b, ww);
      if (ci.iid == Intrinsic::uadd_with_overflow) { Expr *r = mkBin(O_ADD, x, y); F->r[ci.dst] = fromE(r); F->r[ci.dst + 1] = fromE(mkBin(O_ULT, r, x)); break; }
      if (ci.iid == Intrinsic::usub_with_overflow) { F->r[ci.dst] = fromE(mkBin(O_SUB, x, y)); F->r[ci.dst + 1] = fromE(mkBin(O_ULT, x, y)); break; }
      unsupported("wide overflow intrinsic"); }
    unsigned W = mul ? 2 * ww : ww + 1; Expr *x = toE(a, ww), *y = toE(b, ww);
    Op op = mul ? O_MUL : (ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow) ? O_ADD : O_SUB;
    Expr *r = mkBin(op, x, y), *ov;
    if (!sg && op == O_ADD) ov = mkBin(O_ULT, r, x);
    else if (!sg && op == O_SUB) ov = mkBin(O_ULT, x, y);
    else { Expr *X = sg ? mkSext(x, W) : mkZext(x, W), *Y = sg ? mkSext(y, W) : mkZext(y, W); Expr *R = mkBin(op, X, Y); if (!sg && mul) ov = mkNot(mkEq(mkConst(0, ww), mkExtract(R, ww, ww))); else ov = mkNot(mkEq(R, sg ? mkSext(r, W) : mkZext(r, W))); }
    F->r[ci.dst] = fromE(r); F->r[ci.dst + 1] = fromE(ov); break; }
  case Intrinsic::umin: L([&](unsigned i) { Val a = A(0, i), b = A(1, i); return iteVal(toE(icmpVal(CmpInst::ICMP_ULT, w, a, b), 1), w, a, b); }); break;
  case Intrinsic::umax: L([&](unsigned i) { Val a = A(0, i), b = A(1, i); return iteVal(toE(icmpVal(CmpInst::ICMP_UGT, w, a, b), 1), w, a, b); }); break;
  case Intrinsic::smin: L([&](unsigned i) { Val a = A(0, i), b = A(1, i); return iteVal(toE(icmpVal(CmpInst::ICMP_SLT, w, a, b), 1), w, a, b); }); break;
  case Intrinsic::smax: L([&](unsigned i) { Val a = A(0, i), b = A(1, i); return iteVal(toE(icmpVal(CmpInst::ICMP_SGT, w, a, b), 1), w, a, b); }); break;
  case Intrinsic::abs: L([&](unsigned i) { Val a = A(0, i); return iteVal(toE(icmpVal(CmpInst::ICMP_SLT, w, a, cval(0, w)), 1), w, binVal(O_SUB, w, cval(0, w), a), a); }); break;
  case Intrinsic::uadd_sat: L([&](unsigned i) { Val a = A(0, i), b = A(1, i), r = binVal(O_ADD, w, a, b); return iteVal(toE(icmpVal(CmpInst::ICMP_ULT, w, r, a), 1), w, cval(~(u128)0, w), r); }); break;
  case Intrinsic::usub_sat: L([&](unsigned i) { Val a = A(0, i), b = A(1, i); return iteVal(toE(icmpVal(CmpInst::ICMP_ULT, w, a, b), 1), w, cval(0, w), binVal(O_SUB, w, a, b)); }); break;
  case Intrinsic::bswap: L([&](unsigned i) { return bswapV(A(0, i), w); }); break;
  case Intrinsic::ctpop: L([&](unsigned i) { Val a = A(0, i); if (!a.e) return cv(__builtin_popcountll(a.c)); Expr *r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(O_ADD, r, mkZext(mkExtract(a.e, k, 1), w)); return fromE(r); }); break;
  case Intrinsic::ctlz: L([&](unsigned i) { return ctlzV(A(0, i), w); }); break;
  case Intrinsic::cttz: L([&](unsigned i) { return cttzV(A(0, i), w); }); break;
  case Intrinsic::bitreverse: L([&](unsigned i) { Expr *e = toE(A(0, i), w), *r = nullptr; for (unsigned k = 0; k < w; k++) { Expr *b = mkExtract(e, k, 1); r = r ? mkConcat(r, b) : b; } return fromE(r); }); break;
  case Intrinsic::fshl: case Intrinsic::fshr: L([&](unsigned i) {
      Val a = A(0, i), b = A(1, i), s = A(2, i);
      if (s.e) { Expr *sh = mkBin(O_UREM, s.e, mkConst(w, w)); Expr *x = toE(a, w), *y = toE(b, w); Expr *inv = mkBin(O_SUB, mkConst(w, w), sh); Expr *z = mkEq(mkConst(0, w), sh);
        if (ci.iid == Intrinsic::fshl) return fromE(mkIte(z, x, mkBin(O_OR, mkBin(O_SHL, x, sh), mkBin(O_LSHR, y, inv)))); return fromE(mkIte(z, y, mkBin(O_OR, mkBin(O_SHL, x, inv), mkBin(O_LSHR, y, sh)))); }
      unsigned k = s.c % w; if (ci.iid == Intrinsic::fshr) k = (w - k) % w; 
      if (k == 0) return ci.iid == Intrinsic::fshl ? a : b;
      return binVal(O_OR, w, binVal(O_SHL, w, a, cval(k, w)), binVal(O_LSHR, w, b, cval(w - k, w))); }); break;
  case Intrinsic::eh_typeid_for: ret(ci, cv(selectorOf(argC(ci, 0)))); break;
  case Intrinsic::fabs: L([&](unsigned i) { return binVal(O_AND, w, A(0, i), cval(mask64(w) >> 1, w)); }); break;
  case Intrinsic::fmuladd: case Intrinsic::fma: L([&](unsigned i) { return binVal(O_FADD, w, binVal(O_FMUL, w, A(0, i), A(1, i)), A(2, i)); }); break;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::pow: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::log2: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::exp2: case Intrinsic::log10:
    L([&](unsigned i) { Val a = A(0, i); if (a.e || w != 64) unsupported("libm intrinsic of a symbolic value"); double d; memcpy(&d, &a.c, 8);
      switch (ci.iid) { case Intrinsic::floor: d = floor(d); break; case Intrinsic::ceil: d = ceil(d); break; case Intrinsic::sqrt: d = sqrt(d); break; case Intrinsic::round: d = round(d); break; case Intrinsic::trunc: d = trunc(d); break; case Intrinsic::log: d = log(d); break; case Intrinsic::exp: d = exp(d); break; case Intrinsic::log2: d = log2(d); break; case Intrinsic::exp2: d = exp2(d); break; case Intrinsic::log10: d = log10(d); break; case Intrinsic::pow: { Val b = A(1, i); if (b.e) unsupported("pow"); double e; memcpy(&e, &b.c, 8); d = pow(d, e); break; } default: d = rint(d); }
      uint64_t r; memcpy(&r, &d, 8); return cv(r); }); break;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
    Val r = A(0, 0); for (unsigned i = 1; i < ci.args[0].n; i++) { Val x = A(0, i); switch (ci.iid) { case Intrinsic::vector_reduce_add: r = binVal(O_ADD, w, r, x); break; case Intrinsic::vector_reduce_or: r = binVal(O_OR, w, r, x); break; case Intrinsic::vector_reduce_and: r = binVal(O_AND, w, r, x); break; case Intrinsic::vector_reduce_xor: r = binVal(O_XOR, w, r, x); break; case Intrinsic::vector_reduce_umax: r = iteVal(toE(icmpVal(CmpInst::ICMP_UGT, w, r, x), 1), w, r, x); break; case Intrinsic::vector_reduce_umin: r = iteVal(toE(icmpVal(CmpInst::ICMP_ULT, w, r, x), 1), w, r, x); break; default: r = binVal(O_MUL, w, r, x); } }
    ret(ci, r); break; }
  case Intrinsic::vastart: {
    uint64_t ap = argC(ci, 0); auto &va = F->va; uint64_t area = newObj(va.size() * 8 + 8, K_STACK, 0); F->allocas.push_back(area >> 32); Obj *o = lookupW(area);
    for (size_t i = 0; i < va.size(); i++) { Val v = va[i].second; if (v.e && va[i].first < 64) v = fromE(mkZext(v.e, 64)); writeConc(o, i * 8, 64, v); }
    checkAccess(ap, 24, true); Obj *q = lookupW(ap); writeConc(q, (uint32_t)ap, 32, cv(48)); writeConc(q, (uint32_t)ap + 4, 32, cv(304)); writeConc(q, (uint32_t)ap + 8, 64, cv(area)); writeConc(q, (uint32_t)ap + 16, 64, cv(0)); break; }
  case Intrinsic::vaend: break;
  case Intrinsic::vacopy: copyBytes(argC(ci, 0), argC(ci, 1), 24); break;
  default: unsupported("intrinsic " + ci.F->getName().str());
  }
  afterCall(ci);
}

// ---------------------------------------------------------------- one instruction
static void doCall(CallI &ci) {
  Function *fn = ci.F; FuncInfo *fi = ci.fi;
  if (!fn) {
    uint64_t a = getC(ci.callee, 64);
    if ((a >> 32) != 1 || (a & 15) || ((uint32_t)a >> 4) >= funcs.size()) fault("memory", "call through an invalid function pointer");
    fi = funcs[(uint32_t)a >> 4]; fn = fi->F;
    if (fn->isDeclaration() || overrideBuiltins.count(fn->getName().str())) { auto it = builtins.find(fn->getName().str()); if (it == builtins.end()) unsupported("external function " + fn->getName().str()); it->second(ci); return; }
    pushFrame(fi, &ci); return;
  }
  if (!ci.resolved) {
    ci.resolved = true;
    if (!ci.iid && (fn->isDeclaration() || overrideBuiltins.count(fn->getName().str()))) { auto it = builtins.find(fn->getName().str()); if (it != builtins.end()) ci.bi = it->second; }
  }
  if (ci.bi) { ci.bi(ci); return; }
  if (ci.iid) { intrinsic(ci); return; }
  if (fn->isDeclaration()) unsupported("external function " + fn->getName().str() + " " + fnName(fn));
  pushFrame(fi, &ci);
}
static void step() {
  DInst &d = *I;
  switch (d.op) {
  case D_BIN:
    for (unsigned i = 0; i < d.n; i++) {
      Val a = get(sl(d.a, i)), b = get(sl(d.b, i));
      if (d.sub >= O_UDIV && d.sub <= O_SREM) {
        if (!b.e) { if (!b.c) fault("arithmetic", "division by zero"); }
        else { Expr *z = mkEq(mkConst(0, d.w), b.e); if (!isFalse(z)) { bool zero = decide(z); if (zero) fault("arithmetic", "division by zero"); } }
        if (d.sub == O_SDIV || d.sub == O_SREM) {
          u128 mn = (u128)1 << (d.w - 1);
          if (!a.e && !b.e) { if (a.c == (uint64_t)mn && b.c == mask64(d.w)) fault("arithmetic", "signed division overflow"); }
          else { Expr *ov = mkAnd(mkEq(toE(a, d.w), mkConst(mn, d.w)), mkEq(toE(b, d.w), mkConst(~(u128)0, d.w))); if (decide(ov)) fault("arithmetic", "signed division overflow"); }
        }
      }
      F->r[d.dst + i] = binVal((Op)d.sub, d.w, a, b);
    }
    F->pc++; return;
  case D_ICMP: for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = icmpVal(d.sub, d.w, get(sl(d.a, i)), get(sl(d.b, i))); F->pc++; return;
  case D_FCMP: for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = fcmpVal(d.sub, d.w, get(sl(d.a, i)), get(sl(d.b, i))); F->pc++; return;
  case D_SELECT: {
    for (unsigned i = 0; i < d.n; i++) { Val c = get(d.flag ? sl(d.c, i) : d.c); unsigned w = d.p ? (*(std::vector<Leaf> *)d.p)[i].w : d.w; Val a = get(sl(d.a, i)), b = get(sl(d.b, i)); F->r[d.dst + i] = !c.e ? (c.c ? a : b) : iteVal(c.e, w, a, b); }
    F->pc++; return; }
  case D_ZEXT: for (unsigned i = 0; i < d.n; i++) { Val a = get(sl(d.a, i)); F->r[d.dst + i] = a.e || d.w > 64 ? fromE(mkZext(toE(a, d.w2), d.w)) : a; } F->pc++; return;
  case D_SEXT: for (unsigned i = 0; i < d.n; i++) { Val a = get(sl(d.a, i)); F->r[d.dst + i] = a.e || d.w > 64 ? fromE(mkSext(toE(a, d.w2), d.w)) : cv((uint64_t)((int64_t)(a.c << (64 - d.w2)) >> (64 - d.w2)) & mask64(d.w)); } F->pc++; return;
  case D_TRUNC: for (unsigned i = 0; i < d.n; i++) { Val a = get(sl(d.a, i)); F->r[d.dst + i] = a.e ? fromE(mkExtract(a.e, 0, d.w)) : cv(a.c & mask64(d.w)); } F->pc++; return;
  case D_COPY: for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = get(sl(d.a, i)); F->pc++; return;
  case D_BITCAST: {
    unsigned ns = d.c, ws = d.w2; std::vector<Val> out;
    for (unsigned i = 0; i < d.n; i++) {
      unsigned lo = i * d.w, hi = lo + d.w; Expr *e = nullptr;
      for (unsigned s = 0; s < ns; s++) { unsigned sl0 = s * ws, sh = sl0 + ws; unsigned a = std::max(lo, sl0), b = std::min(hi, sh); if (a >= b) continue; Expr *p = mkExtract(toE(get(sl(d.a, s)), ws), a - sl0, b - a); e = e ? mkConcat(p, e) : p; }
      out.push_back(fromE(e));
    }
    for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = out[i];
    F->pc++; return; }
  case D_GEP: {
    GepI &g = *(GepI *)d.p; Val b = get(d.a); uint64_t coff = g.coff; Expr *e = nullptr;
    for (auto &[s, w, sc] : g.idx) {
      Val x = get(s);
      if (!x.e) { int64_t ix = w >= 64 ? (int64_t)x.c : (int64_t)(x.c << (64 - w)) >> (64 - w); coff += (uint64_t)ix * sc; }
      else { Expr *q = mkBin(O_MUL, mkConst(sc, 64), w > 64 ? mkExtract(x.e, 0, 64) : mkSext(x.e, 64)); e = e ? mkBin(O_ADD, e, q) : q; }
    }
    if (!e && !b.e) { F->r[d.dst] = cv(b.c + coff); F->pc++; return; }
    Expr *r = mkBin(O_ADD, mkConst(coff, 64), toE(b, 64)); if (e) r = mkBin(O_ADD, r, e);
    F->r[d.dst] = fromE(r); F->pc++; return; }
  case D_LOAD: {
    auto &lv = *(std::vector<Leaf> *)d.p; Val a = get(d.a);
    if (lv.size() == 1) { Val v = loadVal(a, lv[0].w, lv[0].ptr); F->r[d.dst] = v; }
    else { uint64_t c = getC(d.a, 64); std::vector<Val> t; for (auto &l : lv) t.push_back(loadVal(cv(c + l.off), l.w)); for (unsigned i = 0; i < t.size(); i++) F->r[d.dst + i] = t[i]; }
    F->pc++; return; }
  case D_STORE: {
    auto &lv = *(std::vector<Leaf> *)d.p; Val a = get(d.a);
    if (lv.size() == 1) storeVal(a, lv[0].w, get(d.b));
    else { uint64_t c = getC(d.a, 64); for (unsigned i = 0; i < lv.size(); i++) storeVal(cv(c + lv[i].off), lv[i].w, get(sl(d.b, i))); }
    F->pc++; return; }
  case D_ALLOCA: { uint64_t n = getC(d.a, d.w2); uint64_t a = newObj(n * (uint64_t)(uintptr_t)d.p, K_STACK, 0xA5); F->allocas.push_back(a >> 32); F->r[d.dst] = cv(a); F->pc++; return; }
  case D_CALL: doCall(*(CallI *)d.p); return;
  case D_BR: jump(((Edge *)d.p)[0]); return;
  case D_CBR: { Val c = get(d.a); bool t = c.e ? decide(c.e) : c.c; jump(((Edge *)d.p)[t ? 0 : 1]); return; }
  case D_SWITCH: {
    SwI &sw = *(SwI *)d.p; Val v = get(d.a);
    if (!v.e) { for (auto &c : sw.cases) if ((uint64_t)c.first == v.c) { jump(sw.edges[c.second]); return; } jump(sw.edges[0]); return; }
    u128 mv = evalExpr(v.e, *S->model); int t = 0; for (auto &c : sw.cases) if (c.first == mv) { t = c.second; break; }
    Expr *cond;
    if (t) { cond = mkFalse(); for (auto &c : sw.cases) if (c.second == t) cond = mkOr(cond, mkEq(mkConst(c.first, d.w), v.e)); }
    else { cond = mkTrue(); for (auto &c : sw.cases) if (c.second != 0) cond = mkAnd(cond, mkNot(mkEq(mkConst(c.first, d.w), v.e))); }
    decide(cond); jump(sw.edges[t]); return; }
  case D_RET: {
    Val tmp[64]; unsigned n = d.n; if (n > 64) unsupported("large return aggregate"); for (unsigned i = 0; i < n; i++) tmp[i] = get(sl(d.a, i));
    popFrame(); if (!F) throw PathEnd{"return"};
    CallI &ci = *(CallI *)F->f->code[F->pc].p; if (ci.dst >= 0) for (unsigned i = 0; i < n && i < ci.nret; i++) F->r[ci.dst + i] = tmp[i];
    afterCall(ci); return; }
  case D_UNREACH: fault("abort", "execution reaches an unreachable point (undefined behaviour)");
  case D_INSERTV: { std::vector<Val> t(d.n); for (unsigned i = 0; i < d.n; i++) t[i] = get(sl(d.a, i)); for (unsigned i = 0; i < d.w2; i++) t[d.c + i] = get(sl(d.b, i)); for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = t[i]; F->pc++; return; }
  case D_EXTEL: { uint64_t ix = getC(d.b, 64); F->r[d.dst] = ix < d.n ? get(sl(d.a, ix)) : cv(0); F->pc++; return; }
  case D_INSEL: { uint64_t ix = getC(d.c, 64); std::vector<Val> t(d.n); for (unsigned i = 0; i < d.n; i++) t[i] = get(sl(d.a, i)); if (ix < d.n) t[ix] = get(d.b); for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = t[i]; F->pc++; return; }
  case D_SHUF: { auto &m = *(std::vector<int> *)d.p; std::vector<Val> t; for (int x : m) t.push_back(x < 0 ? cval(0, d.w) : x < d.c ? get(sl(d.a, x)) : get(sl(d.b, x - d.c))); for (unsigned i = 0; i < t.size(); i++) F->r[d.dst + i] = t[i]; F->pc++; return; }
  case D_FCAST: for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = fromE(mkFcast((Op)d.sub, toE(get(sl(d.a, i)), d.w2), d.w)); F->pc++; return;
  case D_FNEG: for (unsigned i = 0; i < d.n; i++) F->r[d.dst + i] = binVal(O_XOR, d.w, get(sl(d.a, i)), cval((u128)1 << (d.w - 1), d.w)); F->pc++; return;
  case D_RESUME: { uint64_t e = getC(d.a, 64); unwind(e, false); return; }
  case D_CMPX: { Val o = loadVal(get(d.a), d.w), c = get(d.b); Val eq = icmpVal(CmpInst::ICMP_EQ, d.w, o, c); bool t = eq.e ? decide(eq.e) : eq.c; if (t) storeVal(get(d.a), d.w, get(d.c)); F->r[d.dst] = o; F->r[d.dst + 1] = cv(t); F->pc++; return; }
  case D_ARMW: { Val o = loadVal(get(d.a), d.w), v = get(d.b), r;
    switch (d.sub) { case AtomicRMWInst::Add: r = binVal(O_ADD, d.w, o, v); break; case AtomicRMWInst::Sub: r = binVal(O_SUB, d.w, o, v); break; case AtomicRMWInst::And: r = binVal(O_AND, d.w, o, v); break; case AtomicRMWInst::Or: r = binVal(O_OR, d.w, o, v); break; case AtomicRMWInst::Xor: r = binVal(O_XOR, d.w, o, v); break; case AtomicRMWInst::Xchg: r = v; break; default: unsupported("atomicrmw kind"); }
    storeVal(get(d.a), d.w, r); F->r[d.dst] = o; F->pc++; return; }
  case D_NOP: if (d.dst >= 0) F->r[d.dst] = cv(0); F->pc++; return;
  case D_LPAD: F->pc++; return;
  default: { std::string s; raw_string_ostream os(s); os << *d.src; unsupported("instruction " + os.str()); }
  }
}

// ---------------------------------------------------------------- exploration
static std::vector<pid_t> kids; static bool isRoot = true;
static void flushStats() {
  shm->steps += localSteps; localSteps = 0; shm->queries += gSS.queries; shm->z3calls += gSS.z3calls; shm->cacheHits += gSS.cacheHits; shm->modelHits += gSS.modelHits; shm->external += gSS.external; shm->unknown += gSS.unknown; shm->sat += gSS.sat; shm->unsat += gSS.unsat; shm->solverUs += (uint64_t)(gSS.time * 1e6);
  uint64_t mq = (uint64_t)(gSS.maxTime * 1e6); uint64_t cur = shm->maxQueryUs; while (mq > cur && !shm->maxQueryUs.compare_exchange_weak(cur, mq)) {}
  gSS = SolverStats();
}
static void samplePath(State &s, const char *why) {
  static uint64_t n = 0; n++;
  if (n > 4 && (n & (n - 1))) return; // 1,2,3,4,8,16,...
  if (shm->nSamples >= (int)cfg.samples) return;
  int k = shm->nSamples++; if (k >= (int)cfg.samples) return;
  char fn[600]; snprintf(fn, 600, "%s/path_%03d.json", cfg.out.c_str(), k); FILE *f = fopen(fn, "w"); if (!f) return;
  fprintf(f, "{\"end\":\"%s\",\"obs\":[", why); for (size_t i = 0; i < s.obs.size(); i++) fprintf(f, "%s[\"%s\",\"%llu\"]", i ? "," : "", jesc(s.obs[i].label).c_str(), (unsigned long long)evalExpr(s.obs[i].e, *s.model));
  fprintf(f, "],"); writeSyms(f, s, *s.model); fprintf(f, "}\n"); fclose(f);
}
static void maybeSplit(bool running) {
  if (work.size() + running < 2 || cfg.workers <= 1) return;
  static double last = 0;
  int a = shm->active; if (a >= (int)cfg.workers) return;
  double t = now(); if (t - last < 0.05) return; last = t;
  if (!shm->active.compare_exchange_strong(a, a + 1)) return;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { shm->active--; return; }
  size_t half = (work.size() + running) / 2;
  if (p == 0) { // child takes the older half
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    isRoot = false; kids.clear(); gSS = SolverStats(); localSteps = 0; shm->processes++; S = nullptr;
    std::vector<State *> mine(work.begin(), work.begin() + half); work.swap(mine);
    throw 42;
  }
  kids.push_back(p); for (size_t i = 0; i < half; i++) delete work[i]; work.erase(work.begin(), work.begin() + half);
}
static void runState() {
  try {
    F = &S->top();
    while (true) {
      I = &F->f->code[F->pc];
      step();
      if ((++localSteps & 0xfff) == 0) {
        S->steps += 0x1000; if (S->steps > cfg.maxSteps) { incomplete("instruction budget of one path exhausted"); throw PathEnd{"steps"}; }
        if (now() - tStart > cfg.maxTime) { if (!shm->stop) incomplete("time budget exhausted"); shm->stop = 1; throw PathEnd{"time"}; }
        if (shm->nViol > 0 && now() > shm->violDeadline) { shm->stop = 1; shm->stoppedEarly = 1; }
        if (shm->stop) throw PathEnd{"stopped"};
        if (residentMB() > cfg.maxMemMB) { incomplete("memory budget exhausted"); shm->stop = 1; throw PathEnd{"memory"}; }
      }
    }
  } catch (PathEnd &e) {
    std::string w = e.why;
    if (w == "return" || w == "stop" || w == "uncaught") { shm->paths++; samplePath(*S, e.why); }
    else if (w == "violation") shm->paths++;
    else if (w != "assume") shm->killed++;
    delete S; S = nullptr; F = nullptr; I = nullptr;
  }
}
static void explore() {
  while (true) {
    try {
      while (!work.empty() && !shm->stop) {
        maybeSplit(false);
        if (work.empty()) break;
        S = work.back(); work.pop_back(); runState();
        if (shm->nViol > 0 && now() > shm->violDeadline) { shm->stop = 1; shm->stoppedEarly = 1; }
        if (now() - tStart > cfg.maxTime && !work.empty()) { if (!shm->stop) incomplete("time budget exhausted"); shm->stop = 1; }
      }
      break;
    } catch (int) { continue; }
  }
  flushStats(); shm->active--;
  for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { shm->nIncomplete++; fprintf(stderr, "worker died, status %d\n", st); FILE *f = fopen((cfg.out + "/incomplete.txt").c_str(), "a"); if (f) { fprintf(f, "worker died, status %d\n", st); fclose(f); } } }
  if (!isRoot) _exit(0);
}

int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1UL << 30)) { rl.rlim_cur = std::min<rlim_t>(1UL << 30, rl.rlim_max); if (!setrlimit(RLIMIT_STACK, &rl) && !getenv("CSYM_RE")) { setenv("CSYM_RE", "1", 1); execv("/proc/self/exe", argv); } }
  std::string file, entry; std::vector<std::string> skipCtors;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") cfg.out = nx(); else if (a == "--workers") cfg.workers = stoi(nx()); else if (a == "--max-time") cfg.maxTime = stod(nx());
    else if (a == "--max-steps") cfg.maxSteps = stoull(nx()); else if (a == "--trace") cfg.trace = true; else if (a == "--verbose") { cfg.verbose = true; gSC.verbose = true; }
    else if (a == "--sym-alloc-limit") cfg.symAllocLimit = stoull(nx()); else if (a == "--alloc-viol") cfg.allocViol = true; else if (a == "--samples") cfg.samples = stoi(nx()); else if (a == "--dump-queries") gSC.dumpDir = nx(); else if (a == "--dump-time") gSC.dumpT = stod(nx());
    else if (a == "--ext-timeout") gSC.extTimeout = stoi(nx()); else if (a == "--ite-limit") cfg.iteLimit = stoi(nx()); else if (a == "--after-viol") cfg.afterViol = stod(nx()); else if (a == "--max-mem") cfg.maxMemMB = stoull(nx()); else if (a == "--rlimit1") gSC.rlimit1 = stoul(nx()); else if (a == "--rlimit2") gSC.rlimit2 = stoul(nx()); else if (a == "--max-conc") cfg.maxConc = stoul(nx());
    else if (a[0] != '-') file = a; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  tStart = now(); mkdir(cfg.out.c_str(), 0777);
  shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shm->active = 1;
  SMDiagnostic err; mod = parseIRFile(file, err, llctx); if (!mod) { err.print("csym", errs()); return 2; }
  DL = &mod->getDataLayout(); initBuiltins();
  for (auto &f : *mod) { auto *fi = new FuncInfo(); fi->F = &f; fi->idx = funcs.size(); funcs.push_back(fi); funcMap[&f] = fi; }
  globById.resize(2, nullptr);
  for (auto &g : mod->globals()) { globId[&g] = globById.size(); globById.push_back(&g); }
  if (globById.size() >= HEAP0) { fprintf(stderr, "too many globals\n"); return 2; }
  for (size_t i = 2; i < globById.size(); i++) {
    auto *g = globById[i]; uint64_t sz = DL->getTypeAllocSize(g->getValueType()); bool ext = !g->hasInitializer(); if (ext && sz < 256) sz = 256;
    Obj *o = new Obj(sz, K_GLOBAL); memset(o->b, 0, sz); if (!ext) initMem(g->getInitializer(), o->b); o->ro = g->isConstant() && !ext; globInit.set(i, o);
  }
  Function *ef = mod->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  State *s0 = new State(); s0->glob = globInit; s0->model = std::make_shared<Model>();
  // static constructors, concretely and in order
  unsigned ctorSkipped = 0;
  if (auto *gc = mod->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function *>> cs; for (auto &o : ca->operands()) { auto *st = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) {
      S = new State(*s0); int inc0 = shm->nIncomplete; bool ok = false; FILE *se = nullptr; (void)se;
      try { pushFrame(getFI(c.second), nullptr); F = &S->top(); while (true) { I = &F->f->code[F->pc]; step(); } } catch (PathEnd &e) { ok = !strcmp(e.why, "return") && work.empty(); }
      if (ok) { delete s0; s0 = S; } else { shm->nIncomplete = inc0; ctorSkipped++; fprintf(stderr, "static constructor skipped: %s\n", fnName(c.second).c_str()); }
    }
  }
  unlink((cfg.out + "/incomplete.txt").c_str());
  S = s0; I = nullptr; pushFrame(getFI(ef), nullptr);
  work.push_back(S); S = nullptr;
  explore();
  double wall = now() - tStart;
  FILE *f = fopen((cfg.out + "/result.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"violations\":%d,\"incomplete\":%d,\"paths\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"solver_calls\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"external_calls\":%llu,\"unknown\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,\"concrete_asserts\":%llu,\"processes\":%llu,\"killed\":%llu,\"assume_ended\":%llu,\"ctors_skipped\":%u,\"stopped_early\":%llu,\"wall_s\":%.2f,",
    entry.c_str(), (int)shm->nViol, (int)shm->nIncomplete, (unsigned long long)shm->paths, (unsigned long long)shm->steps, (unsigned long long)shm->forks, (unsigned long long)shm->queries, (unsigned long long)shm->z3calls, (unsigned long long)shm->cacheHits, (unsigned long long)shm->modelHits, (unsigned long long)shm->external, (unsigned long long)shm->unknown, (unsigned long long)shm->sat, (unsigned long long)shm->unsat, shm->solverUs / 1e6, shm->maxQueryUs / 1e6, (unsigned long long)shm->asserts, (unsigned long long)shm->assertQueries, (unsigned long long)shm->concreteAsserts, (unsigned long long)shm->processes + 1, (unsigned long long)shm->killed, (unsigned long long)shm->assumeEnd, ctorSkipped, (unsigned long long)shm->stoppedEarly, wall);
  fprintf(f, "\"covers\":{"); for (int i = 0; i < shm->nCov; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(shm->cov[i]).c_str(), (unsigned long long)shm->covHits[i]);
  fprintf(f, "},\"functions\":["); bool first = true; for (size_t i = 0; i < funcs.size() && i < (1u << 17); i++) if (shm->fn[i]) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(fnName(funcs[i]->F)).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  fprintf(stderr, "done: %d violations, %d incomplete, %llu paths, %llu instrs, %llu queries (%llu solver calls, %.1fs), wall %.1fs\n", (int)shm->nViol, (int)shm->nIncomplete, (unsigned long long)shm->paths, (unsigned long long)shm->steps, (unsigned long long)shm->queries, (unsigned long long)shm->z3calls, shm->solverUs / 1e6, wall);
  return shm->nViol ? 1 : shm->nIncomplete ? 2 : 0;
}
