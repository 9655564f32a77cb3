// vsx: a symbolic executor for LLVM 18 bitcode (C++ programs), deciding assertions with Z3.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include "expr.h"
#include <map>
#include <set>
#include <deque>
#include <unordered_set>
#include <functional>
#include <chrono>
#include <cstdarg>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

static ExprPool P;

struct Val { Expr* e = nullptr; u64 c = 0; Val() {} Val(u64 x) : c(x) {} static Val E(Expr* x) { Val v; if (x->op == E_CONST && x->w <= 64) v.c = (u64)x->v; else v.e = x; return v; } bool conc() const { return !e; } };
static inline Expr* mk(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static inline u128 cval(const Val& v) { return v.e ? v.e->v : (u128)v.c; }          // value of constant (any width)
static inline bool isConst(const Val& v) { return !v.e || v.e->op == E_CONST; }

// ------------------------------------------------------------------ memory
enum Kind : u8 { K_GLOBAL, K_CONST, K_STACK, K_NEW, K_NEWARR, K_MALLOC, K_EXN, K_FREED };
static const char* kindName[] = {"global", "constant", "stack", "new", "new[]", "malloc", "exception", "freed"};
struct SymB { Expr* e; u8 i; };
struct Obj {
  u32 refs = 1; u32 size; Kind kind; Kind was; u8* data; u8* st; SymB* sym = nullptr;  // st: 0 concrete 1 symbolic 2 undefined
  Obj(u32 n, Kind k, bool undef) : size(n), kind(k), was(k) { data = (u8*)calloc(1, n + 8); st = (u8*)malloc(n + 8); memset(st, undef ? 2 : 0, n + 8); }
  Obj(const Obj& o) : size(o.size), kind(o.kind), was(o.was) { data = (u8*)malloc(size + 8); st = (u8*)malloc(size + 8); memcpy(data, o.data, size + 8); memcpy(st, o.st, size + 8);
    if (o.sym) { sym = (SymB*)malloc(sizeof(SymB) * size); memcpy(sym, o.sym, sizeof(SymB) * size); } }
  ~Obj() { free(data); free(st); free(sym); } };
struct OR { Obj* p; OR(Obj* x = nullptr) : p(x) {} OR(const OR& o) : p(o.p) { if (p) ++p->refs; } OR(OR&& o) noexcept : p(o.p) { o.p = nullptr; }
  OR& operator=(OR o) noexcept { std::swap(p, o.p); return *this; } ~OR() { if (p && --p->refs == 0) delete p; } };
static const int SLOT = 20; static const u64 BASE = 0x1000; static const u64 FNBASE = 0x7F0000000000ull;
static const u64 MAXALLOC = 0xE0000;

// ------------------------------------------------------------------ compiled code
struct Leaf { u32 off; u16 w; };
struct Func;
struct BB;
typedef i64 Opnd; // >=0 register slot, <0 constant pool index ~x
struct Inst {
  unsigned op; unsigned pred = 0; u16 w = 0, w2 = 0; u32 n = 1; int dest = -1; u32 nd = 0; u32 loc = 0;
  std::vector<Opnd> o; std::vector<u16> ow; std::vector<Leaf> lv; std::vector<std::pair<int, i64>> gs; i64 goff = 0;
  std::vector<u64> cases; std::vector<int> tg; Func* callee = nullptr; int bi = -1; bool invoke = false; bool indirect = false; bool merge = false; char half = 0;
  std::vector<std::pair<int, u32>> byval; u32 nfixed = 0; const Instruction* I = nullptr; };
struct Phi { int dest; u32 n; std::vector<int> pred; std::vector<Opnd> o; };
struct BB { std::vector<Phi> phis; std::vector<Inst> in; };
struct Func { Function* F; u64 addr; bool compiled = false; std::vector<BB> bbs; u32 nregs = 0, nargs = 0; std::string name; bool vararg = false; int bi = -1; };

struct Frame { Func* f; int bb, ip; u32 base; std::vector<u32> allocas; std::vector<Val> va; std::vector<u16> vaw; };
struct Exn { u64 obj; u64 ti; u64 adj; };
struct Obs { Val v; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; std::vector<OR> mem; std::vector<Expr*> pc; std::shared_ptr<Model> model;
  std::vector<std::pair<u32, u32>> syms; // (sym index, name index)
  u32 nsym = 0, nundef = 0; std::vector<Obs> obs; std::vector<Exn> exns; u64 pendObj = 0; u32 pendSel = 0; i64 heapLive = 0; u64 instrs = 0; u32 entry = 0; bool expectAbort = false; u32 depth = 0; bool opaque = false; u32 concForks = 0; const Inst* concAt = nullptr; u32 nassert=0; };

struct Viol { std::string kind, msg, where; std::string inputs; };
struct TI { std::string name; GlobalVariable* gv; std::vector<std::tuple<u64, i64, int>> bases; bool isClass = false; };

struct Opts { std::string entry = "harness"; int jobs = 1; u64 maxInstr = 30000000; double timeout = 600; int qtimeout = 60; int maxViol = 8; std::string out; std::map<std::string, i64> params; bool dump = false; std::string passes; std::string repo = "/repo/"; int maxTests = 40; bool trace = false; u64 seed = 1; unsigned rlimit = 20000000, rlimit1 = 20000; };
static Opts opt;

struct Engine {
  Module* M; const DataLayout* DL; std::unordered_map<const Function*, Func*> fmap; std::unordered_map<u64, Func*> faddr; std::unordered_map<const GlobalValue*, u64> gaddr;
  std::vector<Val> pool; std::vector<std::pair<std::string, std::string>> locs; // unused
  std::vector<const DILocation*> locList; std::unordered_map<const DILocation*, u32> locIx; std::vector<u8> locHit; std::vector<std::string> names; std::unordered_map<std::string, u32> nameIx;
  std::vector<std::string> globNames; std::deque<State*> work; std::map<u64, TI> tis;
  std::vector<Func*> entries; std::set<std::string> reached, unsupported, notes; std::vector<Viol> viols; std::set<std::string> violKeys; std::map<std::string, std::pair<u64, u64>> checks; // msg -> (evaluated, symbolic queries)
  u64 nPaths = 0, nForks = 0, nQueries = 0, nCacheHits = 0, nInstr = 0, nUnsat = 0, nSat = 0, nUnknown = 0, nAsserts = 0, nAssertSym = 0, nInfeas = 0, nErrPaths = 0, nExternal = 0, nSecond = 0; double solverTime = 0; bool incomplete = false; std::vector<std::string> tests; double t0; u64 peakForkDepth = 0;
  std::vector<std::string> samples; u64 rng = 88172645463325252ull;

  u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  u32 nameId(const std::string& s) { auto it = nameIx.find(s); if (it != nameIx.end()) return it->second; names.push_back(s); return nameIx[s] = names.size() - 1; }

  // ---------------- types
  void leaves(Type* T, u64 off, std::vector<Leaf>& r) {
    if (T->isIntegerTy()) r.push_back({(u32)off, (u16)T->getIntegerBitWidth()}); else if (T->isPointerTy()) r.push_back({(u32)off, 64});
    else if (T->isFloatTy()) r.push_back({(u32)off, 32}); else if (T->isDoubleTy()) r.push_back({(u32)off, 64}); else if (T->isX86_FP80Ty()) r.push_back({(u32)off, 80});
    else if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) leaves(S->getElementType(i), off + L->getElementOffset(i), r); }
    else if (auto* A = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); ++i) leaves(A->getElementType(), off + i * sz, r); }
    else if (auto* V = dyn_cast<FixedVectorType>(T)) { u64 sz = DL->getTypeStoreSize(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); ++i) leaves(V->getElementType(), off + i * sz, r); }
    else if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) {} else { fail("type"); } }
  u32 nleaves(Type* T) { std::vector<Leaf> v; leaves(T, 0, v); return v.size(); }
  unsigned scalarW(Type* T) { if (auto* V = dyn_cast<VectorType>(T)) T = V->getElementType(); if (T->isPointerTy()) return 64; if (T->isX86_FP80Ty()) return 80; return T->getPrimitiveSizeInBits(); }
  [[noreturn]] void fail(const std::string& s) { fprintf(stderr, "vsx: fatal: %s\n", s.c_str()); exit(3); }

  // ---------------- constants
  void constVals(Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { std::vector<Leaf> l; leaves(T, 0, l); for (auto& x : l) out.push_back(x.w <= 64 ? Val(0) : Val::E(P.cst(0, x.w))); return; }
    if (auto* I = dyn_cast<ConstantInt>(C)) { APInt a = I->getValue(); if (a.getBitWidth() <= 64) out.push_back(Val(a.getZExtValue())); else { u128 v = a.extractBitsAsZExtValue(64, 0) | ((u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64); out.push_back(Val::E(P.cst(v, a.getBitWidth()))); } return; }
    if (auto* F = dyn_cast<ConstantFP>(C)) { APInt a = F->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) out.push_back(Val(a.getZExtValue())); else { u128 v = a.extractBitsAsZExtValue(64, 0) | ((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64); out.push_back(Val::E(P.cst(v, a.getBitWidth()))); } return; }
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); ++i) constVals(D->getElementAsConstant(i), out); return; }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) { for (auto& o : C->operands()) constVals(cast<Constant>(o), out); return; }
    if (auto* G = dyn_cast<GlobalValue>(C)) { out.push_back(Val(addrOf(G))); return; }
    if (auto* E = dyn_cast<ConstantExpr>(C)) { out.push_back(Val(constExpr(E))); return; }
    if (auto* B = dyn_cast<DSOLocalEquivalent>(C)) { out.push_back(Val(addrOf(B->getGlobalValue()))); return; }
    if (isa<BlockAddress>(C)) { out.push_back(Val(0)); return; }
    std::string s; raw_string_ostream os(s); C->print(os); fail("constant " + os.str()); }
  u64 cv1(Constant* C) { std::vector<Val> v; constVals(C, v); return v.size() ? (u64)cval(v[0]) : 0; }
  u64 constExpr(ConstantExpr* E) {
    switch (E->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) fail("const gep"); return cv1(E->getOperand(0)) + off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return cv1(E->getOperand(0));
      case Instruction::Trunc: return cv1(E->getOperand(0)) & mask64(E->getType()->getIntegerBitWidth());
      case Instruction::Add: return cv1(E->getOperand(0)) + cv1(E->getOperand(1)); case Instruction::Sub: return cv1(E->getOperand(0)) - cv1(E->getOperand(1));
      case Instruction::And: return cv1(E->getOperand(0)) & cv1(E->getOperand(1)); case Instruction::Shl: return cv1(E->getOperand(0)) << cv1(E->getOperand(1));
      case Instruction::ICmp: { u64 a = cv1(E->getOperand(0)), b = cv1(E->getOperand(1)); switch (E->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: fail("const icmp"); } }
      default: { std::string s; raw_string_ostream os(s); E->print(os); fail("constant expression " + os.str()); } } }
  u64 addrOf(GlobalValue* G) {
    if (auto* A = dyn_cast<GlobalAlias>(G)) return cv1(A->getAliasee());
    if (auto* F = dyn_cast<Function>(G)) return getFunc(F)->addr;
    auto it = gaddr.find(G); if (it == gaddr.end()) fail("global " + G->getName().str()); return it->second; }
  Func* getFunc(Function* F) { auto it = fmap.find(F); if (it != fmap.end()) return it->second; auto* f = new Func(); f->F = F; f->name = F->getName().str(); f->addr = FNBASE + fmap.size() * 16; f->vararg = F->isVarArg(); fmap[F] = f; faddr[f->addr] = f; f->bi = builtinIndex(f->name, F); return f; }

  // ---------------- builtins
  std::vector<std::string> biNames; std::unordered_map<std::string, int> biMap;
  enum BI { B_NONE = -1, B_SYM = 0, B_ASSUME, B_CHECK, B_REACH, B_OBSERVE, B_HEAP, B_ABORTOK, B_PARAM, B_CONC, B_ALLOC, B_FREE, B_RAISE, B_ADJ, B_DYNCAST, B_MEMCPY, B_MEMSET, B_ABORT, B_FAILMSG, B_NOP, B_UNDEF, B_ASSERTFAIL, B_FMTFP, B_OPAQUE, B_INT2CHAR, B_ALLOCSZ, B_FLOATFN, B_EXIT, B_ISSYM, B_INTRIN, B_TERMINATE, B_MEMCMP, B_ISCONC, B_UNREACH };
  int builtinIndex(const std::string& n, Function* F) {
    static const std::map<std::string, int> m = {
      {"vs_sym", B_SYM}, {"vs_assume", B_ASSUME}, {"vs_check", B_CHECK}, {"vs_reach", B_REACH}, {"vs_observe", B_OBSERVE}, {"vs_heap_live", B_HEAP}, {"vs_expect_abort", B_ABORTOK}, {"vs_param", B_PARAM}, {"vs_concrete", B_CONC},
      {"vs_alloc", B_ALLOC}, {"vs_free", B_FREE}, {"vs_raise", B_RAISE}, {"vs_exn_adjusted", B_ADJ}, {"__dynamic_cast", B_DYNCAST}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"abort", B_ABORT}, {"_exit", B_EXIT}, {"exit", B_EXIT},
      {"__cxa_atexit", B_NOP}, {"vs_opaque_format", B_OPAQUE}, {"__assert_fail", B_ASSERTFAIL}, {"vs_alloc_size", B_ALLOCSZ}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"vs_is_symbolic", B_ISSYM}, {"__cxa_pure_virtual", B_UNREACH}};
    auto it = m.find(n); if (it != m.end()) return it->second;
    if (n.rfind("vs_undef", 0) == 0) return B_UNDEF;
    if (n.rfind("_ZSt13__int_to_charI", 0) == 0) return B_INT2CHAR;
    if (n.rfind("_ZSt16__convert_from_v", 0) == 0) return B_FMTFP;
    if (F->isIntrinsic()) return B_INTRIN;
    static const std::set<std::string> ff = {"log", "logf", "logl", "log2", "log2f", "exp", "pow", "sqrt", "sqrtf", "floor", "ceil", "fabs", "fabsf", "fabsl", "nextafter", "nextafterf", "fmod", "fmodf", "trunc", "round", "lround", "frexp", "ldexp", "nextafterl", "fmodl", "sqrtl", "floorl", "ceill","logb"};
    if (ff.count(n)) return B_FLOATFN;
    return -1; }

  // ---------------- compile a function
  void compile(Func* f) {
    f->compiled = true; Function& F = *f->F; std::unordered_map<const Value*, int> slot; int next = 0;
    for (auto& A : F.args()) { slot[&A] = next; next += nleaves(A.getType()); } f->nargs = next;
    std::unordered_map<const BasicBlock*, int> bix; int nb = 0; for (auto& B : F) bix[&B] = nb++;
    for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = next; next += nleaves(I.getType()); }
    f->nregs = next; f->bbs.resize(nb);
    auto opnd = [&](Value* v) -> Opnd { if (auto* C = dyn_cast<Constant>(v)) { Opnd r = ~(i64)pool.size(); size_t before = pool.size(); std::vector<Val> t; constVals(C, t); for (auto& x : t) pool.push_back(x); if (pool.size() == before) pool.push_back(Val(0)); return r; }
      auto it = slot.find(v); if (it == slot.end()) return ~(i64)0; return it->second; };
    for (auto& B : F) {
      BB& b = f->bbs[bix[&B]];
      for (auto& I : B) {
        if (auto* Ph = dyn_cast<PHINode>(&I)) { Phi p; p.dest = slot[&I]; p.n = nleaves(I.getType()); for (unsigned k = 0; k < Ph->getNumIncomingValues(); ++k) { p.pred.push_back(bix[Ph->getIncomingBlock(k)]); p.o.push_back(opnd(Ph->getIncomingValue(k))); } b.phis.push_back(std::move(p)); continue; }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        Inst x; x.op = I.getOpcode(); x.I = &I; if (!I.getType()->isVoidTy()) { x.dest = slot[&I]; x.nd = nleaves(I.getType()); }
        if (auto* L = I.getDebugLoc().get()) { auto it = locIx.find(L); if (it == locIx.end()) { locList.push_back(L); locHit.push_back(0); it = locIx.emplace(L, locList.size() - 1).first; } x.loc = it->second; }
        switch (I.getOpcode()) {
          case Instruction::Br: { auto* Br = cast<BranchInst>(&I); if (Br->isConditional()) { x.o = {opnd(Br->getCondition())}; x.tg = {bix[Br->getSuccessor(0)], bix[Br->getSuccessor(1)]}; } else x.tg = {bix[Br->getSuccessor(0)]}; break; }
          case Instruction::Switch: { auto* S = cast<SwitchInst>(&I); x.o = {opnd(S->getCondition())}; x.w = S->getCondition()->getType()->getIntegerBitWidth(); x.tg = {bix[S->getDefaultDest()]}; for (auto& c : S->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.tg.push_back(bix[c.getCaseSuccessor()]); } break; }
          case Instruction::Load: { auto* L = cast<LoadInst>(&I); x.o = {opnd(L->getPointerOperand())}; leaves(I.getType(), 0, x.lv); break; }
          case Instruction::Store: { auto* S = cast<StoreInst>(&I); x.o = {opnd(S->getPointerOperand()), opnd(S->getValueOperand())}; leaves(S->getValueOperand()->getType(), 0, x.lv); break; }
          case Instruction::Alloca: { auto* A = cast<AllocaInst>(&I); x.goff = DL->getTypeAllocSize(A->getAllocatedType()); x.o = {opnd(A->getArraySize())}; x.w = A->getArraySize()->getType()->getIntegerBitWidth(); break; }
          case Instruction::GetElementPtr: { auto* G = cast<GetElementPtrInst>(&I); x.o = {opnd(G->getPointerOperand())}; if (G->getType()->isVectorTy()) fail("vector gep");
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value* ix = it.getOperand(); if (auto* S = it.getStructTypeOrNull()) { x.goff += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* CI = dyn_cast<ConstantInt>(ix)) x.goff += CI->getSExtValue() * (i64)sz; else { x.gs.push_back({(int)x.o.size(), (i64)sz}); x.o.push_back(opnd(ix)); x.ow.resize(x.o.size()); x.ow.back() = ix->getType()->getIntegerBitWidth(); } } } break; }
          case Instruction::Call: case Instruction::Invoke: {
            auto* C = cast<CallBase>(&I); Value* cv = C->getCalledOperand()->stripPointerCasts(); if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
            if (C->isInlineAsm()) { x.bi = B_NOP; for (unsigned k = 0; k < 0; ++k) {} break; }
            if (auto* Fn = dyn_cast<Function>(cv)) { x.callee = getFunc(Fn); x.bi = x.callee->bi; } else { x.indirect = true; }
            unsigned ai = 0; for (auto& a : C->args()) { if (a->getType()->isMetadataTy()) { ai++; continue; } u32 n = nleaves(a->getType()); Opnd o0 = opnd(a.get()); std::vector<Leaf> lv; leaves(a->getType(), 0, lv); if (C->isByValArgument(ai)) x.byval.push_back({(int)x.o.size(), (u32)DL->getTypeAllocSize(C->getParamByValType(ai))}); for (u32 k = 0; k < n; ++k) { x.o.push_back(o0 >= 0 ? o0 + k : ~((~o0) + (i64)k)); x.ow.push_back(lv[k].w); } ai++; if (ai == C->getFunctionType()->getNumParams()) x.nfixed = x.o.size(); }
            if (C->getFunctionType()->getNumParams() == 0) x.nfixed = 0; 
            if (x.indirect) { x.o.push_back(opnd(C->getCalledOperand())); x.ow.push_back(64); }
            if (!I.getType()->isVoidTy()) x.w = scalarW(I.getType()->isAggregateType() ? Type::getInt64Ty(F.getContext()) : I.getType());
            if (auto* Iv = dyn_cast<InvokeInst>(&I)) { x.invoke = true; x.tg = {bix[Iv->getNormalDest()], bix[Iv->getUnwindDest()]}; } break; }
          case Instruction::ExtractValue: { auto* E = cast<ExtractValueInst>(&I); u32 off = 0; Type* T = E->getAggregateOperand()->getType(); for (unsigned ix : E->indices()) { if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; ++k) off += nleaves(S->getElementType(k)); T = S->getElementType(ix); } else { T = cast<ArrayType>(T)->getElementType(); off += ix * nleaves(T); } } x.o = {opnd(E->getAggregateOperand())}; x.goff = off; break; }
          case Instruction::InsertValue: { auto* E = cast<InsertValueInst>(&I); u32 off = 0; Type* T = E->getAggregateOperand()->getType(); for (unsigned ix : E->indices()) { if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < ix; ++k) off += nleaves(S->getElementType(k)); T = S->getElementType(ix); } else { T = cast<ArrayType>(T)->getElementType(); off += ix * nleaves(T); } } x.o = {opnd(E->getAggregateOperand()), opnd(E->getInsertedValueOperand())}; x.goff = off; x.n = nleaves(E->getInsertedValueOperand()->getType()); break; }
          case Instruction::ICmp: case Instruction::FCmp: x.pred = cast<CmpInst>(&I)->getPredicate(); x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; x.w = scalarW(I.getOperand(0)->getType()); x.n = nleaves(I.getOperand(0)->getType()); break;
          case Instruction::Select: x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; leaves(I.getType(), 0, x.lv); x.n = isa<VectorType>(I.getOperand(0)->getType()); break;
          case Instruction::Ret: { if (I.getNumOperands()) { x.o = {opnd(I.getOperand(0))}; x.n = nleaves(I.getOperand(0)->getType()); } else x.n = 0; break; }
          case Instruction::Resume: x.o = {opnd(I.getOperand(0))}; break;
          case Instruction::LandingPad: case Instruction::Unreachable: case Instruction::Fence: break;
          case Instruction::ExtractElement: { x.o = {opnd(I.getOperand(0))}; x.o.push_back(opnd(I.getOperand(1))); break; }
          case Instruction::InsertElement: { for (auto& o : I.operands()) x.o.push_back(opnd(o)); x.n = nleaves(I.getType()); break; }
          case Instruction::ShuffleVector: { auto* S = cast<ShuffleVectorInst>(&I); x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; x.n = nleaves(I.getOperand(0)->getType()); for (int m : S->getShuffleMask()) x.cases.push_back((u64)(i64)m); break; }
          case Instruction::AtomicRMW: { auto* A = cast<AtomicRMWInst>(&I); x.o = {opnd(A->getPointerOperand()), opnd(A->getValOperand())}; x.pred = A->getOperation(); x.w = scalarW(I.getType()); break; }
          case Instruction::AtomicCmpXchg: { auto* A = cast<AtomicCmpXchgInst>(&I); x.o = {opnd(A->getPointerOperand()), opnd(A->getCompareOperand()), opnd(A->getNewValOperand())}; x.w = scalarW(A->getNewValOperand()->getType()); break; }
          default:
            if (isa<CastInst>(&I)) { x.o = {opnd(I.getOperand(0))}; x.w = scalarW(I.getOperand(0)->getType()); x.w2 = scalarW(I.getType()); x.n = nleaves(I.getOperand(0)->getType()); }
            else { for (auto& o : I.operands()) x.o.push_back(opnd(o)); x.w = scalarW(I.getType()); x.n = nleaves(I.getType()); } }
        b.in.push_back(std::move(x)); } }
    // two-sided branches that only compute and then write the same places: mergeable (see mergeBranch)
    std::vector<int> preds(nb, 0); for (auto& B : F) for (auto* S : successors(&B)) ++preds[bix[S]];
    auto side = [&](int k, int& join) { BB& b = f->bbs[k]; if (preds[k] != 1 || b.phis.size() || b.in.size() < 2 || b.in.size() > 24 || b.in.back().op != Instruction::Br || b.in.back().o.size()) return 0; join = b.in.back().tg[0]; int st = 0;
      for (size_t i = 0; i + 1 < b.in.size(); ++i) { const Inst& x = b.in[i]; switch (x.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::Select: case Instruction::GetElementPtr: break;
        case Instruction::Load: if (st || x.lv.size() != 1) return 0; break;
        case Instruction::Store: if (x.lv.size() != 1 || cast<StoreInst>(x.I)->getValueOperand()->getType()->isPointerTy()) return 0; ++st; break;
        default: return 0; } }
      return st; };
    for (auto& b : f->bbs) for (auto& x : b.in) if (x.op == Instruction::Br && x.o.size() && x.tg[0] != x.tg[1]) { int j0 = -1, j1 = -2; int s0 = side(x.tg[0], j0), s1 = side(x.tg[1], j1); x.merge = s0 && s0 == s1 && j0 == j1 && f->bbs[j0].phis.empty(); if (s0 && j0 == x.tg[1] && f->bbs[j0].phis.empty()) x.half = 1; else if (s1 && j1 == x.tg[0] && f->bbs[j1].phis.empty()) x.half = 2; } }

  // ---------------- solver
  // two incremental solvers: the general one with a small budget first, then the bit-blasting one
  Z3_solver zss[2] = {nullptr, nullptr}; std::vector<Expr*> zstacks[2]; unsigned curLim = 0;
  struct CE { int r; std::shared_ptr<std::vector<std::pair<u32, u128>>> m; };
  std::unordered_map<std::string, CE> qcache;
  void newSolver(int i) { zss[i] = i ? Z3_mk_solver_for_logic(P.ctx, Z3_mk_string_symbol(P.ctx, "QF_BV")) : Z3_mk_solver(P.ctx); Z3_solver_inc_ref(P.ctx, zss[i]); setTO(zss[i], i ? opt.rlimit : opt.rlimit1); }
  void initZ3() { Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); P.ctx = Z3_mk_context(c); Z3_del_config(c); for (int i = 0; i < 2; ++i) newSolver(i); Z3_set_error_handler(P.ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }); }
  void setTO(Z3_solver s, unsigned lim) { Z3_params p = Z3_mk_params(P.ctx); Z3_params_inc_ref(P.ctx, p); Z3_params_set_uint(P.ctx, p, Z3_mk_string_symbol(P.ctx, "rlimit"), lim); Z3_solver_set_params(P.ctx, s, p); Z3_params_dec_ref(P.ctx, p); }
  void slice(State& s, Expr* q, std::vector<Expr*>& out) {
    std::unordered_set<u32> S(P.syms(q).begin(), P.syms(q).end()); std::vector<u8> in(s.pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); ++i) if (!in[i]) { auto& y = P.syms(s.pc[i]); bool hit = false; for (u32 k : y) if (S.count(k)) { hit = true; break; } if (hit) { in[i] = 1; for (u32 k : y) if (S.insert(k).second) ch = true; } } }
    for (size_t i = 0; i < s.pc.size(); ++i) if (in[i]) out.push_back(s.pc[i]); }
  bool checkTime = false; double timeLeft() { double d = deadline; if (firstViol && *firstViol) d = std::min(d, *firstViol + 60); return d - now(); }
  // returns 1 sat, 0 unsat, -1 unknown
  int query(State& s, Expr* q, std::shared_ptr<Model>& out) {
    if (P.isF(q)) return 0; if (P.isT(q)) { out = s.model; return 1; } std::vector<Expr*> sl; slice(s, q, sl);
    std::vector<u32> ids; for (auto* e : sl) ids.push_back(e->id); ids.push_back(q->id); std::sort(ids.begin(), ids.end()); std::string key((char*)ids.data(), ids.size() * 4);
    auto it = qcache.find(key); CE ce;
    if (it != qcache.end()) { ce = it->second; ++nCacheHits; }
    else {
      double t = now(); ++nQueries; ce.r = -1;
      std::vector<u32> sy; { std::set<u32> t; for (auto* e : sl) t.insert(P.syms(e).begin(), P.syms(e).end()); t.insert(P.syms(q).begin(), P.syms(q).end()); sy.assign(t.begin(), t.end()); }
      bool fp = q->fp; for (auto* e : sl) fp = fp || e->fp;
      for (int z = 0; z < 2 && ce.r < 0; ++z) { if (z && fp) break; if (z == 0) { unsigned lim = fp ? opt.rlimit : opt.rlimit1; if (lim != curLim) setTO(zss[0], curLim = lim); }
        Z3_solver zs = zss[z]; auto& zstack = zstacks[z]; size_t k = 0; while (k < zstack.size() && k < sl.size() && zstack[k] == sl[k]) ++k;
        if (zstack.size() > k) { Z3_solver_pop(P.ctx, zs, zstack.size() - k); zstack.resize(k); }
        for (; k < sl.size(); ++k) { Z3_solver_push(P.ctx, zs); Z3_solver_assert(P.ctx, zs, P.zb(sl[k])); zstack.push_back(sl[k]); }
        Z3_solver_push(P.ctx, zs); Z3_solver_assert(P.ctx, zs, P.zb(q)); Z3_lbool r = Z3_solver_check(P.ctx, zs);
        ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (ce.r == 1) { Z3_model m = Z3_solver_get_model(P.ctx, zs); Z3_model_inc_ref(P.ctx, m); ce.m = std::make_shared<std::vector<std::pair<u32, u128>>>(); for (u32 i : sy) ce.m->push_back({i, modelVal(m, i)}); Z3_model_dec_ref(P.ctx, m); }
        if (ce.r == 1 && !fp) { Model mm; for (auto& p : *ce.m) { if (p.first >= mm.v.size()) mm.v.resize(p.first + 1, 0); mm.v[p.first] = p.second; } bool ok = P.eval(q, mm) != 0; for (auto* e : sl) ok = ok && P.eval(e, mm) != 0; if (!ok) { notes.insert("a model that does not satisfy its query was rejected"); ce.r = -1; } }
        // an interrupted solver is not used again
        if (ce.r < 0) { Z3_solver_dec_ref(P.ctx, zs); newSolver(z); zstack.clear(); curLim = z ? curLim : 0; } else Z3_solver_pop(P.ctx, zs, 1); if (ce.r < 0 && z == 0) ++nSecond; }
      if (ce.r < 0) ce.r = external(sl, q, sy, ce);
      double dt = now() - t; solverTime += dt; if (dt > 0.3) checkTime = true; if (opt.trace && dt > 1) fprintf(stderr, "slow query %.1fs -> %d\n", dt, ce.r);
      if (ce.r == 1) ++nSat; else if (ce.r == 0) ++nUnsat; else { ++nUnknown; incomplete = true; notes.insert("solver returned unknown"); }
      qcache[key] = ce; }
    if (ce.r == 1) { out = std::make_shared<Model>(*s.model); for (auto& p : *ce.m) { if (p.first >= out->v.size()) out->v.resize(p.first + 1, 0); out->v[p.first] = p.second; } }
    return ce.r; }
  u128 modelVal(Z3_model m, u32 i) { char n[32]; snprintf(n, 32, "s%u", i); Z3_ast v = Z3_mk_const(P.ctx, Z3_mk_string_symbol(P.ctx, n), Z3_mk_bv_sort(P.ctx, P.symW[i])), r; if (!Z3_model_eval(P.ctx, m, v, true, &r)) return 0; std::string s = Z3_get_numeral_string(P.ctx, r); u128 x = 0; for (char ch : s) x = x * 10 + (ch - '0'); return x; }
  // non-incremental fallback: newer z3, then cvc5, on an SMT-LIB dump
  int external(std::vector<Expr*>& sl, Expr* q, std::vector<u32>& sy, CE& ce) {
    ++nExternal; std::vector<Z3_ast> as; for (auto* e : sl) as.push_back(P.zb(e)); Z3_ast f = P.zb(q);
    std::string txt = Z3_benchmark_to_smtlib_string(P.ctx, "vsx", "", "unknown", "", as.size(), as.data(), f);
    size_t cs = txt.rfind("(check-sat)"); if (cs != std::string::npos) txt = txt.substr(0, cs);
    std::string hdr = "(set-option :produce-models true)\n(set-logic ALL)\n"; std::string tail = "(check-sat)\n"; if (sy.size()) { tail += "(get-value ("; for (u32 i : sy) tail += "s" + std::to_string(i) + " "; tail += "))\n"; }
    // symbols sliced away by simplification may be undeclared: declare the missing ones
    for (u32 i : sy) { std::string d = "declare-fun s" + std::to_string(i) + " "; if (txt.find(d) == std::string::npos) hdr += "(declare-fun s" + std::to_string(i) + " () (_ BitVec " + std::to_string(P.symW[i]) + "))\n"; }
    char fn[64]; snprintf(fn, 64, "/tmp/vsx.%d.smt2", getpid()); FILE* fp = fopen(fn, "w"); if (!fp) return -1; fputs((hdr + txt + tail).c_str(), fp); fclose(fp);
    int res = -1; bool fpq = txt.find("ieee_bv") != std::string::npos;
    int lim = std::min<double>(opt.qtimeout, timeLeft() + 1); if (lim <= 1) { unlink(fn); return -1; }
    for (int k = 0; k < (fpq ? 1 : 2) && res < 0; ++k) {
      char cmd[256]; if (k == (fpq ? 0 : 1)) snprintf(cmd, 256, "timeout %d z3-new %s 2>&1", lim, fn); else snprintf(cmd, 256, "timeout %d cvc5 -q --solve-bv-as-int=off %s 2>&1", lim, fn);
      FILE* p = popen(cmd, "r"); std::string o; char buf[4096]; size_t n; while ((n = fread(buf, 1, 4096, p)) > 0) o.append(buf, n); pclose(p);
      if (o.rfind("unsat", 0) == 0) res = 0; else if (o.rfind("sat", 0) == 0) { ce.m = std::make_shared<std::vector<std::pair<u32, u128>>>(); bool ok = true;
        for (u32 i : sy) { std::string t = "(s" + std::to_string(i) + " #"; size_t q = o.find(t); if (q == std::string::npos) { ok = false; break; } q += t.size(); u128 v = 0; if (o[q] == 'x') for (++q; isxdigit(o[q]); ++q) v = v * 16 + (isdigit(o[q]) ? o[q] - '0' : (o[q] | 32) - 'a' + 10); else for (++q; o[q] == '0' || o[q] == '1'; ++q) v = v * 2 + (o[q] - '0'); ce.m->push_back({i, v}); } if (ok) res = 1; } }
    unlink(fn); return res; }

  // ---------------- violations, forks
  std::string where(State& s) { std::string r; int k = 0; for (size_t i = s.fr.size(); i-- > 0 && k < 12; ++k) { Frame& f = s.fr[i]; std::string n = llvm::demangle(f.f->name); if (n.size() > 120) n = n.substr(0, 117) + "..."; const Inst* x = f.ip < (int)f.f->bbs[f.bb].in.size() ? &f.f->bbs[f.bb].in[f.ip] : nullptr; std::string l; if (x && x->loc) { auto* L = locList[x->loc]; l = " @ " + L->getFilename().str() + ":" + std::to_string(L->getLine()); } r += (r.empty() ? "" : " <- ") + n + l; } return r; }
  static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
  std::string inputsJson(State& s, const Model& m) { std::string r = "["; for (auto& p : s.syms) { if (r.size() > 1) r += ","; char b[64]; u128 v = m.get(p.first) & maskw(P.symW[p.first]); snprintf(b, 64, "%llu", (unsigned long long)v); r += "[\"" + esc(names[p.second]) + "\"," + std::to_string(P.symW[p.first]) + ",\"" + b + "\"]"; } return r + "]"; }
  void violation(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Model> m = nullptr) {
    if (!m) m = s.model; std::string key = kind + "|" + msg; ++nErrPaths; if (firstViol && !*firstViol) *firstViol = now(); if (!violKeys.insert(key).second) return; viols.push_back({kind, msg, where(s), inputsJson(s, *m)}); }
  void addPc(State& s, Expr* c) { if (P.isC(c)) return; if (c->op == E_AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; } for (auto* e : s.pc) if (e == c) return; s.pc.push_back(c); }
  State* fork(State& s) { ++nForks; State* n = new State(s); n->depth++; return n; }
  bool evalB(State& s, Expr* c) { return P.eval(c, *s.model) != 0; }
  // Decide a branch on symbolic c. Returns taken side for s; the other side, if feasible, is put on the worklist with setup applied.
  template <class Fn> bool branchOn(State& s, Expr* c, Fn other) {
    bool b = evalB(s, c); Expr* oc = b ? P.notE(c) : c; std::shared_ptr<Model> m; int r = query(s, oc, m);
    if (r == 1) { State* n = fork(s); n->model = m; addPc(*n, oc); other(*n, !b); work.push_back(n); addPc(s, P.notE(oc)); }
    else if (r < 0) { addPc(s, P.notE(oc)); }
    return b; }
  // Concretise v (width w) by forking over its feasible values.
  bool concretize(State& s, Val v, unsigned w, u64& out, const Inst* at, u32 cap = 400) {
    if (isConst(v)) { out = (u64)cval(v); return true; }
    u64 x = (u64)P.eval(v.e, *s.model); Expr* eq = P.bin(E_EQ, v.e, P.cst(x, w)); std::shared_ptr<Model> m; int r = query(s, P.notE(eq), m);
    if (r == 1) { if (s.concAt == at && s.concForks > cap) { incomplete = true; notes.insert("too many values to enumerate at " + where(s)); }
      else { State* n = fork(s); n->model = m; addPc(*n, P.notE(eq)); n->concForks = s.concAt == at ? s.concForks + 1 : 1; n->concAt = at; work.push_back(n); } addPc(s, eq); }
    out = x; return true; }

  // ---------------- memory access
  Obj* objAt(State& s, u64 a) { u64 id = a >> SLOT; return id < s.mem.size() ? s.mem[id].p : nullptr; }
  Obj* wr(State& s, u64 id) { Obj* o = s.mem[id].p; if (o->refs > 1) { Obj* n = new Obj(*o); s.mem[id] = OR(n); return n; } return o; }
  u64 alloc(State& s, u64 n, Kind k, bool undef) { s.mem.push_back(OR(new Obj(n, k, undef))); return ((u64)(s.mem.size() - 1) << SLOT) + BASE; }
  const char* accessErr(State& s, u64 a, u64 n, bool write, std::string& msg) {
    Obj* o = objAt(s, a); char b[200];
    if (a < 0x10000) { snprintf(b, 200, "%s through null or invalid pointer", write ? "write" : "read"); msg = b; return "null-dereference"; }
    if (!o) { snprintf(b, 200, "%s at wild address", write ? "write" : "read"); msg = b; return "invalid-access"; }
    i64 off = (i64)(a & ((1ull << SLOT) - 1)) - (i64)BASE;
    if (o->kind == K_FREED) { snprintf(b, 200, "%s of %lu bytes after release of %s block", write ? "write" : "read", (unsigned long)n, kindName[o->was]); msg = b; return "use-after-free"; }
    if (off < 0 || (u64)off + n > o->size) { snprintf(b, 200, "%s out of bounds of %s block", write ? "write" : "read", kindName[o->kind]); msg = b; return "out-of-bounds"; }
    if (write && o->kind == K_CONST) { msg = "write to constant"; return "write-to-constant"; }
    return nullptr; }
  // raw load from a valid location
  Val loadAt(State& s, u64 a, unsigned w) {
    u64 id = a >> SLOT; Obj* o = s.mem[id].p; u32 off = (a & ((1ull << SLOT) - 1)) - BASE; unsigned nb = (w + 7) / 8; const u8* st = o->st + off; bool conc = true;
    for (unsigned i = 0; i < nb; ++i) if (st[i]) { conc = false; break; }
    if (conc) { if (w <= 64) { u64 v = 0; memcpy(&v, o->data + off, nb); return Val(v & mask64(w)); } u128 v = 0; memcpy(&v, o->data + off, nb); return Val::E(P.cst(v, w)); }
    // undefined bytes become fresh symbols (remembered)
    bool anyU = false, allU = true; for (unsigned i = 0; i < nb; ++i) { if (st[i] == 2) anyU = true; else allU = false; }
    if (anyU) { Obj* q = wr(s, id); if (!q->sym) q->sym = (SymB*)calloc(q->size, sizeof(SymB)); if (allU) { Expr* e = undefSym(s, nb * 8); for (unsigned i = 0; i < nb; ++i) { q->st[off + i] = 1; q->sym[off + i] = {e, (u8)i}; } } else for (unsigned i = 0; i < nb; ++i) if (q->st[off + i] == 2) { Expr* e = undefSym(s, 8); q->st[off + i] = 1; q->sym[off + i] = {e, 0}; } o = q; st = o->st + off; }
    SymB* sb = o->sym + off; Expr* e0 = st[0] == 1 ? sb[0].e : nullptr; if (e0 && sb[0].i == 0) { bool same = true; for (unsigned i = 0; i < nb; ++i) if (st[i] != 1 || sb[i].e != e0 || sb[i].i != i) { same = false; break; } if (same && e0->w == nb * 8) return Val::E(P.extract(e0, 0, w)); if (same && e0->w > nb * 8) return Val::E(P.extract(e0, 0, w)); }
    Expr* r = nullptr; for (unsigned i = 0; i < nb; ++i) { Expr* b = st[i] == 0 ? P.cst(o->data[off + i], 8) : P.extract(sb[i].e, sb[i].i * 8, 8); r = r ? P.concat(b, r) : b; } return Val::E(P.extract(r, 0, w)); }
  Expr* undefSym(State& s, unsigned w) { static std::map<std::pair<u32, u32>, Expr*> c; u32 k = s.nundef++; auto it = c.find({k, w}); if (it != c.end()) return it->second; return c[{k, w}] = P.sym("undef", w, true); }
  void storeAt(State& s, u64 a, Val v, unsigned w) {
    u64 id = a >> SLOT; Obj* o = wr(s, id); u32 off = (a & ((1ull << SLOT) - 1)) - BASE; unsigned nb = (w + 7) / 8;
    if (isConst(v)) { u128 x = cval(v); memcpy(o->data + off, &x, nb); memset(o->st + off, 0, nb); return; }
    if (!o->sym) o->sym = (SymB*)calloc(o->size, sizeof(SymB)); Expr* e = P.zext(v.e, nb * 8);
    for (unsigned i = 0; i < nb; ++i) { Expr* b = nullptr; if (e->op == E_ZEXT || e->op == E_CONCAT || e->op == E_ITE) b = P.extract(e, i * 8, 8); if (b && P.isC(b)) { o->st[off + i] = 0; o->data[off + i] = (u8)b->v; } else { o->st[off + i] = 1; o->sym[off + i] = {e, (u8)i}; } } }
  // enumerate the feasible concrete addresses of a symbolic pointer; invalid ones are reported and excluded
  bool iteLeaves(Expr* e, std::set<u64>& r, int d) { if (P.isC(e)) { r.insert((u64)e->v); return r.size() < 32; } if (e->op == E_ITE && d < 40) return iteLeaves(e->b, r, d + 1) && iteLeaves(e->c, r, d + 1); if (e->op == E_ADD && P.isC(e->b)) { std::set<u64> t; if (!iteLeaves(e->a, t, d + 1)) return false; for (u64 x : t) r.insert(x + (u64)e->b->v); return true; } return false; }
  // syntactic over-approximation of the values of an address: lo, lo+step, ..., hi
  bool synRange(Expr* e, u64& lo, u64& hi, u64& step) {
    switch (e->op) {
      case E_CONST: lo = hi = (u64)e->v; step = 0; return true;
      case E_SYM: if (e->w > 16) return false; lo = 0; hi = mask64(e->w); step = 1; return true;
      case E_ZEXT: if (synRange(e->a, lo, hi, step)) return true; if (e->a->w > 16) return false; lo = 0; hi = mask64(e->a->w); step = 1; return true;
      case E_AND: if (P.isC(e->b) && e->b->v < 0x10000) { lo = 0; hi = (u64)e->b->v; step = 1; return true; } return false;
      case E_SHL: if (!P.isC(e->b) || e->b->v > 12 || !synRange(e->a, lo, hi, step) || hi > (1ull << 40)) return false; lo <<= (u64)e->b->v; hi <<= (u64)e->b->v; step <<= (u64)e->b->v; return true;
      case E_MUL: if (!P.isC(e->b) || e->b->v > 4096 || !synRange(e->a, lo, hi, step) || hi > (1ull << 40)) return false; lo *= (u64)e->b->v; hi *= (u64)e->b->v; step *= (u64)e->b->v; return true;
      case E_ADD: { u64 l2, h2, s2; if (!synRange(e->a, lo, hi, step) || !synRange(e->b, l2, h2, s2)) return false; if (lo > (1ull << 62) || l2 > (1ull << 62)) return false; lo += l2; hi += h2; if (!step) step = s2; else if (s2) { u64 a = step, b = s2; while (b) { u64 t = a % b; a = b; b = t; } step = a; } return true; }
      default: if (e->w <= 8) { lo = 0; hi = mask64(e->w); step = 1; return true; } return false; } }
  bool addrs(State& s, Expr* e, u64 n, bool write, std::vector<u64>& good) {
    // fast: ite tree of constants
    { std::set<u64> lv; if (iteLeaves(e, lv, 0)) { bool ok = true; std::string msg; for (u64 a : lv) if (accessErr(s, a, n, write, msg)) { ok = false; break; } if (ok) { good.assign(lv.begin(), lv.end()); return true; } } }
    { u64 lo, hi, st; if (synRange(e, lo, hi, st) && st && (hi - lo) / st < 1024 && (lo >> SLOT) == (hi >> SLOT)) { std::string msg; if (!accessErr(s, lo, n, write, msg) && !accessErr(s, hi, n, write, msg)) { for (u64 a = lo;; a += st) { good.push_back(a); if (a >= hi) break; } return true; } } }
    State tmp; tmp.pc = s.pc; tmp.model = s.model; std::shared_ptr<Model> m = s.model; bool dead = false;
    for (int k = 0;; ++k) {
      if (k > 600) { incomplete = true; notes.insert("too many addresses at " + where(s)); break; }
      u64 a = (u64)P.eval(e, *m); std::string msg; Expr* eq = P.bin(E_EQ, e, P.cst(a, 64)); const char* er = accessErr(s, a, n, write, msg);
      if (er) { violation(s, er, msg, m);
        // exclude every invalid address at once: require the pointer to stay inside the objects seen valid so far or differ
        addPc(s, P.notE(eq)); if (++badAddr > 4) { dead = true; break; } } else good.push_back(a);
      tmp.pc.push_back(P.notE(eq)); std::shared_ptr<Model> m2; tmp.model = m; int r = query(tmp, P.T() == eq ? P.F() : P.notE(eq), m2); if (r != 1) break; m = m2; }
    badAddr = 0; if (good.empty()) return false; (void)dead;
    // model of s must satisfy constraints: re-pick if it was an invalid one
    u64 cur = (u64)P.eval(e, *s.model); if (std::find(good.begin(), good.end(), cur) == good.end()) { std::shared_ptr<Model> m3; Expr* eq = P.bin(E_EQ, e, P.cst(good[0], 64)); if (query(s, eq, m3) != 1) return false; s.model = m3; addPc(s, eq); u64 g = good[0]; good.assign(1, g); }
    return true; }
  int badAddr = 0; double* firstViol = nullptr;

  bool load(State& s, Val p, unsigned w, Val& out) {
    u64 nb = (w + 7) / 8;
    if (isConst(p)) { u64 a = (u64)cval(p); u64 id = a >> SLOT; Obj* o = id < s.mem.size() ? s.mem[id].p : nullptr; u64 off = (a & ((1ull << SLOT) - 1)) - BASE; if (!o || o->kind == K_FREED || off + nb > o->size || off > o->size) { std::string m; const char* e = accessErr(s, a, nb, false, m); violation(s, e ? e : "invalid-access", m); return false; } out = loadAt(s, a, w); return true; }
    std::vector<u64> g; if (!addrs(s, p.e, nb, false, g)) return false;
    Expr* r = nullptr; std::sort(g.begin(), g.end()); size_t i = 0; // runs of equal values share one test
    while (i < g.size()) { Expr* v = mk(loadAt(s, g[i], w), w); size_t j = i; while (j + 1 < g.size() && mk(loadAt(s, g[j + 1], w), w) == v) ++j;
      if (!r) r = v; else r = P.ite(i == j && i + 1 < g.size() ? P.bin(E_EQ, p.e, P.cst(g[i], 64)) : j + 1 == g.size() ? P.bin(E_ULE, P.cst(g[i], 64), p.e) : P.bin(E_AND, P.bin(E_ULE, P.cst(g[i], 64), p.e), P.bin(E_ULE, p.e, P.cst(g[j], 64))), v, r); i = j + 1; } out = Val::E(r); return true; }
  bool store(State& s, Val p, Val v, unsigned w) {
    u64 nb = (w + 7) / 8;
    if (isConst(p)) { u64 a = (u64)cval(p); u64 id = a >> SLOT; Obj* o = id < s.mem.size() ? s.mem[id].p : nullptr; u64 off = (a & ((1ull << SLOT) - 1)) - BASE; if (!o || o->kind == K_FREED || o->kind == K_CONST || off + nb > o->size || off > o->size) { std::string m; const char* e = accessErr(s, a, nb, true, m); violation(s, e ? e : "invalid-access", m); return false; } storeAt(s, a, v, w); return true; }
    std::vector<u64> g; if (!addrs(s, p.e, nb, true, g)) return false;
    if (g.size() == 1) { storeAt(s, g[0], v, w); return true; }
    for (u64 a : g) { Expr* old = mk(loadAt(s, a, w), w); storeAt(s, a, Val::E(P.ite(P.bin(E_EQ, p.e, P.cst(a, 64)), mk(v, w), old)), w); } return true; }
  bool copyMem(State& s, u64 d, u64 q, u64 n) {
    if (!n) return true; std::string m; const char* e;
    if ((e = accessErr(s, q, n, false, m)) || (e = accessErr(s, d, n, true, m))) { violation(s, e, m + " (memcpy)"); return false; }
    Obj* so = s.mem[q >> SLOT].p; u32 qo = (q & ((1ull << SLOT) - 1)) - BASE; OR keep = s.mem[q >> SLOT]; Obj* o = wr(s, d >> SLOT); u32 off = (d & ((1ull << SLOT) - 1)) - BASE;
    so = keep.p; bool anyS = false; for (u64 i = 0; i < n; ++i) if (so->st[qo + i] == 1) { anyS = true; break; }
    memmove(o->data + off, so->data + qo, n); memmove(o->st + off, so->st + qo, n); if (anyS) { if (!o->sym) o->sym = (SymB*)calloc(o->size, sizeof(SymB)); memmove(o->sym + off, so->sym + qo, n * sizeof(SymB)); } return true; }
  std::string cstr(State& s, u64 a) { std::string r; for (int i = 0; i < 400; ++i) { std::string m; if (accessErr(s, a + i, 1, false, m)) break; Val v = loadAt(s, a + i, 8); if (!isConst(v)) { r += '?'; continue; } if (!cval(v)) break; r += (char)cval(v); } return r; }
  bool freeObj(State& s, u64 a, Kind k) {
    if (!a) return true; Obj* o = objAt(s, a); u64 off = a & ((1ull << SLOT) - 1);
    if (!o || off != BASE) { violation(s, "invalid-free", "release of a pointer that is not the start of a block"); return false; }
    if (o->kind == K_FREED) { violation(s, "double-free", std::string("second release of a ") + kindName[o->was] + " block"); return false; }
    if (o->kind != k) { violation(s, "bad-free", std::string("block from ") + kindName[o->kind] + " released as " + kindName[k]); return false; }
    if (k != K_EXN) s.heapLive--; kill(s, a >> SLOT); return true; }
  void kill(State& s, u64 id) { Obj* o = s.mem[id].p; static Obj* tomb[8]; Kind k = o->kind; if (!tomb[k]) { tomb[k] = new Obj(0, K_FREED, true); tomb[k]->was = k; tomb[k]->refs = 1000000000; } ++tomb[k]->refs; s.mem[id] = OR(tomb[k]); }

  // ---------------- typeinfo
  TI* tiOf(u64 addr) { auto it = tis.find(addr); return it == tis.end() ? nullptr : &it->second; }
  void initTI() {
    for (auto& G : M->globals()) { StringRef n = G.getName(); if (!n.starts_with("_ZTI")) continue; TI t; t.name = n.str(); t.gv = &G; u64 a = gaddr[&G];
      if (G.hasInitializer()) if (auto* S = dyn_cast<ConstantStruct>(G.getInitializer())) {
        std::string vt; Value* v = S->getOperand(0)->stripInBoundsOffsets(); if (auto* g = dyn_cast<GlobalVariable>(v)) vt = g->getName().str();
        if (vt.find("class_type_info") != std::string::npos) t.isClass = true;
        if (vt.find("__si_class_type_info") != std::string::npos) t.bases.push_back({cv1(S->getOperand(2)), 0, 2});
        else if (vt.find("__vmi_class_type_info") != std::string::npos) { u32 nb = cv1(S->getOperand(3)); for (u32 i = 0; i < nb; ++i) { u64 b = cv1(S->getOperand(4 + 2 * i)); i64 f = (i64)cv1(S->getOperand(5 + 2 * i)); t.bases.push_back({b, f >> 8, (int)(f & 3)}); } } }
      tis[a] = t; } }
  // all sub-objects of dynamic type t at obj: callback(typeinfo, address, public path)
  void subobjs(State& s, u64 ti, u64 obj, bool pub, const std::function<void(u64, u64, bool)>& cb, int d = 0) {
    cb(ti, obj, pub); TI* t = tiOf(ti); if (!t || d > 20) return;
    for (auto& b : t->bases) { u64 bt = std::get<0>(b); i64 off = std::get<1>(b); int fl = std::get<2>(b); u64 ba; if (fl & 1) { Val vp = loadAt(s, obj, 64); u64 vo = (u64)cval(vp) + off; std::string m; if (accessErr(s, vo, 8, false, m)) continue; ba = obj + (i64)cval(loadAt(s, vo, 64)); } else ba = obj + off; subobjs(s, bt, ba, pub && (fl & 2), cb, d + 1); } }
  bool sameTI(u64 a, u64 b) { if (a == b) return true; TI *x = tiOf(a), *y = tiOf(b); return x && y && x->name == y->name; }
  bool catchMatch(State& s, u64 exnTI, u64 catchTI, u64 obj, u64& adj) {
    adj = obj; if (catchTI == 0) return true; if (sameTI(exnTI, catchTI)) return true; TI* t = tiOf(exnTI); if (!t || !t->isClass) return false;
    std::set<u64> hits; subobjs(s, exnTI, obj, true, [&](u64 ti, u64 a, bool pub) { if (pub && sameTI(ti, catchTI)) hits.insert(a); }); if (hits.size() != 1) return false; adj = *hits.begin(); return true; }
  u32 selOf(u64 ti) { if (!ti) return 0x7ffffff0; return (u32)((ti >> SLOT) + 16); }

  // raise exception obj; frames above handler are popped. returns false if the path ended
  bool unwind(State& s, u64 obj, bool popFirst) {
    Exn* ex = nullptr; for (auto& e : s.exns) if (e.obj == obj) ex = &e; if (!ex) { violation(s, "engine", "unknown exception object"); return false; }
    size_t start = s.fr.size() - (popFirst ? 1 : 0); bool found = false;
    for (size_t i = start; i-- > 0 && !found;) { Frame& f = s.fr[i]; Inst& x = f.f->bbs[f.bb].in[f.ip]; if (!x.invoke) continue; auto* LP = landing(f.f, x.tg[1]); for (unsigned k = 0; k < LP->getNumClauses() && !found; ++k) { u64 adj; if (LP->isCatch(k)) { u64 ct = cv1(LP->getClause(k)); if (catchMatch(s, ex->ti, ct, obj, adj)) found = true; } else found = true; } }
    if (!found) { TI* t = tiOf(ex->ti); violation(s, "uncaught-exception", "exception of type " + (t ? demangleTI(t->name) : "?") + " leaves the harness"); return false; }
    if (popFirst) popFrame(s);
    while (s.fr.size()) { Frame& f = s.fr.back(); Inst& x = f.f->bbs[f.bb].in[f.ip]; if (x.invoke) { auto* LP = landing(f.f, x.tg[1]); u32 sel = 0; bool enter = LP->isCleanup();
          for (unsigned k = 0; k < LP->getNumClauses(); ++k) { u64 adj; if (LP->isCatch(k)) { u64 ct = cv1(LP->getClause(k)); if (catchMatch(s, ex->ti, ct, obj, adj)) { sel = selOf(ct); ex->adj = adj; enter = true; break; } } else { enter = true; sel = (u32)-1; break; } }
          if (enter) { s.pendObj = obj; s.pendSel = sel; jump(s, x.tg[1]); return true; } } popFrame(s); }
    return false; }
  static std::string demangleTI(const std::string& n) { std::string d = llvm::demangle(n); if (d.rfind("typeinfo for ", 0) == 0) return d.substr(13); return d; }
  LandingPadInst* landing(Func* f, int bb) { int k = 0; for (auto& B : *f->F) { if (k++ == bb) return cast<LandingPadInst>(B.getFirstNonPHI()); } return nullptr; }
  void popFrame(State& s) { Frame& f = s.fr.back(); for (u32 id : f.allocas) if (s.mem[id].p->kind == K_STACK) kill(s, id); s.regs.resize(f.base); s.fr.pop_back(); }
  void jump(State& s, int tb) {
    Frame& f = s.fr.back(); BB& b = f.f->bbs[tb]; int from = f.bb;
    if (!b.phis.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& p : b.phis) { int k = -1; for (size_t i = 0; i < p.pred.size(); ++i) if (p.pred[i] == from) { k = i; break; } if (k < 0) fail("phi"); for (u32 j = 0; j < p.n; ++j) tmp.push_back(rd(s, f, p.o[k], j)); } size_t q = 0; for (auto& p : b.phis) for (u32 j = 0; j < p.n; ++j) s.regs[f.base + p.dest + j] = tmp[q++]; }
    f.bb = tb; f.ip = 0; }
  inline const Val& rd(State& s, Frame& f, Opnd o, u32 j = 0) { return o >= 0 ? s.regs[f.base + o + j] : pool[(~o) + j]; }
  bool pushFrame(State& s, Func* fn, std::vector<Val>& args, const Inst* x) {
    if (!fn->compiled) compile(fn); if (s.fr.size() > 3000) { violation(s, "stack-overflow", "recursion deeper than 3000 frames"); return false; }
    Frame f; f.f = fn; f.bb = 0; f.ip = 0; f.base = s.regs.size(); s.regs.resize(f.base + fn->nregs); u32 n = std::min<u32>(fn->nargs, args.size()); for (u32 i = 0; i < n; ++i) s.regs[f.base + i] = args[i];
    if (fn->vararg && x) for (u32 i = fn->nargs; i < args.size(); ++i) { f.va.push_back(args[i]); f.vaw.push_back(x->ow[i]); }
    if (x) for (auto& bv : x->byval) { u64 a = (u64)cval(args[bv.first]); u64 d = alloc(s, bv.second, K_STACK, true); f.allocas.push_back(d >> SLOT); if (!copyMem(s, d, a, bv.second)) return false; s.regs[f.base + bv.first] = Val(d); }
    s.fr.push_back(std::move(f)); return true; }
#include "vsx_exec.inc"
};

// ------------------------------------------------------------------ load pipeline
// uninitialised scalars become fresh symbols: a store of an opaque value after every alloca, before promotion
static void insertUndefs(Module& M) {
  LLVMContext& C = M.getContext(); const DataLayout& DL = M.getDataLayout(); std::map<Type*, FunctionCallee> fn; u64 id = 0; auto* I64 = Type::getInt64Ty(C);
  auto get = [&](Type* T) { auto it = fn.find(T); if (it != fn.end()) return it->second; std::string n = "vs_undef" + std::to_string(fn.size()); auto* F = Function::Create(FunctionType::get(T, {I64}, false), GlobalValue::ExternalLinkage, n, M); F->setDoesNotThrow(); F->setMemoryEffects(MemoryEffects::none()); F->addFnAttr(Attribute::WillReturn); fn[T] = F; return fn[T]; };
  for (auto& F : M) { if (F.isDeclaration()) continue; std::vector<AllocaInst*> as; for (auto& B : F) for (auto& I : B) if (auto* A = dyn_cast<AllocaInst>(&I)) if (!A->isArrayAllocation()) as.push_back(A);
    for (auto* A : as) { std::vector<std::pair<u64, Type*>> lv; std::function<void(Type*, u64)> go = [&](Type* T, u64 off) { if (lv.size() > 40) return; if (T->isIntegerTy() || T->isPointerTy() || T->isFloatTy() || T->isDoubleTy()) lv.push_back({off, T}); else if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) go(S->getElementType(i), off + L->getElementOffset(i)); } };
      go(A->getAllocatedType(), 0); if (lv.empty() || lv.size() > 8) continue; IRBuilder<> B(A->getNextNode()); for (auto& l : lv) { Value* p = l.first ? B.CreateConstGEP1_64(Type::getInt8Ty(C), A, l.first) : A; B.CreateStore(B.CreateCall(get(l.second), {ConstantInt::get(I64, id++)}), p); } } } }
static void dropUndefStores(Module& M) {
  for (auto& F : M) for (auto& B : F) for (auto it = B.begin(); it != B.end();) { Instruction& I = *it++; if (auto* S = dyn_cast<StoreInst>(&I)) if (auto* Cl = dyn_cast<CallInst>(S->getValueOperand())) if (auto* Fn = Cl->getCalledFunction()) if (Fn->getName().starts_with("vs_undef")) { S->eraseFromParent(); if (Cl->use_empty()) { if (&*it == Cl) ++it; Cl->eraseFromParent(); } } } }

int main(int argc, char** argv) {
  std::vector<std::string> files, entries; std::string out = ".", passes = "function(sroa,early-cse<memssa>,simplifycfg<no-hoist-common-insts;no-sink-common-insts;no-switch-to-lookup;speculate-blocks>,dce)"; 
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--entry") entries.push_back(nx()); else if (a == "--jobs") opt.jobs = stoi(nx()); else if (a == "--timeout") opt.timeout = stod(nx()); else if (a == "--qtimeout") opt.qtimeout = stoi(nx()); else if (a == "--rlimit") opt.rlimit = stoul(nx()); else if (a == "--rlimit1") opt.rlimit1 = stoul(nx()); else if (a == "--max-instr") opt.maxInstr = stoull(nx()); else if (a == "--max-viol") opt.maxViol = stoi(nx()); else if (a == "--max-tests") opt.maxTests = stoi(nx()); else if (a == "--passes") passes = nx(); else if (a == "--repo") opt.repo = nx(); else if (a == "--dump") opt.dump = true; else if (a == "--trace") opt.trace = true;
    else if (a == "-D") { std::string d = nx(); size_t q = d.find('='); opt.params[d.substr(0, q)] = stoll(d.substr(q + 1)); } else files.push_back(a); }
  double t0 = now(); LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> M;
  for (auto& f : files) { auto m = parseIRFile(f, err, C); if (!m) { err.print("vsx", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "vsx: link failed\n"); return 3; } }
  if (entries.empty()) for (auto& F : *M) if (F.getName().starts_with("t_") && !F.isDeclaration()) entries.push_back(F.getName().str());
  std::set<std::string> keep(entries.begin(), entries.end()); keep.insert("llvm.global_ctors"); keep.insert("llvm.used");
  internalizeModule(*M, [&](const GlobalValue& G) { return keep.count(G.getName().str()) != 0; });
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "globaldce")) { errs() << toString(std::move(e)) << "\n"; return 3; } MPM.run(*M, MAM); }
    insertUndefs(*M);
    { ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(e)) << "\n"; return 3; } MPM.run(*M, MAM); } 
    dropUndefStores(*M); { ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "function(dce)")) return 3; MPM.run(*M, MAM); } }
  if (opt.dump) { M->print(outs(), nullptr); return 0; }
  Engine E; E.M = M.get(); E.DL = &M->getDataLayout(); E.locList.push_back(nullptr); E.locHit.push_back(0); E.initZ3(); E.outBase = out; E.t0 = now(); E.pool.push_back(Val(0));
  State init; E.deadline = now() + opt.timeout; E.initMem(init);
  if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
    std::vector<std::pair<u64, Function*>> cs; for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) if (!E.runTo(init, E.getFunc(c.second))) { for (auto& v : E.viols) fprintf(stderr, "start-up: %s: %s: %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto& u : E.unsupported) fprintf(stderr, "start-up: unsupported: %s\n", u.c_str()); return 3; } }
  init.heapLive = 0; init.entry = 0; init.instrs = 0; init.obs.clear();
  if (opt.trace) fprintf(stderr, "loaded in %.2fs, %zu objects\n", now() - t0, init.mem.size());
  // once a violation is known, the rest of the exploration is limited to a minute
  E.firstViol = (double*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int tok[2], done[2]; if (pipe(tok) || pipe(done)) return 3; fcntl(tok[0], F_SETFL, O_NONBLOCK); for (int i = 0; i < opt.jobs; ++i) if (write(tok[1], "t", 1)) {}
  E.tokR = tok[0]; E.tokW = tok[1]; int bad = 0; double start = now();
  std::map<pid_t, std::string> kids; std::vector<std::string> failed;
  auto reap = [&](bool block) { int st; pid_t p; while ((p = waitpid(-1, &st, block ? 0 : WNOHANG)) > 0) { auto it = kids.find(p); if (it != kids.end()) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { failed.push_back(it->second); bad = 1; } kids.erase(it); } if (block) break; } };
  for (auto& en : entries) {
    while (!E.tryToken()) { reap(false); usleep(3000); }
    Function* F = M->getFunction(en); if (!F || F->isDeclaration()) { fprintf(stderr, "vsx: no entry %s\n", en.c_str()); return 3; }
    pid_t p = ::fork(); if (p == 0) {
      close(done[0]); E.entryName = en; E.resetStats(); E.deadline = start + opt.timeout; State* s = new State(init); std::vector<Val> none; E.hitFn.insert(E.getFunc(F)); E.pushFrame(*s, E.getFunc(F), none, nullptr); E.work.push_back(s); E.explore(); E.writeOut(); E.giveToken();
      // wait for own split-off children so that a crash among them is noticed
      int st, rc = 0; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 4; _exit(rc); }
    kids[p] = en; }
  close(done[1]); while (!kids.empty()) reap(true);
  // split-off processes hold the write end until they exit
  char c; while (read(done[0], &c, 1) > 0) {}
  for (auto& f : failed) fprintf(stderr, "vsx: worker for %s failed\n", f.c_str());
  if (opt.trace) fprintf(stderr, "explored in %.2fs\n", now() - start);
  return bad ? 4 : 0; }
