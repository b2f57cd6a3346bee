// Symbolic executor over LLVM IR: all paths of a harness entry point are executed with symbolic
// input bytes; branch feasibility and assertions are decided by Z3 (see DESIGN.md).
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <iostream>
#include <sstream>
#include <cmath>
#include <set>
#include <map>
using namespace llvm;
typedef std::chrono::steady_clock Clk;

static const unsigned PS = 512;
static Ex const UNINIT = (Ex)1;

struct Cell { uint64_t c; Ex e; };

struct Page { uint32_t rc; uint32_t nsym; Ex *e; uint8_t c[PS]; };
static Page *newPage() { Page *p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; return p; }
static void unref(Page *p) { if (--p->rc == 0) { free(p->e); free(p); } }
static Page *clonePage(Page *o) { Page *p = (Page *)malloc(sizeof(Page)); memcpy(p, o, sizeof(Page)); p->rc = 1; if (o->e) { p->e = (Ex *)malloc(PS * sizeof(Ex)); memcpy(p->e, o->e, PS * sizeof(Ex)); } return p; }
static Page *uninitPage = nullptr;

struct Obj {
  uint32_t rc = 1; uint64_t size = 0; uint32_t base = 0; // low 32 address bits of byte 0
  int32_t bufId = -1; uint32_t slackLo = 0; uint64_t core = 0; uint32_t seq = 0; bool ro = false; bool live = true;
  std::vector<Page *> pg;
  ~Obj() { for (Page *p : pg) unref(p); }
};
static void unref(Obj *o) { if (o && --o->rc == 0) delete o; }

struct Ty { uint16_t w = 0; uint16_t lanes = 1; bool vec = false, wide = false; uint32_t bits = 0; };

enum Op : uint16_t {
  O_BIN, O_SUB, O_ICMP, O_ZEXT, O_SEXT, O_TRUNC, O_BITCAST, O_MOVE, O_LOAD, O_STORE, O_GEP, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL,
  O_ALLOCA, O_INSERT, O_EXTRACT, O_SHUF, O_EXTVAL, O_INSVAL, O_UNREACH, O_FP, O_FENCE, O_RMW, O_CMPXCHG, O_UNSUP
};
enum BI : int {
  B_NONE, B_USER, B_INDIRECT, B_NOP, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_CTTZ, B_CTLZ, B_CTPOP, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_USUBSAT, B_UADDSAT, B_SSUBSAT_, B_ABS, B_BSWAP, B_FSHL, B_FSHR,
  B_XGETBV, B_CPUID, B_PMOVMSK, B_PTESTZ, B_PTESTC, B_PTESTNZC, B_PBLENDV, B_LDDQU, B_PACKU, B_PACKS, B_PSHUFB, B_REDOR, B_REDAND, B_REDADD, B_REDXOR, B_REDMUL, B_REDUMAX, B_REDUMIN, B_REDSMAX, B_REDSMIN, B_PSLL, B_PSRL, B_PSRA, B_PSADBW, B_BITREV, B_SADDO, B_SSUBO, B_PAVG, B_XGETBVASM, B_REALLOC, B_SADDSAT, B_SSUBSAT, B_PMADDWD, B_PERMD, B_PSLLV, B_PSRLV, B_PMULHU, B_UADDO, B_USUBO, B_UMULO, B_EXPECT,
  B_VP_BUF, B_VP_SYM, B_VP_ASSUME, B_VP_CHECK, B_VP_EQUAL, B_VP_UNTOUCHED, B_VP_PARAM, B_VP_OBSERVE, B_VP_COVER, B_VP_CONC, B_VP_NATIVE, B_VP_FLUSH, B_VP_DONE, B_VP_PREEMPT, B_VP_READONLY, B_VP_UNDEF, B_TLSADDR, B_FPJUNK,
  B_ASSERTFAIL, B_ABORT, B_MALLOC, B_CALLOC, B_FREE, B_MEMCMP, B_PRINT, B_ISCONST, B_OBJSIZE, B_UNKNOWN
};

struct Fn;
struct Inst {
  Op op; uint16_t pred = 0; Ty t, t2; int32_t dst = -1, a = 0, b = 0, c = 0; uint32_t x = 0, y = 0; int64_t imm = 0; const Instruction *src = nullptr;
  std::vector<std::pair<int32_t, int64_t>> idx; // gep
  std::vector<int32_t> args; std::vector<int> mask; std::vector<std::pair<uint64_t, uint32_t>> cases; Fn *callee = nullptr; BI bi = B_NONE;
  uint32_t edge0 = 0, edge1 = 0;
};
struct Move { int32_t src, dst; uint16_t n; };
struct Edge { uint32_t target; std::vector<Move> mv; };
struct Block { std::vector<Inst> in; };
struct Fn {
  const Function *f = nullptr; bool decoded = false; std::string name; std::vector<Block> bb; std::vector<Edge> edges; std::vector<Cell> consts; uint32_t ncells = 0; std::vector<std::pair<int32_t, uint16_t>> argCells; uint64_t calls = 0;
};
struct Frame { Fn *fn; uint32_t base, bb, pc; uint32_t memMark; int32_t retDst; uint16_t retN; };

struct Obs { std::vector<Cell> bytes; std::string tag; };
struct State {
  std::vector<Cell> stack; std::vector<Frame> frames; std::vector<Obj *> mem; std::vector<Ex> cons; std::vector<std::pair<Ex, bool>> facts; std::vector<std::pair<uint32_t, Ex>> subs; std::vector<uint8_t> model;
  std::vector<Obs> obs; Ex pre = nullptr; uint64_t preFn = 0; uint32_t preCnt = 0, preDepth = 0; std::vector<std::pair<uint32_t, Obj *>> preTls; std::vector<Ex> obl; uint32_t symSeq = 0, symSeq2 = 0, version = 1, seq = 0; uint64_t instrs = 0; uint64_t uid = 0; uint32_t forked = 0; std::vector<std::pair<uint32_t, uint32_t>> syms; // (first var, n)
  State() {}
  State(const State &o) = default;
};
static void freeState(State *s) { for (Obj *o : s->mem) unref(o); for (auto &p : s->preTls) unref(p.second); delete s; }

struct Violation { std::string kind, msg; };
struct Inconclusive { std::string msg; };
struct PathKill {};
struct PathDone {};

struct Engine {
  LLVMContext lctx; std::unique_ptr<Module> mod; const DataLayout *dl = nullptr; Stats st; Solver solver{&st};
  std::map<const Function *, Fn *> fns; std::map<const GlobalVariable *, uint64_t> gaddr; std::vector<Obj *> gmem; std::vector<Fn *> fnById; std::map<const Function *, uint64_t> faddr;
  std::vector<int64_t> params; std::vector<State *> work; State *S = nullptr;
  std::map<std::string, uint32_t> varByName; std::vector<std::string> varNames;
  std::set<std::string> covers; uint64_t uidNext = 1; uint64_t maxInstr = 800000000ULL; 
  std::unordered_map<Ex, Ex> rmemo; uint64_t rmemoUid = 0; uint32_t rmemoVer = 0;

  // ---------- variables
  uint32_t var(const std::string &n) { auto it = varByName.find(n); if (it != varByName.end()) return it->second; uint32_t i = varNames.size(); varNames.push_back(n); varByName[n] = i; return i; }

  // ---------- module loading
  Ty ty(Type *t) {
    Ty r;
    if (t->isVoidTy()) { r.lanes = 0; return r; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) { Ty e = ty(v->getElementType()); if (e.wide) throw Inconclusive{"vector of wide ints"}; r.w = e.w; r.lanes = v->getNumElements(); r.vec = true; r.bits = r.w * r.lanes; return r; }
    if (t->isStructTy()) { r.lanes = 0; for (Type *e : cast<StructType>(t)->elements()) { Ty x = ty(e); if (x.lanes != 1) throw Inconclusive{"struct of vectors"}; r.w = x.w; r.lanes++; } r.bits = 0; return r; }
    unsigned b;
    if (t->isPointerTy()) b = 64; else if (t->isIntegerTy()) b = t->getIntegerBitWidth(); else if (t->isFloatTy()) b = 32; else if (t->isDoubleTy()) b = 64; else throw Inconclusive{"unsupported type"};
    r.bits = b;
    if (b > 64) { if (b % 64) throw Inconclusive{"odd wide int"}; r.w = 64; r.lanes = b / 64; r.wide = true; } else r.w = b;
    return r;
  }
  // alignment the instruction set enforces: only whole vector accesses that are declared aligned fault
  static uint32_t alignOf(Type *t, uint64_t a) { auto *v = dyn_cast<FixedVectorType>(t); if (!v) return 0; uint64_t b = (uint64_t)v->getNumElements() * v->getElementType()->getPrimitiveSizeInBits() / 8; return b >= 16 && a >= 16 ? (uint32_t)std::min(a, b) : 0; }
  void checkAlign(uint64_t addr, Inst &in, const char *what) { if (in.y && (addr & (in.y - 1))) { std::ostringstream s; s << "aligned vector " << what << " at an address that is not a multiple of " << in.y; throw Violation{"misaligned", s.str()}; } }
  Fn *getFn(const Function *f) { auto &p = fns[f]; if (!p) { p = new Fn(); p->f = f; p->name = f->getName().str(); } return p; }

  uint64_t mkAddr(uint32_t id, uint32_t low) { return ((uint64_t)(id + 1) << 32) | low; }
  Obj *newObj(uint64_t size, uint32_t align = 0, uint32_t slackLo = 0, bool init = false) {
    Obj *o = new Obj(); o->size = size; o->slackLo = slackLo; o->core = size; o->base = 0x10000000u + ((align + 64 * 1024 - slackLo) & 63);
    unsigned np = (size + PS - 1) / PS; o->pg.resize(np);
    for (unsigned i = 0; i < np; i++) { if (init) o->pg[i] = newPage(); else { o->pg[i] = uninitPage; uninitPage->rc++; } }
    return o;
  }
  void load(const std::string &path) {
    uninitPage = newPage(); uninitPage->e = (Ex *)malloc(PS * sizeof(Ex)); for (unsigned i = 0; i < PS; i++) uninitPage->e[i] = UNINIT; uninitPage->nsym = PS;
    SMDiagnostic err; mod = parseIRFile(path, err, lctx); if (!mod) { err.print("engine", errs()); exit(3); }
    dl = &mod->getDataLayout();
    uint64_t fi = 0; for (Function &f : *mod) { faddr[&f] = 0x1000 + 16 * fi++; fnById.push_back(getFn(&f)); }
    for (GlobalVariable &g : mod->globals()) {
      uint64_t sz = g.getValueType()->isSized() ? (uint64_t)dl->getTypeAllocSize(g.getValueType()) : 8;
      Obj *o = newObj(sz, 0, 0, true); gaddr[&g] = mkAddr(gmem.size(), o->base); gmem.push_back(o);
    }
    for (GlobalVariable &g : mod->globals()) {
      Obj *o = gmem[(gaddr[&g] >> 32) - 1];
      if (g.hasInitializer()) initConst(o, 0, g.getInitializer());
      o->ro = g.isConstant(); gshared.resize(gmem.size()); gshared[(gaddr[&g] >> 32) - 1] = g.isConstant() || g.getName().starts_with("vp_") ? 0 : g.isThreadLocal() ? 2 : 1;
    }
  }
  void poke(Obj *o, uint64_t off, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) { uint64_t q = off + i; if (q < o->size) o->pg[q / PS]->c[q % PS] = v >> (8 * i); } }
  void initConst(Obj *o, uint64_t off, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
      unsigned es = ca->getElementByteSize();
      for (unsigned i = 0; i < ca->getNumElements(); i++) { uint64_t v = ca->getElementType()->isIntegerTy() ? ca->getElementAsInteger(i) : ca->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); poke(o, off + (uint64_t)i * es, v, es); }
      return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t es = dl->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initConst(o, off + i * es, a->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = dl->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
    if (auto *v = dyn_cast<ConstantVector>(c)) { uint64_t es = dl->getTypeAllocSize(v->getType()->getElementType()); for (unsigned i = 0; i < v->getNumOperands(); i++) initConst(o, off + i * es, v->getOperand(i)); return; }
    unsigned n = dl->getTypeStoreSize(c->getType());
    poke(o, off, constScalar(c), n);
  }
  uint64_t constScalar(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0);
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *g = dyn_cast<GlobalVariable>(c)) return gaddr.at(g);
    if (auto *f = dyn_cast<Function>(c)) return faddr.at(f);
    if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getIntegerBitWidth();
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*dl, off)) throw Inconclusive{"const gep"}; return constScalar(ce->getOperand(0)) + off.getSExtValue(); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(w);
      case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(w);
      case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(w);
      default: break;
      }
    }
    throw Inconclusive{"unsupported constant"};
  }
  int32_t constCells(Fn *fn, const Constant *c) {
    Ty t = ty(c->getType()); int32_t at = fn->consts.size();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0; i < std::max<unsigned>(1, t.lanes); i++) fn->consts.push_back({0, nullptr}); return ~at; }
    if (t.vec || c->getType()->isStructTy()) { for (unsigned i = 0; i < t.lanes; i++) fn->consts.push_back({constScalar(c->getAggregateElement(i)) & (t.vec ? maskw(t.w) : ~0ULL), nullptr}); return ~at; }
    if (t.wide) { auto *ci = dyn_cast<ConstantInt>(c); if (!ci) throw Inconclusive{"wide const"}; for (unsigned i = 0; i < t.lanes; i++) fn->consts.push_back({ci->getValue().extractBitsAsZExtValue(64, 64 * i), nullptr}); return ~at; }
    fn->consts.push_back({constScalar(c), nullptr}); return ~at;
  }

  // ---------- decoding
  BI builtin(const Function *f, Inst &in) {
    StringRef n = f->getName();
    static const std::map<std::string, BI> ex = {
      {"vp_buf", B_VP_BUF}, {"vp_sym", B_VP_SYM}, {"vp_assume", B_VP_ASSUME}, {"vp_check", B_VP_CHECK}, {"vp_equal", B_VP_EQUAL}, {"vp_untouched", B_VP_UNTOUCHED}, {"vp_param", B_VP_PARAM}, {"vp_observe", B_VP_OBSERVE}, {"vp_cover", B_VP_COVER}, {"vp_conc", B_VP_CONC}, {"vp_native", B_VP_NATIVE}, {"vp_flush", B_VP_FLUSH}, {"vp_done", B_VP_DONE}, {"vp_preempt", B_VP_PREEMPT}, {"vp_readonly", B_VP_READONLY}, {"vp_undef", B_VP_UNDEF},
      {"__assert_fail", B_ASSERTFAIL}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_REALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"puts", B_PRINT}, {"printf", B_PRINT}, {"putchar", B_PRINT}};
    auto it = ex.find(n.str()); if (it != ex.end()) return it->second;
    auto pre = [&](const char *p) { return n.starts_with(p); };
    if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.prefetch") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || n == "llvm.x86.avx.vzeroupper" || n == "llvm.x86.sse2.pause" || pre("llvm.stacksave") || pre("llvm.stackrestore")) return B_NOP;
    if (pre("llvm.threadlocal.address")) return B_TLSADDR;
    if (pre("llvm.memcpy")) return B_MEMCPY; if (pre("llvm.memmove")) return B_MEMMOVE; if (pre("llvm.memset")) return B_MEMSET;
    if (pre("llvm.cttz")) return B_CTTZ; if (pre("llvm.ctlz")) return B_CTLZ; if (pre("llvm.ctpop")) return B_CTPOP;
    if (pre("llvm.umax")) return B_UMAX; if (pre("llvm.umin")) return B_UMIN; if (pre("llvm.smax")) return B_SMAX; if (pre("llvm.smin")) return B_SMIN;
    if (pre("llvm.usub.sat")) return B_USUBSAT; if (pre("llvm.uadd.sat")) return B_UADDSAT; if (pre("llvm.abs")) return B_ABS; if (pre("llvm.bswap")) return B_BSWAP; if (pre("llvm.fshl")) return B_FSHL; if (pre("llvm.fshr")) return B_FSHR;
    if (n == "llvm.x86.xgetbv") return B_XGETBV;
    if (pre("llvm.x86.sse2.pmovmskb") || pre("llvm.x86.avx2.pmovmskb") || pre("llvm.x86.sse.movmsk") || pre("llvm.x86.sse2.movmsk") || pre("llvm.x86.avx.movmsk")) return B_PMOVMSK;
    if (n == "llvm.x86.sse41.ptestz" || n == "llvm.x86.avx.ptestz.256") return B_PTESTZ;
    if (n == "llvm.x86.sse41.ptestc" || n == "llvm.x86.avx.ptestc.256") return B_PTESTC;
    if (n == "llvm.x86.sse41.ptestnzc" || n == "llvm.x86.avx.ptestnzc.256") return B_PTESTNZC;
    if (n == "llvm.x86.sse41.pblendvb" || n == "llvm.x86.avx2.pblendvb") return B_PBLENDV;
    if (n == "llvm.x86.sse3.ldu.dq" || n == "llvm.x86.avx.ldu.dq.256") return B_LDDQU;
    if (pre("llvm.x86.sse2.packus") || pre("llvm.x86.sse41.packus") || pre("llvm.x86.avx2.packus")) return B_PACKU;
    if (pre("llvm.x86.sse2.packss") || pre("llvm.x86.avx2.packss")) return B_PACKS;
    if (pre("llvm.x86.ssse3.pshuf.b") || pre("llvm.x86.avx2.pshuf.b")) return B_PSHUFB;
    if (pre("llvm.vector.reduce.or")) return B_REDOR; if (pre("llvm.vector.reduce.and")) return B_REDAND; if (pre("llvm.vector.reduce.add")) return B_REDADD;
    if (pre("llvm.vector.reduce.xor")) return B_REDXOR; if (pre("llvm.vector.reduce.mul")) return B_REDMUL; if (pre("llvm.vector.reduce.umax")) return B_REDUMAX; if (pre("llvm.vector.reduce.umin")) return B_REDUMIN; if (pre("llvm.vector.reduce.smax")) return B_REDSMAX; if (pre("llvm.vector.reduce.smin")) return B_REDSMIN;
    if (pre("llvm.x86.sse2.psll.") || pre("llvm.x86.avx2.psll.") || pre("llvm.x86.sse2.pslli.") || pre("llvm.x86.avx2.pslli.")) return B_PSLL;
    if (pre("llvm.x86.sse2.psrl.") || pre("llvm.x86.avx2.psrl.") || pre("llvm.x86.sse2.psrli.") || pre("llvm.x86.avx2.psrli.")) return B_PSRL;
    if (pre("llvm.x86.sse2.psra.") || pre("llvm.x86.avx2.psra.") || pre("llvm.x86.sse2.psrai.") || pre("llvm.x86.avx2.psrai.")) return B_PSRA;
    if (n == "llvm.x86.sse2.psad.bw" || n == "llvm.x86.avx2.psad.bw") return B_PSADBW;
    if (pre("llvm.x86.sse2.pavg") || pre("llvm.x86.avx2.pavg")) return B_PAVG;
    if (n == "llvm.x86.avx512.pshuf.b.512") return B_PSHUFB; if (n == "llvm.x86.avx512.packuswb.512" || n == "llvm.x86.avx512.packusdw.512") return B_PACKU;
    if (pre("llvm.sadd.sat")) return B_SADDSAT; if (pre("llvm.ssub.sat")) return B_SSUBSAT;
    if (n == "llvm.x86.sse2.pmadd.wd" || n == "llvm.x86.avx2.pmadd.wd") return B_PMADDWD; if (n == "llvm.x86.avx2.permd") return B_PERMD; if (n == "llvm.x86.sse2.pmulhu.w" || n == "llvm.x86.avx2.pmulhu.w") return B_PMULHU;
    if (pre("llvm.x86.avx2.psllv")) return B_PSLLV; if (pre("llvm.x86.avx2.psrlv")) return B_PSRLV;
    if (pre("llvm.bitreverse")) return B_BITREV; if (pre("llvm.sadd.with.overflow")) return B_SADDO; if (pre("llvm.ssub.with.overflow")) return B_SSUBO;
    if (pre("llvm.uadd.with.overflow")) return B_UADDO; if (pre("llvm.usub.with.overflow")) return B_USUBO; if (pre("llvm.umul.with.overflow")) return B_UMULO; if (pre("llvm.expect")) return B_EXPECT;
    if (pre("llvm.is.constant")) return B_ISCONST; if (pre("llvm.objectsize")) return B_OBJSIZE;
    if (!f->isDeclaration()) return B_USER;
    if (f->getReturnType()->isDoubleTy() || f->getReturnType()->isFloatTy()) return B_FPJUNK; // maths function: any value
    return B_UNKNOWN;
  }
  void decode(Fn *fn) {
    if (fn->decoded) return;
    fn->decoded = true; const Function *f = fn->f;
    std::map<const Value *, int32_t> slot; std::map<const Value *, int32_t> cslot; std::map<const BasicBlock *, uint32_t> bbid;
    uint32_t nc = 0;
    for (auto &a : f->args()) { Ty t = ty(a.getType()); slot[&a] = nc; fn->argCells.push_back({(int32_t)nc, t.lanes}); nc += t.lanes; }
    uint32_t bi = 0;
    for (auto &b : *f) { bbid[&b] = bi++; for (auto &i : b) if (!i.getType()->isVoidTy()) { slot[&i] = nc; nc += ty(i.getType()).lanes; } }
    fn->ncells = nc; fn->bb.resize(bi);
    auto opn = [&](const Value *v) -> int32_t {
      auto it = slot.find(v); if (it != slot.end()) return it->second;
      auto c = dyn_cast<Constant>(v); if (!c) throw Inconclusive{"non-constant operand (metadata?)"};
      auto jt = cslot.find(v); if (jt != cslot.end()) return jt->second;
      return cslot[v] = constCells(fn, c);
    };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> uint32_t {
      Edge e; e.target = bbid[to];
      for (auto &ph : to->phis()) { int32_t s = opn(ph.getIncomingValueForBlock(from)); e.mv.push_back({s, slot[&ph], (uint16_t)ty(ph.getType()).lanes}); }
      fn->edges.push_back(e); return fn->edges.size() - 1;
    };
    for (auto &b : *f) {
      auto &out = fn->bb[bbid[&b]].in;
      for (auto &i : b) {
        if (isa<PHINode>(i)) continue;
        Inst in; in.src = &i; in.op = O_UNSUP;
        if (!i.getType()->isVoidTy()) { in.dst = slot[&i]; in.t = ty(i.getType()); }
        switch (i.getOpcode()) {
        case Instruction::Add: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Sub: {
          static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::URem, K_UREM}, {Instruction::SDiv, K_SDIV}, {Instruction::SRem, K_SREM}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}};
          in.op = i.getOpcode() == Instruction::Sub ? O_SUB : O_BIN; if (in.op == O_BIN) in.x = km.at(i.getOpcode());
          if (in.t.wide && !(in.op == O_BIN && (in.x == K_AND || in.x == K_OR || in.x == K_XOR || in.x == K_SHL || in.x == K_LSHR))) { in.op = O_UNSUP; break; }
          in.a = opn(i.getOperand(0)); in.b = opn(i.getOperand(1)); break; }
        case Instruction::ICmp: in.op = O_ICMP; in.pred = cast<ICmpInst>(i).getPredicate(); in.t2 = ty(i.getOperand(0)->getType()); in.a = opn(i.getOperand(0)); in.b = opn(i.getOperand(1)); break;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: in.op = i.getOpcode() == Instruction::ZExt ? O_ZEXT : i.getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC; in.t2 = ty(i.getOperand(0)->getType()); in.a = opn(i.getOperand(0)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { in.t2 = ty(i.getOperand(0)->getType()); in.a = opn(i.getOperand(0)); in.op = in.t2.w == in.t.w ? O_MOVE : in.t2.w < in.t.w ? O_ZEXT : O_TRUNC; break; }
        case Instruction::BitCast: in.op = O_BITCAST; in.t2 = ty(i.getOperand(0)->getType()); in.a = opn(i.getOperand(0)); if (in.t2.w == in.t.w && in.t2.lanes == in.t.lanes) in.op = O_MOVE; break;
        case Instruction::Freeze: in.op = O_MOVE; in.a = opn(i.getOperand(0)); break;
        case Instruction::Load: in.op = O_LOAD; in.a = opn(i.getOperand(0)); in.y = alignOf(i.getType(), cast<LoadInst>(i).getAlign().value()); break;
        case Instruction::Store: in.op = O_STORE; in.t = ty(i.getOperand(0)->getType()); in.b = opn(i.getOperand(0)); in.a = opn(i.getOperand(1)); in.y = alignOf(i.getOperand(0)->getType(), cast<StoreInst>(i).getAlign().value()); break;
        case Instruction::GetElementPtr: {
          in.op = O_GEP; in.a = opn(i.getOperand(0)); if (i.getType()->isVectorTy()) { in.op = O_UNSUP; break; }
          for (auto gti = gep_type_begin(&i), ge = gep_type_end(&i); gti != ge; ++gti) {
            const Value *ix = gti.getOperand();
            if (auto *stt = gti.getStructTypeOrNull()) { in.imm += dl->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            int64_t sc = dl->getTypeAllocSize(gti.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) { in.imm += ci->getSExtValue() * sc; continue; }
            in.idx.push_back({opn(ix), sc}); in.mask.push_back(ix->getType()->getIntegerBitWidth());
          }
          break; }
        case Instruction::Select: in.op = O_SELECT; in.t2 = ty(i.getOperand(0)->getType()); in.c = opn(i.getOperand(0)); in.a = opn(i.getOperand(1)); in.b = opn(i.getOperand(2)); break;
        case Instruction::Br: { auto &br = cast<BranchInst>(i); if (br.isConditional()) { in.op = O_CBR; in.a = opn(br.getCondition()); in.edge0 = edge(&b, br.getSuccessor(0)); in.edge1 = edge(&b, br.getSuccessor(1)); } else { in.op = O_BR; in.edge0 = edge(&b, br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto &sw = cast<SwitchInst>(i); in.op = O_SWITCH; in.t2 = ty(sw.getCondition()->getType()); in.a = opn(sw.getCondition()); for (auto &c : sw.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&b, c.getCaseSuccessor())}); in.edge0 = edge(&b, sw.getDefaultDest()); break; }
        case Instruction::Ret: in.op = O_RET; if (i.getNumOperands()) { in.a = opn(i.getOperand(0)); in.t = ty(i.getOperand(0)->getType()); } else in.t.lanes = 0; break;
        case Instruction::Alloca: { auto &al = cast<AllocaInst>(i); auto s = al.getAllocationSize(*dl); in.b = INT32_MIN; if (!s) { in.imm = dl->getTypeAllocSize(al.getAllocatedType()); in.b = opn(al.getArraySize()); } else in.imm = s->getFixedValue(); in.op = O_ALLOCA; break; }
        case Instruction::Fence: in.op = O_FENCE; break;
        case Instruction::AtomicRMW: { auto &rm = cast<AtomicRMWInst>(i); if (in.t.wide || !i.getType()->isIntegerTy()) break; in.op = O_RMW; in.x = rm.getOperation(); in.a = opn(rm.getPointerOperand()); in.b = opn(rm.getValOperand()); break; }
        case Instruction::AtomicCmpXchg: { auto &cx = cast<AtomicCmpXchgInst>(i); if (!cx.getCompareOperand()->getType()->isIntegerTy()) break; in.op = O_CMPXCHG; in.t = ty(cx.getCompareOperand()->getType()); in.a = opn(cx.getPointerOperand()); in.b = opn(cx.getCompareOperand()); in.c = opn(cx.getNewValOperand()); break; }
        case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(i.getOperand(2)); in.op = O_INSERT; in.a = opn(i.getOperand(0)); in.b = opn(i.getOperand(1)); if (ci) { in.c = INT32_MIN; in.x = ci->getZExtValue(); } else in.c = opn(i.getOperand(2)); break; }
        case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(i.getOperand(1)); in.op = O_EXTRACT; in.t2 = ty(i.getOperand(0)->getType()); in.a = opn(i.getOperand(0)); if (ci) { in.c = INT32_MIN; in.x = ci->getZExtValue(); } else in.c = opn(i.getOperand(1)); break; }
        case Instruction::ShuffleVector: { auto &sv = cast<ShuffleVectorInst>(i); in.op = O_SHUF; in.t2 = ty(sv.getOperand(0)->getType()); in.a = opn(sv.getOperand(0)); in.b = opn(sv.getOperand(1)); for (int m : sv.getShuffleMask()) in.mask.push_back(m); break; }
        case Instruction::ExtractValue: { auto &ev = cast<ExtractValueInst>(i); if (ev.getNumIndices() != 1) break; in.op = O_EXTVAL; in.a = opn(i.getOperand(0)); in.x = *ev.idx_begin(); break; }
        case Instruction::InsertValue: { auto &ev = cast<InsertValueInst>(i); if (ev.getNumIndices() != 1) break; in.op = O_INSVAL; in.a = opn(i.getOperand(0)); in.b = opn(i.getOperand(1)); in.x = *ev.idx_begin(); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: case Instruction::FCmp: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
          in.t2 = ty(i.getOperand(0)->getType()); if (in.t.wide || in.t2.wide) break;
          in.op = O_FP; in.x = i.getOpcode(); in.a = opn(i.getOperand(0)); in.b = i.getNumOperands() > 1 ? opn(i.getOperand(1)) : in.a; if (auto *fc = dyn_cast<FCmpInst>(&i)) in.pred = fc->getPredicate(); break;
        case Instruction::Unreachable: in.op = O_UNREACH; break;
        case Instruction::Call: {
          auto &ci = cast<CallInst>(i); in.op = O_CALL;
          if (ci.isInlineAsm()) { auto *ia = cast<InlineAsm>(ci.getCalledOperand()); std::string a(ia->getAsmString()); if (a.find("cpuid") != std::string::npos) in.bi = B_CPUID; else if (a.find("xgetbv") != std::string::npos && ci.getType()->isStructTy() && ci.arg_size()) { in.bi = B_XGETBVASM; in.args.push_back(opn(ci.getArgOperand(0))); } else if (a.empty()) in.bi = ci.getType()->isVoidTy() ? B_NOP : B_UNKNOWN; else in.bi = B_UNKNOWN; if (in.bi == B_CPUID) for (auto &x : ci.args()) in.args.push_back(opn(x.get())); in.t2.w = 32; break; }
          if (auto *cf = ci.getCalledFunction()) { in.bi = builtin(cf, in); in.callee = getFn(cf); } else { in.bi = B_INDIRECT; in.a = opn(ci.getCalledOperand()); }
          if (in.bi == B_LDDQU) { in.op = O_LOAD; in.a = opn(ci.getArgOperand(0)); in.y = 0; break; }
          if (in.bi == B_NOP) { if (in.dst >= 0) in.dst = -1; break; }
          for (auto &x : ci.args()) { if (x->getType()->isMetadataTy()) continue; in.args.push_back(opn(x.get())); in.mask.push_back(ty(x->getType()).lanes); }
          if (ci.arg_size()) in.t2 = ty(ci.getArgOperand(0)->getType());
          break; }
        default: break;
        }
        out.push_back(std::move(in));
      }
    }
  }

  // ---------- state helpers
  Cell *reg(int32_t o) { Frame &f = S->frames.back(); return o >= 0 ? &S->stack[f.base + o] : &f.fn->consts[~o]; }
  Ex toE(const Cell &c, unsigned w) { return c.e ? c.e : mkConst(w, c.c); }
  static Cell fromE(Ex e) { if (isC(e)) return {e->c, nullptr}; return {0, e}; }

  Ex subOf(uint32_t v) { for (auto &p : S->subs) if (p.first == v) return p.second; return nullptr; }
  Ex resolve(Ex e) {
    if (isC(e)) return e;
    if (S->subs.empty() && S->facts.empty()) return e;
    if (rmemoUid != S->uid || rmemoVer != S->version) { rmemo.clear(); rmemoUid = S->uid; rmemoVer = S->version; }
    return resolveRec(e);
  }
  Ex factOf(Ex e) {
    auto it = std::lower_bound(S->facts.begin(), S->facts.end(), e, [](const std::pair<Ex, bool> &a, Ex b) { return a.first->id < b->id; });
    if (it != S->facts.end() && it->first == e) return mkBool(it->second);
    return nullptr;
  }
  Ex resolveRec(Ex e) {
    if (e->k == K_CONST) return e;
    if (e->k == K_VAR) { Ex r = subOf(e->c); return r ? r : e; }
    auto it = rmemo.find(e); if (it != rmemo.end()) return it->second;
    Ex r = e;
    Ex kids[128]; bool ch = false;
    std::vector<Ex> big; Ex *ks = kids; if (e->n > 128) { big.resize(e->n); ks = big.data(); }
    for (unsigned i = 0; i < e->n; i++) { ks[i] = resolveRec(e->kid[i]); ch |= ks[i] != e->kid[i]; }
    if (ch) r = rebuild(e, ks);
    if (r->w == 1 && !isC(r)) {
      Ex f = r->k == K_NOT ? factOf(r->kid[0]) : factOf(r);
      if (f) r = r->k == K_NOT ? mkNot(f) : f;
    }
    rmemo[e] = r; return r;
  }
  Ex rebuild(Ex e, Ex *k) {
    switch (e->k) {
    case K_EXTRACT: return mkExtract(k[0], e->lo, e->w);
    case K_CONCAT: return mkConcat(k, e->n);
    case K_NOT: return mkNot(k[0]);
    case K_AND: case K_OR: if (e->w == 1) return mkNary(e->k, std::vector<Ex>(k, k + e->n)); return mkBit(e->k, k[0], k[1]);
    case K_XOR: return mkBit(K_XOR, k[0], k[1]);
    case K_ADD: return mkAdd(k[0], k[1]);
    case K_MUL: return mkMul(k[0], k[1]);
    case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: return mkDiv(e->k, k[0], k[1]);
    case K_SHL: case K_LSHR: case K_ASHR: return mkShift(e->k, k[0], k[1]);
    case K_EQ: return mkEq(k[0], k[1]);
    case K_ULT: return mkUlt(k[0], k[1]);
    case K_SLT: return mkSlt(k[0], k[1]);
    case K_ITE: return mkIte(k[0], k[1], k[2]);
    default: abort();
    }
  }
  void addFact(State *s, Ex e, bool v) {
    auto it = std::lower_bound(s->facts.begin(), s->facts.end(), e, [](const std::pair<Ex, bool> &a, Ex b) { return a.first->id < b->id; });
    if (it != s->facts.end() && it->first == e) return;
    s->facts.insert(it, {e, v});
  }
  // e has been resolved under s and is not constant; caller guarantees satisfiability
  void addCons(State *s, Ex e) {
    State *old = S; S = s;
    std::vector<Ex> q{e};
    while (!q.empty()) {
      Ex c = q.back(); q.pop_back();
      c = resolve(c);
      if (isC(c)) continue;
      if (c->k == K_AND) { for (unsigned i = 0; i < c->n; i++) q.push_back(c->kid[i]); continue; }
      if (c->k == K_NOT && c->kid[0]->k == K_OR) { for (unsigned i = 0; i < c->kid[0]->n; i++) q.push_back(mkNot(c->kid[0]->kid[i])); continue; }
      s->version++;
      if (c->k == K_EQ && c->kid[0]->w == 8) {
        Ex a = c->kid[0], b = c->kid[1]; Ex v = nullptr, t = nullptr;
        if (isC(a)) std::swap(a, b);
        if (a->k == K_VAR && isC(b)) { v = a; t = b; }
        else if (a->k == K_VAR && b->k == K_VAR) { if (a->c > b->c) { v = a; t = b; } else { v = b; t = a; } }
        if (v) {
          for (auto &p : s->subs) if (p.second == v) p.second = t;
          s->subs.push_back({(uint32_t)v->c, t});
          s->version++;
          std::vector<Ex> oc; oc.swap(s->cons); s->facts.clear();
          for (Ex o : oc) q.push_back(o);
          continue;
        }
      }
      s->cons.push_back(c);
      if (c->k == K_NOT) addFact(s, c->kid[0], false); else addFact(s, c, true);
      s->version++;
    }
    S = old;
  }
  bool evalAll(const std::vector<Ex> &cs, const std::vector<uint8_t> &m) { P->epoch++; for (Ex c : cs) if (!evalE(c, m)) return false; return true; }

  // propose small changes to m that could make e evaluate to v
  bool tryMake(Ex e, bool v, std::vector<uint8_t> &m, unsigned variant, int depth) {
    if (depth > 8) return false;
    auto set = [&](uint32_t i, uint8_t x) { if (m.size() <= i) m.resize(i + 1, 0); m[i] = x; P->epoch++; };
    switch (e->k) {
    case K_NOT: return tryMake(e->kid[0], !v, m, variant, depth + 1);
    case K_AND: case K_OR:
      if ((e->k == K_AND) == v) { for (unsigned i = 0; i < e->n; i++) { if ((evalE(e->kid[i], m) != 0) != v && !tryMake(e->kid[i], v, m, variant, depth + 1)) return false; } return true; }
      return tryMake(e->kid[variant % e->n], v, m, variant / e->n, depth + 1);
    case K_EQ: {
      Ex a = e->kid[0], b = e->kid[1];
      if (a->k != K_VAR || (b->k == K_VAR && (variant & 1))) std::swap(a, b);
      if (a->k != K_VAR) return false;
      uint64_t x = evalE(b, m);
      if (v) { set(a->c, x); return true; }
      set(a->c, (uint8_t)(x + 1 + (variant >> 1) * 37 + a->c * 11)); return true; }
    case K_ULT: {
      Ex a = e->kid[0], b = e->kid[1]; 
      if (a->k == K_VAR) { uint64_t x = evalE(b, m); if (v ? x == 0 : x > 255) return false; set(a->c, v ? x - 1 - (variant % 3 == 1 && x > 1) : std::min<uint64_t>(255, x + variant)); return true; }
      if (b->k == K_VAR) { uint64_t x = evalE(a, m); if (v && x >= 255) return false; set(b->c, v ? x + 1 + (x < 254 && variant % 3 == 1) : x); return true; }
      return false; }
    default: return false;
    }
  }
  // model for S's path condition plus goal; updates m. 1 sat 0 unsat
  int findModel(Ex goal, std::vector<uint8_t> &m) {
    P->epoch++;
    for (unsigned variant = 0; variant < 6; variant++) {
      std::vector<uint8_t> t = m; P->epoch++;
      if (!tryMake(goal, true, t, variant, 0)) { if (variant) break; else continue; }
      P->epoch++;
      if (!evalE(goal, t)) continue;
      bool ok = true; for (Ex c : S->cons) if (!evalE(c, t)) { ok = false; break; }
      if (ok) { m = t; st.repaired++; fixSubs(m); return 1; }
    }
    // independent slice
    std::vector<Ex> sl{goal}; std::set<uint32_t> vs(varsOf(goal).begin(), varsOf(goal).end());
    std::vector<char> used(S->cons.size(), 0); bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < S->cons.size(); i++) if (!used[i]) {
        bool hit = false; for (uint32_t v : varsOf(S->cons[i])) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; sl.push_back(S->cons[i]); for (uint32_t v : varsOf(S->cons[i])) vs.insert(v); }
      }
    }
    double ss0 = st.solverSec; int r = solver.query(sl, m);
    if (getenv("VP_DEBUG") && st.solverSec - ss0 > 0.03) { Frame &f = S->frames.back(); std::string t; raw_string_ostream os(t); f.fn->bb[f.bb].in[f.pc].src->print(os); fprintf(stderr, "slow %.3f r=%d %s: %s\n  %zu cons, goal %s\n", st.solverSec - ss0, r, f.fn->name.c_str(), t.c_str(), sl.size(), showE(goal, 5).substr(0, 600).c_str()); }
    if (r < 0) throw Inconclusive{"solver timeout"};
    if (r == 1) fixSubs(m);
    return r;
  }
  void fixSubs(std::vector<uint8_t> &m) { P->epoch++; for (auto &p : S->subs) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = isC(p.second) ? p.second->c : (p.second->c < m.size() ? m[p.second->c] : 0); } P->epoch++; }

  State *clone(State *s) { State *n = new State(*s); for (Obj *o : n->mem) if (o) o->rc++; for (auto &p : n->preTls) p.second->rc++; n->uid = uidNext++; return n; }

  bool decide(Ex cond) {
    Ex e = resolve(cond);
    if (isC(e)) return e->c;
    if (splitAtoms) { // case split on the individual atoms of a conjunction / disjunction
      Ex b = e->k == K_NOT ? e->kid[0] : e;
      if ((b->k == K_AND || b->k == K_OR) && b->n <= 64) { bool r = b->k == K_AND; for (unsigned i = 0; i < b->n; i++) { bool v = decide(b->kid[i]); if (v != (b->k == K_AND)) { r = v; break; } } return r != (e->k == K_NOT); }
    }
    P->epoch++; bool v = evalE(e, S->model) != 0;
    Ex other = v ? mkNot(e) : e;
    std::vector<uint8_t> m = S->model;
    int r = findModel(other, m);
    if (r == 0) { S->version++; if (e->k == K_NOT) addFact(S, e->kid[0], !v); else addFact(S, e, v); return v; }
    S->forked++; State *n = clone(S); n->model = m; addCons(n, other); work.push_back(n); st.forks++;
    addCons(S, v ? e : mkNot(e));
    return v;
  }
  uint64_t concretize(Ex v) {
    Ex e = resolve(v);
    for (int i = 0; i < 5000; i++) {
      if (isC(e)) return e->c;
      P->epoch++; uint64_t x = evalE(e, S->model);
      if (decide(mkEq(e, mkConst(e->w, x)))) return x;
      e = resolve(e);
    }
    throw Inconclusive{"too many values in concretisation"};
  }
  uint64_t conc(Cell &c) { if (!c.e) return c.c; uint64_t v = concretize(c.e); return v; }

  // ---------- memory
  Obj *objAt(uint64_t addr, uint64_t n, uint64_t &off, const char *what, bool wr) {
    uint64_t id = addr >> 32;
    if (id == 0 || id > S->mem.size() || !S->mem[id - 1]) throw Violation{wr ? "oob-write" : "oob-read", "access through invalid pointer"};
    Obj *o = S->mem[id - 1]; uint64_t lo = addr & 0xffffffffu;
    off = lo - o->base;
    if (lo < o->base || off + n > o->size || off > o->size) {
      std::ostringstream s; s << what << " of " << n << " byte(s) at offset " << (int64_t)(lo - (uint64_t)o->base) - (int64_t)o->slackLo << " of object ";
      if (o->bufId >= 0) s << "buf" << o->bufId; else s << "#" << id; s << " (size " << o->core << ")";
      throw Violation{wr ? "oob-write" : "oob-read", s.str()};
    }
    if (wr && o->ro) throw Violation{"ro-write", "write to constant object"};
    return o;
  }
  Obj *wobj(uint64_t addr) { Obj *&o = S->mem[(addr >> 32) - 1]; if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; for (Page *p : n->pg) p->rc++; o->rc--; o = n; } return o; }
  Page *wpage(Obj *o, uint64_t pi) { Page *&p = o->pg[pi]; if (p->rc > 1) { Page *n = clonePage(p); p->rc--; p = n; } return p; }
  Ex uninitByte(Obj *o, uint64_t off) {
    char nm[64]; if (o->bufId >= 0) snprintf(nm, sizeof nm, "junk:%d:%lld", o->bufId, (long long)off - (long long)o->slackLo); else snprintf(nm, sizeof nm, "stack:%u:%llu", o->seq, (unsigned long long)off);
    return mkVar(var(nm));
  }
  Cell readByte(Obj *o, uint64_t off) {
    Page *p = o->pg[off / PS]; unsigned i = off % PS;
    if (p->e && p->e[i]) { Ex e = p->e[i] == UNINIT ? uninitByte(o, off) : p->e[i]; if (e->k == K_VAR && !S->subs.empty()) { Ex r = subOf(e->c); if (r) e = r; } return fromE(e); }
    return {p->c[i], nullptr};
  }
  Ex rawByte(Obj *o, uint64_t off) { Page *p = o->pg[off / PS]; unsigned i = off % PS; if (p->e && p->e[i]) return p->e[i] == UNINIT ? uninitByte(o, off) : p->e[i]; return mkConst(8, p->c[i]); }
  void writeByte(Obj *o, uint64_t off, Cell v) {
    Page *p = wpage(o, off / PS); unsigned i = off % PS;
    if (v.e) { if (!p->e) p->e = (Ex *)calloc(PS, sizeof(Ex)); if (!p->e[i]) p->nsym++; p->e[i] = v.e; }
    else { p->c[i] = v.c; if (p->e && p->e[i]) { p->e[i] = nullptr; if (--p->nsym == 0) { free(p->e); p->e = nullptr; } } }
  }
  void clearSym(Page *p, unsigned i, unsigned n) {
    if (!p->e) return;
    for (unsigned j = 0; j < n; j++) if (p->e[i + j]) { p->e[i + j] = nullptr; p->nsym--; }
    if (p->nsym == 0) { free(p->e); p->e = nullptr; }
  }
  void doLoad(Inst &in) {
    uint64_t addr = conc(*reg(in.a)); checkAlign(addr, in, "read"); unsigned bw = (in.t.w + 7) / 8, n = in.t.lanes; uint64_t off;
    if (in.t.w < 8 && n > 1) { // packed bits, lane 0 in the lowest ones
      if (8 % in.t.w) throw Inconclusive{"load of sub-byte vector"};
      unsigned per = 8 / in.t.w; Obj *o = objAt(addr, (n + per - 1) / per, off, "read", false); Cell *d = reg(in.dst);
      for (unsigned j = 0; j < n; j++) { Cell b = readByte(o, off + j / per); unsigned lo = j % per * in.t.w; d[j] = b.e ? fromE(mkExtract(b.e, lo, in.t.w)) : Cell{(b.c >> lo) & maskw(in.t.w), nullptr}; }
      return;
    }
    unsigned tot = bw * n; Obj *o = objAt(addr, tot, off, "read", false); Cell *d = reg(in.dst);
    Page *p = o->pg[off / PS]; unsigned i = off % PS;
    if (i + tot <= PS) {
      bool sym = false;
      if (p->e) for (unsigned j = 0; j < tot; j++) if (p->e[i + j]) { sym = true; break; }
      if (!sym) {
        const uint8_t *q = p->c + i;
        switch (bw) {
        case 1: for (unsigned j = 0; j < n; j++) d[j] = {(uint64_t)(q[j] & maskw(in.t.w)), nullptr}; return;
        case 2: for (unsigned j = 0; j < n; j++) { uint16_t v; memcpy(&v, q + 2 * j, 2); d[j] = {v & maskw(in.t.w), nullptr}; } return;
        case 4: for (unsigned j = 0; j < n; j++) { uint32_t v; memcpy(&v, q + 4 * j, 4); d[j] = {v & maskw(in.t.w), nullptr}; } return;
        case 8: for (unsigned j = 0; j < n; j++) { uint64_t v; memcpy(&v, q + 8 * j, 8); d[j] = {v & maskw(in.t.w), nullptr}; } return;
        default: break;
        }
      }
    }
    for (unsigned j = 0; j < n; j++) {
      Cell b[8]; bool sym = false; for (unsigned k = 0; k < bw; k++) { b[k] = readByte(o, off + j * bw + k); sym |= b[k].e != nullptr; }
      if (!sym) { uint64_t v = 0; for (unsigned k = 0; k < bw; k++) v |= b[k].c << (8 * k); d[j] = {v & maskw(in.t.w), nullptr}; }
      else if (bw == 1) d[j] = in.t.w == 8 ? b[0] : fromE(mkExtract(b[0].e, 0, in.t.w));
      else { Ex parts[8]; for (unsigned k = 0; k < bw; k++) parts[k] = toE(b[k], 8); Ex e = mkConcat(parts, bw); if (in.t.w % 8) e = mkExtract(e, 0, in.t.w); d[j] = fromE(e); }
    }
  }
  // ---------- schedules: before any access to a shared (mutable, not thread local) object of the code under test, another call may be
  // executed to completion. The schedule variable says before which access; false: go on with this instruction.
  bool shared(uint64_t addr) { uint64_t id = addr >> 32; return id && id <= gshared.size() && gshared[id - 1] == 1; }
  bool preemptAt(Cell &ac) {
    if (!S->pre) return false;
    uint64_t addr = conc(ac); if (!shared(addr)) return false;
    if (!decide(mkEq(S->pre, mkConst(32, S->preCnt)))) { S->preCnt++; return false; }
    S->pre = nullptr; S->preDepth = S->frames.size(); covers.insert("preempted");
    for (uint32_t i = 0; i < gshared.size(); i++) if (gshared[i] == 2) { S->preTls.push_back({i, S->mem[i]}); S->mem[i] = gmem[i]; gmem[i]->rc++; }
    uint64_t fi = (S->preFn - 0x1000) / 16; pushFrame(fnById[fi], nullptr); return true;
  }
  void storeScalar(Inst &in, Cell v) { uint64_t addr = conc(*reg(in.a)), off; unsigned bw = (in.t.w + 7) / 8; objAt(addr, bw, off, "write", true); Obj *o = wobj(addr); for (unsigned k = 0; k < bw; k++) { if (!v.e) writeByte(o, off + k, {(v.c >> (8 * k)) & 255, nullptr}); else writeByte(o, off + k, fromE(mkExtract(v.e, 8 * k, 8))); } }
  std::vector<uint8_t> gshared;
  void doStore(Inst &in) {
    uint64_t addr = conc(*reg(in.a)); checkAlign(addr, in, "write"); unsigned bw = (in.t.w + 7) / 8, n = in.t.lanes; uint64_t off;
    if (in.t.w < 8 && n > 1) {
      if (8 % in.t.w || n % (8 / in.t.w)) throw Inconclusive{"store of sub-byte vector"};
      unsigned per = 8 / in.t.w; objAt(addr, n / per, off, "write", true); Obj *o = wobj(addr); Cell *s = reg(in.b);
      for (unsigned j = 0; j < n; j += per) {
        Ex parts[8]; bool sym = false; uint64_t c = 0;
        for (unsigned k = 0; k < per; k++) { sym |= s[j + k].e != nullptr; c |= s[j + k].c << (k * in.t.w); }
        if (sym) { for (unsigned k = 0; k < per; k++) parts[k] = toE(s[j + k], in.t.w); writeByte(o, off + j / per, fromE(mkConcat(parts, per))); }
        else writeByte(o, off + j / per, {c, nullptr});
      }
      return;
    }
    objAt(addr, bw * n, off, "write", true); Obj *o = wobj(addr); Cell *s = reg(in.b);
    for (unsigned j = 0; j < n; j++) {
      uint64_t q = off + j * bw; unsigned i = q % PS;
      if (!s[j].e && i + bw <= PS) { Page *p = wpage(o, q / PS); memcpy(p->c + i, &s[j].c, bw); if (p->e) clearSym(p, i, bw); continue; }
      for (unsigned k = 0; k < bw; k++) {
        if (!s[j].e) writeByte(o, q + k, {(s[j].c >> (8 * k)) & 255, nullptr});
        else { unsigned lo = 8 * k, w = std::min(8u, in.t.w - lo); Ex e = mkExtract(s[j].e, lo, w); if (w < 8) e = mkZext(e, 8); writeByte(o, q + k, fromE(e)); }
      }
    }
  }
  void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return; uint64_t so, dof; Obj *so_ = objAt(src, n, so, "read", false); objAt(dst, n, dof, "write", true);
    Obj *d = wobj(dst); so_ = S->mem[(src >> 32) - 1];
    if (so_ == d) { std::vector<Cell> t(n); for (uint64_t i = 0; i < n; i++) t[i] = readByte(so_, so + i); for (uint64_t i = 0; i < n; i++) writeByte(d, dof + i, t[i]); return; }
    for (uint64_t i = 0; i < n;) {
      Page *sp = so_->pg[(so + i) / PS]; unsigned si = (so + i) % PS, di = (dof + i) % PS; uint64_t m = std::min<uint64_t>(n - i, std::min(PS - si, PS - di));
      if (!sp->e) { Page *dp = wpage(d, (dof + i) / PS); memcpy(dp->c + di, sp->c + si, m); clearSym(dp, di, m); }
      else for (uint64_t j = 0; j < m; j++) writeByte(d, dof + i + j, readByte(so_, so + i + j));
      i += m;
    }
  }
  void setMem(uint64_t dst, Cell v, uint64_t n) {
    if (!n) return; uint64_t off; objAt(dst, n, off, "write", true); Obj *d = wobj(dst);
    for (uint64_t i = 0; i < n;) {
      unsigned di = (off + i) % PS; uint64_t m = std::min<uint64_t>(n - i, PS - di);
      if (!v.e) { Page *dp = wpage(d, (off + i) / PS); memset(dp->c + di, (int)v.c, m); clearSym(dp, di, m); }
      else for (uint64_t j = 0; j < m; j++) writeByte(d, off + i + j, v);
      i += m;
    }
  }
  std::string readStr(uint64_t a) { std::string s; uint64_t off; for (;;) { Obj *o = objAt(a + s.size(), 1, off, "read", false); Cell c = readByte(o, off); if (c.e || !c.c) return s; s += (char)c.c; } }

  // ---------- lane operations
  Cell binop(Kind k, unsigned w, const Cell &a, const Cell &b) {
    if (!a.e && !b.e) {
      if ((k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM) && b.c == 0) throw Violation{"div0", "division by zero"};
      return {concOp(k, w, a.c, b.c), nullptr};
    }
    Ex x = toE(a, w), y = toE(b, w);
    switch (k) {
    case K_AND: case K_OR: case K_XOR: return fromE(mkBit(k, x, y));
    case K_ADD: return fromE(mkAdd(x, y));
    case K_MUL: return fromE(mkMul(x, y));
    case K_UDIV: case K_UREM: case K_SDIV: case K_SREM: { if (!isC(y) || !y->c) { if (decide(mkEq(y, mkConst(w, 0)))) throw Violation{"div0", "division by zero"}; } return fromE(mkDiv(k, x, y)); }
    case K_SHL: case K_LSHR: case K_ASHR: return fromE(mkShift(k, x, y));
    default: abort();
    }
  }
  Cell subop(unsigned w, const Cell &a, const Cell &b) {
    if (!a.e && !b.e) return {(a.c - b.c) & maskw(w), nullptr};
    Ex x = toE(a, w), y = toE(b, w);
    if (x == y) return {0, nullptr};
    if (isC(y)) return fromE(mkAdd(x, mkConst(w, 0 - y->c)));
    return fromE(mkAdd(mkAdd(x, mkNot(y)), mkConst(w, 1)));
  }
  Cell icmp(unsigned pred, unsigned w, const Cell &a, const Cell &b) {
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c; bool r;
      switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = concOp(K_SLT, w, x, y); break; case CmpInst::ICMP_SGE: r = !concOp(K_SLT, w, x, y); break; case CmpInst::ICMP_SGT: r = concOp(K_SLT, w, y, x); break; default: r = !concOp(K_SLT, w, y, x); break;
      }
      return {r, nullptr};
    }
    Ex x = toE(a, w), y = toE(b, w); Ex r;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_ULT: r = mkUlt(x, y); break; case CmpInst::ICMP_ULE: r = mkNot(mkUlt(y, x)); break; case CmpInst::ICMP_UGT: r = mkUlt(y, x); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(x, y)); break;
    case CmpInst::ICMP_SLT: r = mkSlt(x, y); break; case CmpInst::ICMP_SGE: r = mkNot(mkSlt(x, y)); break; case CmpInst::ICMP_SGT: r = mkSlt(y, x); break; default: r = mkNot(mkSlt(y, x)); break;
    }
    return fromE(r);
  }
  void bitcast(const Cell *s, unsigned sw, unsigned sn, Cell *d, unsigned dw, unsigned dn) {
    bool sym = false; for (unsigned i = 0; i < sn; i++) if (s[i].e) { sym = true; break; }
    if (!sym) {
      uint8_t buf[256]; memset(buf, 0, sizeof buf);
      if (sw % 8 == 0) for (unsigned i = 0; i < sn; i++) memcpy(buf + i * (sw / 8), &s[i].c, sw / 8);
      else { unsigned o = 0; for (unsigned i = 0; i < sn; i++) for (unsigned j = 0; j < sw; j++, o++) if ((s[i].c >> j) & 1) buf[o / 8] |= 1 << (o % 8); }
      if (dw % 8 == 0) for (unsigned i = 0; i < dn; i++) { uint64_t v = 0; memcpy(&v, buf + i * (dw / 8), dw / 8); d[i] = {v, nullptr}; }
      else { unsigned o = 0; for (unsigned i = 0; i < dn; i++) { uint64_t v = 0; for (unsigned j = 0; j < dw; j++, o++) if (buf[o / 8] >> (o % 8) & 1) v |= 1ULL << j; d[i] = {v, nullptr}; } }
      return;
    }
    std::vector<Cell> r(dn);
    for (unsigned i = 0; i < dn; i++) {
      unsigned lo = i * dw, hi = lo + dw; Ex parts[64]; unsigned np = 0;
      for (unsigned o = lo; o < hi;) { unsigned l = o / sw, b = o % sw, n = std::min(hi - o, sw - b); parts[np++] = mkExtract(toE(s[l], sw), b, n); o += n; }
      r[i] = fromE(mkConcat(parts, np));
    }
    for (unsigned i = 0; i < dn; i++) d[i] = r[i];
  }
  void takeEdge(uint32_t ei) {
    Frame &f = S->frames.back(); Edge &e = f.fn->edges[ei];
    if (e.mv.size() == 1) { Move &m = e.mv[0]; Cell *s = reg(m.src), *d = reg(m.dst); for (unsigned i = 0; i < m.n; i++) d[i] = s[i]; }
    else if (!e.mv.empty()) {
      static std::vector<Cell> tmp; tmp.clear();
      for (Move &m : e.mv) { Cell *s = reg(m.src); for (unsigned i = 0; i < m.n; i++) tmp.push_back(s[i]); }
      unsigned k = 0; for (Move &m : e.mv) { Cell *d = reg(m.dst); for (unsigned i = 0; i < m.n; i++) d[i] = tmp[k++]; }
    }
    f.bb = e.target; f.pc = 0;
  }
  void pushFrame(Fn *fn, const Inst *in) {
    decode(fn); fn->calls++;
    if (S->frames.size() > 200) throw Inconclusive{"recursion depth"};
    uint32_t base = S->stack.size();
    std::vector<Cell> args; 
    if (in) for (size_t i = 0; i < in->args.size(); i++) { Cell *s = reg(in->args[i]); for (int j = 0; j < in->mask[i]; j++) args.push_back(s[j]); }
    S->stack.resize(base + fn->ncells, Cell{0, nullptr});
    for (size_t i = 0; i < args.size() && i < fn->ncells; i++) S->stack[base + i] = args[i];
    Frame f; f.fn = fn; f.base = base; f.bb = 0; f.pc = 0; f.memMark = S->mem.size(); f.retDst = in ? in->dst : -1; f.retN = in ? in->t.lanes : 0;
    S->frames.push_back(f);
  }
  uint64_t newStateObj(Obj *o) { o->seq = S->seq++; S->mem.push_back(o); return mkAddr(S->mem.size() - 1, o->base); }

  // floating point: concrete operands are computed, anything else is an arbitrary value (the properties do not depend on it)
  Cell fpjunk(unsigned w) { Ex p[8]; uint32_t n = S->symSeq2++; for (unsigned b = 0; b < (w + 7) / 8; b++) { char nm[48]; snprintf(nm, sizeof nm, "fp:%u:%u", n, b); p[b] = mkVar(var(nm)); } Ex e = w < 8 ? p[0] : mkConcat(p, w / 8); return fromE(e->w > w ? mkExtract(e, 0, w) : e); }
  Cell fpop(Inst &in, Cell &a, Cell &b) {
    if (a.e || b.e) return fpjunk(in.t.w);
    auto g = [](uint64_t v, unsigned w) -> double { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } uint32_t u = v; float f; memcpy(&f, &u, 4); return f; };
    auto p = [](double d, unsigned w) -> uint64_t { if (w == 64) { uint64_t v; memcpy(&v, &d, 8); return v; } float f = d; uint32_t u; memcpy(&u, &f, 4); return u; };
    unsigned w = in.t2.w, r = in.t.w; uint64_t v = 0;
    switch (in.x) {
    case Instruction::FAdd: v = p(g(a.c, w) + g(b.c, w), r); break; case Instruction::FSub: v = p(g(a.c, w) - g(b.c, w), r); break;
    case Instruction::FMul: v = p(g(a.c, w) * g(b.c, w), r); break; case Instruction::FDiv: v = p(g(a.c, w) / g(b.c, w), r); break;
    case Instruction::FRem: v = p(fmod(g(a.c, w), g(b.c, w)), r); break; case Instruction::FNeg: v = p(-g(a.c, w), r); break;
    case Instruction::FPExt: case Instruction::FPTrunc: v = p(g(a.c, w), r); break;
    case Instruction::UIToFP: v = p((double)a.c, r); break;
    case Instruction::SIToFP: { int64_t x = a.c; if (w < 64) x = (int64_t)(a.c << (64 - w)) >> (64 - w); v = p((double)x, r); break; }
    case Instruction::FPToSI: case Instruction::FPToUI: { double x = g(a.c, w); v = x != x ? 0 : in.x == Instruction::FPToSI ? (uint64_t)(int64_t)x : (uint64_t)x; break; }
    case Instruction::FCmp: { double x = g(a.c, w), y = g(b.c, w); unsigned k = x != x || y != y ? 8 : x == y ? 1 : x > y ? 2 : 4; v = (in.pred & k) != 0; break; } // LLVM predicate bits: E 1, G 2, L 4, U 8
    default: throw Inconclusive{"floating point"};
    }
    return {v & maskw(r), nullptr};
  }

  void doCall(Inst &in) {
    auto A = [&](unsigned i) -> Cell * { return reg(in.args[i]); };
    auto advance = [&]() { S->frames.back().pc++; };
    switch (in.bi) {
    case B_NOP: case B_PRINT: if (in.dst >= 0) *reg(in.dst) = {0, nullptr}; advance(); return;
    case B_USER: advance(); pushFrame(in.callee, &in); return;
    case B_INDIRECT: { uint64_t a = conc(*reg(in.a)); uint64_t i = (a - 0x1000) / 16; if (a < 0x1000 || i >= fnById.size()) throw Violation{"badcall", "indirect call through bad pointer"}; if (fnById[i]->f->isDeclaration()) throw Inconclusive{"indirect call to external"}; advance(); pushFrame(fnById[i], &in); return; }
    case B_MEMCPY: case B_MEMMOVE: if (S->pre && (preemptAt(*A(0)) || preemptAt(*A(1)))) return; { uint64_t d = conc(*A(0)), s = conc(*A(1)), n = conc(*A(2)); copyMem(d, s, n); if (in.dst >= 0) *reg(in.dst) = {d, nullptr}; advance(); return; }
    case B_MEMSET: if (S->pre && preemptAt(*A(0))) return; { uint64_t d = conc(*A(0)), n = conc(*A(2)); Cell v = *A(1); if (v.e) { if (v.e->w > 8) v = fromE(mkExtract(v.e, 0, 8)); } else v.c &= 255; setMem(d, v, n); if (in.dst >= 0) *reg(in.dst) = {d, nullptr}; advance(); return; }
    case B_MEMCMP: {
      uint64_t x = conc(*A(0)), y = conc(*A(1)), n = conc(*A(2)), xo, yo; Cell r = {0, nullptr};
      if (n) { Obj *ox = objAt(x, n, xo, "read", false), *oy = objAt(y, n, yo, "read", false);
        for (uint64_t i = 0; i < n; i++) { Cell p = readByte(ox, xo + i), q = readByte(oy, yo + i); Ex a = toE(p, 8), b = toE(q, 8); if (decide(mkEq(a, b))) continue; r = {decide(mkUlt(a, b)) ? 0xffffffffULL : 1ULL, nullptr}; break; } }
      if (in.dst >= 0) *reg(in.dst) = r; advance(); return; }
    case B_CTTZ: case B_CTLZ: case B_CTPOP: {
      unsigned w = in.t2.w; std::vector<Cell> r;
      for (unsigned l = 0; l < in.t2.lanes; l++) {
        Cell a = A(0)[l]; uint64_t v;
        if (!a.e) { uint64_t x = a.c; v = in.bi == B_CTPOP ? __builtin_popcountll(x) : in.bi == B_CTTZ ? (x ? __builtin_ctzll(x) : w) : (x ? __builtin_clzll(x) - (64 - w) : w); }
        else {
          Ex e = resolve(a.e); v = w;
          if (in.bi == B_CTPOP) { v = 0; for (unsigned i = 0; i < w; i++) v += decide(mkExtract(e, i, 1)); }
          else for (unsigned i = 0; i < w; i++) { unsigned b = in.bi == B_CTTZ ? i : w - 1 - i; if (decide(mkExtract(e, b, 1))) { v = i; break; } }
        }
        r.push_back({v, nullptr});
      }
      for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l];
      advance(); return; }
    case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: case B_USUBSAT: case B_UADDSAT: {
      unsigned w = in.t2.w; Cell *d = reg(in.dst);
      for (unsigned l = 0; l < in.t2.lanes; l++) {
        Cell a = A(0)[l], b = A(1)[l]; Ex x = toE(a, w), y = toE(b, w), r;
        switch (in.bi) {
        case B_UMAX: r = mkIte(mkUlt(x, y), y, x); break; case B_UMIN: r = mkIte(mkUlt(x, y), x, y); break; case B_SMAX: r = mkIte(mkSlt(x, y), y, x); break; case B_SMIN: r = mkIte(mkSlt(x, y), x, y); break;
        case B_USUBSAT: r = mkIte(mkUlt(x, y), mkConst(w, 0), toE(subop(w, a, b), w)); break;
        default: { Ex s = mkAdd(x, y); r = mkIte(mkUlt(s, x), mkConst(w, ~0ULL), s); break; }
        }
        d[l] = fromE(r);
      }
      advance(); return; }
    case B_ABS: { unsigned w = in.t2.w; Cell *d = reg(in.dst); for (unsigned l = 0; l < in.t2.lanes; l++) { Cell a = A(0)[l]; Ex x = toE(a, w); d[l] = fromE(mkIte(mkSlt(x, mkConst(w, 0)), toE(subop(w, {0, nullptr}, a), w), x)); } advance(); return; }
    case B_BSWAP: { unsigned w = in.t2.w; Cell *d = reg(in.dst); for (unsigned l = 0; l < in.t2.lanes; l++) { Ex x = toE(A(0)[l], w); Ex p[8]; for (unsigned i = 0; i < w / 8; i++) p[i] = mkExtract(x, w - 8 * (i + 1), 8); d[l] = fromE(mkConcat(p, w / 8)); } advance(); return; }
    case B_FSHL: case B_FSHR: { unsigned w = in.t2.w; std::vector<Cell> res;
      for (unsigned l = 0; l < in.t2.lanes; l++) {
        uint64_t s = conc(A(2)[l]) % w; Ex hi = toE(A(0)[l], w), lo = toE(A(1)[l], w), r;
        if (in.bi == B_FSHL) r = s == 0 ? hi : mkOr(mkShift(K_SHL, hi, mkConst(w, s)), mkShift(K_LSHR, lo, mkConst(w, w - s)));
        else r = s == 0 ? lo : mkOr(mkShift(K_LSHR, lo, mkConst(w, s)), mkShift(K_SHL, hi, mkConst(w, w - s)));
        res.push_back(fromE(r));
      }
      for (unsigned l = 0; l < res.size(); l++) reg(in.dst)[l] = res[l];
      advance(); return; }
    case B_PMOVMSK: { unsigned w = in.t2.w; Ex parts[64]; unsigned n = in.t2.lanes; for (unsigned l = 0; l < n; l++) parts[l] = mkExtract(toE(A(0)[l], w), w - 1, 1); Ex r = mkConcat(parts, n); if (n < 32) r = mkZext(r, 32); *reg(in.dst) = fromE(r); advance(); return; }
    case B_PTESTZ: case B_PTESTC: case B_PTESTNZC: {
      unsigned w = in.t2.w, n = in.t2.lanes; Ex z = nullptr, c = nullptr;
      for (unsigned l = 0; l < n; l++) { Cell a = A(0)[l], b = A(1)[l]; Ex ze = toE(binop(K_AND, w, a, b), w), ce = toE(binop(K_AND, w, binop(K_XOR, w, a, {maskw(w), nullptr}), b), w); z = z ? mkAnd(z, mkEq(ze, mkConst(w, 0))) : mkEq(ze, mkConst(w, 0)); c = c ? mkAnd(c, mkEq(ce, mkConst(w, 0))) : mkEq(ce, mkConst(w, 0)); }
      Ex r = in.bi == B_PTESTZ ? z : in.bi == B_PTESTC ? c : mkAnd(mkNot(z), mkNot(c));
      *reg(in.dst) = fromE(mkZext(r, 32)); advance(); return; }
    case B_PBLENDV: { unsigned w = in.t2.w, n = in.t2.lanes; std::vector<Cell> r(n); for (unsigned l = 0; l < n; l++) r[l] = fromE(mkIte(mkExtract(toE(A(2)[l], w), w - 1, 1), toE(A(1)[l], w), toE(A(0)[l], w))); for (unsigned l = 0; l < n; l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PACKU: case B_PACKS: { // per 128 bit half: saturate a's lanes, then b's
      unsigned w = in.t2.w, n = in.t2.lanes, h = 128 / w, o = w / 2; std::vector<Cell> r;
      for (unsigned q = 0; q < n / h; q++) for (unsigned s = 0; s < 2; s++) for (unsigned l = 0; l < h; l++) {
        Ex x = toE(A(s)[q * h + l], w); uint64_t lo = in.bi == B_PACKU ? 0 : (~0ULL << (o - 1)) & maskw(w), hi = in.bi == B_PACKU ? maskw(o) : maskw(o - 1);
        Ex t = mkIte(mkSlt(x, mkConst(w, lo)), mkConst(w, lo), mkIte(mkSlt(mkConst(w, hi), x), mkConst(w, hi), x)); r.push_back(fromE(mkExtract(t, 0, o))); }
      for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PSHUFB: {
      unsigned n = in.t2.lanes; std::vector<Cell> r(n);
      for (unsigned l = 0; l < n; l++) { uint64_t c = conc(A(1)[l]); r[l] = (c & 0x80) ? Cell{0, nullptr} : A(0)[(l & ~15u) + (c & 15)]; }
      for (unsigned l = 0; l < n; l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_REDXOR: case B_REDMUL: { Cell r = A(0)[0]; for (unsigned l = 1; l < in.t2.lanes; l++) r = binop(in.bi == B_REDXOR ? K_XOR : K_MUL, in.t2.w, r, A(0)[l]); *reg(in.dst) = r; advance(); return; }
    case B_REDUMAX: case B_REDUMIN: case B_REDSMAX: case B_REDSMIN: { unsigned w = in.t2.w; Ex r = toE(A(0)[0], w);
      for (unsigned l = 1; l < in.t2.lanes; l++) { Ex x = toE(A(0)[l], w); bool sg = in.bi == B_REDSMAX || in.bi == B_REDSMIN, mx = in.bi == B_REDUMAX || in.bi == B_REDSMAX; Ex lt = sg ? mkSlt(r, x) : mkUlt(r, x); r = mx ? mkIte(lt, x, r) : mkIte(lt, r, x); }
      *reg(in.dst) = fromE(r); advance(); return; }
    case B_PSLL: case B_PSRL: case B_PSRA: { // count: an i32, or the low 64 bits of a vector
      unsigned w = in.t2.w, n = in.t2.lanes; uint64_t s = 0;
      if (in.mask[1] == 1) s = conc(*A(1)) & 0xffffffff; else for (unsigned l = 0; l < (unsigned)in.mask[1] / 2; l++) s |= conc(A(1)[l]) << (l * (128 / in.mask[1]));
      std::vector<Cell> r(n);
      for (unsigned l = 0; l < n; l++) { Cell a = A(0)[l]; if (s >= w && in.bi != B_PSRA) r[l] = {0, nullptr}; else r[l] = binop(in.bi == B_PSLL ? K_SHL : in.bi == B_PSRL ? K_LSHR : K_ASHR, w, a, {std::min<uint64_t>(s, w - 1), nullptr}); }
      for (unsigned l = 0; l < n; l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_SADDSAT: case B_SSUBSAT: { unsigned w = in.t2.w; std::vector<Cell> r;
      for (unsigned l = 0; l < in.t2.lanes; l++) { Cell a = A(0)[l], b = A(1)[l]; Ex x = toE(a, w), y = toE(b, w), z = toE(in.bi == B_SADDSAT ? binop(K_ADD, w, a, b) : subop(w, a, b), w), sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sz = mkExtract(z, w - 1, 1);
        Ex ov = in.bi == B_SADDSAT ? mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sz))) : mkAnd(mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sz))); r.push_back(fromE(mkIte(ov, mkIte(sx, mkConst(w, 1ULL << (w - 1)), mkConst(w, maskw(w) >> 1)), z))); }
      for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PMADDWD: { std::vector<Cell> r; for (unsigned l = 0; l < in.t2.lanes; l += 2) { Cell p[2]; for (unsigned k = 0; k < 2; k++) p[k] = binop(K_MUL, 32, fromE(mkSext(toE(A(0)[l + k], 16), 32)), fromE(mkSext(toE(A(1)[l + k], 16), 32))); r.push_back(binop(K_ADD, 32, p[0], p[1])); } for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PMULHU: { std::vector<Cell> r; for (unsigned l = 0; l < in.t2.lanes; l++) { Cell m = binop(K_MUL, 32, fromE(mkZext(toE(A(0)[l], 16), 32)), fromE(mkZext(toE(A(1)[l], 16), 32))); r.push_back(fromE(mkExtract(toE(m, 32), 16, 16))); } for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PERMD: { std::vector<Cell> r; for (unsigned l = 0; l < 8; l++) r.push_back(A(0)[conc(A(1)[l]) & 7]); for (unsigned l = 0; l < 8; l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PSLLV: case B_PSRLV: { unsigned w = in.t2.w; std::vector<Cell> r; for (unsigned l = 0; l < in.t2.lanes; l++) { uint64_t s = conc(A(1)[l]); r.push_back(s >= w ? Cell{0, nullptr} : binop(in.bi == B_PSLLV ? K_SHL : K_LSHR, w, A(0)[l], {s, nullptr})); } for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PSADBW: { unsigned n = in.t2.lanes; std::vector<Cell> r;
      for (unsigned q = 0; q < n / 8; q++) { Ex sum = mkConst(64, 0); for (unsigned l = 0; l < 8; l++) { Cell a = A(0)[q * 8 + l], b = A(1)[q * 8 + l]; Ex x = toE(a, 8), y = toE(b, 8); Ex d = mkIte(mkUlt(x, y), toE(subop(8, b, a), 8), toE(subop(8, a, b), 8)); sum = mkAdd(sum, mkZext(d, 64)); } r.push_back(fromE(sum)); }
      for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_PAVG: { unsigned w = in.t2.w, n = in.t2.lanes; std::vector<Cell> r(n);
      for (unsigned l = 0; l < n; l++) { Ex s = mkAdd(mkAdd(mkZext(toE(A(0)[l], w), 2 * w), mkZext(toE(A(1)[l], w), 2 * w)), mkConst(2 * w, 1)); r[l] = fromE(mkExtract(s, 1, w)); }
      for (unsigned l = 0; l < n; l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_VP_UNDEF: { Ex p[8]; uint32_t n = S->symSeq2++; for (unsigned b = 0; b < 8; b++) { char nm[48]; snprintf(nm, sizeof nm, "undef:%u:%u", n, b); p[b] = mkVar(var(nm)); } *reg(in.dst) = fromE(mkConcat(p, 8)); advance(); return; } // an uninitialised variable
    case B_BITREV: { unsigned w = in.t2.w; std::vector<Cell> r; for (unsigned l = 0; l < in.t2.lanes; l++) { Ex x = toE(A(0)[l], w); Ex p[64]; for (unsigned i = 0; i < w; i++) p[i] = mkExtract(x, w - 1 - i, 1); r.push_back(fromE(mkConcat(p, w))); } for (unsigned l = 0; l < r.size(); l++) reg(in.dst)[l] = r[l]; advance(); return; }
    case B_SADDO: case B_SSUBO: { unsigned w = in.t2.w; Cell a = *A(0), b = *A(1); Cell s = in.bi == B_SADDO ? binop(K_ADD, w, a, b) : subop(w, a, b); Ex x = toE(a, w), y = toE(b, w), z = toE(s, w), sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sz = mkExtract(z, w - 1, 1);
      Ex ov = in.bi == B_SADDO ? mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sz))) : mkAnd(mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sz))); Cell *d = reg(in.dst); d[0] = s; d[1] = fromE(ov); advance(); return; }
    case B_XGETBVASM: { uint64_t ix = conc(*A(0)); Cell *d = reg(in.dst); for (unsigned h = 0; h < 2; h++) { Ex p[4]; for (unsigned b = 0; b < 4; b++) { char nm[64]; snprintf(nm, sizeof nm, "xcr:%llu:%u", (unsigned long long)ix, h * 4 + b); p[b] = mkVar(var(nm)); } d[h] = fromE(mkConcat(p, 4)); } covers.insert("xgetbv"); advance(); return; }
    case B_REALLOC: { uint64_t a = conc(*A(0)), n = conc(*A(1)), off; if (n > (1u << 28)) throw Inconclusive{"huge realloc"}; Obj *o = newObj(n); uint64_t na = newStateObj(o); if (a) { Obj *p = objAt(a, 0, off, "read", false); uint64_t m = std::min<uint64_t>(n, p->size); if (m) copyMem(na, a, m); } *reg(in.dst) = {na, nullptr}; heap = true; advance(); return; }
    case B_REDOR: case B_REDAND: case B_REDADD: { Cell r = A(0)[0]; for (unsigned l = 1; l < in.t2.lanes; l++) r = binop(in.bi == B_REDOR ? K_OR : in.bi == B_REDAND ? K_AND : K_ADD, in.t2.w, r, A(0)[l]); *reg(in.dst) = r; advance(); return; }
    case B_UADDO: case B_USUBO: { unsigned w = in.t2.w; Ex x = toE(*A(0), w), y = toE(*A(1), w); Cell *d = reg(in.dst); if (in.bi == B_UADDO) { Ex s = mkAdd(x, y); d[0] = fromE(s); d[1] = fromE(mkUlt(s, x)); } else { Cell a = *A(0), b = *A(1); d[0] = subop(w, a, b); d[1] = fromE(mkUlt(x, y)); } advance(); return; }
    case B_UMULO: { unsigned w = in.t2.w; uint64_t x = conc(*A(0)), y = conc(*A(1)); __uint128_t m = (__uint128_t)x * y; Cell *d = reg(in.dst); d[0] = {(uint64_t)m & maskw(w), nullptr}; d[1] = {(uint64_t)((m >> w) != 0), nullptr}; advance(); return; }
    case B_EXPECT: *reg(in.dst) = *A(0); advance(); return;
    case B_ISCONST: *reg(in.dst) = {0, nullptr}; advance(); return;
    case B_OBJSIZE: *reg(in.dst) = {~0ULL & maskw(in.t.w), nullptr}; advance(); return;
    case B_CPUID: {
      uint64_t leaf = conc(*A(0)), sub = in.args.size() > 1 ? conc(*A(1)) : 0; Cell *d = reg(in.dst);
      for (unsigned r = 0; r < 4; r++) { Ex p[4]; for (unsigned b = 0; b < 4; b++) { char nm[64]; snprintf(nm, sizeof nm, "cpuid:%llu:%llu:%u:%u", (unsigned long long)leaf, (unsigned long long)sub, r, b); p[b] = mkVar(var(nm)); } d[r] = fromE(resolve(mkConcat(p, 4))); }
      advance(); return; }
    case B_XGETBV: { uint64_t ix = conc(*A(0)); Ex p[8]; for (unsigned b = 0; b < 8; b++) { char nm[64]; snprintf(nm, sizeof nm, "xcr:%llu:%u", (unsigned long long)ix, b); p[b] = mkVar(var(nm)); } *reg(in.dst) = fromE(mkConcat(p, 8)); covers.insert("xgetbv"); advance(); return; }
    case B_CALLOC: { uint64_t n = conc(*A(0)) * conc(*A(1)); if (n > (1u << 28)) throw Inconclusive{"huge calloc"}; Obj *o = newObj(n, 0, 0, true); uint64_t a = newStateObj(o); *reg(in.dst) = {a, nullptr}; heap = true; advance(); return; }
    case B_MALLOC: { uint64_t n = conc(*A(0)); if (n > (1u << 28)) throw Inconclusive{"huge malloc"}; Obj *o = newObj(n); uint64_t a = newStateObj(o); S->frames[0].memMark = std::max<uint32_t>(S->frames[0].memMark, 0); *reg(in.dst) = {a, nullptr}; heap = true; advance(); return; }
    case B_FREE: { advance(); return; }
    // ----- harness interface
    case B_VP_PARAM: { uint64_t i = conc(*A(0)); *reg(in.dst) = {(uint64_t)(i < params.size() ? params[i] : 0) & maskw(in.t.w), nullptr}; advance(); return; }
    case B_TLSADDR: *reg(in.dst) = *A(0); advance(); return;
    case B_VP_PREEMPT: { uint64_t a = conc(*A(0)); S->preFn = a; S->preCnt = 0; S->pre = a ? toE(*A(1), 32) : nullptr; advance(); return; }
    case B_VP_READONLY: { uint64_t a = conc(*A(0)), off; objAt(a, 0, off, "read", false); wobj(a)->ro = conc(*A(1)) != 0; advance(); return; }
    case B_VP_NATIVE: *reg(in.dst) = {0, nullptr}; advance(); return;
    case B_VP_FLUSH: advance(); return;
    case B_VP_DONE: throw PathDone{};
    case B_FPJUNK: for (unsigned i = 0; i < in.t.lanes; i++) reg(in.dst)[i] = fpjunk(in.t.w); advance(); return;
    case B_VP_CONC: { uint64_t v = conc(*A(0)); *reg(in.dst) = {v, nullptr}; advance(); return; }
    case B_VP_BUF: { // (id, size, align, slackLo, slackHi)
      uint64_t id = conc(*A(0)), size = conc(*A(1)), al = conc(*A(2)), lo = conc(*A(3)), hi = conc(*A(4));
      Obj *o = newObj(size + lo + hi, al, lo); o->core = size; o->bufId = id; uint64_t a = newStateObj(o); S->frames.back().memMark = S->mem.size(); // survives inner returns; harness frames outlive it
      for (auto &f : S->frames) f.memMark = std::max<uint32_t>(f.memMark, 0);
      keepMark(); *reg(in.dst) = {a + lo, nullptr}; advance(); return; }
    case B_VP_SYM: { // (ptr, n)
      uint64_t a = conc(*A(0)), n = conc(*A(1)), off; if (n) { objAt(a, n, off, "write", true); Obj *o = wobj(a); uint32_t seq = S->symSeq++; uint32_t first = 0;
        for (uint64_t i = 0; i < n; i++) { char nm[48]; snprintf(nm, sizeof nm, "sym:%u:%llu", seq, (unsigned long long)i); uint32_t v = var(nm); if (!i) first = v; writeByte(o, off + i, fromE(mkVar(v))); } S->syms.push_back({first, (uint32_t)n}); }
      advance(); return; }
    case B_VP_ASSUME: { Cell c = *A(0); bool r;
      if (!c.e) r = c.c & 1; else { Ex e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(c.e->w, 0))); e = resolve(e); if (isC(e)) r = e->c; else { P->epoch++; if (!evalE(e, S->model)) { std::vector<uint8_t> m = S->model; if (!findModel(e, m)) throw PathKill{}; S->model = m; } addCons(S, e); if (S->forked == 0) assumes.push_back(c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(c.e->w, 0)))); else condAssume = true; r = true; } }
      if (!r) throw PathKill{}; advance(); return; }
    case B_VP_CHECK: { Cell c = *A(0); 
      if (!c.e) { if (!(c.c & 1)) throw Violation{"check", readStr(conc(*A(1)))}; st.checksSimplified++; }
      else { Ex e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(c.e->w, 0))); S->obl.push_back(e); checkE(e, A(1)); }
      advance(); return; }
    case B_VP_EQUAL: { // (a, b, n, msg)
      uint64_t x = conc(*A(0)), y = conc(*A(1)), n = conc(*A(2)), xo, yo;
      if (n) {
        Obj *ox = objAt(x, n, xo, "read", false), *oy = objAt(y, n, yo, "read", false); std::vector<Ex> v, raw; bool bad = false;
        for (uint64_t i = 0; i < n && !bad;) {
          Page *px = ox->pg[(xo + i) / PS], *py = oy->pg[(yo + i) / PS]; unsigned xi = (xo + i) % PS, yi = (yo + i) % PS; uint64_t m = std::min<uint64_t>(n - i, std::min(PS - xi, PS - yi));
          if (!px->e && !py->e) { if (memcmp(px->c + xi, py->c + yi, m)) bad = true; }
          else for (uint64_t j = 0; j < m; j++) { Cell p = readByte(ox, xo + i + j), q = readByte(oy, yo + i + j); if (!p.e && !q.e) { if (p.c != q.c) { bad = true; break; } continue; } st.bytesNontrivial++; { Ex rp = rawByte(ox, xo + i + j), rq = rawByte(oy, yo + i + j); if (rp != rq) raw.push_back(mkEq(rp, rq)); } if (p.e == q.e && p.e) continue; Ex e = mkEq(toE(p, 8), toE(q, 8)); if (isF(e)) { bad = true; break; } if (!isC(e)) v.push_back(e); }
          i += m;
        }
        st.bytesCompared += n; if (!raw.empty()) { Ex r = mkNary(K_AND, raw); if (!isC(r)) S->obl.push_back(r); }
        if (bad) throw Violation{"check", readStr(conc(*A(3)))};
        if (v.empty()) st.checksSimplified++; else checkE(mkNary(K_AND, v), A(3));
      }
      advance(); return; }
    case B_VP_UNTOUCHED: { // (p, n, msg): the bytes were never written
      uint64_t x = conc(*A(0)), n = conc(*A(1)), xo; if (n) { Obj *o = objAt(x, n, xo, "read", false); for (uint64_t i = 0; i < n; i++) { Page *p = o->pg[(xo + i) / PS]; if (p == uninitPage) { i += PS - 1 - (xo + i) % PS; continue; } if (!p->e || p->e[(xo + i) % PS] != UNINIT) throw Violation{"check", readStr(conc(*A(2)))}; } }
      st.checksSimplified++; advance(); return; }
    case B_VP_OBSERVE: { uint64_t x = conc(*A(0)), n = conc(*A(1)), xo; Obs ob; ob.tag = readStr(conc(*A(2))); if (n <= 4096) { if (n) { Obj *o = objAt(x, n, xo, "read", false); for (uint64_t i = 0; i < n; i++) ob.bytes.push_back(readByte(o, xo + i)); } S->obs.push_back(ob); } advance(); return; }
    case B_VP_COVER: { std::string c = readStr(conc(*A(0))); covers.insert(c); advance(); return; }
    case B_ASSERTFAIL: throw Violation{"assert", "assertion failed: " + readStr(conc(*A(0)))};
    case B_ABORT: throw Violation{"abort", "abort/exit called"};
    default: throw Inconclusive{"call to unsupported function " + (in.callee ? in.callee->name : std::string("?"))};
    }
  }
  bool heap = false, condAssume = false; std::vector<Ex> assumes;
  void keepMark() { for (auto &f : S->frames) f.memMark = S->mem.size(); }
  void checkE(Ex e0, Cell *msg) {
    Ex e = resolve(e0);
    if (isC(e)) { if (e->c) { st.checksSimplified++; return; } throw Violation{"check", readStr(conc(*msg))}; }
    st.checksSolver++;
    P->epoch++; std::vector<uint8_t> m = S->model; int r = 1;
    if (evalE(e, m)) r = findModel(mkNot(e), m);
    if (r == 1) { S->model = m; throw Violation{"check", readStr(conc(*msg))}; }
    S->version++; if (e->k == K_NOT) addFact(S, e->kid[0], false); else addFact(S, e, true);
  }

  // full path condition over the original variables
  std::vector<Ex> pathCond() { std::vector<Ex> r = S->cons; for (auto &p : S->subs) r.push_back(mkEqRaw(mkVar(p.first), p.second)); return r; }
  static Ex mkEqRaw(Ex a, Ex b) { return mkEq(a, b); }
  // re-discharge this path's assertions with the solver, from the unsimplified terms
  bool auditPath() {
    if (S->obl.empty()) return true;
    std::vector<Ex> q = pathCond(); Ex o = mkNary(K_AND, S->obl); if (isC(o)) return o->c; q.push_back(mkNot(o));
    std::vector<uint8_t> m; st.audits++; int r = solver.query(q, m, false); return r == 0;
  }

  void step() {
    Frame &f = S->frames.back(); Inst &in = f.fn->bb[f.bb].in[f.pc];
    switch (in.op) {
    case O_BIN: {
      if (in.t.wide && (in.x == K_SHL || in.x == K_LSHR)) { // constant shifts of wide integers
        Cell *b = reg(in.b); for (unsigned i = 0; i < in.t.lanes; i++) if (b[i].e) throw Inconclusive{"symbolic wide shift"};
        uint64_t s = b[0].c; unsigned tot = in.t.bits; if (s >= tot) s = tot; std::vector<Cell> bits(tot), o(tot, Cell{0, nullptr}); bitcast(reg(in.a), 64, in.t.lanes, bits.data(), 1, tot);
        for (unsigned i = 0; i < tot; i++) { if (in.x == K_SHL) { if (i >= s) o[i] = bits[i - s]; } else if (i + s < tot) o[i] = bits[i + s]; }
        bitcast(o.data(), 1, tot, reg(in.dst), 64, in.t.lanes); f.pc++; return;
      }
      if (in.t.lanes == 1) { Cell r = binop((Kind)in.x, in.t.w, *reg(in.a), *reg(in.b)); *reg(in.dst) = r; }
      else { Cell *a = reg(in.a), *b = reg(in.b), *d = reg(in.dst); for (unsigned i = 0; i < in.t.lanes; i++) d[i] = binop((Kind)in.x, in.t.w, a[i], b[i]); }
      S->frames.back().pc++; return; }
    case O_SUB: { Cell *a = reg(in.a), *b = reg(in.b), *d = reg(in.dst); for (unsigned i = 0; i < in.t.lanes; i++) d[i] = subop(in.t.w, a[i], b[i]); f.pc++; return; }
    case O_FP: { Cell *a = reg(in.a), *b = reg(in.b), *d = reg(in.dst); for (unsigned i = 0; i < in.t.lanes; i++) d[i] = fpop(in, a[i], b[i]); f.pc++; return; }
    case O_ICMP: {
      Cell *a = reg(in.a), *b = reg(in.b), *d = reg(in.dst);
      if (in.t2.wide) { if (in.pred != CmpInst::ICMP_EQ && in.pred != CmpInst::ICMP_NE) throw Inconclusive{"wide compare"}; std::vector<Ex> v; for (unsigned i = 0; i < in.t2.lanes; i++) v.push_back(mkEq(toE(a[i], 64), toE(b[i], 64))); Ex r = mkNary(K_AND, v); if (in.pred == CmpInst::ICMP_NE) r = mkNot(r); *d = fromE(r); f.pc++; return; }
      for (unsigned i = 0; i < in.t2.lanes; i++) d[i] = icmp(in.pred, in.t2.w, a[i], b[i]);
      f.pc++; return; }
    case O_ZEXT: case O_SEXT: {
      Cell *a = reg(in.a), *d = reg(in.dst);
      if (in.t.wide) { if (in.op == O_SEXT) throw Inconclusive{"wide sext"}; unsigned n = in.t2.wide ? in.t2.lanes : 1; for (unsigned i = 0; i < in.t.lanes; i++) { if (i < n) { Cell v = a[i]; if (!in.t2.wide && v.e) v = fromE(mkZext(v.e, 64)); d[i] = v; } else d[i] = {0, nullptr}; } f.pc++; return; }
      for (unsigned i = 0; i < in.t.lanes; i++) {
        if (a[i].e) d[i] = fromE(in.op == O_ZEXT ? mkZext(a[i].e, in.t.w) : mkSext(a[i].e, in.t.w));
        else if (in.op == O_ZEXT) d[i] = {a[i].c, nullptr};
        else { unsigned sw = in.t2.w; uint64_t v = a[i].c; if (sw < 64 && (v >> (sw - 1)) & 1) v |= ~maskw(sw); d[i] = {v & maskw(in.t.w), nullptr}; }
      }
      f.pc++; return; }
    case O_TRUNC: {
      Cell *a = reg(in.a), *d = reg(in.dst);
      if (in.t2.wide) { if (in.t.wide) { for (unsigned i = 0; i < in.t.lanes; i++) d[i] = a[i]; } else d[0] = a[0].e ? fromE(mkExtract(a[0].e, 0, in.t.w)) : Cell{a[0].c & maskw(in.t.w), nullptr}; f.pc++; return; }
      for (unsigned i = 0; i < in.t.lanes; i++) d[i] = a[i].e ? fromE(mkExtract(a[i].e, 0, in.t.w)) : Cell{a[i].c & maskw(in.t.w), nullptr};
      f.pc++; return; }
    case O_BITCAST: bitcast(reg(in.a), in.t2.w, in.t2.lanes, reg(in.dst), in.t.w, in.t.lanes); f.pc++; return;
    case O_MOVE: { Cell *a = reg(in.a), *d = reg(in.dst); for (unsigned i = 0; i < in.t.lanes; i++) d[i] = a[i]; f.pc++; return; }
    case O_LOAD: if (S->pre && preemptAt(*reg(in.a))) return; doLoad(in); S->frames.back().pc++; return;
    case O_STORE: if (S->pre && preemptAt(*reg(in.a))) return; doStore(in); S->frames.back().pc++; return;
    case O_GEP: {
      Cell *a = reg(in.a); bool sym = a->e != nullptr; for (auto &x : in.idx) sym |= reg(x.first)->e != nullptr;
      if (!sym) { uint64_t r = a->c + in.imm; for (size_t i = 0; i < in.idx.size(); i++) { uint64_t v = reg(in.idx[i].first)->c; unsigned w = in.mask[i]; if (w < 64 && (v >> (w - 1)) & 1) v |= ~maskw(w); r += v * (uint64_t)in.idx[i].second; } *reg(in.dst) = {r, nullptr}; }
      else { Ex r = mkAdd(toE(*a, 64), mkConst(64, in.imm)); for (size_t i = 0; i < in.idx.size(); i++) r = mkAdd(r, mkMul(mkSext(toE(*reg(in.idx[i].first), in.mask[i]), 64), mkConst(64, in.idx[i].second))); *reg(in.dst) = fromE(r); }
      f.pc++; return; }
    case O_SELECT: {
      Cell *c = reg(in.c), *a = reg(in.a), *b = reg(in.b), *d = reg(in.dst);
      if (in.t2.vec) { for (unsigned i = 0; i < in.t.lanes; i++) d[i] = c[i].e ? fromE(mkIte(c[i].e, toE(a[i], in.t.w), toE(b[i], in.t.w))) : c[i].c ? a[i] : b[i]; f.pc++; return; }
      if (c->e && in.t.lanes == 1 && (in.t.w <= 1 || noForkSelect)) { *d = fromE(mkIte(c->e, toE(*a, in.t.w), toE(*b, in.t.w))); f.pc++; return; }
      bool v = c->e ? decide(c->e) : c->c & 1; a = reg(in.a); b = reg(in.b); d = reg(in.dst); Cell *s = v ? a : b; for (unsigned i = 0; i < in.t.lanes; i++) d[i] = s[i];
      S->frames.back().pc++; return; }
    case O_BR: takeEdge(in.edge0); return;
    case O_CBR: { Cell c = *reg(in.a); bool v = c.e ? decide(c.e) : c.c & 1; takeEdge(v ? in.edge0 : in.edge1); return; }
    case O_SWITCH: {
      Cell c = *reg(in.a);
      if (!c.e) { for (auto &k : in.cases) if (k.first == c.c) { takeEdge(k.second); return; } takeEdge(in.edge0); return; }
      Ex e = resolve(c.e); for (auto &k : in.cases) if (decide(mkEq(e, mkConst(e->w, k.first)))) { takeEdge(k.second); return; }
      takeEdge(in.edge0); return; }
    case O_RET: {
      std::vector<Cell> r; { Cell *s = in.t.lanes ? reg(in.a) : nullptr; for (unsigned i = 0; i < in.t.lanes; i++) r.push_back(s[i]); }
      Frame top = S->frames.back(); S->frames.pop_back();
      if (!heap) while (S->mem.size() > top.memMark) { unref(S->mem.back()); S->mem.pop_back(); }
      S->stack.resize(top.base);
      if (S->frames.empty()) throw PathDone{};
      if (S->preDepth && S->frames.size() == S->preDepth) { S->preDepth = 0; for (auto &p : S->preTls) { unref(S->mem[p.first]); S->mem[p.first] = p.second; } S->preTls.clear(); }
      if (top.retDst >= 0) { Cell *d = reg(top.retDst); for (unsigned i = 0; i < r.size(); i++) d[i] = r[i]; }
      return; }
    case O_FENCE: f.pc++; return;
    case O_RMW: {
      if (preemptAt(*reg(in.a))) return;
      Cell v = *reg(in.b), old, nw; Inst l = in; l.op = O_LOAD; l.y = 0; doLoad(l); old = *reg(in.dst); unsigned w = in.t.w;
      switch (in.x) { case AtomicRMWInst::Xchg: nw = v; break; case AtomicRMWInst::Add: nw = binop(K_ADD, w, old, v); break; case AtomicRMWInst::Sub: nw = subop(w, old, v); break; case AtomicRMWInst::And: nw = binop(K_AND, w, old, v); break; case AtomicRMWInst::Or: nw = binop(K_OR, w, old, v); break; case AtomicRMWInst::Xor: nw = binop(K_XOR, w, old, v); break; default: throw Inconclusive{"atomicrmw"}; }
      storeScalar(in, nw); S->frames.back().pc++; return; }
    case O_CMPXCHG: {
      if (preemptAt(*reg(in.a))) return;
      Inst l = in; l.op = O_LOAD; l.y = 0; doLoad(l); Cell old = *reg(in.dst), want = *reg(in.b), nw = *reg(in.c); Ex eq = mkEq(toE(old, in.t.w), toE(want, in.t.w)); bool ok = decide(eq);
      if (ok) storeScalar(in, nw); reg(in.dst)[0] = old; reg(in.dst)[1] = {ok, nullptr}; S->frames.back().pc++; return; }
    case O_ALLOCA: { uint64_t sz = in.imm; if (in.b != INT32_MIN) { sz *= conc(*reg(in.b)); if (sz > (1u << 24)) throw Inconclusive{"huge alloca"}; } Obj *o = newObj(sz); uint64_t a = newStateObj(o); *reg(in.dst) = {a, nullptr}; S->frames.back().pc++; return; }
    case O_INSERT: { uint64_t ix = in.c == INT32_MIN ? in.x : conc(*reg(in.c)); Cell *a = reg(in.a), *d = reg(in.dst); Cell v = *reg(in.b); for (unsigned i = 0; i < in.t.lanes; i++) d[i] = a[i]; if (ix < in.t.lanes) d[ix] = v; S->frames.back().pc++; return; }
    case O_EXTRACT: { uint64_t ix = in.c == INT32_MIN ? in.x : conc(*reg(in.c)); *reg(in.dst) = ix < in.t2.lanes ? reg(in.a)[ix] : Cell{0, nullptr}; S->frames.back().pc++; return; }
    case O_SHUF: { Cell *a = reg(in.a), *b = reg(in.b); Cell t[128]; unsigned n = in.mask.size(), m = in.t2.lanes; for (unsigned i = 0; i < n; i++) { int k = in.mask[i]; t[i] = k < 0 ? Cell{0, nullptr} : (unsigned)k < m ? a[k] : b[k - m]; } Cell *d = reg(in.dst); for (unsigned i = 0; i < n; i++) d[i] = t[i]; f.pc++; return; }
    case O_EXTVAL: *reg(in.dst) = reg(in.a)[in.x]; f.pc++; return;
    case O_INSVAL: { Cell *a = reg(in.a), *d = reg(in.dst); Cell v = *reg(in.b); for (unsigned i = 0; i < in.t.lanes; i++) d[i] = a[i]; d[in.x] = v; f.pc++; return; }
    case O_CALL: doCall(in); return;
    case O_UNREACH: throw Violation{"unreachable", "unreachable code reached"};
    default: { std::string s; raw_string_ostream os(s); in.src->print(os); throw Inconclusive{"unsupported instruction: " + s}; }
    }
  }
  bool noForkSelect = false, splitAtoms = false;

  static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
  std::string modelJson(const std::vector<uint8_t> &m) {
    std::ostringstream o; o << "{"; bool first = true;
    for (uint32_t i = 0; i < varNames.size() && i < m.size(); i++) { if (!first) o << ","; first = false; o << "\"" << varNames[i] << "\":" << (int)m[i]; }
    // vars never touched by the model default to 0
    o << "}"; return o.str();
  }
  struct Result { std::string status = "ok", info; std::vector<std::string> viol; std::vector<std::string> samples; uint64_t done = 0, killed = 0; };

  std::string runJob(const std::string &id, const std::string &entry, unsigned maxPaths, double maxSec, unsigned nsamples, unsigned maxViol) {
    Stats before = st; auto t0 = Clk::now(); Result R; covers.clear(); heap = false; assumes.clear(); condAssume = false;
    for (auto &p : fns) if (p.second) p.second->calls = 0;
    Function *f = mod->getFunction(entry); if (!f) return "{\"id\":\"" + id + "\",\"status\":\"error\",\"info\":\"no entry\"}";
    for (State *s : work) freeState(s); work.clear();
    State *init = new State(); init->uid = uidNext++; init->mem = gmem; for (Obj *o : gmem) o->rc++;
    S = init; 
    try { pushFrame(getFn(f), nullptr); } catch (Inconclusive &i) { R.status = "inconclusive"; R.info = i.msg; freeState(init); init = nullptr; }
    if (init) work.push_back(init);
    std::vector<Ex> pcs; uint64_t steps = 0; bool trunc = false; std::set<std::string> violKeys;
    while (!work.empty()) {
      if (R.done + R.killed >= maxPaths) { trunc = true; R.info = "path limit"; break; }
      S = work.back(); work.pop_back(); bool stop = false;
      try {
        for (;;) {
          step(); S->instrs++; st.instrs++;
          if ((++steps & 0xfff) == 0 && std::chrono::duration<double>(Clk::now() - t0).count() > maxSec) { trunc = true; R.info = "time limit"; stop = true; break; }
          if (S->instrs > maxInstr) throw Violation{"hang", "instruction limit exceeded on one path"};
        }
      } catch (PathDone &) {
        R.done++; st.paths++;
        { if (!auditPath()) throw std::runtime_error("audit"); }
        if (pcs.size() < 400) pcs.push_back(mkNary(K_AND, pathCond()));
        if (R.samples.size() < nsamples && (R.done == 1 || R.done % 7 == 3 || work.empty())) {
          std::ostringstream o; o << "{\"model\":" << modelJson(S->model) << ",\"obs\":["; P->epoch++; bool first = true;
          for (auto &ob : S->obs) { uint64_t h = 1469598103934665603ULL; for (auto &b : ob.bytes) { uint8_t v = b.e ? evalE(b.e, S->model) : b.c; h = (h ^ v) * 1099511628211ULL; } if (!first) o << ","; first = false; o << "\"" << esc(ob.tag) << ":" << ob.bytes.size() << ":" << std::hex << h << std::dec << "\""; }
          o << "]}"; R.samples.push_back(o.str());
        }
      } catch (PathKill &) { R.killed++; st.killed++; }
      catch (Violation &v) {
        std::string where; for (int i = (int)S->frames.size() - 1; i >= 0; i--) { where += S->frames[i].fn->name; if (i) where += "<"; }
        std::string key = v.kind + v.msg + where;
        if (violKeys.insert(v.kind + ":" + where).second) { std::ostringstream o; o << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << esc(v.msg) << "\",\"where\":\"" << esc(where) << "\",\"model\":" << modelJson(S->model) << "}"; R.viol.push_back(o.str()); }
        R.done++;
        if (R.viol.size() >= maxViol) stop = true;
      } catch (Inconclusive &i) { R.status = "inconclusive"; R.info = i.msg; stop = true; }
      catch (std::runtime_error &e) { R.status = "inconclusive"; R.info = "audit mismatch: simplifier and solver disagree"; stop = true; }
      freeState(S); S = nullptr;
      if (stop) break;
    }
    for (State *s : work) freeState(s); work.clear();
    if (trunc && R.status == "ok") R.status = "truncated";
    if (!R.viol.empty()) R.status = "violation";
    // the explored path conditions must cover the whole (assumed) input space
    std::string part = "none";
    if (R.status == "ok" && R.done <= 400 && !condAssume && !R.killed) {
      try { Ex any = mkNary(K_OR, pcs); if (isC(any)) part = any->c ? "proved" : "failed"; else { std::vector<Ex> q{mkNot(any)}; for (Ex a : assumes) q.push_back(a); std::vector<uint8_t> m; int r = solver.query(q, m); part = r == 0 ? "proved" : r == 1 ? "failed" : "unknown"; } } catch (Inconclusive &) { part = "unknown"; }
    }
    double sec = std::chrono::duration<double>(Clk::now() - t0).count();
    std::ostringstream o;
    o << "{\"id\":\"" << id << "\",\"status\":\"" << R.status << "\",\"info\":\"" << esc(R.info) << "\",\"paths\":" << R.done << ",\"killed\":" << R.killed << ",\"sec\":" << sec
      << ",\"instrs\":" << st.instrs - before.instrs << ",\"forks\":" << st.forks - before.forks << ",\"queries\":" << st.queries - before.queries << ",\"sat\":" << st.sat - before.sat << ",\"unsat\":" << st.unsat - before.unsat << ",\"unknown\":" << st.unknown - before.unknown << ",\"repaired\":" << st.repaired - before.repaired << ",\"cache\":" << st.cacheHits - before.cacheHits << ",\"solver_s\":" << st.solverSec - before.solverSec
      << ",\"checks_solver\":" << st.checksSolver - before.checksSolver << ",\"checks_simplified\":" << st.checksSimplified - before.checksSimplified << ",\"bytes_compared\":" << st.bytesCompared - before.bytesCompared << ",\"bytes_symbolic\":" << st.bytesNontrivial - before.bytesNontrivial << ",\"audits\":" << st.audits - before.audits << ",\"partition\":\"" << part << "\",\"viol\":[";
    for (size_t i = 0; i < R.viol.size(); i++) o << (i ? "," : "") << R.viol[i];
    o << "],\"samples\":["; for (size_t i = 0; i < R.samples.size(); i++) o << (i ? "," : "") << R.samples[i];
    o << "],\"covers\":["; bool first = true; for (auto &c : covers) { o << (first ? "" : ",") << "\"" << esc(c) << "\""; first = false; }
    o << "],\"fns\":["; first = true; for (auto &p : fns) if (p.second && p.second->calls) { o << (first ? "" : ",") << "\"" << p.second->name << "\""; first = false; }
    o << "],\"mem\":" << P->bytes << "}";
    return o.str();
  }
};

// usage: engine module.bc   then lines: id entry maxPaths maxSec samples maxViol param...
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  Engine en; en.load(argv[1]);
  if (getenv("VP_MAXINSTR")) en.maxInstr = strtoull(getenv("VP_MAXINSTR"), nullptr, 10);
  std::string line;
  std::cout << "READY" << std::endl;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string id, entry; unsigned mp, ns, mv; double ms; unsigned opts = 0; is >> id >> entry >> mp >> ms >> ns >> mv >> opts; en.splitAtoms = opts & 1; en.noForkSelect = opts & 2; en.params.clear(); int64_t v; while (is >> v) en.params.push_back(v);
    // variable numbering restarts per job so that hash-consing and the query cache stay shared
    en.varByName.clear(); en.varNames.clear();
    std::cout << en.runJob(id, entry, mp, ms, ns, mv) << std::endl;
  }
}
