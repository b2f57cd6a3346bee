// prep in.bc out.bc [fill]: gives automatic variables that are not initialised an arbitrary value (a call of vp_undef), before any optimisation,
// so that reading them is visible to the engine instead of being folded to whatever suits the optimiser. The same goes for direct uses of _mm*_undefined_*.
// fill: large arrays are filled, too (native build; the engine tracks uninitialised memory by itself).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Verifier.h>
using namespace llvm;

static unsigned nextId;
static FunctionCallee undefFn(Module &m) {
  auto &c = m.getContext();
  FunctionCallee f = m.getOrInsertFunction("vp_undef", Type::getInt64Ty(c), Type::getInt32Ty(c));
  if (auto *fn = dyn_cast<Function>(f.getCallee())) { fn->setDoesNotThrow(); fn->setWillReturn(); fn->setMemoryEffects(MemoryEffects::none()); }
  return f;
}
static unsigned bitsOf(Type *t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w == 8 || w == 16 || w == 32 || w == 64 ? w : 0; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { unsigned w = v->getElementType()->isIntegerTy() ? v->getScalarSizeInBits() * v->getNumElements() : 0; return w % 64 == 0 ? w : 0; }
  return 0;
}
static Value *junk(IRBuilder<> &b, Module &m, Type *t) {
  FunctionCallee f = undefFn(m); unsigned w = bitsOf(t);
  auto one = [&] { return b.CreateCall(f, {b.getInt32(nextId++)}); };
  if (t->isIntegerTy()) return w == 64 ? (Value *)one() : b.CreateTrunc(one(), t);
  Value *v = PoisonValue::get(FixedVectorType::get(b.getInt64Ty(), w / 64));
  for (unsigned i = 0; i < w / 64; i++) v = b.CreateInsertElement(v, one(), (uint64_t)i);
  return b.CreateBitCast(v, t);
}
static bool leaves(Type *t, std::vector<uint64_t> path, std::vector<std::pair<std::vector<uint64_t>, Type *>> &out) {
  if (bitsOf(t)) { out.push_back({path, t}); return out.size() <= 40; }
  if (auto *s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < s->getNumElements(); i++) { auto p = path; p.push_back(i); if (!leaves(s->getElementType(i), p, out)) return false; } return true; }
  if (auto *a = dyn_cast<ArrayType>(t)) { if (a->getNumElements() > 40) return false; for (unsigned i = 0; i < a->getNumElements(); i++) { auto p = path; p.push_back(i); if (!leaves(a->getElementType(), p, out)) return false; } return true; }
  return true; // pointers, floating point: left alone
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print(argv[0], errs()); return 1; }
  const bool fill = argc > 3;
  std::vector<std::pair<AllocaInst *, Instruction *>> sites; // alloca, insert behind this
  std::vector<CallInst *> undefs;
  for (Function &f : *m) {
    if (f.isDeclaration()) continue;
    for (BasicBlock &b : f) for (Instruction &i : b) {
      if (auto *a = dyn_cast<AllocaInst>(&i)) {
        bool any = false;
        for (User *u : a->users()) if (auto *ii = dyn_cast<IntrinsicInst>(u)) if (ii->getIntrinsicID() == Intrinsic::lifetime_start) { sites.push_back({a, ii}); any = true; }
        if (!any) sites.push_back({a, a});
      } else if (auto *c = dyn_cast<CallInst>(&i)) {
        Function *g = c->getCalledFunction(); if (!g) continue;
        StringRef n = g->getName();
        if (n.starts_with("_mm") && n.contains("_undefined") && !f.getName().starts_with("_mm") && bitsOf(c->getType())) undefs.push_back(c);
      }
    }
  }
  for (auto &s : sites) {
    AllocaInst *a = s.first; if (a->isArrayAllocation()) continue;
    Instruction *at = s.second->getNextNode(); while (isa<AllocaInst>(at)) at = at->getNextNode();
    IRBuilder<> b(at); b.SetCurrentDebugLocation(DebugLoc());
    std::vector<std::pair<std::vector<uint64_t>, Type *>> l;
    if (leaves(a->getAllocatedType(), {}, l)) {
      for (auto &x : l) {
        std::vector<Value *> idx = {b.getInt32(0)}; for (uint64_t k : x.first) idx.push_back(b.getInt32((uint32_t)k));
        Value *p = x.first.empty() ? (Value *)a : b.CreateInBoundsGEP(a->getAllocatedType(), a, idx);
        b.CreateStore(junk(b, *m, x.second), p);
      }
    } else if (fill) {
      FunctionCallee g = m->getOrInsertFunction("vp_undef_mem", b.getVoidTy(), b.getPtrTy(), b.getInt64Ty());
      b.CreateCall(g, {a, b.getInt64(m->getDataLayout().getTypeAllocSize(a->getAllocatedType()))});
    }
  }
  for (CallInst *c : undefs) { IRBuilder<> b(c); c->replaceAllUsesWith(junk(b, *m, c->getType())); c->eraseFromParent(); }
  if (verifyModule(*m, &errs())) return 1;
  std::error_code ec; raw_fd_ostream o(argv[2], ec); if (ec) return 1;
  WriteBitcodeToFile(*m, o); return 0;
}
