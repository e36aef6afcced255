// SxPass: LLVM pass plugin that instruments every function of a module so that
// it computes a symbolic expression ("shadow") next to every concrete value.
//
//  - every SSA value of integer (<=64 bit), pointer, float or double type gets a
//    shadow: a pointer to an expression node, null when the value is concrete
//  - memory contents are shadowed by the run time (_sx_load/_sx_store)
//  - conditional branches and switches on symbolic values report the predicate
//  - calls hand over the shadows of their arguments through _sx_args
//
// The run time (rt.cpp) owns the expressions, the path condition and the solver.
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <functional>
#include <map>
#include <set>

using namespace llvm;

namespace {

constexpr unsigned kMaxArgs = 64;

// names of library functions that have a model in the run time (prefix _sxw_)
const std::set<std::string> kWrapped = {
    "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr", "free", "_ZdlPv", "_ZdlPvm",
    "_ZdaPv", "_ZdaPvm", "_ZSt11_Hash_bytesPKvmm", "_Znwm", "_Znam", "malloc", "calloc", "realloc"};
// names of library functions that are replaced by a model compiled with this
// pass (models.cpp, prefix sxm_)
const std::set<std::string> kModelled = {
    "strcmp", "strncmp", "strspn", "strcspn", "strpbrk", "strcoll", "strchr", "strrchr", "strstr", "strcpy", "strncpy", "strcat", "toupper", "tolower",
    "isspace", "isdigit", "isalpha", "isalnum", "isprint", "isupper", "islower", "ispunct", "isxdigit", "strtol",
    "strtoll", "strtoul", "strtoull", "atoi", "atol", "__isoc23_strtol", "__isoc23_strtoll", "__isoc23_strtoul",
    "__isoc23_strtoull"};

struct Leaf {
  Type *Ty;
  uint64_t Off;
  SmallVector<unsigned, 2> Idx;
};

class Instrumenter {
public:
  Instrumenter(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    PtrTy = PointerType::getUnqual(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I8 = Type::getInt8Ty(C);
    I1 = Type::getInt1Ty(C);
    VoidTy = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(PtrTy);
    auto g = [&](const char *n, Type *t) {
      auto *G = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
      G->setDSOLocal(true);
      return G;
    };
    Callee = g("_sx_callee", PtrTy);
    Ret = g("_sx_ret", ArrayType::get(PtrTy, 16));
    Args = g("_sx_args", ArrayType::get(PtrTy, kMaxArgs));
    Filter = g("_sx_filter", ArrayType::get(I8, 65536));
    Active = g("_sx_active", I8);
    NArgs = g("_sx_nargs", I32);
    fBin = fn("_sx_bin", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
    fFBin = fn("_sx_fbin", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
    fICmp = fn("_sx_icmp", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
    fFCmp = fn("_sx_fcmp", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
    fCast = fn("_sx_cast", PtrTy, {I32, I32, I32, PtrTy, I64});
    fIte = fn("_sx_ite", PtrTy, {PtrTy, I64, I32, PtrTy, I64, PtrTy, I64});
    fLoad = fn("_sx_load", PtrTy, {PtrTy, I32, I32});
    fLoadSym = fn("_sx_load_symaddr", PtrTy, {PtrTy, PtrTy, I32, I32});
    fStore = fn("_sx_store", VoidTy, {PtrTy, I32, I32, PtrTy});
    fPin = fn("_sx_pin", VoidTy, {PtrTy, I64, PtrTy});
    fBranch = fn("_sx_branch", VoidTy, {PtrTy, I64});
    fSwitch = fn("_sx_switch", VoidTy, {PtrTy, I64, I32, I32, PtrTy});
    fToExpr = fn("_sx_toexpr", PtrTy, {PtrTy, I64, I32});
    fGepIdx = fn("_sx_gepidx", PtrTy, {PtrTy, PtrTy, I64, I32, I64});
    fMemcpy = fn("_sx_memcpy", VoidTy, {PtrTy, PtrTy, I64, PtrTy});
    fMemset = fn("_sx_memset", VoidTy, {PtrTy, PtrTy, I64, I64, PtrTy});
    fDropped = fn("_sx_dropped", VoidTy, {PtrTy});
    fExt = fn("_sx_extcall", VoidTy, {PtrTy});
    fIntr = fn("_sx_intrinsic", PtrTy, {PtrTy, I32, I32, PtrTy, I64, PtrTy, I64, PtrTy, I64});
    fUnsup = fn("_sx_unsupported", VoidTy, {PtrTy, PtrTy, I64});
    fRegister = fn("_sx_register", VoidTy, {PtrTy, PtrTy, PtrTy, I64, PtrTy});
    Unlikely = MDBuilder(C).createBranchWeights(1, 2000);
  }

  bool run() {
    std::vector<Function *> Fs;
    for (auto &F : M) {
      if (F.getName().starts_with("_sx") || F.getName().starts_with("llvm."))
        continue;
      if (F.isDeclaration() || F.hasAvailableExternallyLinkage())
        continue;
      Fs.push_back(&F);
    }
    // redirect modelled library functions
    std::vector<Function *> W;
    for (auto &F : M)
      if (F.isDeclaration() && kWrapped.count(F.getName().str()))
        W.push_back(&F);
      else if (F.isDeclaration() && kModelled.count(F.getName().str()))
        W.push_back(&F);
    for (auto *F : W) {
      bool model = kModelled.count(F->getName().str());
      auto NF = M.getOrInsertFunction(((model ? "sxm_" : "_sxw_") + F->getName()).str(), F->getFunctionType());
      if (!isa<Function>(NF.getCallee()))
        report_fatal_error("SxPass: wrapper type clash");
      Wrappers.insert(cast<Function>(NF.getCallee()));
      F->replaceAllUsesWith(NF.getCallee());
    }
    FlagsTy = ArrayType::get(I8, Fs.size() ? Fs.size() : 1);
    Flags = new GlobalVariable(M, FlagsTy, false, GlobalValue::InternalLinkage,
                               ConstantAggregateZero::get(FlagsTy), "__sx_fnflags");
    unsigned i = 0;
    for (auto *F : Fs)
      instrument(*F, i++);
    emitRegistration(Fs);
    return true;
  }

private:
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  PointerType *PtrTy;
  Type *I64, *I32, *I8, *I1, *VoidTy;
  Constant *Null;
  GlobalVariable *Callee, *Ret, *Args, *Filter, *Active, *NArgs, *Flags;
  ArrayType *FlagsTy;
  FunctionCallee fBin, fFBin, fICmp, fFCmp, fCast, fIte, fLoad, fLoadSym, fStore, fPin, fBranch, fSwitch, fToExpr,
      fGepIdx, fMemcpy, fMemset, fDropped, fExt, fIntr, fUnsup, fRegister;
  MDNode *Unlikely;
  std::set<Function *> Wrappers;
  std::map<std::string, Constant *> Strs;

  DenseMap<Value *, SmallVector<Value *, 1>> Sh;
  std::vector<PHINode *> Phis;

  FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a) {
    auto FC = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    if (auto *F = dyn_cast<Function>(FC.getCallee())) {
      F->setDoesNotThrow();
    }
    return FC;
  }
  Constant *str(const std::string &s) {
    auto &c = Strs[s];
    if (!c) {
      auto *d = ConstantDataArray::getString(C, s);
      c = new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d, "__sx_s");
    }
    return c;
  }

  static bool scalar(Type *T) {
    if (T->isPointerTy() || T->isFloatTy() || T->isDoubleTy())
      return true;
    if (auto *IT = dyn_cast<IntegerType>(T))
      return IT->getBitWidth() <= 64;
    return false;
  }
  void leavesRec(Type *T, uint64_t off, SmallVector<unsigned, 2> idx, std::vector<Leaf> &out) {
    if (auto *ST = dyn_cast<StructType>(T)) {
      auto *SL = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); ++i) {
        auto j = idx;
        j.push_back(i);
        leavesRec(ST->getElementType(i), off + SL->getElementOffset(i), j, out);
      }
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL.getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements() && i < 16; ++i) {
        auto j = idx;
        j.push_back(i);
        leavesRec(AT->getElementType(), off + i * es, j, out);
      }
    } else {
      out.push_back({T, off, idx});
    }
  }
  std::vector<Leaf> leaves(Type *T) {
    std::vector<Leaf> out;
    if (!T->isSized() || T->isVoidTy())
      return out;
    leavesRec(T, 0, {}, out);
    return out;
  }

  Value *sh(Value *V, unsigned leaf = 0) {
    if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V))
      return Null;
    auto it = Sh.find(V);
    if (it == Sh.end() || leaf >= it->second.size() || !it->second[leaf])
      return Null;
    return it->second[leaf];
  }
  void setSh(Value *V, Value *S, unsigned leaf = 0) {
    auto &v = Sh[V];
    if (v.size() <= leaf)
      v.resize(leaf + 1, nullptr);
    v[leaf] = S;
  }
  bool isNull(Value *V) { return V == Null; }

  // concrete value as i64
  Value *asI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy())
      return B.CreatePtrToInt(V, I64);
    if (T->isFloatTy())
      return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isDoubleTy())
      return B.CreateBitCast(V, I64);
    if (T->isIntegerTy())
      return B.CreateZExtOrTrunc(V, I64);
    return ConstantInt::get(I64, 0);
  }
  unsigned width(Type *T) {
    if (T->isPointerTy() || T->isDoubleTy())
      return 64;
    if (T->isFloatTy())
      return 32;
    return T->getIntegerBitWidth();
  }
  // kind encoding handed to the run time: bit width | 0x100 for fp
  unsigned kind(Type *T) { return width(T) | (T->isFloatingPointTy() ? 0x100 : 0) | (T->isPointerTy() ? 0x200 : 0); }
  Constant *c32(uint64_t v) { return ConstantInt::get(I32, v); }
  Constant *c64(uint64_t v) { return ConstantInt::get(I64, v); }

  // condition "any of the shadows is non-null"
  Value *anyNonNull(IRBuilder<> &B, ArrayRef<Value *> S) {
    Value *acc = nullptr;
    unsigned n = 0;
    Value *single = nullptr;
    for (auto *s : S)
      if (!isNull(s)) {
        ++n;
        single = s;
      }
    if (n == 0)
      return nullptr;
    if (n == 1)
      return B.CreateICmpNE(single, Null);
    SmallPtrSet<Value *, 4> seen;
    for (auto *s : S) {
      if (isNull(s) || !seen.insert(s).second)
        continue;
      Value *p = B.CreatePtrToInt(s, I64);
      acc = acc ? B.CreateOr(acc, p) : p;
    }
    return B.CreateICmpNE(acc, c64(0));
  }

  Value *guarded(Instruction *At, ArrayRef<Value *> S, std::function<Value *(IRBuilder<> &)> slow) {
    IRBuilder<> B(At);
    Value *cond = anyNonNull(B, S);
    if (!cond)
      return Null;
    return guardedCond(At, cond, slow);
  }
  Value *guardedCond(Instruction *At, Value *cond, std::function<Value *(IRBuilder<> &)> slow) {
    BasicBlock *head = At->getParent();
    Instruction *T = SplitBlockAndInsertIfThen(cond, At, false, Unlikely);
    IRBuilder<> SB(T);
    Value *r = slow(SB);
    if (!r)
      return nullptr;
    IRBuilder<> PB(&*At->getParent()->begin());
    PHINode *P = PB.CreatePHI(PtrTy, 2);
    P->addIncoming(Null, head);
    P->addIncoming(r, T->getParent());
    return P;
  }

  Value *filterHit(IRBuilder<> &B, Value *Ptr) {
    Value *a = B.CreatePtrToInt(Ptr, I64);
    Value *pg = B.CreateAnd(B.CreateLShr(a, c64(12)), c64(0xffff));
    Value *f = B.CreateLoad(I8, B.CreateGEP(I8, Filter, pg));
    return B.CreateICmpNE(f, ConstantInt::get(I8, 0));
  }

  void instrument(Function &F, unsigned id) {
    Sh.clear();
    Phis.clear();
    // keep instantiated library templates private to the executable
    if (F.hasLinkOnceLinkage() || F.hasWeakLinkage())
      F.setVisibility(GlobalValue::HiddenVisibility);
    F.removeFnAttr(Attribute::Memory);
    F.removeFnAttr(Attribute::NoFree);
    F.removeFnAttr(Attribute::NoSync);
    F.removeFnAttr(Attribute::WillReturn);
    F.removeFnAttr(Attribute::NoRecurse);

    std::vector<Instruction *> Work;
    {
      ReversePostOrderTraversal<Function *> RPOT(&F);
      for (auto *BB : RPOT)
        for (auto &I : *BB)
          Work.push_back(&I);
    }
    // arguments
    {
      Instruction *At = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
      IRBuilder<> B(At);
      B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstInBoundsGEP2_64(FlagsTy, Flags, 0, id));
      std::vector<std::pair<Argument *, unsigned>> slots;
      unsigned slot = 0;
      for (auto &A : F.args()) {
        auto L = leaves(A.getType());
        for (unsigned l = 0; l < L.size(); ++l, ++slot)
          if (slot < kMaxArgs && scalar(L[l].Ty))
            slots.push_back({&A, slot | (l << 16)});
      }
      if (!slots.empty()) {
        Value *c = B.CreateLoad(PtrTy, Callee);
        Value *m = B.CreateICmpEQ(c, &F);
        BasicBlock *head = At->getParent();
        Instruction *T = SplitBlockAndInsertIfThen(m, At, false, Unlikely);
        IRBuilder<> SB(T);
        SB.CreateStore(Null, Callee);
        std::vector<Value *> vals;
        for (auto &s : slots)
          vals.push_back(SB.CreateLoad(PtrTy, SB.CreateConstInBoundsGEP2_64(ArrayType::get(PtrTy, kMaxArgs), Args, 0, s.second & 0xffff)));
        IRBuilder<> PB(&*At->getParent()->begin());
        for (unsigned i = 0; i < slots.size(); ++i) {
          PHINode *P = PB.CreatePHI(PtrTy, 2);
          P->addIncoming(Null, head);
          P->addIncoming(vals[i], T->getParent());
          setSh(slots[i].first, P, slots[i].second >> 16);
        }
      }
    }
    for (auto *I : Work)
      visit(I, F);
    for (auto *P : Phis)
      fillPhi(P);
  }

  void visit(Instruction *I, Function &F) {
    if (auto *P = dyn_cast<PHINode>(I))
      return visitPhi(P);
    if (auto *B = dyn_cast<BinaryOperator>(I))
      return visitBin(B);
    if (auto *U = dyn_cast<UnaryOperator>(I))
      return visitUn(U);
    if (auto *X = dyn_cast<CmpInst>(I))
      return visitCmp(X);
    if (auto *X = dyn_cast<CastInst>(I))
      return visitCast(X);
    if (auto *X = dyn_cast<SelectInst>(I))
      return visitSelect(X);
    if (auto *X = dyn_cast<LoadInst>(I))
      return visitLoad(X);
    if (auto *X = dyn_cast<StoreInst>(I))
      return visitStore(X);
    if (auto *X = dyn_cast<GetElementPtrInst>(I))
      return visitGEP(X);
    if (auto *X = dyn_cast<BranchInst>(I))
      return visitBr(X);
    if (auto *X = dyn_cast<SwitchInst>(I))
      return visitSwitch(X);
    if (auto *X = dyn_cast<ReturnInst>(I))
      return visitRet(X);
    if (auto *X = dyn_cast<CallBase>(I))
      return visitCall(X);
    if (auto *X = dyn_cast<ExtractValueInst>(I))
      return visitExtract(X);
    if (auto *X = dyn_cast<InsertValueInst>(I))
      return visitInsert(X);
    if (auto *X = dyn_cast<FreezeInst>(I)) {
      auto L = leaves(X->getType());
      for (unsigned i = 0; i < L.size(); ++i)
        setSh(X, sh(X->getOperand(0), i), i);
      return;
    }
    if (isa<LandingPadInst>(I)) {
      Instruction *N = I->getNextNode();
      IRBuilder<> B(N);
      Value *c = B.CreateICmpNE(B.CreateLoad(PtrTy, Callee), Null);
      guardedCond(N, c, [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fDropped, {Null});
        return nullptr;
      });
      return;
    }
    if (auto *X = dyn_cast<AtomicRMWInst>(I)) {
      IRBuilder<> B(I->getNextNode());
      Instruction *N = I->getNextNode();
      Value *Ptr = X->getPointerOperand();
      unsigned sz = DL.getTypeStoreSize(X->getType());
      guardedCond(N, filterHit(B, Ptr), [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fUnsup, {str("atomicrmw"), Ptr, c64(sz)});
        return nullptr;
      });
      return;
    }
    // everything else: result concrete; complain when an operand is symbolic
    SmallVector<Value *, 4> S;
    for (auto &Op : I->operands())
      if (!isNull(sh(Op)))
        S.push_back(sh(Op));
    if (!S.empty() && !I->isTerminator() && !isa<AllocaInst>(I)) {
      std::string n = I->getOpcodeName();
      guarded(I, S, [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fUnsup, {str(n), Null, c64(0)});
        return nullptr;
      });
    }
    if (auto *AI = dyn_cast<AllocaInst>(I)) {
      if (!isNull(sh(AI->getArraySize()))) {
        IRBuilder<> B(I);
        B.CreateCall(fPin, {sh(AI->getArraySize()), asI64(B, AI->getArraySize()), str("alloca")});
      }
    }
  }

  void visitPhi(PHINode *P) {
    auto L = leaves(P->getType());
    bool any = false;
    for (unsigned l = 0; l < L.size(); ++l) {
      if (!scalar(L[l].Ty))
        continue;
      IRBuilder<> B(P);
      PHINode *S = B.CreatePHI(PtrTy, P->getNumIncomingValues());
      setSh(P, S, l);
      any = true;
    }
    if (any)
      Phis.push_back(P);
  }
  void fillPhi(PHINode *P) {
    auto L = leaves(P->getType());
    for (unsigned l = 0; l < L.size(); ++l) {
      if (!scalar(L[l].Ty))
        continue;
      auto *S = cast<PHINode>(sh(P, l));
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        S->addIncoming(sh(P->getIncomingValue(i), l), P->getIncomingBlock(i));
    }
  }

  void visitBin(BinaryOperator *I) {
    Type *T = I->getType();
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    if (!scalar(T)) {
      return wide(I);
    }
    Value *s = guarded(I, {sh(a), sh(b)}, [&](IRBuilder<> &B) -> Value * {
      return B.CreateCall(T->isFloatingPointTy() ? fFBin : fBin,
                          {c32(I->getOpcode()), c32(width(T)), sh(a), asI64(B, a), sh(b), asI64(B, b)});
    });
    setSh(I, s);
  }
  void wide(Instruction *I) {
    SmallVector<Value *, 4> S;
    for (auto &Op : I->operands())
      if (!isNull(sh(Op)))
        S.push_back(sh(Op));
    if (S.empty())
      return;
    std::string n = std::string("wide ") + I->getOpcodeName();
    guarded(I, S, [&](IRBuilder<> &SB) -> Value * {
      for (auto &Op : I->operands())
        if (!isNull(sh(Op)) && scalar(Op->getType()))
          SB.CreateCall(fPin, {sh(Op), asI64(SB, Op), str(n)});
      return nullptr;
    });
  }
  void visitUn(UnaryOperator *I) {
    Type *T = I->getType();
    if (!scalar(T))
      return wide(I);
    Value *a = I->getOperand(0);
    setSh(I, guarded(I, {sh(a)}, [&](IRBuilder<> &B) -> Value * {
            return B.CreateCall(fFBin, {c32(I->getOpcode()), c32(width(T)), sh(a), asI64(B, a), Null, c64(0)});
          }));
  }
  void visitCmp(CmpInst *I) {
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    Type *T = a->getType();
    if (!scalar(T))
      return wide(I);
    setSh(I, guarded(I, {sh(a), sh(b)}, [&](IRBuilder<> &B) -> Value * {
            return B.CreateCall(T->isFloatingPointTy() ? fFCmp : fICmp,
                                {c32(I->getPredicate()), c32(width(T)), sh(a), asI64(B, a), sh(b), asI64(B, b)});
          }));
  }
  void visitCast(CastInst *I) {
    Value *a = I->getOperand(0);
    if (!scalar(I->getType()) || !scalar(a->getType()))
      return wide(I);
    switch (I->getOpcode()) {
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (width(I->getType()) == width(a->getType())) {
        setSh(I, sh(a));
        return;
      }
      break;
    default:
      break;
    }
    unsigned op = I->getOpcode();
    if (op == Instruction::PtrToInt)
      op = Instruction::Trunc;
    if (op == Instruction::IntToPtr)
      op = Instruction::ZExt;
    setSh(I, guarded(I, {sh(a)}, [&](IRBuilder<> &B) -> Value * {
            return B.CreateCall(fCast, {c32(op), c32(kind(a->getType())), c32(kind(I->getType())), sh(a), asI64(B, a)});
          }));
  }
  void visitSelect(SelectInst *I) {
    Value *c = I->getCondition(), *a = I->getTrueValue(), *b = I->getFalseValue();
    if (!scalar(I->getType())) {
      if (!isNull(sh(c))) {
        IRBuilder<> B(I);
        guarded(I, {sh(c)}, [&](IRBuilder<> &SB) -> Value * {
          SB.CreateCall(fBranch, {sh(c), asI64(SB, c)});
          return nullptr;
        });
      }
      auto L = leaves(I->getType());
      for (unsigned l = 0; l < L.size(); ++l) {
        IRBuilder<> B(I);
        if (scalar(L[l].Ty) && !(isNull(sh(a, l)) && isNull(sh(b, l))))
          setSh(I, B.CreateSelect(c, sh(a, l), sh(b, l)), l);
      }
      return;
    }
    IRBuilder<> B(I);
    Value *base = (isNull(sh(a)) && isNull(sh(b))) ? (Value *)Null : B.CreateSelect(c, sh(a), sh(b));
    if (isNull(sh(c))) {
      setSh(I, base);
      return;
    }
    Value *cond = B.CreateICmpNE(sh(c), Null);
    BasicBlock *head = I->getParent();
    Instruction *T = SplitBlockAndInsertIfThen(cond, I, false, Unlikely);
    IRBuilder<> SB(T);
    Value *r = SB.CreateCall(fIte, {sh(c), asI64(SB, c), c32(kind(I->getType())), sh(a), asI64(SB, a), sh(b), asI64(SB, b)});
    IRBuilder<> PB(&*I->getParent()->begin());
    PHINode *P = PB.CreatePHI(PtrTy, 2);
    P->addIncoming(base, head);
    P->addIncoming(r, T->getParent());
    setSh(I, P);
  }

  void pinAddr(Instruction *At, Value *Ptr, const char *what) {
    if (isNull(sh(Ptr)))
      return;
    guarded(At, {sh(Ptr)}, [&](IRBuilder<> &SB) -> Value * {
      SB.CreateCall(fPin, {sh(Ptr), asI64(SB, Ptr), str(what)});
      return nullptr;
    });
  }

  void visitLoad(LoadInst *I) {
    Value *Ptr = I->getPointerOperand();
    auto L = leaves(I->getType());
    if (L.size() == 1 && scalar(L[0].Ty)) {
      unsigned k = kind(I->getType()), sz = DL.getTypeStoreSize(I->getType());
      Instruction *N = I->getNextNode();
      IRBuilder<> B(N);
      Value *cond = filterHit(B, Ptr);
      if (!isNull(sh(Ptr))) {
        // symbolic address
        Value *symc = B.CreateICmpNE(sh(Ptr), Null);
        cond = B.CreateOr(cond, symc);
        setSh(I, guardedCond(N, cond, [&](IRBuilder<> &SB) -> Value * {
                return SB.CreateCall(fLoadSym, {sh(Ptr), Ptr, c32(sz), c32(k)});
              }));
      } else {
        setSh(I, guardedCond(N, cond, [&](IRBuilder<> &SB) -> Value * {
                return SB.CreateCall(fLoad, {Ptr, c32(sz), c32(k)});
              }));
      }
      return;
    }
    pinAddr(I, Ptr, "load address");
    Instruction *N = I->getNextNode();
    bool bad = false;
    for (unsigned l = 0; l < L.size(); ++l) {
      if (!scalar(L[l].Ty)) {
        bad = true;
        continue;
      }
      IRBuilder<> B(N);
      Value *P = B.CreateConstGEP1_64(I8, Ptr, L[l].Off);
      unsigned k = kind(L[l].Ty), sz = DL.getTypeStoreSize(L[l].Ty);
      setSh(I, guardedCond(N, filterHit(B, P), [&](IRBuilder<> &SB) -> Value * {
              return SB.CreateCall(fLoad, {P, c32(sz), c32(k)});
            }),
            l);
    }
    if (bad) {
      IRBuilder<> B(N);
      guardedCond(N, filterHit(B, Ptr), [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fUnsup, {str("wide load"), Ptr, c64(DL.getTypeStoreSize(I->getType()))});
        return nullptr;
      });
    }
  }
  void visitStore(StoreInst *I) {
    Value *Ptr = I->getPointerOperand(), *V = I->getValueOperand();
    pinAddr(I, Ptr, "store address");
    auto L = leaves(V->getType());
    for (unsigned l = 0; l < L.size(); ++l) {
      unsigned sz = DL.getTypeStoreSize(L[l].Ty);
      IRBuilder<> B(I);
      Value *P = L[l].Off ? B.CreateConstGEP1_64(I8, Ptr, L[l].Off) : Ptr;
      Value *S = scalar(L[l].Ty) ? sh(V, l) : Null;
      Value *cond = filterHit(B, P);
      if (!isNull(S))
        cond = B.CreateOr(cond, B.CreateICmpNE(S, Null));
      unsigned k = scalar(L[l].Ty) ? kind(L[l].Ty) : sz * 8;
      // after the store, so that the shadow can remember the concrete bytes
      Instruction *N = I->getNextNode();
      (void)N;
      guardedCond(I, cond, [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fStore, {P, c32(sz), c32(k), S});
        return nullptr;
      });
    }
  }
  void visitGEP(GetElementPtrInst *I) {
    if (!I->getType()->isPointerTy())
      return;
    SmallVector<Value *, 4> S;
    for (auto &Op : I->operands())
      S.push_back(sh(Op));
    setSh(I, guarded(I, S, [&](IRBuilder<> &B) -> Value * {
            Value *base = I->getPointerOperand();
            Value *t = B.CreateCall(fToExpr, {sh(base), asI64(B, base), c32(64)});
            uint64_t off = 0;
            for (auto GTI = gep_type_begin(I), E = gep_type_end(I); GTI != E; ++GTI) {
              Value *Idx = GTI.getOperand();
              if (auto *ST = GTI.getStructTypeOrNull()) {
                off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue());
                continue;
              }
              int64_t es = DL.getTypeAllocSize(GTI.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(Idx)) {
                off += CI->getSExtValue() * es;
                continue;
              }
              t = B.CreateCall(fGepIdx, {t, sh(Idx), asI64(B, Idx), c32(width(Idx->getType())), c64(es)});
            }
            if (off)
              t = B.CreateCall(fGepIdx, {t, Null, c64(off), c32(64), c64(1)});
            return t;
          }));
  }
  void visitBr(BranchInst *I) {
    if (!I->isConditional())
      return;
    Value *c = I->getCondition();
    if (isNull(sh(c)))
      return;
    guarded(I, {sh(c)}, [&](IRBuilder<> &B) -> Value * {
      B.CreateCall(fBranch, {sh(c), asI64(B, c)});
      return nullptr;
    });
  }
  void visitSwitch(SwitchInst *I) {
    Value *c = I->getCondition();
    if (isNull(sh(c)) || !scalar(c->getType()))
      return;
    std::vector<Constant *> tab;
    std::map<BasicBlock *, unsigned> succ;
    succ[I->getDefaultDest()] = 0;
    for (auto &Case : I->cases()) {
      auto it = succ.insert({Case.getCaseSuccessor(), succ.size()}).first;
      tab.push_back(c64(Case.getCaseValue()->getZExtValue()));
      tab.push_back(c64(it->second));
    }
    auto *AT = ArrayType::get(I64, tab.size());
    auto *G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, tab), "__sx_sw");
    guarded(I, {sh(c)}, [&](IRBuilder<> &B) -> Value * {
      B.CreateCall(fSwitch, {sh(c), asI64(B, c), c32(width(c->getType())), c32(tab.size() / 2), G});
      return nullptr;
    });
  }
  void visitRet(ReturnInst *I) {
    Value *V = I->getReturnValue();
    if (!V)
      return;
    if (auto *CI = I->getParent()->getTerminatingMustTailCall()) {
      (void)CI;
      return;
    }
    auto L = leaves(V->getType());
    IRBuilder<> B(I);
    for (unsigned l = 0; l < L.size() && l < 16; ++l) {
      Value *S = scalar(L[l].Ty) ? sh(V, l) : Null;
      B.CreateStore(S, B.CreateConstInBoundsGEP2_64(ArrayType::get(PtrTy, 16), Ret, 0, l));
    }
  }
  void visitExtract(ExtractValueInst *I) {
    auto AL = leaves(I->getAggregateOperand()->getType());
    auto RL = leaves(I->getType());
    unsigned r = 0;
    for (unsigned l = 0; l < AL.size(); ++l) {
      if (AL[l].Idx.size() < I->getNumIndices())
        continue;
      bool match = true;
      for (unsigned k = 0; k < I->getNumIndices(); ++k)
        if (AL[l].Idx[k] != I->getIndices()[k])
          match = false;
      if (match && r < RL.size()) {
        setSh(I, sh(I->getAggregateOperand(), l), r);
        ++r;
      }
    }
  }
  void visitInsert(InsertValueInst *I) {
    auto AL = leaves(I->getType());
    unsigned r = 0;
    for (unsigned l = 0; l < AL.size(); ++l) {
      bool match = AL[l].Idx.size() >= I->getNumIndices();
      if (match)
        for (unsigned k = 0; k < I->getNumIndices(); ++k)
          if (AL[l].Idx[k] != I->getIndices()[k])
            match = false;
      if (match) {
        setSh(I, sh(I->getInsertedValueOperand(), r), l);
        ++r;
      } else
        setSh(I, sh(I->getAggregateOperand(), l), l);
    }
  }

  void visitIntrinsic(IntrinsicInst *I) {
    auto id = I->getIntrinsicID();
    switch (id) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      auto *MI = cast<MemTransferInst>(I);
      IRBuilder<> B(I);
      pinAddr(I, MI->getRawDest(), "memcpy dest");
      pinAddr(I, MI->getRawSource(), "memcpy source");
      B.SetInsertPoint(I);
      B.CreateCall(fMemcpy, {MI->getRawDest(), MI->getRawSource(), asI64(B, MI->getLength()), sh(MI->getLength())});
      return;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline: {
      auto *MI = cast<MemSetInst>(I);
      pinAddr(I, MI->getRawDest(), "memset dest");
      IRBuilder<> B(I);
      B.CreateCall(fMemset, {MI->getRawDest(), sh(MI->getValue()), asI64(B, MI->getValue()), asI64(B, MI->getLength()), sh(MI->getLength())});
      return;
    }
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy:
      setSh(I, sh(I->getArgOperand(0)));
      return;
    case Intrinsic::is_constant:
    case Intrinsic::assume:
    case Intrinsic::objectsize:
      return;
    default:
      break;
    }
    if (I->getType()->isVoidTy())
      return;
    SmallVector<Value *, 4> S;
    for (auto &A : I->args())
      if (!isNull(sh(A)))
        S.push_back(sh(A));
    if (S.empty())
      return;
    auto L = leaves(I->getType());
    if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::usub_with_overflow ||
        id == Intrinsic::ssub_with_overflow || id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      unsigned w = scalar(a->getType()) ? width(a->getType()) : 0;
      if (w) {
        std::string n = Intrinsic::getBaseName(id).str();
        for (unsigned part = 0; part < 2; ++part)
          setSh(I, guarded(I, S, [&](IRBuilder<> &B) -> Value * {
                  return B.CreateCall(fIntr, {str(n), c32(w), c32(part), sh(a), asI64(B, a), sh(b), asI64(B, b), Null, c64(0)});
                }),
                part);
        return;
      }
    }
    bool ok = L.size() == 1 && scalar(L[0].Ty) && I->arg_size() <= 3;
    for (auto &A : I->args())
      if (!scalar(A->getType()))
        ok = false;
    if (!ok) {
      std::string n = "intrinsic " + Intrinsic::getBaseName(id).str();
      guarded(I, S, [&](IRBuilder<> &B) -> Value * {
        for (auto &A : I->args())
          if (!isNull(sh(A)) && scalar(A->getType()))
            B.CreateCall(fPin, {sh(A), asI64(B, A), str(n)});
        return nullptr;
      });
      return;
    }
    std::string n = Intrinsic::getBaseName(id).str();
    setSh(I, guarded(I, S, [&](IRBuilder<> &B) -> Value * {
            Value *e[3] = {Null, Null, Null}, *v[3] = {c64(0), c64(0), c64(0)};
            for (unsigned i = 0; i < I->arg_size(); ++i) {
              e[i] = sh(I->getArgOperand(i));
              v[i] = asI64(B, I->getArgOperand(i));
            }
            return B.CreateCall(fIntr, {str(n), c32(kind(I->getArgOperand(0)->getType())), c32(kind(I->getType())), e[0], v[0], e[1], v[1], e[2], v[2]});
          }));
  }

  void visitCall(CallBase *I) {
    if (auto *II = dyn_cast<IntrinsicInst>(I))
      return visitIntrinsic(II);
    if (I->isInlineAsm())
      return;
    if (auto *CI = dyn_cast<CallInst>(I))
      if (CI->isMustTailCall())
        return;
    Value *Target = I->getCalledOperand();
    Function *Direct = dyn_cast<Function>(Target->stripPointerCasts());
    if (Direct && Direct->getName().starts_with("_sx_"))
      return; // run time itself
    // the call may not be treated as a tail call that reuses our frame
    if (auto *CI = dyn_cast<CallInst>(I))
      CI->setTailCall(false);
    pinAddr(I, Target, "indirect call target");
    // arguments
    SmallVector<Value *, 8> S;
    unsigned slot = 0;
    std::vector<std::pair<unsigned, Value *>> slots; // slot, shadow
    FunctionType *FT = I->getFunctionType();
    for (unsigned a = 0; a < I->arg_size(); ++a) {
      Value *A = I->getArgOperand(a);
      auto L = leaves(A->getType());
      for (unsigned l = 0; l < L.size(); ++l, ++slot) {
        Value *s = scalar(L[l].Ty) ? sh(A, l) : Null;
        if (a >= FT->getNumParams()) {
          if (!isNull(s)) {
            guarded(I, {s}, [&](IRBuilder<> &B) -> Value * {
              B.CreateCall(fPin, {s, asI64(B, A), str("variadic argument")});
              return nullptr;
            });
          }
          continue;
        }
        if (slot < kMaxArgs) {
          slots.push_back({slot, s});
          if (!isNull(s))
            S.push_back(s);
        }
      }
      if (I->isByValArgument(a)) {
        IRBuilder<> B(I);
        uint64_t sz = DL.getTypeStoreSize(I->getParamByValType(a));
        guardedCond(I, filterHit(B, A), [&](IRBuilder<> &SB) -> Value * {
          SB.CreateCall(fUnsup, {str("byval argument"), A, c64(sz)});
          return nullptr;
        });
      }
    }
    bool args = false;
    if (!S.empty()) {
      args = true;
      guarded(I, S, [&](IRBuilder<> &B) -> Value * {
        B.CreateStore(Target, Callee);
        B.CreateStore(c32(slots.size()), NArgs);
        for (auto &p : slots)
          B.CreateStore(p.second, B.CreateConstInBoundsGEP2_64(ArrayType::get(PtrTy, kMaxArgs), Args, 0, p.first));
        return nullptr;
      });
    }
    // possibly un-instrumented target: report it to the run time
    bool maybeExt = !(Direct && !Direct->isDeclaration()) && !(Direct && Wrappers.count(Direct)) &&
                    !(Direct && Direct->getName().starts_with("sx_"));
    if (maybeExt) {
      IRBuilder<> B(I);
      Value *act = B.CreateICmpNE(B.CreateLoad(I8, Active), ConstantInt::get(I8, 0));
      guardedCond(I, act, [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fExt, {Target});
        return nullptr;
      });
    }
    auto L = leaves(I->getType());
    {
      IRBuilder<> B(I);
      for (unsigned l = 0; l < L.size() && l < 16; ++l)
        B.CreateStore(Null, B.CreateConstInBoundsGEP2_64(ArrayType::get(PtrTy, 16), Ret, 0, l));
    }
    // after the call
    Instruction *N = nullptr;
    if (auto *Inv = dyn_cast<InvokeInst>(I)) {
      BasicBlock *ND = Inv->getNormalDest();
      if (!ND->getSinglePredecessor() || isa<PHINode>(ND->front()))
      {
        BasicBlock *NB = BasicBlock::Create(C, "", ND->getParent(), ND);
        BranchInst::Create(ND, NB);
        for (auto &Phi : ND->phis())
          for (unsigned k = 0; k < Phi.getNumIncomingValues(); ++k)
            if (Phi.getIncomingBlock(k) == Inv->getParent())
              Phi.setIncomingBlock(k, NB);
        Inv->setNormalDest(NB);
        ND = NB;
      }
      N = &*ND->getFirstInsertionPt();
    } else {
      N = I->getNextNode();
      if (I->doesNotReturn() && isa<UnreachableInst>(N))
        return;
    }
    if (args) {
      IRBuilder<> B(N);
      Value *c = B.CreateICmpNE(B.CreateLoad(PtrTy, Callee), Null);
      guardedCond(N, c, [&](IRBuilder<> &SB) -> Value * {
        SB.CreateCall(fDropped, {Target});
        return nullptr;
      });
    }
    {
      // read the shadows of the result first thing after the call
      IRBuilder<> B(N);
      for (unsigned l = 0; l < L.size() && l < 16; ++l)
        if (scalar(L[l].Ty))
          setSh(I, B.CreateLoad(PtrTy, B.CreateConstInBoundsGEP2_64(ArrayType::get(PtrTy, 16), Ret, 0, l)), l);
    }
  }

  void emitRegistration(std::vector<Function *> &Fs) {
    std::vector<Constant *> fs, names;
    for (auto *F : Fs) {
      fs.push_back(F->hasLocalLinkage() && F->hasComdat() ? (Constant *)Null : (Constant *)F);
      names.push_back(str(F->getName().str()));
    }
    if (fs.empty())
      return;
    auto *AT = ArrayType::get(PtrTy, fs.size());
    auto *GF = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, fs), "__sx_fns");
    auto *GN = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, names), "__sx_names");
    auto *Ctor = Function::Create(FunctionType::get(VoidTy, false), GlobalValue::InternalLinkage, "_sx_module_ctor", M);
    IRBuilder<> B(BasicBlock::Create(C, "", Ctor));
    B.CreateCall(fRegister, {GF, GN, Flags, c64(fs.size()), str(M.getSourceFileName())});
    B.CreateRetVoid();
    appendToGlobalCtors(M, Ctor, 0);
  }
};

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Instrumenter(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "sx") {
                MPM.addPass(SxPass());
                return true;
              }
              return false;
            });
          }};
}
