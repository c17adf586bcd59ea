// gxir: prepares LLVM IR of the repository for the property analyses.
//
// Usage: gxir <linked.bc> <plan.txt> <out.json>
//
// The plan has one directive per line (tab separated):
//   prefix <dir>     functions whose source lies below <dir> belong to the repository
//   inline <regex>   library functions (demangled name) that are flattened as well
//   keep <regex>     repository functions (demangled name) that stay calls
//   root <regex>     flatten every function whose demangled name matches
//   rootrepo         flatten every repository function
//   uninit           store a marker value into every scalar local variable where its scope of storage starts
//   index            also dump an index of all functions and of all globals
//
// Flattening = recursive inlining of repository functions + promotion of
// scalars to SSA form. No other optimisation is applied, so every branch,
// call and memory access of the source survives.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallSet.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/SimplifyCFGOptions.h"
#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <set>
#include <sstream>

using namespace llvm;

static std::vector<std::string> Prefixes;
static std::vector<std::regex> InlineRe, KeepRe, RootRe;
static bool WantIndex = false, RootRepo = false, WantUninit = false;
static std::map<std::string, const DICompositeType *> TypeByName;
static std::map<const Function *, std::string> DemCache;

static std::string dem(StringRef N) {
  std::string S = demangle(N.str());
  for (size_t P; (P = S.find("[abi:cxx11]")) != std::string::npos;) S.erase(P, 11);
  return S;
}
static const std::string &demF(const Function *F) {
  auto &S = DemCache[F];
  if (S.empty()) S = dem(F->getName());
  return S;
}
static bool any(const std::vector<std::regex> &V, const std::string &S) {
  for (auto &R : V)
    if (std::regex_search(S, R)) return true;
  return false;
}
static std::string filePath(const DIFile *F) {
  if (!F) return "";
  std::string P = F->getFilename().str();
  if (!P.empty() && P[0] != '/') P = F->getDirectory().str() + "/" + P;
  return P;
}
static bool inRepo(const std::string &P) {
  for (auto &X : Prefixes)
    if (P.compare(0, X.size(), X) == 0) return true;
  return false;
}
static bool isRepo(const Function *F) {
  if (auto *SP = F->getSubprogram()) return inRepo(filePath(SP->getFile()));
  return false;
}

static std::string scopeName(const DIScope *S) {
  if (!S) return "";
  std::string P;
  if (auto *T = dyn_cast<DIType>(S)) {
    P = scopeName(T->getScope());
    return P.empty() ? T->getName().str() : P + "::" + T->getName().str();
  }
  if (auto *N = dyn_cast<DINamespace>(S)) {
    P = scopeName(N->getScope());
    std::string M = N->getName().str();
    if (N->getExportSymbols()) return P;  // inline namespace
    if (M.empty()) M = "(anonymous namespace)";
    return P.empty() ? M : P + "::" + M;
  }
  if (auto *SP = dyn_cast<DISubprogram>(S)) return SP->getName().str();
  return "";
}
static std::string structBase(StringRef N) {
  // "class.genex::Group.123" -> "genex::Group"
  size_t D = N.find('.');
  std::string S = D == StringRef::npos ? N.str() : N.substr(D + 1).str();
  while (true) {
    size_t E = S.rfind('.');
    if (E == std::string::npos) break;
    bool Num = E + 1 < S.size();
    for (size_t I = E + 1; I < S.size(); ++I)
      if (!isdigit(S[I])) Num = false;
    if (Num || S.substr(E + 1) == "base") S = S.substr(0, E);
    else break;
  }
  return S;
}
static std::string fieldName(const DataLayout &DL, StructType *ST, unsigned Idx) {
  if (!ST->hasName()) return "#" + std::to_string(Idx);
  std::string N = structBase(ST->getName());
  auto It = TypeByName.find(N);
  uint64_t Off = DL.getStructLayout(ST)->getElementOffset(Idx) * 8;
  if (It != TypeByName.end()) {
    const DICompositeType *CT = It->second;
    std::string Inh;
    for (auto *E : CT->getElements()) {
      auto *D = dyn_cast<DIDerivedType>(E);
      if (!D) continue;
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember() &&
          D->getOffsetInBits() == Off)
        return N + "::" + D->getName().str();
      if (D->getTag() == dwarf::DW_TAG_inheritance && D->getOffsetInBits() == Off && Inh.empty())
        Inh = N + "::<base>";
    }
    if (!Inh.empty()) return Inh;
  }
  return N + "::#" + std::to_string(Idx);
}

// ---------------------------------------------------------------------------
// std::min / std::max on scalars: turn the reference result into a value.
static void rewriteMinMax(Function &F) {
  static std::regex Re("^(?:\\w[\\w ]*\\b )?(?:int|unsigned int|long|unsigned long|double|float|short|char) const& "
                       "std::(min|max)<([^<>]*)>\\(\\2 const&, \\2 const&\\)$");
  SmallVector<CallBase *, 8> Work;
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallBase>(&I))
      if (auto *CF = C->getCalledFunction()) {
        const std::string &D = demF(CF);
        if (D.find("std::min<") == std::string::npos && D.find("std::max<") == std::string::npos) continue;
        if (std::regex_match(D, Re)) Work.push_back(C);
      }
  for (auto *C : Work) {
    std::smatch M;
    std::string D = demF(C->getCalledFunction());
    std::regex_match(D, M, Re);
    std::string T = M[2];
    LLVMContext &Ctx = F.getContext();
    Type *Ty = nullptr;
    bool Uns = T.find("unsigned") != std::string::npos;
    if (T == "double") Ty = Type::getDoubleTy(Ctx);
    else if (T == "float") Ty = Type::getFloatTy(Ctx);
    else if (T.find("long") != std::string::npos) Ty = Type::getInt64Ty(Ctx);
    else if (T.find("short") != std::string::npos) Ty = Type::getInt16Ty(Ctx);
    else if (T.find("char") != std::string::npos) Ty = Type::getInt8Ty(Ctx);
    else Ty = Type::getInt32Ty(Ctx);
    IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt());
    AllocaInst *Tmp = EB.CreateAlloca(Ty);
    IRBuilder<> B(C);
    Value *A = B.CreateLoad(Ty, C->getArgOperand(0));
    Value *Bv = B.CreateLoad(Ty, C->getArgOperand(1));
    std::string NN = "gx." + std::string(M[1]) + "." +
                     (Ty->isFloatingPointTy() ? "f" : Uns ? "u" : "s") +
                     std::to_string(Ty->getPrimitiveSizeInBits().getFixedValue());
    FunctionCallee FC = F.getParent()->getOrInsertFunction(NN, FunctionType::get(Ty, {Ty, Ty}, false));
    cast<Function>(FC.getCallee())->setDoesNotThrow();
    CallInst *R = B.CreateCall(FC, {A, Bv});
    R->setDebugLoc(C->getDebugLoc());
    B.CreateStore(R, Tmp);
    C->replaceAllUsesWith(Tmp);
    if (auto *IV = dyn_cast<InvokeInst>(C)) {
      IV->getUnwindDest()->removePredecessor(IV->getParent());
      BranchInst::Create(IV->getNormalDest(), IV->getParent());
    }
    C->eraseFromParent();
  }
}

static bool wantInline(const Function *CF) {
  if (!CF || CF->isDeclaration() || CF->isIntrinsic()) return false;
  const std::string &D = demF(CF);
  if (isRepo(CF)) return !any(KeepRe, D);
  return any(InlineRe, D);
}

static void annotateGEPs(Function &F) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  LLVMContext &C = F.getContext();
  for (auto &I : instructions(F))
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      std::string Path;
      for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI)
        if (auto *ST = GTI.getStructTypeOrNull()) {
          unsigned Idx = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
          Path = fieldName(DL, ST, Idx);
        }
      if (!Path.empty()) G->setMetadata("gxf", MDNode::get(C, {MDString::get(C, Path)}));
    }
}

static bool flatten(Function *F, std::set<std::string> &Inlined) {
  // each pending call site carries the chain of functions it came from
  std::vector<std::pair<CallBase *, std::vector<Function *>>> Work;
  for (auto &I : instructions(*F))
    if (auto *C = dyn_cast<CallBase>(&I)) Work.push_back({C, {F}});
  unsigned Count = 0;
  while (!Work.empty()) {
    auto [C, Hist] = Work.back();
    Work.pop_back();
    Function *CF = C->getCalledFunction();
    if (!wantInline(CF)) continue;
    if (std::find(Hist.begin(), Hist.end(), CF) != Hist.end()) continue;
    InlineFunctionInfo IFI;
    auto R = InlineFunction(*C, IFI, /*MergeAttributes=*/false, nullptr, /*InsertLifetime=*/false);
    if (!R.isSuccess()) continue;
    Inlined.insert(demF(CF));
    if (++Count > 4000) return false;
    auto H2 = Hist;
    H2.push_back(CF);
    for (auto *N : IFI.InlinedCallSites) Work.push_back({N, H2});
  }
  return true;
}

// ---------------------------------------------------------------------------
struct Dumper {
  json::OStream &J;
  const DataLayout &DL;
  DenseMap<const Value *, unsigned> Ids;
  DenseMap<const BasicBlock *, unsigned> BIds;
  Dumper(json::OStream &J, const DataLayout &DL) : J(J), DL(DL) {}

  std::string tyS(Type *T) {
    std::string S;
    raw_string_ostream O(S);
    T->print(O, false, true);
    return O.str();
  }
  std::string constS(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() == 1) return CI->isOne() ? "c:1" : "c:0";
      SmallString<32> S;
      CI->getValue().toStringSigned(S);
      return "c:" + S.str().str();
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      SmallString<32> S;
      if (CF->isInfinity()) return CF->isNegative() ? "f:-inf" : "f:inf";
      if (CF->isNaN()) return "f:nan";
      double D = CF->getType()->isDoubleTy() ? CF->getValueAPF().convertToDouble()
                 : CF->getType()->isFloatTy() ? CF->getValueAPF().convertToFloat() : 0.0;
      char Buf[64];
      snprintf(Buf, sizeof Buf, "f:%.17g", D);
      return Buf;
    }
    if (isa<ConstantPointerNull>(C)) return "null";
    if (isa<PoisonValue>(C)) return "undef";
    if (isa<UndefValue>(C)) return "undef";
    if (isa<ConstantAggregateZero>(C)) return "zero";
    if (auto *G = dyn_cast<GlobalValue>(C)) return "@" + G->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) {
        APInt Off(64, 0);
        if (GO->accumulateConstantOffset(DL, Off))
          return "&" + constS(cast<Constant>(GO->getPointerOperand())) + "+" +
                 std::to_string(Off.getSExtValue());
      }
      if (CE->isCast()) return constS(CE->getOperand(0));
    }
    return "const";
  }
  std::string val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constS(C);
    if (auto *A = dyn_cast<Argument>(V)) return "%a" + std::to_string(A->getArgNo());
    auto It = Ids.find(V);
    if (It != Ids.end()) return "%" + std::to_string(It->second);
    if (isa<MetadataAsValue>(V)) return "md";
    if (isa<InlineAsm>(V)) return "asm";
    return "?";
  }
  void loc(const Instruction &I) {
    if (const DILocation *L = I.getDebugLoc().get()) {
      std::string Fn;
      const DISubprogram *SP = L->getScope()->getSubprogram();
      if (SP) Fn = SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str();
      J.attributeArray("loc", [&] {
        J.value(filePath(L->getFile()));
        J.value((int64_t)L->getLine());
        J.value((int64_t)L->getColumn());
        J.value(dem(Fn));
      });
      if (const DILocation *IA = L->getInlinedAt()) {
        while (IA->getInlinedAt()) IA = IA->getInlinedAt();
        J.attribute("top", (int64_t)IA->getLine());
      }
    }
  }
  void func(Function &F, const std::string &Orig, const std::set<std::string> &Inl) {
    unsigned N = 0, B = 0;
    for (auto &BB : F) {
      BIds[&BB] = B++;
      for (auto &I : BB)
        if (!isa<DbgInfoIntrinsic>(I)) Ids[&I] = N++;
    }
    std::map<const Value *, std::string> VarNames;
    std::map<unsigned, std::string> ArgNames;
    std::map<unsigned, std::string> ArgTypes;
    if (auto *SP = F.getSubprogram())
      for (auto *RN : SP->getRetainedNodes())
        if (auto *LV = dyn_cast<DILocalVariable>(RN))
          if (LV->getArg()) ArgNames[LV->getArg()] = LV->getName().str();
    for (auto &I : instructions(F)) {
      if (auto *DD = dyn_cast<DbgVariableIntrinsic>(&I)) {
        auto *LV = DD->getVariable();
        if (LV->getScope()->getSubprogram() == F.getSubprogram() && LV->getArg() && !DD->getDebugLoc()->getInlinedAt())
          ArgNames[LV->getArg()] = LV->getName().str();
        for (Value *V : DD->location_ops())
          if (V && !isa<Constant>(V)) VarNames[V] = LV->getName().str();
      }
    }
    J.object([&] {
      J.attribute("name", Orig);
      J.attribute("dem", dem(Orig));
      J.attribute("ret", tyS(F.getReturnType()));
      if (auto *SP = F.getSubprogram()) {
        J.attribute("file", filePath(SP->getFile()));
        J.attribute("line", (int64_t)SP->getLine());
      }
      J.attributeArray("args", [&] {
        for (auto &A : F.args())
          J.object([&] {
            J.attribute("ty", tyS(A.getType()));
            J.attribute("sret", A.hasStructRetAttr());
          });
      });
      J.attributeArray("argnames", [&] {
        for (auto &KV : ArgNames)
          J.array([&] {
            J.value((int64_t)KV.first);
            J.value(KV.second);
          });
      });
      J.attributeArray("inlined", [&] {
        for (auto &S : Inl) J.value(S);
      });
      J.attributeArray("blocks", [&] {
        for (auto &BB : F) {
          J.array([&] {
            for (auto &I : BB) {
              if (isa<DbgInfoIntrinsic>(I)) continue;
              inst(I, VarNames);
            }
          });
        }
      });
    });
  }
  void ops(const Instruction &I, unsigned From, unsigned To) {
    J.attributeArray("ops", [&] {
      for (unsigned K = From; K < To; ++K) J.value(val(I.getOperand(K)));
    });
  }
  void inst(const Instruction &I, std::map<const Value *, std::string> &VarNames) {
    J.object([&] {
      J.attribute("id", (int64_t)Ids[&I]);
      J.attribute("op", I.getOpcodeName());
      J.attribute("ty", tyS(I.getType()));
      auto VN = VarNames.find(&I);
      if (VN != VarNames.end()) J.attribute("var", VN->second);
      loc(I);
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyS(A->getAllocatedType()));
        J.attribute("size", (int64_t)(A->getAllocatedType()->isSized()
                                          ? DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue() : 0));
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        ops(I, 0, 1);
        J.attribute("size", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue());
        if (L->isAtomic()) J.attribute("atomic", true);
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        ops(I, 0, 2);
        J.attribute("sty", tyS(S->getValueOperand()->getType()));
        J.attribute("size", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
        if (S->isAtomic()) J.attribute("atomic", true);
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        ops(I, 0, 1);
        J.attribute("gty", tyS(G->getSourceElementType()));
        if (auto *MD = G->getMetadata("gxf"))
          J.attribute("field", cast<MDString>(MD->getOperand(0))->getString());
        J.attributeArray("steps", [&] {
          for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
            if (auto *ST = GTI.getStructTypeOrNull()) {
              unsigned Idx = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
              J.array([&] {
                J.value("off");
                J.value((int64_t)DL.getStructLayout(ST)->getElementOffset(Idx));
                J.value(fieldName(DL, ST, Idx));
              });
            } else {
              J.array([&] {
                J.value("idx");
                J.value(val(GTI.getOperand()));
                J.value((int64_t)GTI.getSequentialElementStride(DL).getFixedValue());
              });
            }
          }
        });
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] {
          for (unsigned K = 0; K < P->getNumIncomingValues(); ++K)
            J.array([&] {
              J.value(val(P->getIncomingValue(K)));
              J.value((int64_t)BIds[P->getIncomingBlock(K)]);
            });
        });
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) J.attributeArray("ops", [&] { J.value(val(Br->getCondition())); });
        J.attributeArray("succ", [&] {
          for (unsigned K = 0; K < Br->getNumSuccessors(); ++K) J.value((int64_t)BIds[Br->getSuccessor(K)]);
        });
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("ops", [&] { J.value(val(Sw->getCondition())); });
        J.attributeArray("succ", [&] {
          for (unsigned K = 0; K < Sw->getNumSuccessors(); ++K) J.value((int64_t)BIds[Sw->getSuccessor(K)]);
        });
        J.attributeArray("cases", [&] {
          for (auto &C : Sw->cases())
            J.array([&] {
              J.value((int64_t)C.getCaseValue()->getSExtValue());
              J.value((int64_t)BIds[C.getCaseSuccessor()]);
            });
        });
        J.attribute("default", (int64_t)BIds[Sw->getDefaultDest()]);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        J.attributeArray("ops", [&] {
          for (auto &A : C->args()) J.value(val(A.get()));
        });
        J.attributeArray("aty", [&] {
          for (auto &A : C->args()) J.value(tyS(A->getType()));
        });
        if (auto *CF = C->getCalledFunction()) {
          J.attribute("callee", CF->getName());
          J.attribute("dem", demF(CF));
          if (isRepo(CF)) J.attribute("repo", true);
          if (CF->doesNotThrow()) J.attribute("nounwind", true);
        } else {
          J.attribute("indirect", val(C->getCalledOperand()));
          J.attribute("fty", tyS(C->getFunctionType()));
        }
        if (C->doesNotThrow()) J.attribute("nounwind", true);
        if (C->arg_size() && C->hasStructRetAttr()) J.attribute("sret", true);
        if (auto *IV = dyn_cast<InvokeInst>(C))
          J.attributeArray("succ", [&] {
            J.value((int64_t)BIds[IV->getNormalDest()]);
            J.value((int64_t)BIds[IV->getUnwindDest()]);
          });
      } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
        J.attribute("cleanup", LP->isCleanup());
        J.attributeArray("clauses", [&] {
          for (unsigned K = 0; K < LP->getNumClauses(); ++K)
            J.array([&] {
              J.value(LP->isCatch(K) ? "catch" : "filter");
              J.value(val(LP->getClause(K)));
            });
        });
      } else {
        if (auto *Cm = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(Cm->getPredicate()));
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attribute("index", (int64_t)EV->getIndices()[0]);
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) J.attribute("index", (int64_t)IV->getIndices()[0]);
        if (auto *CI = dyn_cast<CastInst>(&I)) J.attribute("from", tyS(CI->getSrcTy()));
        else if (I.getNumOperands()) J.attribute("oty", tyS(I.getOperand(0)->getType()));
        ops(I, 0, I.getNumOperands());
      }
    });
  }
  void constInit(const Constant *C, unsigned Depth = 0) {
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
      if (CDS->isCString()) {
        std::string S = CDS->getAsCString().str(), O;
        for (char ch : S) O += (unsigned char)ch < 128 ? ch : '?';
        J.object([&] { J.attribute("str", O); });
        return;
      }
      J.array([&] {
        for (unsigned K = 0; K < CDS->getNumElements() && K < 256; ++K) J.value(constS(CDS->getElementAsConstant(K)));
      });
      return;
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      J.array([&] {
        for (auto &O : CA->operands())
          if (Depth < 4) constInit(cast<Constant>(O.get()), Depth + 1);
      });
      return;
    }
    J.value(constS(C));
  }
};

// what a scalar local variable holds before anything is stored into it
static void markLocals(Function &F) {
  std::vector<AllocaInst *> As;
  for (auto &I : F.getEntryBlock())
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      Type *T = A->getAllocatedType();
      if (!A->isArrayAllocation() && (T->isIntegerTy() || T->isFloatingPointTy() || T->isPointerTy())) As.push_back(A);
    }
  for (auto *A : As) {
    Type *T = A->getAllocatedType();
    std::string N = "gx.uninit." + std::string(T->isPointerTy() ? "p" : T->isIntegerTy() ? "i" : "f") +
                    std::to_string((unsigned)T->getPrimitiveSizeInBits()) + "." + A->getName().str();
    FunctionCallee C = F.getParent()->getOrInsertFunction(N, FunctionType::get(T, false));
    IRBuilder<> B(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
    auto *V = B.CreateCall(C);
    V->setDoesNotThrow();
    B.CreateStore(V, A);
  }
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) {
    Err.print(argv[0], errs());
    return 2;
  }
  // constructor/destructor variants are emitted as aliases: call the definition directly
  for (auto &A : M->aliases())
    if (auto *AF = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(AF);
  std::ifstream Plan(argv[2]);
  std::string Line;
  while (std::getline(Plan, Line)) {
    size_t T = Line.find('\t');
    std::string K = Line.substr(0, T), V = T == std::string::npos ? "" : Line.substr(T + 1);
    if (K == "prefix") Prefixes.push_back(V);
    else if (K == "inline") InlineRe.emplace_back(V);
    else if (K == "keep") KeepRe.emplace_back(V);
    else if (K == "root") RootRe.emplace_back(V);
    else if (K == "rootrepo") RootRepo = true;
    else if (K == "index") WantIndex = true;
    else if (K == "uninit") WantUninit = true;
  }
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto *T : DIF.types())
    if (auto *CT = dyn_cast<DICompositeType>(T))
      if (!CT->isForwardDecl() && CT->getElements().size()) {
        std::string N = scopeName(CT);
        // IR struct names carry no inline namespaces for repository types; keep both spellings
        if (!TypeByName.count(N)) TypeByName[N] = CT;
      }
  std::vector<Function *> Roots, Mark;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if ((RootRepo && isRepo(&F)) || any(RootRe, demF(&F))) Roots.push_back(&F);
  }
  for (auto &F : *M)
    if (!F.isDeclaration()) {
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      annotateGEPs(F);
      if (isRepo(&F) || any(InlineRe, demF(&F))) rewriteMinMax(F);
      if (WantUninit && isRepo(&F)) Mark.push_back(&F);
    }
  for (auto *F : Mark) markLocals(*F);

  std::error_code EC;
  raw_fd_ostream OS(argv[3], EC);
  json::OStream J(OS);
  const DataLayout &DL = M->getDataLayout();

  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  J.object([&] {
    if (WantIndex) {
      J.attributeArray("index", [&] {
        for (auto &F : *M) {
          J.object([&] {
            J.attribute("name", F.getName());
            J.attribute("dem", demF(&F));
            J.attribute("decl", F.isDeclaration());
            J.attribute("repo", isRepo(&F));
            if (auto *SP = F.getSubprogram()) {
              J.attribute("file", filePath(SP->getFile()));
              J.attribute("line", (int64_t)SP->getLine());
            }
            std::set<std::string> Calls, Refs, Glob;
            bool Ind = false;
            for (auto &I : instructions(F)) {
              if (auto *C = dyn_cast<CallBase>(&I)) {
                if (auto *CF = C->getCalledFunction()) {
                  if (!CF->isIntrinsic()) Calls.insert(CF->getName().str());
                } else Ind = true;
              }
              for (auto &O : I.operands()) {
                if (auto *GF = dyn_cast<Function>(O.get()->stripPointerCasts()))
                  if (!GF->isIntrinsic()) Refs.insert(GF->getName().str());
                SmallVector<const Value *, 8> W{O.get()};
                while (!W.empty()) {
                  const Value *V = W.pop_back_val();
                  if (auto *GV = dyn_cast<GlobalVariable>(V)) Glob.insert(GV->getName().str());
                  else if (auto *CE = dyn_cast<ConstantExpr>(V)) for (auto &X : CE->operands()) W.push_back(X.get());
                }
              }
            }
            J.attributeArray("calls", [&] { for (auto &S : Calls) J.value(S); });
            J.attributeArray("refs", [&] { for (auto &S : Refs) if (!Calls.count(S)) J.value(S); });
            J.attributeArray("uses", [&] { for (auto &S : Glob) J.value(S); });
            J.attribute("indirect", Ind);
          });
        }
      });
      J.attributeArray("types", [&] {
        for (auto &KV : TypeByName) {
          const DICompositeType *CT = KV.second;
          if (!inRepo(filePath(CT->getFile())) ||
              (CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_structure_type))
            continue;
          J.object([&] {
            J.attribute("name", KV.first);
            J.attribute("file", filePath(CT->getFile()));
            J.attribute("line", (int64_t)CT->getLine());
            J.attribute("size", (int64_t)(CT->getSizeInBits() / 8));
            J.attributeArray("members", [&] {
              for (auto *E : CT->getElements()) {
                auto *D = dyn_cast<DIDerivedType>(E);
                if (!D || D->isStaticMember()) continue;
                bool Base = D->getTag() == dwarf::DW_TAG_inheritance;
                if (!Base && D->getTag() != dwarf::DW_TAG_member) continue;
                const DIType *T = D->getBaseType();
                while (auto *X = dyn_cast_or_null<DIDerivedType>(T)) {
                  unsigned Tag = X->getTag();
                  if (Tag != dwarf::DW_TAG_typedef && Tag != dwarf::DW_TAG_const_type && Tag != dwarf::DW_TAG_volatile_type) break;
                  T = X->getBaseType();
                }
                std::string Kind = "other";
                if (auto *B = dyn_cast_or_null<DIBasicType>(T))
                  Kind = B->getEncoding() == dwarf::DW_ATE_float ? "float" : "int";
                else if (isa_and_nonnull<DIDerivedType>(T)) Kind = "ptr";
                else if (auto *C = dyn_cast_or_null<DICompositeType>(T))
                  Kind = C->getTag() == dwarf::DW_TAG_enumeration_type ? "int" : C->getTag() == dwarf::DW_TAG_array_type ? "array" : "class";
                J.object([&] {
                  J.attribute("name", Base ? StringRef("<base>") : D->getName());
                  J.attribute("off", (int64_t)(D->getOffsetInBits() / 8));
                  J.attribute("size", (int64_t)(T ? T->getSizeInBits() / 8 : 0));
                  J.attribute("kind", Kind);
                  J.attribute("ty", T ? scopeName(T) : std::string());
                });
              }
            });
          });
        }
      });
      J.attributeArray("globals", [&] {
        for (auto &G : M->globals()) {
          J.object([&] {
            J.attribute("name", G.getName());
            J.attribute("dem", dem(G.getName()));
            J.attribute("const", G.isConstant());
            J.attribute("tls", G.isThreadLocal());
            std::string TS;
            raw_string_ostream TO(TS);
            G.getValueType()->print(TO, false, true);
            J.attribute("ty", TO.str());
            SmallVector<DIGlobalVariableExpression *, 1> GVs;
            G.getDebugInfo(GVs);
            if (!GVs.empty()) {
              J.attribute("file", filePath(GVs[0]->getVariable()->getFile()));
              J.attribute("line", (int64_t)GVs[0]->getVariable()->getLine());
              J.attribute("var", GVs[0]->getVariable()->getName());
            }
            if (G.hasInitializer()) {
              J.attributeBegin("init");
              Dumper D(J, DL);
              D.constInit(G.getInitializer());
              J.attributeEnd();
            }
          });
        }
      });
    }
    J.attributeArray("functions", [&] {
      for (auto *F : Roots) {
        ValueToValueMapTy VM;
        std::string Orig = F->getName().str();
        Function *C = CloneFunction(F, VM);
        std::set<std::string> Inl;
        if (!flatten(C, Inl)) errs() << "gxir: inlining limit reached in " << demF(F) << "\n";
        FunctionPassManager FPM;
        SimplifyCFGOptions O;
        O.bonusInstThreshold(0).forwardSwitchCondToPhi(false).convertSwitchRangeToICmp(false)
            .convertSwitchToLookupTable(false).needCanonicalLoops(true).hoistCommonInsts(false)
            .sinkCommonInsts(false).setSimplifyCondBranch(false).speculateBlocks(false);
        FPM.addPass(PromotePass());
        FPM.addPass(SimplifyCFGPass(O));
        FPM.run(*C, FAM);
        Dumper D(J, DL);
        D.func(*C, Orig, Inl);
        FAM.invalidate(*C, PreservedAnalyses::none());
        C->eraseFromParent();
      }
    });
  });
  OS << "\n";
  return 0;
}
