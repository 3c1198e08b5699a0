// pvx: program-view extractor.
//
// Reads LLVM bitcode produced from /repo's current sources and prints, as JSON,
// a resolved view of every function defined in the repository: basic blocks,
// SSA instructions, resolved (and virtual) callees, named struct fields, source
// locations with their inlining chain.  No code of the repository is run.
//
//   pvx --root DIR [--inline] [--noinline REGEX]... [--inlinestd REGEX]...
//       [--spec NAME:ARGIDX:VALUE:SUFFIX]... [--only REGEX] in.bc
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/SimplifyCFGOptions.h"
#include <functional>
#include <map>
#include <set>

using namespace llvm;

static std::string Root;
static bool DoInline = false;
static std::vector<std::string> NoInline, InlineStd;
struct Spec { std::string fn; unsigned arg; int64_t val; std::string suffix; };
static std::vector<Spec> Specs;
static std::string Only;

static std::string dem(StringRef n) { return demangle(n.str()); }

static std::string spFile(const DIFile *F) {
  if (!F) return "";
  std::string f = F->getFilename().str();
  if (!f.empty() && f[0] == '/') return f;
  return F->getDirectory().str() + "/" + f;
}
static bool inRepo(const Function &F) {
  if (auto *SP = F.getSubprogram()) {
    std::string f = spFile(SP->getFile());
    return f.compare(0, Root.size(), Root) == 0;
  }
  return false;
}
static bool matches(const std::vector<std::string> &pats, const std::string &s) {
  for (auto &p : pats) if (Regex(p).match(s)) return true;
  return false;
}

// ---- struct field names -------------------------------------------------
static std::map<std::string, std::vector<std::pair<uint64_t, std::string>>> DIFields;
static std::string diQual(const DIScope *S) {
  if (!S) return "";
  if (isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  std::string p = diQual(S->getScope());
  std::string n = S->getName().str();
  if (auto *SP = dyn_cast<DISubprogram>(S)) n = SP->getName().str();
  if (isa<DILexicalBlockBase>(S)) return p;
  if (p.empty()) return n;
  return p + "::" + n;
}
static void collectDI(Module &M) {
  DebugInfoFinder DF; DF.processModule(M);
  for (auto *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) {
      // typedef struct {...} X : IR name is X (typedef name for linkage)
      if (auto *D = dyn_cast<DIDerivedType>(T))
        if (D->getTag() == dwarf::DW_TAG_typedef)
          if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
            if (B->getName().empty()) C = B;
      if (!C || C->isForwardDecl()) continue;
    }
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
    std::string q;
    if (C->getName().empty()) {
      if (auto *D = dyn_cast<DIDerivedType>(T)) q = diQual(D->getScope()) + (diQual(D->getScope()).empty() ? "" : "::") + D->getName().str();
      else continue;
    } else q = diQual(C);
    auto &v = DIFields[q];
    if (!v.empty()) continue;
    for (auto *E : C->getElements()) {
      auto *D = dyn_cast<DIDerivedType>(E);
      if (!D) continue;
      if (D->getTag() == dwarf::DW_TAG_inheritance) {
        std::string bn = D->getBaseType() ? D->getBaseType()->getName().str() : "";
        v.push_back({D->getOffsetInBits() / 8, "base:" + bn});
      } else if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
        v.push_back({D->getOffsetInBits() / 8, D->getName().str()});
    }
  }
}
static std::string irTypeQual(StructType *ST) {
  if (!ST->hasName()) return "";
  StringRef n = ST->getName();
  for (auto pre : {"class.", "struct.", "union."}) if (n.starts_with(pre)) { n = n.drop_front(strlen(pre)); break; }
  std::string s = n.str();
  // strip llvm-link suffix ".123" and ".base"
  while (true) {
    size_t p = s.rfind('.');
    if (p == std::string::npos) break;
    std::string t = s.substr(p + 1);
    if (t == "base" || (!t.empty() && t.find_first_not_of("0123456789") == std::string::npos)) s = s.substr(0, p);
    else break;
  }
  return s;
}
static std::string fieldName(StructType *ST, unsigned idx, const DataLayout &DL) {
  auto q = irTypeQual(ST);
  auto it = DIFields.find(q);
  if (it == DIFields.end()) return "#" + std::to_string(idx);
  uint64_t off = DL.getStructLayout(ST)->getElementOffset(idx);
  std::string base;
  for (auto &p : it->second) if (p.first == off) {
    if (StringRef(p.second).starts_with("base:")) { if (base.empty()) base = p.second; }
    else return p.second;
  }
  if (!base.empty()) return base;
  return "#" + std::to_string(idx);
}

// ---- passes -------------------------------------------------------------
static SimplifyCFGOptions cfgOpts() {
  SimplifyCFGOptions O;
  O.bonusInstThreshold(0).convertSwitchRangeToICmp(false).convertSwitchToLookupTable(false)
   .needCanonicalLoops(true).hoistCommonInsts(false).sinkCommonInsts(false).speculateBlocks(false);
  return O;
}
static void runPasses(Module &M, bool inlineAll) {
  // an allocation nothing reads must stay: whether it is released is a question asked later
  for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
    Function *G = C->getCalledFunction();
    if (!G) continue;
    StringRef n = G->getName();
    if (n.starts_with("_Zn") || n == "malloc" || n == "calloc" || n == "strdup") {
      C->removeFnAttr(Attribute::Builtin);
      C->addFnAttr(Attribute::NoBuiltin);
    }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (inlineAll) MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(PromotePass());
  FPM.addPass(InstSimplifyPass());
  FPM.addPass(SCCPPass());
  FPM.addPass(SimplifyCFGPass(cfgOpts()));
  FPM.addPass(EarlyCSEPass(false));
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(SCCPPass());
  FPM.addPass(SimplifyCFGPass(cfgOpts()));
  FPM.addPass(InstSimplifyPass());
  FPM.addPass(LoopSimplifyPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(M, MAM);
}

// ---- dumping ------------------------------------------------------------
static std::string tyStr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return s; }

static std::map<std::string, std::string> origLinkage;
struct FnDumper {
  Function &F; const DataLayout &DL; json::OStream &J;
  std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bbs;
  std::map<const Value *, std::string> varNames;
  FnDumper(Function &f, json::OStream &j) : F(f), DL(f.getParent()->getDataLayout()), J(j) {}

  json::Value opnd(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
    if (auto *I = dyn_cast<Instruction>(V)) return json::Array{"i", ids[I]};
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      if (CI->getBitWidth() <= 64) return json::Array{"c", CI->getSExtValue(), (int64_t)CI->getBitWidth()};
      return json::Array{"c", CI->getValue().getLimitedValue() == ~0ull ? (int64_t)-1 : (int64_t)CI->getValue().getLimitedValue(), (int64_t)CI->getBitWidth()};
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      bool li; APFloat f = CF->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      double d = f.convertToDouble();
      std::string s; raw_string_ostream os(s); os << format("%.17g", d);
      return json::Array{"f", s};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
    if (isa<UndefValue>(V)) return json::Array{"u"};
    if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
    if (auto *GV = dyn_cast<GlobalValue>(V)) return json::Array{"g", GV->getName().str()};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (CE->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        if (cast<GEPOperator>(CE)->accumulateConstantOffset(DL, off)) {
          const Value *B = cast<GEPOperator>(CE)->getPointerOperand();
          return json::Array{"ge", opnd(B), off.getSExtValue()};
        }
      }
      if (CE->isCast()) return opnd(CE->getOperand(0));
      std::string s; raw_string_ostream os(s); CE->print(os);
      return json::Array{"x", s};
    }
    if (auto *BB = dyn_cast<BasicBlock>(V)) return json::Array{"b", bbs[BB]};
    if (auto *MV = dyn_cast<MetadataAsValue>(V)) {
      std::string s; raw_string_ostream os(s); MV->getMetadata()->print(os);
      if (auto *MS = dyn_cast<MDString>(MV->getMetadata())) return json::Array{"m", MS->getString().str()};
      return json::Array{"m", s};
    }
    std::string s; raw_string_ostream os(s); V->printAsOperand(os, true);
    return json::Array{"x", s};
  }
  json::Value loc(const DebugLoc &D) {
    if (!D) return nullptr;
    json::Array chain;
    const DILocation *L = D.get();
    json::Array r;
    auto *S = L->getScope()->getSubprogram();
    r.push_back(spFile(L->getFile())); r.push_back((int64_t)L->getLine());
    r.push_back(S ? S->getName().str() : "");
    for (const DILocation *IA = L->getInlinedAt(); IA; IA = IA->getInlinedAt()) {
      auto *SS = IA->getScope()->getSubprogram();
      chain.push_back(json::Array{spFile(IA->getFile()), (int64_t)IA->getLine(), SS ? SS->getName().str() : ""});
    }
    if (!chain.empty()) r.push_back(std::move(chain));
    return std::move(r);
  }
  void dump() {
    int n = 0, b = 0;
    for (auto &BB : F) { bbs[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    for (auto &BB : F) for (auto &I : BB) {
      if (auto *DD = dyn_cast<DbgVariableIntrinsic>(&I)) {
        if (DD->getNumVariableLocationOps() != 1) continue;
        Value *V = DD->getVariableLocationOp(0);
        if (!V) continue;
        auto nm = DD->getVariable()->getName().str();
        if (!varNames.count(V)) varNames[V] = nm;
      }
    }
    J.objectBegin();
    J.attribute("name", F.getName()); J.attribute("dem", dem(F.getName()));
    auto *SP = F.getSubprogram();
    if (SP) { J.attribute("file", spFile(SP->getFile())); J.attribute("line", (int64_t)SP->getLine()); J.attribute("short", SP->getName()); 
      if (auto *TY = SP->getType()) (void)TY; }
    J.attribute("ret", tyStr(F.getReturnType()));
    { auto it = origLinkage.find(F.getName().str()); J.attribute("linkage", it == origLinkage.end() ? std::string("external") : it->second); }
    J.attributeArray("args", [&] {
      for (auto &A : F.args()) J.arrayBegin(), J.value(tyStr(A.getType())), J.value(varNames.count(&A) ? varNames[&A] : A.getName().str()), J.value(A.hasStructRetAttr()),
        J.value(A.getParamStructRetType() ? tyStr(A.getParamStructRetType()) : A.getParamByValType() ? tyStr(A.getParamByValType()) : ""), J.arrayEnd();
    });
    J.attributeArray("blocks", [&] {
      for (auto &BB : F) {
        J.arrayBegin();
        for (auto &I : BB) if (!isa<DbgInfoIntrinsic>(I)) inst(I);
        J.arrayEnd();
      }
    });
    J.objectEnd();
  }
  void inst(Instruction &I) {
    if (auto *II = dyn_cast<IntrinsicInst>(&I))
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::type_test: case Intrinsic::public_type_test: return;
      default: break;
      }
    J.objectBegin();
    J.attribute("id", ids[&I]); J.attribute("op", I.getOpcodeName());
    J.attribute("t", tyStr(I.getType()));
    if (varNames.count(&I)) J.attribute("v", varNames[&I]);
    if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) if (OB->hasNoSignedWrap()) J.attribute("nsw", true);
    auto L = loc(I.getDebugLoc());
    if (L != json::Value(nullptr)) J.attribute("l", L);
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      Value *Cal = CB->getCalledOperand()->stripPointerCastsAndAliases();
      if (auto *Fn = dyn_cast<Function>(Cal)) {
        J.attribute("callee", Fn->getName()); J.attribute("dem", dem(Fn->getName()));
        J.attribute("repo", inRepo(*Fn));
        if (Fn->doesNotReturn()) J.attribute("noret", true);
      } else {
        J.attribute("target", opnd(Cal));
        // virtual call?  load(gep(vtable, slot))
        if (auto *LI = dyn_cast<LoadInst>(Cal)) {
          Value *P = LI->getPointerOperand(); int64_t slot = 0; 
          if (auto *G = dyn_cast<GetElementPtrInst>(P)) {
            APInt off(64, 0);
            if (G->accumulateConstantOffset(DL, off)) { slot = off.getSExtValue() / 8; P = G->getPointerOperand(); }
          }
          if (auto *VT = dyn_cast<LoadInst>(P)) {
            J.attribute("vslot", slot); J.attribute("vobj", opnd(VT->getPointerOperand()));
            for (auto *U : VT->users()) if (auto *TT = dyn_cast<IntrinsicInst>(U))
              if (TT->getIntrinsicID() == Intrinsic::type_test || TT->getIntrinsicID() == Intrinsic::public_type_test) {
                auto *MD = cast<MetadataAsValue>(TT->getArgOperand(1))->getMetadata();
                if (auto *S = dyn_cast<MDString>(MD)) J.attribute("vclass", S->getString());
              }
          }
        }
      }
      if (CB->doesNotReturn()) J.attribute("noret", true);
      for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->paramHasAttr(i, Attribute::StructRet)) J.attribute("sret", (int64_t)i);
      J.attributeArray("o", [&] { for (auto &A : CB->args()) J.value(opnd(A)); });
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      J.attribute("base", opnd(G->getPointerOperand()));
      J.attributeArray("path", [&] {
        for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
          Value *Idx = GTI.getOperand();
          if (StructType *ST = GTI.getStructTypeOrNull()) {
            unsigned k = cast<ConstantInt>(Idx)->getZExtValue();
            J.value(json::Array{"f", irTypeQual(ST), (int64_t)k, fieldName(ST, k, DL), (int64_t)DL.getStructLayout(ST)->getElementOffset(k)});
          } else
            J.value(json::Array{"x", opnd(Idx), (int64_t)DL.getTypeAllocSize(GTI.getIndexedType()).getFixedValue(), tyStr(GTI.getIndexedType())});
        }
      });
    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      J.attribute("aty", tyStr(A->getAllocatedType()));
      J.attribute("size", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
      if (auto *AT = dyn_cast<ArrayType>(A->getAllocatedType())) J.attribute("n", (int64_t)AT->getNumElements());
      if (A->isArrayAllocation()) J.attribute("count", opnd(A->getArraySize()));
    } else if (auto *LI = dyn_cast<LoadInst>(&I)) {
      J.attributeArray("o", [&] { J.value(opnd(LI->getPointerOperand())); });
      J.attribute("size", (int64_t)DL.getTypeStoreSize(LI->getType()).getFixedValue());
    } else if (auto *SI = dyn_cast<StoreInst>(&I)) {
      J.attributeArray("o", [&] { J.value(opnd(SI->getValueOperand())); J.value(opnd(SI->getPointerOperand())); });
      J.attribute("size", (int64_t)DL.getTypeStoreSize(SI->getValueOperand()->getType()).getFixedValue());
      J.attribute("st", tyStr(SI->getValueOperand()->getType()));
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.value(json::Array{bbs[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))}); });
    } else if (auto *C = dyn_cast<CmpInst>(&I)) {
      J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      J.attribute("ct", tyStr(C->getOperand(0)->getType()));
      J.attributeArray("o", [&] { J.value(opnd(C->getOperand(0))); J.value(opnd(C->getOperand(1))); });
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      J.attributeArray("o", [&] { J.value(opnd(S->getCondition())); });
      J.attribute("default", bbs[S->getDefaultDest()]);
      J.attributeArray("cases", [&] { for (auto &c : S->cases()) J.value(json::Array{c.getCaseValue()->getSExtValue(), bbs[c.getCaseSuccessor()]}); });
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) J.attributeArray("o", [&] { J.value(opnd(B->getCondition())); });
      J.attributeArray("succ", [&] { for (unsigned k = 0; k < B->getNumSuccessors(); k++) J.value(bbs[B->getSuccessor(k)]); });
    } else if (auto *CI = dyn_cast<CastInst>(&I)) {
      J.attribute("ft", tyStr(CI->getOperand(0)->getType()));
      J.attributeArray("o", [&] { J.value(opnd(CI->getOperand(0))); });
    } else {
      J.attributeArray("o", [&] { for (auto &O : I.operands()) J.value(opnd(O)); });
      if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (auto i : EV->indices()) J.value((int64_t)i); });
      if (auto *EV = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (auto i : EV->indices()) J.value((int64_t)i); });
    }
    J.objectEnd();
  }
};

static void flattenInit(const Constant *C, const DataLayout &DL, uint64_t off, std::vector<std::tuple<uint64_t, uint64_t, json::Value>> &out, std::function<json::Value(const Value *)> op, int &budget) {
  if (budget-- < 0) return;
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C)) { out.push_back({off, DL.getTypeAllocSize(T), json::Array{"z"}}); return; }
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL.getTypeAllocSize(CDS->getElementType());
    for (unsigned i = 0; i < CDS->getNumElements(); i++) flattenInit(CDS->getElementAsConstant(i), DL, off + i * es, out, op, budget);
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL.getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) flattenInit(CA->getOperand(i), DL, off + i * es, out, op, budget);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL.getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) flattenInit(CS->getOperand(i), DL, off + SL->getElementOffset(i), out, op, budget);
    return;
  }
  out.push_back({off, DL.getTypeAllocSize(T), op(C)});
}

int main(int argc, char **argv) {
  std::string in;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--root") Root = argv[++i];
    else if (a == "--inline") DoInline = true;
    else if (a == "--noinline") NoInline.push_back(argv[++i]);
    else if (a == "--inlinestd") InlineStd.push_back(argv[++i]);
    else if (a == "--only") Only = argv[++i];
    else if (a == "--spec") {
      SmallVector<StringRef, 4> p; StringRef(argv[++i]).split(p, '%');
      if (p.size() != 4) { errs() << "bad --spec\n"; return 2; }
      Spec s; s.fn = p[0].str(); p[1].getAsInteger(10, s.arg); p[2].getAsInteger(10, s.val); s.suffix = p[3].str(); Specs.push_back(s);
    } else in = a;
  }
  {
    const char *av[] = {"pvx", "-phi-node-folding-threshold=0", "-two-entry-phi-node-folding-threshold=0"};
    cl::ParseCommandLineOptions(3, av);
  }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(in, Err, Ctx);
  if (!M) { Err.print("pvx", errs()); return 2; }
  collectDI(*M);
  // specialised clones
  std::vector<std::pair<Function *, Spec>> todo;
  for (auto &F : *M) if (!F.isDeclaration()) {
    std::string d = dem(F.getName());
    for (auto &s : Specs) if (d.substr(0, d.find('(')) == s.fn && inRepo(F)) todo.push_back({&F, s});
  }
  for (auto &[F, s] : todo) {
    ValueToValueMapTy VM;
    Function *C = CloneFunction(F, VM);
    C->setName(F->getName() + "." + s.suffix);
    if (s.arg >= C->arg_size()) { errs() << "spec arg out of range\n"; return 2; }
    Argument *A = C->getArg(s.arg);
    A->replaceAllUsesWith(A->getType()->isPointerTy() ? (Constant *)ConstantPointerNull::get(cast<PointerType>(A->getType())) : (Constant *)ConstantInt::get(A->getType(), s.val));
    C->setLinkage(GlobalValue::ExternalLinkage);
    C->setComdat(nullptr);
  }
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone); 
    if (F.isDeclaration()) continue;
    std::string d = dem(F.getName());
    bool repo = inRepo(F);
    F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::NoInline);
    if (DoInline) {
      if ((repo && !matches(NoInline, d)) || (!repo && matches(InlineStd, d))) F.addFnAttr(Attribute::AlwaysInline);
      else F.addFnAttr(Attribute::NoInline);
    } else {
      if (!repo && matches(InlineStd, d)) F.addFnAttr(Attribute::AlwaysInline);
      else F.addFnAttr(Attribute::NoInline);
    }
    if (repo) { origLinkage[F.getName().str()] = F.hasLocalLinkage() ? "internal" : (F.hasLinkOnceLinkage() || F.hasWeakLinkage()) ? "odr" : "external";
      F.setLinkage(F.hasLocalLinkage() ? F.getLinkage() : GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
  }
  // Keep internal functions alive: give every repo function a use by making it external.
  // (names were made unique by the linker already)
  std::set<std::string> wasInternal;
  for (auto &F : *M) if (!F.isDeclaration() && inRepo(F) && F.hasLocalLinkage()) { wasInternal.insert(F.getName().str()); F.setLinkage(GlobalValue::ExternalLinkage); }
  // direct recursion: the always-inliner refuses to inline a function into itself; mutual recursion is bounded by it as well
  runPasses(*M, true);

  json::OStream J(outs());
  const DataLayout &DL = M->getDataLayout();
  J.objectBegin();
  J.attributeArray("functions", [&] {
    for (auto &F : *M) {
      if (F.isDeclaration() || !inRepo(F)) continue;
      if (!Only.empty() && !Regex(Only).match(dem(F.getName()))) continue;
      FnDumper(F, J).dump();
    }
  });
  J.attributeArray("allfuncs", [&] {
    for (auto &F : *M) { if (F.isDeclaration() || !inRepo(F)) continue; J.value(dem(F.getName())); }
  });
  // globals
  J.attributeArray("globals", [&] {
    for (auto &G : M->globals()) {
      J.objectBegin();
      J.attribute("name", G.getName()); J.attribute("dem", dem(G.getName()));
      J.attribute("const", G.isConstant()); J.attribute("ty", tyStr(G.getValueType()));
      if (G.isThreadLocal()) J.attribute("tls", true);
      if (G.hasInitializer()) J.attribute("def", true);
      SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
      if (!GVs.empty()) {
        auto *V = GVs[0]->getVariable();
        J.attribute("file", spFile(V->getFile())); J.attribute("line", (int64_t)V->getLine()); J.attribute("v", V->getName());
        J.attribute("local", isa_and_nonnull<DILocalScope>(V->getScope()));
      }
      if (G.hasInitializer()) {
        const Constant *C = G.getInitializer();
        if (auto *CDS = dyn_cast<ConstantDataSequential>(C); CDS && CDS->isString()) {
          std::string s = CDS->getAsString().str();
          J.attribute("str", toHex(s));
        } else if (DL.getTypeAllocSize(C->getType()) <= 4096 || StringRef(G.getName()).starts_with("_ZTV")) {
          std::vector<std::tuple<uint64_t, uint64_t, json::Value>> out; int budget = 4096;
          std::function<json::Value(const Value *)> op = [&](const Value *V) -> json::Value {
            if (auto *CI = dyn_cast<ConstantInt>(V)) return json::Array{"c", CI->getSExtValue()};
            if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
            if (auto *CF = dyn_cast<ConstantFP>(V)) { bool li; APFloat f = CF->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); std::string s; raw_string_ostream os(s); os << format("%.17g", f.convertToDouble()); return json::Array{"f", s}; }
            if (auto *GV = dyn_cast<GlobalValue>(V->stripPointerCasts())) return json::Array{"g", GV->getName().str(), dem(GV->getName())};
            return json::Array{"x"};
          };
          flattenInit(C, DL, 0, out, op, budget);
          J.attributeArray("init", [&] { for (auto &[o, sz, v] : out) J.value(json::Array{(int64_t)o, (int64_t)sz, v}); });
        }
      }
      J.objectEnd();
    }
  });
  J.attributeObject("structs", [&] {
    for (auto *ST : M->getIdentifiedStructTypes()) {
      if (ST->isOpaque()) continue;
      J.attributeObject(irTypeQual(ST), [&] {
        J.attribute("size", (int64_t)DL.getTypeAllocSize(ST).getFixedValue());
        J.attributeArray("fields", [&] {
          for (unsigned i = 0; i < ST->getNumElements(); i++)
            J.value(json::Array{fieldName(ST, i, DL), (int64_t)DL.getStructLayout(ST)->getElementOffset(i), (int64_t)DL.getTypeAllocSize(ST->getElementType(i)).getFixedValue(), tyStr(ST->getElementType(i))});
        });
      });
    }
  });
  J.objectEnd();
  return 0;
}
