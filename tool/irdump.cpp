#include <cstring>
#include <algorithm>
// irdump: reads an LLVM bitcode module, promotes memory to registers, and prints the
// resolved program as JSON facts (functions, blocks, instructions, globals, struct layouts).
// It executes nothing: it only serialises the intermediate representation.
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LoopRotationUtils.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;

static void str(StringRef s) {
  O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') O << '\\' << c;
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); O << b; }
    else O << c;
  }
  O << '"';
}
static std::string ty(Type *T) {
  if (T->isVoidTy()) return "v";
  if (T->isPointerTy()) return "p";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isDoubleTy()) return "d";
  if (T->isFloatTy()) return "f";
  if (T->isX86_FP80Ty()) return "ld";
  std::string s; raw_string_ostream os(s); T->print(os); return os.str();
}
static std::map<const Value *, int> ID;

static void intc(const APInt &A) {
  if (A.getBitWidth() <= 64) O << A.getSExtValue();
  else { SmallString<40> s; A.toStringSigned(s); O << s; }
}

static void opnd(const Value *V);
static void constant(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) { O << "[\"c\","; intc(I->getValue()); O << "]"; return; }
  if (isa<ConstantPointerNull>(C)) { O << "[\"c\",0]"; return; }
  if (isa<UndefValue>(C)) { O << "[\"u\"]"; return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    SmallString<40> s; F->getValueAPF().toString(s); O << "[\"f\","; str(s); O << "]"; return;
  }
  if (isa<GlobalValue>(C)) { O << "[\"g\","; str(C->getName()); O << ",0]"; return; }
  if (C->isNullValue()) { O << "[\"c\",0]"; return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (G->accumulateConstantOffset(*DL, off)) {
        const Value *B = G->getPointerOperand();
        // nested
        if (auto *BG = dyn_cast<GlobalValue>(B)) { O << "[\"g\","; str(BG->getName()); O << "," << off.getSExtValue() << "]"; return; }
        O << "[\"ce\",\"gep\",["; opnd(B); O << ",[\"c\"," << off.getSExtValue() << "]]]"; return;
      }
    }
    O << "[\"ce\","; str(CE->getOpcodeName()); O << ",[";
    for (unsigned i = 0; i < CE->getNumOperands(); i++) { if (i) O << ","; opnd(CE->getOperand(i)); }
    O << "]]"; return;
  }
  O << "[\"?\"]";
}
static void opnd(const Value *V) {
  auto it = ID.find(V);
  if (it != ID.end()) { O << it->second; return; }
  if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
  if (isa<MetadataAsValue>(V)) { O << "[\"md\"]"; return; }
  O << "[\"?\"]";
}

// ---- global initialisers: [[offset,size,value-operand],...], strings as text
static void init(const Constant *C, uint64_t off, bool &first) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
    if (S->isString() ) {
      if (!first) O << ","; first = false;
      O << "[" << off << ",\"s\","; str(S->getAsString()); O << "]"; return;
    }
    unsigned es = S->getElementByteSize();
    for (unsigned i = 0; i < S->getNumElements(); i++) {
      if (!first) O << ","; first = false;
      O << "[" << off + i * es << "," << es << ","; opnd(S->getElementAsConstant(i)); O << "]";
    }
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) init(A->getOperand(i), off + i * es, first);
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) init(S->getOperand(i), off + SL->getElementOffset(i).getFixedValue(), first);
    return;
  }
  if (!first) O << ","; first = false;
  O << "[" << off << "," << DL->getTypeStoreSize(C->getType()).getFixedValue() << ","; opnd(C); O << "]";
}

// ---- debug types
static std::set<const DICompositeType *> structs;
static std::string ditype(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: return D->getName().str();
    case dwarf::DW_TAG_pointer_type: return ditype(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: return ditype(D->getBaseType(), depth + 1);
    default: return ditype(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    structs.insert(C);
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = ditype(C->getBaseType(), depth + 1);
      for (auto *e : C->getElements())
        if (auto *r = dyn_cast<DISubrange>(e)) {
          auto c = r->getCount();
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(c)) s += "[" + std::to_string(ci->getSExtValue()) + "]"; else s += "[]";
        }
      return s;
    }
    return (C->getTag() == dwarf::DW_TAG_union_type ? "union " : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ") + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static void dbg(const Instruction &I) {
  const DILocation *L = I.getDebugLoc().get();
  if (!L) { O << "0"; return; }
  O << L->getLine();
}

// A scalar variable whose address is only handed to calls becomes an SSA value: the call gets a copy, which is read back after it.
static void splitLocals(Function &F) {
  std::vector<AllocaInst *> As;
  for (auto &B : F) for (auto &I : B)
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      Type *T = A->getAllocatedType();
      if (A->isArrayAllocation() || !(T->isIntegerTy() || T->isPointerTy() || T->isDoubleTy())) continue;
      bool ok = true, calls = false;
      for (auto *U : A->users()) {
        if (auto *L = dyn_cast<LoadInst>(U)) ok &= !L->isVolatile() && L->getType() == T;
        else if (auto *S = dyn_cast<StoreInst>(U)) ok &= S->getPointerOperand() == A && S->getValueOperand() != A && !S->isVolatile() && S->getValueOperand()->getType() == T;
        else if (auto *C = dyn_cast<CallInst>(U)) {
          Function *G = C->getCalledFunction();
          bool life = G && G->isIntrinsic() && G->getName().starts_with("llvm.lifetime");
          if (life || (G && G->isIntrinsic() && G->getName().starts_with("llvm.dbg"))) continue;
          calls = true; ok &= !(G && G->isIntrinsic()) && !(G && G->hasFnAttribute(Attribute::ReturnsTwice));
        }
        else ok = false;
      }
      if (ok && calls) As.push_back(A);
    }
  for (auto *A : As) {
    std::vector<CallInst *> Cs;
    std::vector<Instruction *> Dead;
    for (auto *U : A->users()) if (auto *C = dyn_cast<CallInst>(U)) {
      Function *G = C->getCalledFunction();
      if (G && G->isIntrinsic()) { if (G->getName().starts_with("llvm.lifetime")) Dead.push_back(C); continue; }
      if (std::find(Cs.begin(), Cs.end(), C) == Cs.end()) Cs.push_back(C);
    }
    for (auto *D : Dead) D->eraseFromParent();
    Type *T = A->getAllocatedType();
    for (auto *C : Cs) {
      auto *N = new AllocaInst(T, 0, A->getName() + ".copy", &*F.getEntryBlock().begin());
      auto *V = new LoadInst(T, A, "", C); V->setDebugLoc(C->getDebugLoc());
      auto *S = new StoreInst(V, N, C); S->setDebugLoc(C->getDebugLoc());
      for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == A) C->setArgOperand(i, N);
      Instruction *Nx = C->getNextNode();
      auto *V2 = new LoadInst(T, N, "", Nx); V2->setDebugLoc(C->getDebugLoc());
      auto *S2 = new StoreInst(V2, A, Nx); S2->setDebugLoc(C->getDebugLoc());
    }
  }
}

// loops with the test at the bottom, whatever way they are written (the latch is left alone)
struct Rotate : PassInfoMixin<Rotate> {
  PreservedAnalyses run(Loop &L, LoopAnalysisManager &, LoopStandardAnalysisResults &AR, LPMUpdater &) {
    const DataLayout &D = L.getHeader()->getModule()->getDataLayout();
    const SimplifyQuery SQ(D, &AR.TLI, &AR.DT, &AR.AC);
    bool C = LoopRotation(&L, &AR.LI, &AR.TTI, &AR.AC, &AR.DT, &AR.SE, nullptr, SQ, true, 40, false);
    return C ? getLoopPassPreservedAnalyses() : PreservedAnalyses::all();
  }
  static bool isRequired() { return true; }
};

// straight-line blocks in one piece
struct Merge : PassInfoMixin<Merge> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &) {
    for (auto It = F.begin(); It != F.end();) { BasicBlock *B = &*It++; MergeBlockIntoPredecessor(B); }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();

  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  PB.registerPipelineParsingCallback([](StringRef N, LoopPassManager &LPM, ArrayRef<PassBuilder::PipelineElement>) {
    if (N != "rotate") return false;
    LPM.addPass(Rotate()); return true;
  });
  PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &P, ArrayRef<PassBuilder::PipelineElement>) {
    if (N != "merge") return false;
    P.addPass(Merge()); return true;
  });
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(EarlyCSEPass(false));
  FPM.addPass(InstSimplifyPass());
  bool split = argc > 2 && !strcmp(argv[2], "split");
  if (argc > 2 && !split)     // more passes, in the notation of opt -passes=
    if (auto E = PB.parsePassPipeline(FPM, argv[2])) { errs() << toString(std::move(E)) << "\n"; return 2; }
  for (auto &F : *M) if (!F.isDeclaration()) { 
    F.removeFnAttr(Attribute::OptimizeNone);
    if (split) splitLocals(F);
    FPM.run(F, FAM);
  }

  O << "{\"source\":"; str(M->getSourceFileName());
  O << ",\"globals\":{";
  bool first = true;
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    if (!first) O << ",\n"; first = false;
    str(G.getName()); O << ":{\"size\":" << (G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    O << ",\"internal\":" << (G.hasLocalLinkage() ? 1 : 0) << ",\"const\":" << (G.isConstant() ? 1 : 0);
    O << ",\"ty\":"; str(ty(G.getValueType()).substr(0, 200));
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) { O << ",\"cty\":"; str(ditype(GVs[0]->getVariable()->getType())); O << ",\"line\":" << GVs[0]->getVariable()->getLine(); 
       if (auto *sc = dyn_cast_if_present<DISubprogram>(GVs[0]->getVariable()->getScope())) { O << ",\"fn\":"; str(sc->getName()); } }
    if (G.hasInitializer()) { O << ",\"init\":["; bool f = true; init(G.getInitializer(), 0, f); O << "]"; }
    else O << ",\"ext\":1";
    O << "}";
  }
  O << "},\n\"decls\":{";
  first = true;
  for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) {
    if (!first) O << ",\n"; first = false;
    str(F.getName()); O << ":{\"ret\":"; str(ty(F.getReturnType())); O << ",\"noreturn\":" << (F.doesNotReturn() ? 1 : 0) << ",\"nargs\":" << F.arg_size() << ",\"varargs\":" << (F.isVarArg() ? 1 : 0) << "}";
  }
  O << "},\n\"functions\":{";
  first = true;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (!first) O << ",\n"; first = false;
    ID.clear(); int n = 0;
    for (auto &A : F.args()) ID[&A] = n++;
    for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) ID[&I] = n++;
    std::map<const BasicBlock *, int> BID; int b = 0;
    for (auto &B : F) BID[&B] = b++;
    str(F.getName());
    O << ":{\"internal\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"ret\":"; str(ty(F.getReturnType()));
    O << ",\"noreturn\":" << (F.doesNotReturn() ? 1 : 0) << ",\"varargs\":" << (F.isVarArg() ? 1 : 0);
    O << ",\"addrtaken\":" << (F.hasAddressTaken() ? 1 : 0);
    if (auto *SP = F.getSubprogram()) {
      O << ",\"line\":" << SP->getLine() << ",\"file\":"; str(SP->getFilename());
      if (auto *T = SP->getType()) {
        O << ",\"cty\":["; bool f = true;
        for (auto *t : T->getTypeArray()) { if (!f) O << ","; f = false; str(ditype(t)); }
        O << "]";
      }
      O << ",\"argnames\":[";
      bool f = true;
      std::map<int, std::string> an;
      for (auto *nd : SP->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(nd)) if (lv->getArg()) an[lv->getArg()] = lv->getName().str();
      for (unsigned i = 1; i <= F.arg_size(); i++) { if (!f) O << ","; f = false; str(an.count(i) ? an[i] : ""); }
      O << "]";
    }
    O << ",\"args\":[";
    for (unsigned i = 0; i < F.arg_size(); i++) { if (i) O << ","; str(ty(F.getArg(i)->getType())); }
    O << "],\n\"nvals\":" << n << ",\"blocks\":[";
    // variable names
    std::map<int, std::string> names;
    bool fb = true;
    for (auto &B : F) {
      if (!fb) O << ",\n"; fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : B) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          for (auto *v : D->location_ops()) { auto it = ID.find(v); if (it != ID.end() && !names.count(it->second)) names[it->second] = D->getVariable()->getName().str(); }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I) || I.isLifetimeStartOrEnd()) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::assume || id == Intrinsic::donothing) continue; }
        if (!fi) O << ",\n "; fi = false;
        // [op, id, type, line, ...]
        O << "["; str(I.getOpcodeName()); O << "," << (I.getType()->isVoidTy() ? -1 : ID[&I]) << ","; str(ty(I.getType())); O << ","; dbg(I);
        switch (I.getOpcode()) {
        case Instruction::Alloca: {
          auto &A = cast<AllocaInst>(I);
          O << ","; O << DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue(); O << ","; opnd(A.getArraySize());
          break; }
        case Instruction::Load: O << ","; opnd(I.getOperand(0)); O << "," << DL->getTypeStoreSize(I.getType()).getFixedValue(); break;
        case Instruction::Store: O << ","; opnd(I.getOperand(0)); O << ","; opnd(I.getOperand(1)); O << "," << DL->getTypeStoreSize(I.getOperand(0)->getType()).getFixedValue(); O << ","; str(ty(I.getOperand(0)->getType())); break;
        case Instruction::GetElementPtr: {
          auto &G = cast<GetElementPtrInst>(I);
          MapVector<Value *, APInt> VO; APInt CO(64, 0);
          O << ","; opnd(G.getPointerOperand());
          if (cast<GEPOperator>(&G)->collectOffset(*DL, 64, VO, CO)) {
            O << "," << CO.getSExtValue() << ",[";
            bool f = true;
            for (auto &p : VO) { if (!f) O << ","; f = false; O << "["; opnd(p.first); O << "," << p.second.getSExtValue() << "]"; }
            O << "]";
          } else O << ",0,[[[\"?\"],1]]";
          break; }
        case Instruction::PHI: {
          auto &P = cast<PHINode>(I); O << ",[";
          for (unsigned i = 0; i < P.getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << BID[P.getIncomingBlock(i)] << ","; opnd(P.getIncomingValue(i)); O << "]"; }
          O << "]"; break; }
        case Instruction::Br: {
          auto &Br = cast<BranchInst>(I);
          if (Br.isConditional()) { O << ","; opnd(Br.getCondition()); O << "," << BID[Br.getSuccessor(0)] << "," << BID[Br.getSuccessor(1)]; }
          else O << "," << BID[Br.getSuccessor(0)];
          break; }
        case Instruction::Switch: {
          auto &S = cast<SwitchInst>(I);
          O << ","; opnd(S.getCondition()); O << "," << BID[S.getDefaultDest()] << ",[";
          bool f = true;
          for (auto &c : S.cases()) { if (!f) O << ","; f = false; O << "["; intc(c.getCaseValue()->getValue()); O << "," << BID[c.getCaseSuccessor()] << "]"; }
          O << "]"; break; }
        case Instruction::ICmp: case Instruction::FCmp:
          O << ","; str(CmpInst::getPredicateName(cast<CmpInst>(I).getPredicate())); O << ","; opnd(I.getOperand(0)); O << ","; opnd(I.getOperand(1)); O << ","; str(ty(I.getOperand(0)->getType())); break;
        case Instruction::Call: {
          auto &C = cast<CallBase>(I);
          O << ",";
          if (auto *IA = dyn_cast<InlineAsm>(C.getCalledOperand())) { O << "[\"asm\","; str(IA->getAsmString()); O << "]"; }
          else opnd(C.getCalledOperand()->stripPointerCasts());
          O << ",[";
          for (unsigned i = 0; i < C.arg_size(); i++) { if (i) O << ","; opnd(C.getArgOperand(i)); }
          O << "]," << (C.doesNotReturn() ? 1 : 0);
          O << ",[";
          for (unsigned i = 0; i < C.arg_size(); i++) { if (i) O << ","; str(ty(C.getArgOperand(i)->getType())); }
          O << "]";
          break; }
        case Instruction::ExtractValue: O << ","; opnd(I.getOperand(0)); O << ",["; { bool f = true; for (unsigned x : cast<ExtractValueInst>(I).indices()) { if (!f) O << ","; f = false; O << x; } } O << "]"; break;
        case Instruction::InsertValue: O << ","; opnd(I.getOperand(0)); O << ","; opnd(I.getOperand(1)); O << ",["; { bool f = true; for (unsigned x : cast<InsertValueInst>(I).indices()) { if (!f) O << ","; f = false; O << x; } } O << "]"; break;
        default:
          O << ",[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; opnd(I.getOperand(i)); }
          O << "]";
          if (isa<CastInst>(I)) { O << ","; str(ty(I.getOperand(0)->getType())); }
          else if (isa<OverflowingBinaryOperator>(I)) O << "," << (I.hasNoSignedWrap() ? 1 : 0);
        }
        O << "]";
      }
      O << "]";
    }
    O << "],\"names\":{";
    bool f = true;
    for (auto &p : names) { if (!f) O << ","; f = false; O << "\"" << p.first << "\":"; str(p.second); }
    O << "}}";
  }
  O << "},\n\"structs\":{";
  // struct layouts
  DebugInfoFinder Fd; Fd.processModule(*M);
  for (auto *T : Fd.types()) if (auto *C = dyn_cast<DICompositeType>(T)) structs.insert(C);
  std::map<std::string, const DICompositeType *> byname;
  for (auto *T : Fd.types()) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef) if (auto *C = dyn_cast_if_present<DICompositeType>(D->getBaseType())) byname[D->getName().str()] = C;
    if (auto *C = dyn_cast<DICompositeType>(T)) if (!C->getName().empty()) byname["struct " + C->getName().str()] = C;
  }
  first = true;
  for (auto &p : byname) {
    auto *C = p.second;
    if (C->isForwardDecl()) continue;
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
    if (!first) O << ",\n"; first = false;
    str(p.first); O << ":["; bool f = true;
    for (auto *e : C->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) {
      if (m->getTag() != dwarf::DW_TAG_member) continue;
      if (!f) O << ","; f = false;
      O << "["; str(m->getName()); O << "," << m->getOffsetInBits() << "," << m->getSizeInBits() << ","; str(ditype(m->getBaseType())); O << "]";
    }
    O << "]";
  }
  O << "}}\n";
  return 0;
}
