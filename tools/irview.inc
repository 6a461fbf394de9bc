// "link": links all units into one module, turns virtual calls into direct calls of symbolic declarations
// "vcall$<static type>$<slot offset>", and promotes locals to SSA.
// "view": for each view of a spec file, inlines everything except the view's barriers into the view's root
// functions and brings the result into a canonical form (memory-forwarding, value numbering, CFG
// simplification); the roots are written as JSON.  Purely a source-to-source normalisation: nothing is run.
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/Regex.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Support/MemoryBuffer.h"
#include <fstream>
#include <sstream>

static std::string fnQName(const Function &F) {
  if (auto *SP = F.getSubprogram()) return qualFn(SP);
  return "";
}
static std::string anyQName(const Function &F) {
  std::string q = fnQName(F);
  if (!q.empty()) return q;
  std::string d = demangle(F.getName().str());
  // drop the return type and the parameter list
  std::string s = stripTemplates(d);
  auto p = s.find('(');
  if (p == 0) p = s.find('(', 1);
  if (p != std::string::npos) s = s.substr(0, p);
  return s;
}

static void lowerVirtualCalls(Module &M) {
  for (auto &F : M) {
    std::vector<CallBase *> vcalls;
    for (auto &B : F)
      for (auto &I : B)
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (!CB->isInlineAsm() && !CB->getCalledFunction()) vcalls.push_back(CB);
    for (auto *CB : vcalls) {
      auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
      if (!L) continue;
      APInt Off(64, 0);
      const Value *Base = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), Off, true);
      auto *VT = dyn_cast<LoadInst>(const_cast<Value *>(Base));
      if (!VT) continue;
      std::string tid;
      for (auto *U : VT->users())
        if (auto *C = dyn_cast<CallInst>(U))
          if (auto *CF = C->getCalledFunction())
            if (CF->getIntrinsicID() == Intrinsic::type_test || CF->getIntrinsicID() == Intrinsic::public_type_test)
              if (auto *MV = dyn_cast<MetadataAsValue>(C->getArgOperand(1)))
                if (auto *S = dyn_cast<MDString>(MV->getMetadata())) tid = S->getString().str();
      if (tid.empty()) continue;
      std::string nm = "vcall$" + tid + "$" + std::to_string(Off.getSExtValue());
      auto Callee = M.getOrInsertFunction(nm, CB->getFunctionType());
      CB->setCalledFunction(CB->getFunctionType(), Callee.getCallee());
    }
  }
  // drop the type-test assumptions
  std::vector<Instruction *> dead;
  for (auto &F : M)
    for (auto &B : F)
      for (auto &I : B)
        if (auto *C = dyn_cast<CallInst>(&I))
          if (auto *CF = C->getCalledFunction())
            if (CF->getIntrinsicID() == Intrinsic::type_test || CF->getIntrinsicID() == Intrinsic::public_type_test) {
              for (auto *U : C->users())
                if (auto *A = dyn_cast<CallInst>(U)) dead.push_back(A);
              dead.push_back(C);
            }
  for (auto *I : dead) {
    I->replaceAllUsesWith(PoisonValue::get(I->getType()));
    I->eraseFromParent();
  }
}

static void stripDbg(Module &M) {
  std::vector<Instruction *> dead;
  for (auto &F : M)
    for (auto &B : F)
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) dead.push_back(&I);
        if (auto *C = dyn_cast<CallInst>(&I))
          if (auto *CF = C->getCalledFunction())
            if (CF->getIntrinsicID() == Intrinsic::lifetime_start || CF->getIntrinsicID() == Intrinsic::lifetime_end ||
                CF->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)
              dead.push_back(&I);
      }
  for (auto *I : dead) I->eraseFromParent();
}

static int linkMain(int argc, char **argv) {
  LLVMContext Ctx;
  auto M = std::make_unique<Module>("linked", Ctx);
  Linker L(*M);
  for (int i = 1; i < argc; ++i) {
    SMDiagnostic Err;
    auto U = parseIRFile(argv[i], Err, Ctx);
    if (!U) {
      Err.print("irdump", errs());
      return 2;
    }
    if (i == 1) {
      M->setDataLayout(U->getDataLayout());
      M->setTargetTriple(U->getTargetTriple());
    }
    std::string suffix = "$" + std::to_string(i);
    for (auto &F : *U)
      if (F.hasLocalLinkage()) F.setName(F.getName() + suffix);
    for (auto &G : U->globals())
      if (G.hasLocalLinkage() && !G.getName().starts_with(".str")) G.setName(G.getName() + suffix);
    if (L.linkInModule(std::move(U))) return 2;
  }
  for (auto &A : M->aliases())
    if (auto *T = dyn_cast<GlobalObject>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(T);
  stripDbg(*M);
  lowerVirtualCalls(*M);
  prep(*M);
  std::error_code EC;
  raw_fd_ostream Out(argv[0], EC);
  WriteBitcodeToFile(*M, Out);
  return 0;
}

struct View {
  std::string name;
  std::vector<std::string> roots, barriers, inlines;
  std::vector<std::pair<std::string, std::string>> replaces;
};

static bool anyMatch(const std::vector<std::string> &rs, const std::string &s) {
  for (auto &r : rs) {
    Regex R("^(" + r + ")$");
    if (R.match(s)) return true;
  }
  return false;
}

static int viewMain(int argc, char **argv) {
  std::vector<View> views;
  std::ifstream in(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k, a, b;
    is >> k;
    if (k.empty() || k[0] == '#') continue;
    is >> a >> b;
    if (k == "view") views.push_back({a, {}, {}, {}, {}});
    else if (k == "root") views.back().roots.push_back(a);
    else if (k == "barrier") views.back().barriers.push_back(a);
    else if (k == "inline") views.back().inlines.push_back(a);
    else if (k == "replace") views.back().replaces.push_back({a, b});
    else return 2;
  }
  auto Buf = MemoryBuffer::getFile(argv[1]);
  if (!Buf) return 2;
  std::error_code EC;
  raw_fd_ostream Out(argv[0], EC);
  OStream J(Out);
  J.objectBegin();
  J.attributeBegin("units");
  J.arrayBegin();
  for (auto &V : views) {
    doneF.clear();
    doneG.clear();
    doneR.clear();
    LLVMContext Ctx;
    auto MorE = parseBitcodeFile((*Buf)->getMemBufferRef(), Ctx);
    if (!MorE) return 2;
    auto &M = **MorE;
    M.setSourceFileName(V.name);
    // vtables etc. keep everything alive; only what the roots reach matters
    std::set<const Function *> roots, needed;
    std::vector<Function *> work;
    std::map<const Function *, std::string> qn;
    for (auto &F : M) qn[&F] = anyQName(F);
    for (auto &R : V.replaces) {
      Function *to = nullptr;
      for (auto &F : M)
        if (!F.isDeclaration() && Regex("^(" + R.second + ")$").match(qn[&F])) to = &F;
      if (!to) {
        errs() << "replace target missing: " << R.second << "\n";
        return 2;
      }
      for (auto &F : M)
        if (&F != to && ((F.isDeclaration() && F.getName() == R.first) || qn[&F] == R.first) && F.getFunctionType() == to->getFunctionType())
          F.replaceAllUsesWith(to);
    }
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr(Attribute::AlwaysInline);
      if (anyMatch(V.roots, qn[&F])) {
        roots.insert(&F);
        work.push_back(&F);
        needed.insert(&F);
      }
    }
    // closure of what the roots can inline
    while (!work.empty()) {
      auto *F = work.back();
      work.pop_back();
      if (!roots.count(F)) {
        if (F->isDeclaration()) continue;
        const auto &q = qn[F];
        bool inl = anyMatch(V.inlines, q) && !anyMatch(V.barriers, q);
        if (!inl) continue;
        F->addFnAttr(Attribute::AlwaysInline);
      }
      for (auto &B : *F)
        for (auto &I : B)
          for (auto &O : I.operands())
            if (auto *G = dyn_cast<Function>(O->stripPointerCasts()))
              if (needed.insert(G).second) work.push_back(G);
    }
    // roots that are called by other roots are inlined there too unless they are barriers
    for (auto *R : roots) {
      auto *F = const_cast<Function *>(R);
      if (anyMatch(V.inlines, qn[F]) && !anyMatch(V.barriers, qn[F])) F->addFnAttr(Attribute::AlwaysInline);
      F->setLinkage(GlobalValue::ExternalLinkage);
      F->setComdat(nullptr);
    }
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      if (!needed.count(&F)) {
        F.deleteBody();
        F.setComdat(nullptr);
        continue;
      }
      if (!F.hasFnAttribute(Attribute::AlwaysInline) && !roots.count(&F)) {
        F.deleteBody();
        F.setComdat(nullptr);
      } else if (F.hasAvailableExternallyLinkage())
        F.setLinkage(GlobalValue::LinkOnceODRLinkage);
    }
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    SimplifyCFGOptions SO;
    SO.speculateBlocks(false).setSimplifyCondBranch(false).sinkCommonInsts(false).hoistCommonInsts(false).convertSwitchToLookupTable(false).convertSwitchRangeToICmp(false);
    auto fp = [&](bool gvn) {
      FunctionPassManager FPM;
      FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
      FPM.addPass(EarlyCSEPass(true));
      FPM.addPass(InstSimplifyPass());
      FPM.addPass(SCCPPass());
      FPM.addPass(SimplifyCFGPass(SO));
      if (gvn) {
        GVNOptions GO;
        GO.setPRE(false).setLoadPRE(false).setLoadPRESplitBackedge(false).setMemDep(true);
        FPM.addPass(GVNPass(GO));
        FPM.addPass(InstSimplifyPass());
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(SCCPPass());
        FPM.addPass(SimplifyCFGPass(SO));
        FPM.addPass(ADCEPass());
      }
      return FPM;
    };
    for (int round = 0; round < 4; ++round) {
      ModulePassManager MPM;
      MPM.addPass(AlwaysInlinerPass(false));
      MPM.addPass(createModuleToFunctionPassAdaptor(fp(round >= 1)));
      MPM.run(M, MAM);
      MAM.clear();
    }
    for (auto &F : M)
      if (!F.isDeclaration()) removeUnreachableBlocks(F);
    // declarations referenced stay visible to the consumer
    std::set<const Function *> emit;
    for (auto &F : M)
      if (roots.count(&F) || F.isDeclaration()) emit.insert(&F);
    writeUnit(J, &M, &emit);
  }
  J.arrayEnd();
  J.attributeEnd();
  writeFiles(J);
  J.objectEnd();
  Out << "\n";
  return 0;
}
