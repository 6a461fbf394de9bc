#include <cstring>
// irdump: reads LLVM bitcode files (one per translation unit of /repo), links them, promotes locals to
// SSA, and writes the whole program as JSON: control-flow graphs with exceptional edges, operands,
// struct-field paths of address computations, debug locations, vtables and debug-info record layouts.
// It performs no execution of the analysed program.
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;
using json::OStream;

static const DataLayout *DL;
static std::map<const Value *, unsigned> Ids;

static std::string tyName(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  if (auto *ST = dyn_cast<StructType>(T)) {
    if (ST->hasName()) return ST->getName().str();
  }
  T->print(os);
  return s;
}

static void writeOperand(OStream &J, const Value *V);

// {"base":..., "off":N, "var":[[operand,scale]...], "path":[[struct,idx,byteoff]...], "ety":...}
static void writeGEP(OStream &J, const GEPOperator *G) {
  J.attributeBegin("base");
  writeOperand(J, G->getPointerOperand());
  J.attributeEnd();
  int64_t off = 0;
  std::vector<std::pair<const Value *, int64_t>> vars;
  std::vector<std::tuple<std::string, unsigned, uint64_t>> path;
  for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
    const Value *Idx = GTI.getOperand();
    if (StructType *ST = GTI.getStructTypeOrNull()) {
      unsigned i = cast<ConstantInt>(Idx)->getZExtValue();
      uint64_t fo = DL->getStructLayout(ST)->getElementOffset(i);
      off += fo;
      path.emplace_back(tyName(ST), i, fo);
    } else {
      int64_t sz = DL->getTypeAllocSize(GTI.getIndexedType());
      if (auto *C = dyn_cast<ConstantInt>(Idx))
        off += C->getSExtValue() * sz;
      else
        vars.emplace_back(Idx, sz);
    }
  }
  J.attribute("off", off);
  J.attribute("ety", tyName(G->getSourceElementType()));
  J.attribute("rty", tyName(G->getResultElementType()));
  if (!vars.empty()) {
    J.attributeArray("var", [&] {
      for (auto &v : vars)
        J.array([&] {
          writeOperand(J, v.first);
          J.value(v.second);
        });
    });
  }
  if (!path.empty()) {
    J.attributeArray("path", [&] {
      for (auto &p : path)
        J.array([&] {
          J.value(std::get<0>(p));
          J.value(std::get<1>(p));
          J.value((int64_t)std::get<2>(p));
        });
    });
  }
}

static void writeOperand(OStream &J, const Value *V) {
  if (auto It = Ids.find(V); It != Ids.end()) {
    J.value(("%" + Twine(It->second)).str());
    return;
  }
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    if (C->getBitWidth() <= 64) {
      J.value(C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue());
      return;
    }
  }
  if (isa<ConstantPointerNull>(V)) {
    J.value("null");
    return;
  }
  if (isa<UndefValue>(V)) {
    J.value("undef");
    return;
  }
  if (auto *G = dyn_cast<GlobalValue>(V)) {
    J.value("@" + G->getName().str());
    return;
  }
  if (auto *G = dyn_cast<GEPOperator>(V)) {
    J.object([&] {
      J.attribute("op", "gep");
      writeGEP(J, G);
    });
    return;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    J.object([&] {
      J.attribute("op", CE->getOpcodeName());
      J.attributeArray("ops", [&] {
        for (auto &O : CE->operands()) writeOperand(J, O);
      });
    });
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    J.object([&] { J.attribute("fp", CF->getValueAPF().convertToDouble()); });
    return;
  }
  if (auto *M = dyn_cast<MetadataAsValue>(V)) {
    if (auto *S = dyn_cast<MDString>(M->getMetadata())) {
      J.object([&] { J.attribute("md", S->getString()); });
      return;
    }
    J.value("metadata");
    return;
  }
  if (auto *CA = dyn_cast<ConstantAggregateZero>(V)) {
    (void)CA;
    J.value("zero");
    return;
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    J.object([&] {
      J.attributeArray("agg", [&] {
        for (auto &O : CA->operands()) writeOperand(J, O);
      });
    });
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
    J.object([&] {
      if (CD->isString()) {
        std::string hex = toHex(CD->getAsString());
        J.attribute("strhex", hex);
      } else {
        J.attributeArray("data", [&] {
          for (unsigned i = 0; i < CD->getNumElements(); ++i)
            if (CD->getElementType()->isIntegerTy())
              J.value((int64_t)CD->getElementAsInteger(i));
            else
              J.value("fp");
        });
      }
    });
    return;
  }
  J.value("?");
}

static std::string qualOf(const DIScope *S) {
  std::string q;
  while (S) {
    std::string n;
    if (auto *N = dyn_cast<DINamespace>(S)) n = N->getName().empty() ? "(anon)" : N->getName().str();
    else if (auto *C = dyn_cast<DICompositeType>(S)) {
      n = C->getName().str();
      if (n.empty()) n = "(lambda:" + std::to_string(C->getLine()) + ")";
    }
    else if (auto *P = dyn_cast<DISubprogram>(S)) n = P->getName().str() + "()";
    else if (isa<DIFile>(S) || isa<DICompileUnit>(S)) break;
    if (!n.empty()) q = q.empty() ? n : n + "::" + q;
    S = S->getScope();
  }
  return q;
}

static std::string stripTemplates(const std::string &s) {
  std::string r;
  int d = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s.compare(i, 8, "operator") == 0 && d == 0) {
      size_t j = i + 8;
      r += "operator";
      for (const char *op : {"<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "==", "!=", "->", "--", "-=", "<", ">", "=", "-", "!"}) {
        size_t n = strlen(op);
        if (s.compare(j, n, op) == 0) { r += op; j += n; break; }
      }
      i = j - 1;
      continue;
    }
    if (s[i] == '<') ++d;
    else if (s[i] == '>') --d;
    else if (d == 0) r += s[i];
  }
  return r;
}

static std::string accessOf(const DICompositeType *C, DINode::DIFlags F) {
  auto A = F & DINode::FlagAccessibility;
  if (A == DINode::FlagPrivate) return "private";
  if (A == DINode::FlagProtected) return "protected";
  if (A == DINode::FlagPublic) return "public";
  return C->getTag() == dwarf::DW_TAG_class_type ? "private" : "public";
}
static std::string qualFn(const DISubprogram *SP) {
  std::string q = SP->getScope() ? qualOf(SP->getScope()) : "";
  q = q.empty() ? SP->getName().str() : q + "::" + SP->getName().str();
  return stripTemplates(q);
}

static std::string typeStr(const DIType *t) {
  std::string tn;
  while (t) {
    if (auto *DD = dyn_cast<DIDerivedType>(t)) {
      switch (DD->getTag()) {
        case dwarf::DW_TAG_pointer_type: tn += "*"; break;
        case dwarf::DW_TAG_reference_type: tn += "&"; break;
        case dwarf::DW_TAG_rvalue_reference_type: tn += "&&"; break;
        case dwarf::DW_TAG_const_type: tn += "const "; break;
        case dwarf::DW_TAG_atomic_type: tn += "_Atomic "; break;
        case dwarf::DW_TAG_volatile_type: tn += "volatile "; break;
        default: break;
      }
      t = DD->getBaseType();
    } else if (auto *CC = dyn_cast<DICompositeType>(t)) {
      if (CC->getTag() == dwarf::DW_TAG_array_type) {
        tn += "[]";
        t = CC->getBaseType();
        continue;
      }
      tn += qualOf(CC);
      break;
    } else if (isa<DISubroutineType>(t)) {
      tn += "fn";
      break;
    } else {
      tn += t->getName();
      break;
    }
  }
  return tn;
}

static std::string fileOf(const DIScope *S) {
  if (!S) return "";
  std::string d = S->getDirectory().str(), f = S->getFilename().str();
  if (!f.empty() && f[0] == '/') return f;
  return d + "/" + f;
}

static std::map<std::string, unsigned> files;
static unsigned fileId(const std::string &f) { return files.emplace(f, files.size()).first->second; }
static std::set<std::string> doneF, doneG, doneR;

static void prep(Module &M) {
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(SCCPPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(M, MAM);
  for (auto &F : M)
    if (!F.isDeclaration()) removeUnreachableBlocks(F);
}

static std::unique_ptr<Module> load(LLVMContext &Ctx, const char *path, int idx) {
  SMDiagnostic Err;
  auto M = parseIRFile(path, Err, Ctx);
  if (!M) {
    Err.print("irdump", errs());
    return nullptr;
  }
  std::string suffix = "$" + std::to_string(idx);
  for (auto &F : *M)
    if (F.hasLocalLinkage()) F.setName(F.getName() + suffix);
  for (auto &G : M->globals())
    if (G.hasLocalLinkage()) G.setName(G.getName() + suffix);
  prep(*M);
  return M;
}

static void writeUnit(OStream &J, Module *M, const std::set<const Function *> *only) {
  DL = &M->getDataLayout();
  J.objectBegin();
  J.attribute("unit", M->getSourceFileName());
  J.attributeBegin("functions");
  J.arrayBegin();
  for (Function &F : *M) {
    if (F.isIntrinsic()) continue;
    if (only && !only->count(&F)) continue;
    if (F.isDeclaration() ? doneF.count("d:" + F.getName().str()) || doneF.count(F.getName().str())
                          : doneF.count(F.getName().str()))
      continue;
    doneF.insert(F.isDeclaration() ? "d:" + F.getName().str() : F.getName().str());
    Ids.clear();
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("demangled", demangle(F.getName().str()));
    J.attribute("nounwind", F.doesNotThrow());
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("linkage", (int)F.getLinkage());
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", fileOf(SP->getFile()));
      J.attribute("line", SP->getLine());
      J.attribute("dname", SP->getName());
      J.attribute("virt", SP->getVirtuality() != 0);
      if (auto *ST = SP->getType())
        J.attributeArray("pt", [&] { for (auto *T : ST->getTypeArray()) J.value(typeStr(T)); });
      if (auto *Sc = SP->getScope()) {
        J.attribute("scope", qualOf(Sc));
      }
    }
    unsigned n = 0;
    for (auto &A : F.args()) Ids[&A] = n++;
    J.attributeArray("args", [&] {
      for (auto &A : F.args()) {
        J.array([&] {
          J.value(A.getName());
          J.value(tyName(A.getType()));
          J.value(A.hasByValAttr() ? 1 : A.hasStructRetAttr() ? 2 : 0);
        });
      }
    });
    J.attribute("rty", tyName(F.getReturnType()));
    if (!F.isDeclaration()) {
      std::map<const BasicBlock *, unsigned> BB;
      for (auto &B : F) {
        BB[&B] = BB.size();
      }
      for (auto &B : F)
        for (auto &I : B) Ids[&I] = n++;
      J.attributeBegin("blocks");
      J.arrayBegin();
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          J.objectBegin();
          J.attribute("id", Ids[&I]);
          J.attribute("op", I.getOpcodeName());
          J.attribute("ty", tyName(I.getType()));
          if (auto &L = I.getDebugLoc()) {
            // report the innermost position that is not inside a system header
            const DILocation *P = L.get();
            while (P->getInlinedAt() && StringRef(fileOf(P->getScope()->getFile())).starts_with("/usr/")) P = P->getInlinedAt();
            J.attribute("ln", P->getLine());
            unsigned f = fileId(fileOf(P->getScope()->getFile()));
            J.attribute("f", f);
            if (only)
              if (auto *SP = cast<DILocalScope>(L.getScope())->getSubprogram()) J.attribute("fn", qualFn(SP));
          }
          if (I.hasName()) J.attribute("nm", I.getName());
          if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            writeGEP(J, cast<GEPOperator>(G));
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            J.attributeBegin("callee");
            const Value *cv = CB->getCalledOperand()->stripPointerCasts();
            writeOperand(J, cv);
            J.attributeEnd();
            if (CB->doesNotThrow()) J.attribute("nounwind", true);
            J.attributeArray("ops", [&] {
              for (auto &A : CB->args()) writeOperand(J, A);
            });
            if (auto *II = dyn_cast<InvokeInst>(&I)) {
              J.attribute("normal", BB[II->getNormalDest()]);
              J.attribute("unwind", BB[II->getUnwindDest()]);
            }
          } else if (auto *PN = dyn_cast<PHINode>(&I)) {
            J.attributeArray("inc", [&] {
              for (unsigned i = 0; i < PN->getNumIncomingValues(); ++i)
                J.array([&] {
                  J.value(BB[PN->getIncomingBlock(i)]);
                  writeOperand(J, PN->getIncomingValue(i));
                });
            });
          } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
            J.attributeArray("ops", [&] {
              if (BI->isConditional()) writeOperand(J, BI->getCondition());
            });
            J.attributeArray("succ", [&] {
              for (unsigned i = 0; i < BI->getNumSuccessors(); ++i) J.value(BB[BI->getSuccessor(i)]);
            });
          } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
            J.attributeArray("ops", [&] { writeOperand(J, SI->getCondition()); });
            J.attribute("def", BB[SI->getDefaultDest()]);
            J.attributeArray("cases", [&] {
              for (auto &C : SI->cases())
                J.array([&] {
                  J.value(C.getCaseValue()->getSExtValue());
                  J.value(BB[C.getCaseSuccessor()]);
                });
            });
          } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
            J.attribute("cleanup", LP->isCleanup());
            J.attributeArray("clauses", [&] {
              for (unsigned i = 0; i < LP->getNumClauses(); ++i)
                J.array([&] {
                  J.value(LP->isCatch(i) ? "catch" : "filter");
                  writeOperand(J, LP->getClause(i)->stripPointerCasts());
                });
            });
          } else {
            J.attributeArray("ops", [&] {
              for (auto &O : I.operands()) writeOperand(J, O);
            });
            if (auto *C = dyn_cast<CmpInst>(&I))
              J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
              J.attribute("aty", tyName(A->getAllocatedType()));
              J.attribute("size", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue());
            }
            if (auto *L = dyn_cast<LoadInst>(&I)) {
              if (L->isAtomic()) J.attribute("ord", toIRString(L->getOrdering()));
            }
            if (auto *S = dyn_cast<StoreInst>(&I)) {
              if (S->isAtomic()) J.attribute("ord", toIRString(S->getOrdering()));
              J.attribute("sty", tyName(S->getValueOperand()->getType()));
            }
            if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
              J.attribute("ord", toIRString(R->getOrdering()));
              J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
            }
            if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
              J.attribute("ord", toIRString(X->getSuccessOrdering()));
              J.attribute("ford", toIRString(X->getFailureOrdering()));
              J.attribute("weak", X->isWeak());
            }
            if (auto *E = dyn_cast<ExtractValueInst>(&I))
              J.attributeArray("idx", [&] { for (unsigned i : E->indices()) J.value(i); });
            if (auto *E = dyn_cast<InsertValueInst>(&I))
              J.attributeArray("idx", [&] { for (unsigned i : E->indices()) J.value(i); });
          }
          J.objectEnd();
        }
        J.arrayEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();
  Ids.clear();
  J.attributeBegin("globals");
  J.arrayBegin();
  for (GlobalVariable &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    if (G.isDeclaration() || !doneG.insert(G.getName().str()).second) {
      if (!(G.isDeclaration() && doneG.insert("d:" + G.getName().str()).second)) continue;
    }
    J.objectBegin();
    J.attribute("name", G.getName());
    J.attribute("demangled", demangle(G.getName().str()));
    J.attribute("const", G.isConstant());
    J.attribute("tls", G.isThreadLocal());
    J.attribute("linkage", (int)G.getLinkage());
    J.attribute("ty", tyName(G.getValueType()));
    if (G.getValueType()->isSized()) J.attribute("size", (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue());
    J.attribute("decl", G.isDeclaration());
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *V = GVs[0]->getVariable();
      J.attribute("file", fileOf(V->getFile()));
      J.attribute("line", V->getLine());
      J.attribute("dty", typeStr(V->getType()));
    }
    if (G.hasInitializer()) {
      J.attributeBegin("init");
      writeOperand(J, G.getInitializer());
      J.attributeEnd();
    }
    SmallVector<MDNode *, 4> Ts;
    G.getMetadata(LLVMContext::MD_type, Ts);
    if (!Ts.empty()) {
      J.attributeArray("types", [&] {
        for (auto *N : Ts) {
          auto *Off = mdconst::extract<ConstantInt>(N->getOperand(0));
          if (auto *S = dyn_cast<MDString>(N->getOperand(1)))
            J.array([&] {
              J.value(Off->getSExtValue());
              J.value(S->getString());
            });
        }
      });
    }
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();
  // record layouts from debug info
  DebugInfoFinder Fi;
  Fi.processModule(*M);
  J.attributeBegin("records");
  J.arrayBegin();
  for (auto *T : Fi.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (!C->getIdentifier().empty() && !doneR.insert(C->getIdentifier().str()).second) continue;
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type &&
        C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_enumeration_type)
      continue;
    J.objectBegin();
    J.attribute("name", C->getName());
    J.attribute("id", C->getIdentifier());
    J.attribute("q", qualOf(C));
    J.attribute("tag", dwarf::TagString(C->getTag()));
    J.attribute("file", fileOf(C->getFile()));
    J.attribute("line", C->getLine());
    J.attribute("size", (int64_t)(C->getSizeInBits() / 8));
    J.attributeArray("els", [&] {
      for (auto *E : C->getElements()) {
        if (auto *D = dyn_cast<DIDerivedType>(E)) {
          std::string tn = typeStr(D->getBaseType());
          J.object([&] {
            J.attribute("k", dwarf::TagString(D->getTag()));
            J.attribute("n", D->getName());
            J.attribute("t", tn);
            J.attribute("off", (int64_t)(D->getOffsetInBits() / 8));
            J.attribute("sz", (int64_t)(D->getSizeInBits() / 8));
            J.attribute("line", D->getLine());
            J.attribute("acc", accessOf(C, D->getFlags()));
            J.attribute("static", D->isStaticMember());
          });
        } else if (auto *En = dyn_cast<DIEnumerator>(E)) {
          J.object([&] {
            J.attribute("k", "enumerator");
            J.attribute("n", En->getName());
            J.attribute("v", En->getValue().getSExtValue());
          });
        } else if (auto *SP = dyn_cast<DISubprogram>(E)) {
          J.object([&] {
            J.attribute("k", "method");
            J.attribute("n", SP->getName());
            J.attribute("ln", SP->getLinkageName());
            J.attribute("art", SP->isArtificial());
            if (auto *ST = SP->getType())
              J.attributeArray("pt", [&] { for (auto *T : ST->getTypeArray()) J.value(typeStr(T)); });
            J.attribute("del", SP->isDeleted());
            J.attribute("virt", SP->getVirtuality());
            J.attribute("acc", accessOf(C, SP->getFlags()));
            J.attribute("line", SP->getLine());
          });
        }
      }
    });
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();
  J.objectEnd();
}

static void writeFiles(OStream &J) {
  J.attributeArray("files", [&] {
    std::vector<std::string> v(files.size());
    for (auto &p : files) v[p.second] = p.first;
    for (auto &s : v) J.value(s);
  });
}

#include "irview.inc"

int main(int argc, char **argv) {
  if (argc > 2 && std::string(argv[1]) == "link") return linkMain(argc - 2, argv + 2);
  if (argc > 2 && std::string(argv[1]) == "view") return viewMain(argc - 2, argv + 2);
  if (argc < 3 || std::string(argv[1]) != "dump") return 2;
  std::error_code EC;
  raw_fd_ostream Out(argv[2], EC);
  if (EC) return 2;
  OStream J(Out);
  J.objectBegin();
  J.attributeBegin("units");
  J.arrayBegin();
  for (int ai = 3; ai < argc; ++ai) {
    LLVMContext Ctx;
    auto M = load(Ctx, argv[ai], ai);
    if (!M) return 2;
    writeUnit(J, M.get(), nullptr);
  }
  J.arrayEnd();
  J.attributeEnd();
  writeFiles(J);
  J.objectEnd();
  Out << "\n";
  return 0;
}
