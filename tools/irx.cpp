// irx: IR exporter.  Loads one LLVM bitcode module (already linked), forces the
// inlining of every defined callee except those matching --keep, runs a pass
// pipeline and dumps the selected root functions as JSON for the Python
// analyses.  It only inspects compiled source; nothing is executed.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::list<std::string> Roots("root", cl::desc("regex on demangled name"));
static cl::list<std::string> Keep("keep", cl::desc("regex: never inline"));
static cl::list<std::string> Only("inline-only", cl::desc("regex: inline only these"));
static cl::opt<std::string> Pipe("pipeline", cl::init(""));
static cl::opt<std::string> Prefix("prefix", cl::init("/repo/"));
static cl::opt<int> PeelCount("peel-count", cl::init(0), cl::desc("iterations made explicit in the segments of the pipeline marked with peel:"));
static cl::opt<bool> EmitIR("emit-ir", cl::init(false), cl::desc("print the lowered module"));
static cl::opt<bool> NoInline("no-inline", cl::init(false));
static cl::opt<bool> ListFns("list", cl::init(false));
static cl::opt<bool> WithTypes("types", cl::init(false));
static cl::opt<bool> OpaqueHeap("opaque-heap", cl::init(false), cl::desc("keep every allocation and release call"));

static const DataLayout *DL;
static std::string dem(StringRef n) { return demangle(std::string(n)); }

static std::string filePath(const DIScope *S) {
  if (!S) return "";
  auto *F = S->getFile();
  if (!F) return "";
  std::string p = F->getFilename().str();
  if (!p.empty() && p[0] == '/') return p;
  return F->getDirectory().str() + "/" + p;
}

struct FnDump {
  std::map<const Value *, int> ids;
  int next = 0;
  int id(const Value *V) {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    return ids[V] = next++;
  }
  json::Value constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() <= 64) return json::Object{{"c", CI->getSExtValue()}, {"w", (int)CI->getBitWidth()}};
      return json::Object{{"cbig", std::string("big")}};
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
      bool loses;
      APFloat f = CF->getValueAPF();
      std::string exact;
      if (&f.getSemantics() == &APFloat::x87DoubleExtended()) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &loses);
      double d = (&f.getSemantics() == &APFloat::IEEEsingle()) ? (double)f.convertToFloat() : f.convertToDouble();
      char b[64]; snprintf(b, sizeof b, "%.17g", d);
      return json::Object{{"f", std::string(b)}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"null", true}};
    if (isa<UndefValue>(C)) return json::Object{{"undef", true}};
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"zero", true}};
    if (auto *G = dyn_cast<GlobalValue>(C)) return json::Object{{"g", G->getName().str()}};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (GEP->accumulateConstantOffset(*DL, off)) {
          auto base = constant(cast<Constant>(GEP->getPointerOperand()));
          if (auto *o = base.getAsObject())
            if (o->get("g")) {
              int64_t prev = 0;
              if (auto p = o->getInteger("off")) prev = *p;
              (*o)["off"] = prev + off.getSExtValue();
              return base;
            }
        }
      }
      if (CE->isCast()) return constant(CE->getOperand(0));
      std::string s; raw_string_ostream os(s); CE->print(os);
      return json::Object{{"ce", os.str()}};
    }
    if (auto *CV = dyn_cast<ConstantDataSequential>(C)) {
      json::Array a;
      for (unsigned i = 0; i < CV->getNumElements() && i < 4096; i++) a.push_back(constant(CV->getElementAsConstant(i)));
      return json::Object{{"vec", std::move(a)}};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      json::Array a;
      for (unsigned i = 0; i < CA->getNumOperands() && i < 4096; i++) a.push_back(constant(CA->getOperand(i)));
      return json::Object{{"vec", std::move(a)}};
    }
    std::string s; raw_string_ostream os(s); C->print(os);
    return json::Object{{"other", os.str()}};
  }
  json::Value ref(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (isa<MetadataAsValue>(V)) return json::Object{{"md", true}};
    if (isa<InlineAsm>(V)) return json::Object{{"asm", true}};
    return id(V);
  }
  static std::string ty(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str(); }

  json::Object inst(const Instruction &I, std::map<const BasicBlock *, int> &bb) {
    json::Object o{{"id", id(&I)}, {"op", I.getOpcodeName()}, {"ty", ty(I.getType())}};
    if (auto &L = I.getDebugLoc()) {
      o["line"] = (int64_t)L.getLine();
      o["file"] = filePath(cast<DIScope>(L.getScope()));
      if (auto *SP = cast<DIScope>(L.getScope()) ? L->getScope()->getSubprogram() : nullptr) o["sp"] = SP->getName().str();
      if (L.getInlinedAt()) {
        json::Array st;
        for (const DILocation *at = L.getInlinedAt(); at; at = at->getInlinedAt())
          st.push_back(json::Array{filePath(at->getScope()), (int64_t)at->getLine()});
        o["at"] = std::move(st);
      }
    }
    json::Array ops;
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      for (auto &A : CB->args()) ops.push_back(ref(A.get()));
      if (auto *F = CB->getCalledFunction()) {
        o["callee"] = F->getName().str();
        o["dem"] = dem(F->getName());
        if (F->isIntrinsic()) o["intr"] = true;
        o["def"] = !F->isDeclaration();
      } else
        o["fnptr"] = ref(CB->getCalledOperand());
      if (CB->doesNotReturn()) o["noret"] = true;
      if (CB->doesNotThrow()) o["nounwind"] = true;
      if (auto *II = dyn_cast<InvokeInst>(CB)) {
        o["normal"] = bb[II->getNormalDest()];
        o["unwind"] = bb[II->getUnwindDest()];
      }
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      json::Array inc;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) inc.push_back(json::Array{bb[P->getIncomingBlock(i)], ref(P->getIncomingValue(i))});
      o["inc"] = std::move(inc);
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) ops.push_back(ref(B->getCondition()));
      json::Array s;
      for (unsigned k = 0; k < B->getNumSuccessors(); k++) s.push_back(bb[B->getSuccessor(k)]);
      o["succ"] = std::move(s);
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      ops.push_back(ref(S->getCondition()));
      json::Array cs;
      for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bb[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs);
      o["default"] = bb[S->getDefaultDest()];
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      ops.push_back(ref(G->getPointerOperand()));
      MapVector<Value *, APInt> vo;
      APInt co(64, 0);
      if (G->collectOffset(*DL, 64, vo, co)) {
        o["off"] = co.getSExtValue();
        json::Array va;
        for (auto &kv : vo) va.push_back(json::Array{ref(kv.first), kv.second.getSExtValue()});
        o["var"] = std::move(va);
      } else
        o["unk"] = true;
      o["sty"] = ty(G->getSourceElementType());
      if (G->isInBounds()) o["ib"] = true;
    } else {
      for (auto &A : I.operands()) ops.push_back(ref(A.get()));
      if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (auto i : E->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (auto i : E->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        o["aty"] = ty(A->getAllocatedType());
        o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
        if (A->hasName()) o["name"] = A->getName().str();
      }
      if (auto *L = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(L->getType());
      if (auto *S = dyn_cast<StoreInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());
      if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) o["nsw"] = true; }
      if (auto *C = dyn_cast<CastInst>(&I)) o["from"] = ty(C->getSrcTy());
    }
    o["args"] = std::move(ops);
    return o;
  }

  json::Object dump(Function &F, FunctionAnalysisManager &FAM) {
    json::Object o{{"name", F.getName().str()}, {"dem", dem(F.getName())}, {"ret", ty(F.getReturnType())}};
    if (auto *SP = F.getSubprogram()) { o["file"] = filePath(SP); o["line"] = (int64_t)SP->getLine(); }
    o["nounwind"] = F.doesNotThrow();
    json::Array args;
    for (auto &A : F.args()) {
      json::Object ao{{"id", id(&A)}, {"ty", ty(A.getType())}, {"name", A.getName().str()}};
      if (A.hasStructRetAttr()) ao["sret"] = true;
      if (A.hasByValAttr()) ao["byval"] = true;
      args.push_back(std::move(ao));
    }
    o["args"] = std::move(args);
    std::map<const BasicBlock *, int> bb;
    int n = 0;
    for (auto &B : F) bb[&B] = n++;
    json::Array blocks;
    for (auto &B : F) {
      json::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        is.push_back(inst(I, bb));
      }
      blocks.push_back(json::Object{{"id", bb[&B]}, {"ins", std::move(is)}});
    }
    o["blocks"] = std::move(blocks);
    // names of local variables (debug info)
    json::Array vars;
    for (auto &I : instructions(F)) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        if (D->getNumVariableLocationOps() != 1) continue;
        Value *V = D->getVariableLocationOp(0);
        if (!V) continue;
        if (isa<Constant>(V)) continue;
        vars.push_back(json::Object{{"name", D->getVariable()->getName().str()}, {"id", id(V)}, {"decl", isa<DbgDeclareInst>(D)}, {"inl", D->getDebugLoc().getInlinedAt() != nullptr}, {"line", (int64_t)D->getVariable()->getLine()}});
      }
    }
    o["vars"] = std::move(vars);
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    json::Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Array bs, lat;
      for (auto *B : L->blocks()) bs.push_back(bb[B]);
      SmallVector<BasicBlock *, 4> lv;
      L->getLoopLatches(lv);
      for (auto *B : lv) lat.push_back(bb[B]);
      json::Object lo{{"header", bb[L->getHeader()]}, {"blocks", std::move(bs)}, {"latches", std::move(lat)}, {"depth", (int64_t)L->getLoopDepth()}};
      if (auto *P = L->getLoopPreheader()) lo["pre"] = bb[P];
      if (auto *P = L->getParentLoop()) lo["parent"] = bb[P->getHeader()];
      loops.push_back(std::move(lo));
    }
    o["loops"] = std::move(loops);
    return o;
  }
};

static json::Value globalInit(const Constant *C, int depth = 0) {
  FnDump d;
  if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
    if (CA->isString() || CA->getElementType()->isIntegerTy(8)) {
      json::Array a;
      for (unsigned i = 0; i < CA->getNumElements() && i < 70000; i++) a.push_back((int64_t)CA->getElementAsInteger(i));
      return json::Object{{"bytes", std::move(a)}};
    }
    json::Array a;
    for (unsigned i = 0; i < CA->getNumElements() && i < 70000; i++) a.push_back(d.constant(CA->getElementAsConstant(i)));
    return json::Object{{"arr", std::move(a)}};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array a;
    for (unsigned i = 0; i < CA->getNumOperands(); i++) a.push_back(globalInit(CA->getOperand(i), depth + 1));
    json::Object o{{"agg", std::move(a)}};
    if (auto *ST = dyn_cast<StructType>(CA->getType())) {
      auto *L = DL->getStructLayout(ST);
      json::Array offs, szs, tys;
      for (unsigned i = 0; i < ST->getNumElements(); i++) {
        offs.push_back((int64_t)L->getElementOffset(i));
        szs.push_back((int64_t)DL->getTypeAllocSize(ST->getElementType(i)).getFixedValue());
        tys.push_back(FnDump::ty(ST->getElementType(i)));
      }
      o["offs"] = std::move(offs); o["szs"] = std::move(szs); o["tys"] = std::move(tys);
    } else if (auto *AT = dyn_cast<ArrayType>(CA->getType()))
      o["es"] = (int64_t)DL->getTypeAllocSize(AT->getElementType()).getFixedValue();
    return o;
  }
  return d.constant(C);
}

static std::string diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return diTypeName(D->getBaseType()) + "&";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType());
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T))
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(C->getBaseType());
      for (auto *E : C->getElements())
        if (auto *R = dyn_cast<DISubrange>(E)) {
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) s += "[" + std::to_string(CI->getSExtValue()) + "]";
        }
      return s;
    }
  return T->getName().str();
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 3; }
  DL = &M->getDataLayout();
  auto matches = [](cl::list<std::string> &L, const std::string &d) {
    for (auto &r : L) { Regex R(r); if (R.match(d)) return true; }
    return false;
  };
  std::vector<std::string> rootNames;
  json::Array fnlist;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = dem(F.getName());
    if (ListFns) {
      json::Object o{{"name", F.getName().str()}, {"dem", d}};
      if (auto *SP = F.getSubprogram()) { o["file"] = filePath(SP); o["line"] = (int64_t)SP->getLine(); }
      o["nounwind"] = F.doesNotThrow();
      fnlist.push_back(std::move(o));
    }
    if (matches(Roots, d) && !F.getName().starts_with("_GLOBAL__") && !F.getName().starts_with("__cxx_global")) {
      rootNames.push_back(F.getName().str());
      F.setComdat(nullptr);
      F.setLinkage(GlobalValue::ExternalLinkage);
    }
  }
  // inlining set
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string d = dem(F.getName());
    bool in = !NoInline && !matches(Keep, d);
    if (in && !Only.empty()) in = matches(Only, d);
    // recursive functions are left alone
    if (in)
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (CB->getCalledFunction() == &F) in = false;
    if (in) {
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
      // call sites
    } else {
      F.removeFnAttr(Attribute::AlwaysInline);
      F.addFnAttr(Attribute::NoInline);
    }
  }
  for (auto &F : *M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) CB->removeFnAttr(Attribute::NoInline);
  // constructor/destructor aliases hide the callee
  for (auto &A : M->aliases())
    if (auto *T = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(T);
  for (const char *n : {"malloc", "calloc", "aligned_alloc"})
    if (Function *F = M->getFunction(n)) F->addRetAttr(Attribute::NonNull);   // allocation failure is outside the analysed behaviour
  if (OpaqueHeap) {
    static const std::set<std::string> H{"_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "malloc", "calloc", "free"};
    for (auto &F : *M) {
      if (H.count(F.getName().str())) { F.removeFnAttr(Attribute::AllocKind); F.removeFnAttr(Attribute::Builtin); }
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *C = CB->getCalledFunction(); C && H.count(C->getName().str())) {
            CB->removeFnAttr(Attribute::Builtin);
            CB->addFnAttr(Attribute::NoBuiltin);
          }
    }
  }
  // nothing but the roots and what they call is analysed
  if (!ListFns && !NoInline && !rootNames.empty()) {
    std::set<std::string> keepNames(rootNames.begin(), rootNames.end());
    for (auto &F : *M)
      if (!F.isDeclaration() && !keepNames.count(F.getName().str())) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); }
    for (bool again = true; again;) {
      again = false;
      for (auto it = M->begin(); it != M->end();) {
        Function &F = *it++;
        F.removeDeadConstantUsers();
        if (!F.isDeclaration() && F.hasLocalLinkage() && F.use_empty()) { F.eraseFromParent(); again = true; }
      }
    }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  SmallVector<StringRef, 4> segments;
  StringRef(Pipe).split(segments, '@', -1, false);
  for (StringRef seg : segments) {
    const bool peel = seg.consume_front("peel:");
    auto &opts = cl::getRegisteredOptions();
    if (PeelCount > 0) {
      auto it = opts.find("unroll-peel-count");
      if (it == opts.end()) { errs() << "no peel option\n"; return 3; }
      it->second->reset();
      if (peel && it->second->addOccurrence(0, "unroll-peel-count", std::to_string(PeelCount))) return 3;
      auto nest = opts.find("unroll-allow-loop-nests-peeling");
      if (nest != opts.end()) {
        nest->second->reset();
        if (peel) nest->second->addOccurrence(0, "unroll-allow-loop-nests-peeling", "true");
      }
    }
    // a peeled loop would otherwise be marked as not to be unrolled
    for (auto &F : *M)
      for (auto &B : F)
        if (auto *T = B.getTerminator()) T->setMetadata(LLVMContext::MD_loop, nullptr);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, seg)) { errs() << "bad pipeline: " << toString(std::move(E)) << "\n"; return 3; }
    MPM.run(*M, MAM);
  }
  if (EmitIR) { M->print(errs(), nullptr); return 0; }
  json::Object out;
  json::Array fns;
  std::set<const GlobalVariable *> used;
  for (auto &rn : rootNames) {
    Function *F = M->getFunction(rn);
    if (!F || F->isDeclaration()) continue;
    FnDump D;
    fns.push_back(D.dump(*F, FAM));
    std::function<void(const Constant *, int)> visit = [&](const Constant *C, int dep) {
      if (auto *G = dyn_cast<GlobalVariable>(C)) {
        if (!used.insert(G).second) return;
        if (G->hasInitializer() && dep < 4) visit(G->getInitializer(), dep + 1);
        return;
      }
      for (auto &O : C->operands()) if (auto *CC = dyn_cast<Constant>(O.get())) visit(CC, dep);
    };
    for (auto &I : instructions(*F))
      for (auto &O : I.operands())
        if (auto *C = dyn_cast<Constant>(O.get())) if (!isa<Function>(C)) visit(C, 0);
  }
  json::Object gl;
  for (auto *G : used) {
    json::Object g{{"dem", dem(G->getName())}, {"const", G->isConstant()}, {"size", (int64_t)(G->getValueType()->isSized() ? DL->getTypeAllocSize(G->getValueType()).getFixedValue() : 0)}, {"ty", FnDump::ty(G->getValueType())}, {"local", G->hasLocalLinkage()}};
    if (G->hasInitializer() && G->hasDefinitiveInitializer()) g["init"] = globalInit(G->getInitializer());
    else if (G->hasInitializer()) g["init"] = globalInit(G->getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> gv;
    G->getDebugInfo(gv);
    for (auto *e : gv) { g["file"] = filePath(e->getVariable()->getScope()); g["line"] = (int64_t)e->getVariable()->getLine(); g["dty"] = diTypeName(e->getVariable()->getType()); g["var"] = e->getVariable()->getName().str(); }
    gl[G->getName().str()] = std::move(g);
  }
  out["functions"] = std::move(fns);
  out["globals"] = std::move(gl);
  if (ListFns) out["list"] = std::move(fnlist);
  if (WithTypes) {
    json::Object types;
    DebugInfoFinder Fi;
    Fi.processModule(*M);
    for (auto *T : Fi.types()) {
      auto *C = dyn_cast<DICompositeType>(T);
      if (!C || (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type)) continue;
      std::string f = filePath(C);
      if (StringRef(f).find(StringRef(Prefix)) == StringRef::npos) continue;
      if (C->isForwardDecl()) continue;
      json::Array ms;
      for (auto *E : C->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E)) {
          if (D->isStaticMember()) continue;
          if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
            ms.push_back(json::Object{{"name", D->getName().str()}, {"off", (int64_t)D->getOffsetInBits() / 8}, {"size", (int64_t)D->getSizeInBits() / 8}, {"type", diTypeName(D->getBaseType())}});
        }
      std::string nm = C->getName().str();
      for (auto *S = C->getScope(); S; S = S->getScope()) {
        if (auto *N = dyn_cast<DINamespace>(S)) nm = N->getName().str() + "::" + nm;
        else if (auto *N = dyn_cast<DICompositeType>(S)) nm = N->getName().str() + "::" + nm;
      }
      types[nm] = json::Object{{"members", std::move(ms)}, {"size", (int64_t)C->getSizeInBits() / 8}, {"file", f}, {"line", (int64_t)C->getLine()}};
    }
    out["types"] = std::move(types);
  }
  std::error_code EC;
  raw_fd_ostream os(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 3; }
  os << json::Value(std::move(out)) << "\n";
  return 0;
}
