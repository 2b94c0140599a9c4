// irdump: reads the LLVM bitcode of one program (clang -O0, optnone disabled, -g), links it,
// inlines the project's own functions (and the system functions named in a list) into each other,
// promotes scalars to SSA and writes one JSON line per function / declaration / global / type.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/Regex.h"
#include <fstream>
#include <memory>
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/StringExtras.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

static json::Value operand(const Value *V, std::map<const Value*, int> &ids);
static json::Value constOp(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<32> s; CI->getValue().toStringUnsigned(s);
    return json::Array{"c", (int64_t)CI->getBitWidth(), s.str().str()};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if (isa<UndefValue>(C)) return json::Array{"u"};
  if (auto *CF = dyn_cast<ConstantFP>(C)) { 
    double d = CF->getType()->isDoubleTy() ? CF->getValueAPF().convertToDouble()
             : CF->getType()->isFloatTy() ? (double)CF->getValueAPF().convertToFloat() : 0.0;
    SmallString<32> s; CF->getValueAPF().toString(s);
    return json::Array{"f", s.str().str()}; }
  if (isa<ConstantAggregateZero>(C)) return json::Array{"z"};
  APInt Off(64, 0);
  if (C->getType()->isPointerTy()) {
    const Value *B = C->stripAndAccumulateConstantOffsets(*DL, Off, true);
    if (auto *G = dyn_cast<GlobalValue>(B)) {
      if (auto *GA = dyn_cast<GlobalAlias>(G)) G = GA->getAliaseeObject() ? GA->getAliaseeObject() : G;
      return json::Array{"g", G->getName().str(), (int64_t)Off.getSExtValue()};
    }
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    json::Array a; for (auto &o : CE->operands()) a.push_back(constOp(cast<Constant>(o)));
    return json::Array{"ce", CE->getOpcodeName(), std::move(a)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array a; for (auto &o : CA->operands()) a.push_back(constOp(cast<Constant>(o)));
    return json::Array{"agg", std::move(a)};
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    json::Array a; for (unsigned i = 0; i < CD->getNumElements(); ++i) a.push_back(constOp(CD->getElementAsConstant(i)));
    return json::Array{"agg", std::move(a)};
  }
  return json::Array{"u"};
}
static json::Value operand(const Value *V, std::map<const Value*, int> &ids) {
  if (auto *C = dyn_cast<Constant>(V)) return constOp(C);
  if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) return json::Array{"u"};
  auto it = ids.find(V);
  return json::Array{"v", it == ids.end() ? -1 : it->second};
}
static std::string dityName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return dityName(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_reference_type: return dityName(D->getBaseType(), depth + 1) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return dityName(D->getBaseType(), depth + 1) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + dityName(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: return dityName(D->getBaseType(), depth + 1);
      default: return dityName(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    std::string n = C->getName().str();
    for (const DIScope *S = C->getScope(); S; S = S->getScope()) {
      if (isa<DIFile>(S) || isa<DICompileUnit>(S)) break;
      std::string sn = S->getName().str();
      if (auto *SP = dyn_cast<DISubprogram>(S)) sn = SP->getName().str() + "()";
      if (!sn.empty()) n = sn + "::" + n;
    }
    return n;
  }
  return T->getName().str();
}
static std::string filePath(const DIScope *S) {
  if (!S || !S->getFile()) return "";
  std::string f = S->getFilename().str();
  if (!f.empty() && f[0] != '/') f = (S->getDirectory() + "/" + f).str();
  return f;
}

int main(int argc, char **argv) {
  // irdump -o out.jsonl -p projectPrefix [-i inlineList] [-k regexOfFunctionsThatStayCalls] [-all] a.bc b.bc ...
  std::string outp, inl, keep; std::vector<std::string> prefixes, ins; bool all = false, noinl = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-all") all = true; else if (a == "-noinline") noinl = true;
    else if (a == "-o") outp = argv[++i]; else if (a == "-p") prefixes.push_back(argv[++i]); else if (a == "-i") inl = argv[++i]; else if (a == "-k") keep = argv[++i];
    else ins.push_back(a);
  }
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (auto &in : ins) {
    auto m = parseIRFile(in, err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << in << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  // constructors and destructors are emitted as aliases of their base variants: use the function itself
  for (auto &GA : M->aliases())
    if (auto *F = dyn_cast_or_null<Function>(GA.getAliaseeObject())) GA.replaceAllUsesWith(F);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  std::error_code ec; raw_fd_ostream os(outp, ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
  auto emit = [&](json::Value v) { os << v << "\n"; };
  auto isProj = [&](const std::string &f) { for (auto &p : prefixes) if (f.compare(0, p.size(), p) == 0) return true; return false; };
  if (!noinl) {
    std::vector<Regex> rx;
    if (!inl.empty()) { std::ifstream f(inl); std::string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') rx.emplace_back(l); }
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      auto *SP = F.getSubprogram();
      bool proj = SP && isProj(filePath(SP)), take = proj;
      if (!take) { std::string n = demangle(F.getName().str()); for (auto &r : rx) if (r.match(n)) { take = true; break; } }
      if (take && !keep.empty() && Regex(keep).match(demangle(F.getName().str()))) {
        take = false; F.addFnAttr(Attribute::NoInline);
        if (proj) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
        continue;
      }
      if (take) {
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::AlwaysInline);
      }
      if (proj) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    }
    // an inlined copy of 'main' would be meaningless
    if (auto *m = M->getFunction("main")) m->removeFnAttr(Attribute::AlwaysInline);
    ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); MPM.run(*M, MAM);
    FAM.clear();
  }
  // which functions to dump
  std::vector<Function*> dump; std::set<Function*> seen;
  std::vector<Function*> work;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    auto *SP = F.getSubprogram();
    std::string n = demangle(F.getName().str());
    bool proj = SP && isProj(filePath(SP));
    if (proj || F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("_GLOBAL__")) { dump.push_back(&F); seen.insert(&F); }
  }
  // system functions reachable from project functions (bodies only with -all); declarations always
  work = dump;
  std::set<Function*> decls;
  while (!work.empty()) {
    Function *F = work.back(); work.pop_back();
    for (auto &BB : *F) for (auto &I : BB) for (auto &op : I.operands()) {
      const Value *v = op.get();
      if (!v->getType()->isPointerTy()) continue;
      v = v->stripPointerCastsAndAliases();
      if (auto *G = dyn_cast<Function>(v)) {
        Function *g = const_cast<Function*>(G);
        if (seen.count(g)) continue;
        seen.insert(g);
        if (all && !g->isDeclaration()) { dump.push_back(g); work.push_back(g); }
        else decls.insert(g);
      }
    }
  }
  std::set<StructType*> structs; std::set<const GlobalVariable*> globals;
  std::function<void(Type*)> addTy = [&](Type *T) {
    if (auto *ST = dyn_cast<StructType>(T)) { if (structs.insert(ST).second) for (auto *e : ST->elements()) addTy(e); }
    else if (auto *AT = dyn_cast<ArrayType>(T)) addTy(AT->getElementType());
  };
  std::function<void(const Constant*)> addG = [&](const Constant *C) {
    if (auto *G = dyn_cast<GlobalVariable>(C)) { if (globals.insert(G).second && G->hasInitializer() && G->getValueType()->isSized() && DL->getTypeAllocSize(G->getValueType()) < 65536) for (auto &o : G->operands()) if (auto *c = dyn_cast<Constant>(o)) addG(c); return; }
    if (isa<Function>(C)) return;
    for (auto &o : C->operands()) if (auto *c = dyn_cast<Constant>(o)) addG(c);
  };
  std::set<const DICompositeType*> ditypes;
  std::function<void(const DIType*)> addDI = [&](const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) T = D->getBaseType();
    auto *C = dyn_cast_or_null<DICompositeType>(T);
    if (!C || !ditypes.insert(C).second) return;
    for (auto *e : C->getElements()) if (auto *D = dyn_cast_or_null<DIDerivedType>(e)) addDI(D->getBaseType());
  };
  for (Function *F : dump) {
    auto *SP = F->getSubprogram();
    std::string file = SP ? filePath(SP) : "";
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass()); FPM.addPass(DCEPass()); FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false).speculateBlocks(false).needCanonicalLoops(true)));
    // names of allocas before promotion
    std::map<const Value*, std::string> names; 
    for (auto &BB : *F) for (auto &I : BB) if (auto *D = dyn_cast<DbgDeclareInst>(&I)) if (D->getAddress()) names[D->getAddress()] = D->getVariable()->getName().str();
    std::map<const Value*, std::string> dty;
    for (auto &BB : *F) for (auto &I : BB) if (auto *D = dyn_cast<DbgDeclareInst>(&I)) if (D->getAddress()) { dty[D->getAddress()] = dityName(D->getVariable()->getType()); addDI(D->getVariable()->getType()); }
    FPM.run(*F, FAM);
    std::map<const Value*, int> ids; int n = 0;
    std::map<const Value*, std::string> vnames;
    for (auto &A : F->args()) ids[&A] = n++;
    for (auto &BB : *F) for (auto &I : BB) {
      if (auto *D = dyn_cast<DbgValueInst>(&I)) { if (D->getNumVariableLocationOps() == 1 && D->getVariableLocationOp(0) && !D->getExpression()->getNumElements()) { auto &s = vnames[D->getVariableLocationOp(0)]; if (s.empty()) s = D->getVariable()->getName().str(); } continue; }
      if (!I.getType()->isVoidTy()) ids[&I] = n++;
    }
    std::map<const BasicBlock*, int> bbs; int nb = 0; for (auto &BB : *F) bbs[&BB] = nb++;
    json::Array params;
    for (auto &A : F->args()) {
      json::Object p{{"ty", tyStr(A.getType())}, {"name", vnames.count(&A) ? vnames[&A] : A.getName().str()}};
      if (A.hasStructRetAttr()) { p["sret"] = tyStr(A.getParamStructRetType()); p["size"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()); }
      if (A.hasByValAttr()) { p["byval"] = tyStr(A.getParamByValType()); p["size"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()); }
      params.push_back(std::move(p));
    }
    json::Array blocks;
    for (auto &BB : *F) {
      json::Array insts;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object o; o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) { o["d"] = ids[&I]; o["ty"] = tyStr(I.getType()); if (vnames.count(&I)) o["nm"] = vnames[&I]; }
        if (auto &loc = I.getDebugLoc()) {
          o["l"] = (int64_t)loc.getLine();
          if (auto *sc = dyn_cast_or_null<DIScope>(loc.getScope())) {
            std::string f = filePath(sc); if (f != file) o["f"] = f;
            if (auto *sp = dyn_cast_or_null<DILocalScope>(loc.getScope())) if (auto *S = sp->getSubprogram()) if (S != SP) o["sc"] = S->getName().str();
          }
          if (auto *ia = loc.getInlinedAt()) { json::Array chain; for (auto *x = ia; x; x = x->getInlinedAt()) { chain.push_back(json::Array{filePath(x->getScope()), (int64_t)x->getLine()}); } o["ia"] = std::move(chain); }
        }
        json::Array a;
        if (auto *AI = dyn_cast<AllocaInst>(&I)) {
          o["aty"] = tyStr(AI->getAllocatedType()); addTy(AI->getAllocatedType());
          o["size"] = (int64_t)DL->getTypeAllocSize(AI->getAllocatedType());
          if (names.count(AI)) o["var"] = names[AI];
          if (dty.count(AI)) o["dty"] = dty[AI];
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value*, APInt> vo; APInt co(64, 0);
          addTy(G->getSourceElementType());
          o["sty"] = tyStr(G->getSourceElementType());
          if (G->collectOffset(*DL, 64, vo, co)) {
            o["off"] = co.getSExtValue();
            json::Array ix; for (auto &p : vo) ix.push_back(json::Array{operand(p.first, ids), p.second.getSExtValue()});
            o["ix"] = std::move(ix);
          } else o["off"] = nullptr;
          a.push_back(operand(G->getPointerOperand(), ids));
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          const Value *cv = CB->getCalledOperand()->stripPointerCastsAndAliases();
          if (auto *f = dyn_cast<Function>(cv)) { o["fn"] = f->getName().str(); if (!seen.count(const_cast<Function*>(f)) ) { seen.insert(const_cast<Function*>(f)); decls.insert(const_cast<Function*>(f)); } }
          else o["ind"] = operand(cv, ids);
          for (unsigned k = 0; k < CB->arg_size(); ++k) { a.push_back(operand(CB->getArgOperand(k), ids)); if (auto *c = dyn_cast<Constant>(CB->getArgOperand(k))) addG(c); }
          json::Array sz; bool any = false;
          for (unsigned k = 0; k < CB->arg_size(); ++k) if (CB->isByValArgument(k) || CB->paramHasAttr(k, Attribute::StructRet)) { any = true; Type *t = CB->isByValArgument(k) ? CB->getParamByValType(k) : CB->getParamStructRetType(k); sz.push_back(json::Array{(int64_t)k, CB->isByValArgument(k) ? "byval" : "sret", (int64_t)DL->getTypeAllocSize(t)}); }
          if (any) o["pa"] = std::move(sz);
          if (auto *IV = dyn_cast<InvokeInst>(&I)) { o["bb"] = json::Array{bbs[IV->getNormalDest()], bbs[IV->getUnwindDest()]}; }
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array in; for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) { in.push_back(json::Array{operand(P->getIncomingValue(k), ids), bbs[P->getIncomingBlock(k)]}); }
          o["in"] = std::move(in);
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          json::Array t; for (unsigned k = 0; k < B->getNumSuccessors(); ++k) t.push_back(bbs[B->getSuccessor(k)]);
          o["bb"] = std::move(t); if (B->isConditional()) a.push_back(operand(B->getCondition(), ids));
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          a.push_back(operand(S->getCondition(), ids)); o["def"] = bbs[S->getDefaultDest()];
          json::Array cs; for (auto &c : S->cases()) { SmallString<32> s; c.getCaseValue()->getValue().toStringUnsigned(s); cs.push_back(json::Array{s.str().str(), bbs[c.getCaseSuccessor()]}); }
          o["cases"] = std::move(cs); o["w"] = (int64_t)S->getCondition()->getType()->getIntegerBitWidth();
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          for (auto &op : I.operands()) a.push_back(operand(op, ids));
        } else if (auto *X = dyn_cast<ExtractValueInst>(&I)) {
          a.push_back(operand(X->getAggregateOperand(), ids)); json::Array ix; for (auto k : X->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix);
        } else if (auto *X = dyn_cast<InsertValueInst>(&I)) {
          a.push_back(operand(X->getAggregateOperand(), ids)); a.push_back(operand(X->getInsertedValueOperand(), ids)); json::Array ix; for (auto k : X->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix);
        } else {
          for (auto &op : I.operands()) a.push_back(operand(op, ids));
          if (auto *L = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = L->isCleanup();
            json::Array cl;
            for (unsigned k = 0; k < L->getNumClauses(); ++k) {
              auto *c = L->getClause(k)->stripPointerCasts();
              cl.push_back(L->isFilter(k) ? std::string("filter") : isa<GlobalValue>(c) ? cast<GlobalValue>(c)->getName().str() : std::string("all"));
            }
            o["cl"] = std::move(cl);
          }
        }
        if (auto *L = dyn_cast<LoadInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(L->getType()); if (L->isAtomic()) o["atomic"] = true; }
        if (auto *S = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vty"] = tyStr(S->getValueOperand()->getType()); if (S->isAtomic()) o["atomic"] = true; }
        for (auto &op : I.operands()) if (auto *c = dyn_cast<Constant>(op.get())) addG(c);
        o["a"] = std::move(a);
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    json::Object fo{{"k", "fn"}, {"name", F->getName().str()}, {"dem", demangle(F->getName().str())}, {"file", file},
                    {"line", SP ? (int64_t)SP->getLine() : 0}, {"proj", isProj(file)}, {"params", std::move(params)}, {"ret", tyStr(F->getReturnType())},
                    {"nv", n}, {"blocks", std::move(blocks)}};
    if (SP) { 
      fo["short"] = SP->getName().str(); 
      if (auto *ST = SP->getType()) { json::Array pt; for (auto *t : ST->getTypeArray()) { pt.push_back(dityName(t)); if (t) addDI(t);} fo["sig"] = std::move(pt); }
    }
    fo["internal"] = F->hasInternalLinkage();
    emit(std::move(fo));
  }
  for (Function *F : decls) {
    json::Array params; for (auto &A : F->args()) { json::Object p{{"ty", tyStr(A.getType())}}; if (A.hasStructRetAttr()) p["sret"] = tyStr(A.getParamStructRetType()); params.push_back(std::move(p)); }
    json::Object o{{"k", "decl"}, {"name", F->getName().str()}, {"dem", demangle(F->getName().str())}, {"ret", tyStr(F->getReturnType())}, {"params", std::move(params)}};
    if (auto *SP = F->getSubprogram()) { o["file"] = filePath(SP); o["line"] = (int64_t)SP->getLine(); }
    emit(std::move(o));
  }
  for (auto *G : globals) {
    json::Object o{{"k", "gv"}, {"name", G->getName().str()}, {"dem", demangle(G->getName().str())}, {"const", G->isConstant()}, {"size", G->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G->getValueType()) : -1}, {"ty", tyStr(G->getValueType())}, {"tls", G->isThreadLocal()}};
    if (G->hasInitializer() && G->getValueType()->isSized() && DL->getTypeAllocSize(G->getValueType()) < 65536) {
      auto *I = G->getInitializer();
      if (auto *CD = dyn_cast<ConstantDataSequential>(I); CD && CD->isString()) {
        std::string raw = CD->getAsString().str(); o["hex"] = toHex(raw);
      } else o["init"] = constOp(I);
    }
    addTy(G->getValueType());
    emit(std::move(o));
  }
  // globals with static storage defined in the project
  for (auto *ST : structs) if (ST->hasName() && ST->isSized()) {
    auto *SL = DL->getStructLayout(ST); json::Array offs, tys;
    for (unsigned i = 0; i < ST->getNumElements(); ++i) { offs.push_back((int64_t)SL->getElementOffset(i)); tys.push_back(tyStr(ST->getElementType(i))); }
    emit(json::Object{{"k", "st"}, {"name", ST->getName().str()}, {"size", (int64_t)SL->getSizeInBytes()}, {"offs", std::move(offs)}, {"tys", std::move(tys)}});
  }
  for (auto *C : ditypes) {
    json::Array mem;
    for (auto *e : C->getElements()) {
      if (auto *D = dyn_cast_or_null<DIDerivedType>(e)) {
        if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) mem.push_back(json::Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, dityName(D->getBaseType())});
        else if (D->getTag() == dwarf::DW_TAG_inheritance) mem.push_back(json::Array{"<base>", (int64_t)D->getOffsetInBits() / 8, 0, dityName(D->getBaseType()), bool(D->getFlags() & DINode::FlagVirtual)});
      } else if (auto *E = dyn_cast_or_null<DIEnumerator>(e)) { mem.push_back(json::Array{"<enum>" + E->getName().str(), (int64_t)E->getValue().getSExtValue()}); }
    }
    emit(json::Object{{"k", "di"}, {"name", dityName(C)}, {"size", (int64_t)C->getSizeInBits() / 8}, {"file", C->getFile() ? C->getFilename().str() : ""}, {"mem", std::move(mem)}});
  }
  return 0;
}
