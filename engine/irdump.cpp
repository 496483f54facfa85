// irdump: load a linked bitcode module, canonicalise it, and print one JSON
// object per line: module facts (struct layouts, globals, initialisers), then
// one object per defined function with its CFG in SSA form.
//
//   irdump in.bc [--inline-hint] [--noinline name,name,...] [--thread]
//
// --inline-into name,...: functions called from the named ones only are inlined.
// --inline-hint: functions carrying the `inline` keyword are inlined first
// (accessor wrappers disappear), except those in --noinline.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace llvm;

static DenseMap<const Value *, int> ids;
static const DataLayout *DL;

static std::string cname(const Value *v) { return v->getName().str(); }

static json::Value op(const Value *v) {
  if (auto it = ids.find(v); it != ids.end())
    return json::Value(it->second);
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    if (ci->getBitWidth() <= 64)
      return json::Object{{"c", ci->getSExtValue()}, {"w", (int64_t) ci->getBitWidth()}};
    return json::Object{{"k", "bigint"}};
  }
  if (auto *cf = dyn_cast<ConstantFP>(v)) {
    SmallString<32> s;
    cf->getValueAPF().toString(s);
    return json::Object{{"f", std::string(s.str())}};
  }
  if (isa<ConstantPointerNull>(v))
    return json::Object{{"c", 0}, {"null", true}};
  if (isa<UndefValue>(v))
    return json::Object{{"k", "undef"}};
  if (isa<ConstantAggregateZero>(v))
    return json::Object{{"c", 0}, {"agg", true}};
  if (auto *g = dyn_cast<GlobalValue>(v))
    return json::Object{{"g", cname(g)}, {"o", 0}};
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      auto *gep = cast<GEPOperator>(ce);
      if (gep->accumulateConstantOffset(*DL, off)) {
        const Value *b = gep->getPointerOperand();
        if (auto *g = dyn_cast<GlobalValue>(b))
          return json::Object{{"g", cname(g)}, {"o", off.getSExtValue()}};
      }
    }
    if (ce->isCast())
      return op(ce->getOperand(0));
    return json::Object{{"k", "constexpr"}};
  }
  return json::Object{{"k", "other"}};
}

static std::string tystr(const Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static std::string ditype(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "...";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: return d->getName().str();
    case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_const_type: return "const " + ditype(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return ditype(d->getBaseType(), depth + 1);
    default: return ditype(d->getBaseType(), depth + 1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    std::string n = c->getName().str();
    switch (c->getTag()) {
    case dwarf::DW_TAG_structure_type: return "struct " + n;
    case dwarf::DW_TAG_union_type: return "union " + n;
    case dwarf::DW_TAG_enumeration_type: return "enum " + n;
    case dwarf::DW_TAG_array_type: return ditype(c->getBaseType(), depth + 1) + "[]";
    default: return n;
    }
  }
  if (auto *st = dyn_cast<DISubroutineType>(t)) {
    auto ta = st->getTypeArray();
    return "fn(" + (ta && ta.size() ? ditype(ta[0], depth + 1) : std::string("void")) + ")";
  }
  return t->getName().str();
}

static json::Value constant_init(const Constant *c, int depth = 0) {
  if (depth > 6) return nullptr;
  if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
    if (s->isString()) {
      std::string str = s->getAsString().str();
      while (!str.empty() && str.back() == 0) str.pop_back();
      if (json::isUTF8(str)) return json::Object{{"s", str}};
      return json::Object{{"s", json::fixUTF8(str)}};
    }
    json::Array a;
    for (unsigned i = 0; i < s->getNumElements() && i < 4096; ++i) a.push_back(constant_init(s->getElementAsConstant(i), depth + 1));
    return json::Object{{"a", std::move(a)}};
  }
  if (isa<ConstantAggregate>(c)) {
    json::Array a;
    for (unsigned i = 0; i < c->getNumOperands(); ++i) a.push_back(constant_init(cast<Constant>(c->getOperand(i)), depth + 1));
    return json::Object{{"a", std::move(a)}};
  }
  return op(c);
}

int main(int argc, char **argv) {
  std::string in;
  bool leaf = false, inl = false, thread = false;
  std::set<std::string> noinl, into;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--inline-hint") inl = true;
    else if (a == "--thread") thread = true;
    else if (a == "--inline-leaf") leaf = true;
    else if (a == "--inline-into") {
      SmallVector<StringRef, 64> parts;
      StringRef(argv[++i]).split(parts, ',', -1, false);
      for (auto p : parts) into.insert(p.str());
    }
    else if (a == "--noinline") {
      SmallVector<StringRef, 64> parts;
      StringRef(argv[++i]).split(parts, ',', -1, false);
      for (auto p : parts) noinl.insert(p.str());
    } else in = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(in, err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();

  // Base name without the numeric suffix the linker gives to static duplicates.
  auto base = [](StringRef n) {
    auto p = n.rfind('.');
    if (p != StringRef::npos && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos)
      return n.substr(0, p).str();
    return n.str();
  };

  for (auto &f : *m) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::OptimizeNone);
    f.removeFnAttr(Attribute::NoInline);
    if (inl && f.hasFnAttribute(Attribute::InlineHint) && !noinl.count(base(f.getName())))
      f.addFnAttr(Attribute::AlwaysInline);
    else {
      f.removeFnAttr(Attribute::AlwaysInline);
      f.addFnAttr(Attribute::NoInline);
    }
  }
  // Small helpers that compute on plain values only: whether a test stands in
  // a function of its own makes no difference.
  if (leaf) {
    for (int round = 0; round < 2; ++round)
      for (auto &f : *m) {
        if (f.isDeclaration() || !f.hasLocalLinkage() || f.isVarArg()) continue;
        unsigned n = 0;
        bool ok = true;
        for (auto &b : f)
          for (auto &i : b) {
            ++n;
            if (auto *cb = dyn_cast<CallBase>(&i)) {
              auto *g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
              if (!g) { ok = false; continue; }
              static const std::set<std::string> plain = {"strcmp", "strncmp", "memcmp", "isnan", "floor", "fabs", "ceil", "R_IsNA", "R_IsNaN", "R_finite", "strlen"};
              if (g->isIntrinsic() || plain.count(g->getName().str()) || g->hasFnAttribute(Attribute::AlwaysInline)) continue;
              ok = false;
            }
          }
        if (ok && n <= 120) { f.removeFnAttr(Attribute::NoInline); f.addFnAttr(Attribute::AlwaysInline); }
      }
  }

  // Helpers used by one function only are part of it.
  if (!into.empty()) {
    std::set<Function *> cluster;
    for (auto &f : *m)
      if (!f.isDeclaration() && into.count(base(f.getName()))) cluster.insert(&f);
    for (bool more = true; more;) {
      more = false;
      for (auto &f : *m) {
        if (f.isDeclaration() || !f.hasLocalLinkage() || f.isVarArg() || cluster.count(&f) || f.use_empty()) continue;
        bool ok = true;
        for (auto *u : f.users()) {
          auto *cb = dyn_cast<CallBase>(u);
          if (!cb || cb->getCalledOperand() != &f || !cluster.count(cb->getFunction())) ok = false;
        }
        if (!ok) continue;
        cluster.insert(&f);
        f.removeFnAttr(Attribute::NoInline);
        f.addFnAttr(Attribute::AlwaysInline);
        more = true;
      }
    }
  }

  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (inl || leaf || !into.empty()) MPM.addPass(AlwaysInlinerPass(false));
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
    if (thread) {
      MPM.addPass(createModuleToFunctionPassAdaptor(JumpThreadingPass()));
      MPM.addPass(createModuleToFunctionPassAdaptor(JumpThreadingPass()));
    }
    MPM.run(*m, MAM);
  }

  // struct layouts from debug info
  {
    DebugInfoFinder F;
    F.processModule(*m);
    json::Object structs, enums;
    for (auto *t : F.types()) {
      auto *c = dyn_cast<DICompositeType>(t);
      if (!c) continue;
      if (c->getTag() == dwarf::DW_TAG_structure_type && !c->isForwardDecl()) {
        json::Array mem;
        for (auto *e : c->getElements())
          if (auto *d = dyn_cast<DIDerivedType>(e))
            if (d->getTag() == dwarf::DW_TAG_member)
              mem.push_back(json::Array{(int64_t) (d->getOffsetInBits() / 8), d->getName().str(), ditype(d->getBaseType()), (int64_t) (d->getSizeInBits() / 8)});
        std::string n = c->getName().str();
        if (n.empty()) continue;
        structs[n] = std::move(mem);
      }
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Array mem;
        for (auto *e : c->getElements())
          if (auto *d = dyn_cast<DIEnumerator>(e))
            mem.push_back(json::Array{d->getName().str(), d->getValue().getSExtValue()});
        enums[c->getName().str()] = std::move(mem);
      }
    }
    json::Object globs;
    for (auto &g : m->globals()) {
      json::Object o;
      o["const"] = g.isConstant();
      o["local"] = g.hasLocalLinkage();
      o["decl"] = g.isDeclaration();
      SmallVector<DIGlobalVariableExpression *, 1> gv;
      g.getDebugInfo(gv);
      if (!gv.empty()) {
        auto *v = gv[0]->getVariable();
        o["di"] = ditype(v->getType());
        o["file"] = v->getFilename().str();
        o["line"] = (int64_t) v->getLine();
        o["src"] = v->getName().str();
        if (auto *sp = dyn_cast_or_null<DISubprogram>(v->getScope())) o["fn"] = sp->getName().str();
      }
      if (g.hasInitializer()) {
        auto *ini = g.getInitializer();
        o["size"] = (int64_t) DL->getTypeAllocSize(ini->getType());
        if (DL->getTypeAllocSize(ini->getType()) <= 65536) o["init"] = constant_init(ini);
      }
      globs[cname(&g)] = std::move(o);
    }
    json::Object decls;
    for (auto &f : *m)
      if (f.isDeclaration()) decls[cname(&f)] = json::Object{{"nargs", (int64_t) f.arg_size()}, {"va", f.isVarArg()}};
    outs() << json::Value(json::Object{{"structs", std::move(structs)}, {"enums", std::move(enums)}, {"globals", std::move(globs)}, {"decls", std::move(decls)}}) << "\n";
  }

  for (auto &f : *m) {
    if (f.isDeclaration()) continue;
    ids.clear();
    int n = 0;
    json::Array args;
    for (auto &a : f.args()) {
      ids[&a] = n++;
      json::Object ao{{"n", cname(&a)}, {"t", tystr(a.getType())}};
      if (a.hasStructRetAttr()) ao["sret"] = true;
      if (a.hasByValAttr()) ao["byval"] = true;
      args.push_back(std::move(ao));
    }
    DenseMap<const BasicBlock *, int> bid;
    int nb = 0;
    for (auto &b : f) {
      bid[&b] = nb++;
      for (auto &i : b) ids[&i] = n++;
    }
    json::Object fo;
    fo["name"] = cname(&f);
    fo["base"] = base(f.getName());
    fo["args"] = std::move(args);
    fo["ret"] = tystr(f.getReturnType());
    fo["local"] = f.hasLocalLinkage();
    if (auto *sp = f.getSubprogram()) {
      fo["file"] = sp->getFilename().str();
      fo["line"] = (int64_t) sp->getLine();
      json::Array ts;
      if (auto *st = sp->getType())
        for (auto *t : st->getTypeArray()) ts.push_back(ditype(t));
      fo["di"] = std::move(ts);
      json::Array lv;
      for (auto *nd : sp->getRetainedNodes())
        if (auto *v = dyn_cast<DILocalVariable>(nd))
          if (v->getArg()) lv.push_back(json::Array{(int64_t) v->getArg(), v->getName().str(), ditype(v->getType())});
      fo["dvars"] = std::move(lv);
    }
    json::Object varnames; // value id -> source variable names
    json::Object vartypes;
    json::Array pnames;    // formal parameter names from debug info
    std::map<unsigned, std::string> pn;
    json::Array blocks;
    for (auto &b : f) {
      json::Array insts;
      for (auto &i : b) {
        if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
          auto *var = dv->getVariable();
          bool inlined = dv->getDebugLoc() && dv->getDebugLoc()->getInlinedAt();
          if (var->getArg() && !inlined) pn[var->getArg()] = var->getName().str();
          for (auto *v : dv->location_ops())
            if (v && ids.count(v)) {
              std::string key = std::to_string(ids[v]);
              if (!varnames.get(key) || !inlined) {
                varnames[key] = var->getName().str();
                vartypes[key] = ditype(var->getType());
              }
            }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&i)) continue;
        json::Object o;
        o["i"] = ids[&i];
        o["op"] = std::string(i.getOpcodeName());
        if (!i.getType()->isVoidTy()) o["t"] = tystr(i.getType());
        if (auto &dl = i.getDebugLoc()) {
          // outermost location = call site in this function
          const DILocation *l = dl.get();
          json::Array chain;
          const DILocation *q = l;
          while (q) {
            chain.push_back(json::Array{(int64_t) q->getLine(), q->getFilename().str(), q->getScope()->getSubprogram() ? q->getScope()->getSubprogram()->getName().str() : ""});
            q = q->getInlinedAt();
          }
          if (chain.size() > 1) o["lc"] = std::move(chain);
          while (l->getInlinedAt()) l = l->getInlinedAt();
          o["l"] = (int64_t) l->getLine();
        }
        if (auto *cb = dyn_cast<CallBase>(&i)) {
          json::Array a;
          for (auto &u : cb->args()) a.push_back(op(u.get()));
          o["a"] = std::move(a);
          if (auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()))
            o["f"] = cname(cf);
          else o["fp"] = op(cb->getCalledOperand());
          for (unsigned k = 0; k < cb->arg_size(); ++k) {
            if (cb->paramHasAttr(k, Attribute::StructRet)) o["sret"] = (int64_t) k;
          }
          json::Array bv;
          for (unsigned k = 0; k < cb->arg_size(); ++k)
            if (cb->paramHasAttr(k, Attribute::ByVal)) bv.push_back((int64_t) k);
          if (!bv.empty()) o["byval"] = std::move(bv);
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
          json::Array s;
          for (unsigned k = 0; k < br->getNumSuccessors(); ++k) s.push_back(bid[br->getSuccessor(k)]);
          o["s"] = std::move(s);
          if (br->isConditional()) o["a"] = json::Array{op(br->getCondition())};
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          json::Array cs;
          for (auto c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
          o["def"] = bid[sw->getDefaultDest()];
          o["a"] = json::Array{op(sw->getCondition())};
        } else if (auto *phi = dyn_cast<PHINode>(&i)) {
          json::Array in;
          for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k)
            in.push_back(json::Array{op(phi->getIncomingValue(k)), bid[phi->getIncomingBlock(k)]});
          o["in"] = std::move(in);
        } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
          MapVector<Value *, APInt> vo;
          APInt co(64, 0);
          o["st"] = tystr(gep->getSourceElementType());
          json::Array a{op(gep->getPointerOperand())};
          if (cast<GEPOperator>(gep)->collectOffset(*DL, 64, vo, co)) {
            o["off"] = co.getSExtValue();
            json::Array vs;
            for (auto &p : vo) {
              vs.push_back(p.second.getSExtValue());
              a.push_back(op(p.first));
            }
            o["sc"] = std::move(vs);
          }
          o["a"] = std::move(a);
        } else {
          json::Array a;
          for (auto &u : i.operands()) a.push_back(op(u.get()));
          o["a"] = std::move(a);
          if (auto *c = dyn_cast<CmpInst>(&i)) o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto *al = dyn_cast<AllocaInst>(&i)) {
            o["at"] = tystr(al->getAllocatedType());
            if (auto sz = al->getAllocationSize(*DL)) o["sz"] = (int64_t) sz->getFixedValue();
            if (al->hasName()) o["n"] = cname(al);
          }
          if (isa<LoadInst>(&i) || isa<StoreInst>(&i)) {
            Type *at = isa<LoadInst>(&i) ? i.getType() : i.getOperand(0)->getType();
            o["sz"] = (int64_t) DL->getTypeStoreSize(at).getFixedValue();
            o["at"] = tystr(at);
          }
          if (auto *ex = dyn_cast<ExtractValueInst>(&i)) { json::Array x; for (auto k : ex->indices()) x.push_back((int64_t) k); o["idx"] = std::move(x); }
          if (auto *ex = dyn_cast<InsertValueInst>(&i)) { json::Array x; for (auto k : ex->indices()) x.push_back((int64_t) k); o["idx"] = std::move(x); }
          if (auto *c = dyn_cast<CastInst>(&i)) { o["from"] = tystr(c->getSrcTy()); }
        }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    for (auto &p : pn) pnames.push_back(json::Array{(int64_t) p.first, p.second});
    fo["pn"] = std::move(pnames);
    fo["vn"] = std::move(varnames);
    fo["vt"] = std::move(vartypes);
    fo["blocks"] = std::move(blocks);
    outs() << json::Value(std::move(fo)) << "\n";
  }
  return 0;
}
