// irdump: normalises LLVM IR by inlining according to a rule file and dumps it as JSON.
//
//   irdump IN.bc RULES OUT.json [PIPELINE]
//
// RULES: lines "inline REGEX", "keep REGEX"; the first rule whose regex matches the qualified
// name and parameters ("ctx::base(params)" as demangled) decides.  Functions with no matching rule are kept opaque.
// Functions whose name starts with "vroot_" are the roots whose bodies are dumped.
#include <llvm/AsmParser/Parser.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/GlobalsModRef.h>
#include <llvm/Analysis/ValueTracking.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

struct Rule { bool inl; std::string text; std::shared_ptr<Regex> re; };
static std::vector<Rule> rules;

struct NameInfo { std::string qual, base, ctx, full, params; };
static std::map<std::string, NameInfo> nameCache;

static NameInfo& nameInfo(StringRef mangled)
{
    auto key = mangled.str();
    auto it = nameCache.find(key);
    if (it != nameCache.end()) return it->second;
    NameInfo n;
    ItaniumPartialDemangler d;
    auto take = [](char* p) { std::string s = p ? p : ""; free(p); return s; };
    if (!d.partialDemangle(key.c_str())) {
        n.full = take(d.finishDemangle(nullptr, nullptr));
        if (d.isFunction()) {
            n.base = take(d.getFunctionBaseName(nullptr, nullptr));
            n.ctx = take(d.getFunctionDeclContextName(nullptr, nullptr));
            n.params = take(d.getFunctionParameters(nullptr, nullptr));
            // The base name carries no template arguments; keep those in 'full'.
            n.qual = n.ctx.empty() ? n.base : n.ctx + "::" + n.base;
        } else {
            n.qual = n.full;
        }
    } else {
        n.full = n.qual = n.base = key;
    }
    return nameCache.emplace(key, n).first->second;
}

static int decide(StringRef mangled)
{
    auto& n = nameInfo(mangled);
    for (auto& r : rules)
        if (r.re->match(n.qual + n.params)) return r.inl ? 1 : 0;
    return 0;
}

struct Dumper
{
    Module& M;
    const DataLayout& DL;
    std::set<const GlobalVariable*> usedGlobals;
    std::set<std::string> usedFns;
    explicit Dumper(Module& m) : M(m), DL(m.getDataLayout()) {}

    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bids;

    static std::string tyStr(Type* t)
    {
        std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
    }

    json::Value apint(const APInt& v)
    {
        SmallString<32> s; v.toString(s, 10, false); return std::string(s.str());
    }

    json::Value constant(const Constant* c)
    {
        if (auto* ci = dyn_cast<ConstantInt>(c))
            return json::Array{"i", (int64_t)ci->getBitWidth(), apint(ci->getValue())};
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            return json::Array{"f", tyStr(c->getType()), apint(cf->getValueAPF().bitcastToAPInt())};
        }
        if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
        if (isa<UndefValue>(c)) return json::Array{"u", tyStr(c->getType())};
        if (auto* f = dyn_cast<Function>(c)) { usedFns.insert(f->getName().str()); return json::Array{"fn", f->getName().str()}; }
        if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
        if (auto* g = dyn_cast<GlobalVariable>(c)) { usedGlobals.insert(g); return json::Array{"g", g->getName().str(), 0}; }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(DL.getIndexTypeSizeInBits(gep->getType()), 0);
                const Value* base = gep->stripAndAccumulateConstantOffsets(DL, off, true);
                if (auto* g = dyn_cast<GlobalVariable>(base)) {
                    usedGlobals.insert(g);
                    return json::Array{"g", g->getName().str(), off.getSExtValue()};
                }
            }
            json::Array ops;
            for (auto& o : ce->operands()) ops.push_back(constant(cast<Constant>(o.get())));
            return json::Array{"ce", std::string(ce->getOpcodeName()), std::move(ops)};
        }
        if (isa<ConstantAggregateZero>(c)) return json::Array{"z", tyStr(c->getType())};
        json::Array ops;
        for (auto& o : c->operands()) if (auto* cc = dyn_cast<Constant>(o.get())) ops.push_back(constant(cc));
        return json::Array{"agg", std::move(ops)};
    }

    json::Value operand(const Value* v)
    {
        if (auto* a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
        if (auto* bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", bids[bb]};
        if (isa<Instruction>(v)) return json::Array{"v", ids[v]};
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        if (isa<MetadataAsValue>(v)) return json::Array{"md"};
        return json::Array{"?"};
    }

    // [[file,line,function], ...] innermost first
    json::Value location(const Instruction& I)
    {
        json::Array chain;
        const DILocation* l = I.getDebugLoc();
        while (l) {
            auto* sp = l->getScope()->getSubprogram();
            std::string file = l->getFilename().str();
            if (!file.empty() && file[0] != '/') file = l->getDirectory().str() + "/" + file;
            std::string fn = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "";
            chain.push_back(json::Array{file, (int64_t)l->getLine(), fn});
            l = l->getInlinedAt();
        }
        return json::Value(std::move(chain));
    }

    json::Value instr(const Instruction& I)
    {
        json::Object o;
        o["id"] = ids[&I];
        o["op"] = std::string(I.getOpcodeName());
        o["ty"] = tyStr(I.getType());
        if (auto* ity = dyn_cast<IntegerType>(I.getType())) o["w"] = (int64_t)ity->getBitWidth();
        o["loc"] = location(I);
        if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
            APInt off(64, 0);
            MapVector<Value*, APInt> var;
            if (gep->collectOffset(DL, 64, var, off)) {
                o["base"] = operand(gep->getPointerOperand());
                o["off"] = off.getSExtValue();
                json::Array vs;
                for (auto& p : var) vs.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
                o["var"] = std::move(vs);
                return o;
            }
        }
        if (auto* phi = dyn_cast<PHINode>(&I)) {
            json::Array in;
            for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
                in.push_back(json::Array{bids[phi->getIncomingBlock(i)], operand(phi->getIncomingValue(i))});
            o["in"] = std::move(in);
            return o;
        }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
            json::Array args;
            for (auto& a : cb->args()) args.push_back(operand(a.get()));
            o["args"] = std::move(args);
            if (cb->hasStructRetAttr()) o["sret"] = true;
            if (cb->doesNotThrow()) o["nounwind"] = true;
            if (cb->onlyReadsMemory()) o["ro"] = true;
            { json::Array roa; for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->onlyReadsMemory(i)) roa.push_back((int64_t)i); if (!roa.empty()) o["roargs"] = std::move(roa); }
            if (cb->doesNotReturn()) o["noreturn"] = true;
            if (auto* ii = dyn_cast<IntrinsicInst>(cb)) o["intrinsic"] = Intrinsic::getBaseName(ii->getIntrinsicID()).str();
            const Value* callee = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
            if (auto* f = dyn_cast<Function>(callee)) {
                usedFns.insert(f->getName().str());
                o["callee"] = f->getName().str();
            } else {
                o["indirect"] = operand(cb->getCalledOperand());
            }
            if (auto* inv = dyn_cast<InvokeInst>(cb)) {
                o["normal"] = bids[inv->getNormalDest()];
                o["unwind"] = bids[inv->getUnwindDest()];
            }
            return o;
        }
        if (auto* cmp = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()).str();
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            json::Array cases;
            for (auto& c : sw->cases()) cases.push_back(json::Array{apint(c.getCaseValue()->getValue()), bids[c.getCaseSuccessor()]});
            o["cond"] = operand(sw->getCondition());
            o["cases"] = std::move(cases);
            o["default"] = bids[sw->getDefaultDest()];
            return o;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for (unsigned i = 0; i < br->getNumSuccessors(); i++) s.push_back(bids[br->getSuccessor(i)]);  // [true, false]
            o["succ"] = std::move(s);
            if (br->isConditional()) o["cond"] = operand(br->getCondition());
            return o;
        }
        if (auto* al = dyn_cast<AllocaInst>(&I)) {
            o["alloc"] = tyStr(al->getAllocatedType());
            if (auto sz = al->getAllocationSize(DL)) o["size"] = (int64_t)sz->getFixedValue();
        }
        if (auto* st = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); o["vty"] = tyStr(st->getValueOperand()->getType()); o["align"] = (int64_t)st->getAlign().value(); }
        if (auto* ld = dyn_cast<LoadInst>(&I)) { o["size"] = (int64_t)DL.getTypeStoreSize(ld->getType()).getFixedValue(); o["align"] = (int64_t)ld->getAlign().value(); }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
        if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = lp->isCleanup();
            json::Array cl;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) cl.push_back(operand(lp->getClause(i)));
            o["clauses"] = std::move(cl);
            return o;
        }
        if (I.isIntDivRem() || isa<OverflowingBinaryOperator>(&I)) {
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
        }
        json::Array ops;
        for (auto& op : I.operands()) ops.push_back(operand(op.get()));
        o["ops"] = std::move(ops);
        return o;
    }

    json::Value function(Function& F)
    {
        ids.clear(); bids.clear();
        int n = 0, b = 0;
        for (auto& BB : F) { bids[&BB] = b++; for (auto& I : BB) ids[&I] = n++; }
        json::Object o;
        o["name"] = F.getName().str();
        if (auto* sp = F.getSubprogram()) {
            std::string file = sp->getFilename().str();
            if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
            o["file"] = file; o["line"] = (int64_t)sp->getLine();
        }
        json::Array args;
        for (auto& a : F.args()) {
            json::Object ao; ao["ty"] = tyStr(a.getType());
            if (a.hasStructRetAttr()) ao["sret"] = true;
            if (a.hasByValAttr()) ao["byval"] = true;
            args.push_back(std::move(ao));
        }
        o["args"] = std::move(args);
        o["ret"] = tyStr(F.getReturnType());
        json::Array blocks;
        for (auto& BB : F) {
            json::Array is;
            for (auto& I : BB) {
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                    if (isa<DbgInfoIntrinsic>(ii) || ii->isLifetimeStartOrEnd() || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
                }
                is.push_back(instr(I));
            }
            blocks.push_back(std::move(is));
        }
        o["blocks"] = std::move(blocks);
        return o;
    }

    json::Value initializer(const Constant* c)
    {
        if (auto* cda = dyn_cast<ConstantDataSequential>(c)) {
            if (cda->getElementType()->isIntegerTy()) {
                json::Array a;
                for (unsigned i = 0; i < cda->getNumElements(); i++) a.push_back((int64_t)cda->getElementAsAPInt(i).getZExtValue());
                return json::Array{"data", (int64_t)cda->getElementByteSize(), std::move(a)};
            }
        }
        if (isa<ConstantAggregate>(c)) {
            json::Array ops;
            const StructLayout* sl = nullptr;
            if (auto* st = dyn_cast<StructType>(c->getType())) sl = DL.getStructLayout(st);
            unsigned i = 0;
            for (auto& o : c->operands()) {
                auto* cc = cast<Constant>(o.get());
                int64_t off = sl ? (int64_t)sl->getElementOffset(i).getFixedValue() : (int64_t)(i * DL.getTypeAllocSize(cc->getType()).getFixedValue());
                ops.push_back(json::Array{off, initializer(cc)});
                i++;
            }
            return json::Array{"struct", std::move(ops)};
        }
        return constant(c);
    }
};

int main(int argc, char** argv)
{
    if (argc < 4) { errs() << "usage: irdump IN.bc RULES OUT.json [PIPELINE]\n"; return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    std::vector<std::shared_ptr<Regex>> rootRes, vtableRes;
    std::ifstream rf(argv[2]);
    std::string line;
    while (std::getline(rf, line)) {
        if (line.empty() || line[0] == '#') continue;
        auto sp = line.find(' ');
        std::string kind = line.substr(0, sp), pat = line.substr(sp + 1);
        auto re = std::make_shared<Regex>(pat);
        std::string e;
        if (!re->isValid(e)) { errs() << "bad regex " << pat << ": " << e << "\n"; return 2; }
        if (kind == "root") rootRes.push_back(re);
        else if (kind == "vtable") vtableRes.push_back(re);
        else rules.push_back({kind == "inline", pat, re});
    }

    json::Object out;
    // pre-inlining inventory: every function definition with its direct callees, every global
    {
        json::Object fns;
        for (auto& F : *M) {
            json::Object o;
            auto& n = nameInfo(F.getName());
            o["full"] = n.full; o["qual"] = n.qual; o["base"] = n.base; o["ctx"] = n.ctx; o["params"] = n.params;
            o["decl"] = F.isDeclaration();
            o["linkage"] = (int64_t)F.getLinkage();
            if (auto* sp = F.getSubprogram()) {
                std::string file = sp->getFilename().str();
                if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
                o["file"] = file; o["line"] = (int64_t)sp->getLine();
            }
            json::Array callees; std::set<std::string> seen;
            json::Array globs; std::set<std::string> gseen;
            for (auto& I : instructions(F)) {
                if (auto* cb = dyn_cast<CallBase>(&I)) {
                    const Value* callee = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
                    if (auto* f = dyn_cast<Function>(callee)) {
                        if (seen.insert(f->getName().str()).second) {
                            int64_t ln = I.getDebugLoc() ? I.getDebugLoc()->getLine() : 0;
                            callees.push_back(json::Array{f->getName().str(), ln});
                        }
                    }
                }
                // globals touched: (name, how)
                std::vector<const Value*> work; 
                for (auto& op : I.operands()) work.push_back(op.get());
                for (size_t k = 0; k < work.size(); k++) {
                    if (auto* g = dyn_cast<GlobalVariable>(work[k])) {
                        std::string how = "use";
                        if (auto* st = dyn_cast<StoreInst>(&I)) { if (getUnderlyingObject(st->getPointerOperand()) == g) how = "store"; }
                        else if (isa<LoadInst>(&I)) how = "load";
                        else if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) how = "atomic";
                        if (gseen.insert(g->getName().str() + "/" + how).second) {
                            int64_t ln = I.getDebugLoc() ? I.getDebugLoc()->getLine() : 0;
                            globs.push_back(json::Array{g->getName().str(), how, ln});
                        }
                    } else if (auto* ce = dyn_cast<ConstantExpr>(work[k])) {
                        for (auto& op : ce->operands()) work.push_back(op.get());
                    }
                }
            }
            o["calls"] = std::move(callees);
            o["globals"] = std::move(globs);
            fns[F.getName().str()] = std::move(o);
        }
        out["functions"] = std::move(fns);
        json::Object gl;
        for (auto& G : M->globals()) {
            json::Object o;
            auto& n = nameInfo(G.getName());
            o["full"] = n.full;
            o["const"] = G.isConstant();
            if (G.getValueType()->isSized()) o["size"] = (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue();
            o["tls"] = G.isThreadLocal();
            o["decl"] = G.isDeclaration();
            o["linkage"] = (int64_t)G.getLinkage();
            SmallVector<DIGlobalVariableExpression*> gvs; G.getDebugInfo(gvs);
            if (!gvs.empty()) {
                auto* dv = gvs[0]->getVariable();
                std::string file = dv->getFilename().str();
                if (!file.empty() && file[0] != '/') file = dv->getDirectory().str() + "/" + file;
                o["file"] = file; o["line"] = (int64_t)dv->getLine(); o["dname"] = dv->getName().str();
            }
            gl[G.getName().str()] = std::move(o);
        }
        out["all_globals"] = std::move(gl);
    }

    // additional roots: functions matching a "root" rule, and the entries of vtables matching a "vtable"
    // rule; each is analysed as a copy named vroot_fn_<mangled name>, so the original can still be inlined
    std::vector<const GlobalVariable*> vtables;
    {
        std::vector<Function*> extra;
        for (auto& F : *M) {
            if (F.isDeclaration()) continue;
            for (auto& re : rootRes) if (re->match(nameInfo(F.getName()).full)) { extra.push_back(&F); break; }
        }
        for (auto& G : M->globals()) {
            if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
            bool hit = false;
            for (auto& re : vtableRes) if (re->match(nameInfo(G.getName()).full)) hit = true;
            if (!hit) continue;
            vtables.push_back(&G);
            std::vector<const Constant*> work{G.getInitializer()};
            while (!work.empty()) {
                auto* c = work.back(); work.pop_back();
                if (auto* f = dyn_cast<Function>(c)) { if (!f->isDeclaration()) extra.push_back(const_cast<Function*>(f)); continue; }
                if (isa<GlobalVariable>(c)) continue;
                for (auto& op : c->operands()) if (auto* oc = dyn_cast<Constant>(op.get())) work.push_back(oc);
            }
        }
        std::set<Function*> done;
        for (auto* F : extra) {
            if (!done.insert(F).second || F->getName().starts_with("vroot_")) continue;
            ValueToValueMapTy vm;
            Function* N = CloneFunction(F, vm);
            N->setName("vroot_fn_" + F->getName().str());
            N->setLinkage(GlobalValue::ExternalLinkage);
            N->setComdat(nullptr);
        }
    }

    for (auto& F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        if (F.getName().starts_with("vroot_")) { F.addFnAttr(Attribute::NoInline); continue; }
        if (decide(F.getName()) == 1) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline);
    }

    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    std::string pipeline = argc > 4 ? argv[4] : "";
    if (!pipeline.empty()) {
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, pipeline)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }

    Dumper d(*M);
    for (auto* g : vtables) d.usedGlobals.insert(g);
    json::Array roots;
    for (auto& F : *M)
        if (!F.isDeclaration() && F.getName().starts_with("vroot_")) roots.push_back(d.function(F));
    out["roots"] = std::move(roots);
    json::Object globals;
    // transitive closure over initializers
    std::set<const GlobalVariable*> done;
    while (true) {
        std::vector<const GlobalVariable*> todo;
        for (auto* g : d.usedGlobals) if (!done.count(g)) todo.push_back(g);
        if (todo.empty()) break;
        for (auto* g : todo) {
            done.insert(g);
            json::Object o;
            o["const"] = g->isConstant();
            if (g->hasInitializer()) o["init"] = d.initializer(g->getInitializer());
            globals[g->getName().str()] = std::move(o);
        }
    }
    out["globals"] = std::move(globals);
    json::Object names;
    for (auto& f : d.usedFns) {
        auto& n = nameInfo(f);
        names[f] = json::Object{{"full", n.full}, {"qual", n.qual}, {"base", n.base}, {"ctx", n.ctx}, {"params", n.params}};
    }
    out["names"] = std::move(names);
    std::error_code ec;
    raw_fd_ostream os(argv[3], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << json::Value(std::move(out));
    return 0;
}
