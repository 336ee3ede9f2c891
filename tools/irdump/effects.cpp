// effects: dumps, per function of an LLVM module, what memory it may write and what it calls.
//
//   effects IN.bc OUT.json
//
// A pointer is traced to the objects it can be derived from: "g:NAME" a global, "a:K" parameter K, "?" anything else.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static void trace(const Value* v, std::set<std::string>& out, std::set<const Value*>& seen)
{
    v = v->stripPointerCasts();
    if (!seen.insert(v).second) return;
    if (auto* g = dyn_cast<GlobalVariable>(v)) { out.insert("g:" + g->getName().str()); return; }
    if (auto* a = dyn_cast<GlobalAlias>(v)) { trace(a->getAliaseeObject(), out, seen); return; }
    if (auto* a = dyn_cast<Argument>(v)) { out.insert("a:" + std::to_string(a->getArgNo())); return; }
    if (isa<AllocaInst>(v) || isa<ConstantPointerNull>(v) || isa<UndefValue>(v) || isa<Function>(v)) return;
    if (auto* o = dyn_cast<GEPOperator>(v)) { trace(o->getPointerOperand(), out, seen); return; }
    if (auto* o = dyn_cast<ConstantExpr>(v)) { for (auto& x : o->operands()) trace(x.get(), out, seen); return; }
    if (auto* o = dyn_cast<PHINode>(v)) { for (auto& x : o->incoming_values()) trace(x.get(), out, seen); return; }
    if (auto* o = dyn_cast<SelectInst>(v)) { trace(o->getTrueValue(), out, seen); trace(o->getFalseValue(), out, seen); return; }
    if (auto* o = dyn_cast<LoadInst>(v)) { trace(o->getPointerOperand(), out, seen); return; }
    if (auto* o = dyn_cast<ExtractValueInst>(v)) { trace(o->getAggregateOperand(), out, seen); return; }
    if (auto* o = dyn_cast<InsertValueInst>(v)) { trace(o->getAggregateOperand(), out, seen); trace(o->getInsertedValueOperand(), out, seen); return; }
    if (auto* o = dyn_cast<CallBase>(v)) {
        for (auto& x : o->args()) if (x->getType()->isPointerTy() || x->getType()->isAggregateType()) trace(x.get(), out, seen);
        return;
    }
    if (auto* o = dyn_cast<CastInst>(v)) { trace(o->getOperand(0), out, seen); return; }
    if (auto* o = dyn_cast<FreezeInst>(v)) { trace(o->getOperand(0), out, seen); return; }
}

static json::Array bases(const Value* v)
{
    std::set<std::string> s; std::set<const Value*> seen;
    trace(v, s, seen);
    json::Array a;
    for (auto& x : s) a.push_back(x);
    return a;
}

int main(int argc, char** argv)
{
    LLVMContext C; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if (!M) { err.print("effects", errs()); return 2; }
    for (auto& F : *M) F.removeFnAttr(Attribute::OptimizeNone);
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(lower-expect,sroa,early-cse)")) { errs() << toString(std::move(e)); return 2; }
    MPM.run(*M, MAM);

    json::Object out, fns, gl;
    for (auto& F : *M) {
        json::Object o;
        o["full"] = demangle(F.getName().str());
        o["decl"] = F.isDeclaration();
        o["taken"] = F.hasAddressTaken();
        if (F.hasSection()) o["section"] = F.getSection().str();
        if (auto* sp = F.getSubprogram()) {
            std::string file = sp->getFilename().str();
            if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
            o["file"] = file; o["line"] = (int64_t)sp->getLine();
        }
        json::Array ro;
        for (auto& A : F.args()) ro.push_back(A.onlyReadsMemory() || !A.getType()->isPointerTy());
        o["ro"] = std::move(ro);
        json::Array w, c, e;
        if (!F.isDeclaration()) {
            DominatorTree DT(F);
            std::vector<std::pair<const Instruction*, const Instruction*>> guards;
            std::vector<const Instruction*> acq, rel;
            for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* f = cb->getCalledFunction()) {
                if (f->getName() == "__cxa_guard_acquire") acq.push_back(&I);
                if (f->getName() == "__cxa_guard_release") rel.push_back(&I);
            }
            auto guarded = [&](const Instruction& I) {
                for (auto* a : acq) {
                    if (!DT.dominates(a, &I)) continue;
                    bool after = false;
                    for (auto* r : rel) if (cast<CallBase>(r)->getArgOperand(0) == cast<CallBase>(a)->getArgOperand(0) && DT.dominates(r, &I)) after = true;
                    // within the initialising branch: some release of the same guard is reachable only through it
                    bool before = false;
                    for (auto* r : rel) if (cast<CallBase>(r)->getArgOperand(0) == cast<CallBase>(a)->getArgOperand(0) && DT.dominates(&I, r)) before = true;
                    if (!after && before) return true;
                }
                return false;
            };
            for (auto& I : instructions(F)) {
                int64_t ln = I.getDebugLoc() ? (int64_t)I.getDebugLoc()->getLine() : 0;
                if (auto* s = dyn_cast<StoreInst>(&I)) {
                    auto b = bases(s->getPointerOperand());
                    if (!b.empty()) w.push_back(json::Array{std::move(b), ln, guarded(I), "store"});
                    if (s->getValueOperand()->getType()->isPointerTy()) {
                        auto b2 = bases(s->getValueOperand());
                        if (!b2.empty() && !isa<LoadInst>(s->getValueOperand()->stripPointerCasts())) e.push_back(json::Array{std::move(b2), ln, guarded(I)});
                    }
                } else if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) {
                    auto b = bases(I.getOperand(0));
                    if (!b.empty()) w.push_back(json::Array{std::move(b), ln, guarded(I), "atomic"});
                } else if (auto* mi = dyn_cast<MemIntrinsic>(&I)) {
                    auto b = bases(mi->getRawDest());
                    if (!b.empty()) w.push_back(json::Array{std::move(b), ln, guarded(I), "memory copy"});
                } else if (isa<DbgInfoIntrinsic>(&I) || isa<LifetimeIntrinsic>(&I)) {
                } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                    const Value* callee = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
                    auto* f = dyn_cast<Function>(callee);
                    json::Array as;
                    for (unsigned k = 0; k < cb->arg_size(); k++) {
                        auto* a = cb->getArgOperand(k);
                        if (a->getType()->isPointerTy()) as.push_back(json::Array{bases(a), cb->onlyReadsMemory(k) || cb->onlyReadsMemory()});
                        else as.push_back(nullptr);
                    }
                    c.push_back(json::Array{f ? json::Value(f->getName().str()) : json::Value(nullptr), std::move(as), ln, guarded(I)});
                }
            }
        }
        o["writes"] = std::move(w); o["calls"] = std::move(c); o["escapes"] = std::move(e);
        fns[F.getName().str()] = std::move(o);
    }
    for (auto& G : M->globals()) {
        json::Object o;
        o["full"] = demangle(G.getName().str());
        o["const"] = G.isConstant();
        o["tls"] = G.isThreadLocal();
        o["decl"] = G.isDeclaration();
        bool cq = false;
        SmallVector<DIGlobalVariableExpression*> gvs; G.getDebugInfo(gvs);
        if (!gvs.empty()) {
            auto* dv = gvs[0]->getVariable();
            std::string file = dv->getFilename().str();
            if (!file.empty() && file[0] != '/') file = dv->getDirectory().str() + "/" + file;
            o["file"] = file; o["line"] = (int64_t)dv->getLine();
            const DIType* t = dv->getType();
            while (t && t->getTag() == dwarf::DW_TAG_typedef) t = cast<DIDerivedType>(t)->getBaseType();
            if (t && t->getTag() == dwarf::DW_TAG_const_type) cq = true;
        }
        o["cq"] = cq;
        gl[G.getName().str()] = std::move(o);
    }
    out["functions"] = std::move(fns); out["globals"] = std::move(gl);
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    os << json::Value(std::move(out));
    return 0;
}
