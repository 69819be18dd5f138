// irx: normalise LLVM bitcode produced from a driver translation unit and
// export functions, control flow, memory accesses and debug types as JSON.
//
// Normalisation = inline every function with a body (except "kept" ones),
// promote memory to registers, fold constants.  This makes the exported graph
// independent of how the source splits the work over helpers, the order of
// independent statements, local variable names, loop spelling and so on.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static cl::opt<std::string> Input(cl::Positional, cl::Required);
static cl::opt<std::string> Output("o", cl::init("-"));
static cl::opt<std::string> DumpLL("dump-ll", cl::init(""));
static cl::list<std::string> Keep("keep", cl::desc("regex on demangled name: never inline"));
static cl::list<std::string> Entry("entry", cl::desc("regex on symbol/demangled name: export"));
static cl::opt<bool> VTables("vtables", cl::init(false),
    cl::desc("also export the functions which vtables refer to"));
static cl::opt<std::string> Pipeline("pipeline", cl::init(""));
static cl::opt<bool> NoTypes("no-types", cl::init(false));

static std::string dem(StringRef N) { return demangle(N.str()); }

static bool matchAny(std::vector<Regex> & Rs, StringRef A, StringRef B) {
    for (auto & R : Rs)
        if (R.match(A) || R.match(B)) return true;
    return false;
}

struct TypeTable {
    std::map<DIType const *, int> ids;
    std::vector<DIType const *> order;
    int get(DIType const * T) {
        if (!T) return -1;
        auto it = ids.find(T);
        if (it != ids.end()) return it->second;
        int id = (int)order.size();
        ids[T] = id;
        order.push_back(T);
        return id;
    }
};

static std::string scopeName(DIScope const * S) {
    std::string r;
    if (!S) return r;
    if (auto const * NS = dyn_cast<DINamespace>(S)) {
        r = scopeName(NS->getScope());
        if (!r.empty()) r += "::";
        r += NS->getName().empty() ? "(anonymous)" : NS->getName().str();
    } else if (auto const * T = dyn_cast<DICompositeType>(S)) {
        r = scopeName(T->getScope());
        if (!r.empty()) r += "::";
        r += T->getName().empty() ? "(unnamed)" : T->getName().str();
    } else if (auto const * SP = dyn_cast<DISubprogram>(S)) {
        r = scopeName(SP->getScope());
        if (!r.empty()) r += "::";
        r += SP->getName().str();
    } else if (auto const * LB = dyn_cast<DILexicalBlockBase>(S)) {
        return scopeName(LB->getScope());
    }
    return r;
}

int main(int argc, char ** argv) {
    cl::ParseCommandLineOptions(argc, argv);
    // Switch off speculation and code sinking, to keep control flow as written.
    {
        auto & opts = cl::getRegisteredOptions();
        auto set = [&](char const * n, char const * v) {
            auto it = opts.find(n);
            if (it == opts.end()) { errs() << "irx: no option " << n << "\n"; exit(3); }
            it->second->addOccurrence(0, n, v);
        };
        set("phi-node-folding-threshold", "0");
        set("two-entry-phi-node-folding-threshold", "0");
        set("speculate-one-expensive-inst", "false");
        set("bonus-inst-threshold", "0");
        set("jump-threading-threshold", "60");
        set("hoist-common-insts", "false");
        set("sink-common-insts", "false");
        set("simplifycfg-merge-cond-stores", "false");
        set("simplifycfg-hoist-cond-stores", "false");
        set("memdep-block-scan-limit", "2000");
        set("available-load-scan-limit", "60");
    }

    LLVMContext C;
    C.setDiscardValueNames(false);
    SMDiagnostic Err;
    auto M = parseIRFile(Input, Err, C);
    if (!M) { Err.print("irx", errs()); return 3; }

    std::vector<Regex> keepR, entryR;
    for (auto & k : Keep) keepR.emplace_back(k);
    for (auto & k : Entry) entryR.emplace_back(k);

    // 1. Model attributes on vp_ functions.
    for (Function & F : *M) {
        if (F.isDeclaration() && (F.getName().starts_with("vp_") )) {
            // vp_x... = fully opaque; everything else only touches memory
            // the program cannot see.
            if (!F.getName().starts_with("vp_x_") && !F.getName().starts_with("vp_xt_")) {
                F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
                for (auto & A : F.args())
                    if (A.getType()->isPointerTy())
                        A.addAttr(Attribute::NoCapture);
                // Functions named vp_t_* may throw; all other ones do not.
                if (!F.getName().starts_with("vp_t_"))
                    F.setDoesNotThrow();
                F.addFnAttr(Attribute::WillReturn);
            }
        }
    }

    // Calls of an alias (complete-object constructor) are calls of what it stands for.
    for (GlobalAlias & A : M->aliases())
        if (auto * F = dyn_cast<Function>(A.getAliaseeObject()))
            if (!F->isDeclaration() && A.getAliasee() == F) A.replaceAllUsesWith(F);

    // Virtual functions count as entry points when asked for.
    std::set<Function const *> vt;
    if (VTables)
        for (GlobalVariable & G : M->globals())
            if (G.getName().starts_with("_ZTV") && G.hasInitializer()) {
                std::vector<Constant const *> st{G.getInitializer()};
                while (!st.empty()) {
                    Constant const * c = st.back();
                    st.pop_back();
                    if (auto const * GA = dyn_cast<GlobalAlias>(c)) c = GA->getAliaseeObject();
                    if (auto const * F = dyn_cast<Function>(c)) {
                        if (!F->isDeclaration()) vt.insert(F);
                        continue;
                    }
                    if (isa<GlobalVariable>(c)) continue;
                    for (auto const & o : c->operands())
                        if (auto const * oc = dyn_cast<Constant>(&o)) st.push_back(oc);
                }
            }
    auto isEntry = [&](Function const & F) {
        return vt.count(&F) || matchAny(entryR, dem(F.getName()), F.getName());
    };

    // 2. Inline everything defined, except kept functions.
    // Recursive functions are left alone by the inliner.
    std::set<Function *> keepSet;
    for (Function & F : *M) {
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::InlineHint);
        F.removeFnAttr(Attribute::MinSize);
        F.removeFnAttr(Attribute::OptimizeForSize);
        if (F.isDeclaration()) continue;
        std::string d = dem(F.getName());
        if (matchAny(keepR, d, F.getName())) {
            keepSet.insert(&F);
            F.addFnAttr(Attribute::NoInline);
        } else if (!isEntry(F)) {
            F.addFnAttr(Attribute::AlwaysInline);
        }
    }
    // Never inline directly or mutually recursive functions.
    {
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
            if (!it.hasCycle()) continue;
            for (CallGraphNode * N : *it)
                if (Function * F = N->getFunction())
                    if (F->hasFnAttribute(Attribute::AlwaysInline)) {
                        F->removeFnAttr(Attribute::AlwaysInline);
                        F->addFnAttr(Attribute::NoInline);
                    }
        }
    }
    // Make sure that linkonce functions which are exported survive.
    std::vector<GlobalValue *> used;
    for (Function & F : *M) {
        if (F.isDeclaration()) continue;
        if (isEntry(F)) {
            used.push_back(&F);
        }
    }
    appendToUsed(*M, used);

    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string pl = Pipeline;
    if (pl.empty())
        pl = "function(lower-expect,sroa,early-cse,simplifycfg),"
             "always-inline,globaldce,"
             "function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
             "simplifycfg,sccp,jump-threading,correlated-propagation,simplifycfg),"
             "cgscc(function-attrs),rpo-function-attrs,"
             // Calls whose targets only became known now (virtual calls and
             // function pointers that were resolved): inline these as well.
             "always-inline,cgscc(function-attrs),"
             "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
             "gvn<no-pre;no-load-pre>,sccp,jump-threading,correlated-propagation,"
             "instcombine<no-verify-fixpoint>,simplifycfg,adce,simplifycfg),"
             "always-inline,cgscc(function-attrs),"
             "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
             "gvn<no-pre;no-load-pre>,sccp,jump-threading,correlated-propagation,"
             "instcombine<no-verify-fixpoint>,simplifycfg,adce,simplifycfg,prune-eh-placeholder)";
    {
        auto p = pl.find(",prune-eh-placeholder");
        if (p != std::string::npos) pl.erase(p, strlen(",prune-eh-placeholder"));
    }
    if (auto E = PB.parsePassPipeline(MPM, pl)) {
        errs() << "irx: pipeline: " << toString(std::move(E)) << "\n";
        return 3;
    }
    MPM.run(*M, MAM);
    if (!DumpLL.empty()) {
        std::error_code EC;
        raw_fd_ostream os(DumpLL, EC);
        M->print(os, nullptr);
    }

    // 3. Export.
    std::error_code EC;
    raw_fd_ostream OS(Output, EC);
    if (EC) { errs() << EC.message() << "\n"; return 3; }
    json::OStream J(OS);
    DataLayout const & DL = M->getDataLayout();
    TypeTable TT;

    J.objectBegin();
    J.attributeBegin("functions");
    J.arrayBegin();
    for (Function & F : *M) {
        if (F.isDeclaration()) continue;
        std::string d = dem(F.getName());
        if (!isEntry(F)) continue;
        std::map<Value const *, int> ids;
        std::map<BasicBlock const *, int> bids;
        int n = 0, bn = 0;
        for (auto & A : F.args()) ids[&A] = n++;
        // Blocks in reverse post order, so that ids are stable and topological.
        for (auto & B : F) bids[&B] = bn++;
        for (auto & B : F) for (auto & I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            ids[&I] = n++;
        }
        std::function<json::Value(Value const *)> opnd = [&](Value const * V) -> json::Value {
            auto it = ids.find(V);
            if (it != ids.end()) return it->second;
            if (auto const * CI = dyn_cast<ConstantInt>(V)) {
                if (CI->getBitWidth() <= 64)
                    return json::Object{{"k", "int"}, {"v", CI->getBitWidth() == 1 ? (int64_t) CI->getZExtValue() : CI->getSExtValue()},
                                        {"w", (int)CI->getBitWidth()}};
                SmallString<40> s; CI->getValue().toStringSigned(s);
                return json::Object{{"k", "bigint"}, {"v", s.str().str()},
                                    {"w", (int)CI->getBitWidth()}};
            }
            if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "null"}};
            if (isa<UndefValue>(V)) return json::Object{{"k", isa<PoisonValue>(V) ? "poison" : "undef"}};
            if (auto const * GA = dyn_cast<GlobalAlias>(V)) V = GA->getAliasee();
            if (auto const * GV = dyn_cast<GlobalValue>(V))
                return json::Object{{"k", "global"}, {"n", GV->getName().str()}};
            if (auto const * BB = dyn_cast<BasicBlock>(V))
                return json::Object{{"k", "bb"}, {"b", bids[BB]}};
            if (auto const * GO = dyn_cast<GEPOperator>(V)) {
                APInt off(64, 0);
                if (GO->accumulateConstantOffset(DL, off))
                    return json::Object{{"k", "cgep"}, {"base", opnd(GO->getPointerOperand())},
                                        {"off", off.getSExtValue()}};
            }
            if (auto const * CFP = dyn_cast<ConstantFP>(V)) {
                SmallString<40> s; CFP->getValueAPF().toString(s);
                return json::Object{{"k", "fp"}, {"v", s.str().str()}};
            }
            if (isa<ConstantAggregateZero>(V)) return json::Object{{"k", "zero"}};
            if (isa<MetadataAsValue>(V)) return json::Object{{"k", "meta"}};
            std::string s; raw_string_ostream so(s); V->print(so);
            return json::Object{{"k", "other"}, {"s", so.str()}};
        };
        J.objectBegin();
        J.attribute("name", F.getName());
        J.attribute("dem", d);
        J.attribute("nounwind", F.doesNotThrow());
        J.attribute("virt", vt.count(&F) != 0);
        J.attributeBegin("args");
        J.arrayBegin();
        {
            DISubprogram * SP = F.getSubprogram();
            std::vector<DIType const *> ats;
            if (SP && SP->getType()) {
                auto arr = SP->getType()->getTypeArray();
                for (unsigned i = 1; i < arr.size(); ++i) ats.push_back(arr[i]);
            }
            unsigned sret = 0;
            for (auto & A : F.args()) if (A.hasStructRetAttr()) ++sret;
            unsigned i = 0;
            for (auto & A : F.args()) {
                int t = -1;
                bool isSret = A.hasStructRetAttr();
                if (!isSret && i - sret < ats.size() && F.arg_size() - sret == ats.size())
                    t = TT.get(ats[i - sret]);
                J.objectBegin();
                J.attribute("id", ids[&A]);
                J.attribute("t", t);
                J.attribute("sret", isSret);
                J.attribute("name", A.getName());
                {
                    std::string ts;
                    raw_string_ostream so(ts);
                    A.getType()->print(so);
                    J.attribute("ty", so.str());
                }
                J.objectEnd();
                ++i;
            }
        }
        J.arrayEnd();
        J.attributeEnd();
        // Local variable types for allocas.
        std::map<Value const *, DIType const *> allocaTypes;
        std::map<Value const *, std::string> allocaNames;
        for (auto & I : instructions(F))
            if (auto * DD = dyn_cast<DbgDeclareInst>(&I))
                if (auto * A = dyn_cast_or_null<AllocaInst>(DD->getAddress())) {
                    auto * T = DD->getVariable()->getType();
                    // prefer the biggest whole-variable description
                    if (DD->getExpression()->getNumElements() == 0) {
                        allocaTypes[A] = T;
                        allocaNames[A] = DD->getVariable()->getName().str();
                    }
                }
        J.attributeBegin("blocks");
        J.arrayBegin();
        for (auto & B : F) {
            J.objectBegin();
            J.attribute("id", bids[&B]);
            J.attributeBegin("insts");
            J.arrayBegin();
            for (auto & I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                J.objectBegin();
                J.attribute("id", ids[&I]);
                J.attribute("op", I.getOpcodeName());
                if (!I.getType()->isVoidTy()) {
                    std::string s; raw_string_ostream so(s); I.getType()->print(so);
                    J.attribute("ty", so.str());
                }
                auto ops = [&](auto range) {
                    J.attributeBegin("ops"); J.arrayBegin();
                    for (auto & O : range) J.value(opnd(O));
                    J.arrayEnd(); J.attributeEnd();
                };
                auto sizeOf = [&](Type * T) -> int64_t {
                    if (!T->isSized()) return -1;
                    return (int64_t)DL.getTypeStoreSize(T).getFixedValue();
                };
                if (auto * L = dyn_cast<LoadInst>(&I)) {
                    J.attribute("ptr", opnd(L->getPointerOperand()));
                    J.attribute("size", sizeOf(L->getType()));
                    J.attribute("align", (int64_t)L->getAlign().value());
                    if (L->isAtomic()) J.attribute("ord", toIRString(L->getOrdering()));
                    J.attribute("vol", L->isVolatile());
                } else if (auto * S = dyn_cast<StoreInst>(&I)) {
                    J.attribute("ptr", opnd(S->getPointerOperand()));
                    J.attribute("val", opnd(S->getValueOperand()));
                    J.attribute("size", sizeOf(S->getValueOperand()->getType()));
                    J.attribute("align", (int64_t)S->getAlign().value());
                    if (S->isAtomic()) J.attribute("ord", toIRString(S->getOrdering()));
                } else if (auto * R = dyn_cast<AtomicRMWInst>(&I)) {
                    J.attribute("ptr", opnd(R->getPointerOperand()));
                    J.attribute("val", opnd(R->getValOperand()));
                    J.attribute("size", sizeOf(R->getValOperand()->getType()));
                    J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()));
                    J.attribute("ord", toIRString(R->getOrdering()));
                } else if (auto * X = dyn_cast<AtomicCmpXchgInst>(&I)) {
                    J.attribute("ptr", opnd(X->getPointerOperand()));
                    J.attribute("cmp", opnd(X->getCompareOperand()));
                    J.attribute("val", opnd(X->getNewValOperand()));
                    J.attribute("size", sizeOf(X->getNewValOperand()->getType()));
                    J.attribute("ord", toIRString(X->getSuccessOrdering()));
                    J.attribute("ordf", toIRString(X->getFailureOrdering()));
                    J.attribute("weak", X->isWeak());
                } else if (auto * Fe = dyn_cast<FenceInst>(&I)) {
                    J.attribute("ord", toIRString(Fe->getOrdering()));
                } else if (auto * G = dyn_cast<GetElementPtrInst>(&I)) {
                    J.attribute("base", opnd(G->getPointerOperand()));
                    unsigned bw = DL.getIndexTypeSizeInBits(G->getType());
                    MapVector<Value *, APInt> vo; APInt co(bw, 0);
                    if (G->collectOffset(DL, bw, vo, co)) {
                        J.attribute("off", co.getSExtValue());
                        J.attributeBegin("var"); J.arrayBegin();
                        for (auto & p : vo) {
                            J.arrayBegin(); J.value(opnd(p.first)); J.value(p.second.getSExtValue()); J.arrayEnd();
                        }
                        J.arrayEnd(); J.attributeEnd();
                    }
                    J.attribute("inbounds", G->isInBounds());
                } else if (auto * P = dyn_cast<PHINode>(&I)) {
                    J.attributeBegin("in"); J.arrayBegin();
                    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                        J.arrayBegin();
                        J.value(opnd(P->getIncomingValue(i)));
                        J.value(bids[P->getIncomingBlock(i)]);
                        J.arrayEnd();
                    }
                    J.arrayEnd(); J.attributeEnd();
                } else if (auto * CB = dyn_cast<CallBase>(&I)) {
                    Value * CV = CB->getCalledOperand()->stripPointerCasts();
                    if (auto * GA = dyn_cast<GlobalAlias>(CV)) CV = GA->getAliaseeObject();
                    if (auto * CF = dyn_cast<Function>(CV)) {
                        J.attribute("callee", CF->getName());
                        J.attribute("cdem", dem(CF->getName()));
                        J.attribute("calleedef", !CF->isDeclaration());
                        if (CF->isIntrinsic()) J.attribute("intr", true);
                    } else if (isa<InlineAsm>(CV)) {
                        J.attribute("asm", true);
                    } else {
                        J.attribute("fnptr", opnd(CV));
                    }
                    J.attribute("nounwind", CB->doesNotThrow());
                    J.attribute("noreturn", CB->doesNotReturn());
                    ops(CB->args());
                    if (auto * Inv = dyn_cast<InvokeInst>(CB)) {
                        J.attribute("normal", bids[Inv->getNormalDest()]);
                        J.attribute("unwind", bids[Inv->getUnwindDest()]);
                    }
                } else if (auto * Br = dyn_cast<BranchInst>(&I)) {
                    if (Br->isConditional()) {
                        J.attribute("cond", opnd(Br->getCondition()));
                        J.attribute("t", bids[Br->getSuccessor(0)]);
                        J.attribute("f", bids[Br->getSuccessor(1)]);
                    } else J.attribute("t", bids[Br->getSuccessor(0)]);
                } else if (auto * Sw = dyn_cast<SwitchInst>(&I)) {
                    J.attribute("cond", opnd(Sw->getCondition()));
                    J.attribute("def", bids[Sw->getDefaultDest()]);
                    J.attributeBegin("cases"); J.arrayBegin();
                    for (auto & c : Sw->cases()) {
                        J.arrayBegin(); J.value(opnd(c.getCaseValue()));
                        J.value(bids[c.getCaseSuccessor()]); J.arrayEnd();
                    }
                    J.arrayEnd(); J.attributeEnd();
                } else if (auto * Cmp = dyn_cast<CmpInst>(&I)) {
                    J.attribute("pred", CmpInst::getPredicateName(Cmp->getPredicate()));
                    ops(Cmp->operands());
                } else if (auto * LP = dyn_cast<LandingPadInst>(&I)) {
                    J.attribute("cleanup", LP->isCleanup());
                    J.attributeBegin("clauses"); J.arrayBegin();
                    for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
                        J.objectBegin();
                        J.attribute("catch", LP->isCatch(i));
                        J.attribute("ti", opnd(LP->getClause(i)));
                        J.objectEnd();
                    }
                    J.arrayEnd(); J.attributeEnd();
                } else if (auto * A = dyn_cast<AllocaInst>(&I)) {
                    J.attribute("size", sizeOf(A->getAllocatedType()));
                    auto it = allocaTypes.find(A);
                    if (it != allocaTypes.end()) {
                        J.attribute("t", TT.get(it->second));
                        J.attribute("var", allocaNames[A]);
                    }
                } else if (auto * EV = dyn_cast<ExtractValueInst>(&I)) {
                    J.attribute("idx", (int)EV->getIndices()[0]);
                    ops(EV->operands());
                } else {
                    ops(I.operands());
                }
                if (DebugLoc const & D = I.getDebugLoc()) {
                    J.attributeBegin("loc");
                    J.arrayBegin();
                    for (DILocation const * L = D.get(); L; L = L->getInlinedAt()) {
                        J.arrayBegin();
                        J.value(L->getFilename());
                        J.value((int64_t)L->getLine());
                        DISubprogram const * SP = L->getScope()->getSubprogram();
                        std::string sn = SP ? scopeName(SP->getScope()) : "";
                        J.value(SP ? (sn.empty() ? SP->getName().str() : sn + "::" + SP->getName().str()) : "");
                        J.arrayEnd();
                    }
                    J.arrayEnd();
                    J.attributeEnd();
                }
                J.objectEnd();
            }
            J.arrayEnd();
            J.attributeEnd();
            J.attributeBegin("succs");
            J.arrayBegin();
            for (BasicBlock const * S : successors(&B)) J.value(bids[S]);
            J.arrayEnd();
            J.attributeEnd();
            J.objectEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
        J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();

    // Globals which are constants (vtables, strings): names only, plus
    // initialisers of small integer/pointer arrays are not needed.
    J.attributeBegin("types");
    J.arrayBegin();
    if (!NoTypes)
    for (size_t i = 0; i < TT.order.size(); ++i) {
        DIType const * T = TT.order[i];
        J.objectBegin();
        J.attribute("id", (int)i);
        J.attribute("name", T->getName());
        J.attribute("size", (int64_t)(T->getSizeInBits() / 8));
        if (auto * D = dyn_cast<DIDerivedType>(T)) {
            J.attribute("kind", dwarf::TagString(D->getTag()));
            J.attribute("base", TT.get(D->getBaseType()));
        } else if (auto * Cc = dyn_cast<DICompositeType>(T)) {
            J.attribute("kind", dwarf::TagString(Cc->getTag()));
            std::string sn = scopeName(Cc->getScope());
            J.attribute("qname", sn.empty() ? Cc->getName().str() : sn + "::" + Cc->getName().str());
            J.attribute("decl", Cc->isForwardDecl());
            J.attribute("mangled", Cc->getIdentifier());
            if (Cc->getTag() == dwarf::DW_TAG_array_type) {
                J.attribute("base", TT.get(Cc->getBaseType()));
            } else {
                J.attributeBegin("elems");
                J.arrayBegin();
                for (auto * E : Cc->getElements()) {
                    auto * DE = dyn_cast_or_null<DIDerivedType>(E);
                    if (!DE) continue;
                    if (DE->getTag() != dwarf::DW_TAG_member && DE->getTag() != dwarf::DW_TAG_inheritance)
                        continue;
                    if (DE->isStaticMember()) continue;
                    J.objectBegin();
                    J.attribute("name", DE->getName());
                    J.attribute("inh", DE->getTag() == dwarf::DW_TAG_inheritance);
                    J.attribute("virt", (DE->getFlags() & DINode::FlagVirtual) != 0);
                    J.attribute("off", (int64_t)(DE->getOffsetInBits() / 8));
                    J.attribute("t", TT.get(DE->getBaseType()));
                    J.objectEnd();
                }
                J.arrayEnd();
                J.attributeEnd();
            }
        } else if (isa<DIBasicType>(T)) {
            J.attribute("kind", "basic");
        } else {
            J.attribute("kind", "other");
        }
        J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("decls");
    J.arrayBegin();
    for (Function & F : *M) if (F.isDeclaration() && !F.isIntrinsic()) J.value(F.getName());
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    OS << "\n";
    return 0;
}
