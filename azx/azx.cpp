// azx: reads one LLVM module (all of /repo's translation units, linked), normalises it lightly
// (SROA only: locals become SSA values) and writes the repository's functions, and everything
// they can reach, as JSON for the analyses in /verif/az.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <vector>

using namespace llvm;
static const DataLayout* DL;

static bool
startsWithAny(StringRef s, const std::vector<std::string>& v)
{
    for (auto& p : v)
        if (s.starts_with(p))
            return true;
    return false;
}

static std::string
tyStr(Type* t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return s;
}

struct Fn
{
    std::map<const Value*, int> id;
    std::map<const BasicBlock*, int> bb;
};

static void
constVal(json::OStream& J, const Constant* C);

static void
gepParts(json::OStream& J, const GEPOperator* G, function_ref<void(const Value*)> emit)
{
    unsigned bits = DL->getIndexSizeInBits(0);
    MapVector<Value*, APInt> var;
    APInt off(bits, 0);
    if (!G->collectOffset(*DL, bits, var, off)) {
        J.value(nullptr);
        return;
    }
    J.arrayBegin();
    J.value(off.getSExtValue());
    J.arrayBegin();
    for (auto& kv : var) {
        J.arrayBegin();
        emit(kv.first);
        J.value(kv.second.getSExtValue());
        J.arrayEnd();
    }
    J.arrayEnd();
    J.arrayEnd();
}

static std::string
apStr(const APInt& v)
{
    SmallString<40> s;
    v.toString(s, 10, false);
    return std::string(s);
}

static void
constVal(json::OStream& J, const Constant* C)
{
    J.array([&] {
        if (auto* ci = dyn_cast<ConstantInt>(C)) {
            J.value("i");
            J.value((int64_t)ci->getBitWidth());
            if (ci->getBitWidth() <= 62)
                J.value((int64_t)ci->getZExtValue());
            else
                J.value(apStr(ci->getValue()));
        } else if (auto* cf = dyn_cast<ConstantFP>(C)) {
            J.value("f");
            J.value(tyStr(C->getType()));
            if (C->getType()->isDoubleTy())
                J.value(cf->getValueAPF().convertToDouble());
            else if (C->getType()->isFloatTy())
                J.value((double)cf->getValueAPF().convertToFloat());
            else
                J.value(0.0);
        } else if (isa<ConstantPointerNull>(C)) {
            J.value("n");
        } else if (isa<UndefValue>(C)) {
            J.value("u");
            J.value((int64_t)(C->getType()->isSized() ? (int64_t)DL->getTypeStoreSize(C->getType()).getFixedValue() : 0));
        } else if (auto* gv = dyn_cast<GlobalValue>(C)) {
            if (auto* ga = dyn_cast<GlobalAlias>(gv)) {
                if (auto* o = ga->getAliaseeObject())
                    gv = o;
            }
            J.value("g");
            J.value(gv->getName());
        } else if (auto* ce = dyn_cast<ConstantExpr>(C)) {
            if (auto* gep = dyn_cast<GEPOperator>(C)) {
                J.value("gep");
                constVal(J, cast<Constant>(gep->getPointerOperand()));
                gepParts(J, gep, [&](const Value* v) { constVal(J, cast<Constant>(v)); });
            } else {
                J.value("ce");
                J.value(ce->getOpcodeName());
                for (auto& o : ce->operands())
                    constVal(J, cast<Constant>(o));
            }
        } else if (isa<ConstantAggregateZero>(C)) {
            J.value("z");
            J.value((int64_t)DL->getTypeStoreSize(C->getType()).getFixedValue());
        } else if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
            if (cd->isString() || cd->isCString()) {
                J.value("s");
                std::string raw = cd->getRawDataValues().str(), hex;
                static const char* d = "0123456789abcdef";
                for (unsigned char c : raw) {
                    hex += d[c >> 4];
                    hex += d[c & 15];
                }
                J.value(hex);
            } else {
                J.value("arr");
                for (unsigned i = 0; i < cd->getNumElements(); ++i) {
                    J.arrayBegin();
                    J.value((int64_t)(i * cd->getElementByteSize()));
                    constVal(J, cd->getElementAsConstant(i));
                    J.arrayEnd();
                }
            }
        } else if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
            J.value("arr");
            for (unsigned i = 0; i < C->getNumOperands(); ++i) {
                uint64_t off;
                if (auto* st = dyn_cast<StructType>(C->getType()))
                    off = DL->getStructLayout(st)->getElementOffset(i);
                else
                    off = i * DL->getTypeAllocSize(C->getOperand(i)->getType()).getFixedValue();
                J.arrayBegin();
                J.value((int64_t)off);
                constVal(J, cast<Constant>(C->getOperand(i)));
                J.arrayEnd();
            }
        } else {
            J.value("?");
            J.value(tyStr(C->getType()));
        }
    });
}

static std::string
diName(const DIType* t, int depth = 0)
{
    if (!t || depth > 12)
        return "void";
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
        std::string b = diName(d->getBaseType(), depth + 1);
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type:
                return b + "*";
            case dwarf::DW_TAG_reference_type:
                return b + "&";
            case dwarf::DW_TAG_rvalue_reference_type:
                return b + "&&";
            case dwarf::DW_TAG_const_type:
                return "const " + b;
            case dwarf::DW_TAG_typedef:
                return b == "void" ? d->getName().str() : b;
            default:
                return b;
        }
    }
    std::string n = t->getName().str();
    if (n.empty())
        return "?";
    const DIScope* s = t->getScope();
    std::string q;
    while (s) {
        if (auto* ns = dyn_cast<DINamespace>(s))
            q = (ns->getName().empty() ? "(anonymous namespace)" : ns->getName().str()) + "::" + q;
        else if (auto* ct = dyn_cast<DIType>(s))
            q = ct->getName().str() + "::" + q;
        s = s->getScope();
    }
    return q + n;
}

int
main(int argc, char** argv)
{
    // azx IN.bc OUT.json REPOPREFIX...
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) {
        err.print("azx", errs());
        return 2;
    }
    DL = &M->getDataLayout();
    std::vector<std::string> prefixes;
    for (int i = 3; i < argc; ++i)
        prefixes.push_back(argv[i]);

    // normalise
    {
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto E = PB.parsePassPipeline(MPM, "function(sroa<preserve-cfg>)")) {
            errs() << "pipeline\n";
            return 2;
        }
        MPM.run(*M, MAM);
    }

    auto fileOf = [&](const DISubprogram* sp) -> std::string {
        if (!sp || !sp->getFile())
            return "";
        std::string f = sp->getFilename().str();
        if (!f.empty() && f[0] != '/')
            f = sp->getDirectory().str() + "/" + f;
        return f;
    };

    // reachable set from repository functions
    std::set<const Function*> keep, repo;
    std::set<const GlobalVariable*> gvs;
    std::vector<const Function*> work;
    for (auto& F : *M)
        if (!F.isDeclaration() && startsWithAny(fileOf(F.getSubprogram()), prefixes)) {
            repo.insert(&F);
            keep.insert(&F);
            work.push_back(&F);
        }
    std::set<const Constant*> seenC;
    std::function<void(const Constant*)> visitC = [&](const Constant* C) {
        if (!seenC.insert(C).second)
            return;
        if (auto* F = dyn_cast<Function>(C)) {
            if (keep.insert(F).second)
                work.push_back(F);
            return;
        }
        if (auto* G = dyn_cast<GlobalVariable>(C)) {
            gvs.insert(G);
            if (G->hasInitializer())
                visitC(G->getInitializer());
            return;
        }
        if (auto* A = dyn_cast<GlobalAlias>(C)) {
            visitC(A->getAliasee());
            return;
        }
        for (auto& o : C->operands())
            if (auto* c = dyn_cast<Constant>(o))
                visitC(c);
    };
    for (auto& G : M->globals())
        if (G.getName().starts_with("_ZTV") && G.hasInitializer() && (G.getName().contains("zarr") || G.getName().contains("Zarr")))
            visitC(&G);
    while (!work.empty()) {
        auto* F = work.back();
        work.pop_back();
        if (F->hasPersonalityFn())
            visitC(F->getPersonalityFn());
        for (auto& I : instructions(*F))
            for (auto& o : I.operands())
                if (auto* c = dyn_cast<Constant>(o))
                    visitC(c);
    }

    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    json::OStream J(os);
    J.objectBegin();

    J.attributeBegin("functions");
    J.objectBegin();
    for (auto* F : keep) {
        J.attributeBegin(F->getName());
        J.objectBegin();
        J.attribute("dem", demangle(F->getName()));
        {
            ItaniumPartialDemangler D;
            std::string nm = F->getName().str();
            if (!D.partialDemangle(nm.c_str()) && D.isFunction()) {
                auto take = [](char* p) {
                    std::string r = p ? p : "";
                    free(p);
                    return r;
                };
                J.attribute("base", take(D.getFunctionBaseName(nullptr, nullptr)));
                J.attribute("ctx", take(D.getFunctionDeclContextName(nullptr, nullptr)));
                if (D.isCtorOrDtor())
                    J.attribute("cdtor", true);
            }
        }
        if (repo.count(F))
            J.attribute("repo", true);
        J.attribute("nounwind", F->doesNotThrow());
        J.attribute("noreturn", F->doesNotReturn());
        if (F->isIntrinsic())
            J.attribute("intrinsic", true);
        J.attribute("ret", tyStr(F->getReturnType()));
        J.attributeArray("params", [&] {
            for (auto& a : F->args()) {
                std::string s = tyStr(a.getType());
                if (a.hasStructRetAttr())
                    s = "sret";
                else if (a.hasByValAttr())
                    s = "byval:" + std::to_string(DL->getTypeAllocSize(a.getParamByValType()).getFixedValue());
                J.value(s);
            }
        });
        if (auto* sp = F->getSubprogram()) {
            J.attribute("file", fileOf(sp));
            J.attribute("line", (int64_t)sp->getLine());
            J.attribute("name", sp->getName());
            J.attribute("virtual", sp->getVirtuality() != 0);
            J.attributeArray("ptypes", [&] {
                if (auto* st = sp->getType())
                    for (auto* t : st->getTypeArray())
                        J.value(diName(t));
            });
            J.attributeObject("pnames", [&] {
                for (auto* n : sp->getRetainedNodes())
                    if (auto* v = dyn_cast<DILocalVariable>(n))
                        if (v->getArg())
                            J.attribute(std::to_string(v->getArg()), v->getName());
            });
        }
        if (!F->isDeclaration()) {
            Fn fn;
            int n = 0;
            for (auto& a : F->args())
                fn.id[&a] = n++;
            int b = 0;
            for (auto& B : *F) {
                fn.bb[&B] = b++;
                for (auto& I : B)
                    if (!I.getType()->isVoidTy())
                        fn.id[&I] = n++;
            }
            // loops
            DominatorTree DT(*const_cast<Function*>(F));
            LoopInfo LI(DT);
            J.attributeArray("loops", [&] {
                for (auto* L : LI.getLoopsInPreorder()) {
                    J.object([&] {
                        J.attribute("h", fn.bb[L->getHeader()]);
                        J.attributeArray("b", [&] {
                            for (auto* x : L->blocks())
                                J.value(fn.bb[x]);
                        });
                        SmallVector<BasicBlock*> ex;
                        L->getExitingBlocks(ex);
                        J.attributeArray("x", [&] {
                            for (auto* x : ex)
                                J.value(fn.bb[x]);
                        });
                    });
                }
            });
            auto emit = [&](const Value* v) {
                if (auto* c = dyn_cast<Constant>(v)) {
                    constVal(J, c);
                    return;
                }
                J.array([&] {
                    if (fn.id.count(v)) {
                        J.value("v");
                        J.value(fn.id[v]);
                    } else if (auto* mv = dyn_cast<MetadataAsValue>(v)) {
                        J.value("m");
                        if (auto* ms = dyn_cast<MDString>(mv->getMetadata()))
                            J.value(ms->getString());
                    } else if (auto* ia = dyn_cast<InlineAsm>(v)) {
                        J.value("asm");
                        J.value(ia->getAsmString());
                    } else
                        J.value("?");
                });
            };
            J.attributeArray("blocks", [&] {
                for (auto& B : *F)
                    J.array([&] {
                        for (auto& I : B) {
                            if (isa<DbgInfoIntrinsic>(I))
                                continue;
                            if (auto* II = dyn_cast<IntrinsicInst>(&I))
                                if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)
                                    continue;
                            J.object([&] {
                                J.attribute("op", I.getOpcodeName());
                                if (fn.id.count(&I)) {
                                    J.attribute("id", fn.id[&I]);
                                    J.attribute("ty", tyStr(I.getType()));
                                    if (I.getType()->isSized() && !I.getType()->isVoidTy())
                                        J.attribute("sz", (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue());
                                }
                                if (auto& dl = I.getDebugLoc()) {
                                    J.attributeArray("loc", [&] {
                                        J.value((int64_t)dl.getLine());
                                        J.value((int64_t)dl.getCol());
                                        auto* sc = cast<DIScope>(dl.getScope());
                                        std::string f = sc->getFilename().str();
                                        if (f != (F->getSubprogram() ? F->getSubprogram()->getFilename().str() : std::string()))
                                            J.value(f);
                                    });
                                }
                                if (auto* gep = dyn_cast<GEPOperator>(&I)) {
                                    J.attributeBegin("a");
                                    J.array([&] { emit(gep->getPointerOperand()); });
                                    J.attributeEnd();
                                    J.attributeBegin("gep");
                                    gepParts(J, gep, emit);
                                    J.attributeEnd();
                                    if (auto* st = dyn_cast<StructType>(gep->getSourceElementType()))
                                        if (st->hasName())
                                            J.attribute("st", st->getName());
                                    return;
                                }
                                if (auto* cb = dyn_cast<CallBase>(&I)) {
                                    J.attributeBegin("callee");
                                    emit(cb->getCalledOperand());
                                    J.attributeEnd();
                                    J.attributeArray("a", [&] {
                                        for (auto& a : cb->args())
                                            emit(a);
                                    });
                                    J.attributeArray("at", [&] {
                                        for (auto& a : cb->args())
                                            J.value(tyStr(a->getType()));
                                    });
                                    for (unsigned i = 0; i < cb->arg_size(); ++i)
                                        if (cb->paramHasAttr(i, Attribute::StructRet))
                                            J.attribute("sret", (int64_t)i);
                                    J.attribute("nounwind", cb->doesNotThrow());
                                    if (auto* iv = dyn_cast<InvokeInst>(&I)) {
                                        J.attribute("normal", fn.bb[iv->getNormalDest()]);
                                        J.attribute("unwind", fn.bb[iv->getUnwindDest()]);
                                    }
                                    return;
                                }
                                if (auto* phi = dyn_cast<PHINode>(&I)) {
                                    J.attributeArray("a", [&] {
                                        for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
                                            J.array([&] {
                                                J.value(fn.bb[phi->getIncomingBlock(i)]);
                                                emit(phi->getIncomingValue(i));
                                            });
                                    });
                                    return;
                                }
                                if (auto* br = dyn_cast<BranchInst>(&I)) {
                                    if (br->isConditional()) {
                                        J.attributeBegin("a");
                                        J.array([&] { emit(br->getCondition()); });
                                        J.attributeEnd();
                                    }
                                    J.attributeArray("to", [&] {
                                        for (unsigned i = 0; i < br->getNumSuccessors(); ++i)
                                            J.value(fn.bb[br->getSuccessor(i)]);
                                    });
                                    return;
                                }
                                if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                                    J.attributeBegin("a");
                                    J.array([&] { emit(sw->getCondition()); });
                                    J.attributeEnd();
                                    J.attribute("def", fn.bb[sw->getDefaultDest()]);
                                    J.attributeArray("cases", [&] {
                                        for (auto& c : sw->cases())
                                            J.array([&] {
                                                J.value(c.getCaseValue()->getSExtValue());
                                                J.value(fn.bb[c.getCaseSuccessor()]);
                                            });
                                    });
                                    J.attribute("bits", (int64_t)sw->getCondition()->getType()->getIntegerBitWidth());
                                    return;
                                }
                                if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
                                    J.attribute("cleanup", lp->isCleanup());
                                    J.attributeArray("clauses", [&] {
                                        for (unsigned i = 0; i < lp->getNumClauses(); ++i)
                                            J.array([&] {
                                                J.value(lp->isCatch(i) ? "catch" : "filter");
                                                emit(lp->getClause(i));
                                            });
                                    });
                                    return;
                                }
                                if (auto* c = dyn_cast<CmpInst>(&I))
                                    J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
                                if (auto* ai = dyn_cast<AllocaInst>(&I)) {
                                    J.attribute("alloc", (int64_t)DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue());
                                    J.attribute("aty", tyStr(ai->getAllocatedType()));
                                }
                                if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
                                    J.attribute("rmw", AtomicRMWInst::getOperationName(rmw->getOperation()));
                                    J.attribute("vsz", (int64_t)DL->getTypeStoreSize(rmw->getValOperand()->getType()).getFixedValue());
                                }
                                if (auto* st = dyn_cast<StoreInst>(&I)) {
                                    J.attribute("vsz", (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue());
                                    J.attribute("vty", tyStr(st->getValueOperand()->getType()));
                                    if (st->isAtomic())
                                        J.attribute("atomic", true);
                                }
                                if (auto* ld = dyn_cast<LoadInst>(&I))
                                    if (ld->isAtomic())
                                        J.attribute("atomic", true);
                                if (auto* ic = dyn_cast<CastInst>(&I)) {
                                    J.attribute("sty", tyStr(ic->getSrcTy()));
                                }
                                if (auto* ev = dyn_cast<ExtractValueInst>(&I))
                                    J.attributeArray("idx", [&] {
                                        for (auto i : ev->indices())
                                            J.value((int64_t)i);
                                    });
                                if (auto* iv = dyn_cast<InsertValueInst>(&I))
                                    J.attributeArray("idx", [&] {
                                        for (auto i : iv->indices())
                                            J.value((int64_t)i);
                                    });
                                J.attributeArray("a", [&] {
                                    for (auto& o : I.operands())
                                        emit(o);
                                });
                            });
                        }
                    });
            });
        }
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();

    J.attributeBegin("globals");
    J.objectBegin();
    for (auto* G : gvs) {
        J.attributeBegin(G->getName());
        J.objectBegin();
        J.attribute("dem", demangle(G->getName()));
        J.attribute("const", G->isConstant());
        if (G->isThreadLocal())
            J.attribute("tls", true);
        J.attribute("size", (int64_t)(G->getValueType()->isSized() ? DL->getTypeAllocSize(G->getValueType()).getFixedValue() : 0));
        if (G->hasInitializer()) {
            J.attributeBegin("init");
            constVal(J, G->getInitializer());
            J.attributeEnd();
        }
        SmallVector<MDNode*, 2> types;
        const_cast<GlobalVariable*>(G)->getMetadata(LLVMContext::MD_type, types);
        J.attributeArray("types", [&] {
            for (auto* t : types)
                J.array([&] {
                    J.value((int64_t)mdconst::extract<ConstantInt>(t->getOperand(0))->getZExtValue());
                    if (auto* s = dyn_cast<MDString>(t->getOperand(1)))
                        J.value(s->getString());
                });
        });
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();

    // record layouts, from debug information
    DebugInfoFinder DIF;
    DIF.processModule(*M);
    J.attributeBegin("records");
    J.objectBegin();
    std::set<std::string> done;
    for (auto* t : DIF.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl())
            continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type)
            continue;
        std::string f = c->getFile() ? c->getFilename().str() : "";
        if (!f.empty() && f[0] != '/' && c->getFile())
            f = c->getDirectory().str() + "/" + f;
        if (!startsWithAny(f, prefixes) && f.find("/miniocpp/") == std::string::npos)
            continue;
        std::string n = diName(c);
        if (c->getRawIdentifier() && c->getName().empty())
            n = "#" + c->getIdentifier().str();
        if (!done.insert(n).second)
            continue;
        J.attributeBegin(n);
        J.objectBegin();
        J.attribute("size", (int64_t)c->getSizeInBits() / 8);
        J.attribute("file", f);
        J.attribute("line", (int64_t)c->getLine());
        J.attribute("ident", c->getIdentifier());
        J.attributeArray("fields", [&] {
            for (auto* e : c->getElements())
                if (auto* d = dyn_cast<DIDerivedType>(e))
                    if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance)
                        J.array([&] {
                            J.value(d->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : d->getName().str());
                            J.value((int64_t)d->getOffsetInBits() / 8);
                            J.value((int64_t)d->getSizeInBits() / 8);
                            J.value(diName(d->getBaseType()));
                            J.value(d->isStaticMember());
                        });
        });
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();

    J.attributeBegin("enums");
    J.objectBegin();
    done.clear();
    for (auto* t : DIF.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->getTag() != dwarf::DW_TAG_enumeration_type)
            continue;
        std::string f = c->getFile() ? c->getFilename().str() : "";
        if (!f.empty() && f[0] != '/' && c->getFile())
            f = c->getDirectory().str() + "/" + f;
        if (!startsWithAny(f, prefixes))
            continue;
        // unnamed C enums are named by their first enumerator
        std::string n = diName(c);
        auto el = c->getElements();
        if (c->getName().empty() && el.size())
            if (auto* e = dyn_cast<DIEnumerator>(el[0]))
                n = e->getName().str();
        if (!done.insert(n).second)
            continue;
        J.attributeArray(n, [&] {
            for (auto* x : el)
                if (auto* e = dyn_cast<DIEnumerator>(x))
                    J.array([&] {
                        J.value(e->getName());
                        J.value((int64_t)e->getValue().getSExtValue());
                    });
        });
    }
    J.objectEnd();
    J.attributeEnd();

    J.objectEnd();
    return 0;
}
