// irdump: load LLVM bitcode, flatten it (inline everything that is not declared opaque), normalise it
// lightly, and dump every kept function as JSON for the Python analysis engine.
//
//   irdump IN.bc OUT.json --roots RE [--opaque RE]... [--passes PIPELINE] [--all]
//
// Nothing is executed: the tool only transforms and prints the compiler's intermediate representation.
#include <llvm/ADT/MapVector.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static std::string dem(StringRef n) { return demangle(n.str()); }
static std::string tyname(Type* t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return s;
}

struct Dumper {
    Module& M;
    const DataLayout& DL;
    std::map<const Value*, unsigned> ids;
    std::map<const BasicBlock*, unsigned> bids;
    std::set<const GlobalVariable*> usedGlobals;
    std::set<const Function*> usedFns;
    Dumper(Module& M) : M(M), DL(M.getDataLayout()) {}

    int64_t tsize(Type* t) {
        if(!t->isSized()) return -1;
        TypeSize s = DL.getTypeAllocSize(t);
        return s.isScalable() ? -1 : (int64_t)s.getFixedValue();
    }

    json::Value constant(const Constant* c) {
        if(auto* ci = dyn_cast<ConstantInt>(c)) {
            SmallString<40> s;
            ci->getValue().toString(s, 10, false);
            return json::Array{"i", std::string(s), (int64_t)ci->getBitWidth()};
        }
        if(auto* cf = dyn_cast<ConstantFP>(c)) {
            double d;
            APFloat f = cf->getValueAPF();
            bool lose = false;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
            d = f.convertToDouble();
            std::string s;
            raw_string_ostream os(s);
            os << format("%a", d);
            return json::Array{"f", s, tyname(c->getType())};
        }
        if(isa<ConstantPointerNull>(c)) return json::Array{"null"};
        if(isa<UndefValue>(c)) return json::Array{"undef", tyname(c->getType())};
        if(auto* g = dyn_cast<GlobalVariable>(c)) {
            usedGlobals.insert(g);
            return json::Array{"g", g->getName().str(), 0};
        }
        if(auto* f = dyn_cast<Function>(c)) {
            usedFns.insert(f);
            return json::Array{"fn", f->getName().str()};
        }
        if(auto* ca = dyn_cast<ConstantAggregateZero>(c)) {
            json::Array a;
            Type* t = ca->getType();
            if(isa<StructType>(t) || (isa<VectorType>(t)) || isa<ArrayType>(t)) {
                unsigned n = ca->getElementCount().getFixedValue();
                if(n > 64) return json::Array{"zero", tsize(t)};
                for(unsigned i = 0; i < n; i++) a.push_back(constant(ca->getElementValue(i)));
            }
            return json::Array{"agg", std::move(a)};
        }
        if(auto* ca = dyn_cast<ConstantAggregate>(c)) {
            json::Array a;
            for(auto& o : ca->operands()) a.push_back(constant(cast<Constant>(o)));
            return json::Array{"agg", std::move(a)};
        }
        if(auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            if(cd->isString() || (isa<ArrayType>(cd->getType()) &&
                                  cd->getElementType()->isIntegerTy(8))) {
                std::string hex;
                StringRef s = cd->getRawDataValues();
                for(unsigned char ch : s) {
                    char b[3];
                    snprintf(b, 3, "%02x", ch);
                    hex += b;
                }
                return json::Array{"str", hex};
            }
            json::Array a;
            for(unsigned i = 0; i < cd->getNumElements(); i++)
                a.push_back(constant(cd->getElementAsConstant(i)));
            return json::Array{"agg", std::move(a)};
        }
        if(auto* ce = dyn_cast<ConstantExpr>(c)) {
            if(ce->getType()->isPointerTy()) {
                APInt off(DL.getIndexTypeSizeInBits(ce->getType()), 0);
                const Value* b = ce->stripAndAccumulateConstantOffsets(DL, off, true);
                if(auto* g = dyn_cast<GlobalVariable>(b)) {
                    usedGlobals.insert(g);
                    return json::Array{"g", g->getName().str(), off.getSExtValue()};
                }
                if(auto* f = dyn_cast<Function>(b)) {
                    usedFns.insert(f);
                    return json::Array{"fn", f->getName().str()};
                }
                if(isa<ConstantPointerNull>(b))
                    return json::Array{"i", std::to_string(off.getSExtValue()), 64};
            }
            json::Array a;
            for(auto& o : ce->operands()) a.push_back(constant(cast<Constant>(o)));
            return json::Array{"ce", ce->getOpcodeName(), std::move(a)};
        }
        if(auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
        std::string s;
        raw_string_ostream os(s);
        c->print(os);
        return json::Array{"?", s};
    }

    json::Value op(const Value* v) {
        if(auto* c = dyn_cast<Constant>(v)) return constant(c);
        auto it = ids.find(v);
        if(it != ids.end()) return json::Array{"v", (int64_t)it->second};
        if(auto* bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", (int64_t)bids[bb]};
        return json::Array{"?", "operand"};
    }

    json::Value loc(const Instruction& I) {
        json::Array a;
        const DILocation* l = I.getDebugLoc().get();
        while(l) {
            auto* sp = l->getScope()->getSubprogram();
            a.push_back(json::Array{l->getFilename().str(), (int64_t)l->getLine(),
                                    sp ? dem(sp->getLinkageName().empty() ? sp->getName()
                                                                          : sp->getLinkageName())
                                       : std::string()});
            l = l->getInlinedAt();
        }
        return a;
    }

    json::Value inst(const Instruction& I) {
        json::Object o;
        o["id"] = (int64_t)ids[&I];
        o["op"] = I.getOpcodeName();
        o["ty"] = tyname(I.getType());
        if(I.getDebugLoc()) o["loc"] = loc(I);
        if(auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value*, APInt> vars;
            APInt coff(64, 0);
            if(g->getType()->isPointerTy() &&
               cast<GEPOperator>(g)->collectOffset(DL, 64, vars, coff)) {
                o["base"] = op(g->getPointerOperand());
                o["off"] = coff.getSExtValue();
                json::Array vs;
                for(auto& p : vars)
                    vs.push_back(json::Array{op(p.first), p.second.getSExtValue()});
                o["vars"] = std::move(vs);
                if(auto* st = dyn_cast<StructType>(g->getSourceElementType()); st && st->hasName())
                    o["sty"] = st->getName().str();
            } else
                o["op"] = "gep?";
            return o;
        }
        if(auto* a = dyn_cast<AllocaInst>(&I)) {
            o["size"] = tsize(a->getAllocatedType());
            o["aty"] = tyname(a->getAllocatedType());
            o["name"] = a->getName().str();
            o["n"] = op(a->getArraySize());
            return o;
        }
        if(auto* b = dyn_cast<OverflowingBinaryOperator>(&I); b && b->hasNoSignedWrap()) o["nsw"] = true;
        if(auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if(auto* p = dyn_cast<PHINode>(&I)) {
            json::Array in;
            for(unsigned i = 0; i < p->getNumIncomingValues(); i++)
                in.push_back(json::Array{(int64_t)bids[p->getIncomingBlock(i)],
                                         op(p->getIncomingValue(i))});
            o["in"] = std::move(in);
            return o;
        }
        if(auto* b = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for(unsigned i = 0; i < b->getNumSuccessors(); i++)
                s.push_back((int64_t)bids[b->getSuccessor(i)]);
            o["succ"] = std::move(s);
            if(b->isConditional()) o["cond"] = op(b->getCondition());
            return o;
        }
        if(auto* s = dyn_cast<SwitchInst>(&I)) {
            o["cond"] = op(s->getCondition());
            o["default"] = (int64_t)bids[s->getDefaultDest()];
            json::Array cs;
            for(auto& c : s->cases())
                cs.push_back(json::Array{op(c.getCaseValue()), (int64_t)bids[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
            return o;
        }
        if(auto* c = dyn_cast<CallBase>(&I)) {
            json::Array as;
            for(auto& a : c->args()) {
                if(isa<MetadataAsValue>(a)) continue;
                as.push_back(op(a));
            }
            o["args"] = std::move(as);
            const Value* cv = c->getCalledOperand()->stripPointerCasts();
            if(auto* f = dyn_cast<Function>(cv)) {
                usedFns.insert(f);
                o["fn"] = f->getName().str();
                o["noret"] = f->doesNotReturn() || c->doesNotReturn();
            } else if(auto* ga = dyn_cast<GlobalAlias>(cv)) {
                auto* f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
                if(f) {
                    usedFns.insert(f);
                    o["fn"] = f->getName().str();
                    o["noret"] = f->doesNotReturn() || c->doesNotReturn();
                }
            } else if(isa<InlineAsm>(cv)) {
                o["asm"] = cast<InlineAsm>(cv)->getAsmString();
                o["noret"] = c->doesNotReturn();
            } else {
                o["ptr"] = op(cv);
                o["noret"] = c->doesNotReturn();
            }
            json::Array sr;
            for(unsigned i = 0; i < c->arg_size(); i++)
                if(c->paramHasAttr(i, Attribute::StructRet)) {
                    sr.push_back((int64_t)i);
                    sr.push_back(tsize(c->getParamStructRetType(i)));
                }
            if(!sr.empty()) o["sret"] = std::move(sr);
            json::Array bv;
            for(unsigned i = 0; i < c->arg_size(); i++)
                if(c->isByValArgument(i)) {
                    bv.push_back(json::Array{(int64_t)i, tsize(c->getParamByValType(i))});
                }
            if(!bv.empty()) o["byval"] = std::move(bv);
            return o;
        }
        if(auto* l = dyn_cast<LoadInst>(&I)) {
            o["p"] = op(l->getPointerOperand());
            o["size"] = tsize(l->getType());
            if(l->isAtomic()) o["ord"] = toIRString(l->getOrdering());
            if(l->isVolatile()) o["vol"] = true;
            return o;
        }
        if(auto* s = dyn_cast<StoreInst>(&I)) {
            o["p"] = op(s->getPointerOperand());
            o["v"] = op(s->getValueOperand());
            o["size"] = tsize(s->getValueOperand()->getType());
            o["vty"] = tyname(s->getValueOperand()->getType());
            if(s->isAtomic()) o["ord"] = toIRString(s->getOrdering());
            if(s->isVolatile()) o["vol"] = true;
            return o;
        }
        if(auto* r = dyn_cast<AtomicRMWInst>(&I)) {
            o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
            o["p"] = op(r->getPointerOperand());
            o["v"] = op(r->getValOperand());
            o["size"] = tsize(r->getType());
            o["ord"] = toIRString(r->getOrdering());
            return o;
        }
        if(auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) {
            o["p"] = op(x->getPointerOperand());
            o["cmp"] = op(x->getCompareOperand());
            o["v"] = op(x->getNewValOperand());
            o["size"] = tsize(x->getNewValOperand()->getType());
            o["ord"] = toIRString(x->getSuccessOrdering());
            o["ford"] = toIRString(x->getFailureOrdering());
            o["weak"] = x->isWeak();
            return o;
        }
        if(auto* e = dyn_cast<ExtractValueInst>(&I)) {
            o["a"] = json::Array{op(e->getAggregateOperand())};
            json::Array ix;
            for(unsigned i : e->indices()) ix.push_back((int64_t)i);
            o["idx"] = std::move(ix);
            return o;
        }
        if(auto* e = dyn_cast<InsertValueInst>(&I)) {
            o["a"] = json::Array{op(e->getAggregateOperand()), op(e->getInsertedValueOperand())};
            json::Array ix;
            for(unsigned i : e->indices()) ix.push_back((int64_t)i);
            o["idx"] = std::move(ix);
            return o;
        }
        if(auto* e = dyn_cast<ShuffleVectorInst>(&I)) {
            json::Array m;
            for(int i : e->getShuffleMask()) m.push_back((int64_t)i);
            o["mask"] = std::move(m);
        }
        if(auto* c = dyn_cast<CastInst>(&I)) o["sty"] = tyname(c->getSrcTy());
        json::Array a;
        for(auto& u : I.operands()) a.push_back(op(u));
        o["a"] = std::move(a);
        return o;
    }

    json::Value function(Function& F) {
        ids.clear();
        bids.clear();
        unsigned n = 0, b = 0;
        json::Object o;
        o["name"] = F.getName().str();
        o["dem"] = dem(F.getName());
        o["ret"] = tyname(F.getReturnType());
        json::Array args;
        for(auto& a : F.args()) {
            ids[&a] = n++;
            json::Object ao;
            ao["ty"] = tyname(a.getType());
            ao["name"] = a.getName().str();
            if(a.hasStructRetAttr()) ao["sret"] = tsize(a.getParamStructRetType());
            if(a.hasByValAttr()) ao["byval"] = tsize(a.getParamByValType());
            args.push_back(std::move(ao));
        }
        o["args"] = std::move(args);
        if(auto* sp = F.getSubprogram()) {
            o["file"] = sp->getFilename().str();
            o["line"] = (int64_t)sp->getLine();
        }
        if(F.isDeclaration()) {
            o["decl"] = true;
            return o;
        }
        for(auto& B : F) {
            bids[&B] = b++;
            for(auto& I : B) ids[&I] = n++;
        }
        json::Array blocks;
        for(auto& B : F) {
            json::Array is;
            for(auto& I : B) {
                if(isa<DbgInfoIntrinsic>(I)) continue;
                is.push_back(inst(I));
            }
            blocks.push_back(std::move(is));
        }
        o["blocks"] = std::move(blocks);
        DominatorTree DT(F);
        LoopInfo LI(DT);
        json::Array loops;
        for(Loop* L : LI.getLoopsInPreorder()) {
            json::Object lo;
            lo["header"] = (int64_t)bids[L->getHeader()];
            json::Array bs;
            for(auto* bb : L->blocks()) bs.push_back((int64_t)bids[bb]);
            lo["blocks"] = std::move(bs);
            SmallVector<BasicBlock*, 4> lat;
            L->getLoopLatches(lat);
            json::Array la;
            for(auto* bb : lat) la.push_back((int64_t)bids[bb]);
            lo["latches"] = std::move(la);
            lo["depth"] = (int64_t)L->getLoopDepth();
            loops.push_back(std::move(lo));
        }
        o["loops"] = std::move(loops);
        return o;
    }
};

int main(int argc, char** argv) {
    if(argc < 3) {
        errs() << "usage\n";
        return 2;
    }
    std::string roots = ".*";
    std::vector<std::string> opaque;
    bool all = false;
    std::string passes =
        "always-inline,globaldce,function(sroa<modify-cfg>,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts>,"
        "instsimplify,sroa,early-cse,simplifycfg)";
    for(int i = 3; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--roots")
            roots = argv[++i];
        else if(a == "--opaque")
            opaque.push_back(argv[++i]);
        else if(a == "--passes")
            passes = argv[++i];
        else if(a == "--all")
            all = true;
    }
    LLVMContext C;
    SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if(!M) {
        E.print("irdump", errs());
        return 2;
    }
    Regex rootRe(roots);
    std::vector<Regex> opRe;
    for(auto& s : opaque) opRe.emplace_back(s);
    std::set<std::string> rootNames, opaqueNames;
    for(auto& F : *M) {
        if(F.isDeclaration()) continue;
        std::string d = dem(F.getName());
        bool isop = false;
        for(auto& r : opRe)
            if(r.match(d) || r.match(F.getName())) isop = true;
        bool isroot = rootRe.match(d);
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::NoInline);
        if(isop) {
            F.addFnAttr(Attribute::NoInline);
            opaqueNames.insert(F.getName().str());
        } else
            F.addFnAttr(Attribute::AlwaysInline);
        if(isroot) {
            rootNames.insert(F.getName().str());
            F.setLinkage(GlobalValue::ExternalLinkage);
            F.setComdat(nullptr);
        } else if(!all) {
            // everything that is neither a root nor referenced after flattening may go away
            F.setLinkage(GlobalValue::InternalLinkage);
            F.setComdat(nullptr);
        }
    }
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if(auto err = PB.parsePassPipeline(MPM, passes)) {
        errs() << "bad pipeline: " << toString(std::move(err)) << "\n";
        return 2;
    }
    MPM.run(*M, MAM);

    Dumper D(*M);
    json::Array fns;
    for(auto& F : *M)
        if(!F.isDeclaration()) {
            json::Value v = D.function(F);
            json::Object* o = v.getAsObject();
            (*o)["root"] = rootNames.count(F.getName().str()) != 0;
            (*o)["opaque"] = opaqueNames.count(F.getName().str()) != 0;
            fns.push_back(std::move(v));
        }
    json::Array decls;
    for(auto* f : D.usedFns)
        if(f->isDeclaration())
            decls.push_back(json::Object{{"name", f->getName().str()},
                                         {"dem", dem(f->getName())},
                                         {"intrinsic", f->isIntrinsic()},
                                         {"ret", tyname(f->getReturnType())}});
    json::Array gl;
    std::set<const GlobalVariable*> done;
    while(done.size() < D.usedGlobals.size()) {
        auto cur = D.usedGlobals;
        for(auto* g : cur) {
            if(!done.insert(g).second) continue;
            json::Object o{{"name", g->getName().str()},
                           {"dem", dem(g->getName())},
                           {"size", D.tsize(g->getValueType())},
                           {"const", g->isConstant()},
                           {"tls", g->isThreadLocal()}};
            if(g->hasInitializer() && D.tsize(g->getValueType()) < 65536) {
                o["init"] = D.constant(g->getInitializer());
                o["ity"] = tyname(g->getValueType());
                // byte offsets of aggregate members
                if(auto* st = dyn_cast<StructType>(g->getValueType())) {
                    json::Array offs;
                    const StructLayout* sl = M->getDataLayout().getStructLayout(st);
                    for(unsigned i = 0; i < st->getNumElements(); i++)
                        offs.push_back((int64_t)sl->getElementOffset(i).getFixedValue());
                    o["offs"] = std::move(offs);
                } else if(auto* at = dyn_cast<ArrayType>(g->getValueType())) {
                    o["stride"] = D.tsize(at->getElementType());
                }
            }
            gl.push_back(std::move(o));
        }
    }
    std::error_code EC;
    raw_fd_ostream os(argv[2], EC);
    if(EC) {
        errs() << "cannot write " << argv[2] << "\n";
        return 2;
    }
    json::Object top;
    top["functions"] = std::move(fns);
    top["decls"] = std::move(decls);
    top["globals"] = std::move(gl);
    os << json::Value(std::move(top));
    return 0;
}
