// irdump: normalises one LLVM bitcode file and dumps it as JSON lines.
//
//   irdump IN.bc OUT.jsonl [--inline N] [--inline-multi M] [--keep REGEX]
//          [--force REGEX]
//
// Normalisation: SROA/mem2reg, lower-expect, removal of unreachable blocks,
// and inlining of functions with internal linkage (so that extracting or
// folding back a static helper does not change what is analysed).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/StringExtras.h"
#include <map>
#include <unistd.h>
#include <set>
#include <string>
using namespace llvm;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::string out;

static void q(std::string &o, StringRef s)
{
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) {
            char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;
        } else o += c;
    }
    o += '"';
}

static std::map<Type *, std::string> tyc;
static const std::string &ty(Type *t)
{
    auto it = tyc.find(t);
    if (it != tyc.end()) return it->second;
    std::string s;
    if (auto *st = dyn_cast<StructType>(t); st && st->hasName()) {
        s = "%" + st->getName().str();
    } else {
        raw_string_ostream os(s);
        t->print(os, false, true);
        os.flush();
    }
    return tyc[t] = s;
}

static std::map<const Value *, int> num;

static void diMembers(std::string &out, const DICompositeType *ct, int depth)
{
    bool f1 = true;
    for (auto *e : ct->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) {
        if (m->getTag() != dwarf::DW_TAG_member) continue;
        if (!f1) out += ","; f1 = false;
        std::string s;
        const DIType *mt = m->getBaseType();
        const DICompositeType *anon = nullptr;
        bool ptr = false;
        for (int k = 0; mt && k < 12; k++) {
            if (auto *dt = dyn_cast<DIDerivedType>(mt)) {
                switch (dt->getTag()) {
                  case dwarf::DW_TAG_pointer_type: s += "*"; ptr = true; break;
                  case dwarf::DW_TAG_const_type: s += "c"; break;
                  case dwarf::DW_TAG_typedef: s += "<" + dt->getName().str() + ">"; break;
                  default: break;
                }
                mt = dt->getBaseType();
            } else if (auto *c2 = dyn_cast<DICompositeType>(mt)) {
                if (c2->getTag() == dwarf::DW_TAG_array_type) { s += "[" + std::to_string(c2->getSizeInBits() / 8) + "]"; mt = c2->getBaseType(); continue; }
                s += "{" + c2->getName().str() + "}"; anon = c2; break;
            } else { s += "{" + mt->getName().str() + "}"; break; }
        }
        out += "["; q(out, m->getName()); out += "," + std::to_string(m->getOffsetInBits() / 8) + "," + std::to_string(m->getSizeInBits()) + ","; q(out, s);
        if (anon && anon->getName().empty() && depth < 4 && (depth == 0 || !ptr)) {
            out += ",["; diMembers(out, anon, depth + 1); out += "]";
        }
        out += "]";
    }
}

static void constant(std::string &o, const Constant *c, int depth = 0);

static void op(std::string &o, const Value *v)
{
    if (auto *c = dyn_cast<Constant>(v)) { constant(o, c); return; }
    if (isa<BasicBlock>(v)) { o += "\"bb\""; return; }
    if (isa<MetadataAsValue>(v)) { o += "\"md\""; return; }
    if (isa<InlineAsm>(v)) { o += "\"asm\""; return; }
    auto it = num.find(v);
    if (it == num.end()) { o += "\"?\""; return; }
    o += std::to_string(it->second);
}

static void constant(std::string &o, const Constant *c, int depth)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s;
        if (ci->getBitWidth() == 1) s = ci->isOne() ? "1" : "0";
        else ci->getValue().toStringSigned(s);
        o += "\"i:"; o += s.str(); o += ":" + std::to_string(ci->getBitWidth()) + "\"";
    } else if (isa<ConstantPointerNull>(c)) o += "\"null\"";
    else if (isa<UndefValue>(c)) o += "\"undef\"";
    else if (auto *g = dyn_cast<GlobalValue>(c)) { q(o, ("g:" + g->getName()).str()); }
    else if (isa<ConstantAggregateZero>(c)) { o += "[\"zero\","; q(o, ty(c->getType())); o += "]"; }
    else if (auto *cf = dyn_cast<ConstantFP>(c)) {
        SmallString<40> s; cf->getValueAPF().toString(s); q(o, ("f:" + s.str()).str());
    } else if (auto *cda = dyn_cast<ConstantDataSequential>(c)) {
        if (cda->isString() || cda->getElementType()->isIntegerTy(8)) {
            o += "[\"str\","; q(o, cda->getRawDataValues()); o += "]";
        } else if (cda->getElementType()->isIntegerTy()) {
            unsigned w = cda->getElementType()->getIntegerBitWidth();
            o += "[\"ints\"," + std::to_string(w) + ",[";
            for (unsigned i = 0; i < cda->getNumElements(); i++) {
                if (i) o += ',';
                o += std::to_string(cda->getElementAsInteger(i));
            }
            o += "]]";
        } else {
            o += "[\"arr\",[";
            for (unsigned i = 0; i < cda->getNumElements(); i++) {
                if (i) o += ',';
                constant(o, cda->getElementAsConstant(i), depth + 1);
            }
            o += "]]";
        }
    } else if (auto *ca = dyn_cast<ConstantArray>(c)) {
        o += "[\"arr\",[";
        for (unsigned i = 0; i < ca->getNumOperands(); i++) {
            if (i) o += ',';
            constant(o, ca->getOperand(i), depth + 1);
        }
        o += "]]";
    } else if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        o += "[\"st\","; q(o, ty(cs->getType())); o += ",[";
        for (unsigned i = 0; i < cs->getNumOperands(); i++) {
            if (i) o += ',';
            constant(o, cs->getOperand(i), depth + 1);
        }
        o += "]]";
    } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            bool k = gep->accumulateConstantOffset(*DL, off);
            o += "[\"gep\","; op(o, gep->getPointerOperand()); o += ",";
            o += k ? std::to_string(off.getSExtValue()) : "null"; o += ",";
            q(o, ty(gep->getSourceElementType())); o += "]";
        } else {
            o += "[\"ce\","; q(o, ce->getOpcodeName());
            for (auto &u : ce->operands()) { o += ","; op(o, u.get()); }
            o += "]";
        }
    } else o += "\"const\"";
}

static void loc(std::string &o, const DebugLoc &d)
{
    if (!d) { o += "null"; return; }
    o += "[";
    bool first = true;
    for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
        if (!first) o += ",";
        first = false;
        std::string fn;
        if (auto *sp = l->getScope()->getSubprogram()) fn = sp->getName().str();
        o += std::to_string(l->getLine()); o += ",";
        q(o, fn); o += ",";
        q(o, l->getFilename());
    }
    o += "]";
}

static void dumpFn(Function &F)
{
    num.clear();
    int n = 0;
    for (auto &a : F.args()) num[&a] = n++;
    std::map<const BasicBlock *, int> bbn;
    int b = 0;
    std::map<const Value *, std::string> names;
    for (auto &BB : F) {
        bbn[&BB] = b++;
        for (auto &I : BB) {
            num[&I] = n++;
            if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
                if (auto *v = d->getVariableLocationOp(0))
                    names.emplace(v, d->getVariable()->getName().str());
            }
        }
    }
    std::string &o = out;
    o += "{\"k\":\"fn\",\"n\":"; q(o, F.getName());
    DISubprogram *sp = F.getSubprogram();
    o += ",\"src\":"; q(o, sp ? sp->getName() : F.getName());
    o += ",\"file\":"; q(o, sp ? sp->getFilename() : "");
    o += ",\"line\":" + std::to_string(sp ? sp->getLine() : 0);
    o += ",\"link\":"; q(o, F.hasInternalLinkage() ? "int" : F.isDeclaration() ? "decl" : "ext");
    o += ",\"noret\":"; o += F.doesNotReturn() ? "1" : "0";
    o += ",\"va\":"; o += F.isVarArg() ? "1" : "0";
    o += ",\"ret\":"; q(o, ty(F.getReturnType()));
    o += ",\"args\":[";
    bool first = true;
    for (auto &a : F.args()) {
        if (!first) o += ","; first = false;
        o += "["; q(o, names.count(&a) ? names[&a] : a.getName().str()); o += ","; q(o, ty(a.getType()));
        o += ",";
        o += a.hasByValAttr() ? "\"byval\"" : a.hasStructRetAttr() ? "\"sret\"" : "\"\"";
        o += ","; q(o, a.hasByValAttr() ? ty(a.getParamByValType()) : a.hasStructRetAttr() ? ty(a.getParamStructRetType()) : "");
        o += "]";
    }
    o += "],\"argt\":[";
    // declared (DI) parameter types, constness of the pointee and struct name
    if (sp && sp->getType()) {
        auto arr = sp->getType()->getTypeArray();
        for (unsigned i = 0; i < arr.size(); i++) {
            if (i) o += ",";
            std::string s;
            const DIType *t = arr[i];
            for (int k = 0; t && k < 12; k++) {
                if (auto *dt = dyn_cast<DIDerivedType>(t)) {
                    switch (dt->getTag()) {
                      case dwarf::DW_TAG_pointer_type: s += "*"; break;
                      case dwarf::DW_TAG_const_type: s += "c"; break;
                      case dwarf::DW_TAG_typedef: s += "<" + dt->getName().str() + ">"; break;
                      default: break;
                    }
                    t = dt->getBaseType();
                } else { s += "{" + t->getName().str() + "}"; break; }
            }
            q(o, s);
        }
    }
    o += "]";
    o += ",\"bbs\":[";
    bool fb = true;
    for (auto &BB : F) {
        if (!fb) o += ","; fb = false;
        o += "[";
        bool fi = true;
        for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (!fi) o += ","; fi = false;
            o += "[" + std::to_string(num[&I]) + ",";
            const char *opn = I.getOpcodeName();
            q(o, opn); o += ",";
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                q(o, ty(I.getType())); o += ",[";
                for (unsigned i = 0; i < cb->arg_size(); i++) {
                    if (i) o += ",";
                    op(o, cb->getArgOperand(i));
                }
                o += "],{\"f\":";
                const Value *cv = cb->getCalledOperand()->stripPointerCasts();
                op(o, cv);
                if (cb->doesNotReturn()) o += ",\"nr\":1";
                std::string bv;
                for (unsigned i = 0; i < cb->arg_size(); i++) {
                    if (cb->isByValArgument(i)) { if (!bv.empty()) bv += ","; bv += "[" + std::to_string(i) + ",\"byval\","; q(bv, ty(cb->getParamByValType(i))); bv += "]"; }
                    else if (cb->paramHasAttr(i, Attribute::StructRet)) { if (!bv.empty()) bv += ","; bv += "[" + std::to_string(i) + ",\"sret\","; q(bv, ty(cb->getParamStructRetType(i))); bv += "]"; }
                }
                if (!bv.empty()) o += ",\"pa\":[" + bv + "]";
                if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { o += ",\"asm\":"; q(o, ia->getAsmString()); o += ",\"cons\":"; q(o, ia->getConstraintString()); }
                o += "}";
            } else if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
                q(o, ty(I.getType())); o += ",["; op(o, gep->getPointerOperand());
                o += "],{\"t\":"; q(o, ty(gep->getSourceElementType()));
                // constant part and variable parts (value, scale)
                MapVector<Value *, APInt> vars; APInt off(64, 0);
                if (gep->collectOffset(*DL, 64, vars, off)) {
                    o += ",\"o\":" + std::to_string(off.getSExtValue());
                    if (!vars.empty()) {
                        o += ",\"v\":[";
                        bool f1 = true;
                        for (auto &kv : vars) {
                            if (!f1) o += ","; f1 = false;
                            o += "["; op(o, kv.first); o += "," + std::to_string(kv.second.getSExtValue()) + "]";
                        }
                        o += "]";
                    }
                }
                o += ",\"i\":[";
                bool f1 = true;
                for (auto &ix : gep->indices()) { if (!f1) o += ","; f1 = false; op(o, ix.get()); }
                o += "],\"ib\":"; o += gep->isInBounds() ? "1" : "0";
                o += "}";
            } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
                q(o, ty(I.getType())); o += ",["; op(o, ld->getPointerOperand()); o += "],{\"s\":" + std::to_string(DL->getTypeStoreSize(I.getType()));
                if (ld->isVolatile()) o += ",\"vol\":1";
                if (ld->isAtomic()) { o += ",\"ord\":"; q(o, toIRString(ld->getOrdering())); }
                o += "}";
            } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                q(o, ty(st->getValueOperand()->getType())); o += ",["; op(o, st->getValueOperand()); o += ","; op(o, st->getPointerOperand());
                o += "],{\"s\":" + std::to_string(DL->getTypeStoreSize(st->getValueOperand()->getType()));
                if (st->isVolatile()) o += ",\"vol\":1";
                if (st->isAtomic()) { o += ",\"ord\":"; q(o, toIRString(st->getOrdering())); }
                o += "}";
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                q(o, ty(al->getAllocatedType())); o += ",["; op(o, al->getArraySize()); o += "],{\"s\":" + std::to_string(DL->getTypeAllocSize(al->getAllocatedType()));
                if (names.count(&I)) { o += ",\"n\":"; q(o, names[&I]); }
                o += "}";
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                o += "\"\",[";
                if (br->isConditional()) op(o, br->getCondition());
                o += "],[";
                for (unsigned i = 0; i < br->getNumSuccessors(); i++) { if (i) o += ","; o += std::to_string(bbn[br->getSuccessor(i)]); }
                o += "]";
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                q(o, ty(sw->getCondition()->getType())); o += ",["; op(o, sw->getCondition()); o += "],[" + std::to_string(bbn[sw->getDefaultDest()]);
                for (auto &c : sw->cases()) {
                    SmallString<40> s; c.getCaseValue()->getValue().toStringSigned(s);
                    o += ",["; o += s.str(); o += "," + std::to_string(bbn[c.getCaseSuccessor()]) + "]";
                }
                o += "]";
            } else if (auto *ph = dyn_cast<PHINode>(&I)) {
                q(o, ty(I.getType())); o += ",[";
                for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { if (i) o += ","; op(o, ph->getIncomingValue(i)); }
                o += "],[";
                for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { if (i) o += ","; o += std::to_string(bbn[ph->getIncomingBlock(i)]); }
                o += "]";
            } else if (auto *cm = dyn_cast<CmpInst>(&I)) {
                q(o, ty(cm->getOperand(0)->getType())); o += ",["; op(o, cm->getOperand(0)); o += ","; op(o, cm->getOperand(1)); o += "],{\"p\":"; q(o, CmpInst::getPredicateName(cm->getPredicate())); o += "}";
            } else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
                q(o, ty(I.getType())); o += ",["; op(o, rmw->getPointerOperand()); o += ","; op(o, rmw->getValOperand()); o += "],{\"rop\":"; q(o, AtomicRMWInst::getOperationName(rmw->getOperation())); o += ",\"ord\":"; q(o, toIRString(rmw->getOrdering())); o += "}";
            } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                q(o, ty(I.getType())); o += ",["; op(o, cx->getPointerOperand()); o += ","; op(o, cx->getCompareOperand()); o += ","; op(o, cx->getNewValOperand()); o += "],{\"ord\":"; q(o, toIRString(cx->getSuccessOrdering())); o += ",\"ford\":"; q(o, toIRString(cx->getFailureOrdering())); o += "}";
            } else if (auto *fe = dyn_cast<FenceInst>(&I)) {
                o += "\"\",[],{\"ord\":"; q(o, toIRString(fe->getOrdering())); o += "}";
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                q(o, ty(I.getType())); o += ",["; op(o, ev->getAggregateOperand()); o += "],{\"idx\":[";
                bool f1 = true; for (unsigned ix : ev->indices()) { if (!f1) o += ","; f1 = false; o += std::to_string(ix); }
                o += "]}";
            } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                q(o, ty(I.getType())); o += ",["; op(o, iv->getAggregateOperand()); o += ","; op(o, iv->getInsertedValueOperand()); o += "],{\"idx\":[";
                bool f1 = true; for (unsigned ix : iv->indices()) { if (!f1) o += ","; f1 = false; o += std::to_string(ix); }
                o += "]}";
            } else {
                q(o, ty(I.getType())); o += ",[";
                for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) o += ","; op(o, I.getOperand(i)); }
                o += "],{";
                bool f1 = true;
                if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
                    if (ob->hasNoSignedWrap()) { o += "\"nsw\":1"; f1 = false; }
                    if (ob->hasNoUnsignedWrap()) { if (!f1) o += ","; o += "\"nuw\":1"; f1 = false; }
                }
                if (isa<CastInst>(&I)) { if (!f1) o += ","; o += "\"from\":"; q(o, ty(I.getOperand(0)->getType())); }
                o += "}";
            }
            o += ",";
            loc(o, I.getDebugLoc());
            o += "]";
        }
        o += "]";
    }
    o += "],\"vn\":{";
    first = true;
    for (auto &kv : names) {
        auto it = num.find(kv.first);
        if (it == num.end()) continue;
        if (!first) o += ","; first = false;
        o += "\"" + std::to_string(it->second) + "\":"; q(o, kv.second);
    }
    o += "}}\n";
}

static void dumpTypes()
{
    DebugInfoFinder fin;
    fin.processModule(*M);
    std::set<std::string> seen;
    for (auto *t : fin.types()) {
        auto *ct = dyn_cast<DICompositeType>(t);
        if (!ct) continue;
        if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
            out += "{\"k\":\"enum\",\"n\":"; q(out, ct->getName()); out += ",\"v\":[";
            bool f1 = true;
            for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) {
                if (!f1) out += ","; f1 = false;
                SmallString<40> s; en->getValue().toStringSigned(s);
                out += "["; q(out, en->getName()); out += ","; out += s.str(); out += "]";
            }
            out += "],\"file\":"; q(out, ct->getFilename()); out += ",\"line\":" + std::to_string(ct->getLine());
            out += "}\n";
        } else if (ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_union_type) {
            if (ct->isForwardDecl()) continue;
            out += "{\"k\":\"st\",\"n\":"; q(out, ct->getName());
            out += ",\"u\":"; out += ct->getTag() == dwarf::DW_TAG_union_type ? "1" : "0";
            out += ",\"sz\":" + std::to_string(ct->getSizeInBits() / 8);
            out += ",\"file\":"; q(out, ct->getFilename()); out += ",\"line\":" + std::to_string(ct->getLine());
            out += ",\"m\":[";
            diMembers(out, ct, 0);
            out += "]}\n";
        }
    }
    for (auto *st : M->getIdentifiedStructTypes()) {
        if (st->isOpaque()) continue;
        auto *l = DL->getStructLayout(st);
        out += "{\"k\":\"ist\",\"n\":"; q(out, "%" + st->getName().str()); out += ",\"sz\":" + std::to_string(DL->getTypeAllocSize(st)) + ",\"e\":[";
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            if (i) out += ",";
            out += "[" + std::to_string(l->getElementOffset(i)) + ","; q(out, ty(st->getElementType(i))); out += "]";
        }
        out += "]}\n";
    }
}

int main(int argc, char **argv)
{
    unsigned thr = 0, multi = 0, ext = 0;
    std::string keep = "^$", force = "^$", passes;
    if (argc < 3) return 2;
    for (int i = 3; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--inline") thr = atoi(argv[i + 1]);
        else if (a == "--inline-multi") multi = atoi(argv[i + 1]);
        else if (a == "--inline-ext") ext = atoi(argv[i + 1]);
        else if (a == "--keep") keep = argv[i + 1];
        else if (a == "--force") force = argv[i + 1];
        else if (a == "--passes") passes = argv[i + 1];
        else return 2;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();

    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto run = [&](const char *p) {
        ModulePassManager mpm;
        if (auto e = PB.parsePassPipeline(mpm, p)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
        mpm.run(*M, MAM);
        MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
    };
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
    }
    run("function(lower-expect,sroa)");
    if (thr) {
        Regex rk(keep), rf(force);
        // bottom-up over the static call graph
        std::vector<Function *> order;
        std::set<Function *> recursive;
        {
            CallGraph CG(*M);
            for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
                bool cyc = it.hasCycle();
                for (auto *nd : *it) if (Function *F = nd->getFunction()) {
                    if (F->isDeclaration()) continue;
                    order.push_back(F);
                    if (cyc) recursive.insert(F);
                }
            }
        }
        std::map<Function *, unsigned> ncalls;
        for (auto &F : *M) for (auto *u : F.users())
            if (auto *cb = dyn_cast<CallBase>(u); cb && cb->getCalledFunction() == &F) ncalls[&F]++;
        // small functions that only look at their arguments
        std::set<Function *> tiny;
        if (ext) for (auto &F : *M) {
            if (F.isDeclaration() || F.hasInternalLinkage()) continue;
            unsigned n = 0;
            bool ok = F.size() <= 4;
            for (auto &BB : F) for (auto &I : BB) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                n++;
                if (isa<CallBase>(I) || isa<FenceInst>(I) || I.isAtomic()) ok = false;
            }
            if (ok && n <= ext) tiny.insert(&F);
        }
        for (Function *F : order) {
            bool again = true;
            int guard = 0;
            while (again && guard++ < 4) {
                again = false;
                std::vector<CallBase *> cs;
                for (auto &BB : *F) for (auto &I : BB) if (auto *cb = dyn_cast<CallBase>(&I)) {
                    Function *G = cb->getCalledFunction();
                    if (!G || G->isDeclaration() || G == F || recursive.count(G) || G->isVarArg()) continue;
                    if (rk.match(G->getName())) continue;
                    bool forced = rf.match(G->getName());
                    if (!forced && !G->hasInternalLinkage() && !tiny.count(G)) continue;
                    unsigned sz = G->getInstructionCount();
                    unsigned lim = ncalls[G] <= 1 ? thr : (multi ? multi : thr);
                    if (!forced && sz > lim) continue;
                    cs.push_back(cb);
                }
                for (auto *cb : cs) {
                    InlineFunctionInfo ifi;
                    if (InlineFunction(*cb, ifi, false, nullptr, false).isSuccess()) again = true;
                }
            }
        }
    }
    run("function(sroa)");
    if (!passes.empty()) run(passes.c_str());
    for (auto &F : *M) if (!F.isDeclaration()) removeUnreachableBlocks(F);

    dumpTypes();
    for (auto &g : M->globals()) {
        out += "{\"k\":\"g\",\"n\":"; q(out, g.getName());
        out += ",\"t\":"; q(out, ty(g.getValueType()));
        out += ",\"const\":"; out += g.isConstant() ? "1" : "0";
        out += ",\"tls\":"; out += g.isThreadLocal() ? "1" : "0";
        out += ",\"link\":"; q(out, g.hasLocalLinkage() ? "int" : g.isDeclaration() ? "decl" : "ext");
        SmallVector<DIGlobalVariableExpression *, 1> ge; g.getDebugInfo(ge);
        out += ",\"src\":"; q(out, ge.empty() ? "" : ge[0]->getVariable()->getName());
        out += ",\"file\":"; q(out, ge.empty() ? "" : ge[0]->getVariable()->getFilename());
        out += ",\"line\":" + std::to_string(ge.empty() ? 0 : ge[0]->getVariable()->getLine());
        if (!ge.empty()) {
            const DIType *t = ge[0]->getVariable()->getType();
            while (auto *dt = dyn_cast_or_null<DIDerivedType>(t)) {
                if (dt->getTag() == dwarf::DW_TAG_pointer_type) { t = nullptr; break; }
                t = dt->getBaseType();
            }
            if (auto *ct = dyn_cast_or_null<DICompositeType>(t)) {
                if (ct->getTag() == dwarf::DW_TAG_structure_type && ct->getName().empty()) {
                    out += ",\"m\":["; diMembers(out, ct, 0); out += "]";
                } else {
                    out += ",\"dt\":"; q(out, ct->getName());
                }
            }
        }
        out += ",\"init\":";
        if (g.hasInitializer()) constant(out, g.getInitializer()); else out += "null";
        out += "}\n";
    }
    for (auto &F : *M) {
        if (F.isDeclaration()) {
            out += "{\"k\":\"decl\",\"n\":"; q(out, F.getName()); out += ",\"noret\":"; out += F.doesNotReturn() ? "1" : "0"; out += "}\n";
            continue;
        }
        dumpFn(F);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << out;
    os.close();
    _exit(0);
}
