// vsir: LLVM bitcode -> compact JSON program representation for the static checkers in /verif.
// usage: vsir in.bc out.json [repo-prefix]
// The module is normalised first (selective inlining of small/relevant helpers, SROA, CSE, CFG clean-up) so that
// the checkers see what the code does rather than how it is split in helper functions.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string repoPrefix = "/repo/";
static bool coreMode = false;

static std::string fileOf(const DIScope *s) {
    if (!s) return "";
    std::string f = s->getFilename().str();
    if (!f.empty() && f[0] != '/') {
        std::string d = s->getDirectory().str();
        f = d + "/" + f;
    }
    // normalise "a/b/../c"
    std::vector<std::string> parts;
    SmallVector<StringRef, 16> sp;
    StringRef(f).split(sp, '/');
    for (auto &p : sp) {
        if (p == "." || (p.empty() && !parts.empty())) continue;
        if (p == ".." && parts.size() > 1) { parts.pop_back(); continue; }
        parts.push_back(p.str());
    }
    std::string r;
    for (size_t i = 0; i < parts.size(); i++) r += (i ? "/" : "") + parts[i];
    return r;
}

static bool inRepo(const Function &F) {
    auto *sp = F.getSubprogram();
    if (!sp) return false;
    return StringRef(fileOf(sp)).starts_with(repoPrefix);
}

static bool touchesAPI(const Function &F) {
    for (auto &I : instructions(F)) {
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            if (auto *st = dyn_cast<StructType>(g->getSourceElementType()))
                if (st->hasName() && (st->getName() == "struct.VSAPI" || st->getName().ends_with("::VSAPI3") || st->getName() == "struct.VSPLUGINAPI"))
                    return true;
        }
    }
    return false;
}

static bool flatMode = false, cyMode = false;
static unsigned sizeOf(const Function &F) {
    unsigned n = 0;
    for (auto &I : instructions(F))
        if (!isa<DbgInfoIntrinsic>(I)) n++;
    return n;
}

static bool noInlineName(StringRef dem) {
    // leaves the checkers want to see as events
    static const char *names[] = {
        "std::mutex::lock", "std::mutex::unlock", "std::mutex::try_lock", "std::recursive_mutex::", "std::condition_variable", "__assert_fail",
        "std::atomic", "std::__atomic_base", "std::chrono",
        "std::__cxx11::basic_string", "std::basic_string", "std::map<", "std::unordered_map<", "std::set<", "std::unordered_set<", "std::list<", "std::__cxx11::list<",
        "std::vector<VSFrame", "std::vector<VSNode", "std::vector<VSFunction", "std::vector<VSMap", "std::vector<VSFilterDependency", "std::deque<", "std::function<", "std::thread", "std::ios", "std::basic_", "std::__detail::", "std::_Rb_tree", "std::_Hashtable",
    };
    // the "::" method of the class, possibly preceded by a return type
    for (auto n : names) {
        size_t p = dem.find(n);
        if (p == 0) return true;
        if (p != StringRef::npos && dem[p - 1] == ' ') {
            // only if the match is at template depth 0
            int depth = 0;
            for (size_t i = 0; i < p; i++) { if (dem[i] == '<' || dem[i] == '(') depth++; else if (dem[i] == '>' || dem[i] == ')') depth--; }
            if (depth == 0) return true;
        }
    }
    return false;
}


struct J {
    std::string s;
    void raw(StringRef x) { s.append(x.data(), x.size()); }
    void str(StringRef x) {
        s += '"';
        for (unsigned char c : x) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); s += b; }
            else s += c;
        }
        s += '"';
    }
    void num(int64_t v) { s += std::to_string(v); }
};

struct Exporter {
    Module &M;
    const DataLayout &DL;
    J j;
    std::map<const Value *, int> ids;
    std::map<const BasicBlock *, int> bbs;
    std::map<std::pair<const void *, const void *>, int> locIdx;
    std::vector<std::string> locs;
    std::map<std::string, int> locKeys;

    Exporter(Module &m) : M(m), DL(m.getDataLayout()) {}

    int loc(const DILocation *L) {
        if (!L) return -1;
        auto key = std::make_pair((const void *)L, (const void *)nullptr);
        auto it = locIdx.find(key);
        if (it != locIdx.end()) return it->second;
        int parent = loc(L->getInlinedAt());
        J k;
        k.raw("["); k.str(fileOf(L->getScope())); k.raw(","); k.num(L->getLine()); k.raw(","); k.num(L->getColumn()); k.raw(","); k.num(parent); k.raw(",");
        auto *sp = L->getScope()->getSubprogram();
        k.str(sp ? sp->getName() : ""); k.raw("]");
        auto ki = locKeys.find(k.s);
        int idx;
        if (ki != locKeys.end()) idx = ki->second;
        else { idx = (int)locs.size(); locs.push_back(k.s); locKeys[k.s] = idx; }
        locIdx[key] = idx;
        return idx;
    }

    static std::string ty(Type *t) {
        if (auto *st = dyn_cast<StructType>(t)) if (st->hasName()) return st->getName().str();
        std::string r; raw_string_ostream o(r); t->print(o, false, true); return o.str();
    }

    // decompose GEP: constant byte offset and variable indices
    void gepBody(const GEPOperator *g) {
        unsigned bw = DL.getIndexTypeSizeInBits(g->getType());
        MapVector<Value *, APInt> vars;
        APInt off(bw, 0);
        j.raw(",\"st\":"); j.str(ty(g->getSourceElementType()));
        if (g->collectOffset(DL, bw, vars, off)) {
            j.raw(",\"off\":"); j.num(off.getSExtValue());
            if (!vars.empty()) {
                j.raw(",\"var\":[");
                bool f = true;
                for (auto &v : vars) { if (!f) j.raw(","); f = false; j.raw("["); op(v.first); j.raw(","); j.num(v.second.getSExtValue()); j.raw("]"); }
                j.raw("]");
            }
        }
    }

    void op(const Value *v) {
        auto it = ids.find(v);
        if (it != ids.end()) { j.num(it->second); return; }
        if (auto *c = dyn_cast<ConstantInt>(v)) {
            j.raw("[\"i\","); 
            if (c->getBitWidth() <= 64) j.num(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()); else j.raw("0");
            j.raw(","); j.num(c->getBitWidth()); j.raw("]"); return;
        }
        if (isa<ConstantPointerNull>(v)) { j.raw("[\"n\"]"); return; }
        if (isa<UndefValue>(v)) { j.raw("[\"u\"]"); return; }
        if (auto *c = dyn_cast<ConstantFP>(v)) {
            std::string s; 
            SmallString<32> ss; c->getValueAPF().toString(ss);
            j.raw("[\"f\","); j.str(ss); j.raw("]"); return;
        }
        if (auto *g = dyn_cast<GlobalValue>(v)) { j.raw("[\"g\","); j.str(g->getName()); j.raw("]"); return; }
        if (auto *b = dyn_cast<BasicBlock>(v)) { j.raw("[\"b\","); j.num(bbs[b]); j.raw("]"); return; }
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (auto *g = dyn_cast<GEPOperator>(ce)) {
                j.raw("[\"cg\","); op(g->getPointerOperand());
                APInt off(DL.getIndexTypeSizeInBits(g->getType()), 0);
                if (g->accumulateConstantOffset(DL, off)) { j.raw(","); j.num(off.getSExtValue()); } else j.raw(",null");
                j.raw("]"); return;
            }
            j.raw("[\"ce\","); j.str(ce->getOpcodeName());
            for (auto &o : ce->operands()) { j.raw(","); op(o.get()); }
            j.raw("]"); return;
        }
        if (auto *agg = dyn_cast<ConstantAggregateZero>(v)) { (void)agg; j.raw("[\"z\"]"); return; }
        if (isa<ConstantAggregate>(v) || isa<ConstantDataSequential>(v)) { init(cast<Constant>(v), 0); return; }
        j.raw("[\"o\"]");
    }

    void init(const Constant *c, int depth) {
        if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
            if (cds->isString() || cds->getElementType()->isIntegerTy(8)) { j.raw("[\"s\","); j.str(cds->getRawDataValues().take_front(4096)); j.raw("]"); return; }
            j.raw("[\"a\"");
            for (unsigned i = 0; i < cds->getNumElements() && i < 600; i++) { j.raw(","); op(cds->getElementAsConstant(i)); }
            j.raw("]"); return;
        }
        if (isa<ConstantAggregate>(c)) {
            j.raw("[\"a\"");
            unsigned n = 0;
            const StructLayout *sl = nullptr;
            if (auto *cs = dyn_cast<ConstantStruct>(c)) sl = DL.getStructLayout(cs->getType());
            for (auto &o : c->operands()) {
                if (n >= 600) break;
                j.raw(",");
                if (sl) { j.raw("[\"@\","); j.num(sl->getElementOffset(n)); j.raw(","); }
                if (depth < 6) init(cast<Constant>(o.get()), depth + 1); else j.raw("[\"o\"]");
                if (sl) j.raw("]");
                n++;
            }
            j.raw("]"); return;
        }
        op(c);
    }

    static std::string diTypeName(const DIType *t) {
        if (!t) return "void";
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType()) + "&&";
            case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType());
            case dwarf::DW_TAG_volatile_type: return diTypeName(d->getBaseType());
            case dwarf::DW_TAG_typedef: return d->getName().str();
            default: return d->getName().str();
            }
        }
        if (auto *c = dyn_cast<DICompositeType>(t)) {
            if (c->getTag() == dwarf::DW_TAG_array_type) {
                std::string r = diTypeName(c->getBaseType());
                for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
                    auto cnt = sr->getCount();
                    if (auto *ci = dyn_cast_if_present<ConstantInt *>(cnt)) r += "[" + std::to_string(ci->getSExtValue()) + "]";
                }
                return r;
            }
            return c->getName().str();
        }
        if (isa<DISubroutineType>(t)) return "fn";
        return t->getName().str();
    }

    // resolve typedef/const
    static const DIType *strip(const DIType *t) {
        while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
            if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType();
            else break;
        }
        return t;
    }
    static std::string canonName(const DIType *t) {
        t = strip(t);
        if (!t) return "void";
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return canonName(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return canonName(d->getBaseType()) + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return canonName(d->getBaseType()) + "&&";
            }
        }
        return diTypeName(t);
    }

    void types() {
        DebugInfoFinder F;
        F.processModule(M);
        j.raw("\"types\":{");
        bool first = true;
        std::set<std::string> seen;
        for (auto *t : F.types()) {
            auto *c = dyn_cast<DICompositeType>(t);
            if (!c || c->isForwardDecl()) continue;
            if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type && c->getTag() != dwarf::DW_TAG_enumeration_type) continue;
            std::string name = c->getName().str();
            // qualify with enclosing scopes
            std::string q;
            for (auto *s = c->getScope(); s; s = s->getScope()) {
                if (isa<DINamespace>(s) || isa<DICompositeType>(s)) { if (!s->getName().empty()) q = s->getName().str() + "::" + q; }
                else break;
            }
            std::string full = q + name;
            if (name.empty()) { full = q + "anon:" + std::to_string(c->getLine()); }
            if (StringRef(full).starts_with("std::") || StringRef(full).starts_with("__gnu")) continue;
            if (seen.count(full)) continue;
            seen.insert(full);
            if (!first) j.raw(",\n");
            first = false;
            j.str(full); j.raw(":{\"file\":"); j.str(fileOf(c)); j.raw(",\"line\":"); j.num(c->getLine()); j.raw(",\"size\":"); j.num(c->getSizeInBits() / 8);
            j.raw(",\"kind\":"); j.str(c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct");
            j.raw(",\"fields\":[");
            bool ff = true;
            for (auto *e : c->getElements()) {
                if (auto *en = dyn_cast<DIEnumerator>(e)) {
                    if (!ff) j.raw(","); ff = false;
                    j.raw("["); j.str(en->getName()); j.raw(","); j.num(en->getValue().getSExtValue()); j.raw("]");
                } else if (auto *d = dyn_cast<DIDerivedType>(e)) {
                    if (d->isStaticMember()) continue;
                    if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
                    if (!ff) j.raw(","); ff = false;
                    j.raw("["); j.str(d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName()); j.raw(","); j.num(d->getOffsetInBits() / 8); j.raw(","); j.num((d->getSizeInBits() ? d->getSizeInBits() : d->getBaseType() ? strip(d->getBaseType()) ? strip(d->getBaseType())->getSizeInBits() : 0 : 0) / 8); j.raw(",");
                    j.str(diTypeName(d->getBaseType())); j.raw(","); 
                    auto *bt = strip(d->getBaseType());
                    std::string bn;
                    if (auto *bc = dyn_cast_or_null<DICompositeType>(bt)) {
                        std::string bq;
                        for (auto *s = bc->getScope(); s; s = s->getScope()) {
                            if (isa<DINamespace>(s) || isa<DICompositeType>(s)) { if (!s->getName().empty()) bq = s->getName().str() + "::" + bq; } else break;
                        }
                        bn = bq + (bc->getName().empty() ? "anon:" + std::to_string(bc->getLine()) : bc->getName().str());
                        if (bc->getTag() == dwarf::DW_TAG_array_type) bn = "";
                    }
                    j.str(bn); j.raw("]");
                }
            }
            j.raw("]}");
        }
        j.raw("}");
    }

    void inst(const Instruction &I) {
        j.raw("{\"o\":");
        j.str(I.getOpcodeName());
        auto it = ids.find(&I);
        if (it != ids.end()) { j.raw(",\"i\":"); j.num(it->second); }
        if (I.getDebugLoc()) { j.raw(",\"l\":"); j.num(loc(I.getDebugLoc().get())); }
        if (auto *phi = dyn_cast<PHINode>(&I)) {
            j.raw(",\"ph\":[");
            for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) { if (k) j.raw(","); j.raw("["); j.num(bbs[phi->getIncomingBlock(k)]); j.raw(","); op(phi->getIncomingValue(k)); j.raw("]"); }
            j.raw("],\"t\":"); j.str(ty(phi->getType()));
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            j.raw(",\"f\":"); op(cb->getCalledOperand());
            j.raw(",\"a\":[");
            for (unsigned k = 0; k < cb->arg_size(); k++) { if (k) j.raw(","); op(cb->getArgOperand(k)); }
            j.raw("]");
            if (cb->doesNotThrow()) j.raw(",\"nt\":1");
            if (cb->doesNotReturn()) j.raw(",\"nr\":1");
            for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->paramHasAttr(k, Attribute::StructRet)) { j.raw(",\"sret\":"); j.num(k); }
            if (!cb->getType()->isVoidTy()) { j.raw(",\"t\":"); j.str(ty(cb->getType())); }
            if (auto *inv = dyn_cast<InvokeInst>(cb)) { j.raw(",\"s\":["); j.num(bbs[inv->getNormalDest()]); j.raw(","); j.num(bbs[inv->getUnwindDest()]); j.raw("]"); }
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            j.raw(",\"a\":["); op(g->getPointerOperand()); j.raw("]");
            gepBody(cast<GEPOperator>(g));
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            j.raw(",\"a\":["); op(sw->getCondition()); j.raw("],\"d\":"); j.num(bbs[sw->getDefaultDest()]); j.raw(",\"cs\":[");
            bool f = true;
            for (auto &c : sw->cases()) { if (!f) j.raw(","); f = false; j.raw("["); j.num(c.getCaseValue()->getSExtValue()); j.raw(","); j.num(bbs[c.getCaseSuccessor()]); j.raw("]"); }
            j.raw("]");
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) { j.raw(",\"a\":["); op(br->getCondition()); j.raw("]"); }
            j.raw(",\"s\":[");
            for (unsigned k = 0; k < br->getNumSuccessors(); k++) { if (k) j.raw(","); j.num(bbs[br->getSuccessor(k)]); }
            j.raw("]");
        } else if (auto *cmp = dyn_cast<CmpInst>(&I)) {
            j.raw(",\"p\":"); j.str(CmpInst::getPredicateName(cmp->getPredicate()));
            j.raw(",\"a\":["); op(cmp->getOperand(0)); j.raw(","); op(cmp->getOperand(1)); j.raw("]");
            j.raw(",\"ot\":"); j.str(ty(cmp->getOperand(0)->getType()));
        } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
            j.raw(",\"at\":"); j.str(ty(al->getAllocatedType()));
            auto sz = al->getAllocationSize(DL);
            if (sz && !sz->isScalable()) { j.raw(",\"sz\":"); j.num((int64_t)sz->getFixedValue()); }
            if (al->hasName()) { j.raw(",\"nm\":"); j.str(al->getName()); }
        } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            j.raw(",\"a\":["); op(ev->getAggregateOperand()); j.raw("],\"ix\":["); 
            bool f = true; for (auto x : ev->indices()) { if (!f) j.raw(","); f = false; j.num(x); } j.raw("]");
            j.raw(",\"t\":"); j.str(ty(ev->getType()));
        } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            j.raw(",\"a\":["); op(iv->getAggregateOperand()); j.raw(","); op(iv->getInsertedValueOperand()); j.raw("],\"ix\":[");
            bool f = true; for (auto x : iv->indices()) { if (!f) j.raw(","); f = false; j.num(x); } j.raw("]");
        } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
            j.raw(",\"cl\":"); j.raw(lp->isCleanup() ? "1" : "0"); j.raw(",\"ct\":[");
            for (unsigned k = 0; k < lp->getNumClauses(); k++) { if (k) j.raw(","); j.raw("["); j.str(lp->isCatch(k) ? "c" : "f"); j.raw(","); op(lp->getClause(k)); j.raw("]"); }
            j.raw("]");
        } else {
            j.raw(",\"a\":[");
            for (unsigned k = 0; k < I.getNumOperands(); k++) { if (k) j.raw(","); op(I.getOperand(k)); }
            j.raw("]");
            if (auto *st = dyn_cast<StoreInst>(&I)) { j.raw(",\"t\":"); j.str(ty(st->getValueOperand()->getType())); j.raw(",\"sz\":"); j.num(DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue()); if (st->isAtomic()) j.raw(",\"at\":1"); }
            else if (auto *ld = dyn_cast<LoadInst>(&I)) { j.raw(",\"t\":"); j.str(ty(ld->getType())); j.raw(",\"sz\":"); j.num(DL.getTypeStoreSize(ld->getType()).getFixedValue()); if (ld->isAtomic()) j.raw(",\"at\":1"); }
            else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) { j.raw(",\"p\":"); j.str(AtomicRMWInst::getOperationName(rmw->getOperation())); }
            else if (!I.getType()->isVoidTy()) { j.raw(",\"t\":"); j.str(ty(I.getType())); }
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) j.raw(",\"nsw\":1"); }
            if (isa<CastInst>(I)) { j.raw(",\"ft\":"); j.str(ty(I.getOperand(0)->getType())); }
        }
        j.raw("}");
    }

    void func(Function &F) {
        ids.clear(); bbs.clear();
        int n = 0, b = 0;
        for (auto &A : F.args()) ids[&A] = n++;
        for (auto &BB : F) { bbs[&BB] = b++; for (auto &I : BB) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
        auto *sp = F.getSubprogram();
        j.raw("{\"name\":"); j.str(F.getName());
        j.raw(",\"dem\":"); j.str(demangle(F.getName().str()));
        j.raw(",\"file\":"); j.str(sp ? fileOf(sp) : "");
        j.raw(",\"line\":"); j.num(sp ? sp->getLine() : 0);
        j.raw(",\"sname\":"); j.str(sp ? sp->getName() : "");
        j.raw(",\"ext\":"); j.num(F.hasExternalLinkage());
        if (F.doesNotThrow()) j.raw(",\"nt\":1");
        j.raw(",\"args\":[");
        for (unsigned k = 0; k < F.arg_size(); k++) { if (k) j.raw(","); j.str(F.getArg(k)->getName()); }
        j.raw("],\"dtypes\":[");
        if (sp && sp->getType()) {
            bool f = true;
            for (auto *t : sp->getType()->getTypeArray()) { if (!f) j.raw(","); f = false; j.str(canonName(t)); }
        }
        j.raw("],\"sret\":"); j.num(F.hasStructRetAttr());
        // loops
        DominatorTree DT(F);
        LoopInfo LI(DT);
        j.raw(",\"loops\":[");
        bool f = true;
        for (auto *L : LI.getLoopsInPreorder()) {
            if (!f) j.raw(","); f = false;
            j.raw("{\"h\":"); j.num(bbs[L->getHeader()]); j.raw(",\"b\":[");
            bool ff = true;
            for (auto *B : L->blocks()) { if (!ff) j.raw(","); ff = false; j.num(bbs[B]); }
            j.raw("]}");
        }
        j.raw("],\"blocks\":[\n");
        bool fb = true;
        for (auto &BB : F) {
            if (!fb) j.raw(",\n"); fb = false;
            j.raw("[");
            bool fi = true;
            for (auto &I : BB) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (!fi) j.raw(",\n"); fi = false;
                inst(I);
            }
            j.raw("]");
        }
        j.raw("]}");
    }
};

static void simplify(Function &F) {
    bool ch = true;
    int rounds = 0;
    while (ch && rounds++ < 10) {
        ch = false;
        for (auto it = F.begin(); it != F.end();) { BasicBlock *B = &*it++; ch |= ConstantFoldTerminator(B, true); }
        ch |= removeUnreachableBlocks(F);
        for (auto it = F.begin(); it != F.end();) { BasicBlock *B = &*it++; if (B != &F.getEntryBlock()) ch |= MergeBlockIntoPredecessor(B); }
    }
    for (auto &BB : F) for (auto it = BB.begin(); it != BB.end();) { Instruction *I = &*it++; if (isInstructionTriviallyDead(I)) I->eraseFromParent(); }
}

int main(int argc, char **argv) {
    if (argc < 3) { errs() << "usage: vsir in.bc out.json [--core] [--prefix=P]\n"; return 2; }
    for (int i = 3; i < argc; i++) {
        StringRef a(argv[i]);
        if (a == "--core") coreMode = true;
        else if (a == "--flat") coreMode = flatMode = true;   // repo functions stay calls
        else if (a == "--cython") coreMode = flatMode = cyMode = true;   // neither do the utilities of the Cython compiler disappear
        else if (a.starts_with("--prefix=")) repoPrefix = a.substr(9).str();
    }
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if (!M) { err.print("vsir", errs()); return 2; }
    // -O0 marks everything noinline
    for (auto &F : *M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }

    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {
        ModulePassManager MPM;
        MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
        MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
        MPM.run(*M, MAM);
    }
    // decide inlining bottom-up
    std::map<Function *, bool> api;
    std::map<Function *, unsigned> size;
    std::set<Function *> inl;
    {
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
            const auto &scc = *it;
            bool rec = it.hasCycle();
            for (auto *node : scc) {
                Function *F = node->getFunction();
                if (!F || F->isDeclaration()) continue;
                bool a = touchesAPI(*F);
                unsigned sz = sizeOf(*F);
                for (auto &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *c = cb->getCalledFunction()) {
                    if (api.count(c) && api[c]) a = true;
                    if (inl.count(c)) sz += size[c];
                }
                api[F] = a; size[F] = sz;
                std::string dem = demangle(F->getName().str());
                bool repo = inRepo(*F);
                bool yes;
                if (cyMode && (dem.find("__Pyx_") != std::string::npos || dem.find("__pyx_") != std::string::npos)) yes = false;
                else if (flatMode && (repo || dem.find("SemiStaticVector") != std::string::npos || dem.find("vs_intrusive_ptr") != std::string::npos ||
                        dem.find("std::unique_lock<") == 0 || dem.find("std::lock_guard<") == 0 || dem.find("std::unique_ptr<") == 0 || dem.find("from_chars<") != std::string::npos || dem.find("std::shared_ptr<") == 0)) yes = false;
                else if (rec || F->isVarArg() || F->hasFnAttribute(Attribute::Naked)) yes = false;
                else if (noInlineName(dem)) yes = false;
                else if (repo) yes = coreMode ? sz <= 60 : ((a && sz <= 6000) || sz <= 150);
                else if (dem.find("unique_ptr<") != std::string::npos || dem.find("default_delete<") != std::string::npos || dem.find("make_unique<") != std::string::npos) yes = sz <= 4000;
                else yes = sz <= 80 || (a && sz <= 6000);
                if (yes) { inl.insert(F); F->addFnAttr(Attribute::AlwaysInline); }
            }
        }
    }
    {
        ModulePassManager MPM;
        MPM.addPass(AlwaysInlinerPass(false));
        FunctionPassManager FPM;
        FPM.addPass(LowerExpectIntrinsicPass());
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(InstSimplifyPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    for (auto &F : *M) if (!F.isDeclaration()) simplify(F);
    LAM.clear(); CGAM.clear(); FAM.clear(); MAM.clear();
    {
        ModulePassManager MPM;
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(InstSimplifyPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    for (auto &F : *M) if (!F.isDeclaration()) simplify(F);

    Exporter E(*M);
    E.j.raw("{\"source\":"); E.j.str(M->getSourceFileName()); E.j.raw(",\n");
    E.types();
    E.j.raw(",\n\"globals\":{");
    bool first = true;
    for (auto &G : M->globals()) {
        if (!first) E.j.raw(",\n"); first = false;
        E.j.str(G.getName()); E.j.raw(":{\"const\":"); E.j.num(G.isConstant());
        E.j.raw(",\"tls\":"); E.j.num(G.isThreadLocal());
        SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
        if (!gv.empty()) { auto *v = gv[0]->getVariable(); E.j.raw(",\"nm\":"); E.j.str(v->getName()); E.j.raw(",\"file\":"); E.j.str(fileOf(v->getFile())); E.j.raw(",\"line\":"); E.j.num(v->getLine()); E.j.raw(",\"ty\":"); E.j.str(Exporter::diTypeName(v->getType())); }
        if (G.hasInitializer()) { E.j.raw(",\"init\":"); E.init(G.getInitializer(), 0); }
        E.j.raw("}");
    }
    E.j.raw("},\n\"decls\":{");
    first = true;
    for (auto &F : *M) {
        if (!first) E.j.raw(",\n"); first = false;
        E.j.str(F.getName()); E.j.raw(":["); E.j.str(demangle(F.getName().str())); E.j.raw(","); E.j.num(F.doesNotThrow()); E.j.raw(","); E.j.num(F.isDeclaration()); E.j.raw(","); E.j.num(inRepo(F)); E.j.raw("]");
    }
    E.j.raw("},\n\"aliases\":{");
    first = true;
    for (auto &A : M->aliases()) {
        auto *t = dyn_cast<Function>(A.getAliaseeObject());
        if (!t) continue;
        if (!first) E.j.raw(","); first = false;
        E.j.str(A.getName()); E.j.raw(":"); E.j.str(t->getName());
    }
    E.j.raw("},\n\"funcs\":[");
    first = true;
    bool allf = coreMode;   // container internals reach destructors of core objects
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        if (!allf && !inRepo(F)) continue;
        // pure helpers that were inlined everywhere still get exported: the whole-program analyses want them
        if (!first) E.j.raw(",\n"); first = false;
        E.func(F);
    }
    E.j.raw("],\n\"locs\":[");
    for (size_t i = 0; i < E.locs.size(); i++) { if (i) E.j.raw(",\n"); E.j.raw(E.locs[i]); }
    E.j.raw("]}\n");
    std::error_code ec;
    raw_fd_ostream o(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    o << E.j.s;
    return 0;
}
