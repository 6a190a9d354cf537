#include "exec.h"

#include <cxxabi.h>
#include <sys/resource.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>

#include "llvm/ADT/APFloat.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Operator.h"

using namespace llvm;

namespace symx {
static Expr g_uninitNode;
const Expr* const UNINIT = &g_uninitNode;

Obj::~Obj() {
    for (Page* p : pages)
        if (p && --p->rc == 0) delete p;
    for (auto& kv : big)
        if (kv.second && --kv.second->rc == 0) delete kv.second;
    extern void freeShadow(Shadow*);
    if (shadow) freeShadow(shadow);
}

double nowSec() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::string demangle(const std::string& s) {
    int st = 0;
    char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if (st == 0 && d) {
        std::string r = d;
        free(d);
        return r;
    }
    return s;
}

Exec::Exec(Module& m) : M(m), DL(m.getDataLayout()) {}

// ------------------------------------------------------------------ decoding
const std::vector<Leaf>& Exec::leavesOf(Type* t) {
    static std::unordered_map<Type*, std::vector<Leaf>*> cache;
    auto it = cache.find(t);
    if (it != cache.end()) return *it->second;
    auto* v = new std::vector<Leaf>();
    if (t->isIntegerTy()) {
        v->push_back({t->getIntegerBitWidth(), 0});
    } else if (t->isPointerTy()) {
        v->push_back({64, 0});
    } else if (t->isFloatTy()) {
        v->push_back({32, 0});
    } else if (t->isDoubleTy()) {
        v->push_back({64, 0});
    } else if (t->isX86_FP80Ty()) {
        v->push_back({80, 0});
    } else if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            u32 o = sl->getElementOffset(i);
            for (auto& l : leavesOf(st->getElementType(i))) v->push_back({l.w, l.off + o});
        }
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL.getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++)
            for (auto& l : leavesOf(at->getElementType())) v->push_back({l.w, (u32)(l.off + i * es)});
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL.getTypeStoreSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++)
            for (auto& l : leavesOf(vt->getElementType())) v->push_back({l.w, (u32)(l.off + i * es)});
    } else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {
    } else {
        std::string s;
        raw_string_ostream os(s);
        t->print(os);
        fprintf(stderr, "unsupported type %s\n", os.str().c_str());
        v->push_back({64, 0});
    }
    cache[t] = v;
    return *v;
}

static const GlobalValue* stripAlias(const GlobalValue* g) {
    while (auto* a = dyn_cast<GlobalAlias>(g)) {
        auto* t = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts());
        if (!t) break;
        g = t;
    }
    return g;
}

static Val constBin(unsigned op, u64 a, u64 b, u32 w);

void Exec::flattenConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& v = ci->getValue();
        if (v.getBitWidth() <= 64) out.push_back(cval(v.getZExtValue()));
        else {
            u128 x = v.getRawData()[0];
            if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
            out.push_back(Val{0, mkConst(x, v.getBitWidth())});
        }
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) out.push_back(cval(v.getZExtValue()));
        else out.push_back(Val{0, mkConst((u128)v.getRawData()[0] | ((u128)v.getRawData()[1] << 64), v.getBitWidth())});
        return;
    }
    if (isa<ConstantPointerNull>(c)) {
        out.push_back(cval(0));
        return;
    }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        for (auto& l : leavesOf(t)) out.push_back(l.w > 64 ? Val{0, mkConst(0, l.w)} : cval(0));
        return;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(stripAlias(gv));
        if (it == gaddr.end()) {
            fprintf(stderr, "no address for global %s\n", gv->getName().str().c_str());
            out.push_back(cval(0));
        } else
            out.push_back(cval(it->second));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) flattenConst(cd->getElementAsConstant(i), out);
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) flattenConst(ca->getOperand(i), out);
        return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                std::vector<Val> b;
                flattenConst(ce->getOperand(0), b);
                APInt off(64, 0);
                cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off);
                out.push_back(cval(b[0].c + off.getSExtValue()));
                return;
            }
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast: {
                std::vector<Val> b;
                flattenConst(ce->getOperand(0), b);
                out.push_back(b[0]);
                return;
            }
            case Instruction::Trunc:
            case Instruction::ZExt: {
                std::vector<Val> b;
                flattenConst(ce->getOperand(0), b);
                out.push_back(cval(b[0].c & (u64)maskOf(ce->getType()->getIntegerBitWidth())));
                return;
            }
            default: {
                if (Instruction::isBinaryOp(ce->getOpcode())) {
                    std::vector<Val> a, b;
                    flattenConst(ce->getOperand(0), a);
                    flattenConst(ce->getOperand(1), b);
                    out.push_back(constBin(ce->getOpcode(), a[0].c, b[0].c, 64));
                    return;
                }
                if (ce->getOpcode() == Instruction::ICmp) {
                    std::vector<Val> a, b;
                    flattenConst(ce->getOperand(0), a);
                    flattenConst(ce->getOperand(1), b);
                    out.push_back(icmp(ce->getPredicate(), a[0], b[0], 64));
                    return;
                }
                fprintf(stderr, "unsupported constexpr %s\n", ce->getOpcodeName());
                out.push_back(cval(0));
                return;
            }
        }
    }
    if (isa<BlockAddress>(c)) {
        out.push_back(cval(0));
        return;
    }
    inconclusive.insert("unsupported constant");
    for (auto& l : leavesOf(t)) {
        (void)l;
        out.push_back(cval(0));
    }
}

FnInfo* Exec::getFn(const Function* F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    auto* f = new FnInfo();
    f->F = F;
    f->name = F->getName().str();
    fns[F] = f;
    return f;
}

void Exec::decode(FnInfo* f) {
    f->decoded = true;
    const Function& F = *f->F;
    std::unordered_map<const Value*, u32> slot;
    std::unordered_map<const BasicBlock*, u32> bidx;
    u32 n = 0;
    for (auto& a : F.args()) {
        slot[&a] = n;
        u32 k = leavesOf(a.getType()).size();
        f->argSlot.push_back(n);
        f->argN.push_back(k);
        n += k;
    }
    for (auto& B : F) {
        u32 k = bidx.size();
        bidx[&B] = k;
        for (auto& I : B) {
            slot[&I] = n;
            n += leavesOf(I.getType()).size();
        }
    }
    f->nregs = n;
    std::unordered_map<const Value*, int32_t> cslot;
    auto opd = [&](const Value* v) -> Opd {
        auto it = slot.find(v);
        if (it != slot.end()) return Opd{(int32_t)it->second};
        auto ic = cslot.find(v);
        if (ic != cslot.end()) return Opd{ic->second};
        int32_t k = ~(int32_t)f->consts.size();
        if (auto* c = dyn_cast<Constant>(v)) flattenConst(c, f->consts);
        else f->consts.push_back(cval(0));  // metadata, inline asm
        cslot[v] = k;
        return Opd{k};
    };
    f->blockStart.resize(bidx.size());
    f->phis.resize(bidx.size());
    auto leafW = [&](Type* t) -> u32 {
        auto& l = leavesOf(t);
        return l.empty() ? 0 : l[0].w;
    };
    for (auto& B : F) {
        u32 bi = bidx[&B];
        f->blockStart[bi] = f->code.size();
        for (auto& I : B) {
            if (auto* phi = dyn_cast<PHINode>(&I)) {
                u32 nn = leavesOf(phi->getType()).size();
                for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) {
                    u32 pb = bidx[phi->getIncomingBlock(i)];
                    auto& mv = f->phis[bi][pb];
                    bool dup = false;  // the same predecessor may be listed more than once (switch)
                    for (auto& m : mv)
                        if (m.dst == slot[&I]) dup = true;
                    if (!dup) mv.push_back({slot[&I], opd(phi->getIncomingValue(i)), nn});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DI d;
            d.I = &I;
            d.op = I.getOpcode();
            d.dst = slot[&I];
            d.n = leavesOf(I.getType()).size();
            d.w = leafW(I.getType());
            switch (I.getOpcode()) {
                case Instruction::Br: {
                    auto* br = cast<BranchInst>(&I);
                    d.x = new Extra();
                    d.x->t = bidx[br->getSuccessor(0)];
                    if (br->isConditional()) {
                        d.a = opd(br->getCondition());
                        d.x->f = bidx[br->getSuccessor(1)];
                        d.pred = 1;
                    }
                    break;
                }
                case Instruction::Switch: {
                    auto* sw = cast<SwitchInst>(&I);
                    d.x = new Extra();
                    d.a = opd(sw->getCondition());
                    d.w = leafW(sw->getCondition()->getType());
                    d.x->t = bidx[sw->getDefaultDest()];
                    for (auto& c : sw->cases())
                        d.x->cases.push_back({c.getCaseValue()->getValue().getZExtValue(), bidx[c.getCaseSuccessor()]});
                    break;
                }
                case Instruction::Load: {
                    auto* li = cast<LoadInst>(&I);
                    d.a = opd(li->getPointerOperand());
                    d.x = new Extra();
                    d.x->leaves = &leavesOf(li->getType());
                    d.x->size = DL.getTypeStoreSize(li->getType());
                    d.x->align = li->getAlign().value();
                    d.pred = li->isAtomic();
                    break;
                }
                case Instruction::Store: {
                    auto* si = cast<StoreInst>(&I);
                    d.a = opd(si->getPointerOperand());
                    d.b = opd(si->getValueOperand());
                    d.x = new Extra();
                    d.x->leaves = &leavesOf(si->getValueOperand()->getType());
                    d.x->size = DL.getTypeStoreSize(si->getValueOperand()->getType());
                    d.x->align = si->getAlign().value();
                    d.pred = si->isAtomic();
                    break;
                }
                case Instruction::AtomicRMW: {
                    auto* ai = cast<AtomicRMWInst>(&I);
                    d.a = opd(ai->getPointerOperand());
                    d.b = opd(ai->getValOperand());
                    d.pred = ai->getOperation();
                    break;
                }
                case Instruction::AtomicCmpXchg: {
                    auto* ai = cast<AtomicCmpXchgInst>(&I);
                    d.a = opd(ai->getPointerOperand());
                    d.b = opd(ai->getCompareOperand());
                    d.c = opd(ai->getNewValOperand());
                    d.w = leafW(ai->getNewValOperand()->getType());
                    break;
                }
                case Instruction::Alloca: {
                    auto* ai = cast<AllocaInst>(&I);
                    d.a = opd(ai->getArraySize());
                    d.x = new Extra();
                    d.x->size = DL.getTypeAllocSize(ai->getAllocatedType());
                    d.x->align = ai->getAlign().value();
                    d.w2 = leafW(ai->getArraySize()->getType());
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto* g = cast<GetElementPtrInst>(&I);
                    d.a = opd(g->getPointerOperand());
                    d.x = new Extra();
                    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                        Value* op = gti.getOperand();
                        if (StructType* st = gti.getStructTypeOrNull()) {
                            d.x->constOff += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
                        } else {
                            u64 sc = gti.getSequentialElementStride(DL);
                            if (auto* ci = dyn_cast<ConstantInt>(op)) d.x->constOff += (i64)sc * ci->getSExtValue();
                            else d.x->idx.push_back({opd(op), sc, leafW(op->getType())});
                        }
                    }
                    break;
                }
                case Instruction::ExtractValue: {
                    auto* ev = cast<ExtractValueInst>(&I);
                    d.a = opd(ev->getAggregateOperand());
                    u32 off = 0;
                    Type* t = ev->getAggregateOperand()->getType();
                    for (unsigned ix : ev->indices()) {
                        for (unsigned k = 0; k < ix; k++) off += leavesOf(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()).size();
                        t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType();
                    }
                    d.x = new Extra();
                    d.x->leafOff = off;
                    break;
                }
                case Instruction::InsertValue: {
                    auto* iv = cast<InsertValueInst>(&I);
                    d.a = opd(iv->getAggregateOperand());
                    d.b = opd(iv->getInsertedValueOperand());
                    u32 off = 0;
                    Type* t = iv->getType();
                    for (unsigned ix : iv->indices()) {
                        for (unsigned k = 0; k < ix; k++) off += leavesOf(isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType()).size();
                        t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType();
                    }
                    d.x = new Extra();
                    d.x->leafOff = off;
                    d.x->t = leavesOf(t).size();
                    break;
                }
                case Instruction::ShuffleVector: {
                    auto* sv = cast<ShuffleVectorInst>(&I);
                    d.a = opd(sv->getOperand(0));
                    d.b = opd(sv->getOperand(1));
                    d.x = new Extra();
                    for (int m : sv->getShuffleMask()) d.x->mask.push_back(m);
                    d.x->t = leavesOf(sv->getOperand(0)->getType()).size();
                    break;
                }
                case Instruction::Call:
                case Instruction::Invoke: {
                    auto* cb = cast<CallBase>(&I);
                    d.x = new Extra();
                    for (auto& a : cb->args()) {
                        d.x->args.push_back(opd(a.get()));
                        auto& lv = leavesOf(a->getType());
                        d.x->argN.push_back(lv.size());
                        d.x->argW.push_back(lv.empty() ? 0 : lv[0].w);
                    }
                    d.x->nFixed = cb->getFunctionType()->getNumParams();
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                        d.x->t = bidx[inv->getNormalDest()];
                        d.x->f = bidx[inv->getUnwindDest()];
                    }
                    const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* g = dyn_cast<GlobalValue>(cv)) cv = stripAlias(g);
                    if (auto* cf = dyn_cast<Function>(cv)) {
                        if (cf->isIntrinsic()) d.x->iid = cf->getIntrinsicID();
                        d.x->callee = getFn(cf);
                        if (!cf->isIntrinsic()) {
                            d.x->ext = findExt(cf->getName().str());
                            if (d.x->ext) {
                                externsUsed.insert(cf->getName().str());
                            }
                        }
                    } else {
                        d.a = opd(cv);
                        if (isa<InlineAsm>(cv)) d.pred = 77;
                    }
                    break;
                }
                case Instruction::Ret: {
                    auto* r = cast<ReturnInst>(&I);
                    if (r->getReturnValue()) {
                        d.a = opd(r->getReturnValue());
                        d.n = leavesOf(r->getReturnValue()->getType()).size();
                    } else
                        d.n = 0;
                    break;
                }
                case Instruction::ICmp:
                case Instruction::FCmp: {
                    auto* ci = cast<CmpInst>(&I);
                    d.a = opd(ci->getOperand(0));
                    d.b = opd(ci->getOperand(1));
                    d.w = leafW(ci->getOperand(0)->getType());
                    d.pred = ci->getPredicate();
                    break;
                }
                default: {
                    unsigned no = I.getNumOperands();
                    if (no > 0) {
                        d.a = opd(I.getOperand(0));
                        d.w2 = leafW(I.getOperand(0)->getType());
                    }
                    if (no > 1) d.b = opd(I.getOperand(1));
                    if (no > 2) d.c = opd(I.getOperand(2));
                    if (isa<SelectInst>(&I)) d.pred = I.getOperand(0)->getType()->isVectorTy();
                    break;
                }
            }
            f->code.push_back(d);
            f->instBlock.push_back(bi);
        }
    }
    f->covered.assign(f->code.size(), 0);
}

// ------------------------------------------------------------------ globals
void Exec::writeConst(State& s, Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;  // zero filled
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = DL.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(s, o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(s, o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = cd->getElementByteSize();
        StringRef raw = cd->getRawDataValues();
        for (u64 i = 0; i < es * cd->getNumElements(); i++) setByte(o, off + i, SB{nullptr, 0}, (u8)raw[i]);
        return;
    }
    std::vector<Val> v;
    flattenConst(c, v);
    auto& lv = leavesOf(t);
    for (size_t i = 0; i < lv.size(); i++) storeLeaf(s, o, off + lv[i].off, lv[i].w, v[i]);
}

void Exec::initGlobals(State& s) {
    s.objs.emplace_back();  // id 0 = null
    for (auto& F : M) {
        FnInfo* f = getFn(&F);
        fnByName[f->name] = f;
        u32 id = newObj(s, 1, K_FUNC, 0x10000, true, f->name.c_str(), nullptr);
        s.objs[id].p->fn = &F;
        f->addr = s.objs[id].p->addr();
        gaddr[&F] = f->addr;
        fnByObj[id] = f;
    }
    for (auto& G : M.globals()) {
        u64 sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()) : 8;
        if (!G.hasInitializer() && sz < 256) sz = 256;
        u32 id = newObj(s, sz, K_GLOBAL, 0x10000, true, strdup(G.getName().str().c_str()), nullptr);
        gaddr[&G] = s.objs[id].p->addr();
        if (!G.hasInitializer()) {
            std::string n = G.getName().str();
            if (n.rfind("_ZTVN10__cxxabiv1", 0) == 0) abiVt[n] = s.objs[id].p->addr();
            else if (n != "__dso_handle" && n.rfind("_ZTI", 0) != 0) externsUnmodelled.insert("global:" + n);
        }
    }
    for (auto& G : M.globals())
        if (G.hasInitializer()) {
            Obj* o = objW(s, gaddr[&G] >> 32);
            writeConst(s, o, 0, G.getInitializer());
            if (G.isConstant()) o->readonly = true;
        }
}

// ------------------------------------------------------------------ reporting
std::string Exec::locOf(const Instruction* I) {
    if (!I) return "?";
    std::string fn = demangle(I->getFunction()->getName().str());
    if (auto* l = I->getDebugLoc().get()) {
        std::string file = l->getFilename().str();
        return fn + " (" + file + ":" + std::to_string(l->getLine()) + ")";
    }
    return fn;
}
static bool interestingFile(const std::string& f) { return f.find("/usr/") == std::string::npos && f.find("models/") == std::string::npos; }

// first frame that is in repository / harness code
std::string Exec::where(State& s) {
    auto& st = s.th[s.cur].stack;
    for (size_t i = st.size(); i-- > 0;) {
        Frame& f = st[i];
        if (f.ip >= f.fn->code.size()) continue;
        const Instruction* I = f.fn->code[f.ip].I;
        const DILocation* l = I->getDebugLoc().get();
        while (l) {
            std::string file = l->getFilename().str();
            if (!file.empty() && interestingFile(file)) {
                std::string fn;
                if (auto* sp = l->getScope()->getSubprogram()) fn = demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
                return fn + " @ " + file;
            }
            l = l->getInlinedAt();
        }
    }
    return st.empty() ? "?" : locOf(st.back().fn->code[std::min<size_t>(st.back().ip, st.back().fn->code.size() - 1)].I);
}

void Exec::report(State& s, const Model& m, const std::string& kind, const std::string& msg) {
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.loc = where(s);
    for (auto& o : violations)
        if (o.key() == v.key()) {
            o.count++;
            return;
        }
    auto& st = s.th[s.cur].stack;
    for (size_t i = st.size(); i-- > 0;) {
        Frame& f = st[i];
        if (f.ip >= f.fn->code.size()) continue;
        const Instruction* I = f.fn->code[f.ip].I;
        const DILocation* l = I->getDebugLoc().get();
        if (!l) v.stack.push_back(demangle(f.fn->name));
        while (l) {
            std::string fn;
            if (auto* sp = l->getScope()->getSubprogram()) fn = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
            v.stack.push_back(fn + " " + l->getFilename().str() + ":" + std::to_string(l->getLine()));
            l = l->getInlinedAt();
        }
    }
    for (auto& r : s.syms) {
        std::string hex;
        char b[4];
        for (E e : r.bytes) {
            snprintf(b, sizeof b, "%02x", (unsigned)evalExpr(e, m));
            hex += b;
        }
        v.values.push_back({r.name, hex});
    }
    v.schedule = s.schedule;
    if (violations.empty()) firstViolation = nowSec();
    violations.push_back(v);
    if (violations.size() > 40) stop = true;
}
void Exec::violation(State& s, const std::string& kind, const std::string& msg) {
    report(s, s.model, kind, msg);
    throw PathEnd{"violation"};
}
void Exec::incon(State& s, const std::string& what) { inconclusive.insert(what + " at " + where(s)); }

// ------------------------------------------------------------------ decisions
void Exec::addConstraint(State& s, E c) {
    if (isTrue(c)) return;
    if (c->op == OP_AND && c->width == 1) {
        addConstraint(s, c->a);
        addConstraint(s, c->b);
        return;
    }
    s.pc.push_back(c);
    E v = c->op == OP_EQ ? (isConst(c->b) ? c->a : c->b) : c->op == OP_NOT && c->width == 1 ? c->a : c;
    if (c->op == OP_EQ && !isConst(c->a) && !isConst(c->b)) return;
    if (v->op == OP_VAR) {
        u32 id = (u32)v->val;
        if (s.fixed.size() <= id) s.fixed.resize(id + 1, 0);
        s.fixed[id] |= 1;
    }
}
// e with the parts that have only one value on this path replaced by it
E Exec::simplified(State& s, E e) {
    if (isConst(e)) return e;
    bool hit = false, all = true;
    for (u32 v : supportOf(e)) {
        u8 f = v < s.fixed.size() ? s.fixed[v] : 0;
        if (f) hit = true;
        if (!(f & 1)) all = false;
    }
    if (all) return mkConst(evalExpr(e, s.model), e->width);
    if (!hit) return e;
    std::unordered_map<E, E> memo;
    for (auto& k : s.known) memo[k.first] = mkConst(k.second, k.first->width);
    int budget = 20000;
    std::function<E(E)> go = [&](E x) -> E {
        if (isConst(x)) return x;
        if (x->op == OP_VAR) {
            u32 id = (u32)x->val;
            if (id < s.fixed.size() && (s.fixed[id] & 1)) return mkConst(evalExpr(x, s.model), x->width);
            auto it = memo.find(x);
            return it == memo.end() ? x : it->second;
        }
        auto it = memo.find(x);
        if (it != memo.end()) return it->second;
        if (--budget < 0) return x;
        E a = x->a ? go(x->a) : nullptr, b = x->b ? go(x->b) : nullptr, c = x->c ? go(x->c) : nullptr;
        E r = x;
        if (a != x->a || b != x->b || c != x->c) r = rebuild(x, a, b, c);
        memo[x] = r;
        return r;
    };
    return go(e);
}
bool Exec::feasible(State& s, E c, Model& m) {
    Sat r = solve(s.pc, c, s.model, m);
    if (r == Sat::UNKNOWN) {
        incon(s, "solver timeout");
        return false;
    }
    return r == Sat::SAT;
}
// Truth value of c in this state; when both are possible the other one is explored from a clone of the state that
// re-executes the current instruction.
bool Exec::decide(State& s, E c) {
    if (isConst(c)) return c->val != 0;
    for (auto& p : s.pending)
        if (p.first == c) return p.second != 0;
    E c0 = c;
    c = simplified(s, c);
    if (isConst(c)) return c->val != 0;
    E nc = mkNot(c), nc0 = mkNot(c0);
    for (size_t i = s.pc.size(); i-- > 0;) {
        if (s.pc[i] == c || s.pc[i] == c0) return true;
        if (s.pc[i] == nc || s.pc[i] == nc0) return false;
    }
    bool v = evalExpr(c, s.model) != 0;
    Model m2;
    bool other = feasible(s, v ? nc : c, m2);
    if (other) {
        State* s2 = new State(s);
        addConstraint(*s2, v ? nc : c);
        s2->model = m2;
        s2->pending.push_back({c0, v ? 0 : 1});
        s2->forks++;
        work.push_back(s2);
        forks++;
        addConstraint(s, v ? c : nc);
        s.forks++;
        if (s.forks > maxDepth) maxDepth = s.forks;
    }
    s.pending.push_back({c0, v ? 1 : 0});
    return v;
}
u64 Exec::concretize(State& s, Val v, u32 w) {
    if (!v.e) return v.c;
    if (isConst(v.e)) return (u64)v.e->val;
    for (auto& p : s.pending)
        if (p.first == v.e) return (u64)p.second;
    for (size_t i = s.known.size(); i-- > 0;)
        if (s.known[i].first == v.e) return (u64)s.known[i].second;
    E e0 = v.e;
    v.e = simplified(s, v.e);
    if (isConst(v.e)) return (u64)v.e->val;
    if (s.concE == v.e && s.concN > lim.maxConcretize) {
        incon(s, "case split over more than " + std::to_string(lim.maxConcretize) + " values");
        throw PathEnd{"case split limit"};
    }
    u128 x = evalExpr(v.e, s.model);
    E eq = mkEq(v.e, mkConst(x, v.e->width));
    Model m2;
    if (feasible(s, mkNot(eq), m2)) {
        State* s2 = new State(s);
        s2->concN = s.concE == v.e ? s.concN + 1 : 1;
        s2->concE = v.e;
        addConstraint(*s2, mkNot(eq));
        s2->model = m2;
        s2->forks++;
        work.push_back(s2);
        forks++;
        s.forks++;
        if (s.forks > maxDepth) maxDepth = s.forks;
    }
    addConstraint(s, eq);
    s.pending.push_back({e0, x});
    s.known.push_back({v.e, x});
    if (e0 != v.e) s.known.push_back({e0, x});
    for (u32 id : supportOf(e0)) {
        if (s.fixed.size() <= id) s.fixed.resize(id + 1, 0);
        s.fixed[id] |= 2;
    }
    return (u64)x;
}

// ------------------------------------------------------------------ memory
u32 Exec::newObj(State& s, u64 size, ObjKind k, u32 base, bool zero, const char* name, const Instruction* site) {
    u32 id = s.objs.size();
    Obj* o = new Obj();
    o->id = id;
    o->base = base;
    o->size = size;
    o->kind = k;
    o->zeroFill = zero;
    o->name = name;
    o->site = site;
    u64 np = (size + PS - 1) / PS;
    if (np > 4096) o->isBig = true;
    else o->pages.assign(np, nullptr);
    s.objs.push_back(ObjP(o));
    return id;
}
Obj* Exec::objW(State& s, u32 id) {
    Obj* o = s.objs[id].p;
    if (o->rc == 1) return o;
    Obj* n = new Obj(*o);
    n->rc = 1;
    for (Page* p : n->pages)
        if (p) p->rc++;
    for (auto& kv : n->big)
        if (kv.second) kv.second->rc++;
    extern Shadow* cloneShadow(Shadow*);
    if (n->shadow) n->shadow = cloneShadow(n->shadow);
    s.objs[id] = ObjP(n);
    return n;
}
Page* Exec::pageW(Obj* o, u32 pi) {
    Page* p = o->page(pi);
    Page* n;
    if (!p) {
        n = new Page();
        memset(n->data, 0, PS);
        if (!o->zeroFill) {
            n->sym = new SB[PS];
            for (unsigned i = 0; i < PS; i++) n->sym[i] = SB{UNINIT, 0};
        }
    } else if (p->rc == 1)
        return p;
    else {
        n = new Page();
        memcpy(n->data, p->data, PS);
        if (p->sym) {
            n->sym = new SB[PS];
            memcpy(n->sym, p->sym, sizeof(SB) * PS);
        }
        p->rc--;
    }
    if (o->isBig) o->big[pi] = n;
    else o->pages[pi] = n;
    return n;
}
SB Exec::getSB(Obj* o, u64 off, u8& conc) {
    Page* p = o->page(off / PS);
    if (!p) {
        conc = 0;
        return SB{o->zeroFill ? nullptr : UNINIT, 0};
    }
    conc = p->data[off % PS];
    if (p->sym) return p->sym[off % PS];
    return SB{nullptr, 0};
}
void Exec::setByte(Obj* o, u64 off, SB sb, u8 conc) {
    Page* p = pageW(o, off / PS);
    p->data[off % PS] = conc;
    if (sb.e || p->sym) {
        if (!p->sym) {
            p->sym = new SB[PS];
            memset((void*)p->sym, 0, sizeof(SB) * PS);
        }
        p->sym[off % PS] = sb;
    }
}
E Exec::freshByte(const std::string& name) {
    auto it = varByName.find(name);
    if (it != varByName.end()) return mkVar(it->second, 8);
    u32 id = newVar(name, 8);
    varByName[name] = id;
    symVars++;
    return mkVar(id, 8);
}
E Exec::byteE(State& s, u32 id, u64 off) {
    Obj* o = s.objs[id].p;
    u8 c;
    SB sb = getSB(o, off, c);
    if (!sb.e) return mkConst(c, 8);
    if (sb.e == UNINIT) {
        E v = freshByte("uninit#" + std::to_string(s.uninitCounter++));
        o = objW(s, id);
        setByte(o, off, SB{v, 0}, 0);
        return v;
    }
    return mkExtract(sb.e, sb.idx * 8, 8);
}
Val Exec::loadLeaf(State& s, Obj* o, u64 off, u32 w) {
    u32 nb = (w + 7) / 8;
    u32 pi = off / PS, po = off % PS;
    Page* p = o->page(pi);
    if (p && po + nb <= PS && nb <= 8) {
        bool anySym = false;
        if (p->sym)
            for (u32 i = 0; i < nb; i++)
                if (p->sym[po + i].e) {
                    anySym = true;
                    break;
                }
        if (!anySym) {
            u64 v = 0;
            memcpy(&v, p->data + po, nb);
            if (w < 64) v &= ((u64)1 << w) - 1;
            return cval(v);
        }
        E e0 = p->sym[po].e;
        if (e0 && e0 != UNINIT && p->sym[po].idx == 0 && (e0->width + 7) / 8 == nb) {
            bool ok = true;
            for (u32 i = 1; i < nb; i++)
                if (p->sym[po + i].e != e0 || p->sym[po + i].idx != i) {
                    ok = false;
                    break;
                }
            if (ok) {
                E e = e0;
                if (e->width > w) e = mkExtract(e, 0, w);
                else if (e->width < w) e = mkZExt(e, w);
                return eval2val(e);
            }
        }
    }
    u32 id = o->id;
    E e = nullptr;
    for (u32 i = 0; i < nb; i++) {
        E b = byteE(s, id, off + i);
        e = e ? mkConcat(b, e) : b;
    }
    if (e->width > w) e = mkExtract(e, 0, w);
    return eval2val(e);
}
void Exec::storeLeaf(State& s, Obj* o, u64 off, u32 w, Val v) {
    u32 nb = (w + 7) / 8;
    if (v.e && isConst(v.e) && w <= 64) v = cval((u64)v.e->val);
    if (!v.e) {
        u32 po = off % PS;
        if (po + nb <= PS) {
            Page* p = pageW(o, off / PS);
            memcpy(p->data + po, &v.c, nb);
            if (p->sym) memset((void*)(p->sym + po), 0, sizeof(SB) * nb);
        } else
            for (u32 i = 0; i < nb; i++) setByte(o, off + i, SB{nullptr, 0}, (u8)(v.c >> (8 * i)));
        return;
    }
    E e = v.e;
    if (isConst(e)) {
        for (u32 i = 0; i < nb; i++) setByte(o, off + i, SB{nullptr, 0}, (u8)(e->val >> (8 * i)));
        return;
    }
    if (e->width % 8) e = mkZExt(e, nb * 8);
    // store constant bytes as constants so that partly concrete values stay concrete
    for (u32 i = 0; i < nb; i++) {
        SB sb{e, i};
        u8 c = 0;
        if (e->op == OP_ZEXT || e->op == OP_CONCAT) {
            E b = mkExtract(e, i * 8, 8);
            if (isConst(b)) {
                setByte(o, off + i, SB{nullptr, 0}, (u8)b->val);
                continue;
            }
        }
        setByte(o, off + i, sb, c);
    }
}

static u64 findBaseConst(E e) {
    // constant object base inside an addition chain
    if (e->op == OP_CONST) return (u64)e->val;
    if (e->op == OP_ADD) {
        if (isConst(e->b)) return (u64)e->b->val;
        u64 x = findBaseConst(e->a);
        if (x >> 32) return x;
        return findBaseConst(e->b);
    }
    if (e->op == OP_SUB) return findBaseConst(e->a);
    return 0;
}

static std::string objDesc(Obj* o, u64 off, u64 n) {
    std::string s = "offset " + std::to_string((i64)off) + " size " + std::to_string(n) + " in object of " + std::to_string(o->size) + " bytes";
    (void)n;
    return s;
}

// Resolve an address to (object id, offset).  offE is set when the offset stays symbolic (range-checked).
u64 Exec::resolve(State& s, Val addr, u64 n, bool write, u32& id, E& offE, u64& off) {
    offE = nullptr;
    if (addr.e && isConst(addr.e)) addr = cval((u64)addr.e->val);
    u64 av;
    bool symbolic = false;
    if (!addr.e) av = addr.c;
    else {
        for (auto& p : s.pending)
            if (p.first == addr.e) addr = cval((u64)p.second);
        if (addr.e)
            for (size_t i = s.known.size(); i-- > 0;)
                if (s.known[i].first == addr.e) {
                    addr = cval((u64)s.known[i].second);
                    break;
                }
        if (addr.e) {
            E se = simplified(s, addr.e);
            if (isConst(se)) addr = cval((u64)se->val);
            else addr.e = se;
        }
        if (addr.e) {
            symbolic = true;
            av = (u64)evalExpr(addr.e, s.model);
        } else
            av = addr.c;
    }
    const char* rw = write ? "write" : "read";
    if (!symbolic) {
        id = av >> 32;
        if (id == 0 || id >= s.objs.size()) {
            if (id == 0) violation(s, "memory", std::string("null pointer ") + rw);
            violation(s, "memory", std::string("wild pointer ") + rw);
        }
        Obj* o = s.objs[id].p;
        if (!o || o->kind == K_FREED) violation(s, "memory", std::string(rw) + " after free");
        off = (u32)av - (u64)o->base;
        if (o->symSize) {
            memChecks++;
            E ok = mkAnd(mkUle(mkConst(off, 64), o->symSize), mkUle(mkConst(n, 64), mkSub(o->symSize, mkConst(off, 64))));
            ok = simplified(s, ok);
            if (!isConst(ok)) {
                Model m2;
                if (feasible(s, mkNot(ok), m2)) {
                    report(s, m2, "memory", std::string("out-of-bounds ") + rw);
                    Model m3;
                    if (!feasible(s, ok, m3)) throw PathEnd{"oob"};
                    addConstraint(s, ok);
                    s.model = m3;
                }
            } else if (!ok->val)
                violation(s, "memory", std::string("out-of-bounds ") + rw);
        }
        if (off > o->size || n > o->size - off) {
            if (getenv("SYMX_DEBUG")) fprintf(stderr, "OOB: %s name=%s\n", objDesc(o, off, n).c_str(), o->name);
            violation(s, "memory", std::string("out-of-bounds ") + rw);
        }
        if (o->kind == K_FUNC) violation(s, "memory", std::string("data ") + rw + " of function");
        if (write && o->readonly) violation(s, "memory", "write to read-only object");
        return av;
    }
    u64 bc = findBaseConst(addr.e);
    id = av >> 32;
    u32 bid = bc >> 32;
    bool prov = bid > 0 && bid < s.objs.size() && s.objs[bid].p && s.objs[bid].p->kind != K_FUNC;
    if (prov) id = bid;
    if (id == 0 || id >= s.objs.size() || !s.objs[id].p) {
        if (prov) violation(s, "memory", std::string(rw) + " after free");
        // the model's address is invalid: report it, then look for others
        E same = mkEq(addr.e, mkConst(av, 64));
        if (decide(s, same)) violation(s, "memory", std::string(id == 0 ? "null pointer " : "wild pointer ") + rw);
        throw PathEnd{"unreachable"};
    }
    Obj* o = s.objs[id].p;
    if (o->kind == K_FREED) violation(s, "memory", std::string(rw) + " after free");
    E oe = mkSub(addr.e, mkConst(o->addr(), 64));
    E ok;
    memChecks++;
    if (o->symSize) ok = mkAnd(mkUle(oe, o->symSize), mkUle(mkConst(n, 64), mkSub(o->symSize, oe)));
    else if (n > o->size) ok = mkFalse();
    else ok = mkUle(oe, mkConst(o->size - n, 64));
    ok = simplified(s, ok);
    if (prov) {
        if (!isConst(ok) || !ok->val) {
            bool known = false;
            for (E c : s.pc)
                if (c == ok) known = true;
            if (!known) {
                Model m2;
                if (feasible(s, mkNot(ok), m2)) {
                    report(s, m2, "memory", std::string("out-of-bounds ") + rw);
                    Model m3;
                    if (!feasible(s, ok, m3)) throw PathEnd{"oob"};
                    addConstraint(s, ok);
                    s.model = m3;
                }
            }
        }
    } else {
        if (!decide(s, ok)) {
            // points elsewhere: pick the model's object
            u64 a2 = (u64)evalExpr(addr.e, s.model);
            u32 id2 = a2 >> 32;
            if (id2 == id || id2 == 0 || id2 >= s.objs.size() || !s.objs[id2].p || s.objs[id2].p->kind == K_FREED)
                violation(s, "memory", std::string("wild pointer ") + rw);
            Val c = cval(concretize(s, addr, 64));
            return resolve(s, c, n, write, id, offE, off);
        }
    }
    if (write && o->readonly) violation(s, "memory", "write to read-only object");
    if (o->kind == K_FUNC) violation(s, "memory", std::string("data ") + rw + " of function");
    // unique value?
    u64 v = (u64)evalExpr(oe, s.model);
    offE = oe;
    off = v;
    return av;
}

static const u64 kIteMax = 300;

Val Exec::load(State& s, Val addr, u32 w) {
    u32 id;
    E oe;
    u64 off;
    u32 nb = (w + 7) / 8;
    resolve(s, addr, nb, false, id, oe, off);
    Obj* o = s.objs[id].p;
    if (!oe) return loadLeaf(s, o, off, w);
    // symbolic offset
    unsigned tz = knownTrailingZeros(oe);
    u64 stride = tz >= 6 ? 64 : (u64)1 << tz;
    u64 lim = o->size - nb;
    u64 mx = (u64)std::min<u128>(structMax(oe), lim);
    u64 cnt = mx / stride + 1;
    if (cnt > kIteMax || o->symSize) {
        u64 a = concretize(s, addr, 64);
        resolve(s, cval(a), nb, false, id, oe, off);
        return loadLeaf(s, s.objs[id].p, off, w);
    }
    E r = nullptr;
    for (u64 k = cnt; k-- > 0;) {
        u64 p = k * stride;
        if (p > lim) continue;
        E v = val2e(loadLeaf(s, s.objs[id].p, p, w), w);
        r = r ? mkIte(mkEq(oe, mkConst(p, 64)), v, r) : v;
    }
    return eval2val(r);
}
void Exec::store(State& s, Val addr, u32 w, Val v) {
    u32 id;
    E oe;
    u64 off;
    u32 nb = (w + 7) / 8;
    resolve(s, addr, nb, true, id, oe, off);
    if (!oe) {
        storeLeaf(s, objW(s, id), off, w, v);
        return;
    }
    Obj* o = s.objs[id].p;
    unsigned tz = knownTrailingZeros(oe);
    u64 stride = tz >= 6 ? 64 : (u64)1 << tz;
    u64 lim = o->size - nb;
    u64 mx = (u64)std::min<u128>(structMax(oe), lim);
    u64 cnt = mx / stride + 1;
    if (cnt > 64 || o->symSize) {
        u64 a = concretize(s, addr, 64);
        resolve(s, cval(a), nb, true, id, oe, off);
        storeLeaf(s, objW(s, id), off, w, v);
        return;
    }
    E ve = val2e(v, w);
    if (ve->width % 8) ve = mkZExt(ve, nb * 8);
    std::vector<Val> nv(cnt);
    if (stride >= nb) {
        for (u64 k = 0; k < cnt; k++) {
            u64 p = k * stride;
            if (p > lim) continue;
            E old = val2e(loadLeaf(s, s.objs[id].p, p, nb * 8), nb * 8);
            nv[k] = eval2val(mkIte(mkEq(oe, mkConst(p, 64)), ve, old));
        }
        o = objW(s, id);
        for (u64 k = 0; k < cnt; k++)
            if (k * stride <= lim) storeLeaf(s, o, k * stride, nb * 8, nv[k]);
    } else {
        for (u64 k = 0; k < cnt; k++) {
            u64 p = k * stride;
            if (p > lim) continue;
            E c = mkEq(oe, mkConst(p, 64));
            for (u32 i = 0; i < nb; i++) {
                E old = byteE(s, id, p + i);
                E x = mkIte(c, mkExtract(ve, i * 8, 8), old);
                o = objW(s, id);
                if (isConst(x)) setByte(o, p + i, SB{nullptr, 0}, (u8)x->val);
                else setByte(o, p + i, SB{x, 0}, 0);
            }
        }
    }
}

std::string Exec::cstr(State& s, u64 addr) {
    std::string r;
    for (u64 i = 0; i < 4096; i++) {
        u32 id = addr >> 32;
        if (id == 0 || id >= s.objs.size() || !s.objs[id].p) break;
        Obj* o = s.objs[id].p;
        u64 off = (u32)addr - o->base + i;
        if (off >= o->size) break;
        u8 c;
        SB sb = getSB(o, off, c);
        if (sb.e) c = '?';
        if (!c) break;
        r += (char)c;
    }
    return r;
}

// Range check of a block operation before its size or address is split into cases.
void Exec::checkRange(State& s, Val addr, Val nv, bool write) {
    if (addr.e && isConst(addr.e)) addr = cval((u64)addr.e->val);
    if (nv.e && isConst(nv.e)) nv = cval((u64)nv.e->val);
    if (!addr.e && !nv.e) return;
    u64 base = addr.e ? findBaseConst(addr.e) : addr.c;
    u32 id = base >> 32;
    if (id == 0 || id >= s.objs.size() || !s.objs[id].p) return;
    Obj* o = s.objs[id].p;
    if (o->kind == K_FREED || o->kind == K_FUNC) return;
    E oe = mkSub(val2e(addr, 64), mkConst(o->addr(), 64));
    E sz = o->symSize ? o->symSize : mkConst(o->size, 64);
    E ne = val2e(nv, 64);
    E ok = mkOr(mkEq(ne, mkConst(0, 64)), mkAnd(mkUle(oe, sz), mkUle(ne, mkSub(sz, oe))));
    ok = simplified(s, ok);
    if (isTrue(ok)) return;
    memChecks++;
    for (E c : s.pc)
        if (c == ok) return;
    Model m2;
    if (feasible(s, mkNot(ok), m2)) {
        report(s, m2, "memory", std::string("out-of-bounds ") + (write ? "write" : "read"));
        Model m3;
        if (!feasible(s, ok, m3)) throw PathEnd{"oob"};
        addConstraint(s, ok);
        s.model = m3;
    }
}

void Exec::memCopy(State& s, Val dst, Val src, Val nv) {
    checkRange(s, src, nv, false);
    checkRange(s, dst, nv, true);
    u64 n = concretize(s, nv, 64);
    if (n == 0) return;
    if (src.e) src = cval(concretize(s, src, 64));
    if (dst.e) dst = cval(concretize(s, dst, 64));
    u32 si, di;
    E oe;
    u64 so, doff;
    resolve(s, src, n, false, si, oe, so);
    resolve(s, dst, n, true, di, oe, doff);
    raceAccess(s, si, so, n, false, false);
    raceAccess(s, di, doff, n, true, false);
    Obj* o = objW(s, di);
    Obj* so_ = s.objs[si].p;
    bool back = si == di && so < doff;
    if (n <= 16 || back || si == di) {
        std::vector<std::pair<SB, u8>> tmp(n);
        for (u64 i = 0; i < n; i++) tmp[i].first = getSB(so_, so + i, tmp[i].second);
        for (u64 i = 0; i < n; i++) setByte(o, doff + i, tmp[i].first, tmp[i].second);
        return;
    }
    for (u64 i = 0; i < n;) {
        // fast path: whole concrete pieces
        u64 spo = (so + i) % PS, dpo = (doff + i) % PS;
        u64 k = std::min<u64>({n - i, PS - spo, PS - dpo});
        Page* sp = so_->page((so + i) / PS);
        if ((sp && !sp->sym) || (!sp && so_->zeroFill)) {
            Page* dp = pageW(o, (doff + i) / PS);
            if (sp) memcpy(dp->data + dpo, sp->data + spo, k);
            else memset(dp->data + dpo, 0, k);
            if (dp->sym) memset((void*)(dp->sym + dpo), 0, sizeof(SB) * k);
        } else if (!sp) {
            Page* dp0 = o->page((doff + i) / PS);
            if (dp0 || o->zeroFill)
                for (u64 j = 0; j < k; j++) setByte(o, doff + i + j, SB{UNINIT, 0}, 0);
        } else {
            for (u64 j = 0; j < k; j++) {
                u8 c;
                SB sb = getSB(so_, so + i + j, c);
                setByte(o, doff + i + j, sb, c);
            }
        }
        i += k;
    }
}
void Exec::memSet(State& s, Val dst, Val byte, Val nv) {
    if (nv.e && !isConst(nv.e) && !dst.e) {
        // whole object of symbolic size
        u32 id = dst.c >> 32;
        if (id && id < s.objs.size() && s.objs[id].p && s.objs[id].p->symSize && s.objs[id].p->addr() == dst.c &&
            s.objs[id].p->symSize == nv.e && !byte.e && byte.c == 0) {
            Obj* o = objW(s, id);
            for (Page*& p : o->pages)
                if (p) {
                    if (--p->rc == 0) delete p;
                    p = nullptr;
                }
            for (auto& kv : o->big)
                if (kv.second && --kv.second->rc == 0) delete kv.second;
            o->big.clear();
            o->zeroFill = true;
            return;
        }
    }
    checkRange(s, dst, nv, true);
    u64 n = concretize(s, nv, 64);
    if (n == 0) return;
    if (dst.e) dst = cval(concretize(s, dst, 64));
    u32 id;
    E oe;
    u64 off;
    resolve(s, dst, n, true, id, oe, off);
    raceAccess(s, id, off, n, true, false);
    Obj* o = objW(s, id);
    if (off == 0 && n == o->size && !byte.e && byte.c == 0) {
        for (Page*& p : o->pages)
            if (p) {
                if (--p->rc == 0) delete p;
                p = nullptr;
            }
        for (auto& kv : o->big)
            if (kv.second && --kv.second->rc == 0) delete kv.second;
        o->big.clear();
        o->zeroFill = true;
        return;
    }
    for (u64 i = 0; i < n;) {
        u64 po = (off + i) % PS;
        u64 k = std::min<u64>(n - i, PS - po);
        if (!byte.e) {
            Page* p = pageW(o, (off + i) / PS);
            memset(p->data + po, (int)byte.c, k);
            if (p->sym) memset((void*)(p->sym + po), 0, sizeof(SB) * k);
        } else
            for (u64 j = 0; j < k; j++) setByte(o, off + i + j, SB{byte.e, 0}, 0);
        i += k;
    }
}
Val Exec::memCmp(State& s, Val a, Val b, Val nv, bool eqOnly) {
    checkRange(s, a, nv, false);
    checkRange(s, b, nv, false);
    u64 n = concretize(s, nv, 64);
    if (n == 0) return cval(0);
    if (a.e) a = cval(concretize(s, a, 64));
    if (b.e) b = cval(concretize(s, b, 64));
    u32 ai, bi;
    E oe;
    u64 ao, bo;
    resolve(s, a, n, false, ai, oe, ao);
    resolve(s, b, n, false, bi, oe, bo);
    raceAccess(s, ai, ao, n, false, false);
    raceAccess(s, bi, bo, n, false, false);
    if (eqOnly) {
        E eq = mkTrue();
        for (u64 i = 0; i < n; i++) {
            eq = mkAnd(eq, mkEq(byteE(s, ai, ao + i), byteE(s, bi, bo + i)));
            if (isFalse(eq)) break;
        }
        return eval2val(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    }
    // first difference decides; build from the end
    u64 stop = n;
    for (u64 i = 0; i < n; i++) {
        E x = byteE(s, ai, ao + i), y = byteE(s, bi, bo + i);
        if (isConst(x) && isConst(y) && x->val != y->val) {
            stop = i + 1;
            break;
        }
    }
    E r = mkConst(0, 32);
    for (u64 i = stop; i-- > 0;) {
        E x = byteE(s, ai, ao + i), y = byteE(s, bi, bo + i);
        E lt = mkUlt(x, y), eq = mkEq(x, y);
        r = mkIte(eq, r, mkIte(lt, mkConst((u128)-1, 32), mkConst(1, 32)));
    }
    return eval2val(r);
}

// returns 0 when the allocation fails
u64 Exec::allocate(State& s, Val size, ObjKind k, u32 align, bool zero) {
    u64 sz;
    E sym = nullptr;
    if (size.e) size.e = simplified(s, size.e);
    if (size.e && !isConst(size.e)) {
        E big = mkUlt(mkConst(lim.allocLimit, 64), size.e);
        if (decide(s, big)) return 0;
        // few values? then split; otherwise keep the size symbolic
        bool known = false;
        for (auto& p : s.pending)
            if (p.first == size.e) known = true;
        for (auto& p : s.known)
            if (p.first == size.e) known = true;
        if (known || structMax(size.e) <= 64) {
            sz = concretize(s, size, 64);
        } else {
            Model m2;
            E small = mkUle(size.e, mkConst(64, 64));
            if (!feasible(s, mkNot(small), m2)) sz = concretize(s, size, 64);
            else {
                sym = size.e;
                sz = lim.allocLimit;
            }
        }
    } else
        sz = size.e ? (u64)size.e->val : size.c;
    if (sz > lim.allocLimit) return 0;
    // malloc guarantees 16-byte alignment only; larger alignment must be asked for
    u32 base = align > 16 ? 0x10000 : 0x10010;
    const Instruction* site = top(s).fn->code[top(s).ip].I;
    u32 id = newObj(s, sz, k, base, zero, "heap", site);
    s.objs[id].p->symSize = sym;
    s.liveHeapObjs++;
    return s.objs[id].p->addr();
}
void Exec::freeObj(State& s, u64 a, int kind) {
    if (a == 0) return;
    u32 id = a >> 32;
    if (id >= s.objs.size()) violation(s, "memory", "free of wild pointer");
    Obj* o = s.objs[id].p;
    if (!o || o->kind == K_FREED) violation(s, "memory", "double free");
    if (o->kind == K_GLOBAL || o->kind == K_STACK || o->kind == K_FUNC || o->kind == K_EXC) violation(s, "memory", "free of non-heap memory");
    if (a != o->addr()) violation(s, "memory", "free of interior pointer");
    if (o->kind != kind) violation(s, "memory", "allocation and release functions do not match");
    raceAccess(s, id, 0, o->size ? (o->size > 64 ? 64 : o->size) : 0, true, false);
    static Obj* freed = [] {
        Obj* f = new Obj();
        f->kind = K_FREED;
        f->rc = 1000000000;
        return f;
    }();
    freed->rc++;
    s.objs[id] = ObjP(freed);
    s.liveHeapObjs--;
}

// ------------------------------------------------------------------ scalar operations
static Val constBin(unsigned op, u64 a, u64 b, u32 w) {
    u64 m = (u64)maskOf(w > 64 ? 64 : w);
    auto sx = [&](u64 v) { return (i64)sextOf(v, w); };
    u64 r = 0;
    switch (op) {
        case Instruction::Add: r = a + b; break;
        case Instruction::Sub: r = a - b; break;
        case Instruction::Mul: r = a * b; break;
        case Instruction::And: r = a & b; break;
        case Instruction::Or: r = a | b; break;
        case Instruction::Xor: r = a ^ b; break;
        case Instruction::UDiv: r = b ? a / b : 0; break;
        case Instruction::URem: r = b ? a % b : 0; break;
        case Instruction::SDiv: r = b ? (u64)((i128)sx(a) / (i128)sx(b)) : 0; break;
        case Instruction::SRem: r = b ? (u64)((i128)sx(a) % (i128)sx(b)) : 0; break;
        case Instruction::Shl: r = a << (b & 63); break;
        case Instruction::LShr: r = a >> (b & 63); break;
        case Instruction::AShr: r = (u64)(sx(a) >> (b & 63)); break;
    }
    return cval(r & m);
}
Val Exec::binVal(State& s, u32 op, Val a, Val b, u32 w) {
    if (!a.e && !b.e) {
        switch (op) {
            case Instruction::UDiv:
            case Instruction::URem:
            case Instruction::SDiv:
            case Instruction::SRem:
                if (b.c == 0) violation(s, "arithmetic", "division by zero");
                if ((op == Instruction::SDiv || op == Instruction::SRem) && w >= 32 && b.c == (u64)maskOf(w) && a.c == (u64)1 << (w - 1))
                    violation(s, "arithmetic", "signed division overflow");
                break;
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
                // hardware behaviour for out-of-range shifts (poison in the IR)
                if (b.c >= w) b.c &= (w == 64 ? 63 : 31);
                if (b.c >= w) return op == Instruction::AShr ? cval(((a.c >> (w - 1)) & 1) ? (u64)maskOf(w) : 0) : cval(0);
                break;
        }
        return constBin(op, a.c, b.c, w);
    }
    E x = val2e(a, w), y = val2e(b, w);
    E r = nullptr;
    switch (op) {
        case Instruction::Add: r = mkAdd(x, y); break;
        case Instruction::Sub: r = mkSub(x, y); break;
        case Instruction::Mul: r = mkMul(x, y); break;
        case Instruction::And: r = mkAnd(x, y); break;
        case Instruction::Or: r = mkOr(x, y); break;
        case Instruction::Xor: r = mkXor(x, y); break;
        case Instruction::UDiv:
        case Instruction::URem:
        case Instruction::SDiv:
        case Instruction::SRem: {
            if (decide(s, mkEq(y, mkConst(0, w)))) violation(s, "arithmetic", "division by zero");
            if ((op == Instruction::SDiv || op == Instruction::SRem) && w >= 32)
                if (decide(s, mkAnd(mkEq(y, mkConst(maskOf(w), w)), mkEq(x, mkConst((u128)1 << (w - 1), w)))))
                    violation(s, "arithmetic", "signed division overflow");
            r = op == Instruction::UDiv ? mkUDiv(x, y) : op == Instruction::URem ? mkURem(x, y) : op == Instruction::SDiv ? mkSDiv(x, y) : mkSRem(x, y);
            break;
        }
        case Instruction::Shl:
        case Instruction::LShr:
        case Instruction::AShr:
            if ((w == 32 || w == 64) && !isConst(y)) y = mkAnd(y, mkConst(w - 1, w));
            r = op == Instruction::Shl ? mkShl(x, y) : op == Instruction::LShr ? mkLShr(x, y) : mkAShr(x, y);
            break;
        default: incon(s, "unsupported binary operator"); throw PathEnd{"unsupported"};
    }
    return eval2val(r);
}
static double asD(u64 v) {
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static float asF(u64 v) {
    float d;
    u32 x = v;
    memcpy(&d, &x, 4);
    return d;
}
static u64 fromD(double d) {
    u64 v;
    memcpy(&v, &d, 8);
    return v;
}
static u64 fromF(float d) {
    u32 v;
    memcpy(&v, &d, 4);
    return v;
}

Val Exec::icmp(u32 pred, Val a, Val b, u32 w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        i64 sx = (i64)sextOf(x, w), sy = (i64)sextOf(y, w);
        switch (pred) {
            case CmpInst::ICMP_EQ: return cval(x == y);
            case CmpInst::ICMP_NE: return cval(x != y);
            case CmpInst::ICMP_ULT: return cval(x < y);
            case CmpInst::ICMP_ULE: return cval(x <= y);
            case CmpInst::ICMP_UGT: return cval(x > y);
            case CmpInst::ICMP_UGE: return cval(x >= y);
            case CmpInst::ICMP_SLT: return cval(sx < sy);
            case CmpInst::ICMP_SLE: return cval(sx <= sy);
            case CmpInst::ICMP_SGT: return cval(sx > sy);
            case CmpInst::ICMP_SGE: return cval(sx >= sy);
        }
    }
    E x = val2e(a, w), y = val2e(b, w);
    E r = nullptr;
    switch (pred) {
        case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
        case CmpInst::ICMP_NE: r = mkNe(x, y); break;
        case CmpInst::ICMP_ULT: r = mkUlt(x, y); break;
        case CmpInst::ICMP_ULE: r = mkUle(x, y); break;
        case CmpInst::ICMP_UGT: r = mkUlt(y, x); break;
        case CmpInst::ICMP_UGE: r = mkUle(y, x); break;
        case CmpInst::ICMP_SLT: r = mkSlt(x, y); break;
        case CmpInst::ICMP_SLE: r = mkSle(x, y); break;
        case CmpInst::ICMP_SGT: r = mkSlt(y, x); break;
        case CmpInst::ICMP_SGE: r = mkSle(y, x); break;
    }
    return eval2val(r);
}
Val Exec::fcmp(State& s, u32 pred, Val a, Val b, u32 w) {
    if (w != 32 && w != 64) {
        incon(s, "unsupported floating type");
        throw PathEnd{"unsupported"};
    }
    E x = val2e(a, w), y = val2e(b, w);
    E absm = mkConst(maskOf(w - 1), w);
    E inf = mkConst(w == 32 ? (u128)0x7f800000 : (u128)0x7ff0000000000000ull, w);
    E uno = mkOr(mkUlt(inf, mkAnd(x, absm)), mkUlt(inf, mkAnd(y, absm)));
    E bothZero = mkEq(mkAnd(mkOr(x, y), absm), mkConst(0, w));
    auto key = [&](E v) {
        E neg = mkEq(mkExtract(v, w - 1, 1), mkConst(1, 1));
        return mkIte(neg, mkNot(v), mkOr(v, mkConst((u128)1 << (w - 1), w)));
    };
    E kx = key(x), ky = key(y);
    E eq = mkOr(mkEq(x, y), bothZero);
    E lt = mkAnd(mkUlt(kx, ky), mkNot(bothZero));
    E gt = mkAnd(mkUlt(ky, kx), mkNot(bothZero));
    E ord = mkNot(uno);
    E r;
    switch (pred) {
        case CmpInst::FCMP_FALSE: r = mkFalse(); break;
        case CmpInst::FCMP_TRUE: r = mkTrue(); break;
        case CmpInst::FCMP_ORD: r = ord; break;
        case CmpInst::FCMP_UNO: r = uno; break;
        case CmpInst::FCMP_OEQ: r = mkAnd(ord, eq); break;
        case CmpInst::FCMP_ONE: r = mkAnd(ord, mkNot(eq)); break;
        case CmpInst::FCMP_OLT: r = mkAnd(ord, lt); break;
        case CmpInst::FCMP_OLE: r = mkAnd(ord, mkOr(lt, eq)); break;
        case CmpInst::FCMP_OGT: r = mkAnd(ord, gt); break;
        case CmpInst::FCMP_OGE: r = mkAnd(ord, mkOr(gt, eq)); break;
        case CmpInst::FCMP_UEQ: r = mkOr(uno, eq); break;
        case CmpInst::FCMP_UNE: r = mkOr(uno, mkNot(eq)); break;
        case CmpInst::FCMP_ULT: r = mkOr(uno, lt); break;
        case CmpInst::FCMP_ULE: r = mkOr(uno, mkOr(lt, eq)); break;
        case CmpInst::FCMP_UGT: r = mkOr(uno, gt); break;
        case CmpInst::FCMP_UGE: r = mkOr(uno, mkOr(gt, eq)); break;
        default: r = mkFalse();
    }
    return eval2val(r);
}

void Exec::doCast(State& s, const DI& d) {
    Frame& f = top(s);
    for (u32 k = 0; k < d.n; k++) {
        Val v = get(f, d.a, k);
        switch (d.op) {
            case Instruction::Trunc:
                if (!v.e) v = cval(v.c & (u64)maskOf(d.w));
                else v = eval2val(mkExtract(v.e, 0, d.w));
                break;
            case Instruction::ZExt:
                if (v.e || d.w > 64) v = eval2val(mkZExt(val2e(v, d.w2), d.w));
                break;
            case Instruction::SExt:
                if (v.e || d.w > 64) v = eval2val(mkSExt(val2e(v, d.w2), d.w));
                else v = cval((u64)sextOf(v.c, d.w2) & (u64)maskOf(d.w));
                break;
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
                if (d.w < d.w2) v = v.e ? eval2val(mkExtract(v.e, 0, d.w)) : cval(v.c & (u64)maskOf(d.w));
                else if (d.w > d.w2) v = v.e ? eval2val(mkZExt(v.e, d.w)) : v;
                break;
            case Instruction::BitCast: {
                Type* st = d.I->getOperand(0)->getType();
                Type* dt = d.I->getType();
                auto& sl = leavesOf(st);
                auto& dl = leavesOf(dt);
                if (sl.size() == dl.size()) break;
                // reshape vectors
                E all = nullptr;
                for (size_t i = 0; i < sl.size(); i++) {
                    E e = val2e(get(f, d.a, i), sl[i].w);
                    all = all ? mkConcat(e, all) : e;
                }
                u32 off = 0;
                for (size_t i = 0; i < dl.size(); i++) {
                    f.regs[d.dst + i] = eval2val(mkExtract(all, off, dl[i].w));
                    off += dl[i].w;
                }
                return;
            }
            case Instruction::FPTrunc: {
                u64 c = concretize(s, v, d.w2);
                v = cval(fromF((float)asD(c)));
                break;
            }
            case Instruction::FPExt: {
                u64 c = concretize(s, v, d.w2);
                if (d.w == 64) v = cval(fromD((double)asF(c)));
                else {
                    incon(s, "long double");
                    throw PathEnd{"unsupported"};
                }
                break;
            }
            case Instruction::UIToFP:
            case Instruction::SIToFP: {
                u64 c = concretize(s, v, d.w2);
                if (d.op == Instruction::SIToFP) {
                    i64 x = (i64)sextOf(c, d.w2);
                    v = cval(d.w == 32 ? fromF((float)x) : fromD((double)x));
                } else
                    v = cval(d.w == 32 ? fromF((float)c) : fromD((double)c));
                break;
            }
            case Instruction::FPToUI:
            case Instruction::FPToSI: {
                u64 c = concretize(s, v, d.w2);
                double x = d.w2 == 32 ? (double)asF(c) : asD(c);
                u64 r;
                if (d.op == Instruction::FPToSI) r = (u64)(i64)x;
                else r = x >= 9223372036854775808.0 ? (u64)(x - 9223372036854775808.0) + (1ull << 63) : (u64)(i64)x;
                v = cval(r & (u64)maskOf(d.w));
                break;
            }
            default:
                incon(s, std::string("unsupported cast ") + d.I->getOpcodeName());
                throw PathEnd{"unsupported"};
        }
        f.regs[d.dst + k] = v;
    }
}

void Exec::binop(State& s, const DI& d) {
    Frame& f = top(s);
    switch (d.op) {
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv:
        case Instruction::FRem:
            for (u32 k = 0; k < d.n; k++) {
                if (d.w != 32 && d.w != 64) {
                    incon(s, "long double");
                    throw PathEnd{"unsupported"};
                }
                u64 a = concretize(s, get(f, d.a, k), d.w), b = concretize(s, get(f, d.b, k), d.w);
                u64 r;
                if (d.w == 32) {
                    float x = asF(a), y = asF(b), z = 0;
                    z = d.op == Instruction::FAdd ? x + y : d.op == Instruction::FSub ? x - y : d.op == Instruction::FMul ? x * y : d.op == Instruction::FDiv ? x / y : fmodf(x, y);
                    r = fromF(z);
                } else {
                    double x = asD(a), y = asD(b), z = 0;
                    z = d.op == Instruction::FAdd ? x + y : d.op == Instruction::FSub ? x - y : d.op == Instruction::FMul ? x * y : d.op == Instruction::FDiv ? x / y : fmod(x, y);
                    r = fromD(z);
                }
                f.regs[d.dst + k] = cval(r);
            }
            return;
        default: break;
    }
    std::vector<Val> out;
    if (d.n == 1) {
        Val r = binVal(s, d.op, get(f, d.a), get(f, d.b), d.w);
        top(s).regs[d.dst] = r;
        return;
    }
    for (u32 k = 0; k < d.n; k++) out.push_back(binVal(s, d.op, get(f, d.a, k), get(f, d.b, k), d.w));
    for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = out[k];
}

// ------------------------------------------------------------------ control flow
void Exec::jump(State& s, Frame& f, u32 blk) {
    u32 from = f.fn->instBlock[f.ip];
    auto& ph = f.fn->phis[blk];
    if (!ph.empty()) {
        auto it = ph.find(from);
        if (it != ph.end()) {
            static std::vector<Val> tmp;
            tmp.clear();
            for (auto& m : it->second)
                for (u32 k = 0; k < m.n; k++) tmp.push_back(get(f, m.src, k));
            size_t p = 0;
            for (auto& m : it->second)
                for (u32 k = 0; k < m.n; k++) f.regs[m.dst + k] = tmp[p++];
        }
    }
    f.prevBlock = from;
    f.ip = f.fn->blockStart[blk];
}

void Exec::pushCall(State& s, FnInfo* callee, std::vector<Val>& args, const std::vector<u32>* argW, u32 nFixed) {
    if (!callee->decoded) decode(callee);
    callee->calls++;
    auto& st = s.th[s.cur].stack;
    if (st.size() > 2000) violation(s, "nontermination", "call depth exceeds 2000 frames");
    st.emplace_back();
    Frame& nf = st.back();
    nf.fn = callee;
    nf.regs.assign(callee->nregs, Val{0, nullptr});
    u32 p = 0;
    for (size_t i = 0; i < callee->argSlot.size(); i++)
        for (u32 k = 0; k < callee->argN[i]; k++)
            if (p < args.size()) nf.regs[callee->argSlot[i] + k] = args[p++];
    for (; p < args.size(); p++) {
        nf.varargs.push_back(args[p]);
    }
    (void)argW;
    (void)nFixed;
    nf.ip = callee->blockStart[0];
}

void Exec::doCall(State& s, const DI& d) {
    Frame& f = top(s);
    if (d.x->iid) {
        intrinsic(s, d);
        if (d.op == Instruction::Invoke) jump(s, top(s), d.x->t);
        else top(s).ip++;
        return;
    }
    if (d.pred == 77) {
        // inline assembly: only empty barriers are accepted
        auto* ia = llvm::cast<InlineAsm>(llvm::cast<CallBase>(d.I)->getCalledOperand());
        if (!ia->getAsmString().empty()) {
            incon(s, "inline assembly '" + ia->getAsmString() + "'");
            throw PathEnd{"unsupported"};
        }
        top(s).ip++;
        return;
    }
    std::vector<Val> args;
    for (size_t i = 0; i < d.x->args.size(); i++)
        for (u32 k = 0; k < d.x->argN[i]; k++) args.push_back(get(f, d.x->args[i], k));
    FnInfo* callee = d.x->callee;
    ExtFn ext = d.x->ext;
    if (!callee) {
        Val fp = get(f, d.a);
        u64 a = concretize(s, fp, 64);
        auto it = fnByObj.find(a >> 32);
        if (it == fnByObj.end()) {
            if ((a >> 32) == 0) violation(s, "memory", "call through null pointer");
            violation(s, "memory", "call through invalid pointer");
        }
        callee = it->second;
        ext = findExt(callee->name);
    }
    if (ext) {
        size_t depth = s.th[s.cur].stack.size();
        u32 cur = s.cur;
        u32 ip = f.ip;
        ext(*this, s, d, args);
        // a model that pushed a frame, unwound, or switched thread has set the control state itself
        if (s.cur == cur && s.th[s.cur].stack.size() == depth && top(s).ip == ip && s.th[cur].status == T_RUN) {
            if (d.op == Instruction::Invoke) jump(s, top(s), d.x->t);
            else top(s).ip++;
        }
        return;
    }
    if (callee->F->isDeclaration()) {
        const Function* mf = M.getFunction("vpm_" + callee->name);
        if (mf && !mf->isDeclaration()) {
            externsUsed.insert(callee->name);
            pushCall(s, getFn(mf), args, nullptr, 0);
            return;
        }
        externsUnmodelled.insert(callee->name);
        incon(s, "call of unmodelled function " + demangle(callee->name));
        throw PathEnd{"unmodelled"};
    }
    pushCall(s, callee, args, nullptr, 0);
}

void Exec::popFrame(State& s) {
    auto& st = s.th[s.cur].stack;
    static Obj* freed = [] {
        Obj* f = new Obj();
        f->kind = K_FREED;
        f->rc = 1000000000;
        return f;
    }();
    for (u32 id : st.back().allocas) {
        freed->rc++;
        s.objs[id] = ObjP(freed);
    }
    st.pop_back();
}

void Exec::doRet(State& s, const DI* d) {
    auto& st = s.th[s.cur].stack;
    std::vector<Val> rv;
    if (d)
        for (u32 k = 0; k < d->n; k++) rv.push_back(get(st.back(), d->a, k));
    u8 onRet = st.back().onReturn;
    popFrame(s);
    if (st.empty()) {
        threadExit(s);
        return;
    }
    if (onRet == 1) {
        // frame pushed by a model: the caller's instruction is already complete
        return;
    }
    Frame& f = st.back();
    const DI& c = f.fn->code[f.ip];
    for (u32 k = 0; k < c.n && k < rv.size(); k++) f.regs[c.dst + k] = rv[k];
    if (c.op == Instruction::Invoke) jump(s, f, c.x->t);
    else f.ip++;
}

bool Exec::typeMatches(State& s, u64 thrown, u64 catcher) {
    if (thrown == catcher) return true;
    if (!thrown) return false;
    // compare by name as well
    Val n1 = load(s, cval(thrown + 8), 64), n2 = load(s, cval(catcher + 8), 64);
    if (!n1.e && !n2.e && n1.c && n2.c && cstr(s, n1.c) == cstr(s, n2.c) && !cstr(s, n1.c).empty()) return true;
    Val vt = load(s, cval(thrown), 64);
    if (vt.e) return false;
    u64 si = abiVt["_ZTVN10__cxxabiv120__si_class_type_infoE"], vmi = abiVt["_ZTVN10__cxxabiv121__vmi_class_type_infoE"];
    if (si && vt.c == si + 16) return typeMatches(s, load(s, cval(thrown + 16), 64).c, catcher);
    if (vmi && vt.c == vmi + 16) {
        u64 cnt = load(s, cval(thrown + 20), 32).c;
        for (u64 i = 0; i < cnt; i++)
            if (typeMatches(s, load(s, cval(thrown + 24 + 16 * i), 64).c, catcher)) return true;
    }
    return false;
}

// Unwind the current thread's stack; the top frame's current instruction is the throwing call.
void Exec::unwind(State& s, u64 exc) {
    auto& st = s.th[s.cur].stack;
    u64 tinfo = s.excs[exc].tinfo;
    // search phase: is there a handler at all?
    size_t i = st.size();
    bool handler = false;
    for (size_t j = i; j-- > 0 && !handler;) {
        Frame& f = st[j];
        const DI& d = f.fn->code[f.ip];
        if (d.op != Instruction::Invoke) continue;
        auto* lp = llvm::cast<InvokeInst>(d.I)->getLandingPadInst();
        for (unsigned k = 0; k < lp->getNumClauses(); k++) {
            if (lp->isCatch(k)) {
                std::vector<Val> v;
                flattenConst(lp->getClause(k), v);
                if (v[0].c == 0 || typeMatches(s, tinfo, v[0].c)) handler = true;
            } else
                handler = true;
        }
    }
    if (!handler) {
        std::string n = "?";
        Val nm = load(s, cval(tinfo + 8), 64);
        if (!nm.e) n = cstr(s, nm.c);
        violation(s, "exception", "uncaught exception " + demangle("_Z" + n).substr(0, 60) + " [" + n + "]");
    }
    while (!st.empty()) {
        Frame& f = st.back();
        const DI& d = f.fn->code[f.ip];
        if (d.op == Instruction::Invoke) {
            auto* inv = llvm::cast<InvokeInst>(d.I);
            auto* lp = inv->getLandingPadInst();
            i64 sel = -1;
            for (unsigned k = 0; k < lp->getNumClauses() && sel < 0; k++) {
                std::vector<Val> v;
                if (lp->isCatch(k)) {
                    flattenConst(lp->getClause(k), v);
                    if (v[0].c == 0) sel = 1 << 30;
                    else if (typeMatches(s, tinfo, v[0].c)) sel = (v[0].c >> 32) & 0x3fffffff;
                } else
                    sel = 0x20000000;  // filter: treated as a catch-all for unexpected()
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                jump(s, f, d.x->f);
                // landingpad result: {ptr, i32}
                u32 ip = f.ip;
                while (f.fn->code[ip].op != Instruction::LandingPad) ip++;
                const DI& l = f.fn->code[ip];
                f.regs[l.dst] = cval(exc);
                f.regs[l.dst + 1] = cval((u32)sel);
                f.ip = ip + 1;
                return;
            }
        }
        popFrame(s);
    }
    violation(s, "exception", "uncaught exception");
}

void Exec::finishPath(State& s) {
    paths++;
    if (leakCheck) {
        for (size_t i = 1; i < s.objs.size(); i++) {
            Obj* o = s.objs[i].p;
            if (o && (o->kind == K_HEAP_MALLOC || o->kind == K_HEAP_NEW || o->kind == K_HEAP_NEWARR)) {
                // leak accounting is done by harnesses through vp_live_heap()
            }
        }
    }
    if (samples.size() < 6) {
        std::string t;
        for (auto& r : s.syms) {
            t += r.name + "=";
            char b[4];
            for (size_t i = 0; i < r.bytes.size() && i < 16; i++) {
                snprintf(b, sizeof b, "%02x", (unsigned)evalExpr(r.bytes[i], s.model));
                t += b;
            }
            t += " ";
            if (t.size() > 300) break;
        }
        if (samplesSet.insert(t).second) samples.push_back(t);
    }
}

void Exec::run() {
    u64 tick = 0, lastQ = 0;
    double nextMem = 0;
    while (!work.empty() && !stop) {
        State* s = work.back();
        work.pop_back();
        try {
            for (;;) {
                if ((++tick & 1023) == 0 || g_solverStats.queries != lastQ) {
                    lastQ = g_solverStats.queries;
                    double now = nowSec();
                    if (now - startTime > lim.wall) {
                        inconclusive.insert("wall-clock limit of " + std::to_string((int)lim.wall) + " s reached, " + std::to_string(work.size() + 1) + " open paths");
                        stop = true;
                        break;
                    }
                    if (lim.grace > 0 && !violations.empty() && now - firstViolation > lim.grace) {
                        inconclusive.insert("stopped after a violation");
                        stop = true;
                        break;
                    }
                    if (now > nextMem) {
                        nextMem = now + 1.0;
                        FILE* fp = fopen("/proc/self/statm", "r");
                        long a = 0, b = 0;
                        if (fp) {
                            if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0;
                            fclose(fp);
                        }
                        if ((u64)b * 4096 / 1048576 > lim.memMB) {
                            inconclusive.insert("memory limit reached");
                            stop = true;
                            break;
                        }
                    }
                }
                if (!step(*s)) {
                    finishPath(*s);
                    break;
                }
            }
        } catch (PathEnd& e) {
            if (strcmp(e.why, "switch")) pathsCut++;
        }
        delete s;
        if (paths + pathsCut > lim.maxPaths) {
            inconclusive.insert("path limit reached");
            break;
        }
    }
    for (State* s : work) delete s;
    work.clear();
}

bool Exec::step(State& s) {
    const u32 t0 = s.cur;
    Frame& f = top(s);
    const DI& d = f.fn->code[f.ip];
    f.fn->covered[f.ip] = 1;
    steps++;
    if (++s.steps > lim.maxSteps) violation(s, "nontermination", "path exceeds " + std::to_string(lim.maxSteps) + " instructions");
    static int trace = getenv("SYMX_TRACE") ? atoi(getenv("SYMX_TRACE")) : 0;
    if (trace) {
        std::string t;
        raw_string_ostream os(t);
        d.I->print(os);
        fprintf(stderr, "[%zu] %s: %s\n", s.th[s.cur].stack.size(), trace > 1 ? demangle(f.fn->name).c_str() : "", os.str().c_str());
    }
    switch (d.op) {
        case Instruction::Br:
            if (!d.pred) jump(s, f, d.x->t);
            else {
                Val c = get(f, d.a);
                bool t = c.e ? decide(s, c.e) : c.c;
                jump(s, f, t ? d.x->t : d.x->f);
            }
            break;
        case Instruction::Switch: {
            Val c = get(f, d.a);
            u32 tgt = d.x->t;
            if (!c.e) {
                for (auto& k : d.x->cases)
                    if (k.first == c.c) {
                        tgt = k.second;
                        break;
                    }
            } else {
                for (auto& k : d.x->cases)
                    if (decide(s, mkEq(c.e, mkConst(k.first, d.w)))) {
                        tgt = k.second;
                        break;
                    }
            }
            jump(s, f, tgt);
            break;
        }
        case Instruction::Unreachable: violation(s, "unreachable", "unreachable code executed");
        case Instruction::Ret:
            doRet(s, &d);
            break;
        case Instruction::Call:
        case Instruction::Invoke: doCall(s, d); break;
        case Instruction::Resume: {
            Val p = get(f, d.a, 0);
            popFrame(s);
            if (s.th[s.cur].stack.empty()) violation(s, "exception", "uncaught exception");
            unwind(s, p.c);
            break;
        }
        case Instruction::Load: {
            if (d.pred && multi(s)) schedPoint(s, false);
            Val a = get(f, d.a);
            auto& lv = *d.x->leaves;
            if (!a.e) {
                u32 id;
                E oe;
                u64 off;
                resolve(s, a, d.x->size, false, id, oe, off);
                raceAccess(s, id, off, d.x->size, false, d.pred);
                for (size_t k = 0; k < lv.size(); k++) {
                    Val v = loadLeaf(s, s.objs[id].p, off + lv[k].off, lv[k].w);
                    f.regs[d.dst + k] = v;
                }
            } else {
                std::vector<Val> out;
                for (size_t k = 0; k < lv.size(); k++) {
                    Val ak = lv[k].off ? eval2val(mkAdd(a.e, mkConst(lv[k].off, 64))) : a;
                    out.push_back(load(s, ak, lv[k].w));
                }
                for (size_t k = 0; k < lv.size(); k++) f.regs[d.dst + k] = out[k];
            }
            f.ip++;
            break;
        }
        case Instruction::Store: {
            if (d.pred && multi(s)) schedPoint(s, false);
            Val a = get(f, d.a);
            auto& lv = *d.x->leaves;
            if (!a.e) {
                u32 id;
                E oe;
                u64 off;
                resolve(s, a, d.x->size, true, id, oe, off);
                raceAccess(s, id, off, d.x->size, true, d.pred);
                Obj* o = objW(s, id);
                for (size_t k = 0; k < lv.size(); k++) storeLeaf(s, o, off + lv[k].off, lv[k].w, get(f, d.b, k));
            } else {
                if (lv.size() > 1) {
                    a = cval(concretize(s, a, 64));
                    u32 id;
                    E oe;
                    u64 off;
                    resolve(s, a, d.x->size, true, id, oe, off);
                    Obj* o = objW(s, id);
                    for (size_t k = 0; k < lv.size(); k++) storeLeaf(s, o, off + lv[k].off, lv[k].w, get(f, d.b, k));
                } else
                    store(s, a, lv[0].w, get(f, d.b));
            }
            f.ip++;
            break;
        }
        case Instruction::Alloca: {
            u64 n = concretize(s, get(f, d.a), d.w2);
            u32 id = newObj(s, n * d.x->size, K_STACK, 0x10000, false, "stack", d.I);
            f.allocas.push_back(id);
            f.regs[d.dst] = cval(s.objs[id].p->addr());
            f.ip++;
            break;
        }
        case Instruction::GetElementPtr: {
            Val b = get(f, d.a);
            if (d.n != 1) {
                incon(s, "vector gep");
                throw PathEnd{"unsupported"};
            }
            bool sym = b.e;
            for (auto& i : d.x->idx)
                if (get(f, i.o).e) sym = true;
            if (!sym) {
                u64 a = b.c + d.x->constOff;
                for (auto& i : d.x->idx) a += (u64)sextOf(get(f, i.o).c, i.w) * i.scale;
                f.regs[d.dst] = cval(a);
            } else {
                E e = mkAdd(val2e(b, 64), mkConst((u128)(i128)d.x->constOff, 64));
                for (auto& i : d.x->idx) {
                    E x = val2e(get(f, i.o), i.w);
                    x = i.w < 64 ? mkSExt(x, 64) : x;
                    e = mkAdd(e, mkMul(x, mkConst(i.scale, 64)));
                }
                f.regs[d.dst] = eval2val(e);
            }
            f.ip++;
            break;
        }
        case Instruction::ICmp:
            for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = icmp(d.pred, get(f, d.a, k), get(f, d.b, k), d.w);
            f.ip++;
            break;
        case Instruction::FCmp:
            for (u32 k = 0; k < d.n; k++) {
                Val v = fcmp(s, d.pred, get(f, d.a, k), get(f, d.b, k), d.w);
                f.regs[d.dst + k] = v;
            }
            f.ip++;
            break;
        case Instruction::Select: {
            Val c = get(f, d.a);
            if (d.pred) {
                for (u32 k = 0; k < d.n; k++) {
                    Val ck = get(f, d.a, k);
                    if (!ck.e) f.regs[d.dst + k] = get(f, ck.c ? d.b : d.c, k);
                    else f.regs[d.dst + k] = eval2val(mkIte(ck.e, val2e(get(f, d.b, k), d.w), val2e(get(f, d.c, k), d.w)));
                }
            } else if (!c.e) {
                for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = get(f, c.c ? d.b : d.c, k);
            } else if (d.I->getType()->isPointerTy() || d.n > 1) {
                Val x = get(f, d.b), y = get(f, d.c);
                if (d.n == 1 && !x.e && !y.e && x.c == y.c) f.regs[d.dst] = x;
                else {
                    bool t = decide(s, c.e);
                    for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = get(f, t ? d.b : d.c, k);
                }
            } else
                f.regs[d.dst] = eval2val(mkIte(c.e, val2e(get(f, d.b), d.w), val2e(get(f, d.c), d.w)));
            f.ip++;
            break;
        }
        case Instruction::ExtractValue:
            for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = get(f, d.a, d.x->leafOff + k);
            f.ip++;
            break;
        case Instruction::InsertValue: {
            for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = get(f, d.a, k);
            for (u32 k = 0; k < d.x->t; k++) f.regs[d.dst + d.x->leafOff + k] = get(f, d.b, k);
            f.ip++;
            break;
        }
        case Instruction::ExtractElement: {
            u64 i = concretize(s, get(f, d.b), 64);
            f.regs[d.dst] = get(f, d.a, (u32)i);
            f.ip++;
            break;
        }
        case Instruction::InsertElement: {
            u64 i = concretize(s, get(f, d.c), 64);
            for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = get(f, d.a, k);
            f.regs[d.dst + i] = get(f, d.b);
            f.ip++;
            break;
        }
        case Instruction::ShuffleVector: {
            std::vector<Val> o;
            for (int m : d.x->mask) o.push_back(m < 0 ? cval(0) : (u32)m < d.x->t ? get(f, d.a, m) : get(f, d.b, m - d.x->t));
            for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = o[k];
            f.ip++;
            break;
        }
        case Instruction::Freeze:
            for (u32 k = 0; k < d.n; k++) f.regs[d.dst + k] = get(f, d.a, k);
            f.ip++;
            break;
        case Instruction::FNeg:
            for (u32 k = 0; k < d.n; k++) {
                Val v = get(f, d.a, k);
                if (!v.e) v.c ^= (u64)1 << (d.w - 1);
                else v = eval2val(mkXor(v.e, mkConst((u128)1 << (d.w - 1), d.w)));
                f.regs[d.dst + k] = v;
            }
            f.ip++;
            break;
        case Instruction::LandingPad: f.ip++; break;
        case Instruction::Fence:
            if (multi(s)) schedPoint(s, false);
            top(s).ip++;
            break;
        case Instruction::AtomicRMW: {
            if (multi(s)) schedPoint(s, false);
            Val a = cval(concretize(s, get(f, d.a), 64));
            u32 id;
            E oe;
            u64 off;
            resolve(s, a, (d.w + 7) / 8, true, id, oe, off);
            raceAccess(s, id, off, (d.w + 7) / 8, true, true);
            Val old = loadLeaf(s, s.objs[id].p, off, d.w);
            Val v = get(f, d.b), r;
            switch (d.pred) {
                case AtomicRMWInst::Xchg: r = v; break;
                case AtomicRMWInst::Add: r = binVal(s, Instruction::Add, old, v, d.w); break;
                case AtomicRMWInst::Sub: r = binVal(s, Instruction::Sub, old, v, d.w); break;
                case AtomicRMWInst::And: r = binVal(s, Instruction::And, old, v, d.w); break;
                case AtomicRMWInst::Or: r = binVal(s, Instruction::Or, old, v, d.w); break;
                case AtomicRMWInst::Xor: r = binVal(s, Instruction::Xor, old, v, d.w); break;
                case AtomicRMWInst::Max: {
                    Val c = icmp(CmpInst::ICMP_SGT, old, v, d.w);
                    r = c.e ? eval2val(mkIte(c.e, val2e(old, d.w), val2e(v, d.w))) : (c.c ? old : v);
                    break;
                }
                case AtomicRMWInst::UMax: {
                    Val c = icmp(CmpInst::ICMP_UGT, old, v, d.w);
                    r = c.e ? eval2val(mkIte(c.e, val2e(old, d.w), val2e(v, d.w))) : (c.c ? old : v);
                    break;
                }
                default: incon(s, "atomicrmw operation"); throw PathEnd{"unsupported"};
            }
            storeLeaf(s, objW(s, id), off, d.w, r);
            f.regs[d.dst] = old;
            f.ip++;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            if (multi(s)) schedPoint(s, false);
            Val a = cval(concretize(s, get(f, d.a), 64));
            u32 id;
            E oe;
            u64 off;
            resolve(s, a, (d.w + 7) / 8, true, id, oe, off);
            Val old = loadLeaf(s, s.objs[id].p, off, d.w);
            Val c = icmp(CmpInst::ICMP_EQ, old, get(f, d.b), d.w);
            bool ok = c.e ? decide(s, c.e) : c.c;
            raceAccess(s, id, off, (d.w + 7) / 8, true, true);
            if (ok) storeLeaf(s, objW(s, id), off, d.w, get(f, d.c));
            f.regs[d.dst] = old;
            f.regs[d.dst + 1] = cval(ok);
            f.ip++;
            break;
        }
        case Instruction::VAArg: incon(s, "va_arg"); throw PathEnd{"unsupported"};
        default:
            if (Instruction::isBinaryOp(d.op)) {
                binop(s, d);
                top(s).ip++;
            } else if (Instruction::isCast(d.op)) {
                doCast(s, d);
                top(s).ip++;
            } else {
                incon(s, std::string("unsupported instruction ") + d.I->getOpcodeName());
                throw PathEnd{"unsupported"};
            }
    }
    if (!s.pending.empty()) s.pending.clear();
    if (s.th[t0].status == T_RUN) s.th[t0].passed = false;
    return !s.th[0].stack.empty();
}

// ------------------------------------------------------------------ intrinsics
static E popcount(E x) {
    E r = mkConst(0, x->width);
    for (unsigned i = 0; i < x->width; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), x->width));
    return r;
}
void Exec::intrinsic(State& s, const DI& d) {
    Frame& f = top(s);
    auto arg = [&](u32 i, u32 leaf = 0) { return get(f, d.x->args[i], leaf); };
    switch (d.x->iid) {
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing:
        case Intrinsic::prefetch:
        case Intrinsic::var_annotation:
        case Intrinsic::stackrestore:
        case Intrinsic::vaend: return;
        case Intrinsic::stacksave: setRes(s, d, cval(0)); return;
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
        case Intrinsic::debugtrap: violation(s, "undefined", "undefined behaviour trap");
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy:
        case Intrinsic::annotation: setRes(s, d, arg(0)); return;
        case Intrinsic::ptrmask: setRes(s, d, binVal(s, Instruction::And, arg(0), arg(1), 64)); return;
        case Intrinsic::is_constant: setRes(s, d, cval(0)); return;
        case Intrinsic::objectsize: setRes(s, d, cval(arg(1).c ? 0 : ~0ull & (u64)maskOf(d.w))); return;
        case Intrinsic::threadlocal_address: {
            auto* gv = llvm::cast<GlobalVariable>(llvm::cast<CallBase>(d.I)->getArgOperand(0)->stripPointerCasts());
            if (s.cur == 0) {
                setRes(s, d, arg(0));
                return;
            }
            auto& tls = s.th[s.cur].tls;
            auto it = tls.find(gv);
            if (it == tls.end()) {
                u32 id = newObj(s, DL.getTypeAllocSize(gv->getValueType()), K_GLOBAL, 0x10000, true, "tls", nullptr);
                if (gv->hasInitializer()) writeConst(s, s.objs[id].p, 0, gv->getInitializer());
                it = tls.emplace(gv, s.objs[id].p->addr()).first;
            }
            setRes(s, d, cval(it->second));
            return;
        }
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: {
            Val n = arg(2);
            if (d.x->argW[2] < 64 && n.e) n = eval2val(mkZExt(n.e, 64));
            memCopy(s, arg(0), arg(1), n);
            return;
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline: {
            Val n = arg(2);
            if (d.x->argW[2] < 64 && n.e) n = eval2val(mkZExt(n.e, 64));
            memSet(s, arg(0), arg(1), n);
            return;
        }
        case Intrinsic::eh_typeid_for: {
            Val t = arg(0);
            setRes(s, d, cval((t.c >> 32) & 0x3fffffff));
            return;
        }
        case Intrinsic::vastart: {
            // only used by models through vp_vararg
            return;
        }
        case Intrinsic::ctpop:
            for (u32 k = 0; k < d.n; k++) {
                Val v = arg(0, k);
                setRes(s, d, v.e ? eval2val(popcount(v.e)) : cval(__builtin_popcountll(v.c)), k);
            }
            return;
        case Intrinsic::ctlz:
        case Intrinsic::cttz:
            for (u32 k = 0; k < d.n; k++) {
                Val v = arg(0, k);
                bool lead = d.x->iid == Intrinsic::ctlz;
                if (!v.e) {
                    u64 r = d.w;
                    for (u32 i = 0; i < d.w; i++) {
                        u32 b = lead ? d.w - 1 - i : i;
                        if ((v.c >> b) & 1) {
                            r = i;
                            break;
                        }
                    }
                    setRes(s, d, cval(r), k);
                } else {
                    E r = mkConst(d.w, d.w);
                    for (u32 i = d.w; i-- > 0;) {
                        u32 b = lead ? d.w - 1 - i : i;
                        r = mkIte(mkEq(mkExtract(v.e, b, 1), mkConst(1, 1)), mkConst(i, d.w), r);
                    }
                    setRes(s, d, eval2val(r), k);
                }
            }
            return;
        case Intrinsic::bswap:
            for (u32 k = 0; k < d.n; k++) {
                E e = val2e(arg(0, k), d.w);
                E r = nullptr;
                for (u32 i = 0; i < d.w; i += 8) {
                    E b = mkExtract(e, i, 8);
                    r = r ? mkConcat(r, b) : b;
                }
                setRes(s, d, eval2val(r), k);
            }
            return;
        case Intrinsic::bitreverse: {
            E e = val2e(arg(0), d.w);
            E r = nullptr;
            for (u32 i = 0; i < d.w; i++) {
                E b = mkExtract(e, i, 1);
                r = r ? mkConcat(r, b) : b;
            }
            setRes(s, d, eval2val(r));
            return;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr:
            for (u32 k = 0; k < d.n; k++) {
                Val a = arg(0, k), b = arg(1, k), c = arg(2, k);
                E n = mkURem(val2e(c, d.w), mkConst(d.w, d.w));
                E x = val2e(a, d.w), y = val2e(b, d.w);
                E inv = mkSub(mkConst(d.w, d.w), n);
                E r;
                if (d.x->iid == Intrinsic::fshl) r = mkOr(mkShl(x, n), mkLShr(y, inv));
                else r = mkOr(mkLShr(y, n), mkShl(x, inv));
                setRes(s, d, eval2val(r), k);
            }
            return;
        case Intrinsic::umin:
        case Intrinsic::umax:
        case Intrinsic::smin:
        case Intrinsic::smax:
            for (u32 k = 0; k < d.n; k++) {
                Val a = arg(0, k), b = arg(1, k);
                u32 p = d.x->iid == Intrinsic::umin ? CmpInst::ICMP_ULT : d.x->iid == Intrinsic::umax ? CmpInst::ICMP_UGT : d.x->iid == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
                Val c = icmp(p, a, b, d.w);
                setRes(s, d, c.e ? eval2val(mkIte(c.e, val2e(a, d.w), val2e(b, d.w))) : (c.c ? a : b), k);
            }
            return;
        case Intrinsic::abs:
            for (u32 k = 0; k < d.n; k++) {
                Val a = arg(0, k);
                E x = val2e(a, d.w);
                setRes(s, d, eval2val(mkIte(mkSlt(x, mkConst(0, d.w)), mkSub(mkConst(0, d.w), x), x)), k);
            }
            return;
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::smul_with_overflow:
        case Intrinsic::umul_with_overflow: {
            u32 w = d.w;
            if (w > 64) {
                incon(s, "wide overflow arithmetic");
                throw PathEnd{"unsupported"};
            }
            E x = val2e(arg(0), w), y = val2e(arg(1), w);
            bool sg = d.x->iid == Intrinsic::sadd_with_overflow || d.x->iid == Intrinsic::ssub_with_overflow || d.x->iid == Intrinsic::smul_with_overflow;
            bool mul = d.x->iid == Intrinsic::smul_with_overflow || d.x->iid == Intrinsic::umul_with_overflow;
            u32 W = mul ? 2 * w : w + 1;
            E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
            bool add = d.x->iid == Intrinsic::sadd_with_overflow || d.x->iid == Intrinsic::uadd_with_overflow;
            E r = add ? mkAdd(X, Y) : mul ? mkMul(X, Y) : mkSub(X, Y);
            E lo = mkExtract(r, 0, w);
            E ov = mkNe(sg ? mkSExt(lo, W) : mkZExt(lo, W), r);
            setRes(s, d, eval2val(lo), 0);
            setRes(s, d, eval2val(ov), 1);
            return;
        }
        case Intrinsic::usub_sat:
        case Intrinsic::uadd_sat: {
            E x = val2e(arg(0), d.w), y = val2e(arg(1), d.w);
            if (d.x->iid == Intrinsic::usub_sat) setRes(s, d, eval2val(mkIte(mkUlt(x, y), mkConst(0, d.w), mkSub(x, y))));
            else {
                E sum = mkAdd(x, y);
                setRes(s, d, eval2val(mkIte(mkUlt(sum, x), mkConst(maskOf(d.w), d.w), sum)));
            }
            return;
        }
        case Intrinsic::fabs:
            for (u32 k = 0; k < d.n; k++) setRes(s, d, binVal(s, Instruction::And, arg(0, k), cval((u64)maskOf(d.w - 1)), d.w), k);
            return;
        case Intrinsic::floor:
        case Intrinsic::ceil:
        case Intrinsic::trunc:
        case Intrinsic::sqrt:
        case Intrinsic::round:
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::log:
        case Intrinsic::log2:
        case Intrinsic::log10:
        case Intrinsic::exp: {
            u64 c = concretize(s, arg(0), d.w);
            double x = d.w == 32 ? (double)asF(c) : asD(c), r = 0;
            switch (d.x->iid) {
                case Intrinsic::floor: r = floor(x); break;
                case Intrinsic::ceil: r = ceil(x); break;
                case Intrinsic::trunc: r = trunc(x); break;
                case Intrinsic::sqrt: r = d.w == 32 ? sqrtf((float)x) : sqrt(x); break;
                case Intrinsic::round: r = round(x); break;
                case Intrinsic::rint:
                case Intrinsic::nearbyint: r = rint(x); break;
                case Intrinsic::log: r = d.w == 32 ? logf((float)x) : log(x); break;
                case Intrinsic::log2: r = log2(x); break;
                case Intrinsic::log10: r = log10(x); break;
                case Intrinsic::exp: r = exp(x); break;
            }
            setRes(s, d, cval(d.w == 32 ? fromF((float)r) : fromD(r)));
            return;
        }
        case Intrinsic::fmuladd:
        case Intrinsic::fma: {
            u64 a = concretize(s, arg(0), d.w), b = concretize(s, arg(1), d.w), c = concretize(s, arg(2), d.w);
            if (d.w == 32) setRes(s, d, cval(fromF(asF(a) * asF(b) + asF(c))));
            else setRes(s, d, cval(fromD(asD(a) * asD(b) + asD(c))));
            return;
        }
        case Intrinsic::pow:
        case Intrinsic::maxnum:
        case Intrinsic::minnum: {
            u64 a = concretize(s, arg(0), d.w), b = concretize(s, arg(1), d.w);
            double x = d.w == 32 ? asF(a) : asD(a), y = d.w == 32 ? asF(b) : asD(b);
            double r = d.x->iid == Intrinsic::pow ? pow(x, y) : d.x->iid == Intrinsic::maxnum ? fmax(x, y) : fmin(x, y);
            setRes(s, d, cval(d.w == 32 ? fromF((float)r) : fromD(r)));
            return;
        }
        case Intrinsic::is_fpclass: {
            // NaN tests only
            u64 mask = arg(1).c;
            Val v = arg(0);
            u32 w = d.x->argW[0];
            if (mask == 3) setRes(s, d, fcmp(s, CmpInst::FCMP_UNO, v, v, w));
            else if (mask == 0x3fc) setRes(s, d, fcmp(s, CmpInst::FCMP_ORD, v, v, w));
            else {
                incon(s, "is_fpclass");
                throw PathEnd{"unsupported"};
            }
            return;
        }
        case Intrinsic::vector_reduce_add:
        case Intrinsic::vector_reduce_or:
        case Intrinsic::vector_reduce_and:
        case Intrinsic::vector_reduce_xor: {
            u32 n = d.x->argN[0];
            u32 op = d.x->iid == Intrinsic::vector_reduce_add ? Instruction::Add : d.x->iid == Intrinsic::vector_reduce_or ? Instruction::Or : d.x->iid == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor;
            Val r = arg(0, 0);
            for (u32 k = 1; k < n; k++) r = binVal(s, op, r, arg(0, k), d.w);
            setRes(s, d, r);
            return;
        }
        default: {
            std::string n = Intrinsic::getBaseName(d.x->iid).str();
            incon(s, "unsupported intrinsic " + n);
            throw PathEnd{"unsupported"};
        }
    }
}
}  // namespace symx
