#include "prog.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <cstring>
using namespace llvm;
std::vector<Fn*> g_fns;
std::unordered_map<std::string, Fn*> g_fnByName;
std::vector<GlobalInit> g_globals;
std::unordered_map<std::string, u64> g_globalByName;
std::vector<std::pair<u32, Fn*>> g_ctors;
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const llvm::Function*, Fn*> fnMap;
static std::unordered_map<const GlobalVariable*, u64> gvAddr;
std::string demangle(const std::string& s) { return llvm::demangle(s); }
[[noreturn]] static void die(const std::string& s) {
    fprintf(stderr, "LOWERING ERROR: %s\n", s.c_str());
    exit(3);
}
static std::string str(const Value* v) {
    std::string s;
    raw_string_ostream o(s);
    v->print(o);
    return s;
}
// code of the harness itself (not the models of libstdc++ in rt_engine.cpp): its memory accesses are not the library's
static bool inHarness(const Instruction* i) {
    if(!i || !i->getDebugLoc()) return false;
    auto l = i->getDebugLoc().get();
    std::string f = l->getFilename().str();
    if(f.empty() || f[0] != '/') f = l->getDirectory().str() + "/" + f;
    return f.find("/harness/") != std::string::npos && f.find("/harness/stub/") == std::string::npos &&
           f.find("rt_engine.cpp") == std::string::npos;
}
std::string insLoc(const Instruction* i) {
    std::string r;
    const DILocation* d = i->getDebugLoc().get();
    int n = 0;
    while(d && n++ < 12) {
        if(!r.empty()) r += " <- ";
        std::string fn;
        if(auto sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
        std::string f = d->getFilename().str();
        auto p = f.rfind('/');
        if(p != std::string::npos) f = f.substr(p + 1);
        r += fn + "@" + f + ":" + std::to_string(d->getLine());
        d = d->getInlinedAt();
    }
    return r;
}
struct Leaf {
    u16 w;
    u64 off;
    u8 kind;
}; // kind 0 int/ptr, 1 fp
static void flat(Type* t, u64 off, std::vector<Leaf>& o) {
    if(auto s = dyn_cast<StructType>(t)) {
        auto L = DL->getStructLayout(s);
        for(unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + L->getElementOffset(i), o);
    } else if(auto a = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(a->getElementType());
        for(u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * sz, o);
    } else if(auto v = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeAllocSize(v->getElementType());
        for(u64 i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * sz, o);
    } else if(t->isIntegerTy())
        o.push_back({(u16)t->getIntegerBitWidth(), off, 0});
    else if(t->isPointerTy())
        o.push_back({64, off, 0});
    else if(t->isFloatTy())
        o.push_back({32, off, 1});
    else if(t->isDoubleTy())
        o.push_back({64, off, 1});
    else if(t->isX86_FP80Ty())
        o.push_back({64, off, 2});
    else if(t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {
    } else
        o.push_back({64, off, 9});
}
static std::vector<Leaf> leaves(Type* t) {
    std::vector<Leaf> v;
    flat(t, 0, v);
    return v;
}
static u16 W(Type* t) {
    auto l = leaves(t);
    return l.empty() ? 0 : l[0].w;
}
static void constVals(const Constant* c, std::vector<Val>& o);
static u64 constInt(const Constant* c) {
    std::vector<Val> v;
    constVals(c, v);
    if(v.size() != 1 || v[0].e) die("const " + str(c));
    return v[0].c;
}
static u64 fpBits(const ConstantFP* c) {
    APFloat f = c->getValueAPF();
    if(c->getType()->isX86_FP80Ty()) {
        bool li;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    }
    return f.bitcastToAPInt().getZExtValue();
}
static i64 gepConst(const GEPOperator* g) {
    APInt off(64, 0);
    if(!g->accumulateConstantOffset(*DL, off)) die("gep const");
    return off.getSExtValue();
}
static u64 fnAddr(const llvm::Function* f) { return FN_BASE | ((u64)fnMap.at(f)->id << 4); }
static void constVals(const Constant* c, std::vector<Val>& o) {
    if(auto i = dyn_cast<ConstantInt>(c)) {
        const APInt& a = i->getValue();
        if(a.getBitWidth() <= 64)
            o.push_back(CV(a.getZExtValue()));
        else {
            u128 v = ((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0);
            o.push_back(EV(mkConstWide(v, a.getBitWidth())));
        }
        return;
    }
    if(auto f = dyn_cast<ConstantFP>(c)) {
        o.push_back(CV(fpBits(f)));
        return;
    }
    if(isa<ConstantPointerNull>(c)) {
        o.push_back(CV(0));
        return;
    }
    if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        for(auto& l : leaves(c->getType())) o.push_back(l.w <= 64 ? CV(0) : EV(mkConstWide(0, l.w)));
        return;
    }
    if(isa<ConstantTokenNone>(c)) return;
    if(auto a = dyn_cast<ConstantAggregate>(c)) {
        for(auto& x : a->operands()) constVals(cast<Constant>(x), o);
        return;
    }
    if(auto a = dyn_cast<ConstantDataSequential>(c)) {
        for(unsigned i = 0; i < a->getNumElements(); i++) constVals(a->getElementAsConstant(i), o);
        return;
    }
    if(auto f = dyn_cast<llvm::Function>(c)) {
        o.push_back(CV(fnAddr(f)));
        return;
    }
    if(auto g = dyn_cast<GlobalVariable>(c)) {
        o.push_back(CV(gvAddr.at(g)));
        return;
    }
    if(auto g = dyn_cast<GlobalAlias>(c)) {
        constVals(g->getAliasee(), o);
        return;
    }
    if(auto e = dyn_cast<ConstantExpr>(c)) {
        switch(e->getOpcode()) {
        case Instruction::GetElementPtr:
            o.push_back(CV(constInt(cast<Constant>(e->getOperand(0))) + gepConst(cast<GEPOperator>(e))));
            return;
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast: {
            u64 v = constInt(e->getOperand(0));
            o.push_back(CV(v & maskw(W(e->getType()))));
            return;
        }
        case Instruction::Trunc: o.push_back(CV(constInt(e->getOperand(0)) & maskw(W(e->getType())))); return;
        case Instruction::Add:
            o.push_back(CV((constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & maskw(W(e->getType()))));
            return;
        case Instruction::Sub:
            o.push_back(CV((constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & maskw(W(e->getType()))));
            return;
        case Instruction::ICmp: {
            u64 a = constInt(e->getOperand(0)), b = constInt(e->getOperand(1));
            auto p = e->getPredicate();
            if(p == CmpInst::ICMP_EQ) {
                o.push_back(CV(a == b));
                return;
            }
            if(p == CmpInst::ICMP_NE) {
                o.push_back(CV(a != b));
                return;
            }
            break;
        }
        default:;
        }
    }
    if(auto d = dyn_cast<DSOLocalEquivalent>(c)) {
        constVals(d->getGlobalValue(), o);
        return;
    }
    die("unsupported constant " + str(c));
}
static void initBytes(const Constant* c, u8* p) {
    Type* t = c->getType();
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if(auto s = dyn_cast<ConstantStruct>(c)) {
        auto L = DL->getStructLayout(s->getType());
        for(unsigned i = 0; i < s->getNumOperands(); i++) initBytes(s->getOperand(i), p + L->getElementOffset(i));
        return;
    }
    if(isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        for(unsigned i = 0; i < c->getNumOperands(); i++) {
            Constant* x = cast<Constant>(c->getOperand(i));
            initBytes(x, p + i * DL->getTypeAllocSize(x->getType()));
        }
        return;
    }
    if(auto a = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = a->getRawDataValues();
        memcpy(p, r.data(), r.size());
        return;
    }
    if(t->isX86_FP80Ty()) die("fp80 global");
    u64 v = 0;
    if(t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
        const APInt& a = cast<ConstantInt>(c)->getValue();
        memcpy(p, a.getRawData(), DL->getTypeStoreSize(t));
        return;
    }
    v = constInt(c);
    memcpy(p, &v, std::min<u64>(8, DL->getTypeStoreSize(t)));
}
void loadProgram(const std::string& file) {
    SMDiagnostic err;
    M = parseIRFile(file, err, Ctx);
    if(!M) {
        err.print("engine", errs());
        exit(3);
    }
    DL = &M->getDataLayout();
    for(auto& f : *M) {
        Fn* n = new Fn;
        n->f = &f;
        n->name = f.getName().str();
        n->id = g_fns.size();
        n->decl = f.isDeclaration();
        g_fns.push_back(n);
        fnMap[&f] = n;
        g_fnByName[n->name] = n;
    }
    for(auto& g : M->globals()) {
        u64 id = g_globals.size();
        u64 a = (id + 1) << 32;
        gvAddr[&g] = a;
        g_globalByName[g.getName().str()] = a;
        u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
        if(g.isDeclaration()) sz = std::max<u64>(sz, 256);
        g_globals.push_back({a, sz, g.getName().str(), g.isConstant(), {}, g.isDeclaration()});
    }
    size_t i = 0;
    for(auto& g : M->globals()) {
        auto& gi = g_globals[i++];
        if(g.hasInitializer() && !g.getInitializer()->isZeroValue() && !g.getName().starts_with("llvm.")) {
            gi.bytes.assign(gi.size, 0);
            initBytes(g.getInitializer(), gi.bytes.data());
        }
    }
    if(auto* g = M->getGlobalVariable("llvm.global_ctors"))
        if(g->hasInitializer())
            if(auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
                for(auto& op : a->operands()) {
                    auto s = cast<ConstantStruct>(op);
                    u32 pr = cast<ConstantInt>(s->getOperand(0))->getZExtValue();
                    if(auto f = dyn_cast<llvm::Function>(s->getOperand(1)->stripPointerCasts()))
                        g_ctors.push_back({pr, fnMap[f]});
                }
    std::stable_sort(g_ctors.begin(), g_ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
}

struct Lower {
    Fn* F;
    std::unordered_map<const Value*, int> slot;
    std::map<const BasicBlock*, u32> bbPc;
    std::unordered_map<const Value*, int> constIdx;
    int next = 0;
    int alloc(Type* t) {
        int n = leaves(t).size();
        int s = next;
        next += n;
        return s;
    }
    int cst(const std::vector<Val>& v) {
        int i = F->consts.size();
        for(auto& x : v) F->consts.push_back(x);
        return ~i;
    }
    int cint(u64 v) { return cst({CV(v)}); }
    // operand leaf k
    int opnd(const Value* v, int k = 0) {
        if(auto c = dyn_cast<Constant>(v)) {
            auto it = constIdx.find(v);
            int b;
            if(it != constIdx.end())
                b = it->second;
            else {
                std::vector<Val> vs;
                constVals(c, vs);
                if(vs.empty()) return 0;
                b = F->consts.size();
                for(auto& x : vs) F->consts.push_back(x);
                constIdx[v] = b;
            }
            return ~(b + k);
        }
        auto it = slot.find(v);
        if(it == slot.end()) die("no slot " + str(v));
        return it->second + k;
    }
    Edge edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.target = 0;
        for(auto& phi : to->phis()) {
            const Value* v = phi.getIncomingValueForBlock(from);
            int n = leaves(phi.getType()).size();
            for(int k = 0; k < n; k++) {
                if(isa<UndefValue>(v)) {
                    e.cp.push_back({opnd(v, k), slot[&phi] + k});
                    continue;
                }
                e.cp.push_back({opnd(v, k), slot[&phi] + k});
            }
        }
        pend.push_back({nullptr, to});
        e.target = (u32)(pend.size() - 1);
        return e;
    }
    std::vector<std::pair<Edge*, const BasicBlock*>> pend;
    void fix(Edge& e) { e.target = bbPc[pend[e.target].second]; }
    void emit(Ins i, const Instruction* s) {
        i.src = s;
        i.hs = inHarness(s);
        F->code.push_back(i);
    }
    void unsup(const Instruction& I, const std::string& why) {
        Ins i{I_UNSUP};
        i.x = 0;
        emit(i, &I);
        (void)why;
    }
    void run() {
        auto& f = *F->f;
        for(auto& a : f.args()) {
            int n = leaves(a.getType()).size();
            slot[&a] = next;
            for(auto& l : leaves(a.getType())) F->argW.push_back(l.w);
            next += n;
        }
        F->nargs = next;
        F->nret = leaves(f.getReturnType()).size();
        for(auto& bb : f)
            for(auto& I : bb)
                if(!I.getType()->isVoidTy()) slot[&I] = alloc(I.getType());
        for(auto& bb : f) {
            bbPc[&bb] = F->code.size();
            for(auto& I : bb) one(I);
        }
        F->nslots = next;
        for(auto& e : F->edges) fix(e);
        for(auto& s : F->sw) {
            for(auto& c : s.cases) fix(c.second);
            fix(s.def);
        }
        for(auto& c : F->calls)
            if(c.invoke) {
                fix(c.normal);
                fix(c.unwind);
            }
    }
    void one(const Instruction& I) {
        using L = llvm::Instruction;
        Ins n{I_UNSUP};
        if(!I.getType()->isVoidTy()) n.d = slot[&I];
        Type* T = I.getType();
        auto bin = [&](IOp op) {
            auto lv = leaves(T);
            for(size_t k = 0; k < lv.size(); k++) {
                Ins m{op};
                m.w = lv[k].w;
                m.d = slot[&I] + k;
                m.a = opnd(I.getOperand(0), k);
                m.b = opnd(I.getOperand(1), k);
                emit(m, &I);
            }
        };
        switch(I.getOpcode()) {
        case L::Add: bin(I_ADD); break;
        case L::Sub: bin(I_SUB); break;
        case L::Mul: bin(I_MUL); break;
        case L::UDiv: bin(I_UDIV); break;
        case L::SDiv: bin(I_SDIV); break;
        case L::URem: bin(I_UREM); break;
        case L::SRem: bin(I_SREM); break;
        case L::And: bin(I_AND); break;
        case L::Or: bin(I_OR); break;
        case L::Xor: bin(I_XOR); break;
        case L::Shl: bin(I_SHL); break;
        case L::LShr: bin(I_LSHR); break;
        case L::AShr: bin(I_ASHR); break;
        case L::FAdd:
        case L::FSub:
        case L::FMul:
        case L::FDiv: {
            auto lv = leaves(T);
            if(lv[0].kind == 9) {
                unsup(I, "fp");
                break;
            }
            for(size_t k = 0; k < lv.size(); k++) {
                n.op = I_FBIN;
                n.sub = I.getOpcode() == L::FAdd   ? OFAdd
                        : I.getOpcode() == L::FSub ? OFSub
                        : I.getOpcode() == L::FMul ? OFMul
                                                   : OFDiv;
                n.w = lv[k].w;
                n.d = slot[&I] + k;
                n.a = opnd(I.getOperand(0), k);
                n.b = opnd(I.getOperand(1), k);
                emit(n, &I);
            }
            break;
        }
        case L::FNeg:
            n.op = I_FNEG;
            n.w = W(T);
            n.a = opnd(I.getOperand(0));
            emit(n, &I);
            break;
        case L::ICmp: {
            auto& c = cast<ICmpInst>(I);
            auto lv = leaves(c.getOperand(0)->getType());
            for(size_t k = 0; k < lv.size(); k++) {
                n.op = I_ICMP;
                n.sub = c.getPredicate();
                n.w = lv[k].w;
                n.d = slot[&I] + k;
                n.a = opnd(c.getOperand(0), k);
                n.b = opnd(c.getOperand(1), k);
                emit(n, &I);
            }
            break;
        }
        case L::FCmp: {
            auto& c = cast<FCmpInst>(I);
            n.op = I_FCMP;
            n.sub = c.getPredicate();
            n.w = W(c.getOperand(0)->getType());
            n.a = opnd(c.getOperand(0));
            n.b = opnd(c.getOperand(1));
            emit(n, &I);
            break;
        }
        case L::Trunc:
        case L::ZExt:
        case L::SExt:
        case L::PtrToInt:
        case L::IntToPtr:
        case L::BitCast:
        case L::AddrSpaceCast: {
            auto ls = leaves(I.getOperand(0)->getType()), lt = leaves(T);
            if(ls.size() != lt.size()) {
                unsup(I, "cast");
                break;
            }
            for(size_t k = 0; k < lt.size(); k++) {
                u16 a = ls[k].w, b = lt[k].w;
                Ins m{I_COPY};
                m.w = b;
                m.w2 = a;
                m.d = slot[&I] + k;
                m.a = opnd(I.getOperand(0), k);
                m.op = a == b ? I_COPY : a > b ? I_TRUNC : I.getOpcode() == L::SExt ? I_SEXT : I_ZEXT;
                emit(m, &I);
            }
            break;
        }
        case L::FPExt:
        case L::FPTrunc:
        case L::UIToFP:
        case L::SIToFP:
        case L::FPToUI:
        case L::FPToSI: {
            auto ls = leaves(I.getOperand(0)->getType()), lt = leaves(T);
            n.w = lt[0].w;
            n.w2 = ls[0].w;
            n.a = opnd(I.getOperand(0));
            n.op = I_FCONV;
            switch(I.getOpcode()) {
            case L::FPExt:
                n.sub = OFExt;
                if(n.w == n.w2) n.op = I_COPY;
                break;
            case L::FPTrunc:
                n.sub = OFTrunc;
                if(n.w == n.w2) n.op = I_COPY;
                break;
            case L::UIToFP: n.sub = OUIToFP; break;
            case L::SIToFP: n.sub = OSIToFP; break;
            case L::FPToUI: n.sub = OFPToUI; break;
            default: n.sub = OFPToSI;
            }
            emit(n, &I);
            break;
        }
        case L::Select: {
            auto lv = leaves(T);
            for(size_t k = 0; k < lv.size(); k++) {
                Ins m{I_SELECT};
                m.w = lv[k].w;
                m.d = slot[&I] + k;
                m.a = opnd(I.getOperand(0));
                m.b = opnd(I.getOperand(1), k);
                m.c = opnd(I.getOperand(2), k);
                emit(m, &I);
            }
            break;
        }
        case L::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I);
            if(T->isVectorTy()) {
                unsup(I, "vgep");
                break;
            }
            n.op = I_GEP;
            n.a = opnd(g.getPointerOperand());
            std::vector<GepIdx> ix;
            for(auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
                Value* o = gt.getOperand();
                if(auto st = gt.getStructTypeOrNull())
                    n.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(o)->getZExtValue());
                else {
                    i64 sc = DL->getTypeAllocSize(gt.getIndexedType()).getFixedValue();
                    if(auto ci = dyn_cast<ConstantInt>(o))
                        n.imm += ci->getSExtValue() * sc;
                    else
                        ix.push_back({opnd(o), sc, W(o->getType())});
                }
            }
            n.x = F->geps.size();
            F->geps.push_back(ix);
            emit(n, &I);
            break;
        }
        case L::Load: {
            auto lv = leaves(T);
            for(size_t k = 0; k < lv.size(); k++) {
                Ins m{lv[k].kind >= 2 ? I_UNSUP : I_LOAD};
                m.w = lv[k].w;
                m.d = slot[&I] + k;
                m.a = opnd(I.getOperand(0));
                m.imm = lv[k].off;
                m.sub = I.isAtomic();
                m.x = (u32)commonAlignment(cast<LoadInst>(I).getAlign(), lv[k].off).value();
                emit(m, &I);
            }
            break;
        }
        case L::Store: {
            auto lv = leaves(I.getOperand(0)->getType());
            for(size_t k = 0; k < lv.size(); k++) {
                Ins m{lv[k].kind >= 2 ? I_UNSUP : I_STORE};
                m.w = lv[k].w;
                m.b = opnd(I.getOperand(0), k);
                m.a = opnd(I.getOperand(1));
                m.imm = lv[k].off;
                m.sub = I.isAtomic();
                m.x = (u32)commonAlignment(cast<StoreInst>(I).getAlign(), lv[k].off).value();
                emit(m, &I);
            }
            break;
        }
        case L::Alloca: {
            auto& a = cast<AllocaInst>(I);
            n.op = I_ALLOCA;
            n.imm = DL->getTypeAllocSize(a.getAllocatedType()).getFixedValue();
            n.a = opnd(a.getArraySize());
            n.w = W(a.getArraySize()->getType());
            emit(n, &I);
            break;
        }
        case L::Call:
        case L::Invoke: {
            auto& cb = cast<CallBase>(I);
            if(auto ii = dyn_cast<IntrinsicInst>(&I)) {
                switch(ii->getIntrinsicID()) {
                case Intrinsic::dbg_declare:
                case Intrinsic::dbg_value:
                case Intrinsic::dbg_label:
                case Intrinsic::dbg_assign:
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::donothing:
                case Intrinsic::sideeffect:
                case Intrinsic::var_annotation:
                case Intrinsic::assume:
                case Intrinsic::invariant_start:
                case Intrinsic::invariant_end:
                case Intrinsic::prefetch:
                    if(isa<InvokeInst>(I)) break;
                    return;
                default:;
                }
            }
            CallInfo ci;
            const Value* cv = cb.getCalledOperand()->stripPointerCasts();
            if(auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
            if(auto f = dyn_cast<llvm::Function>(cv))
                ci.callee = fnMap[f];
            else if(isa<InlineAsm>(cv)) {
                ci.callee = nullptr;
                ci.calleeOp = cint(0);
            } else
                ci.calleeOp = opnd(cv);
            for(unsigned k = 0; k < cb.arg_size(); k++) {
                Value* a = cb.getArgOperand(k);
                if(a->getType()->isMetadataTy()) continue;
                auto lv = leaves(a->getType());
                u64 bv = 0;
                if(cb.isByValArgument(k)) bv = DL->getTypeAllocSize(cb.getParamByValType(k));
                for(size_t j = 0; j < lv.size(); j++) {
                    ci.args.push_back(opnd(a, j));
                    ci.argW.push_back(lv[j].w);
                    ci.byval.push_back(bv);
                }
            }
            auto lr = leaves(T);
            ci.nret = lr.size();
            ci.retW = lr.empty() ? 0 : lr[0].w;
            if(auto inv = dyn_cast<InvokeInst>(&I)) {
                ci.invoke = true;
                ci.normal = edge(I.getParent(), inv->getNormalDest());
                ci.unwind = edge(I.getParent(), inv->getUnwindDest());
            }
            n.op = I_CALL;
            n.x = F->calls.size();
            F->calls.push_back(ci);
            emit(n, &I);
            break;
        }
        case L::Br: {
            auto& b = cast<BranchInst>(I);
            if(b.isConditional()) {
                n.op = I_CBR;
                n.a = opnd(b.getCondition());
                n.b = F->edges.size();
                F->edges.push_back(edge(I.getParent(), b.getSuccessor(0)));
                n.c = F->edges.size();
                F->edges.push_back(edge(I.getParent(), b.getSuccessor(1)));
            } else {
                n.op = I_BR;
                n.b = F->edges.size();
                F->edges.push_back(edge(I.getParent(), b.getSuccessor(0)));
            }
            emit(n, &I);
            break;
        }
        case L::Switch: {
            auto& s = cast<SwitchInst>(I);
            SwitchInfo si;
            for(auto& c : s.cases())
                si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
            si.def = edge(I.getParent(), s.getDefaultDest());
            n.op = I_SWITCH;
            n.w = W(s.getCondition()->getType());
            n.a = opnd(s.getCondition());
            n.x = F->sw.size();
            F->sw.push_back(si);
            emit(n, &I);
            break;
        }
        case L::Ret: {
            n.op = I_RET;
            auto& r = cast<ReturnInst>(I);
            if(r.getReturnValue()) {
                n.a = opnd(r.getReturnValue());
                n.b = leaves(r.getReturnValue()->getType()).size();
            }
            emit(n, &I);
            break;
        }
        case L::Unreachable:
            n.op = I_UNREACH;
            emit(n, &I);
            break;
        case L::Resume:
            n.op = I_RESUME;
            n.a = opnd(I.getOperand(0));
            emit(n, &I);
            break;
        case L::LandingPad: {
            auto& lp = cast<LandingPadInst>(I);
            LpInfo li;
            li.cleanup = lp.isCleanup();
            for(unsigned k = 0; k < lp.getNumClauses(); k++) {
                if(lp.isFilter(k)) {
                    li.filter = true;
                    continue;
                }
                li.clauses.push_back(constInt(cast<Constant>(lp.getClause(k))));
            }
            n.op = I_LPAD;
            n.x = F->lps.size();
            F->lps.push_back(li);
            emit(n, &I);
            break;
        }
        case L::ExtractValue: {
            auto& ev = cast<ExtractValueInst>(I);
            Type* at = ev.getAggregateOperand()->getType();
            int base = leafIndex(at, ev.getIndices());
            int cnt = leaves(T).size();
            auto lv = leaves(T);
            for(int k = 0; k < cnt; k++) {
                Ins m{I_COPY};
                m.w = m.w2 = lv[k].w;
                m.d = slot[&I] + k;
                m.a = opnd(ev.getAggregateOperand(), base + k);
                emit(m, &I);
            }
            break;
        }
        case L::InsertValue: {
            auto& iv = cast<InsertValueInst>(I);
            auto lv = leaves(T);
            int base = leafIndex(T, iv.getIndices());
            int cnt = leaves(iv.getInsertedValueOperand()->getType()).size();
            for(int k = 0; k < (int)lv.size(); k++) {
                Ins m{I_COPY};
                m.w = m.w2 = lv[k].w;
                m.d = slot[&I] + k;
                m.a = k >= base && k < base + cnt ? opnd(iv.getInsertedValueOperand(), k - base)
                                                  : opnd(iv.getAggregateOperand(), k);
                emit(m, &I);
            }
            break;
        }
        case L::ExtractElement: {
            if(auto ci = dyn_cast<ConstantInt>(I.getOperand(1))) {
                n.op = I_COPY;
                n.w = n.w2 = W(T);
                n.a = opnd(I.getOperand(0), ci->getZExtValue());
                emit(n, &I);
            } else
                unsup(I, "extractelement");
            break;
        }
        case L::InsertElement: {
            if(auto ci = dyn_cast<ConstantInt>(I.getOperand(2))) {
                auto lv = leaves(T);
                for(size_t k = 0; k < lv.size(); k++) {
                    Ins m{I_COPY};
                    m.w = m.w2 = lv[k].w;
                    m.d = slot[&I] + k;
                    m.a = k == ci->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), k);
                    emit(m, &I);
                }
            } else
                unsup(I, "insertelement");
            break;
        }
        case L::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I);
            auto lv = leaves(T);
            int n0 = leaves(sv.getOperand(0)->getType()).size();
            for(size_t k = 0; k < lv.size(); k++) {
                int m = sv.getMaskValue(k);
                Ins c{I_COPY};
                c.w = c.w2 = lv[k].w;
                c.d = slot[&I] + k;
                c.a = m < 0 ? cint(0) : m < n0 ? opnd(sv.getOperand(0), m) : opnd(sv.getOperand(1), m - n0);
                emit(c, &I);
            }
            break;
        }
        case L::Freeze: {
            auto lv = leaves(T);
            for(size_t k = 0; k < lv.size(); k++) {
                Ins m{I_COPY};
                m.w = m.w2 = lv[k].w;
                m.d = slot[&I] + k;
                m.a = opnd(I.getOperand(0), k);
                emit(m, &I);
            }
            break;
        }
        case L::AtomicCmpXchg:
            n.op = I_CMPXCHG;
            n.w = W(I.getOperand(1)->getType());
            n.a = opnd(I.getOperand(0));
            n.b = opnd(I.getOperand(1));
            n.c = opnd(I.getOperand(2));
            emit(n, &I);
            break;
        case L::AtomicRMW:
            n.op = I_RMW;
            n.sub = cast<AtomicRMWInst>(I).getOperation();
            n.w = W(T);
            n.a = opnd(I.getOperand(0));
            n.b = opnd(I.getOperand(1));
            emit(n, &I);
            break;
        case L::Fence: break;
        case L::PHI: break;
        default: unsup(I, "op");
        }
    }
    int leafIndex(Type* t, ArrayRef<unsigned> ix) {
        int r = 0;
        for(unsigned i : ix) {
            if(auto s = dyn_cast<StructType>(t)) {
                for(unsigned k = 0; k < i; k++) r += leaves(s->getElementType(k)).size();
                t = s->getElementType(i);
            } else if(auto a = dyn_cast<ArrayType>(t)) {
                r += i * leaves(a->getElementType()).size();
                t = a->getElementType();
            }
        }
        return r;
    }
};
void lower(Fn* f) {
    if(f->lowered) return;
    f->lowered = true;
    Lower l;
    l.F = f;
    l.run();
    f->pretty = llvm::demangle(f->name);
    if(auto sp = f->f->getSubprogram()) f->file = sp->getFilename().str();
    f->repo = f->file.find("/include/nudb/") != std::string::npos;
}
