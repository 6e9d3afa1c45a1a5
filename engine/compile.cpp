// LLVM IR -> compact internal instructions (lazily, per function).
#include "eng.h"
using namespace llvm;

static unsigned scalarW(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isFP128Ty()) return 128;
    if (t->isHalfTy()) return 16;
    return 0;
}

void Eng::flatten(Type* t, Lanes& out, uint32_t off)
{
    if (t->isVoidTy() || t->isTokenTy() || t->isLabelTy() || t->isMetadataTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), out, off + (uint32_t)sl->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), out, off + (uint32_t)(i * es));
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeStoreSize(vt->getElementType());
        for (uint64_t i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), out, off + (uint32_t)(i * es));
        return;
    }
    unsigned w = scalarW(t);
    if (!w) {
        std::string s;
        raw_string_ostream o(s);
        t->print(o);
        fatal("unsupported type " + s);
    }
    out.push_back(LaneT{ (uint16_t)w, (uint16_t)((w + 7) / 8), off });
}

uint64_t Eng::globalAddr(const GlobalValue* g)
{
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    fatal("no address for global " + g->getName().str());
}

static Val apVal(const APInt& a)
{
    unsigned w = a.getBitWidth();
    if (w <= 64) return VC(a.getZExtValue());
    u128 v = 0;
    v = a.extractBitsAsZExtValue(64, 0);
    v |= (u128)a.extractBitsAsZExtValue(w - 64, 64) << 64;
    return Val{ 0, X.cst(v, w) };
}

void Eng::constLanes(const Constant* c, std::vector<Val>& out)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(apVal(ci->getValue())); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(apVal(cf->getValueAPF().bitcastToAPInt())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(VC(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        Lanes l;
        flatten(c->getType(), l, 0);
        for (auto& x : l) out.push_back(x.w <= 64 ? VC(0) : Val{ 0, X.cst(0, x.w) });
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); ++i) constLanes(cd->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); ++i) constLanes(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { constLanes(ga->getAliasee(), out); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(VC(globalAddr(g))); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) fatal("non-constant gep in constant");
                std::vector<Val> b;
                constLanes(cast<Constant>(gep->getPointerOperand()), b);
                out.push_back(VC(b[0].c + (uint64_t)off.getSExtValue()));
                return;
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr:
                constLanes(ce->getOperand(0), out);
                return;
            case Instruction::PtrToInt: {
                std::vector<Val> b;
                constLanes(ce->getOperand(0), b);
                out.push_back(VC(b[0].c & maskw(scalarW(ce->getType()))));
                return;
            }
            case Instruction::Trunc: {
                std::vector<Val> b;
                constLanes(ce->getOperand(0), b);
                out.push_back(VC(b[0].c & maskw(scalarW(ce->getType()))));
                return;
            }
            case Instruction::Add: case Instruction::Sub: case Instruction::Xor: {
                std::vector<Val> b;
                constLanes(ce->getOperand(0), b);
                constLanes(ce->getOperand(1), b);
                uint64_t r = ce->getOpcode() == Instruction::Add ? b[0].c + b[1].c : ce->getOpcode() == Instruction::Sub ? b[0].c - b[1].c : b[0].c ^ b[1].c;
                out.push_back(VC(r & maskw(scalarW(ce->getType()))));
                return;
            }
            case Instruction::ICmp: {
                std::vector<Val> b;
                constLanes(ce->getOperand(0), b);
                constLanes(ce->getOperand(1), b);
                auto p = ce->getPredicate();
                bool r = p == CmpInst::ICMP_EQ ? b[0].c == b[1].c : p == CmpInst::ICMP_NE ? b[0].c != b[1].c : p == CmpInst::ICMP_ULT ? b[0].c < b[1].c : p == CmpInst::ICMP_UGT ? b[0].c > b[1].c : false;
                out.push_back(VC(r));
                return;
            }
            default: break;
        }
    }
    std::string s;
    raw_string_ostream o(s);
    c->print(o);
    fatal("unsupported constant " + s);
}

struct FnCompiler {
    Eng& E;
    CFunc& cf;
    Function& F;
    DenseMap<const Value*, int> reg;
    DenseMap<const Constant*, int> cmap;
    DenseMap<const BasicBlock*, int> bpc;
    struct Fix { int edge; const BasicBlock* from; const BasicBlock* to; };
    std::vector<Fix> fixes;

    FnCompiler(Eng& e, CFunc& c) : E(e), cf(c), F(*c.F) {}

    int nl(Type* t) { Lanes l; E.flatten(t, l, 0); return (int)l.size(); }
    int w0(Type* t) { Lanes l; E.flatten(t, l, 0); return l.empty() ? 0 : l[0].w; }

    int cval(Val v)
    {
        cf.consts.push_back(v);
        return ~(int)(cf.consts.size() - 1);
    }
    int op(const Value* v)
    {
        auto it = reg.find(v);
        if (it != reg.end()) return it->second;
        if (auto* c = dyn_cast<Constant>(v)) {
            auto ci = cmap.find(c);
            if (ci != cmap.end()) return ci->second;
            std::vector<Val> ls;
            E.constLanes(c, ls);
            int base = (int)cf.consts.size();
            for (auto& x : ls) cf.consts.push_back(x);
            int r = ~base;
            cmap[c] = r;
            return r;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return cval(VC(0));
        E.fatal("operand without register in " + cf.name);
    }
    int newEdge(const BasicBlock* from, const BasicBlock* to)
    {
        cf.edges.emplace_back();
        fixes.push_back({ (int)cf.edges.size() - 1, from, to });
        return (int)cf.edges.size() - 1;
    }

    void call(CallBase& I, CI& ci)
    {
        ci.op = I_CALL;
        cf.calls.emplace_back();
        ci.x = (int)cf.calls.size() - 1;
        CallInfo k;
        k.dst = ci.dst;
        k.dstN = (uint16_t)nl(I.getType());
        k.dstW = (uint16_t)w0(I.getType());
        Value* cv = I.getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        unsigned nargs = I.arg_size();
        for (unsigned i = 0; i < nargs; ++i) {
            Value* a = I.getArgOperand(i);
            k.argOp.push_back(op(a));
            k.argN.push_back((uint16_t)nl(a->getType()));
            k.argW.push_back((uint16_t)w0(a->getType()));
            k.byval.push_back(I.isByValArgument(i) ? (uint32_t)E.DL->getTypeAllocSize(I.getParamByValType(i)) : 0);
        }
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
            k.normalEdge = newEdge(I.getParent(), inv->getNormalDest());
            k.unwindEdge = newEdge(I.getParent(), inv->getUnwindDest());
        }
        if (auto* fn = dyn_cast<Function>(cv)) {
            k.name = fn->getName().str();
            k.iid = fn->getIntrinsicID();
            int b = E.builtinId(k.name, fn);
            if (b >= 0) { k.kind = 2; k.builtin = b; }
            else if (!fn->isDeclaration()) { k.kind = 0; k.callee = E.getFunc(fn); }
            else k.kind = 3;
        }
        else if (auto* ia = dyn_cast<InlineAsm>(cv)) {
            k.name = "asm:" + ia->getAsmString();
            k.kind = 2;
            k.builtin = E.asmId(ia->getAsmString());
            if (k.builtin < 0) k.kind = 3;
        }
        else {
            k.kind = 1;
            k.calleeOp = op(cv);
        }
        cf.calls[ci.x] = k;
    }

    void compile()
    {
        // registers
        int n = 0;
        for (auto& a : F.args()) {
            int k = nl(a.getType());
            reg[&a] = n;
            cf.paramReg.push_back(n);
            cf.paramN.push_back((uint16_t)k);
            n += k;
        }
        for (auto& B : F)
            for (auto& I : B)
                if (!I.getType()->isVoidTy()) {
                    reg[&I] = n;
                    n += nl(I.getType());
                }
        cf.nregs = n;
        for (auto& B : F) {
            bpc[&B] = (int)cf.code.size();
            for (auto& I : B) {
                if (isa<PHINode>(I)) continue;
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                    switch (ii->getIntrinsicID()) {
                        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
                        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing:
                        case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                            if (I.getType()->isVoidTy()) continue;
                            break;
                        default: break;
                    }
                }
                CI ci;
                memset(&ci, 0, sizeof ci);
                ci.I = &I;
                ci.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
                ci.n = (uint16_t)nl(I.getType());
                ci.w = (uint16_t)w0(I.getType());
                inst(I, ci);
                cf.code.push_back(ci);
            }
        }
        for (auto& f : fixes) {
            Edge& e = cf.edges[f.edge];
            e.pc = bpc[f.to];
            for (auto& p : f.to->phis()) {
                int k = nl(p.getType());
                int src = op(p.getIncomingValueForBlock(f.from));
                int dst = reg[&p];
                for (int i = 0; i < k; ++i) {
                    int s = src >= 0 ? src + i : src - i;
                    if (s != dst + i) e.copies.push_back({ dst + i, s });
                }
            }
        }
        for (auto& s : cf.switches) {
            for (auto& c : s.cases) s.caseTarget.push_back(cf.edges[c.second].pc);
        }
    }

    void inst(Instruction& I, CI& ci)
    {
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            ci.a = op(bo->getOperand(0));
            ci.b = op(bo->getOperand(1));
            Kind k;
            switch (bo->getOpcode()) {
                case Instruction::Add: k = K_ADD; break;
                case Instruction::Sub: k = K_SUB; break;
                case Instruction::Mul: k = K_MUL; break;
                case Instruction::UDiv: k = K_UDIV; break;
                case Instruction::SDiv: k = K_SDIV; break;
                case Instruction::URem: k = K_UREM; break;
                case Instruction::SRem: k = K_SREM; break;
                case Instruction::And: k = K_AND; break;
                case Instruction::Or: k = K_OR; break;
                case Instruction::Xor: k = K_XOR; break;
                case Instruction::Shl: k = K_SHL; break;
                case Instruction::LShr: k = K_LSHR; break;
                case Instruction::AShr: k = K_ASHR; break;
                case Instruction::FAdd: k = K_FADD; break;
                case Instruction::FSub: k = K_FSUB; break;
                case Instruction::FMul: k = K_FMUL; break;
                case Instruction::FDiv: k = K_FDIV; break;
                default: ci.op = I_UNSUPPORTED; return;
            }
            ci.sub = k;
            if (k >= K_FADD) ci.op = I_FBIN;
            else if (ci.n == 1 && ci.w <= 64 && ci.w > 1 && k == K_ADD) ci.op = I_ADD;
            else if (ci.n == 1 && ci.w <= 64 && ci.w > 1 && k == K_SUB) ci.op = I_SUB;
            else if (ci.n == 1 && ci.w <= 64 && k == K_AND) ci.op = I_AND;
            else if (ci.n == 1 && ci.w <= 64 && k == K_OR) ci.op = I_OR;
            else if (ci.n == 1 && ci.w <= 64 && k == K_XOR) ci.op = I_XOR;
            else ci.op = I_BIN;
            return;
        }
        switch (I.getOpcode()) {
            case Instruction::ICmp: {
                auto* c = cast<ICmpInst>(&I);
                ci.op = I_ICMP;
                ci.a = op(c->getOperand(0));
                ci.b = op(c->getOperand(1));
                ci.w = (uint16_t)w0(c->getOperand(0)->getType());
                bool neg = false, sw = false;
                Kind k = K_EQ;
                switch (c->getPredicate()) {
                    case CmpInst::ICMP_EQ: k = K_EQ; break;
                    case CmpInst::ICMP_NE: k = K_EQ; neg = true; break;
                    case CmpInst::ICMP_ULT: k = K_ULT; break;
                    case CmpInst::ICMP_ULE: k = K_ULE; break;
                    case CmpInst::ICMP_UGT: k = K_ULT; sw = true; break;
                    case CmpInst::ICMP_UGE: k = K_ULE; sw = true; break;
                    case CmpInst::ICMP_SLT: k = K_SLT; break;
                    case CmpInst::ICMP_SLE: k = K_SLE; break;
                    case CmpInst::ICMP_SGT: k = K_SLT; sw = true; break;
                    case CmpInst::ICMP_SGE: k = K_SLE; sw = true; break;
                    default: break;
                }
                if (sw) std::swap(ci.a, ci.b);
                ci.sub = k;
                ci.flag = neg;
                return;
            }
            case Instruction::FCmp:
                ci.op = I_FCMP;
                ci.a = op(I.getOperand(0));
                ci.b = op(I.getOperand(1));
                ci.w = (uint16_t)w0(I.getOperand(0)->getType());
                ci.sub = (uint8_t)cast<FCmpInst>(&I)->getPredicate();
                return;
            case Instruction::FNeg: ci.op = I_FNEG; ci.a = op(I.getOperand(0)); return;
            case Instruction::Select: {
                ci.op = I_SELECT;
                ci.c = op(I.getOperand(0));
                ci.a = op(I.getOperand(1));
                ci.b = op(I.getOperand(2));
                ci.flag = I.getOperand(0)->getType()->isVectorTy();
                ci.sub = I.getType()->isPointerTy();
                cf.lanes.emplace_back();
                E.flatten(I.getType(), cf.lanes.back(), 0);
                ci.x = (int)cf.lanes.size() - 1;
                return;
            }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
                ci.op = I.getOpcode() == Instruction::Trunc ? I_TRUNC : I.getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT;
                ci.a = op(I.getOperand(0));
                ci.flag = (uint16_t)w0(I.getOperand(0)->getType());
                return;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                ci.a = op(I.getOperand(0));
                int sw = w0(I.getOperand(0)->getType());
                ci.flag = (uint16_t)sw;
                ci.op = sw == ci.w ? I_MOV : sw > ci.w ? I_TRUNC : I_ZEXT;
                return;
            }
            case Instruction::Freeze: case Instruction::AddrSpaceCast:
                ci.op = I_MOV;
                ci.a = op(I.getOperand(0));
                return;
            case Instruction::BitCast: {
                ci.a = op(I.getOperand(0));
                Lanes s;
                E.flatten(I.getOperand(0)->getType(), s, 0);
                if (s.size() == ci.n && s[0].w == ci.w) { ci.op = I_MOV; return; }
                ci.op = I_BITCAST;
                ci.flag = s[0].w;
                ci.x = (int)s.size();
                return;
            }
            case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                ci.op = I_FCAST;
                ci.a = op(I.getOperand(0));
                ci.flag = (uint16_t)w0(I.getOperand(0)->getType());
                switch (I.getOpcode()) {
                    case Instruction::FPToSI: ci.sub = K_FTOSI; break;
                    case Instruction::FPToUI: ci.sub = K_FTOUI; break;
                    case Instruction::SIToFP: ci.sub = K_SITOF; break;
                    case Instruction::UIToFP: ci.sub = K_UITOF; break;
                    default: ci.sub = K_FTOF;
                }
                return;
            case Instruction::Load: {
                auto* l = cast<LoadInst>(&I);
                ci.op = I_LOAD;
                ci.a = op(l->getPointerOperand());
                cf.lanes.emplace_back();
                E.flatten(I.getType(), cf.lanes.back(), 0);
                ci.x = (int)cf.lanes.size() - 1;
                ci.flag = l->isAtomic() ? (uint16_t)l->getOrdering() : 0;
                ci.imm = E.DL->getTypeStoreSize(I.getType());
                checkBitVec(I.getType());
                return;
            }
            case Instruction::Store: {
                auto* s = cast<StoreInst>(&I);
                ci.op = I_STORE;
                ci.a = op(s->getPointerOperand());
                ci.b = op(s->getValueOperand());
                Type* t = s->getValueOperand()->getType();
                ci.n = (uint16_t)nl(t);
                ci.w = (uint16_t)w0(t);
                cf.lanes.emplace_back();
                E.flatten(t, cf.lanes.back(), 0);
                ci.x = (int)cf.lanes.size() - 1;
                ci.flag = s->isAtomic() ? (uint16_t)s->getOrdering() : 0;
                ci.imm = E.DL->getTypeStoreSize(t);
                checkBitVec(t);
                return;
            }
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(&I);
                ci.op = I_ALLOCA;
                ci.a = op(a->getArraySize());
                ci.imm = E.DL->getTypeAllocSize(a->getAllocatedType());
                ci.x = (int)a->getAlign().value();
                return;
            }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I);
                if (ci.n != 1) { ci.op = I_UNSUPPORTED; return; }
                ci.op = I_GEP;
                ci.a = op(g->getPointerOperand());
                std::vector<GepIdx> ix;
                int64_t off = 0;
                for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* v = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) {
                        off += (int64_t)E.DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(v)->getZExtValue());
                        continue;
                    }
                    int64_t sc = (int64_t)it.getSequentialElementStride(*E.DL);
                    if (auto* c = dyn_cast<ConstantInt>(v)) off += sc * c->getSExtValue();
                    else ix.push_back({ op(v), (uint16_t)w0(v->getType()), sc });
                }
                ci.imm = (uint64_t)off;
                cf.geps.push_back(ix);
                ci.x = (int)cf.geps.size() - 1;
                ci.flag = (uint16_t)ix.size();
                return;
            }
            case Instruction::Br: {
                auto* b = cast<BranchInst>(&I);
                if (b->isUnconditional()) {
                    ci.op = I_BR;
                    ci.x = newEdge(I.getParent(), b->getSuccessor(0));
                }
                else {
                    ci.op = I_CBR;
                    ci.a = op(b->getCondition());
                    ci.x = newEdge(I.getParent(), b->getSuccessor(0));
                    ci.y = newEdge(I.getParent(), b->getSuccessor(1));
                }
                return;
            }
            case Instruction::Switch: {
                auto* s = cast<SwitchInst>(&I);
                ci.op = I_SWITCH;
                ci.a = op(s->getCondition());
                ci.w = (uint16_t)w0(s->getCondition()->getType());
                SwitchInfo si;
                si.defEdge = newEdge(I.getParent(), s->getDefaultDest());
                std::map<const BasicBlock*, int> ed;
                for (auto& c : s->cases()) {
                    auto* to = c.getCaseSuccessor();
                    if (!ed.count(to)) ed[to] = newEdge(I.getParent(), to);
                    std::vector<Val> v;
                    E.constLanes(c.getCaseValue(), v);
                    si.cases.push_back({ v[0].e ? cv(v[0].e) : (u128)v[0].c, ed[to] });
                }
                cf.switches.push_back(si);
                ci.x = (int)cf.switches.size() - 1;
                return;
            }
            case Instruction::Ret:
                ci.op = I_RET;
                if (I.getNumOperands()) {
                    ci.a = op(I.getOperand(0));
                    ci.n = (uint16_t)nl(I.getOperand(0)->getType());
                }
                else ci.n = 0;
                return;
            case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I), ci); return;
            case Instruction::Unreachable: ci.op = I_UNREACHABLE; return;
            case Instruction::LandingPad: {
                auto* l = cast<LandingPadInst>(&I);
                ci.op = I_LANDINGPAD;
                LPadInfo lp;
                lp.cleanup = l->isCleanup();
                for (unsigned i = 0; i < l->getNumClauses(); ++i) {
                    if (l->isCatch(i)) lp.clauses.push_back({ true, op(l->getClause(i)) });
                    else {
                        lp.clauses.push_back({ false, (int)lp.filters.size() });
                        std::vector<int> fl;
                        if (auto* ca = dyn_cast<ConstantArray>(l->getClause(i)))
                            for (unsigned j = 0; j < ca->getNumOperands(); ++j) fl.push_back(op(ca->getOperand(j)));
                        lp.filters.push_back(fl);
                    }
                }
                cf.lpads.push_back(lp);
                ci.x = (int)cf.lpads.size() - 1;
                return;
            }
            case Instruction::Resume: ci.op = I_RESUME; ci.a = op(I.getOperand(0)); return;
            case Instruction::ExtractValue: {
                auto* e = cast<ExtractValueInst>(&I);
                ci.op = I_MOV;
                int a = op(e->getAggregateOperand());
                int sk = skip(e->getAggregateOperand()->getType(), e->getIndices());
                ci.a = a >= 0 ? a + sk : a - sk;
                return;
            }
            case Instruction::InsertValue: {
                auto* e = cast<InsertValueInst>(&I);
                ci.op = I_INSERTV;
                ci.a = op(e->getAggregateOperand());
                ci.b = op(e->getInsertedValueOperand());
                ci.x = skip(e->getAggregateOperand()->getType(), e->getIndices());
                ci.y = nl(e->getInsertedValueOperand()->getType());
                return;
            }
            case Instruction::ExtractElement:
                ci.op = I_EXTRACTE;
                ci.a = op(I.getOperand(0));
                ci.b = op(I.getOperand(1));
                ci.flag = (uint16_t)w0(I.getOperand(1)->getType());
                ci.x = nl(I.getOperand(0)->getType());
                return;
            case Instruction::InsertElement:
                ci.op = I_INSERTE;
                ci.a = op(I.getOperand(0));
                ci.b = op(I.getOperand(1));
                ci.c = op(I.getOperand(2));
                ci.flag = (uint16_t)w0(I.getOperand(2)->getType());
                return;
            case Instruction::ShuffleVector: {
                auto* s = cast<ShuffleVectorInst>(&I);
                ci.op = I_SHUFFLE;
                ci.a = op(I.getOperand(0));
                ci.b = op(I.getOperand(1));
                ci.y = nl(I.getOperand(0)->getType());
                std::vector<int> m;
                for (int x : s->getShuffleMask()) m.push_back(x);
                cf.masks.push_back(m);
                ci.x = (int)cf.masks.size() - 1;
                return;
            }
            case Instruction::AtomicCmpXchg: {
                auto* c = cast<AtomicCmpXchgInst>(&I);
                ci.op = I_CMPXCHG;
                ci.a = op(c->getPointerOperand());
                ci.b = op(c->getCompareOperand());
                ci.c = op(c->getNewValOperand());
                ci.w = (uint16_t)w0(c->getCompareOperand()->getType());
                ci.imm = (ci.w + 7) / 8;
                ci.flag = (uint16_t)c->getSuccessOrdering();
                ci.sub = (uint8_t)c->getFailureOrdering();
                return;
            }
            case Instruction::AtomicRMW: {
                auto* c = cast<AtomicRMWInst>(&I);
                ci.op = I_RMW;
                ci.a = op(c->getPointerOperand());
                ci.b = op(c->getValOperand());
                ci.w = (uint16_t)w0(I.getType());
                ci.imm = (ci.w + 7) / 8;
                ci.sub = (uint8_t)c->getOperation();
                ci.flag = (uint16_t)c->getOrdering();
                return;
            }
            case Instruction::Fence: ci.op = I_FENCE; ci.flag = (uint16_t)cast<FenceInst>(&I)->getOrdering(); return;
            default: break;
        }
        ci.op = I_UNSUPPORTED;
    }
    void checkBitVec(Type* t)
    {
        if (auto* v = dyn_cast<FixedVectorType>(t))
            if (v->getElementType()->isIntegerTy() && (v->getElementType()->getIntegerBitWidth() % 8)) E.fatal("load/store of a bit vector");
    }
    int skip(Type* t, ArrayRef<unsigned> idx)
    {
        int r = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned j = 0; j < i; ++j) r += nl(st->getElementType(j));
                t = st->getElementType(i);
            }
            else {
                auto* at = cast<ArrayType>(t);
                r += (int)i * nl(at->getElementType());
                t = at->getElementType();
            }
        }
        return r;
    }
};

void Eng::compileFunc(CFunc* cf)
{
    cf->compiled = true;
    if (auto* sp = cf->F->getSubprogram()) cf->inSeq = sp->getFilename().contains(srcFilter);
    FnCompiler c(*this, *cf);
    c.compile();
}
