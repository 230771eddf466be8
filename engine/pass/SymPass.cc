// LLVM pass: shadow expressions for integers, pointers and memory.
//
// Every integer or pointer valued instruction gets a shadow (an i32 id of an
// expression over symbolic bytes, zero for concrete values).  Branches on
// symbolic conditions ask the runtime, which decides with the solver which
// outcomes are possible and forks.  Whatever is not modelled concretises its
// operands (again by forking over all possible values).
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Passes/PassPlugin.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>

#include <map>
#include <set>

using namespace llvm;

namespace {

// library functions replaced by instrumented implementations
std::set<std::string> const renamed{"strlen", "strcmp", "strncmp", "memcmp", "bcmp", "memchr", "strchr", "strrchr", "strspn",
                                    "strcspn", "strnlen", "strstr", "tolower", "toupper", "isdigit", "isalpha", "isalnum",
                                    "isspace", "isupper", "islower", "strcasecmp", "strncasecmp"};
// functions of the engine that know about symbolic memory
char const *const aware[] = {"clingo_", "fmpz_", "fmpq_", "flint_", "_sym_", "symlib_"};

struct Sym {
    Module &m;
    LLVMContext &c;
    DataLayout const &dl;
    Type *i1, *i32, *i64, *ptr, *vd;
    FunctionCallee bin, cmp, cast, sel, load, store, clear, decide, conc, addr, param, begin, setarg, getret, setret, copy, fill, ptrarg, enter, reset, freed;

    Sym(Module &mod) : m{mod}, c{mod.getContext()}, dl{mod.getDataLayout()} {
        i1 = Type::getInt1Ty(c);
        i32 = Type::getInt32Ty(c);
        i64 = Type::getInt64Ty(c);
        ptr = PointerType::getUnqual(c);
        vd = Type::getVoidTy(c);
        bin = m.getOrInsertFunction("_sym_bin", i32, i32, i64, i32, i64, i32, i32);
        cmp = m.getOrInsertFunction("_sym_cmp", i32, i32, i64, i32, i64, i32, i32);
        cast = m.getOrInsertFunction("_sym_cast", i32, i32, i32, i32, i32);
        sel = m.getOrInsertFunction("_sym_select", i32, i64, i32, i64, i32, i64, i32, i32);
        load = m.getOrInsertFunction("_sym_load", i32, ptr, i32, i32);
        store = m.getOrInsertFunction("_sym_store", vd, ptr, i32, i32);
        clear = m.getOrInsertFunction("_sym_clear", vd, ptr, i64);
        decide = m.getOrInsertFunction("_sym_decide", i32, i32, i32);
        conc = m.getOrInsertFunction("_sym_conc", i64, i64, i32, i32);
        addr = m.getOrInsertFunction("_sym_addr", ptr, ptr, i32);
        begin = m.getOrInsertFunction("_sym_begin", vd, ptr);
        setarg = m.getOrInsertFunction("_sym_setarg", i64, ptr, i32, i64, i32, i32);
        param = m.getOrInsertFunction("_sym_param", i32, ptr, i32);
        getret = m.getOrInsertFunction("_sym_getret", i32, ptr);
        setret = m.getOrInsertFunction("_sym_setret", vd, i32);
        copy = m.getOrInsertFunction("_sym_copy", vd, ptr, ptr, i64);
        fill = m.getOrInsertFunction("_sym_fill", vd, ptr, i32, i64);
        ptrarg = m.getOrInsertFunction("_sym_ptrarg", vd, ptr, ptr);
        enter = m.getOrInsertFunction("_sym_enter", vd, ptr);
        reset = m.getOrInsertFunction("_sym_reset", vd);
        freed = m.getOrInsertFunction("_sym_freed", vd, ptr);
    }

    bool simple(Type *t) const { return t->isPointerTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); }
    unsigned bits(Type *t) const { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }

    std::map<Value *, Value *> shadow;
    Value *zero() { return ConstantInt::get(i32, 0); }
    Value *sh(Value *v) {
        auto it = shadow.find(v);
        return it == shadow.end() ? zero() : it->second;
    }
    bool none(Value *v) {
        auto *k = dyn_cast<ConstantInt>(sh(v));
        return k != nullptr && k->isZero();
    }
    Value *wide(IRBuilder<> &b, Value *v) {
        if (v->getType()->isPointerTy()) {
            return b.CreatePtrToInt(v, i64);
        }
        return v->getType() == i64 ? v : b.CreateZExt(v, i64);
    }
    Value *narrow(IRBuilder<> &b, Value *v, Type *t) {
        if (t->isPointerTy()) {
            return b.CreateIntToPtr(v, t);
        }
        return t == i64 ? v : b.CreateTrunc(v, t);
    }
    Value *num(uint64_t n) { return ConstantInt::get(i32, n); }

    //! Replace symbolic simple operands by concrete ones.
    void concretize(Instruction *i, unsigned from = 0) {
        IRBuilder<> b(i);
        for (unsigned k = from; k < i->getNumOperands(); ++k) {
            auto *o = i->getOperand(k);
            if (simple(o->getType()) && !none(o)) {
                auto *v = b.CreateCall(conc, {wide(b, o), sh(o), num(bits(o->getType()))});
                i->setOperand(k, narrow(b, v, o->getType()));
            }
        }
    }
    void make_addr(Instruction *i, unsigned k) {
        auto *o = i->getOperand(k);
        if (!none(o)) {
            IRBuilder<> b(i);
            auto *v = b.CreateCall(conc, {wide(b, o), sh(o), num(64)});
            i->setOperand(k, narrow(b, v, o->getType()));
        }
    }

    void call(CallBase *i) {
        if (i->isInlineAsm()) {
            concretize(i);
            return;
        }
        auto *f = i->getCalledFunction();
        StringRef name = f != nullptr ? f->getName() : "";
        IRBuilder<> b(i);
        if (auto *ii = dyn_cast<IntrinsicInst>(i)) {
            switch (ii->getIntrinsicID()) {
                case Intrinsic::memcpy:
                case Intrinsic::memmove:
                case Intrinsic::memcpy_inline: {
                    make_addr(i, 0);
                    make_addr(i, 1);
                    make_addr(i, 2);
                    b.CreateCall(copy, {i->getOperand(0), i->getOperand(1), wide(b, i->getOperand(2))});
                    return;
                }
                case Intrinsic::memset: {
                    make_addr(i, 0);
                    make_addr(i, 2);
                    b.CreateCall(fill, {i->getOperand(0), sh(i->getOperand(1)), wide(b, i->getOperand(2))});
                    return;
                }
                case Intrinsic::umin:
                case Intrinsic::umax:
                case Intrinsic::smin:
                case Intrinsic::smax: {
                    if (!simple(i->getType()) || (none(i->getOperand(0)) && none(i->getOperand(1)))) {
                        return;
                    }
                    auto *x = i->getOperand(0);
                    auto *y = i->getOperand(1);
                    auto id = ii->getIntrinsicID();
                    auto p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
                    auto *n = num(bits(x->getType()));
                    auto *cc = b.CreateCall(cmp, {num(p), wide(b, x), sh(x), wide(b, y), sh(y), n});
                    auto *cv = b.CreateZExt(b.CreateICmp(p, x, y), i64);
                    shadow[i] = b.CreateCall(sel, {cv, cc, wide(b, x), sh(x), wide(b, y), sh(y), n});
                    return;
                }
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::dbg_declare:
                case Intrinsic::dbg_value:
                case Intrinsic::dbg_label:
                case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl:
                    return;
                case Intrinsic::expect: {
                    shadow[i] = sh(i->getOperand(0));
                    return;
                }
                default: {
                    for (unsigned k = 0; k < i->arg_size(); ++k) {
                        auto *o = i->getArgOperand(k);
                        if (simple(o->getType()) && !none(o) && !i->paramHasAttr(k, Attribute::ImmArg)) {
                            auto *v = b.CreateCall(conc, {wide(b, o), sh(o), num(bits(o->getType()))});
                            i->setArgOperand(k, narrow(b, v, o->getType()));
                        }
                    }
                    return;
                }
            }
        }
        if (name == "memcpy" || name == "memmove") {
            for (unsigned k = 0; k < 3; ++k) {
                make_addr(i, k);
            }
            b.CreateCall(copy, {i->getOperand(0), i->getOperand(1), wide(b, i->getOperand(2))});
            return;
        }
        if (name == "memset") {
            make_addr(i, 0);
            make_addr(i, 2);
            auto *v = i->getOperand(1);
            b.CreateCall(fill, {i->getOperand(0), none(v) ? zero() : b.CreateCall(cast, {num(Instruction::Trunc), sh(v), num(32), num(8)}), wide(b, i->getOperand(2))});
            return;
        }
        if (name == "free" || name == "_ZdlPv" || name == "_ZdlPvm") {
            b.CreateCall(freed, {i->getOperand(0)});
            return;
        }
        bool alloc = name == "_Znwm" || name == "malloc" || name == "calloc" || name == "_Znam";
        if (alloc) {
            make_addr(i, 0);
        }
        if (renamed.count(name.str()) != 0 && f->isDeclaration()) {
            auto nf = m.getOrInsertFunction(("symlib_" + name).str(), f->getFunctionType());
            i->setCalledFunction(nf);
            f = dyn_cast<Function>(nf.getCallee());
            name = f->getName();
        }
        bool known = f != nullptr && !f->isDeclaration();
        bool know_about = false;
        for (auto const *p : aware) {
            know_about = know_about || name.starts_with(p);
        }
        auto *callee = i->getCalledOperand();
        b.CreateCall(begin, {callee});
        for (unsigned k = 0; k < i->arg_size(); ++k) {
            auto *o = i->getArgOperand(k);
            if (!simple(o->getType())) {
                continue;
            }
            if (!none(o)) {
                auto *v = b.CreateCall(setarg, {callee, num(k), wide(b, o), sh(o), num(bits(o->getType()))});
                i->setArgOperand(k, narrow(b, v, o->getType()));
            }
            if (i->isByValArgument(k)) {
                b.CreateCall(ptrarg, {ConstantPointerNull::get(cast_ptr()), i->getArgOperand(k)});
            } else if (o->getType()->isPointerTy() && !known && !know_about && !isa<Constant>(o)) {
                b.CreateCall(ptrarg, {callee, i->getArgOperand(k)});
            }
        }
        if (simple(i->getType()) || alloc) {
            Instruction *at = nullptr;
            if (auto *inv = dyn_cast<InvokeInst>(i)) {
                // the edge was split if needed
                at = &*inv->getNormalDest()->getFirstInsertionPt();
            } else if (!i->isMustTailCall()) {
                at = i->getNextNode();
            }
            if (at != nullptr) {
                IRBuilder<> a(at);
                if (alloc) {
                    a.CreateCall(freed, {i});
                } else {
                    late.emplace_back(i, a.CreateCall(getret, {callee}));
                }
            }
        }
    }
    std::vector<std::pair<Value *, Value *>> late;

    void run(Function &f) {
        shadow.clear();
        late.clear();
        // results of invokes need a block of their own
        std::vector<InvokeInst *> invs;
        for (auto &bb : f) {
            if (auto *inv = dyn_cast<InvokeInst>(bb.getTerminator())) {
                if (inv->getNormalDest()->getSinglePredecessor() == nullptr) {
                    invs.push_back(inv);
                }
            }
        }
        for (auto *inv : invs) {
            auto *from = inv->getParent();
            auto *to = inv->getNormalDest();
            auto *mid = BasicBlock::Create(c, "", &f, to);
            BranchInst::Create(to, mid);
            inv->setNormalDest(mid);
            to->replacePhiUsesWith(from, mid);
        }
        std::vector<Instruction *> all;
        // defs before uses: reverse post order
        std::vector<BasicBlock *> order;
        std::set<BasicBlock *> seen;
        std::function<void(BasicBlock *)> dfs = [&](BasicBlock *bb) {
            std::vector<std::pair<BasicBlock *, unsigned>> st{{bb, 0}};
            seen.insert(bb);
            while (!st.empty()) {
                auto &[x, k] = st.back();
                auto *t = x->getTerminator();
                if (k < t->getNumSuccessors()) {
                    auto *s = t->getSuccessor(k++);
                    if (seen.insert(s).second) {
                        st.emplace_back(s, 0);
                    }
                } else {
                    order.push_back(x);
                    st.pop_back();
                }
            }
        };
        dfs(&f.getEntryBlock());
        std::reverse(order.begin(), order.end());
        for (auto *bb : order) {
            for (auto &i : *bb) {
                all.push_back(&i);
            }
        }
        {
            IRBuilder<> b(&*f.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
            // after the allocas
            b.CreateCall(enter, {&f});
            unsigned k = 0;
            for (auto &a : f.args()) {
                if (simple(a.getType())) {
                    shadow[&a] = b.CreateCall(param, {&f, num(k)});
                }
                ++k;
            }
            b.CreateCall(reset, {});
        }
        // phis first
        std::vector<std::pair<PHINode *, PHINode *>> phis;
        for (auto *i : all) {
            if (auto *p = dyn_cast<PHINode>(i); p != nullptr && simple(p->getType())) {
                IRBuilder<> b(p);
                auto *s = b.CreatePHI(i32, p->getNumIncomingValues());
                shadow[p] = s;
                phis.emplace_back(p, s);
            }
        }
        for (auto *i : all) {
            one(i);
        }
        for (auto &[p, s] : phis) {
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                s->addIncoming(sh(p->getIncomingValue(k)), p->getIncomingBlock(k));
            }
        }
    }

    void one(Instruction *i) {
        IRBuilder<> b(i);
        for (size_t k = 0; k < late.size(); ++k) {
            shadow[late[k].first] = late[k].second;
        }
        late.clear();
        auto after = [&]() { return IRBuilder<>(i->getNextNode()); };
        if (isa<PHINode>(i)) {
            return; // non simple phis carry no shadow
        }
        if (auto *a = dyn_cast<AllocaInst>(i)) {
            if (a->isStaticAlloca()) {
                auto sz = a->getAllocationSize(dl);
                IRBuilder<> e(&*i->getFunction()->getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
                if (sz) {
                    e.CreateCall(clear, {a, ConstantInt::get(i64, sz->getFixedValue())});
                }
            }
            return;
        }
        if (auto *o = dyn_cast<BinaryOperator>(i)) {
            if (!simple(i->getType())) {
                return;
            }
            auto *x = i->getOperand(0);
            auto *y = i->getOperand(1);
            if (none(x) && none(y)) {
                return;
            }
            switch (o->getOpcode()) {
                case Instruction::SDiv:
                case Instruction::UDiv:
                case Instruction::SRem:
                case Instruction::URem: {
                    // no traps on stale values
                    if (!none(y)) {
                        concretize(i);
                        return;
                    }
                    break;
                }
                default: {
                    break;
                }
            }
            shadow[i] = b.CreateCall(bin, {num(o->getOpcode()), wide(b, x), sh(x), wide(b, y), sh(y), num(bits(i->getType()))});
            return;
        }
        if (auto *o = dyn_cast<ICmpInst>(i)) {
            auto *x = i->getOperand(0);
            auto *y = i->getOperand(1);
            if (!simple(x->getType()) || (none(x) && none(y))) {
                return;
            }
            shadow[i] = b.CreateCall(cmp, {num(o->getPredicate()), wide(b, x), sh(x), wide(b, y), sh(y), num(bits(x->getType()))});
            return;
        }
        if (auto *o = dyn_cast<CastInst>(i)) {
            auto *x = i->getOperand(0);
            if (none(x)) {
                return;
            }
            if (simple(x->getType()) && simple(i->getType())) {
                unsigned op = o->getOpcode();
                unsigned from = bits(x->getType());
                unsigned to = bits(i->getType());
                if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast) {
                    op = from > to ? Instruction::Trunc : Instruction::ZExt;
                }
                shadow[i] = b.CreateCall(cast, {num(op), sh(x), num(from), num(to)});
                return;
            }
            concretize(i);
            return;
        }
        if (auto *o = dyn_cast<FreezeInst>(i)) {
            shadow[i] = sh(o->getOperand(0));
            return;
        }
        if (auto *o = dyn_cast<SelectInst>(i)) {
            auto *cc = o->getCondition();
            if (cc->getType() != i1) {
                concretize(i);
                return;
            }
            if (simple(i->getType())) {
                auto *x = o->getTrueValue();
                auto *y = o->getFalseValue();
                if (none(cc) && none(x) && none(y)) {
                    return;
                }
                shadow[i] = b.CreateCall(sel, {wide(b, cc), sh(cc), wide(b, x), sh(x), wide(b, y), sh(y), num(bits(i->getType()))});
                return;
            }
            if (!none(cc)) {
                auto *d = b.CreateCall(decide, {b.CreateZExt(cc, i32), sh(cc)});
                o->setCondition(b.CreateTrunc(d, i1));
            }
            return;
        }
        if (auto *o = dyn_cast<LoadInst>(i)) {
            auto *p = o->getPointerOperand();
            auto sz = dl.getTypeStoreSize(i->getType()).getFixedValue();
            if (simple(i->getType()) && sz <= 8) {
                auto *s = sh(p);
                bool sym = !none(p);
                if (isa<Constant>(p) && !sym) {
                    if (auto *g = dyn_cast<GlobalVariable>(p); g != nullptr && g->isConstant()) {
                        return;
                    }
                }
                // the shadow of a load of 8 bytes is looked up at the symbolic address
                auto *v = b.CreateCall(load, {p, s, num(sz)});
                if (i->getType() == i1) {
                    v = b.CreateCall(cast, {num(Instruction::Trunc), v, num(8), num(1)});
                }
                shadow[i] = v;
                if (sym) {
                    o->setOperand(o->getPointerOperandIndex(), b.CreateCall(addr, {p, s}));
                }
                return;
            }
            make_addr(i, o->getPointerOperandIndex());
            b.CreateCall(ptrarg, {ConstantPointerNull::get(cast_ptr()), o->getPointerOperand()});
            return;
        }
        if (auto *o = dyn_cast<StoreInst>(i)) {
            auto *v = o->getValueOperand();
            auto sz = dl.getTypeStoreSize(v->getType()).getFixedValue();
            make_addr(i, o->getPointerOperandIndex());
            Value *s = zero();
            if (simple(v->getType())) {
                s = sh(v);
                if (v->getType() == i1 && !none(v)) {
                    s = b.CreateCall(cast, {num(Instruction::ZExt), s, num(1), num(8)});
                }
            }
            b.CreateCall(store, {o->getPointerOperand(), num(sz), s});
            return;
        }
        if (auto *o = dyn_cast<GetElementPtrInst>(i)) {
            if (i->getType()->isVectorTy()) {
                return;
            }
            bool any = false;
            for (auto &u : o->operands()) {
                any = any || !none(u);
            }
            if (!any) {
                return;
            }
            MapVector<Value *, APInt> vars;
            APInt off(64, 0);
            if (!o->collectOffset(dl, 64, vars, off)) {
                concretize(i);
                return;
            }
            Value *acc = wide(b, o->getPointerOperand());
            Value *s = sh(o->getPointerOperand());
            auto step = [&](Value *v, Value *vs) {
                s = b.CreateCall(bin, {num(Instruction::Add), acc, s, v, vs, num(64)});
                acc = b.CreateAdd(acc, v);
            };
            for (auto &[v, scale] : vars) {
                Value *w = v;
                Value *ws = sh(v);
                if (bits(v->getType()) < 64) {
                    w = b.CreateSExt(v, i64);
                    if (!none(v)) {
                        ws = b.CreateCall(cast, {num(Instruction::SExt), ws, num(bits(v->getType())), num(64)});
                    }
                }
                auto *k = ConstantInt::get(i64, scale);
                auto *ms = none(v) ? zero() : b.CreateCall(bin, {num(Instruction::Mul), w, ws, k, zero(), num(64)});
                step(b.CreateMul(w, k), ms);
            }
            step(ConstantInt::get(i64, off), zero());
            shadow[i] = s;
            return;
        }
        if (auto *o = dyn_cast<BranchInst>(i)) {
            if (o->isConditional() && !none(o->getCondition())) {
                auto *d = b.CreateCall(decide, {b.CreateZExt(o->getCondition(), i32), sh(o->getCondition())});
                o->setCondition(b.CreateTrunc(d, i1));
            }
            return;
        }
        if (auto *o = dyn_cast<ReturnInst>(i)) {
            if (o->getReturnValue() != nullptr && simple(o->getReturnValue()->getType())) {
                // a musttail call must stay in front of the return
                if (i->getPrevNode() == nullptr || !isa<CallInst>(i->getPrevNode()) || !cast_call(i->getPrevNode())->isMustTailCall()) {
                    b.CreateCall(setret, {sh(o->getReturnValue())});
                }
            }
            return;
        }
        if (auto *o = dyn_cast<CallBase>(i)) {
            call(o);
            return;
        }
        static_cast<void>(after);
        concretize(i);
    }
    PointerType *cast_ptr() { return PointerType::getUnqual(c); }
    CallInst *cast_call(Instruction *i) { return dyn_cast<CallInst>(i); }
};

struct SymPass : PassInfoMixin<SymPass> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module &m, ModuleAnalysisManager &) {
        Sym s(m);
        std::vector<Function *> fs;
        for (auto &f : m) {
            if (!f.isDeclaration() && !f.hasSection() && !f.getName().starts_with("_sym_")) {
                fs.push_back(&f);
            }
        }
        for (auto *f : fs) {
            s.run(*f);
        }
        // register the instrumented functions
        auto *reg = Function::Create(FunctionType::get(s.vd, false), GlobalValue::InternalLinkage, "_sym_module_register", m);
        auto *bb = BasicBlock::Create(s.c, "", reg);
        IRBuilder<> b(bb);
        auto r = m.getOrInsertFunction("_sym_register", s.vd, s.ptr);
        for (auto *f : fs) {
            b.CreateCall(r, {f});
        }
        b.CreateRetVoid();
        appendToGlobalCtors(m, reg, 0);
        return PreservedAnalyses::none();
    }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &pb) {
                pb.registerOptimizerLastEPCallback([](ModulePassManager &mpm, OptimizationLevel) {
                    mpm.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass()));
                    mpm.addPass(SymPass());
                });
            }};
}
