// vector: an argument may refer to one of the vector's own elements (C20); nothing constructed is lost or kept past
// its lifetime when an operation throws (C21).
#include "rules.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IntrinsicInst.h"

namespace {
std::string num(const Value* v) { return std::to_string((uintptr_t)v); }

class AliasRule : public Rule {
public:
    ACtx&                  C;
    std::set<const Value*> cont, self;
    int                    kD = intern("ve:disturbed"), kR = intern("ve:read");
    std::map<int, const Instruction*> at;
    AliasRule(ACtx& c)
        : C(c)
        , cont(argSet(c, "cont"))
        , self(argSet(c, "selfarg")) {}
    void bad(const std::string& m, const Instruction* I) { C.R.violate("C20", C.op.name, m, whereOf(I)); }
    bool inCont(const Value* p, const Env& env) {
        Roots r;
        rootsOf(p, env, r, true);
        for (auto* b : cont)
            if (r.deep.count(b))
                return true;
        return false;
    }
    bool isSelf(const Value* p, const Env& env) {
        Lin l = env.lin(p);
        return self.count(l.base);
    }
    // a comparison of the argument's address with the bounds of the storage
    int side(const Value* c, const Env& env, bool val) { // 1: below the first element, 2: at or past a later bound
        auto* IC = dyn_cast<ICmpInst>(c);
        if (!IC)
            return 0;
        auto p   = IC->getPredicate();
        auto ptr = [](const Value* v) {
            if (auto* P = dyn_cast<PtrToIntOperator>(v))
                return (const Value*)P->getPointerOperand();
            return v;
        };
        for (int i = 0; i < 2; ++i) {
            const Value *a = ptr(IC->getOperand(i)), *b = ptr(IC->getOperand(1 - i));
            if (!a->getType()->isPointerTy()) {
                // offset from the first element, compared as an unsigned number
                const Value* d = a;
                while (auto* I = dyn_cast<Instruction>(d))
                    if (I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::UDiv || I->getOpcode() == Instruction::AShr || I->getOpcode() == Instruction::LShr)
                        d = I->getOperand(0);
                    else
                        break;
                auto* S = dyn_cast<BinaryOperator>(d);
                if (!S || S->getOpcode() != Instruction::Sub || !self.count(env.lin(ptr(S->getOperand(0))).base))
                    continue;
                auto* LD = dyn_cast<LoadInst>(env.lin(ptr(S->getOperand(1))).base);
                if (!LD || !cont.count(env.lin(LD->getPointerOperand()).base))
                    continue;
                auto q = i ? CmpInst::getSwappedPredicate(p) : p;
                if (!val)
                    q = CmpInst::getInversePredicate(q);
                if (q == CmpInst::ICMP_UGE)
                    return 2;
                continue;
            }
            if (!b->getType()->isPointerTy())
                continue;
            auto* LD = dyn_cast<LoadInst>(env.lin(b).base);
            if (!self.count(env.lin(a).base) || !LD)
                continue;
            Lin m = env.lin(LD->getPointerOperand());
            if (!cont.count(m.base))
                continue;
            auto q = i ? CmpInst::getSwappedPredicate(p) : p;
            if (!val)
                q = CmpInst::getInversePredicate(q);
            bool first = m.off == 0 && m.terms.empty();
            if ((q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_SLT) && first)
                return 1;
            if ((q == CmpInst::ICMP_UGE || q == CmpInst::ICMP_SGE) && !first)
                return 2;
        }
        return 0;
    }
    bool implies(const Value* c, bool val, const Env& env, int d = 0) {
        if (side(c, env, val))
            return true;
        if (d > 5)
            return false;
        const Value *x = nullptr, *y = nullptr;
        bool         conj = false;
        if (auto* S = dyn_cast<SelectInst>(c); S && S->getType()->isIntegerTy(1)) {
            auto *T = dyn_cast<ConstantInt>(S->getTrueValue()), *F = dyn_cast<ConstantInt>(S->getFalseValue());
            if (F && F->isZero())
                x = S->getCondition(), y = S->getTrueValue(), conj = true;
            else if (T && T->isOne())
                x = S->getCondition(), y = S->getFalseValue();
        } else if (auto* B = dyn_cast<BinaryOperator>(c); B && B->getType()->isIntegerTy(1)) {
            if (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or)
                x = B->getOperand(0), y = B->getOperand(1), conj = B->getOpcode() == Instruction::And;
            else if (B->getOpcode() == Instruction::Xor)
                if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1)))
                    return implies(B->getOperand(0), val ^ !K->isZero(), env, d + 1);
        }
        if (!x)
            return false;
        bool l = implies(x, val, env, d + 1), r = implies(y, val, env, d + 1);
        if (conj == val)
            return l || r;
        // the whole is decided by the part whose value is not already known to be the other one
        auto known = [&](const Value* v) {
            auto t = truth(v, env);
            return t && *t != val;
        };
        return (l && r) || (l && known(y)) || (r && known(x));
    }
    bool outside(const Env& env) {
        for (auto& f : env.f)
            if (f.second.k == AV::Const && f.first->getType()->isIntegerTy(1) && implies(f.first, f.second.c != 0, env))
                return true;
        return false;
    }
    int  kOut = intern("ve:out");
    bool compared(const Env& env) {
        for (auto& f : env.f)
            if (f.second.k == AV::Const && (side(f.first, env, true) || side(f.first, env, false)))
                return true;
        return false;
    }
    // what the path knows about the argument's address is kept apart from paths that know something else
    void onEdge(const BasicBlock*, const BasicBlock*, FlowCtx& c) override {
        if (c.ps.get(kOut) == 1)
            return;
        if (outside(c.env))
            c.ps.set(kOut, 1);
        else if (compared(c.env))
            c.ps.set(kOut, 2);
    }
    void reads(const Instruction* I, FlowCtx& c) {
        C.R.count("C20.obligations");
        if (int d = c.ps.get(kD); d && c.ps.get(kOut) != 1)
            bad("reads its argument after an element it may refer to was moved, overwritten, destroyed or released (" + whereOf(at[d]).substr(0, 120) + ")", I);
    }
    // two answers to the same comparison of unchanged quantities: the path does not exist
    bool contradictory(const Env& env) {
        std::vector<std::pair<const ICmpInst*, bool>> v;
        for (auto& f : env.f)
            if (auto* IC = dyn_cast<ICmpInst>(f.first); IC && f.second.k == AV::Const)
                v.push_back({ IC, f.second.c != 0 });
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = i + 1; j < v.size(); ++j)
                if (v[i].second != v[j].second && v[i].first->getPredicate() == v[j].first->getPredicate() && sameVal(v[i].first->getOperand(0), v[j].first->getOperand(0), env) &&
                    sameVal(v[i].first->getOperand(1), v[j].first->getOperand(1), env))
                    return true;
        return false;
    }
    void disturbs(const Instruction* I, FlowCtx& c) {
        if (!c.ps.get(kD) && contradictory(c.env))
            return;
        int k  = intern("ve:at" + num(I));
        at[k]  = I;
        c.ps.set(kD, k);
    }
    // is every use of the element finished by the same call (a construction from the argument itself)?
    void onInst(const Instruction* I, FlowCtx& c) override {
        if (auto* L = dyn_cast<LoadInst>(I)) {
            if (isSelf(L->getPointerOperand(), c.env))
                reads(I, c);
            return;
        }
        if (auto* MT = dyn_cast<AnyMemTransferInst>(I)) {
            if (isSelf(MT->getRawSource(), c.env))
                reads(I, c);
            if (inCont(MT->getRawSource(), c.env) && inCont(MT->getRawDest(), c.env))
                disturbs(I, c);
            return;
        }
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB)
            return;
        const Value* p = nullptr;
        if (isFreeCall(CB, &p)) {
            if (inCont(p, c.env))
                disturbs(I, c);
            return;
        }
        Elem e = elemOf(CB);
        if (!e.is)
            return;
        if (e.src && isSelf(e.src, c.env))
            reads(I, c);
        if ((e.destroy || e.assign) && e.dst && inCont(e.dst, c.env))
            disturbs(I, c);
        if (e.move && e.src && inCont(e.src, c.env))
            disturbs(I, c);
    }
};

void run(ACtx& c) {
    if (!c.op.has("selfarg") || c.op.has("noself"))
        return;
    AliasRule r(c);
    FlowStats st;
    if (!runFlow(c.F, r, st, 400000))
        c.R.errors.push_back("state budget exceeded in " + c.op.name);
    c.R.count("C20.ops");
}
RuleReg reg("alias", run);
} // namespace
